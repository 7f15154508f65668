/* builders for small in-memory datasets */
#include "oifile.h"
#include "oicheck.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oiiter.h"
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define NEW(T) ((T *)calloc(1, sizeof(T)))
#define UNUSED __attribute__((unused))
UNUSED static void mk_header(oi_fits *o) {
  memset(&o->header, 0, sizeof o->header); strcpy(o->header.content, "OIFITS2"); strcpy(o->header.date_obs, "2020-01-01");
  strcpy(o->header.origin, "O"); strcpy(o->header.telescop, "T"); strcpy(o->header.instrume, "I"); strcpy(o->header.observer, "X"); strcpy(o->header.insmode, "M"); strcpy(o->header.object, "OBJ"); strcpy(o->header.date, "2020-01-01"); }
UNUSED static void mk_targets(oi_fits *o, int n, int cat) {
  alloc_oi_target(&o->targets, n); o->targets.revision = 2; o->targets.usecategory = cat;
  for (int i = 0; i < n; i++) { target *t = &o->targets.targ[i]; memset(t, 0, sizeof *t); t->target_id = i + 1; sprintf(t->target, "T%d", i + 1); strcpy(t->category, "SCI"); t->equinox = 2000; strcpy(t->veltyp, "LSR"); strcpy(t->veldef, "RADIO"); t->raep0 = i; } }
UNUSED static oi_array *mk_array(oi_fits *o, const char *n, int ne) {
  oi_array *a = NEW(oi_array); a->revision = 2; strcpy(a->arrname, n); strcpy(a->frame, "GEOCENTRIC"); alloc_oi_array(a, ne);
  for (int i = 0; i < ne; i++) { memset(&a->elem[i], 0, sizeof(element)); a->elem[i].sta_index = i + 1; a->elem[i].diameter = 1; a->elem[i].staxyz[0] = i; sprintf(a->elem[i].sta_name, "S%d", i); sprintf(a->elem[i].tel_name, "U%d", i); strcpy(a->elem[i].fovtype, "FWHM"); }
  o->arrayList = g_list_append(o->arrayList, a); o->numArray++; g_hash_table_insert(o->arrayHash, a->arrname, a); return a; }
UNUSED static oi_wavelength *mk_wave(oi_fits *o, const char *n, int nw) {
  oi_wavelength *w = NEW(oi_wavelength); w->revision = 2; strcpy(w->insname, n); alloc_oi_wavelength(w, nw);
  for (int i = 0; i < nw; i++) { w->eff_wave[i] = (1 + i) * 1e-6; w->eff_band[i] = 1e-8; }
  o->wavelengthList = g_list_append(o->wavelengthList, w); o->numWavelength++; g_hash_table_insert(o->wavelengthHash, w->insname, w); return w; }
UNUSED static oi_corr *mk_corr(oi_fits *o, const char *n, int nc) {
  oi_corr *c = NEW(oi_corr); c->revision = 1; strcpy(c->corrname, n); alloc_oi_corr(c, nc); c->ndata = 10;
  for (int i = 0; i < nc; i++) { c->iindx[i] = 1; c->jindx[i] = 2 + i; c->corr[i] = .5; }
  o->corrList = g_list_append(o->corrList, c); o->numCorr++; g_hash_table_insert(o->corrHash, c->corrname, c); return c; }
#define NAMES(t) strcpy(t->arrname, an); strcpy(t->insname, in); strcpy(t->date_obs, "2020-01-01")
UNUSED static oi_vis2 *mk_vis2(oi_fits *o, const char *an, const char *in, int nr, int nw) {
  oi_vis2 *t = NEW(oi_vis2); t->revision = 2; NAMES(t); alloc_oi_vis2(t, nr, nw);
  for (int r = 0; r < nr; r++) { oi_vis2_record *R = &t->record[r]; R->target_id = 1; R->time = 0; R->mjd = 58849 + r; R->int_time = 1; R->ucoord = 30; R->vcoord = 40; R->sta_index[0] = 1; R->sta_index[1] = 2; R->corrindx_vis2data = 1 + r * nw;
    for (int i = 0; i < nw; i++) { R->vis2data[i] = .5 + i; R->vis2err[i] = .05; R->flag[i] = 0; } }
  o->vis2List = g_list_append(o->vis2List, t); o->numVis2++; return t; }
UNUSED static oi_vis *mk_vis(oi_fits *o, const char *an, const char *in, int nr, int nw) {
  oi_vis *t = NEW(oi_vis); t->revision = 2; NAMES(t); alloc_oi_vis(t, nr, nw);
  for (int r = 0; r < nr; r++) { oi_vis_record *R = &t->record[r]; R->target_id = 1; R->time = 0; R->mjd = 58849 + r; R->int_time = 1; R->ucoord = 30; R->vcoord = 40; R->sta_index[0] = 1; R->sta_index[1] = 2;
    for (int i = 0; i < nw; i++) { R->visamp[i] = .5 + i; R->visamperr[i] = .05; R->visphi[i] = 10 + i; R->visphierr[i] = 1; R->flag[i] = 0; } }
  o->visList = g_list_append(o->visList, t); o->numVis++; return t; }
UNUSED static oi_t3 *mk_t3(oi_fits *o, const char *an, const char *in, int nr, int nw) {
  oi_t3 *t = NEW(oi_t3); t->revision = 2; NAMES(t); alloc_oi_t3(t, nr, nw);
  for (int r = 0; r < nr; r++) { oi_t3_record *R = &t->record[r]; R->target_id = 1; R->time = 0; R->mjd = 58849 + r; R->int_time = 1; R->u1coord = 30; R->v1coord = 40; R->u2coord = 10; R->v2coord = 20; for (int k = 0; k < 3; k++) R->sta_index[k] = k + 1;
    for (int i = 0; i < nw; i++) { R->t3amp[i] = .5 + i; R->t3amperr[i] = .05; R->t3phi[i] = 10 + i; R->t3phierr[i] = 1; R->flag[i] = 0; } }
  o->t3List = g_list_append(o->t3List, t); o->numT3++; return t; }
UNUSED static oi_flux *mk_flux(oi_fits *o, const char *an, const char *in, int nr, int nw) {
  oi_flux *t = NEW(oi_flux); t->revision = 1; NAMES(t); t->calstat = 'U'; strcpy(t->fluxunit, "Jy"); alloc_oi_flux(t, nr, nw);
  for (int r = 0; r < nr; r++) { oi_flux_record *R = &t->record[r]; R->target_id = 1; R->mjd = 58849 + r; R->int_time = 1; R->sta_index = 1; R->corrindx_fluxdata = 1;
    for (int i = 0; i < nw; i++) { R->fluxdata[i] = .5 + i; R->fluxerr[i] = .05; R->flag[i] = 0; } }
  o->fluxList = g_list_append(o->fluxList, t); o->numFlux++; return t; }
UNUSED static oi_inspol *mk_inspol(oi_fits *o, const char *an, const char *in, int nr, int nw) {
  oi_inspol *t = NEW(oi_inspol); t->revision = 1; t->npol = 1; strcpy(t->arrname, an); strcpy(t->date_obs, "2020-01-01"); strcpy(t->orient, "NORTH"); strcpy(t->model, "M"); alloc_oi_inspol(t, nr, nw);
  for (int r = 0; r < nr; r++) { oi_inspol_record *R = &t->record[r]; R->target_id = 1; R->mjd_obs = 58849; R->mjd_end = 58850; R->sta_index = 1; strcpy(R->insname, in);
    for (int i = 0; i < nw; i++) { R->jxx[i] = 1 + i; R->jyy[i] = 2 + i * I; R->jxy[i] = 3 + i * I; R->jyx[i] = 4 + i * I; } }
  o->inspolList = g_list_append(o->inspolList, t); o->numInspol++; return t; }
