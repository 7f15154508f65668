/* Concrete demonstrations of the defects repaired by the fix: commits in /repo.
   Usage: demo N; exit 0 when behaviour is right.  Build with demo.sh. */
#include "oifile.h"
#include "oicheck.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oiiter.h"
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char fn[64];
static void arr(oi_fits *o, const char *n, double x) {
  oi_array *a = malloc(sizeof *a); memset(a, 0, sizeof *a); a->revision = 2; strcpy(a->arrname, n); strcpy(a->frame, "GEOCENTRIC");
  alloc_oi_array(a, 1); memset(a->elem, 0, sizeof(element)); a->elem[0].sta_index = 1; a->elem[0].staxyz[0] = x; strcpy(a->elem[0].fovtype, "FWHM");
  o->arrayList = g_list_append(o->arrayList, a); o->numArray++; g_hash_table_insert(o->arrayHash, a->arrname, a); }
static void wav(oi_fits *o, int nw) {
  oi_wavelength *w = malloc(sizeof *w); memset(w, 0, sizeof *w); w->revision = 2; strcpy(w->insname, "INS"); alloc_oi_wavelength(w, nw);
  for (int i = 0; i < nw; i++) { w->eff_wave[i] = 1e-6; w->eff_band[i] = 1e-8; }
  o->wavelengthList = g_list_append(o->wavelengthList, w); o->numWavelength++; g_hash_table_insert(o->wavelengthHash, w->insname, w); }
static void targ(oi_fits *o, int n, int cat) {
  o->targets.usecategory = cat; alloc_oi_target(&o->targets, n); o->targets.revision = 2;
  for (int i = 0; i < n; i++) { memset(&o->targets.targ[i], 0, sizeof(target)); o->targets.targ[i].target_id = i + 1; sprintf(o->targets.targ[i].target, "T%d", i); strcpy(o->targets.targ[i].category, "SCI"); } }
static void hdr(oi_fits *o) { memset(&o->header, 0, sizeof o->header); strcpy(o->header.content, "OIFITS2"); strcpy(o->header.date_obs, "2020-01-01"); }
int main(int c, char **v) {
  int st = 0; oi_fits o, p; fitsfile *f; (void)c; sprintf(fn, "!demo-%d.fits", (int)getpid());
  char *rd = fn + 1;
  init_oi_fits(&o); hdr(&o); targ(&o, 2, 1); arr(&o, "ARR", 1.); wav(&o, 2);
  switch (atoi(v[1])) {
  case 1: { oi_inspol t; memset(&t, 0, sizeof t); t.revision = 1; t.npol = 1; strcpy(t.arrname, "ARR"); strcpy(t.date_obs, "2020-01-01"); alloc_oi_inspol(&t, 1, 2);
    memset(t.record[0].insname, 0, 10); strcpy(t.record[0].insname, "INS"); t.record[0].target_id = 1; t.record[0].sta_index = 1;
    for (int i = 0; i < 2; i++) t.record[0].jxx[i] = t.record[0].jyy[i] = t.record[0].jxy[i] = t.record[0].jyx[i] = 1 + 2 * I;
    o.inspolList = g_list_append(o.inspolList, &t); o.numInspol++; write_oi_fits(fn, o, &st); read_oi_fits(rd, &p, &st); unlink(rd);
    if (st) return 2; oi_inspol *q = p.inspolList->data; return !(cimagf(q->record[0].jxx[1]) == 2.f && crealf(q->record[0].jyx[0]) == 1.f); }
  case 2: { long ax[1] = {4}; fits_create_file(&f, fn, &st); write_oi_header(f, o.header, &st); fits_create_img(f, 8, 1, ax, &st);
    write_oi_array(f, *(oi_array *)o.arrayList->data, 1, &st); oi_array a; read_oi_array(f, "ARR", &a, &st); int s2 = 0; fits_close_file(f, &s2); unlink(rd); return st != 0; }
  case 3: { oi_flux t; memset(&t, 0, sizeof t); t.revision = 1; strcpy(t.insname, "INS"); strcpy(t.arrname, "ARR"); t.calstat = 'U'; strcpy(t.date_obs, "2020-01-01"); strcpy(t.fluxunit, "Jy");
    alloc_oi_flux(&t, 1, 2); t.record[0].target_id = 1; t.record[0].mjd = 5e4; t.record[0].int_time = 1; t.record[0].sta_index = 1; for (int i = 0; i < 2; i++) { t.record[0].fluxdata[i] = 1; t.record[0].fluxerr[i] = 1; t.record[0].flag[i] = 0; }
    fits_create_file(&f, fn, &st); write_oi_header(f, o.header, &st); write_oi_flux(f, t, 1, &st); int cn; fits_get_colnum(f, 0, "FLUXERR", &cn, &st); fits_delete_col(f, cn, &st);
    fits_write_chksum(f, &st); int ht; fits_movabs_hdu(f, 1, &ht, &st); if (st) return 2; oi_flux r; oi_hush_errors = 1; read_next_oi_flux(f, &r, &st); int s2 = 0; fits_close_file(f, &s2); unlink(rd); return st == 0; }
  case 4: { oi_vis2 t; memset(&t, 0, sizeof t); t.revision = 2; alloc_oi_vis2(&t, 1, 20000); strcpy(t.insname, "INS"); strcpy(t.arrname, "ARR"); strcpy(t.date_obs, "2020-01-01");
    memset(t.record[0].flag, 0, 20000); memset(t.record[0].vis2data, 0, 160000); memset(t.record[0].vis2err, 0, 160000); fits_create_file(&f, fn, &st); write_oi_header(f, o.header, &st); write_oi_vis2(f, t, 1, &st); int s2 = 0; fits_close_file(f, &s2); unlink(rd); return st != 0; }
  case 5: { oi_vis t; memset(&t, 0, sizeof t); alloc_oi_vis(&t, 1, 1); t.usecomplex = 1; t.record[0].rvis = malloc(8); t.record[0].rviserr = malloc(8); t.record[0].ivis = malloc(8); t.record[0].iviserr = malloc(8);
    t.record[0].rviserr[0] = 1; t.record[0].iviserr[0] = 7; oi_vis *d = dup_oi_vis(&t); return d->record[0].iviserr[0] != 7; }
  case 6: { oi_corr k; memset(&k, 0, sizeof k); k.revision = 1; strcpy(k.corrname, "C"); alloc_oi_corr(&k, 1); k.ndata = 2; k.iindx[0] = 1; k.jindx[0] = 2; k.corr[0] = .5; o.corrList = g_list_append(o.corrList, &k); o.numCorr++;
    oi_flux t; memset(&t, 0, sizeof t); t.revision = 1; strcpy(t.insname, "INS"); strcpy(t.arrname, "ARR"); strcpy(t.corrname, "C"); t.calstat = 'U'; strcpy(t.date_obs, "2020-01-01"); strcpy(t.fluxunit, "Jy");
    alloc_oi_flux(&t, 1, 2); t.record[0].target_id = 1; t.record[0].mjd = 5e4; t.record[0].corrindx_fluxdata = 1; t.record[0].sta_index = 1; for (int i = 0; i < 2; i++) { t.record[0].fluxdata[i] = 1; t.record[0].fluxerr[i] = 1; t.record[0].flag[i] = 0; }
    o.fluxList = g_list_append(o.fluxList, &t); o.numFlux++; write_oi_fits(fn, o, &st); read_oi_fits(rd, &p, &st); unlink(rd); if (st) return 2; oi_check_result r; return check_corr_present(&p, &r) != OI_BREACH_NONE; }
  case 7: case 8: { oi_inspol t; memset(&t, 0, sizeof t); t.revision = 1; alloc_oi_inspol(&t, 1, 1); t.record[0].sta_index = 9; oi_inspol u = t; strcpy(u.arrname, "ARR");
    o.inspolList = g_list_append(o.inspolList, &t); if (atoi(v[1]) == 7) o.inspolList = g_list_append(o.inspolList, &u); oi_check_result r; check_elements_present(&o, &r); char *s = format_check_result(&r); return strstr(s, "OI_INSPOL #1") == NULL; }
  case 9: { oi_filter_spec s; init_oi_filter(&s); s.target_id = 1; init_oi_fits(&p); p.targets.usecategory = 0; filter_oi_target(&o.targets, &s, &p.targets); return !p.targets.usecategory; }
  case 10: { oi_t3 t; memset(&t, 0, sizeof t); t.revision = 2; strcpy(t.insname, "NONE"); strcpy(t.arrname, "ARR"); alloc_oi_t3(&t, 1, 1); t.record[0].target_id = 1; t.record[0].flag[0] = 0; t.record[0].u1coord = t.record[0].v1coord = t.record[0].u2coord = t.record[0].v2coord = 1; t.record[0].mjd = 5e4;
    t.record[0].t3amp[0] = 1; t.record[0].t3amperr[0] = 1; t.record[0].t3phi[0] = 1; t.record[0].t3phierr[0] = 1; oi_filter_spec s; init_oi_filter(&s); s.accept_flagged = 0; s.snr_range[0] = 1e6; s.snr_range[1] = 1e9; oi_t3 u; char use[1] = {1}; filter_oi_t3(&t, &s, NULL, use, &u); return u.numrec != 0; }
  case 11: { init_oi_fits(&p); oi_fits q; init_oi_fits(&q); hdr(&q); targ(&q, 1, 1); hdr(&p); p.targets.usecategory = 0; oi_fits out; merge_oi_fits(&out, &o, &q, NULL); return !(out.targets.usecategory && out.targets.ntarget == 2 && !strcmp(out.targets.targ[0].category, "SCI")); }
  case 12: { oi_fits q; init_oi_fits(&q); hdr(&q); targ(&q, 150, 0); oi_fits out; merge_oi_fits(&out, &o, &q, NULL); return out.targets.ntarget != 150; }
  case 13: { arr(&o, "ARR_003", 2.); oi_fits q; init_oi_fits(&q); hdr(&q); targ(&q, 1, 0); arr(&q, "ARR", 3.); oi_fits out; merge_oi_fits(&out, &o, &q, NULL);
    GList *i, *j; for (i = out.arrayList; i; i = i->next) for (j = i->next; j; j = j->next) if (!strcmp(((oi_array *)i->data)->arrname, ((oi_array *)j->data)->arrname)) return 1; return 0; }
  case 14: { /* two INSNAMEs with different numbers of accepted channels in one OI_INSPOL */
    oi_inspol t, u; memset(&t, 0, sizeof t); t.revision = 1; strcpy(t.arrname, "ARR"); alloc_oi_inspol(&t, 2, 64); oi_filter_spec s; init_oi_filter(&s);
    for (int r = 0; r < 2; r++) { strcpy(t.record[r].insname, r ? "B" : "A"); t.record[r].target_id = 1; t.record[r].mjd_obs = t.record[r].mjd_end = 5e4; t.record[r].sta_index = 1;
      for (int i = 0; i < 64; i++) t.record[r].jxx[i] = t.record[r].jyy[i] = t.record[r].jxy[i] = t.record[r].jyx[i] = 1; }
    char ua[64] = {1}, ub[64]; memset(ub, 1, 64); GHashTable *h = g_hash_table_new(g_str_hash, g_str_equal); g_hash_table_insert(h, "A", ua); g_hash_table_insert(h, "B", ub);
    filter_oi_inspol(&t, &s, h, &u); free_oi_inspol(&u); return u.numrec != 1 || u.nwave != 1; } /* heap overflow shows under valgrind or as abort in free */
  case 15: { oi_flux t; memset(&t, 0, sizeof t); t.calstat = 'C'; o.fluxList = g_list_append(o.fluxList, &t); oi_check_result r; return check_flux(&o, &r) != OI_BREACH_NONE; }
  case 16: { oi_vis2 t; alloc_oi_vis2(&t, 1, 1); strcpy(t.insname, "NONE"); t.arrname[0] = t.corrname[0] = 0; o.vis2List = g_list_append(o.vis2List, &t);
    memset(t.record[0].vis2data, 0, sizeof(DATA)); t.record[0].flag[0] = 0; t.record[0].mjd = 50000; t.record[0].ucoord = 100; t.record[0].vcoord = 0; t.record[0].target_id = 1;
    oi_vis2_iter it; oi_vis2_iter_init(&it, &o, NULL); return oi_vis2_iter_next(&it, NULL, NULL, NULL, NULL, NULL); }
  }
  return 3;
}
