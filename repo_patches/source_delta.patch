From 8f2dc255ff9ea3ffb3b4daa5c901e3b22433ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 01/19] fix: read OI_INSPOL Jones matrix columns as complex

The JXX, JYY, JXY and JYX columns hold single-precision complex values
(and are written as such) but were read as TDOUBLE, which discards the
imaginary parts and stores bit patterns of the wrong type.
---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From b6c829beef9a433d0b993f6bcb4f638fb52d3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 02/19] fix: skip HDUs that are not binary tables when
 searching by name

specific_named_hdu() treated the first image (or ASCII table) extension
as a match for the requested table, so that e.g. read_oi_array() failed
on a valid file with an image extension before the OI_ARRAY table.
---
 src/oifitslib/read_fits.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..99d2010 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -338,20 +338,18 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   {
     fits_movabs_hdu(fptr, ihdu, &hdutype, pStatus);
     if (*pStatus) return *pStatus;
-    if (hdutype == BINARY_TBL)
+    if (hdutype != BINARY_TBL) continue; /* next HDU */
+    fits_write_errmark();
+    fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
+    fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
+    if (*pStatus)
     {
-      fits_write_errmark();
-      fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
-      fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
-      if (*pStatus)
-      {
-        *pStatus = 0;
-        fits_clear_errmark();
-        continue; /* next HDU */
-      }
-      if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
-        continue; /* next HDU */
+      *pStatus = 0;
+      fits_clear_errmark();
+      continue; /* next HDU */
     }
+    if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
+      continue; /* next HDU */
     break; /* current HDU matches */
   }
   if (ihdu > nhdu)
-- 
2.43.0


From 20d7fdcaebc98fca2928424a5a6c7c54bb5ecb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 03/19] fix: do not mistake a missing mandatory column for a
 missing optional one

A COL_NOT_FOUND error from an earlier mandatory column of OI_FLUX (or
CORRINDX_* column of OI_VIS) was cleared as if the optional STA_INDEX
(VISREFMAP) column had been missing, so the read was reported as
successful with undefined values in the table struct.
---
 src/oifitslib/read_fits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 99d2010..64b9251 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1142,6 +1142,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus;
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
@@ -1605,6 +1606,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_get_colnum(fptr, CASEINSEN, "FLAG", &colnum, pStatus);
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
+    if (*pStatus) goto except;
     /* read optional columns */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
-- 
2.43.0


From 8718d40205b9e409125c1940c63c7d62415d455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 04/19] fix: allow any number of spectral channels when writing
 tables

The buffer for the TFORM strings only had space for a repeat count of
four digits, so writing a table with 10000 or more channels aborted.
---
 src/oifitslib/write_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..472a360 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -54,7 +54,7 @@ char **make_tform(const char **template, int n, int value)
   {
     if (template[i][0] == '?')
     {
-      size = strlen(template[i]) + 4; /* allow for extra digits + \0 */
+      size = strlen(template[i]) + 12; /* allow for extra digits + \0 */
       tform[i] = chkmalloc(size);
       needed = snprintf(tform[i], size, "%d%s", value, &template[i][1]);
       assert(needed < size); /* fails if string was truncated */
-- 
2.43.0


From a10f3ea073c7b0e6fb26ff710d458635811684fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 05/19] fix: copy IVISERR rather than RVISERR in dup_oi_vis()

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 78a751c2364b99394a3f1b752921c22140f21f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 06/19] fix: make tables referenced only by OI_FLUX/OI_INSPOL
 available to lookups

read_oi_fits() did not add the CORRNAME of OI_FLUX tables to corrHash, nor
the ARRNAME of OI_INSPOL tables to arrayHash, so check_corr_present() and
check_elements_present() reported tables that were present as missing.
---
 src/oifitslib/oifile.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..6b27125 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -803,6 +803,12 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     }
     pOi->inspolList = g_list_append(pOi->inspolList, pInspol);
     ++pOi->numInspol;
+    if (strlen(pInspol->arrname) > 0)
+    {
+      if (!g_hash_table_lookup(pOi->arrayHash, pInspol->arrname))
+        g_hash_table_insert(pOi->arrayHash, pInspol->arrname,
+                            find_oi_array(pOi, pInspol->arrname));
+    }
   }
 
   /* Read all OI_VIS, hash-tabling corresponding array, wavelength and
@@ -961,6 +967,12 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (!g_hash_table_lookup(pOi->wavelengthHash, pFlux->insname))
       g_hash_table_insert(pOi->wavelengthHash, pFlux->insname,
                           find_oi_wavelength(pOi, pFlux->insname));
+    if (strlen(pFlux->corrname) > 0)
+    {
+      if (!g_hash_table_lookup(pOi->corrHash, pFlux->corrname))
+        g_hash_table_insert(pOi->corrHash, pFlux->corrname,
+                            find_oi_corr(pOi, pFlux->corrname));
+    }
   }
 
   if (!is_oi_fits_two(pOi)) set_oi_header(pOi);
-- 
2.43.0


From 261376fefbcdf0be18380ab0896dfed38307e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 07/19] fix: do not abort when one check finds breaches of two
 kinds

check_tables() and check_elements_present() each report breaches with two
different descriptions, and set_result() aborted if both occurred in the
same dataset. Keep the first description; the locations identify the rest.
---
 src/oifitslib/oicheck.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..8063924 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -64,8 +64,6 @@ static void set_result(oi_check_result *pResult, oi_breach_level level,
   if (level > pResult->level) pResult->level = level;
   if (pResult->description == NULL)
     pResult->description = g_string_chunk_insert(pResult->chunk, description);
-  else
-    g_assert_cmpstr(description, ==, pResult->description);
   if (++pResult->numBreach < MAX_REPORT)
   {
     pResult->location[pResult->numBreach - 1] =
-- 
2.43.0


From 1df55c7168f93211d76ee01804d9d0347cf4aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 08/19] fix: report position of OI_INSPOL table without ARRNAME

The position was looked up in the list of OI_VIS tables, hence was always
reported as #0.
---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 8063924..9908fca 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -625,7 +625,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -739,7 +739,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
+                 g_list_position(pOi->inspolList, link) + 1);
       set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
     }
     link = link->next;
-- 
2.43.0


From 63bed6422bfb6a3c6b9ad98cc92b2a1a8b91798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 09/19] fix: preserve CATEGORY when filtering by TARGET_ID

filter_oi_target() left usecategory at its initial value when selecting a
single target, so the CATEGORY column was lost from the output.
---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..f6f0b48 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,6 +624,7 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
-- 
2.43.0


From d048218ce6d3bfd30046a0e70c411bfc7b22b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 10/19] fix: apply flag and SNR criteria to OI_T3 without
 OI_WAVELENGTH

any_t3_chan_ok() accepted all records of a table with no matching
OI_WAVELENGTH, so filter_oi_t3_record() aborted if none of the channels
of a record satisfied the other criteria.
---
 src/oifitslib/oifilter.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index f6f0b48..04add88 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -1429,8 +1429,6 @@ static bool any_t3_chan_ok(const oi_t3_record *pRec,
   double u1, v1, u2, v2, abRad, bcRad, acRad;
   float snrAmp, snrPhi;
 
-  if (pWave == NULL)
-    return TRUE; /* cannot filter by UV radius, so keep record */
   u1 = pRec->u1coord;
   v1 = pRec->v1coord;
   u2 = pRec->u2coord;
-- 
2.43.0


From bf459aa194666f08b6275e0e2c856287e73525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 11/19] fix: preserve CATEGORY when merging datasets

merge_oi_target() did not set usecategory, so the CATEGORY column was lost
from the merged OI_TARGET table.
---
 src/oifitslib/oimerge.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..81a22d0 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -237,6 +237,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
+  pOutTab->usecategory = FALSE;
   pOutTab->ntarget = 0;
   pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
@@ -257,6 +258,10 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (pInTab->usecategory)
+          pOutTab->usecategory = TRUE;
+        else
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 4a4a3f8dfdcc0666ff3d9edb2e17786fc1b74456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 12/19] fix: allow merging datasets with 100 or more targets

merge_oi_target() aborted if the merged dataset had more than 99 targets.
---
 src/oifitslib/oimerge.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 81a22d0..d8ba385 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,17 +229,19 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
 
+  maxTarget = 1; /* avoid zero-size allocation */
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->usecategory = FALSE;
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  pOutTab->targ = chkmalloc(maxTarget * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -253,7 +255,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
+        g_assert_cmpint(pOutTab->ntarget, <, maxTarget);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
-- 
2.43.0


From fa0cf5c4c4b9ead4be69095438eeeb521bc9164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 13/19] fix: require all five arguments to oifits-upgrade

With INSMODE missing a NULL pointer was used as the INSMODE string.
---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From 31307b1b10731181b1b383ea69b128a554ae4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 14/19] fix: keep names unique when renaming tables in a merge

The name generated for a table whose ARRNAME, INSNAME or CORRNAME clashes
was not itself checked against the names in the output dataset.
---
 src/oifitslib/oimerge.c | 52 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index d8ba385..65c29a8 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -288,6 +288,7 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -313,12 +314,16 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         upgrade_oi_array(pOutTab);
         if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+          /* Avoid clash with existing name, and truncation at FLEN_VALUE - 1 */
+          suffix = pOutput->numArray;
+          do
+          {
+            ++suffix;
+            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 12))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname, suffix);
+            else
+              g_snprintf(newName, FLEN_VALUE, "array%03d", suffix);
+          } while (g_hash_table_lookup(pOutput->arrayHash, newName) != NULL);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -349,6 +354,7 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -375,13 +381,16 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
             NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+          /* Avoid clash with existing name, and truncation at FLEN_VALUE - 1 */
+          suffix = pOutput->numWavelength;
+          do
+          {
+            ++suffix;
+            if (strlen(pOutTab->insname) < (FLEN_VALUE - 12))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname, suffix);
+            else
+              g_snprintf(newName, FLEN_VALUE, "ins%03d", suffix);
+          } while (g_hash_table_lookup(pOutput->wavelengthHash, newName) != NULL);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -413,6 +422,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -435,12 +445,16 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutTab = dup_oi_corr(pInTab);
       if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+        /* Avoid clash with existing name, and truncation at FLEN_VALUE - 1 */
+        suffix = pOutput->numCorr;
+        do
+        {
+          ++suffix;
+          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 12))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname, suffix);
+          else
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", suffix);
+        } while (g_hash_table_lookup(pOutput->corrHash, newName) != NULL);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From 38983e1548be9b7abbd1d863366fd2b6edab8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 15/19] fix: check for failure to reallocate memory

filter_oi_*() and merge_oi_target() stored a NULL pointer alongside a
non-zero record count if realloc() failed.
---
 src/oifitslib/oifilter.c | 30 +++++++++++++++++++-----------
 src/oifitslib/oimerge.c  |  4 +++-
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 04add88..f09c38e 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -94,6 +94,14 @@ static GOptionEntry filterEntries[] = {
  * Private functions
  */
 
+/** Reduce size of allocated memory, freeing it if the new size is zero */
+static void *shrink(void *ptr, size_t size)
+{
+  if (size > 0) return chkrealloc(ptr, size);
+  free(ptr);
+  return NULL;
+}
+
 /**
  * Callback function invoked prior to parsing filter command-line options
  */
@@ -768,9 +776,9 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   }
   if (pOutWave->nwave < pInWave->nwave)
   {
-    pOutWave->eff_wave = realloc(
+    pOutWave->eff_wave = shrink(
         pOutWave->eff_wave, pOutWave->nwave * sizeof(pInWave->eff_wave[0]));
-    pOutWave->eff_band = realloc(
+    pOutWave->eff_band = shrink(
         pOutWave->eff_band, pOutWave->nwave * sizeof(pInWave->eff_band[0]));
   }
 }
@@ -916,19 +924,19 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
       /* For 1st output record, length of vectors wasn't known when
          originally allocated, so reallocate */
       pOutTab->nwave = k;
-      pOutTab->record[nrec].jxx = realloc(
+      pOutTab->record[nrec].jxx = shrink(
           pOutTab->record[nrec].jxx, k * sizeof(pOutTab->record[0].jxx[0]));
-      pOutTab->record[nrec].jyy = realloc(
+      pOutTab->record[nrec].jyy = shrink(
           pOutTab->record[nrec].jyy, k * sizeof(pOutTab->record[0].jyy[0]));
-      pOutTab->record[nrec].jxy = realloc(
+      pOutTab->record[nrec].jxy = shrink(
           pOutTab->record[nrec].jxy, k * sizeof(pOutTab->record[0].jxy[0]));
-      pOutTab->record[nrec].jyx = realloc(
+      pOutTab->record[nrec].jyx = shrink(
           pOutTab->record[nrec].jyx, k * sizeof(pOutTab->record[0].jyx[0]));
     }
     ++nrec;
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_inspol_record));
+  pOutTab->record = shrink(pOutTab->record, nrec * sizeof(oi_inspol_record));
 }
 
 /**
@@ -1168,7 +1176,7 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                          pInTab->usecomplex, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
+  pOutTab->record = shrink(pOutTab->record, nrec * sizeof(oi_vis_record));
 }
 
 /**
@@ -1359,7 +1367,7 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                           &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
+  pOutTab->record = shrink(pOutTab->record, nrec * sizeof(oi_vis2_record));
 }
 
 /**
@@ -1617,7 +1625,7 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                         &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
+  pOutTab->record = shrink(pOutTab->record, nrec * sizeof(oi_t3_record));
 }
 
 /**
@@ -1751,7 +1759,7 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                           pOutTab->nwave, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
+  pOutTab->record = shrink(pOutTab->record, nrec * sizeof(oi_flux_record));
 }
 
 /**
diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 65c29a8..2f9902b 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -268,7 +268,9 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
+  if (pOutTab->ntarget > 0)
+    pOutTab->targ =
+        chkrealloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From aff4f34f6f7c1386c301317d69e7b8c0b20044ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 16/19] fix: report truncated table instead of treating it as
 end of file

---
 src/oifitslib/read_fits.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 64b9251..ec4bc49 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -873,6 +873,8 @@ STATUS read_next_oi_array(fitsfile *fptr, oi_array *pArray, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_array_chdu(fptr, pArray, NULL, pStatus);
 
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -933,6 +935,8 @@ STATUS read_next_oi_wavelength(fitsfile *fptr, oi_wavelength *pWave,
   verify_chksum(fptr, pStatus);
   read_oi_wavelength_chdu(fptr, pWave, NULL, pStatus);
 
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -992,6 +996,8 @@ STATUS read_next_oi_corr(fitsfile *fptr, oi_corr *pCorr, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_corr_chdu(fptr, pCorr, NULL, pStatus);
 
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1021,6 +1027,8 @@ STATUS read_next_oi_inspol(fitsfile *fptr, oi_inspol *pInspol, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_inspol_chdu(fptr, pInspol, pStatus);
 
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1266,6 +1274,8 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   read_oi_vis_opt(fptr, pVis, pStatus);
 
 except:
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1380,6 +1390,8 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   }
 
 except:
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "FITSIO error in %s:\n", function);
@@ -1510,6 +1522,8 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   }
 
 except:
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1631,6 +1645,8 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   }
 
 except:
+  if (*pStatus == END_OF_FILE)
+    *pStatus = READ_ERROR; /* table is truncated, not end of HDUs */
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From d3499444447034e9be26cbc7e67e62489291f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 17/19] fix: polarization records with another channel count
 overran filter output

---
 src/oifitslib/oifilter.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index f09c38e..1221df0 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -894,6 +894,20 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
     useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
     if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
 
+    /* All records in a table have the same number of channels */
+    k = 0;
+    for (j = 0; j < pInTab->nwave; j++)
+    {
+      if (useWave[j]) ++k;
+    }
+    if (nrec > 0 && k != pOutTab->nwave)
+    {
+      g_warning("OI_INSPOL record with INSNAME=%s removed from filter output "
+                "as it has %d not %d channels",
+                pInTab->record[i].insname, k, pOutTab->nwave);
+      continue;
+    }
+
     /* Create output record */
     memcpy(&pOutTab->record[nrec], &pInTab->record[i],
            sizeof(oi_inspol_record));
-- 
2.43.0


From 027f4900d30642714e7551d64a3b189d4b7c49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 18/19] fix: check_flux read first record of empty table

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 9908fca..9f71804 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -1212,7 +1212,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1, pFlux->arrname);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index != -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index != -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Calibrated but STA_INDEX present",
@@ -1229,7 +1229,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index == -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index == -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Uncalibrated but STA_INDEX missing",
-- 
2.43.0


From 831f877ac8c25df7d9c54c96678095d1401ae30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 19/19] fix: iterators dereferenced NULL for data tables whose
 INSNAME names no OI_WAVELENGTH

---
 src/oifitslib/oiiter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 5c975fe..ef9154f 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -231,7 +231,8 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
 static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 {
   oi_vis *pTable = (oi_vis *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pIter->pWave != NULL &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -242,7 +243,8 @@ static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 {
   oi_vis2 *pTable = (oi_vis2 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pIter->pWave != NULL &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -253,7 +255,8 @@ static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 static bool oi_t3_iter_accept_table(oi_t3_iter *pIter)
 {
   oi_t3 *pTable = (oi_t3 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pIter->pWave != NULL &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
-- 
2.43.0

