From cd0f048ecbae5fb1eb835f8310190f421e08b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 001/115] fix: ACMTBLU1 loads: NQ1, NQ2 and UVTR2 took the
 wrong column

---
 src/parser/parser_classes/acmtblu1.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/parser_classes/acmtblu1.hpp b/src/parser/parser_classes/acmtblu1.hpp
index 863fc61..fbe3bcd 100644
--- a/src/parser/parser_classes/acmtblu1.hpp
+++ b/src/parser/parser_classes/acmtblu1.hpp
@@ -144,9 +144,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ1
       if (!data->getValue(LOAD_NQ1,&rval,l_id)) {
-        data->addValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->addValue(LOAD_NQ1, data_struct.nq1, l_id);
       } else {
-        data->setValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->setValue(LOAD_NQ1, data_struct.nq1, l_id);
       }
 
       // LOAD_KP2
@@ -172,9 +172,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ2
       if (!data->getValue(LOAD_NQ2,&rval,l_id)) {
-        data->addValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->addValue(LOAD_NQ2, data_struct.nq2, l_id);
       } else {
-        data->setValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->setValue(LOAD_NQ2, data_struct.nq2, l_id);
       }
 
       // LOAD_VBRK
@@ -626,12 +626,12 @@ template <class _data_struct> class Acmtblu1Parser
         }
       }
 
-      // LOAD_UVTR1
+      // LOAD_UVTR2
       if (nstr > 44) {
-        if (!data->getValue(LOAD_UVTR1,&rval,l_id)) {
-          data->addValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+        if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
+          data->addValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         } else {
-          data->setValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+          data->setValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         }
       }
 
-- 
2.43.0


From e84a37dcd4dda78196e53f579bb3566d21ef663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 002/115] fix: CIM6BL loads: distributed X1 and E2 took the
 values of R1 and SE2

---
 src/parser/parser_classes/cim6bl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser_classes/cim6bl.hpp b/src/parser/parser_classes/cim6bl.hpp
index cefec2d..fdb3535 100644
--- a/src/parser/parser_classes/cim6bl.hpp
+++ b/src/parser/parser_classes/cim6bl.hpp
@@ -88,9 +88,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_X1
       if (!data->getValue(LOAD_X1,&rval,l_id)) {
-        data->addValue(LOAD_X1, data_struct.r1, l_id);
+        data->addValue(LOAD_X1, data_struct.x1, l_id);
       } else {
-        data->setValue(LOAD_X1, data_struct.r1, l_id);
+        data->setValue(LOAD_X1, data_struct.x1, l_id);
       }
 
       // LOAD_R2
@@ -123,9 +123,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_E2
       if (!data->getValue(LOAD_E2,&rval,l_id)) {
-        data->addValue(LOAD_E2, data_struct.se2, l_id);
+        data->addValue(LOAD_E2, data_struct.e2, l_id);
       } else {
-        data->setValue(LOAD_E2, data_struct.se2, l_id);
+        data->setValue(LOAD_E2, data_struct.e2, l_id);
       }
 
       // LOAD_SE2
-- 
2.43.0


From 67b6ca811c713e8b824a3c812c84c76a7f1f8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 003/115] fix: CMLDBLU1 loads: distributed TTR1 took the value
 of TTR2, UVTR2 overwrote VC2ON

---
 src/parser/parser_classes/cmldblu1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser_classes/cmldblu1.hpp b/src/parser/parser_classes/cmldblu1.hpp
index 76f9bd2..472a5e8 100644
--- a/src/parser/parser_classes/cmldblu1.hpp
+++ b/src/parser/parser_classes/cmldblu1.hpp
@@ -963,16 +963,16 @@ template <class _data_struct> class Cmldblu1Parser
 
       // LOAD_TTR1
       if (!data->getValue(LOAD_TTR1,&rval,l_id)) {
-        data->addValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->addValue(LOAD_TTR1, data_struct.ttr1, l_id);
       } else {
-        data->setValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->setValue(LOAD_TTR1, data_struct.ttr1, l_id);
       }
 
       // LOAD_UVTR2
       if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
         data->addValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       } else {
-        data->setValue(LOAD_VC2ON, data_struct.uvtr2, l_id);
+        data->setValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       }
 
       // LOAD_TTR2
-- 
2.43.0


From a8d3218608222fefbcc3661fb569e540529fbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 004/115] fix: DISTR1 relays: distributed zone 3 time took the
 value of zone 2

---
 src/parser/parser_classes/distr1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser_classes/distr1.hpp b/src/parser/parser_classes/distr1.hpp
index 007e325..7afc8ce 100644
--- a/src/parser/parser_classes/distr1.hpp
+++ b/src/parser/parser_classes/distr1.hpp
@@ -208,9 +208,9 @@ template <class _data_struct> class Distr1Parser
 
       // RELAY_ZONE3_TIME
       if (!data->getValue(RELAY_ZONE3_TIME,&rval,r_id)) {
-        data->addValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->addValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       } else {
-        data->setValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->setValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       }
 
       // RELAY_ZONE3_REACH
-- 
2.43.0


From 13d57e496d6f43c28b4b7ea209592a463dcbb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 005/115] fix: GDFORM: MP of an existing device was overwritten
 with column 10

---
 src/parser/parser_classes/gdform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/gdform.hpp b/src/parser/parser_classes/gdform.hpp
index 6e83f1f..7eea9fa 100644
--- a/src/parser/parser_classes/gdform.hpp
+++ b/src/parser/parser_classes/gdform.hpp
@@ -240,7 +240,7 @@ template <class _data_struct> class GdformParser
         if (!data->getValue(GENERATOR_MP,&rval,g_id)) {
           data->addValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_MP, atof(split_line[10].c_str()), g_id);
+          data->setValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         }
       } 
 
-- 
2.43.0


From defc2aec936463cac912f166a96dc0816afca381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 006/115] fix: GENROU: XQ of an existing device was overwritten
 with the value of XD

---
 src/parser/parser_classes/genrou.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/genrou.hpp b/src/parser/parser_classes/genrou.hpp
index 3475803..903e58e 100644
--- a/src/parser/parser_classes/genrou.hpp
+++ b/src/parser/parser_classes/genrou.hpp
@@ -278,7 +278,7 @@ template <class _data_struct> class GenrouParser
               atof(split_line[10].c_str()), g_id);
         } else {
           data->setValue(GENERATOR_XQ,
-              atof(split_line[9].c_str()), g_id);
+              atof(split_line[10].c_str()), g_id);
         }
       } 
 
-- 
2.43.0


From 175379a89e8b605ab6b863d0cc8faee4e73fff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 007/115] fix: REECA1: TIQ of an existing device was
 overwritten with the value of DPMAX

---
 src/parser/parser_classes/reeca1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/reeca1.hpp b/src/parser/parser_classes/reeca1.hpp
index 1d517be..25ff3c8 100644
--- a/src/parser/parser_classes/reeca1.hpp
+++ b/src/parser/parser_classes/reeca1.hpp
@@ -644,7 +644,7 @@ template <class _data_struct> class Reeca1Parser
         if (!data->getValue(GENERATOR_REECA_TIQ,&rval,g_id)) {
           data->addValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
-- 
2.43.0


From 492f9fecec63e10d66e1f3c5f84cb9d2a9ada035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 008/115] fix: REPCA1: FEMIN of an existing device was
 overwritten with the value of PMAX

---
 src/parser/parser_classes/repca1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/repca1.hpp b/src/parser/parser_classes/repca1.hpp
index 340c16d..b75055b 100644
--- a/src/parser/parser_classes/repca1.hpp
+++ b/src/parser/parser_classes/repca1.hpp
@@ -551,7 +551,7 @@ template <class _data_struct> class Repca1Parser
         if (!data->getValue(GENERATOR_REPCA_FEMIN,&rval,g_id)) {
           data->addValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
-- 
2.43.0


From 5172967967b1ffced2b293cf00569bcc6ea9a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 009/115] fix: REPCA1: branch circuit id got a different form
 in the direct and distributed paths

---
 src/parser/parser_classes/repca1.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/parser_classes/repca1.hpp b/src/parser/parser_classes/repca1.hpp
index b75055b..296dbfe 100644
--- a/src/parser/parser_classes/repca1.hpp
+++ b/src/parser/parser_classes/repca1.hpp
@@ -334,8 +334,7 @@ template <class _data_struct> class Repca1Parser
         }
 		*/
 
-	    std::string idtmp = util.trimQuotes(split_line[6]);
-        util.toUpper(idtmp);
+	    std::string idtmp = util.clean2Char(split_line[6]);
         if (!data->getValue(GENERATOR_REPCA_BRCH_CKT, &stmp, g_id)) {
           data->addValue(GENERATOR_REPCA_BRCH_CKT, idtmp.c_str(), g_id);
         } else {
-- 
2.43.0


From 7cf663f444ed4cf7aab2ecfd02b1d4cd841cdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 010/115] fix: WSIEG1: T3, GV5 and IBLOCK were written from or
 to the wrong parameter

---
 src/parser/parser_classes/wsieg1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser_classes/wsieg1.hpp b/src/parser/parser_classes/wsieg1.hpp
index dc61689..9794fa8 100644
--- a/src/parser/parser_classes/wsieg1.hpp
+++ b/src/parser/parser_classes/wsieg1.hpp
@@ -95,7 +95,7 @@ template <class _data_struct> class Wsieg1Parser
 
       // GOVERNOR_T3
       if (!data->getValue(GOVERNOR_T3,&rval,g_id)) {
-        data->addValue(GOVERNOR_T3, data_struct.gv_t2, g_id);
+        data->addValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       } else {
         data->setValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       }
@@ -711,7 +711,7 @@ template <class _data_struct> class Wsieg1Parser
           data->addValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         } else {
-          data->setValue(GOVERNOR_GV4,
+          data->setValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         }
       } 
@@ -730,7 +730,7 @@ template <class _data_struct> class Wsieg1Parser
       // GOVERNOR_IBLOCK
       if (nstr > 38) {
         if (!data->getValue(GOVERNOR_IBLOCK,&ival,g_id)) {
-          data->addValue(GOVERNOR_PGV5,
+          data->addValue(GOVERNOR_IBLOCK,
               atoi(split_line[38].c_str()), g_id);
         } else {
           data->setValue(GOVERNOR_IBLOCK,
-- 
2.43.0


From d50ad53f585508f32f93787df7448b863bcd7574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 011/115] fix: IEELBL: A1 was probed with the wrong type and
 never updated

---
 src/parser/parser_classes/ieelbl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/ieelbl.hpp b/src/parser/parser_classes/ieelbl.hpp
index 829f327..f8fb94c 100644
--- a/src/parser/parser_classes/ieelbl.hpp
+++ b/src/parser/parser_classes/ieelbl.hpp
@@ -177,7 +177,7 @@ template <class _data_struct> class IeelblParser
 
       // LOAD_A1
       if (nstr > 3) {
-        if (!data->getValue(LOAD_A1,&ival,l_id)) {
+        if (!data->getValue(LOAD_A1,&rval,l_id)) {
           data->addValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
         } else {
           data->setValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
-- 
2.43.0


From bc72819d74f25b63c18aa775dd649f96b138bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 012/115] fix: GDFORM: VFLAG was probed with the wrong type and
 never updated

---
 src/parser/parser_classes/gdform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/gdform.hpp b/src/parser/parser_classes/gdform.hpp
index 7eea9fa..eda9201 100644
--- a/src/parser/parser_classes/gdform.hpp
+++ b/src/parser/parser_classes/gdform.hpp
@@ -373,7 +373,8 @@ template <class _data_struct> class GdformParser
 
       // GENERATOR_VFLAG
       if (nstr > 21) {
-        if (!data->getValue(GENERATOR_VFLAG,&rval,g_id)) {
+        int ival;
+        if (!data->getValue(GENERATOR_VFLAG,&ival,g_id)) {
           data->addValue(GENERATOR_VFLAG,
               atoi(split_line[21].c_str()), g_id);
         } else {
-- 
2.43.0


From 220d8393aed8c815e8479aa6242b70fd5c76070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 013/115] fix: PSSSIM: input type and bus numbers were stored
 as reals and read as integers

---
 src/parser/parser_classes/psssim.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser/parser_classes/psssim.hpp b/src/parser/parser_classes/psssim.hpp
index 43b4466..f019a41 100644
--- a/src/parser/parser_classes/psssim.hpp
+++ b/src/parser/parser_classes/psssim.hpp
@@ -201,10 +201,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 3) {
         if (!data->getValue(PSSSIM_INPUTTYPE,&ival,g_id)) {
           data->addValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         }
       } 
 
@@ -212,10 +212,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 4) {
         if (!data->getValue(PSSSIM_BUS1,&ival,g_id)) {
           data->addValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         }
       } 
 
@@ -223,10 +223,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 5) {
         if (!data->getValue(PSSSIM_BUS2,&ival,g_id)) {
           data->addValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         }
       } 
 
@@ -234,10 +234,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 6) {
         if (!data->getValue(PSSSIM_BUS3,&ival,g_id)) {
           data->addValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         }
       } 
 
@@ -245,10 +245,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 7) {
         if (!data->getValue(PSSSIM_BUS4,&ival,g_id)) {
           data->addValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         }
       } 
 
@@ -256,10 +256,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 8) {
         if (!data->getValue(PSSSIM_BUS5,&ival,g_id)) {
           data->addValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         }
       } 
 
@@ -267,10 +267,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 9) {
         if (!data->getValue(PSSSIM_BUS6,&ival,g_id)) {
           data->addValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         }
       }
 
-- 
2.43.0


From db6a1354b640993804bf0aa974fb21186a830a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 014/115] fix: PSS/E export: BRANCH_SWITCHED is a bool but was
 read as an integer, branches lost their orientation

---
 src/export/data_blocks/export_line23.hpp  | 6 +++---
 src/export/data_blocks/export_line33.hpp  | 6 +++---
 src/export/data_blocks/export_line34.hpp  | 6 +++---
 src/export/data_blocks/export_xform23.hpp | 6 +++---
 src/export/data_blocks/export_xform33.hpp | 6 +++---
 src/export/data_blocks/export_xform34.hpp | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 8f7a517..3ee1cd0 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -83,10 +83,10 @@ class ExportLine23
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
             data->getValue(BRANCH_FROMBUS,&idx1);
             data->getValue(BRANCH_TOBUS,&idx2);
-            ival = 1;
-            data->getValue(BRANCH_SWITCHED,&ival,j);
+            bool switched = false;
+            data->getValue(BRANCH_SWITCHED,&switched,j);
             // I,J,CKT,R,X,B,RATEA,RATEB,RATEC,RATIO,ANGLE,GI,BI,GJ,BJ,ST
-            if (ival == 1) {
+            if (!switched) {
               sprintf(ptr,"%d, %d,",idx1,idx2);
             } else {
               sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index f58978c..4b096e9 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -84,9 +84,9 @@ class ExportLine33
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index b62d935..7e4da37 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -84,9 +84,9 @@ class ExportLine34
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index d8ddc81..65d3571 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -84,10 +84,10 @@ class ExportXform23
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index e72be4c..36012c3 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -87,10 +87,10 @@ class ExportXform33
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 164c3ff..d18161c 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -87,10 +87,10 @@ class ExportXform34
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
-- 
2.43.0


From 9bf64d1174e06b7014fe0f9af9396389df9c8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 015/115] fix: PSS/E export: CASE_ID is an integer but was read
 as a real and always written as 0

---
 src/export/data_blocks/export_bus23.hpp | 2 +-
 src/export/data_blocks/export_bus33.hpp | 2 +-
 src/export/data_blocks/export_bus34.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/export/data_blocks/export_bus23.hpp b/src/export/data_blocks/export_bus23.hpp
index 027e418..7c05e65 100644
--- a/src/export/data_blocks/export_bus23.hpp
+++ b/src/export/data_blocks/export_bus23.hpp
@@ -66,7 +66,7 @@ class ExportBus23
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
diff --git a/src/export/data_blocks/export_bus33.hpp b/src/export/data_blocks/export_bus33.hpp
index b9c499c..2b341a8 100644
--- a/src/export/data_blocks/export_bus33.hpp
+++ b/src/export/data_blocks/export_bus33.hpp
@@ -66,7 +66,7 @@ class ExportBus33
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
diff --git a/src/export/data_blocks/export_bus34.hpp b/src/export/data_blocks/export_bus34.hpp
index b691364..c49c45a 100644
--- a/src/export/data_blocks/export_bus34.hpp
+++ b/src/export/data_blocks/export_bus34.hpp
@@ -66,7 +66,7 @@ class ExportBus34
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
-- 
2.43.0


From 4d59fcfb8c130b2fee55795744120978a958e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 016/115] fix: branch ownership fractions F1 to F4 were
 truncated to integers and unreadable as reals

---
 src/parser/block_parsers/branch_parser33.cpp      | 8 ++++----
 src/parser/block_parsers/branch_parser34.cpp      | 8 ++++----
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/branch_parser33.cpp b/src/parser/block_parsers/branch_parser33.cpp
index 47fffd5..b07dc6d 100644
--- a/src/parser/block_parsers/branch_parser33.cpp
+++ b/src/parser/block_parsers/branch_parser33.cpp
@@ -180,7 +180,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 17) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[17].c_str()), nelems);
+        atof(split_line[17].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 18) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -188,7 +188,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 19) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[19].c_str()), nelems);
+        atof(split_line[19].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 20) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -196,7 +196,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 21) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[21].c_str()), nelems);
+        atof(split_line[21].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 22) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -204,7 +204,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 23) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[23].c_str()), nelems);
+        atof(split_line[23].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/branch_parser34.cpp b/src/parser/block_parsers/branch_parser34.cpp
index bd824d4..b3ce173 100644
--- a/src/parser/block_parsers/branch_parser34.cpp
+++ b/src/parser/block_parsers/branch_parser34.cpp
@@ -216,7 +216,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 27) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[27].c_str()), nelems);
+        atof(split_line[27].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 28) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -224,7 +224,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 29) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[29].c_str()), nelems);
+        atof(split_line[29].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 30) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -232,7 +232,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 31) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[31].c_str()), nelems);
+        atof(split_line[31].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 32) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -240,7 +240,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 33) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[33].c_str()), nelems);
+        atof(split_line[33].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index aa84a90..bec4e6f 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -481,7 +481,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -495,7 +495,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -509,7 +509,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -523,7 +523,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 8669214..15b11f5 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -518,7 +518,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -532,7 +532,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -546,7 +546,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -560,7 +560,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index db42c33..3ecbede 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -517,7 +517,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -531,7 +531,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -545,7 +545,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -559,7 +559,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
-- 
2.43.0


From 67265e88ed1feea1c56f0dcd9e0e1929703f681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 017/115] fix: switched shunt NREG was added as a real and
 updated as an integer

---
 src/parser/block_parsers/switched_shunt_parser34.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/switched_shunt_parser34.cpp b/src/parser/block_parsers/switched_shunt_parser34.cpp
index fea7793..755d445 100644
--- a/src/parser/block_parsers/switched_shunt_parser34.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser34.cpp
@@ -343,7 +343,7 @@ void gridpack::parser::SwitchedShuntParser34::parse(
     if (nval > 26) {
       if (!p_busData[o_idx]->setValue(SHUNT_NREG,
             atoi(split_line[26].c_str()))) {
-        p_busData[o_idx]->addValue(SHUNT_NREG, atof(split_line[26].c_str()));
+        p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[26].c_str()));
       }
     }
 
-- 
2.43.0


From 676004c5aeef4afbd7474d0188a5f9c99b09393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 018/115] fix: REPCA1: regulated bus and monitored branch buses
 are integers but were read as reals and ignored

---
 .../dynamic_simulation_full_y/model_classes/repca1.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/repca1.hpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/repca1.hpp
index b5ccfdb..16683af 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/repca1.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/repca1.hpp
@@ -92,8 +92,8 @@ class Repca1Model : public BasePlantControllerModel
   private:
 
   // Model parameters
-  double ireg;   // Bus number of regulated bus
-  double fbus, tbus; // To and from bus of the monitored branch
+  int ireg;   // Bus number of regulated bus
+  int fbus, tbus; // To and from bus of the monitored branch
   std::string  br_ckt; // Branch circuit id
   int VCompFLAG; // droop flag
   int RefFLAG;  // Q control or V control
-- 
2.43.0


From 093715d7dc7b91754b5b5e6f31d2694da1f591a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 019/115] fix: switched shunt (v35) stored NREG under the name
 of SWREG

---
 src/parser/block_parsers/switched_shunt_parser35.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 286c0bc..c43856c 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -138,7 +138,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      */
     if (!p_busData[o_idx]->setValue(SHUNT_NREG,
           atoi(split_line[8].c_str()))) {
-      p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[8].c_str()));
+      p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[8].c_str()));
     }
 
     /*
-- 
2.43.0


From 90852664379fc3d6acbe720dbaf7d4bf4125f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 020/115] fix: dynamic simulation (DAE) exciters read UEL, VOS
 and SWITCH as integers, they are stored as reals

---
 .../modules/dynamic_simulation_dae/model_classes/esst1a.hpp     | 2 +-
 .../modules/dynamic_simulation_dae/model_classes/exdc1.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.hpp b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.hpp
index 2609b3a..05828c3 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.hpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.hpp
@@ -137,7 +137,7 @@ public:
 private:
   
   // Exciter esst1a parameters from dyr
-  int    UEL,VOS;
+  double UEL,VOS;
   double Tr, Vimax, Vimin, Tc, Tb;
   double Tc1, Tb1, Ka, Ta, Vamax, Vamin;
   double Vrmax, Vrmin, Kc, Kf, Tf, Klr, Ilr;
diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.hpp b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.hpp
index f3c11ab..a0fe1b7 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.hpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.hpp
@@ -141,7 +141,7 @@ private:
   double TR, VRmax, VRmin, TC, TB;
   double KA, TA, KE, TE;
   double KF, TF;
-  int    SWITCH;
+  double SWITCH;
   
   // EXDC1 state variables
   double Vmeas; // Measured voltage by transducer
-- 
2.43.0


From 8a56ba58823500078554ed742a4eab0ceae6a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 021/115] fix: WSIEG1 models read IBLOCK as a real, it is
 stored as an integer

---
 .../modules/dynamic_simulation_dae/model_classes/wsieg1.hpp     | 2 +-
 .../modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.hpp b/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.hpp
index 9a9d63b..d41ad98 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.hpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.hpp
@@ -146,7 +146,7 @@ private:
   double T4, K1, K2, T5, K3, K4, T6, K5, K6, T7, K7, K8;
   double Db1, Err, Db2;
   double Gv1, PGv1, Gv2, PGv2, Gv3, PGv3, Gv4, PGv4, Gv5, PGv5;
-  double Iblock;
+  int Iblock;
   
   // WSIEG1 state variables
   double xLL; // Lead-lag block state
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp
index 9e34a3e..fd8a861 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp
@@ -114,7 +114,7 @@ class Wsieg1Model : public BaseGovernorModel
     double T4, K1, K2, T5, K3, K4, T6, K5, K6, T7, K7, K8;
     double Db1, Err, Db2;
     double Gv1, PGv1, Gv2, PGv2, Gv3, PGv3, Gv4, PGv4, Gv5, PGv5;
-    double Iblock;
+    int Iblock;
 
     double GV0;
 
-- 
2.43.0


From 4498bf7803e6d5f5a7eef013f6007f9c1437ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 022/115] fix: PSS/E 33/34 export never wrote the solved
 generator output, it asked for a name nothing stores

---
 src/export/data_blocks/export_gen33.hpp | 10 ++++++++--
 src/export/data_blocks/export_gen34.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 6da4fa0..5712801 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -85,13 +85,19 @@ class ExportGen33
             ptr += strlen(ptr);
             rval = 0.0;
             if (data->getValue(GENERATOR_PG,&rval,j)) {
-              data->getValue("GENERATOR_PF_PG",&rval,j);
+              // solved values are stored in per unit on the system base
+              double pfval, sbase = 100.0;
+              data->getValue(CASE_SBASE,&sbase);
+              if (data->getValue("GENERATOR_PF_PGEN",&pfval,j)) rval = pfval*sbase;
             }
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
             if (data->getValue(GENERATOR_QG,&rval,j)) {
-              data->getValue("GENERATOR_PF_QG",&rval,j);
+              // solved values are stored in per unit on the system base
+              double pfval, sbase = 100.0;
+              data->getValue(CASE_SBASE,&sbase);
+              if (data->getValue("GENERATOR_PF_QGEN",&pfval,j)) rval = pfval*sbase;
             }
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index bdbc25d..2218903 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -85,13 +85,19 @@ class ExportGen34
             ptr += strlen(ptr);
             rval = 0.0;
             if (data->getValue(GENERATOR_PG,&rval,j)) {
-              data->getValue("GENERATOR_PF_PG",&rval,j);
+              // solved values are stored in per unit on the system base
+              double pfval, sbase = 100.0;
+              data->getValue(CASE_SBASE,&sbase);
+              if (data->getValue("GENERATOR_PF_PGEN",&pfval,j)) rval = pfval*sbase;
             }
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
             if (data->getValue(GENERATOR_QG,&rval,j)) {
-              data->getValue("GENERATOR_PF_QG",&rval,j);
+              // solved values are stored in per unit on the system base
+              double pfval, sbase = 100.0;
+              data->getValue(CASE_SBASE,&sbase);
+              if (data->getValue("GENERATOR_PF_QGEN",&pfval,j)) rval = pfval*sbase;
             }
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-- 
2.43.0


From cef0ac2618b241f96cfd23baf8f792980f8c3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 023/115] fix: GGOV1 corrector limits the actuator rate it
 computes

---
 .../modules/dynamic_simulation_full_y/model_classes/ggov1.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/ggov1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/ggov1.cpp
index 7456dac..2b52ea5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/ggov1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/ggov1.cpp
@@ -458,7 +458,7 @@ void gridpack::dynamic_simulation::Ggov1Model::corrector(double t_inc, bool flag
   } else {
     dx4Act_1 = (LastLowValueSelect - x4Act_1) / Tact;
     if (dx4Act_1 > Ropen) dx4Act_1 = Ropen;
-    if (dx4Act_1 < Rclose) dx4Act = Rclose;
+    if (dx4Act_1 < Rclose) dx4Act_1 = Rclose;
   }
   // State 5
   TempIn = x4Act_1;
-- 
2.43.0


From 88835f68be1615d76fc654c1da2d753fb4a83ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 024/115] fix: WSHYGP corrector advances valve and gate from
 their predicted values

---
 .../model_classes/wshygp.cpp                  | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/wshygp.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/wshygp.cpp
index 714a6d9..4a5cf83 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/wshygp.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/wshygp.cpp
@@ -246,12 +246,12 @@ void gridpack::dynamic_simulation::WshygpModel::predictor(double t_inc, bool fla
   //printf("wshygp x: %f\t%f\t%f\t%f\t%f\t%f\t%f\n", x1Pmech_1, x2Td_1, x3Int_1, x4Der_1, x5Pelec_1, x6Valve_1, x7Gate_1);
 
   // Note: you may want to cash the value PGV and keep it around
-  GV = BackLash.Output(x7Gate);
+  GV = BackLash.Output(x7Gate_1);
   PGV = GainBlock.XtoY(GV);
   if (Bturb * Tturb < TS_THRESHOLD * t_inc) {
     Pmech = PGV * Trate / GenMVABase;
   } else {
-    Pmech = (PGV * Aturb / Bturb + x1Pmech) * Trate / GenMVABase;
+    Pmech = (PGV * Aturb / Bturb + x1Pmech_1) * Trate / GenMVABase;
   } 
   
  // printf("wshygp Pmech = %f\n", Pmech);
@@ -293,22 +293,22 @@ void gridpack::dynamic_simulation::WshygpModel::corrector(double t_inc, bool fla
   // State 6
   // Must recalculate CV because x2Td may have changed if TD = 0
   CV = x3Int_1 + (x4Der_1 + x2Td_1 * KD / TF) + x2Td_1 * Kp;
-  if (x7Gate > Pmax) x7Gate = Pmax; // nonwindup
-  if (x7Gate < Pmin) x7Gate = Pmin; // nonwindup
-  double GV = BackLash.Output(x7Gate);
+  if (x7Gate_1 > Pmax) x7Gate_1 = Pmax; // nonwindup
+  if (x7Gate_1 < Pmin) x7Gate_1 = Pmin; // nonwindup
+  double GV = BackLash.Output(x7Gate_1);
   TempIn = CV - GV;
-  if (TP < TS_THRESHOLD * t_inc) x6Valve = TempIn * KG;
-  if (x6Valve > VELopen) x6Valve = VELopen;
-  if (x6Valve < VELclose) x6Valve = VELclose;
-  if (TP < TS_THRESHOLD * t_inc) dx6Valve = 0;
-  else dx6Valve = (TempIn * KG - x6Valve) / TP;
-  if (dx6Valve > 0 && x6Valve >= VELopen) dx6Valve = 0; 
-  if (dx6Valve < 0 && x6Valve <= VELclose) dx6Valve = 0;
+  if (TP < TS_THRESHOLD * t_inc) x6Valve_1 = TempIn * KG;
+  if (x6Valve_1 > VELopen) x6Valve_1 = VELopen;
+  if (x6Valve_1 < VELclose) x6Valve_1 = VELclose;
+  if (TP < TS_THRESHOLD * t_inc) dx6Valve_1 = 0;
+  else dx6Valve_1 = (TempIn * KG - x6Valve_1) / TP;
+  if (dx6Valve_1 > 0 && x6Valve_1 >= VELopen) dx6Valve_1 = 0; 
+  if (dx6Valve_1 < 0 && x6Valve_1 <= VELclose) dx6Valve_1 = 0;
   // State 7
   // Note: non windup stuff handled above
-  dx7Gate = x6Valve;
-  if (dx7Gate > 0 && x7Gate >= Pmax) dx6Valve = 0;
-  if (dx7Gate < 0 && x7Gate <= Pmin) dx6Valve = 0;
+  dx7Gate_1 = x6Valve_1;
+  if (dx7Gate_1 > 0 && x7Gate_1 >= Pmax) dx6Valve_1 = 0;
+  if (dx7Gate_1 < 0 && x7Gate_1 <= Pmin) dx6Valve_1 = 0;
   // State 1
   double PGV = GainBlock.XtoY(GV);
   if (Bturb * Tturb < TS_THRESHOLD * t_inc) dx1Pmech_1 = 0;
@@ -331,7 +331,7 @@ void gridpack::dynamic_simulation::WshygpModel::corrector(double t_inc, bool fla
   if (Bturb * Tturb < TS_THRESHOLD * t_inc) {
     Pmech = PGV * Trate / GenMVABase;
   } else {
-    Pmech = (PGV * Aturb / Bturb + x1Pmech) * Trate / GenMVABase;
+    Pmech = (PGV * Aturb / Bturb + x1Pmech_1) * Trate / GenMVABase;
   } 
   
  // printf("wshygp Pmech = %f\n", Pmech);
-- 
2.43.0


From 2700ca458dbfe231fa86127e5dad6d92185c46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 025/115] fix: CoarseTimer::dump returns on every process when
 category counts differ

---
 src/timer/coarse_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timer/coarse_timer.cpp b/src/timer/coarse_timer.cpp
index b26b0e4..1582e02 100644
--- a/src/timer/coarse_timer.cpp
+++ b/src/timer/coarse_timer.cpp
@@ -100,8 +100,8 @@ void gridpack::utility::CoarseTimer::dump(void) const
     if (me == 0) {
       printf ("Different numbers of timing catagories on\n");
       printf ("different processors min: %d max: %d\n",size_min,size_max);
-      return;
     }
+    return;
   }
   for (i = 0; i<size; i++) {
     // statistics over all processors
-- 
2.43.0


From ac96dffbd138af2d1a021fdbd2769533facd6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 026/115] fix: branch relay trips are agreed between processes
 like bus relay trips

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index cc9bd1f..e2cbd47 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -350,7 +350,7 @@ bool gridpack::dynamic_simulation::DSFullFactory::updateBranchRelay(bool flag,do
 		bflag = bflag || p_branches[i]->updateRelay(flag,delta_t);
 	}
 	
-	return bflag;
+	return checkTrueSomewhere(bflag);
 	
 }
 
-- 
2.43.0


From dbe337dd4488b10d4468a18bcbc63643e90d83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 027/115] fix: hadrec debug output calls the zone totals on
 every process

---
 src/applications/hadrec/hadrec_main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/applications/hadrec/hadrec_main.cpp b/src/applications/hadrec/hadrec_main.cpp
index 84220ad..22955d0 100644
--- a/src/applications/hadrec/hadrec_main.cpp
+++ b/src/applications/hadrec/hadrec_main.cpp
@@ -192,8 +192,9 @@ if (debugoutput){
   std::vector<double> tmp_p;
   std::vector<double> tmp_q;
 
-  if (debugoutput && me == 0){
+  if (debugoutput){
 	hadrec_app_sptr->getZoneLoads(tmp_p, tmp_q, zone_id);
+    if (me == 0) {
   
     printf("\n-------------------get zone load information, total zones: %d \n\n", zone_id.size());
     for (idxtmp=0; idxtmp<zone_id.size(); idxtmp++){
@@ -201,10 +202,12 @@ if (debugoutput){
       printf(" zone number: %d, total load p: %f, total load q: %f,\n", zone_id[idxtmp], tmp_p[idxtmp], tmp_q[idxtmp]);
 
     }
+    }
   }
   
-  if (debugoutput && me == 0){
+  if (debugoutput){
 	hadrec_app_sptr->getZoneGeneratorPower(tmp_p, tmp_q, zone_id);
+    if (me == 0) {
   
     printf("\n-------------------get zone generation information, total zones: %d \n\n", zone_id.size());
     for (idxtmp=0; idxtmp<zone_id.size(); idxtmp++){
@@ -212,6 +215,7 @@ if (debugoutput){
       printf(" zone number: %d, total generation p: %f, total generation q: %f,\n", zone_id[idxtmp], tmp_p[idxtmp], tmp_q[idxtmp]);
 
     }
+    }
   }
 
   if (boutputob && me == 0) {
-- 
2.43.0


From 0ff5c23d844d01af5b42463a5b6e1380cd00603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 028/115] fix: PETSc wrappers examine the status codes they
 ignored

---
 .../petsc/petsc_dae_solver_implementation.hpp     |  6 +++---
 src/math/petsc/petsc_matrix_operations.cpp        | 14 +++++++-------
 src/math/petsc/petsc_matrix_wrapper.cpp           |  2 +-
 .../petsc_nonlinear_solver_implementation.cpp     | 15 ++++++++-------
 .../petsc_nonlinear_solver_implementation.hpp     |  2 +-
 src/math/petsc/petsc_vector.cpp                   |  6 +++---
 src/math/petsc/petsc_vector_wrapper.cpp           |  2 +-
 7 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index aa1334a..68d0277 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -158,7 +158,7 @@ protected:
 
         ierr = TSSetEventHandler(p_ts, ne, &(pdir[0]), &(pterm[0]),
                                  &EventHandler, &PostEventHandler,
-                                 NULL);
+                                 NULL); CHKERRXX(ierr);
       }
 
       ierr = TSSetProblemType(p_ts, TS_NONLINEAR); CHKERRXX(ierr);
@@ -198,7 +198,7 @@ protected:
       ierr = TSSetTime(p_ts, t0); CHKERRXX(ierr);
       ierr = TSSetTimeStep(p_ts, deltat0); CHKERRXX(ierr);
       Vec *xvec(PETScVector(x0));
-      ierr = TSSetSolution(p_ts, *xvec);
+      ierr = TSSetSolution(p_ts, *xvec); CHKERRXX(ierr);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
       throw PETScException(ierr, e);
     }
@@ -383,7 +383,7 @@ protected:
       fvalue[i] = equate<PetscScalar, T>(evalues[i]);
     }
 
-    ierr = VecAssemblyBegin(U);
+    ierr = VecAssemblyBegin(U); CHKERRXX(ierr);
     ierr = VecAssemblyEnd(U);
     return ierr;
   }
diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 5236714..1482103 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -337,13 +337,13 @@ multiply(const MatrixT<T, I>& A, const VectorT<T, I>& x, VectorT<T, I>& result)
   try {
     PetscInt plo, phi;
     MatType type;
-    ierr = MatGetType(*Amat,&type);
-    ierr = MatGetOwnershipRange(*Amat,&plo,&phi);
-    ierr = MatGetSize(*Amat,&plo,&phi);
-    ierr = VecGetOwnershipRange(*Xvec,&plo,&phi);
-    ierr = VecGetSize(*Xvec,&plo);
-    ierr = VecGetOwnershipRange(*Yvec,&plo,&phi);
-    ierr = VecGetSize(*Yvec,&plo);
+    ierr = MatGetType(*Amat,&type); CHKERRXX(ierr);
+    ierr = MatGetOwnershipRange(*Amat,&plo,&phi); CHKERRXX(ierr);
+    ierr = MatGetSize(*Amat,&plo,&phi); CHKERRXX(ierr);
+    ierr = VecGetOwnershipRange(*Xvec,&plo,&phi); CHKERRXX(ierr);
+    ierr = VecGetSize(*Xvec,&plo); CHKERRXX(ierr);
+    ierr = VecGetOwnershipRange(*Yvec,&plo,&phi); CHKERRXX(ierr);
+    ierr = VecGetSize(*Yvec,&plo); CHKERRXX(ierr);
     ierr = MatMult(*Amat, *Xvec, *Yvec); CHKERRXX(ierr);
   } catch (const PETSC_EXCEPTION_TYPE& e) {
     throw PETScException(ierr, e);
diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index d87fbee..69c7535 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -40,7 +40,7 @@ parallel::Communicator
 PetscMatrixWrapper::getCommunicator(const Mat& m)
 {
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)m, &comm);
+  PetscErrorCode ierr = PetscObjectGetComm((PetscObject)m, &comm); CHKERRXX(ierr);
   parallel::Communicator result(comm);
   return result;
 }
diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.cpp b/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
index b17e745..273ecf2 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
@@ -28,16 +28,17 @@ MonitorNorms(SNES snes, PetscInt its, PetscReal fgnorm, void *dummy)
 {
   PetscViewer    viewer = PETSC_VIEWER_STDOUT_WORLD;
 
+  PetscErrorCode ierr(0);
   Vec dx;
-  SNESGetSolutionUpdate(snes, &dx);
+  ierr = SNESGetSolutionUpdate(snes, &dx); CHKERRXX(ierr);
   PetscReal dxnorm;
-  VecNorm(dx, NORM_2, &dxnorm);
+  ierr = VecNorm(dx, NORM_2, &dxnorm); CHKERRXX(ierr);
   PetscInt tablevel;
-  PetscObjectGetTabLevel(((PetscObject)snes), &tablevel);
-  PetscViewerASCIIAddTab(viewer, tablevel);
-  PetscViewerASCIIPrintf(viewer,"%3D SNES Function norm %14.12e, Solution residual norm %14.12e\n",
-                         its, (double)fgnorm, (double)dxnorm);
-  PetscViewerASCIISubtractTab(viewer, tablevel);
+  ierr = PetscObjectGetTabLevel(((PetscObject)snes), &tablevel); CHKERRXX(ierr);
+  ierr = PetscViewerASCIIAddTab(viewer, tablevel); CHKERRXX(ierr);
+  ierr = PetscViewerASCIIPrintf(viewer,"%3D SNES Function norm %14.12e, Solution residual norm %14.12e\n",
+                         its, (double)fgnorm, (double)dxnorm); CHKERRXX(ierr);
+  ierr = PetscViewerASCIISubtractTab(viewer, tablevel); CHKERRXX(ierr);
   return(0);
 }
 
diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
index f7eb3b2..4054d3c 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
@@ -134,7 +134,7 @@ protected:
                                PETSC_DEFAULT,
                                this->p_solutionTolerance,
                                this->p_maxIterations, 
-                               PETSC_DEFAULT);
+                               PETSC_DEFAULT); CHKERRXX(ierr);
                              
       ierr = SNESSetFromOptions(p_snes); CHKERRXX(ierr);
     
diff --git a/src/math/petsc/petsc_vector.cpp b/src/math/petsc/petsc_vector.cpp
index df04178..d552db1 100644
--- a/src/math/petsc/petsc_vector.cpp
+++ b/src/math/petsc/petsc_vector.cpp
@@ -49,7 +49,7 @@ applyBinaryOperator(Vec *v1, const Vec *v2,
   ierr = VecRestoreArrayRead(*v2, &x2); CHKERRXX(ierr);
   ierr = VecRestoreArray(*v1, &x1);  CHKERRXX(ierr);
   ierr = VecAssemblyBegin(*v1); CHKERRXX(ierr);
-  ierr = VecAssemblyEnd(*v1); 
+  ierr = VecAssemblyEnd(*v1); CHKERRXX(ierr);
 }
 
 // -------------------------------------------------------------
@@ -68,7 +68,7 @@ applyUnaryOperator(Vec *v, base_unary_function<T>& op)
   unary_operation<T, PetscScalar>(n, x, op);
   ierr = VecRestoreArray(*v, &x);  CHKERRXX(ierr);
   ierr = VecAssemblyBegin(*v); CHKERRXX(ierr);
-  ierr = VecAssemblyEnd(*v); 
+  ierr = VecAssemblyEnd(*v); CHKERRXX(ierr);
 }
 
 // -------------------------------------------------------------
@@ -119,7 +119,7 @@ VectorT<T, I>::add(const VectorT<T, I>& x, const VectorT<T, I>::TheType& scale)
       PetscScalar alpha =
         gridpack::math::equate<PetscScalar, TheType>(scale);
       // This call computes y = x + alpha*y. Where y is p_vector.  
-      ierr = VecAXPY(*yvec, alpha, *xvec);
+      ierr = VecAXPY(*yvec, alpha, *xvec); CHKERRXX(ierr);
     } else {
       scaleAdd2<T> op(scale);
       applyBinaryOperator<T>(yvec, xvec, op);
diff --git a/src/math/petsc/petsc_vector_wrapper.cpp b/src/math/petsc/petsc_vector_wrapper.cpp
index 15e5bd8..08f576e 100644
--- a/src/math/petsc/petsc_vector_wrapper.cpp
+++ b/src/math/petsc/petsc_vector_wrapper.cpp
@@ -340,7 +340,7 @@ PetscVectorWrapper::ready(void)
   PetscErrorCode ierr;
   try {
     ierr = VecAssemblyBegin(p_vector); CHKERRXX(ierr);
-    ierr = VecAssemblyEnd(p_vector); 
+    ierr = VecAssemblyEnd(p_vector); CHKERRXX(ierr);
   } catch (const PETSC_EXCEPTION_TYPE& e) {
     throw PETScException(ierr, e);
   }
-- 
2.43.0


From 589537d77e34576d2cc66b3792577b11f70bc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 029/115] fix: copies of a PETSc vector wrapper create the
 vector they copy into

---
 src/math/petsc/petsc_vector_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/petsc/petsc_vector_wrapper.cpp b/src/math/petsc/petsc_vector_wrapper.cpp
index 08f576e..9243d3f 100644
--- a/src/math/petsc/petsc_vector_wrapper.cpp
+++ b/src/math/petsc/petsc_vector_wrapper.cpp
@@ -87,6 +87,7 @@ PetscVectorWrapper::PetscVectorWrapper(const PetscVectorWrapper& old)
 {
   PetscErrorCode ierr;
   try {
+    ierr = VecDuplicate(old.p_vector, &p_vector); CHKERRXX(ierr);
     ierr = VecCopy(old.p_vector, p_vector); CHKERRXX(ierr);
 
     // get and save the ownership index range
@@ -107,6 +108,7 @@ PetscVectorWrapper::PetscVectorWrapper(Vec& pVec, const bool& copyVec)
   try {
 
     if (copyVec) {
+      ierr = VecDuplicate(pVec, &p_vector); CHKERRXX(ierr);
       ierr = VecCopy(pVec, p_vector); CHKERRXX(ierr);
     } else {
       p_vector = pVec;
-- 
2.43.0


From 4d50a82f19b1bf7240450e33dd3bdb7ad9a25478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 030/115] fix: the factorization options of the matrix solver
 are initialized before two of them are set

---
 src/math/petsc/petsc_linear_matrix_solver_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
index ae57717..acdefe5 100644
--- a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
+++ b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
@@ -230,6 +230,7 @@ protected:
 
       ierr = MatGetOrdering(*A, p_orderingType, &perm, &iperm); CHKERRXX(ierr);
       ierr = MatGetFactor(*A, p_solverPackage, p_factorType, &p_Fmat);CHKERRXX(ierr);
+      ierr = MatFactorInfoInitialize(&info); CHKERRXX(ierr);
       info.fill = p_fill;
       info.dtcol = (p_pivot ? 1 : 0);
 
-- 
2.43.0


From 8f6cd944b25be63f81035973f9420f37b890f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 031/115] fix: KalmanBus releases the second and third ensemble
 buffers

---
 .../components/kds_matrix/kds_components.cpp  | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index b025f07..d86e8ba 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -135,6 +135,34 @@ gridpack::kalman_filter::KalmanBus::~KalmanBus(void)
       }
       delete [] p_omega2_dt;
     }
+    if (p_delta2 != NULL) {
+      int i;
+      for (i=0; i<p_ngen; i++) {
+        delete [] p_delta2[i];
+      }
+      delete [] p_delta2;
+    }
+    if (p_omega2 != NULL) {
+      int i;
+      for (i=0; i<p_ngen; i++) {
+        delete [] p_omega2[i];
+      }
+      delete [] p_omega2;
+    }
+    if (p_delta3 != NULL) {
+      int i;
+      for (i=0; i<p_ngen; i++) {
+        delete [] p_delta3[i];
+      }
+      delete [] p_delta3;
+    }
+    if (p_omega3 != NULL) {
+      int i;
+      for (i=0; i<p_ngen; i++) {
+        delete [] p_omega3[i];
+      }
+      delete [] p_omega3;
+    }
   }
 }
 
-- 
2.43.0


From 63f4a5a51d139cfdece0dcd9ceb2b196ff3a975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 032/115] fix: the quantile array of the wind driver is
 destroyed

---
 src/applications/development/wind_dsa/wind_driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/development/wind_dsa/wind_driver.cpp b/src/applications/development/wind_dsa/wind_driver.cpp
index 9389351..25eaf47 100644
--- a/src/applications/development/wind_dsa/wind_driver.cpp
+++ b/src/applications/development/wind_dsa/wind_driver.cpp
@@ -259,6 +259,7 @@ void gridpack::contingency_analysis::QuantileAnalysis::exportQuantiles(
       fclose(fd);
     }
   }
+  GA_Destroy(g_quant);
 }
 
 /**
-- 
2.43.0


From 34c11d6cf77a1ab6ab7cd46294e5ab0b0988c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 033/115] fix: full matrix mapper releases its index buffers
 when no bus contributes

---
 src/mapper/full_map.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index f05b463..7d3df40 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -917,10 +917,8 @@ void setBusOffsets(void)
     NGA_Gather(gaOffsetI,p_i_busOffsets,indices,p_busContribution);
     NGA_Gather(gaOffsetJ,p_j_busOffsets,indices,p_busContribution);
   }
-  if (p_busContribution > 0) {
-    delete [] indices;
-    delete [] data;
-  }
+  delete [] indices;
+  delete [] data;
 }
 
 /**
-- 
2.43.0


From 9187799fd14a43ada58bfc987749d8d9e1fffdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 034/115] fix: branch update counts processes in an array, and
 the network releases its branch receive buffer when it has one

---
 src/network/base_network.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a878820..eb261a1 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -381,7 +381,7 @@ virtual ~BaseNetwork(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -1671,7 +1671,7 @@ void clear(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -2230,8 +2230,8 @@ void initBranchUpdate(void)
     // Construct GA that can hold exchange data for all active branches
     int nprocs = GA_Pgroup_nnodes(grp);
     int me = GA_Pgroup_nodeid(grp);
-    int *totBranches = new int(nprocs);
-    int *distr = new int(nprocs);
+    int *totBranches = new int[nprocs];
+    int *distr = new int[nprocs];
     for (i=0; i<nprocs; i++) {
       if (me == i) {
         totBranches[i] = numBranches;
@@ -2302,8 +2302,8 @@ void initBranchUpdate(void)
         icnt++;
       }
     }
-    delete totBranches;
-    delete distr;
+    delete [] totBranches;
+    delete [] distr;
   }
   GA_Pgroup_sync(grp);
 }
-- 
2.43.0


From bdf7de4d4cb928cb3c0298827d4f980bc973f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 035/115] fix: GlobalStore deregisters its data type

---
 src/parallel/global_store.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 0857f49..5618ec8 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -61,6 +61,7 @@ public:
     // Assume that if p_begin is allocated, other data objects are allocated
     if (p_uploaded) {
       GA_Destroy(p_GA);
+      NGA_Deregister_type(p_GA_Type);
     }
     if (p_begin != NULL) delete [] p_begin;
     if (p_end != NULL) delete [] p_end;
@@ -150,9 +151,9 @@ public:
 
     // Create a GA to hold data
     int one = 1;
-    int GA_type = NGA_Register_type(p_datasize);
+    p_GA_Type = NGA_Register_type(p_datasize);
     p_GA = GA_Create_handle();
-    GA_Set_data(p_GA, one, &ndata, GA_type);
+    GA_Set_data(p_GA, one, &ndata, p_GA_Type);
     int GAgrp = p_comm.getGroup();
     GA_Set_pgroup(p_GA, GAgrp);
     GA_Allocate(p_GA);
@@ -210,6 +211,7 @@ private:
 
   // global array handle for storing distributed data
   int p_GA;
+  int p_GA_Type;
 
   // size of data type in bytes, processor configuration information,
   // total number stored vectors
-- 
2.43.0


From 77a0f9dc17e6cfde9c229dc19160d58fcde6e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 036/115] fix: index hash releases the offset array when there
 are no values

---
 src/parallel/index_hash.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index bf3ca94..650bf18 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -607,7 +607,10 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
     r_offset[i] += totalVals;
     totalVals += 2*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
@@ -979,7 +982,10 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
     r_offset[i] += totalVals;
     totalVals += 3*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-- 
2.43.0


From f4191569f5ed86b2d14f45ba271750ba706eaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 037/115] fix: coarse timer releases its buffers when category
 counts differ

---
 src/timer/coarse_timer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timer/coarse_timer.cpp b/src/timer/coarse_timer.cpp
index 1582e02..049fd3f 100644
--- a/src/timer/coarse_timer.cpp
+++ b/src/timer/coarse_timer.cpp
@@ -101,6 +101,10 @@ void gridpack::utility::CoarseTimer::dump(void) const
       printf ("Different numbers of timing catagories on\n");
       printf ("different processors min: %d max: %d\n",size_min,size_max);
     }
+    delete [] scheck;
+    delete [] rcheck;
+    delete [] stime;
+    delete [] rtime;
     return;
   }
   for (i = 0; i<size; i++) {
-- 
2.43.0


From cbc741b05e8c981ab11d28deb61a5db52fc62efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 038/115] fix: index hash queries work when fewer pairs than
 processes are sent or none

---
 src/parallel/index_hash.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index 650bf18..056f028 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -179,7 +179,7 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<int,int> > &pairs)
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<int,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -366,7 +366,7 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<std::pair<int,int>,int>
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<std::pair<int,int>,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -614,7 +614,7 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -730,7 +730,7 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
@@ -989,7 +989,7 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -1110,7 +1110,7 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
-- 
2.43.0


From 056af5d56465ae9ad7c193711640fc345ecb1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 039/115] fix: hash distribution works when fewer items than
 processes are sent

---
 src/parser/hash_distr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/hash_distr.hpp b/src/parser/hash_distr.hpp
index d661ecc..4371f1d 100644
--- a/src/parser/hash_distr.hpp
+++ b/src/parser/hash_distr.hpp
@@ -435,7 +435,7 @@ public:
       return;
     }
     int g_data = GA_Create_handle();
-    dims = totalVals;
+    dims = totalVals+nprocs;
     GA_Set_data(g_data, one, &dims, dtype);
     GA_Set_pgroup(g_data,p_GAgrp);
     int mapc[nprocs];
@@ -881,7 +881,7 @@ public:
       return;
     }
     int g_data = GA_Create_handle();
-    dims = totalVals;
+    dims = totalVals+nprocs;
     GA_Set_data(g_data, one, &dims, dtype);
     GA_Set_pgroup(g_data,p_GAgrp);
     int mapc[nprocs];
@@ -1314,7 +1314,7 @@ public:
       return;
     }
     int g_data = GA_Create_handle();
-    dims = totalVals;
+    dims = totalVals+nprocs;
     GA_Set_data(g_data, one, &dims, dtype);
     GA_Set_pgroup(g_data,p_GAgrp);
     int mapc[nprocs];
@@ -1774,7 +1774,7 @@ public:
       return;
     }
     int g_data = GA_Create_handle();
-    dims = totalVals;
+    dims = totalVals+nprocs;
     GA_Set_data(g_data, one, &dims, dtype);
     GA_Set_pgroup(g_data,p_GAgrp);
     int mapc[nprocs];
-- 
2.43.0


From 46648cd779c21e4cbfefd495ce74ee84519ef7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 040/115] fix: network exchange arrays have room for one block
 per process

---
 src/network/base_network.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index eb261a1..cf404b8 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2062,7 +2062,9 @@ void initBusUpdate(void)
     p_busGA = GA_Create_handle();
     int one = 1;
     p_busXCBufType = NGA_Register_type(p_busXCBufSize);
-    GA_Set_data(p_busGA, one, &p_busTotal, p_busXCBufType);
+    // one block per process, also when there are fewer elements than processes
+    int dims = p_busTotal+nprocs;
+    GA_Set_data(p_busGA, one, &dims, p_busXCBufType);
     GA_Set_irreg_distr(p_busGA, distr, &nprocs);
     GA_Set_pgroup(p_busGA, grp);
     GA_Allocate(p_busGA);
@@ -2251,7 +2253,9 @@ void initBranchUpdate(void)
     p_branchGA = GA_Create_handle();
     int one = 1;
     p_branchXCBufType = NGA_Register_type(p_branchXCBufSize);
-    GA_Set_data(p_branchGA, one, &p_branchTotal, p_branchXCBufType);
+    // one block per process, also when there are fewer elements than processes
+    int dims = p_branchTotal+nprocs;
+    GA_Set_data(p_branchGA, one, &dims, p_branchXCBufType);
     GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
     GA_Set_pgroup(p_branchGA, grp);
     GA_Allocate(p_branchGA);
-- 
2.43.0


From 2e95ce6d6fafe994b7ae6d0337bef4747885444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 041/115] fix: slab, vector and matrix maps have room for one
 block per process

---
 src/mapper/gen_matrix_map.hpp | 3 +++
 src/mapper/gen_slab_map.hpp   | 3 +++
 src/mapper/gen_vector_map.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index dd2c41b..e6f29ed 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -396,6 +396,9 @@ void setOffsets(void)
   delete [] t_branchMap;
 
   int one = 1;
+  // one block per process, also when there are fewer elements than processes
+  total_buses += p_nNodes;
+  total_branches += p_nNodes;
   g_bus_row_offsets = GA_Create_handle();
   GA_Set_data(g_bus_row_offsets, one, &total_buses, C_INT);
   GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index d6b5837..4670afe 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -474,6 +474,9 @@ void setOffsets(void)
   delete [] t_branchMap;
 
   int one = 1;
+  // one block per process, also when there are fewer elements than processes
+  total_buses += p_nNodes;
+  total_branches += p_nNodes;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
   GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index 2eabdfc..4c26291 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -352,6 +352,9 @@ void setOffsets(void)
   delete [] t_branchMap;
 
   int one = 1;
+  // one block per process, also when there are fewer elements than processes
+  total_buses += p_nNodes;
+  total_branches += p_nNodes;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
   GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
-- 
2.43.0


From 6737f5a7dbbcc31bd228d6aca8a1c8dadf0b7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 042/115] fix: full matrix map works on a process without rows

---
 src/mapper/full_map.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index 7d3df40..6eddd41 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -758,11 +758,14 @@ void setupOffsetArrays()
 //  printf("p[%d] (FullMatrixMap) minRow: %d maxRow: %d\n",p_me,p_minRowIndex,p_maxRowIndex);
   // Create array to hold information about desired rows
   int nRows = p_maxRowIndex-p_minRowIndex+1;
+  if (nRows < 0) nRows = 0; // no active buses on this process
   int *iSizes = new int[nRows]; 
   int *jSizes = new int[nRows]; 
   GA_Pgroup_sync(p_GAgrp);
-  NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
-  NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  if (nRows > 0) {
+    NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
+    NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  }
 
   // Calculate total number of elements associated with row block and column
   // block associated with this processor
@@ -827,8 +830,10 @@ void setupOffsetArrays()
   delete [] jtmp;
 
   // Create arrays that will hold final offsets
+  // one block per process, also when there are fewer buses than processes
+  int dims = p_totalBuses+p_nNodes;
   gaOffsetI = GA_Create_handle();
-  GA_Set_data(gaOffsetI, one, &p_totalBuses, C_INT);
+  GA_Set_data(gaOffsetI, one, &dims, C_INT);
   GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetI,p_GAgrp);
   if (!GA_Allocate(gaOffsetI)) {
@@ -840,7 +845,7 @@ void setupOffsetArrays()
   GA_Zero(gaOffsetI);
 
   gaOffsetJ = GA_Create_handle();
-  GA_Set_data(gaOffsetJ, one, &p_totalBuses, C_INT);
+  GA_Set_data(gaOffsetJ, one, &dims, C_INT);
   GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetJ,p_GAgrp);
   if (!GA_Allocate(gaOffsetJ)) {
@@ -854,8 +859,10 @@ void setupOffsetArrays()
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
   int *jOffsets = new int[nRows]; 
-  iOffsets[0] = offsetArrayISize;
-  jOffsets[0] = offsetArrayJSize;
+  if (nRows > 0) {
+    iOffsets[0] = offsetArrayISize;
+    jOffsets[0] = offsetArrayJSize;
+  }
   for (i=1; i<nRows; i++) {
     iOffsets[i] = iOffsets[i-1] + iSizes[i-1];
     jOffsets[i] = jOffsets[i-1] + jSizes[i-1];
-- 
2.43.0


From 08468e38b226df42e8d3da5c3d64f3ee87cd2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 043/115] fix: GlobalStore transfers nothing for empty vectors

---
 src/parallel/global_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 5618ec8..8916b5f 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -163,7 +163,7 @@ public:
       int idx = p_index[i];
       int lo = p_begin[idx];
       int hi = p_end[idx]-1;
-      NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
+      if (lo <= hi) NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
       p_data[i].clear();
     }
     p_data.clear();
@@ -191,7 +191,7 @@ public:
     int hi = p_end[idx]-1;
     int size = p_end[idx]-p_begin[idx];
     _data_type *dbuf = new _data_type[size];
-    NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
+    if (size > 0) NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
     // Copy results to vector
     vec.clear();
     for (int i=0; i<size; i++) {
-- 
2.43.0


From ff6459155df0bce64a0c72cc5eeb1e24265bae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 044/115] fix: serial output works on a process without
 elements to write

---
 src/serial_io/serial_io.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/serial_io/serial_io.hpp b/src/serial_io/serial_io.hpp
index 49f203c..588c944 100755
--- a/src/serial_io/serial_io.hpp
+++ b/src/serial_io/serial_io.hpp
@@ -334,7 +334,7 @@ class SerialBusIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
@@ -460,7 +460,7 @@ class SerialBusIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
@@ -575,7 +575,7 @@ class SerialBusIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
@@ -890,7 +890,7 @@ class SerialBranchIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
@@ -1000,7 +1000,7 @@ class SerialBranchIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
@@ -1111,7 +1111,7 @@ class SerialBranchIO {
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-        NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
+        if (ld > 0) NGA_Get(p_maskGA,&lo,&hi,&imask[0],&one);
         int j;
         nwrites = 0;
         for (j=0; j<ld; j++) {
-- 
2.43.0


From d4cfaaf4d5b2118c1342a3b149c3a8ffb9c5b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 045/115] fix: adjacency list works with fewer edges than
 processes

---
 src/partition/adjacency_list.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partition/adjacency_list.cpp b/src/partition/adjacency_list.cpp
index 9ba2652..ae11530 100644
--- a/src/partition/adjacency_list.cpp
+++ b/src/partition/adjacency_list.cpp
@@ -213,7 +213,7 @@ AdjacencyList::ready(void)
     dist[p] = 2*(static_cast<int>(max));
   }
   int g_edges = GA_Create_handle();
-  dims = 2*total_edges;
+  dims = 2*total_edges + nprocs;
   NGA_Set_data(g_edges,1,&dims,C_INT);
   NGA_Set_irreg_distr(g_edges,&dist[0],&nprocs);
   NGA_Set_pgroup(g_edges, grp);
@@ -265,7 +265,9 @@ AdjacencyList::ready(void)
   for (p=0; p<nprocs; p++) {
     int iproc = (me+p)%nprocs;
     NGA_Distribution(g_edges,iproc,&lo,&hi);
+    if (hi > 2*total_edges - 1) hi = 2*total_edges - 1;
     int size = hi - lo + 1;
+    if (size <= 0) continue;
     int *buf = new int[size];
     int ld = 1;
     NGA_Get(g_edges,&lo,&hi,buf,&ld);
-- 
2.43.0


From a3911ced9c64ddf31a2f4802650079c48d2835f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 046/115] fix: serial branch output works for a network without
 branches

---
 src/serial_io/serial_io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serial_io/serial_io.hpp b/src/serial_io/serial_io.hpp
index 588c944..7aa7c56 100755
--- a/src/serial_io/serial_io.hpp
+++ b/src/serial_io/serial_io.hpp
@@ -689,6 +689,8 @@ class SerialBranchIO {
     // Find total number of branches in network and create GAs for moving strings
     // around
     int nbranch = p_network->totalBranches();
+    // a network may have no branches, a global array has at least one element
+    if (nbranch == 0) nbranch = 1;
     int one = 1;
     p_stringGA = GA_Create_handle();
     GA_Set_data(p_stringGA,one,&nbranch,p_GA_type);
-- 
2.43.0


From d0b320257f0bc7e398918f0dbe5159bb4a7eee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 047/115] fix: network components have defaults for bus and
 branch parameters that the input lacks

---
 .../components/ds_matrix/ds_components.cpp    |  4 ++++
 .../components/kds_matrix/kds_components.cpp  |  4 ++--
 .../components/pf_matrix/pf_components.cpp    | 19 ++++++++++++++++---
 .../components/se_matrix/se_components.cpp    |  5 ++++-
 .../y_matrix/ymatrix_components.cpp           |  5 ++++-
 5 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index f2a5e15..615c91a 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -336,6 +336,10 @@ void gridpack::dynamic_simulation_r::DSBus::load(
 
   p_sbase = 100.0;
 
+  // values of a flat start, if the bus record does not have them
+  p_angle = 0.0;
+  p_voltage = 1.0;
+  p_type = 1;
   data->getValue(BUS_VOLTAGE_ANG, &p_angle);
   data->getValue(BUS_VOLTAGE_MAG, &p_voltage);
 
diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index d86e8ba..1a285f5 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -553,7 +553,7 @@ void gridpack::kalman_filter::KalmanBus::load(
   double pi = 4.0*atan(1.0);
   p_angle = p_angle*pi/180.0;
   p_a = p_angle;
-  int itype;
+  int itype = 1;
   data->getValue(BUS_TYPE, &itype);
   if (itype == 3) {
     setReferenceBus(true);
@@ -583,7 +583,7 @@ void gridpack::kalman_filter::KalmanBus::load(
       pg /= p_sbase;
       qg /= p_sbase;
 
-      double genMVA;
+      double genMVA = p_sbase;
       data->getValue(GENERATOR_MBASE, &genMVA, i);
       if (!data->getValue(GENERATOR_RESISTANCE, &r, i)) r=0.0; // r
       if (!data->getValue(GENERATOR_SUBTRANSIENT_REACTANCE, &dstr,i)) dstr = 0.0; // dstr
diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..8503fb8 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -454,6 +454,7 @@ void gridpack::powerflow::PFBus::load(
   double pi = 4.0*atan(1.0);
   p_angle = p_angle*pi/180.0;
   p_a = p_angle;
+  p_type = 1;
   data->getValue(BUS_TYPE, &p_type);
   if (p_type == 3) {
     setReferenceBus(true);
@@ -957,7 +958,7 @@ bool gridpack::powerflow::PFBus::serialWrite(char *string, const int bufsize,
     }
     double gl, bl;
     YMBus::getShuntValues(&bl, &gl);
-    int area;
+    int area = 1;
     p_data->getValue(BUS_AREA,&area);
     sprintf(sbuf," %16.8f, %16.8f, %8d,",gl,bl,area);
     len = strlen(sbuf);
@@ -967,8 +968,8 @@ bool gridpack::powerflow::PFBus::serialWrite(char *string, const int bufsize,
       cptr += len;
     }
     double zero = 0.0;
-    int nzone;
-    double basekv;
+    int nzone = 1;
+    double basekv = 0.0;
     p_data->getValue(BUS_ZONE,&nzone);
     p_data->getValue(BUS_BASEKV,&basekv);
     double pi = 4.0*atan(1.0);
@@ -2099,15 +2100,19 @@ void gridpack::powerflow::PFBranch::load(
   int idx;
   for (idx = 0; idx<p_elems; idx++) {
     bool xform = true;
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_X, &rvar, idx);
     if (rvar <1.0e-5 && rvar >=0.0) rvar = 1.0e-5;
     if (rvar >-1.0e-5 && rvar <0.0) rvar =-1.0e-5;
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
+    rvar = 0.0;
     ok = data->getValue(BRANCH_SHIFT, &rvar, idx);
     rvar = -rvar*pi/180.0; 
     p_phase_shift.push_back(rvar);
+    rvar = 0.0;
     ok = data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar); 
     if (rvar != 0.0) {
@@ -2123,22 +2128,30 @@ void gridpack::powerflow::PFBranch::load(
     ok = data->getValue(BRANCH_CKT, &tag, idx);
     p_ckt.push_back(tag);
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
     bool rate = true;
+    rvar = 0.0;
     rate = rate && data->getValue(BRANCH_RATING_A,&rvar,idx);
     p_rateA.push_back(rvar);
+    rvar = 0.0;
     rate = rate && data->getValue(BRANCH_RATING_B,&rvar,idx);
     p_rateB.push_back(rvar);
+    rvar = 0.0;
     rate = rate && data->getValue(BRANCH_RATING_C,&rvar,idx);
     p_rateC.push_back(rvar);
     p_ignore.push_back(false);
diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index eff37d3..4780567 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -278,7 +278,7 @@ void gridpack::state_estimation::SEBus::load(
   double pi = 4.0*atan(1.0);
   p_angle = p_angle*pi/180.0;
   p_a = p_angle;
-  int itype;
+  int itype = 1;
   data->getValue(BUS_TYPE, &itype);
   if (itype == 3) {
     setReferenceBus(true);
@@ -1275,10 +1275,12 @@ void gridpack::state_estimation::SEBranch::load(
   data->getValue(CASE_SBASE, &p_sbase);
   int idx;
   for (idx = 0; idx<p_elems; idx++) {
+    rvar = 0.0;
     data->getValue(BRANCH_X, &rvar, idx);
     if (rvar <1.0e-5 && rvar >=0.0) rvar = 1.0e-5;
     if (rvar >-1.0e-5 && rvar <0.0) rvar =-1.0e-5;
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
     rvar = 0.0; 
@@ -1289,6 +1291,7 @@ void gridpack::state_estimation::SEBranch::load(
     data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar); 
     //ok = ok && data->getValue(BRANCH_CKT, &svar, idx);
+    svar.clear();
     data->getValue(BRANCH_CKT, &svar, idx);
     p_tag.push_back(svar);
     if (rvar != 0.0) {
diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..3bfeab6 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -160,7 +160,7 @@ void gridpack::ymatrix::YMBus::load(
     p_shunt_bs = shunt_binit;
   }
   // Check to see if bus is reference bus
-  int itype;
+  int itype = 1;
   data->getValue(BUS_TYPE, &itype);
   if (itype == 3) {
     setReferenceBus(true);
@@ -476,10 +476,12 @@ void gridpack::ymatrix::YMBranch::load(
   int idx;
   for (idx = 0; idx<p_elems; idx++) {
     bool xform = true;
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_X, &rvar, idx);
     //if (rvar <1.0e-5 && rvar >=0.0) rvar = 1.0e-5;
 //    if (rvar >-1.0e-5 && rvar >=0.0) rvar =-1.0e-5;
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
     rvar = 0.0;
@@ -489,6 +491,7 @@ void gridpack::ymatrix::YMBranch::load(
     rvar = 0.0;
     ok = data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar); 
+    svar.clear();
     ok = data->getValue(BRANCH_CKT, &svar, idx);
     p_tag.push_back(svar);
     if (rvar != 0.0) {
-- 
2.43.0


From cbf6c162834f61f24d0c75323645305825f9d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 048/115] fix: dynamic simulation (DAE) buses and branches have
 defaults for missing parameters

---
 .../modules/dynamic_simulation_dae/dsimnetwork.cpp         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index 0742a39..6f5c812 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -203,6 +203,8 @@ void DSimBus::load(const
   data->getValue(CASE_SBASE,&p_sbase);
 
   // Get Voltage magnitude and angle
+  Va = 0.0;
+  Vm = 1.0;
   data->getValue(BUS_VOLTAGE_ANG,&Va); // This is in degress
   data->getValue(BUS_VOLTAGE_MAG,&Vm);
  
@@ -221,6 +223,7 @@ void DSimBus::load(const
   p_Va0 = Va;
 
   // Get the bus type
+  p_bustype = 1;
   data->getValue(BUS_TYPE,&p_bustype);
   if(p_bustype == 4) p_isolated = true;
 
@@ -246,6 +249,7 @@ void DSimBus::load(const
     p_neqsgov= (int*)malloc(p_ngen*sizeof(int));
 
     for(i=0; i < p_ngen; i++) {
+      gstatus = 1;
       data->getValue(GENERATOR_STAT,&gstatus,i); // Generator status
       if(!gstatus) {
 	p_gen[i] = new BaseGenModel;
@@ -781,6 +785,9 @@ void DSimBranch::load(
 
   for(i=0; i < p_nparlines; i++) {
     // Get line parameters
+    status = 1;
+    R = X = Bc = tap = shift = 0.0;
+    cktid.clear();
     data->getValue(BRANCH_STATUS,&status,i);
     data->getValue(BRANCH_R,&R,i);
     data->getValue(BRANCH_X,&X,i);
-- 
2.43.0


From ff81b75234e8a636239a440f4538aa7beff29cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 049/115] fix: power flow results are transferred to dynamic
 simulation only where there are any

---
 .../development/wind_dsa/wind_driver.cpp      | 33 +++++++++--------
 .../dsf_comm_main.cpp                         | 20 ++++++-----
 .../dsf_app_module.cpp                        | 36 +++++++++++--------
 3 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/applications/development/wind_dsa/wind_driver.cpp b/src/applications/development/wind_dsa/wind_driver.cpp
index 25eaf47..d252a5e 100644
--- a/src/applications/development/wind_dsa/wind_driver.cpp
+++ b/src/applications/development/wind_dsa/wind_driver.cpp
@@ -299,14 +299,14 @@ void gridpack::contingency_analysis::WindDriver::transferPFtoDS(
   for (i=0; i<numBus; i++) {
     pfData = pf_network->getBusData(i).get();
     dsData = ds_network->getBusData(i).get();
-    pfData->getValue("BUS_PF_VMAG",&rval);
-    dsData->setValue("BUS_PF_VMAG",rval);
-    dsData->setValue(BUS_VOLTAGE_MAG,rval);
-    temp = rval;
-    pfData->getValue("BUS_PF_VANG",&rval);
-    dsData->setValue("BUS_PF_VANG",rval);
-    dsData->setValue(BUS_VOLTAGE_ANG,rval);
-    rval = rval * pi/180.0;
+    if (pfData->getValue("BUS_PF_VMAG",&rval)) {
+      dsData->setValue("BUS_PF_VMAG",rval);
+      dsData->setValue(BUS_VOLTAGE_MAG,rval);
+    }
+    if (pfData->getValue("BUS_PF_VANG",&rval)) {
+      dsData->setValue("BUS_PF_VANG",rval);
+      dsData->setValue(BUS_VOLTAGE_ANG,rval);
+    }
     pfData->getValue("BUS_TYPE", &ival);
     /*
     if (ival != 4) {
@@ -318,19 +318,22 @@ void gridpack::contingency_analysis::WindDriver::transferPFtoDS(
       }
     }
     */
-    pfData->getValue("LOAD_PL",&rval,0);
-    dsData->setValue(LOAD_PL,rval);
+    if (pfData->getValue("LOAD_PL",&rval,0)) {
+      dsData->setValue(LOAD_PL,rval);
+    }
     int ngen = 0;
     pfData->getValue(GENERATOR_NUMBER, &ngen);
     if (pfData->getValue(GENERATOR_NUMBER, &ngen)) {
       int j;
       for (j=0; j<ngen; j++) {
-        pfData->getValue("GENERATOR_PF_PGEN",&rval,j);
-	//  printf ("Bus:%d, ---PF_PG = %e \n", i, rval);
-        dsData->setValue(GENERATOR_PG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_PGEN",&rval,j)) {
+  	//  printf ("Bus:%d, ---PF_PG = %e \n", i, rval);
+          dsData->setValue(GENERATOR_PG,rval,j);
+        }
 	//        if (ngen >1) printf("save PGEN: %f\n", rval);
-        pfData->getValue("GENERATOR_PF_QGEN",&rval,j);
-        dsData->setValue(GENERATOR_QG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_QGEN",&rval,j)) {
+          dsData->setValue(GENERATOR_QG,rval,j);
+        }
 	//        if (ngen > 1) printf("save QGEN: %f\n", rval);
       }
     }
diff --git a/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp b/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
index c255829..1d90428 100644
--- a/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
+++ b/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
@@ -42,20 +42,24 @@ void transferPFtoDS(
   for (i=0; i<numBus; i++) {
     pfData = pf_network->getBusData(i).get();
     dsData = ds_network->getBusData(i).get();
-    pfData->getValue("BUS_PF_VMAG",&rval);
-    dsData->setValue(BUS_VOLTAGE_MAG,rval);
+    if (pfData->getValue("BUS_PF_VMAG",&rval)) {
+      dsData->setValue(BUS_VOLTAGE_MAG,rval);
+    }
     ///printf("Step0 bus%d mag = %f\n", i+1, rval);
-    pfData->getValue("BUS_PF_VANG",&rval);
-    dsData->setValue(BUS_VOLTAGE_ANG,rval);
+    if (pfData->getValue("BUS_PF_VANG",&rval)) {
+      dsData->setValue(BUS_VOLTAGE_ANG,rval);
+    }
     int ngen = 0;
     if (pfData->getValue(GENERATOR_NUMBER, &ngen)) {
       int j;
       for (j=0; j<ngen; j++) {
-        pfData->getValue("GENERATOR_PF_PGEN",&rval,j);
-        dsData->setValue(GENERATOR_PG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_PGEN",&rval,j)) {
+          dsData->setValue(GENERATOR_PG,rval,j);
+        }
         //printf("save PGEN: %f\n", rval);
-        pfData->getValue("GENERATOR_PF_QGEN",&rval,j);
-        dsData->setValue(GENERATOR_QG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_QGEN",&rval,j)) {
+          dsData->setValue(GENERATOR_QG,rval,j);
+        }
         //printf("save QGEN: %f\n", rval);
       }
     }
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index cbc3be8..32c3ba7 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -4846,28 +4846,34 @@ void gridpack::dynamic_simulation::DSFullApp::transferPFtoDS(
   for (i=0; i<numBus; i++) {
     pfData = pf_network->getBusData(i).get();
     dsData = ds_network->getBusData(i).get();
-    pfData->getValue("BUS_PF_VMAG",&rval);
-    dsData->setValue("BUS_PF_VMAG", rval);
-    dsData->setValue(BUS_VOLTAGE_MAG,rval);
+    if (pfData->getValue("BUS_PF_VMAG",&rval)) {
+      dsData->setValue("BUS_PF_VMAG", rval);
+      dsData->setValue(BUS_VOLTAGE_MAG,rval);
+    }
     ///printf("Step0 bus%d mag = %f\n", i+1, rval);
-    pfData->getValue("BUS_PF_VANG",&rval);
-    dsData->setValue("BUS_PF_VANG",rval);
-    dsData->setValue(BUS_VOLTAGE_ANG,rval);
-
-    pfData->getValue("LOAD_PL", &rval, 0);
-    dsData->setValue(LOAD_PL, rval);
-    pfData->getValue("LOAD_QL", &rval, 0);
-    dsData->setValue(LOAD_QL, rval);
+    if (pfData->getValue("BUS_PF_VANG",&rval)) {
+      dsData->setValue("BUS_PF_VANG",rval);
+      dsData->setValue(BUS_VOLTAGE_ANG,rval);
+    }
+
+    if (pfData->getValue("LOAD_PL", &rval, 0)) {
+      dsData->setValue(LOAD_PL, rval);
+    }
+    if (pfData->getValue("LOAD_QL", &rval, 0)) {
+      dsData->setValue(LOAD_QL, rval);
+    }
     
     int ngen = 0;
     if (pfData->getValue(GENERATOR_NUMBER, &ngen)) {
       int j;
       for (j=0; j<ngen; j++) {
-        pfData->getValue("GENERATOR_PF_PGEN",&rval,j);
-        dsData->setValue(GENERATOR_PG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_PGEN",&rval,j)) {
+          dsData->setValue(GENERATOR_PG,rval,j);
+        }
         //printf("save PGEN: %f\n", rval);
-        pfData->getValue("GENERATOR_PF_QGEN",&rval,j);
-        dsData->setValue(GENERATOR_QG,rval,j);
+        if (pfData->getValue("GENERATOR_PF_QGEN",&rval,j)) {
+          dsData->setValue(GENERATOR_QG,rval,j);
+        }
         //printf("save QGEN: %f\n", rval);
       }
     }
-- 
2.43.0


From 12f8847a60f4929c2de11274da63f975b3a3be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 050/115] fix: dynamic simulation buses and branches have
 defaults for missing parameters

---
 .../dsf_components.cpp                        | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 133ea6c..8e6f959 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -880,6 +880,8 @@ void gridpack::dynamic_simulation::DSFullBus::load(
       return; 
     }	  
   }
+  p_angle = 0.0;
+  p_voltage = 1.0;
   if (!data->getValue("BUS_PF_VANG", &p_angle)) {
     data->getValue(BUS_VOLTAGE_ANG, &p_angle);
   }
@@ -904,6 +906,7 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   p_shunt_bs /= p_sbase; 
 
   // Check to see if bus is reference bus
+  p_type = 1;
   data->getValue(BUS_TYPE, &p_type);
   if (p_type == 3) {
     setReferenceBus(true);
@@ -939,7 +942,9 @@ void gridpack::dynamic_simulation::DSFullBus::load(
       p_downStartedMonitoring.push_back(false);
 
       // Set up model
-      int stat;
+      int stat = 1;
+      pg = qg = 0.0;
+      genid.clear();
       data->getValue(GENERATOR_STAT, &stat, i);
       data->getValue(GENERATOR_PG, &pg, i);
       data->getValue(GENERATOR_QG, &qg, i);
@@ -952,7 +957,7 @@ void gridpack::dynamic_simulation::DSFullBus::load(
       p_pg.push_back(pg);
       p_qg.push_back(qg);
       p_savePg.push_back(pg);
-      double pmin, pmax;
+      double pmin = 0.0, pmax = 0.0;
       data->getValue(GENERATOR_PMIN,&pmin,i);
       data->getValue(GENERATOR_PMAX,&pmax,i);
       p_gpmin.push_back(pmin);
@@ -1073,6 +1078,7 @@ void gridpack::dynamic_simulation::DSFullBus::load(
           relaycnt = 0;
           if (nrelay>0) {
             for (irelay=0 ; irelay<=nrelay ; irelay++) {
+              relay_genid.clear();
               data->getValue(RELAY_GENID, &relay_genid, irelay);
               if (relay_genid == genid) {
                 if (data->getValue(RELAY_MODEL, &model, irelay)) {
@@ -1158,6 +1164,8 @@ void gridpack::dynamic_simulation::DSFullBus::load(
     if (bdebug_load_model) printf("bus %d has %d power flow loads \n", idx, p_npowerflow_load);
     int istat;
     for (i=0; i<p_npowerflow_load; i++) { 
+      pl = ql = ip = iq = yp = yq = 0.0;
+      loadid.clear();
       data->getValue(LOAD_PL, &pl, i);
       data->getValue(LOAD_QL, &ql, i);
       data->getValue(LOAD_IP, &ip, i);
@@ -1462,10 +1470,11 @@ void gridpack::dynamic_simulation::DSFullBus::LoadExtendedCmplBus(
   
   //get the values for initialization of the substation power flow
   int tapNum;
-  double Pload_MW, Qload_MVar, vt_mag, sysMVABase, Pload_pu, Qload_pu, loadFactor, Bss;
-  double Bss_pu, Xxf, Xxf_pu, Rfdr, Xfdr, Rfdr_pu, Xfdr_pu, Tfixhs, Tfixls, Vlow_mag, Vmin, Vmax;
-  double tap, Tmin, Tmax, step, Imag_lowbus, Ifeeder_mag, Vload_mag, Vload_ang, PloadBus_pu, QloadBus_pu;
-  double FmA, FmB, FmC, FmD;
+  double Pload_MW, Qload_MVar, vt_mag, sysMVABase, Pload_pu, Qload_pu, loadFactor, Bss = 0.0;
+  double Bss_pu, Xxf = 0.0, Xxf_pu, Rfdr = 0.0, Xfdr = 0.0, Rfdr_pu, Xfdr_pu;
+  double Tfixhs = 1.0, Tfixls = 1.0, Vlow_mag, Vmin = 1.025, Vmax = 1.04;
+  double tap, Tmin = 0.9, Tmax = 1.1, step = 0.00625, Imag_lowbus, Ifeeder_mag, Vload_mag, Vload_ang, PloadBus_pu, QloadBus_pu;
+  double FmA = 0.0, FmB = 0.0, FmC = 0.0, FmD = 0.0;
   
   gridpack::ComplexType vt = gridpack::ComplexType(p_voltage*cos(p_angle), p_voltage*sin(p_angle)); 
   
@@ -1741,7 +1750,7 @@ void gridpack::dynamic_simulation::DSFullBus::LoadExtendedCmplBus(
   // Q0=P0*tan(acos(PFs))
   // P3=1-P1c-P2c
   // Q3=1-Q1c-Q2c
-  double Fstatic, Pint_static, Qint_static, cmpl_pf;
+  double Fstatic, Pint_static, Qint_static, cmpl_pf = 1.0;
   if (1.0-(FmA+FmB+FmC+FmD+Fel) > 0.0){
 	Fstatic =  1.0-(FmA+FmB+FmC+FmD+Fel);
 	Pint_static =  PloadBus_pu*Fstatic*sysMVABase;  //check with Qiuhua
@@ -3477,8 +3486,10 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
   //printf ("-- component branch line relay:  -- nrelay = %d \n", nrelay);
 
   for (idx = 0; idx<p_elems; idx++) {
+    rvar = 0.0;
     data->getValue(BRANCH_X, &rvar, idx);
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
     rvar = 0.0;
@@ -3501,14 +3512,19 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     if (!ok) lvar = false;
     p_switched.push_back(lvar);
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
@@ -3521,6 +3537,8 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
 
     if (nrelay>0) {
       for (irelay=0 ; irelay<nrelay ; irelay++) {
+        srelay_lineckt.clear();
+        smodel.clear();
         data->getValue(RELAY_ID, &srelay_lineckt, irelay);
         data->getValue(RELAY_MODEL, &smodel, irelay);
         //printf("branch relay irelay: %d, model: %s \n",
-- 
2.43.0


From 7f0a1d5f380000cde73f74ec6bc0acb627bba518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 051/115] fix: PSS/E export writes defaults for missing
 parameters

---
 src/export/data_blocks/export_area23.hpp  | 2 +-
 src/export/data_blocks/export_area33.hpp  | 2 +-
 src/export/data_blocks/export_line23.hpp  | 4 ++++
 src/export/data_blocks/export_line33.hpp  | 4 ++++
 src/export/data_blocks/export_line34.hpp  | 3 +++
 src/export/data_blocks/export_load33.hpp  | 4 ++--
 src/export/data_blocks/export_xform23.hpp | 1 +
 src/export/data_blocks/export_xform33.hpp | 2 ++
 src/export/data_blocks/export_xform34.hpp | 2 ++
 9 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/export/data_blocks/export_area23.hpp b/src/export/data_blocks/export_area23.hpp
index 2ce8e81..e9a7ccc 100644
--- a/src/export/data_blocks/export_area23.hpp
+++ b/src/export/data_blocks/export_area23.hpp
@@ -62,7 +62,7 @@ class ExportArea23
       gridpack::component::DataCollection *data = p_network->getNetworkData().get();
       if (me == 0) {
         fout << "0 / END TRANSFORMER ADJUSTMENT DATA, BEGIN AREA DATA" << std::endl;
-        int narea;
+        int narea = 0;
         data->getValue(AREA_TOTAL,&narea);
         int i, j;
         char buf[MAX_STRING_SIZE];
diff --git a/src/export/data_blocks/export_area33.hpp b/src/export/data_blocks/export_area33.hpp
index b7a9e4d..89bb525 100644
--- a/src/export/data_blocks/export_area33.hpp
+++ b/src/export/data_blocks/export_area33.hpp
@@ -63,7 +63,7 @@ class ExportArea33
       gridpack::component::DataCollection *data = p_network->getNetworkData().get();
       if (me == 0) {
         fout << "0 / END TRANSFORMER DATA, BEGIN AREA DATA" << std::endl;
-        int narea;
+        int narea = 0;
         data->getValue(AREA_TOTAL,&narea);
         int i, j;
         char buf[MAX_STRING_SIZE];
diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 3ee1cd0..a2efb74 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -78,6 +78,7 @@ class ExportLine23
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
@@ -97,10 +98,12 @@ class ExportLine23
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
             // No default for this value
+            rval = 0.0;
             data->getValue(BRANCH_R,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             // No default for this value
+            rval = 0.0;
             data->getValue(BRANCH_X,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
@@ -109,6 +112,7 @@ class ExportLine23
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             // No default for this value
+            rval = 0.0;
             data->getValue(BRANCH_RATING_A,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index 4b096e9..d692760 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -78,6 +78,7 @@ class ExportLine33
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
@@ -97,10 +98,12 @@ class ExportLine33
               sprintf(ptr," \'%s\',",sval.c_str());
               ptr += strlen(ptr);
               // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_R,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_X,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
@@ -109,6 +112,7 @@ class ExportLine33
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_RATING_A,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 7e4da37..313eeeb 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -78,6 +78,7 @@ class ExportLine34
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
@@ -97,10 +98,12 @@ class ExportLine34
               sprintf(ptr," \'%s\',",sval.c_str());
               ptr += strlen(ptr);
               // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_R,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_X,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 08e8c52..03d15b4 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -99,11 +99,11 @@ class ExportLoad33
             }
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 0.0;
+            pl = 0.0;
             data->getValue(LOAD_PL,&pl,j);
             sprintf(ptr," %f,",pl);
             ptr += strlen(ptr);
-            rval = 0.0;
+            ql = 0.0;
             data->getValue(LOAD_QL,&ql,j);
             sprintf(ptr," %f,",ql);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index 65d3571..9011f19 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -78,6 +78,7 @@ class ExportXform23
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 36012c3..9ef24b5 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -78,6 +78,7 @@ class ExportXform33
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
@@ -162,6 +163,7 @@ class ExportXform33
               }
               sprintf(ptr,"%f,",rval);
               ptr += strlen(ptr);
+              rval = 0.0;
               if (!data->getValue(TRANSFORMER_X1_2,&rval,j)) {
                 data->getValue(BRANCH_X,&rval,j);
               }
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index d18161c..3513bd1 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -78,6 +78,7 @@ class ExportXform34
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
@@ -166,6 +167,7 @@ class ExportXform34
               }
               sprintf(ptr,"%f,",rval);
               ptr += strlen(ptr);
+              rval = 0.0;
               if (!data->getValue(TRANSFORMER_X1_2,&rval,j)) {
                 data->getValue(BRANCH_X,&rval,j);
               }
-- 
2.43.0


From e5f5e5fa59c5133a469575059fd48c6b2b5fe9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 052/115] fix: star buses of three winding transformers have
 defaults for missing parameters

---
 src/parser/block_parsers/transformer_parser33.cpp | 9 ++++++++-
 src/parser/block_parsers/transformer_parser34.cpp | 9 ++++++++-
 src/parser/block_parsers/transformer_parser35.cpp | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index bec4e6f..98ec2e4 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -135,27 +135,34 @@ void gridpack::parser::TransformerParser33::parse(
         data->addValue(BUS_NAME,cbuf);
         data->addValue(BUS_BASEKV,0.0);
         data->addValue(BUS_TYPE,1);
-        int ival;
+        int ival = 1;
         p_busData[l_idx1]->getValue(BUS_AREA,&ival);
         data->addValue(BUS_AREA,ival);
+        ival = 1;
         p_busData[l_idx1]->getValue(BUS_OWNER,&ival);
         data->addValue(BUS_OWNER, ival);
         double rval = 0.0;
         double rvol;
+        rvol = 1.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
         rval = rval/3.0;
         rval = 1.0;
         data->addValue(BUS_VOLTAGE_MAG,rval);
         rval = 0.0;
+        rvol = 0.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
         rval = rval/3.0;
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 15b11f5..c323bf6 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -136,27 +136,34 @@ void gridpack::parser::TransformerParser34::parse(
         data->addValue(BUS_NAME,cbuf);
         data->addValue(BUS_BASEKV,0.0);
         data->addValue(BUS_TYPE,1);
-        int ival;
+        int ival = 1;
         p_busData[l_idx1]->getValue(BUS_AREA,&ival);
         data->addValue(BUS_AREA,ival);
+        ival = 1;
         p_busData[l_idx1]->getValue(BUS_OWNER,&ival);
         data->addValue(BUS_OWNER, ival);
         double rval = 0.0;
         double rvol;
+        rvol = 1.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
         rval = rval/3.0;
         rval = 1.0;
         data->addValue(BUS_VOLTAGE_MAG,rval);
         rval = 0.0;
+        rvol = 0.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
         rval = rval/3.0;
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3ecbede..2b4b525 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -135,27 +135,34 @@ void gridpack::parser::TransformerParser35::parse(
         data->addValue(BUS_NAME,cbuf);
         data->addValue(BUS_BASEKV,0.0);
         data->addValue(BUS_TYPE,1);
-        int ival;
+        int ival = 1;
         p_busData[l_idx1]->getValue(BUS_AREA,&ival);
         data->addValue(BUS_AREA,ival);
+        ival = 1;
         p_busData[l_idx1]->getValue(BUS_OWNER,&ival);
         data->addValue(BUS_OWNER, ival);
         double rval = 0.0;
         double rvol;
+        rvol = 1.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
+        rvol = 1.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_MAG,&rvol);
         rval += rvol;
         rval = rval/3.0;
         rval = 1.0;
         data->addValue(BUS_VOLTAGE_MAG,rval);
         rval = 0.0;
+        rvol = 0.0;
         p_busData[l_idx1]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx2]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
+        rvol = 0.0;
         p_busData[l_idx3]->getValue(BUS_VOLTAGE_ANG,&rvol);
         rval += rvol;
         rval = rval/3.0;
-- 
2.43.0


From 53b47de337a01d8c8b641390dff5c2a4b49ff84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 053/115] fix: missing branch shunt and impedance parameters
 read as zero, not as the previous parameter; hygov r, branch circuit of a
 relay

---
 .../components/ds_matrix/ds_components.cpp             |  9 +++++++++
 .../components/kds_matrix/kds_components.cpp           | 10 ++++++++++
 .../components/y_matrix/ymatrix_components.cpp         |  5 +++++
 .../dynamic_simulation_full_y/dsf_components.cpp       |  1 +
 .../dynamic_simulation_full_y/model_classes/hygov.cpp  |  2 +-
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index 615c91a..c612e69 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -931,13 +931,17 @@ void gridpack::dynamic_simulation_r::DSBranch::load(
   int idx;
   for (idx = 0; idx<p_elems; idx++) {
     bool xform = true;
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_X, &rvar, idx);
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
+    rvar = 0.0;
     ok = ok && data->getValue(BRANCH_SHIFT, &rvar, idx);
     rvar = -rvar*pi/180.0;
     p_phase_shift.push_back(rvar);
+    rvar = 0.0;
     ok = ok && data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar);
     if (rvar != 0.0) {
@@ -950,14 +954,19 @@ void gridpack::dynamic_simulation_r::DSBranch::load(
     p_branch_status.push_back(ivar);
     if (ivar == 1) p_active = true;
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index 1a285f5..c23d76e 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -1209,15 +1209,20 @@ void gridpack::kalman_filter::KalmanBranch::load(
   int idx;
   for (idx = 0; idx<p_elems; idx++) {
     bool xform = true;
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_X, &rvar, idx);
     p_reactance.push_back(rvar);
+    rvar = 0.0;
     xform = xform && data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
+    rvar = 0.0;
     ok = ok && data->getValue(BRANCH_SHIFT, &rvar, idx);
     rvar = -rvar*pi/180.0; 
     p_phase_shift.push_back(rvar);
+    rvar = 0.0;
     ok = ok && data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar); 
+    svar.clear();
     ok = ok && data->getValue(BRANCH_CKT, &svar, idx);
     p_tag.push_back(svar);
     if (rvar != 0.0) {
@@ -1230,14 +1235,19 @@ void gridpack::kalman_filter::KalmanBranch::load(
     p_branch_status.push_back(static_cast<bool>(ivar));
     if (ivar == 1) p_active = true;
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 3bfeab6..1e42c6c 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -507,14 +507,19 @@ void gridpack::ymatrix::YMBranch::load(
     if (!ok) lvar = false;
     p_switched.push_back(lvar);
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 8e6f959..3599a62 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3530,6 +3530,7 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     p_shunt.push_back(shunt);
 
     //renke add, get line relays associated with this branch object
+    sckt.clear();
     if (data->getValue(BRANCH_CKT, &sckt, idx)) {
       p_ckt.push_back(sckt);
       //printf("branch %d element, ckt %s \n", idx, sckt.c_str());
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 6c3c8b7..231981e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -54,7 +54,7 @@ void gridpack::dynamic_simulation::HygovModel::load(
     data, int idx)
 {
   if (!data->getValue(GOVERNOR_R, &R, idx)) R = 0.05;
-  if (!data->getValue(GOVERNOR_r, &r, idx)) R = 0.05; 
+  if (!data->getValue(GOVERNOR_r, &r, idx)) r = 0.05; 
   if (!data->getValue(GOVERNOR_TR, &TR, idx)) TR = 0.5;
   if (!data->getValue(GOVERNOR_TF, &TF, idx)) TF = 3.0; 
   if (!data->getValue(GOVERNOR_TG, &TG, idx)) TG = 10.0;
-- 
2.43.0


From 73b9d076617411a13bf0bccbe63799221bfb37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 054/115] fix: PSS/E export of a device without identifier does
 not repeat that of the device before

---
 src/export/data_blocks/export_gen23.hpp  | 1 +
 src/export/data_blocks/export_gen33.hpp  | 1 +
 src/export/data_blocks/export_gen34.hpp  | 1 +
 src/export/data_blocks/export_load33.hpp | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/export/data_blocks/export_gen23.hpp b/src/export/data_blocks/export_gen23.hpp
index 2d00d0f..476bf5f 100644
--- a/src/export/data_blocks/export_gen23.hpp
+++ b/src/export/data_blocks/export_gen23.hpp
@@ -80,6 +80,7 @@ class ExportGen23
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 5712801..f4f282b 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -80,6 +80,7 @@ class ExportGen33
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index 2218903..90bf082 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -80,6 +80,7 @@ class ExportGen34
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 03d15b4..1d90700 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -80,6 +80,7 @@ class ExportLoad33
             data->getValue(LOAD_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1";
             data->getValue(LOAD_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
-- 
2.43.0


From 2a6ff11df2c110586f6acc4efdcb831bb4841f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 055/115] fix: power flow state vector of a PV bus stays within
 its block, in the order in which it is taken back

---
 .../components/pf_matrix/pf_components.cpp    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 8503fb8..91f4582 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -190,8 +190,15 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // same unknowns, in the same order, as in setValues
+    values[0] = p_a;
+#ifdef LARGE_MATRIX
+    values[1] = p_v;
+#else
+    if (!p_isPV) {
+      values[1] = p_v;
+    }
+#endif
     return true;
   } else if (p_mode == RHS) {
     double rvals[2];
@@ -209,8 +216,15 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // same unknowns, in the same order, as in setValues
+    values[0] = p_a;
+#ifdef LARGE_MATRIX
+    values[1] = p_v;
+#else
+    if (!p_isPV) {
+      values[1] = p_v;
+    }
+#endif
     return true;
   }
   if (p_mode == RHS) {
-- 
2.43.0


From c06a3531788b0c4bfb0522ac40e99c43397471df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 056/115] fix: the status of removing solver options is checked

---
 src/math/petsc/petsc_configurable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/petsc/petsc_configurable.cpp b/src/math/petsc/petsc_configurable.cpp
index d9389df..1ef3435 100644
--- a/src/math/petsc/petsc_configurable.cpp
+++ b/src/math/petsc/petsc_configurable.cpp
@@ -201,7 +201,7 @@ PETScConfigurable::p_unprocessOptions(void)
         }
         ierr = PetscOptionsClearValue(
                                     NULL,
-                                    o->c_str());
+                                    o->c_str()); CHKERRXX(ierr);
       } catch (const PETSC_EXCEPTION_TYPE& e) {
         throw PETScException(ierr, e);
       }
-- 
2.43.0


From 7b3d4e87accd9e1b44b81bc1de27ed51eaab3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 057/115] fix: EXDC1 Jacobian has the derivatives of the
 lead-lag block with respect to Efd and the feedback state

---
 .../modules/dynamic_simulation_dae/model_classes/exdc1.cpp  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
index 817d571..152dea7 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
@@ -314,10 +314,12 @@ bool Exdc1Exc::setJacobian(gridpack::ComplexType **values)
       yLL = xLL + TC/TB*(Vref - Vmeas - Vf);
       dyLL_dxLL  = 1.0;
       dyLL_dVmeas = -TC/TB;
+      dyLL_dEfd   = -TC/TB*dVf_dEfd;
       dyLL_dxf    = -TC/TB*dVf_dxf;
     } else {
       values[Vmeas_idx][xLL_idx] = -1.0;
       values[xLL_idx][xLL_idx]  = -1.0;
+      values[Efd_idx][xLL_idx]   = -dVf_dEfd;
       values[xf_idx][xLL_idx]    = -dVf_dxf;
       yLL = xLL;
       dyLL_dxLL = 1.0;
@@ -360,15 +362,17 @@ bool Exdc1Exc::setJacobian(gridpack::ComplexType **values)
       values[Vmeas_idx][xLL_idx] = ((1 - TC/TB)*-1.0)/TB;
       values[xLL_idx][xLL_idx] = -1.0/TB - shift;
       values[Efd_idx][xLL_idx] = ((1 - TC/TB)*-KF/TF)/TB;
-      values[xf_idx][xLL_idx]  = (1 - TC/TB)/TB;
+      values[xf_idx][xLL_idx]  = ((1 - TC/TB)*-dVf_dxf)/TB;
 
       yLL = xLL + TC/TB*(Vref - Vmeas - Vf);
       dyLL_dxLL  = 1.0;
       dyLL_dVmeas = -TC/TB;
+      dyLL_dEfd   = -TC/TB*dVf_dEfd;
       dyLL_dxf    = -TC/TB*dVf_dxf;
     } else {
       values[Vmeas_idx][xLL_idx] = -1.0;
       values[xLL_idx][xLL_idx]  = -1.0;
+      values[Efd_idx][xLL_idx]   = -dVf_dEfd;
       values[xf_idx][xLL_idx]    = -dVf_dxf;
       yLL = xLL;
       dyLL_dxLL = 1.0;
-- 
2.43.0


From 3cd2ba2c23b18247d14c595bb564d0f736432638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 058/115] fix: ESST1A Jacobian has the derivatives of the
 lead-lag blocks with respect to Va

---
 .../dynamic_simulation_dae/model_classes/esst1a.cpp      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
index 2f47b65..1e7e71f 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
@@ -340,7 +340,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
   double dyLL2_dxLL2=0.0,dyLL2_dVa=0.0;
   double dyLL2_dxf=0.0;
   double dVf_dxf = 1.0;
-  double dVf_dEfd = Kf/Tf;
+  double dVf_dVa = Kf/Tf; // Efd = Va - Klr*(LadIfd - Ilr)
   double dyLL1_dxLL1=0.0,dyLL1_dVmeas=0.0;
   double dyLL1_dxLL2=0.0,dyLL1_dVa=0.0;
   double dyLL1_dxf=0.0, dyLL1_dEfd=0.0;
@@ -371,6 +371,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
       dyLL1_dxLL1  = 1.0;
       if(!Vi_at_min && !Vi_at_max) {
 	dyLL1_dVmeas = -Tc/Tb;
+	dyLL1_dVa    = -Tc/Tb*dVf_dVa;
 	dyLL1_dxf    = -Tc/Tb*dVf_dxf;
       }
     } else {
@@ -378,6 +379,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
 
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = -1.0;
+	values[Va_idx][xLL1_idx]    = -dVf_dVa;
 	values[xf_idx][xLL1_idx]    = -dVf_dxf;
       }
       yLL1 = xLL1;
@@ -442,6 +444,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
       values[xLL1_idx][xLL1_idx]  = -1.0/Tb - shift;
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = (1.0 - Tc/Tb)*-1.0/Tb;
+	values[Va_idx][xLL1_idx]    = (1.0 - Tc/Tb)*-dVf_dVa/Tb;
 	values[xf_idx][xLL1_idx]    = (1.0 - Tc/Tb)*-dVf_dxf/Tb;
       }
       yLL1 = xLL1 + Tc/Tb*Vi;
@@ -449,12 +452,14 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
 
       if(!Vi_at_min && !Vi_at_max) {
 	dyLL1_dVmeas = -Tc/Tb;
+	dyLL1_dVa    = -Tc/Tb*dVf_dVa;
 	dyLL1_dxf    = -Tc/Tb*dVf_dxf;
       }
     } else {
       values[xLL1_idx][xLL1_idx]  = -1.0;
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = -1.0;
+	values[Va_idx][xLL1_idx]    = -dVf_dVa;
 	values[xf_idx][xLL1_idx]    = -dVf_dxf;
       }
       yLL1 = xLL1;
@@ -465,7 +470,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
     if(iseq_diff[2]) {
       values[Vmeas_idx][xLL2_idx] =  (1.0 - Tc1/Tb1)*dyLL1_dVmeas/Tb1;
       values[xLL1_idx][xLL2_idx]  =  (1.0 - Tc1/Tb1)*dyLL1_dxLL1/Tb1;
-      values[xLL2_idx][xLL2_idx]  =  -1.0/Tb1 + (1 - Tc1/Tb1)*dyLL1_dxLL1/Tb1 - shift;
+      values[xLL2_idx][xLL2_idx]  =  -1.0/Tb1 + (1 - Tc1/Tb1)*dyLL1_dxLL2/Tb1 - shift;
       values[Va_idx][xLL2_idx]    =  (1.0 - Tc1/Tb1)*dyLL1_dVa/Tb1;
       values[xf_idx][xLL2_idx]    =  (1.0 - Tc1/Tb1)*dyLL1_dxf/Tb1;
 
-- 
2.43.0


From e67e441f289c084050f5f8122451410fe7b5fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 059/115] fix: GENSAL Jacobian has the derivative of the
 saturation

---
 .../modules/dynamic_simulation_dae/model_classes/gensal.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
index 62dc87a..b8c79a5 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
@@ -509,7 +509,9 @@ bool GensalGen::setJacobian(gridpack::ComplexType **values)
     double const2 =  (Xdp - Xdpp)/((Xdp - Xl)*(Xdp - Xl));
     double dLadIfd_ddelta =  (Xd - Xdp)*(dId_ddelta + const2*(-(Xdp - Xl)*dId_ddelta));
     double dLadIfd_ddw    =  (Xd - Xdp)*(dId_ddw + const2*(-(Xdp - Xl)*dId_ddw));
-    double dLadIfd_dEqp   = 1.0 + (Xd - Xdp)*(dId_dEqp + const2*(1.0 - (Xdp - Xl)*dId_dEqp)); // No saturation considered yet
+    double dSat_dEqp = 0.0;
+    if(Eqp >= sat_A) dSat_dEqp = sat_B*(Eqp - sat_A)*(Eqp + sat_A)/(Eqp*Eqp);
+    double dLadIfd_dEqp   = 1.0 + Sat(Eqp) + Eqp*dSat_dEqp + (Xd - Xdp)*(dId_dEqp + const2*(1.0 - (Xdp - Xl)*dId_dEqp));
     double dLadIfd_dPsidp =  (Xd - Xdp)*(dId_dPsidp + const2*(-1.0 -(Xdp - Xl)*dId_dPsidp));
     double dLadIfd_dPsiqpp=  (Xd - Xdp)*(dId_dPsiqpp + const2*(-(Xdp - Xl)*dId_dPsiqpp));
     
-- 
2.43.0


From 912ee4d92fc4a1aecba6ae43c77e743ff8d9d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 060/115] fix: classical generator Jacobian has the current
 derivatives during faults

---
 .../model_classes/classical_gen_model.cpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
index f66bf7c..7b83ab3 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
@@ -197,6 +197,10 @@ bool ClassicalGen::setJacobian(gridpack::ComplexType **values)
     values[delta_idx][delta_idx] = 1.0;
     values[dw_idx][dw_idx] = 1.0;
 
+    // dG_dX
+    values[delta_idx][IGQ_idx] = p_Ep*sin(p_delta)/p_Xdp;
+    values[delta_idx][IGD_idx] = p_Ep*cos(p_delta)/p_Xdp;
+
     // dG_dV
     values[VD_idx][IGQ_idx] +=  1/p_Xdp;
     values[VQ_idx][IGD_idx] += -1/p_Xdp;
-- 
2.43.0


From c2b455354a7218422995ec9c02a7db81e83d9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 061/115] fix: state estimation Jacobian of branch flows does
 not contain the bus shunts

---
 .../components/se_matrix/se_components.cpp            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 4780567..0bc4c8c 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1795,9 +1795,6 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
 
     v1 = bus1->getVoltage();
     v2 = bus2->getVoltage();
-    double gs1, bs1, gs2, bs2;
-    bus1->getShuntGsBs(&gs1,&bs1);
-    bus2->getShuntGsBs(&gs2,&bs2);
     theta = bus1->getPhase() - bus2->getPhase();  
     //    int ref = getRef(this);
 
@@ -1833,14 +1830,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus1->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVI
               jm = bus1->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
@@ -2053,14 +2050,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus2->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVJ
               jm = bus2->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
-- 
2.43.0


From 40a2785651ba5f1f90479f825a0cca28c0097aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 062/115] fix: state estimation Jacobian of branch currents is
 the derivative of the estimated current

---
 .../components/se_matrix/se_components.cpp    | 61 +++++++------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 0bc4c8c..7bfb492 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1926,7 +1926,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
             }
           } 
         }
-      } else if (type == "IIJ") {  // Need more work to support transformer 
+      } else if (type == "IIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == ckt && p_active) {
@@ -1943,63 +1943,44 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               shifter=0.0;
               t=1.0;
             }
-            double Iij = sqrt((gij*gij+bij*bij) *(v1*v1+v2*v2-2*v1*v2*cos(theta))); 
+            // Current is apparent power divided by voltage magnitude
+            double wp = (gij*cos(theta+shifter)+bij*sin(theta+shifter))/t;
+            double wq = (gij*sin(theta+shifter)-bij*cos(theta+shifter))/t;
+            double pij = v1*v1*gij/(t*t)-v1*v2*wp;
+            double qij = -v1*v1*(bij+B)/(t*t)-v1*v2*wq;
+            double sij = sqrt(pij*pij+qij*qij);
+            double dv1 = (pij*(2.0*v1*gij/(t*t)-v2*wp)
+                -qij*(2.0*v1*(bij+B)/(t*t)+v2*wq))/(sij*v1)-sij/(v1*v1);
+            double dv2 = -(pij*wp+qij*wq)/sij;
+            double da = v2*(pij*wq-qij*wp)/sij;
             if (!bus1->getReferenceBus()) {
               jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
+              values[ncnt] = gridpack::ComplexType(da,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
               jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             } else {  // reference bus, only for dIIJ/DVI
               jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             }
+            values[ncnt] = gridpack::ComplexType(dv1,0.0);
+            rows[ncnt] = im;
+            cols[ncnt] = jm;
+            ncnt++;
             if (!bus2->getReferenceBus()) {
               jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType(-(gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
+              values[ncnt] = gridpack::ComplexType(-da,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
               jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             } else {  // reference bus, only for dIIJ/DVJ
               jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
             }
+            values[ncnt] = gridpack::ComplexType(dv2,0.0);
+            rows[ncnt] = im;
+            cols[ncnt] = jm;
+            ncnt++;
           } 
         }
       } else if (type == "PJI") {
-- 
2.43.0


From 3c0b54244642c79f6db84683847264d716aaa002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 063/115] fix: state estimation injections do not contain
 branches to isolated buses

---
 src/applications/components/se_matrix/se_components.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 7bfb492..b722c4c 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1065,6 +1065,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
@@ -1092,6 +1094,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
-- 
2.43.0


From 7243e9fd6a6839f71f9b6b3e24ae8ee75f175f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 064/115] fix: state estimation announces the matrix values it
 supplies for isolated buses and lines out of service

---
 .../components/se_matrix/se_components.cpp      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index b722c4c..16ff468 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -572,7 +572,7 @@ void gridpack::state_estimation::SEBus::configureSE(void)
   int i, j, nsize;
   int busid = getOriginalIndex();
   for (i=0; i<nmeas; i++) {
-//   if (!isIsolated()) {
+   if (!isIsolated()) {
     std::string type = p_meas[i].p_type;
     if (type == "VM" || type == "VA") {
       if (!getReferenceBus()) { 
@@ -588,6 +588,8 @@ void gridpack::state_estimation::SEBus::configureSE(void)
         SEBranch *branch
           = dynamic_cast<SEBranch*>(branch_nghbrs[j].get());
         SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+        SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+        if (bus->isIsolated() || bus2->isIsolated()) continue;
         if (bus == this) bus = dynamic_cast<SEBus*>(branch->getBus2().get());
         if (!bus->getReferenceBus()) {
           ncnt += 2;
@@ -601,7 +603,7 @@ void gridpack::state_estimation::SEBus::configureSE(void)
         ncnt++;
       }
     }
-   //}
+   }
   } 
   p_numElements = ncnt;
 }
@@ -797,7 +799,8 @@ int gridpack::state_estimation::SEBus::matrixNumValues() const
   if (p_mode == Jacobian_H) {
     return p_numElements;
   } else if (p_mode == R_inv) {
-    return p_meas.size();
+    // No values are supplied for an isolated bus
+    return isIsolated() ? 0 : p_meas.size();
   }
   return 0;
 }
@@ -1635,10 +1638,10 @@ void gridpack::state_estimation::SEBranch::configureSE(void)
    for (i=0; i<nmeas; i++) {
     std::string type = p_meas[i].p_type;
     std::string ckt = p_meas[i].p_ckt;
-    if (type == "PIJ" || type == "QIJ" || type == "IIJ" || type == "PJI" || type == "QJI" || type == "IJI") {
+    if (type == "PIJ" || type == "QIJ" || type == "IIJ" || type == "PJI" || type == "QJI") {
       int nsize = p_tag.size();
       for (j=0; j<nsize; j++) {
-        if (p_tag[j] == ckt) {
+        if (p_tag[j] == ckt && p_active) {
           if (!bus1->getReferenceBus()) {
             ncnt += 2;
           } else {  // reference bus, only for dPIJ/DVI
@@ -1771,6 +1774,10 @@ int gridpack::state_estimation::SEBranch::matrixNumValues() const
   if (p_mode == Jacobian_H) {
     return p_numElements;
   } else if (p_mode == R_inv) {
+    // No values are supplied if one of the buses is isolated
+    SEBus *bus1 = dynamic_cast<SEBus*>(getBus1().get());
+    SEBus *bus2 = dynamic_cast<SEBus*>(getBus2().get());
+    if (bus1->isIsolated() || bus2->isIsolated()) return 0;
     return p_meas.size();
   }
   return 0;
-- 
2.43.0


From 90dc2335e1a66453f9317736a72199f07cb07eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 065/115] fix: state estimation supplies every element of the
 residual vector

---
 .../components/se_matrix/se_components.cpp    | 43 ++++++++-----------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 16ff468..c08665b 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1046,19 +1046,19 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
   p_a = *p_vAng_ptr;
   p_v = *p_vMag_ptr;
   if (p_mode == Jacobian_H) {
+   int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this bus
+   // Measurements that are not evaluated do not contribute
+   vectorGetElementIndices(idx);
+   for (int k=0; k<nmeas; k++) values[k] = gridpack::ComplexType(0.0,0.0);
    if (!isIsolated()) {
-    int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this bus
-    int ncnt = 0;
     int i, j, im, jm, nsize;
     double v, theta,yfbusr,yfbusi;
 
-    vectorGetElementIndices(idx);
     for (i=0; i<nmeas; i++) {
        std::string type = p_meas[i].p_type;
        if (type == "VM") {
          int index = getGlobalIndex();
-         values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-p_v),0.0);
-         ncnt++;
+         values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-p_v),0.0);
        } else if (type == "PI") {
          std::vector<boost::shared_ptr<BaseComponent> > branch_nghbrs;
          getNeighborBranches(branch_nghbrs);
@@ -1086,8 +1086,7 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
          ret += p_v * p_ybusr;
          ret *= p_v; 
          int index = getGlobalIndex();
-         values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret),0.0);
-         ncnt++;
+         values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret),0.0);
        } else if (type == "QI") {
          std::vector<boost::shared_ptr<BaseComponent> > branch_nghbrs;
          getNeighborBranches(branch_nghbrs);
@@ -1115,12 +1114,10 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
          ret -= p_v * p_ybusi;
          ret *= p_v; 
          int index = getGlobalIndex();
-         values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret),0.0);
-         ncnt++;
+         values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret),0.0);
       } else if (type == "VA") {
          int index = getGlobalIndex();
-         values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-p_a),0.0);
-         ncnt++;
+         values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-p_a),0.0);
       }
     } 
    }
@@ -2212,9 +2209,11 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
       dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
     bool ok = !bus1->isIsolated();
     ok = ok && !bus2->isIsolated();
-    if (ok) {
     int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
-    int ncnt = 0;
+    // Measurements that are not evaluated do not contribute
+    vectorGetElementIndices(idx);
+    for (int k=0; k<nmeas; k++) values[k] = gridpack::ComplexType(0.0,0.0);
+    if (ok) {
     int i, j, im, jm, nsize;
     double ret1=0.0;
     double ret2=0.0;
@@ -2222,7 +2221,6 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
     double v1=0.0;
     double v2=0.0;
     double theta=0.0;
-    vectorGetElementIndices(idx);
     v1 = bus1->getVoltage();
     v2 = bus2->getVoltage();
     theta = bus1->getPhase() - bus2->getPhase();  
@@ -2252,8 +2250,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
             ret1 =  v1*v1*gij/(t*t) - 1.0/t*v1*v2*(gij*cos(theta+shifter) + bij*sin(theta+shifter));
           }
         }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
+        values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
       } else if (type == "QIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
@@ -2273,8 +2270,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
             ret2 = - v1*v1* (bij+B)/(t*t) - 1.0/t*v1*v2*(gij*sin(theta+shifter) - bij*cos(theta+shifter));
           }
         }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
+        values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
       } else if (type == "IIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
@@ -2296,9 +2292,8 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
           }
         }
         ret3 = sqrt(ret1*ret1+ret2*ret2)/v1;
-        //         values[ncnt] = p_meas[i].p_value-ret;
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret3),0.0);
-        ncnt++;
+        //         values[i] = p_meas[i].p_value-ret;
+        values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret3),0.0);
       } else if (type == "PJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
@@ -2317,8 +2312,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
             ret1 =  v2*v2*gij - 1.0/t*v1*v2*(gij*cos(-theta-shifter) + bij*sin(-theta-shifter));
           }
         }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
+        values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
       } else if (type == "QJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
@@ -2338,8 +2332,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
             ret2 = - v2*v2* (bij+B) - 1.0/t*v1*v2*(gij*sin(-theta-shifter) - bij*cos(-theta-shifter));
           }
         }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
+        values[i] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
       } else if (type == "IJI") { //to do
       }
     } 
-- 
2.43.0


From c6baee28cd19e615037c31499accb2f91d279d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 066/115] fix: Kalman filter reads the one voltage row of a bus
 for all its generators

---
 src/applications/components/kds_matrix/kds_components.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index c23d76e..6e4e40d 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -484,7 +484,7 @@ void gridpack::kalman_filter::KalmanBus::slabSetValues(ComplexType **values)
     if (p_ngen > 0) {
       for (i=0; i<p_ngen; i++) {
         for (k=0; k<p_nEnsemble; k++) {
-          (p_V1[i])[k] = (values[i])[k];
+          (p_V1[i])[k] = (values[0])[k];
         }
       }
     } 
@@ -493,7 +493,7 @@ void gridpack::kalman_filter::KalmanBus::slabSetValues(ComplexType **values)
     if (p_ngen > 0) {
       for (i=0; i<p_ngen; i++) {
         for (k=0; k<p_nEnsemble; k++) {
-          (p_V2[i])[k] = (values[i])[k];
+          (p_V2[i])[k] = (values[0])[k];
         }
       }
     }
-- 
2.43.0


From 6b07b66d4104cb0e977f7e186d26da8ff59d6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 067/115] fix: power flow and dynamic buses empty all their
 lists when they are loaded again

---
 .../components/pf_matrix/pf_components.cpp             |  3 +++
 .../dynamic_simulation_full_y/dsf_components.cpp       | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 91f4582..5678576 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -444,6 +444,7 @@ void gridpack::powerflow::PFBus::load(
 
   // This routine may be called more than once, so clear all vectors
   p_pg.clear();
+  p_savePg.clear();
   p_qg.clear();
   p_pFac.clear();
   p_pFac_orig.clear();
@@ -457,7 +458,9 @@ void gridpack::powerflow::PFBus::load(
   p_pt.clear();
   p_pb.clear();
   p_pl.clear();
+  p_savePl.clear();
   p_ql.clear();
+  p_saveQl.clear();
   p_lstatus.clear();
   p_lid.clear();
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 3599a62..1a12616 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -854,7 +854,17 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   p_genpg_nodynmodel.clear();
   p_genqg_nodynmodel.clear();
   p_genid.clear();
+  p_gstatus.clear();
+  p_savePg.clear();
+  p_gpmin.clear();
+  p_gpmax.clear();
+  p_previousFrequency.clear();
+  p_upIntervalStart.clear();
+  p_upStartedMonitoring.clear();
+  p_downIntervalStart.clear();
+  p_downStartedMonitoring.clear();
   p_loadid.clear();
+  p_dynamic_loadid.clear();
   p_generators.clear();
   p_loadrelays.clear();
   p_loadmodels.clear();
-- 
2.43.0


From 873bba1950372b494fe61ee3cb0472680bf32a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 068/115] fix: estimation, Kalman and DAE components empty
 their lists when they are loaded again

---
 .../components/ds_matrix/ds_components.cpp    | 26 +++++++++++++++
 .../components/kds_matrix/kds_components.cpp  | 33 +++++++++++++++++++
 .../components/se_matrix/se_components.cpp    | 23 +++++++++++++
 .../dynamic_simulation_dae/dsimnetwork.cpp    | 13 ++++++++
 4 files changed, 95 insertions(+)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index c612e69..6c0a116 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -369,6 +369,18 @@ void gridpack::dynamic_simulation_r::DSBus::load(
   int i, gstatus;
   double pg, qg, mva, r, dtr;
   double h, d0;
+  // This routine may be called more than once, so clear all vectors
+  p_pg.clear();
+  p_qg.clear();
+  p_gstatus.clear();
+  p_mva.clear();
+  p_r.clear();
+  p_dtr.clear();
+  p_h.clear();
+  p_d0.clear();
+  p_genid.clear();
+  p_watch.clear();
+
   p_ngen = 0;
   if (data->getValue(GENERATOR_NUMBER, &p_ngen)) {
     for (i=0; i<p_ngen; i++) {
@@ -921,6 +933,20 @@ void gridpack::dynamic_simulation_r::DSBranch::load(
 {
   YMBranch::load(data);
 
+  // This routine may be called more than once, so clear all vectors
+  p_reactance.clear();
+  p_resistance.clear();
+  p_phase_shift.clear();
+  p_tap_ratio.clear();
+  p_xform.clear();
+  p_branch_status.clear();
+  p_charging.clear();
+  p_shunt_admt_g1.clear();
+  p_shunt_admt_b1.clear();
+  p_shunt_admt_g2.clear();
+  p_shunt_admt_b2.clear();
+  p_shunt.clear();
+
   bool ok = true;
   data->getValue(BRANCH_NUM_ELEMENTS, &p_elems);
   double rvar;
diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index 6e4e40d..7f776a5 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -541,6 +541,24 @@ void gridpack::kalman_filter::KalmanBus::load(
 {
   YMBus::load(data);
 
+  // This routine may be called more than once, so clear all vectors
+  p_omega_0.clear();
+  p_omega_n.clear();
+  p_delta_0.clear();
+  p_delta_n.clear();
+  p_Dm.clear();
+  p_Pm.clear();
+  p_pg.clear();
+  p_qg.clear();
+  p_hmach.clear();
+  p_gstatus.clear();
+  p_mva.clear();
+  p_r.clear();
+  p_dstr.clear();
+  p_dtr.clear();
+  p_Ebase.clear();
+  p_genID.clear();
+
   p_sbase = 100.0;
   bool ok = data->getValue(CASE_SBASE, &p_sbase);
   if (!data->getValue("BUS_PF_VANG", &p_angle))
@@ -1198,6 +1216,21 @@ void gridpack::kalman_filter::KalmanBranch::load(
 {
   YMBranch::load(data);
 
+  // This routine may be called more than once, so clear all vectors
+  p_reactance.clear();
+  p_resistance.clear();
+  p_phase_shift.clear();
+  p_tap_ratio.clear();
+  p_xform.clear();
+  p_branch_status.clear();
+  p_charging.clear();
+  p_shunt_admt_g1.clear();
+  p_shunt_admt_b1.clear();
+  p_shunt_admt_g2.clear();
+  p_shunt_admt_b2.clear();
+  p_shunt.clear();
+  p_tag.clear();
+
   bool ok = true;
   data->getValue(BRANCH_NUM_ELEMENTS, &p_elems);
   double rvar;
diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index c08665b..d10027a 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -270,6 +270,13 @@ void gridpack::state_estimation::SEBus::load(
 {
   YMBus::load(data);
 
+  // This routine may be called more than once, so clear all vectors
+  p_pg.clear();
+  p_qg.clear();
+  p_gstatus.clear();
+  p_qmin.clear();
+  p_qmax.clear();
+
   p_sbase = 100.0;
   data->getValue(CASE_SBASE, &p_sbase);
   data->getValue(BUS_VOLTAGE_ANG, &p_angle);
@@ -1261,6 +1268,22 @@ void gridpack::state_estimation::SEBranch::load(
     const boost::shared_ptr<gridpack::component::DataCollection> &data)
 {
   YMBranch::load(data);
+
+  // This routine may be called more than once, so clear all vectors
+  p_reactance.clear();
+  p_resistance.clear();
+  p_phase_shift.clear();
+  p_tap_ratio.clear();
+  p_xform.clear();
+  p_branch_status.clear();
+  p_charging.clear();
+  p_shunt_admt_g1.clear();
+  p_shunt_admt_b1.clear();
+  p_shunt_admt_g2.clear();
+  p_shunt_admt_b2.clear();
+  p_shunt.clear();
+  p_tag.clear();
+
   gridpack::state_estimation::SEBus *bus1 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
   gridpack::state_estimation::SEBus *bus2 =
diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index 6f5c812..e644252 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -242,6 +242,7 @@ void DSimBus::load(const
   // Read Generators 
   // Get number of generators incident on this bus
   data->getValue(GENERATOR_NUMBER, &p_ngen);
+  p_nvar = 2; // bus voltage, the models' variables are added below
   if(p_ngen) {
     p_gen = (BaseGenModel**)malloc(p_ngen*sizeof(BaseGenModel*));
     p_neqsgen = (int*)malloc(p_ngen*sizeof(int));
@@ -772,6 +773,18 @@ void DSimBranch::load(
   // Get the number of parallel lines
   data->getValue(BRANCH_NUM_ELEMENTS,&p_nparlines);
 
+  // This routine may be called more than once, so clear all vectors
+  p_cktid.clear();
+  p_status.clear();
+  p_Gff.clear();
+  p_Bff.clear();
+  p_Gft.clear();
+  p_Bft.clear();
+  p_Gtf.clear();
+  p_Btf.clear();
+  p_Gtt.clear();
+  p_Btt.clear();
+
   p_cktid.reserve(p_nparlines);
   p_Gff.reserve(p_nparlines);
   p_Bff.reserve(p_nparlines);
-- 
2.43.0


From 9a440be35df0a8276baae12d3c1c018765e1f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 069/115] fix: SEBus keeps the lower reactive limits apart from
 the upper ones

---
 src/applications/components/se_matrix/se_components.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index d10027a..40e2c0a 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -322,7 +322,7 @@ void gridpack::state_estimation::SEBus::load(
         p_pg.push_back(pg);
         p_qg.push_back(qg);
         p_gstatus.push_back(gstatus);
-        p_qmax.push_back(qmin);
+        p_qmin.push_back(qmin);
         p_qmax.push_back(qmax);
         if (gstatus == 1) {
           p_v = vs; //reset initial PV voltage to set voltage
-- 
2.43.0


From 3f92e44f736b93e357655dcc281a34e2e78fd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 070/115] fix: DSBus without a load starts from zero load

---
 src/applications/components/ds_matrix/ds_components.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index 6c0a116..ab3f042 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -359,6 +359,8 @@ void gridpack::dynamic_simulation_r::DSBus::load(
   }
  
   p_load = true;
+  p_pl = 0.0;
+  p_ql = 0.0;
   p_load = p_load && data->getValue(LOAD_PL, &p_pl);
   p_load = p_load && data->getValue(LOAD_QL, &p_ql);
 
-- 
2.43.0


From c547f2934e7380aeffcdbdce4447bde558b0d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 071/115] fix: line-end shunts of a reversed parallel element
 belong to the other bus

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 1e42c6c..3fdf5fe 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -611,10 +611,12 @@ gridpack::ymatrix::YMBranch::getShunt(gridpack::ymatrix::YMBus *bus)
         tmpr = 0.0;
       }
       // HACK: pointer comparison, maybe could handle this better
-      if (bus == getBus1().get()) {
+      // the "from" end of a switched element is at bus 2
+      if ((!p_switched[i] && bus == getBus1().get()) ||
+          (p_switched[i] && bus == getBus2().get())) {
         tmpr += p_shunt_admt_g1[i];
         tmpi += p_shunt_admt_b1[i];
-      } else if (bus == getBus2().get()) {
+      } else if (bus == getBus1().get() || bus == getBus2().get()) {
         tmpr += p_shunt_admt_g2[i];
         tmpi += p_shunt_admt_b2[i];
       } else {
-- 
2.43.0


From ceb3a583184e639a3da2de96fb678110c03f8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 072/115] fix: no power flows through an element that is out of
 service

---
 src/applications/components/pf_matrix/pf_components.cpp | 2 ++
 src/applications/components/se_matrix/se_components.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 5678576..2c78c65 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2269,6 +2269,8 @@ gridpack::ComplexType gridpack::powerflow::PFBranch::getComplexPower(
 {
   gridpack::ComplexType vi, vj, Yii, Yij, s;
   s = ComplexType(0.0,0.0);
+  // no power flows through an element that is out of service
+  if (!getLineStatus(tag)) return s;
   gridpack::powerflow::PFBus *bus1 = 
     dynamic_cast<gridpack::powerflow::PFBus*>(getBus1().get());
   vi = bus1->getComplexVoltage();
diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 40e2c0a..034f58c 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -2408,6 +2408,8 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getRvrsComplexPower(
 {
   gridpack::ComplexType vi, vj, Yii, Yij, s;
   s = ComplexType(0.0,0.0);
+  // no power flows through an element that is out of service
+  if (!getLineStatus(tag)) return s;
   gridpack::state_estimation::SEBus *bus1 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
   vj = bus1->getComplexVoltage();
@@ -2430,6 +2432,8 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getComplexPower(
 {
   gridpack::ComplexType vi, vj, Yii, Yij, s;
   s = ComplexType(0.0,0.0);
+  // no power flows through an element that is out of service
+  if (!getLineStatus(tag)) return s;
   gridpack::state_estimation::SEBus *bus1 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
   vi = bus1->getComplexVoltage();
-- 
2.43.0


From 88746138439f4cea4808d0739b0f8fe4a0334623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 073/115] fix: taking a line out of service removes its
 line-end shunts from the network matrix

---
 .../dsf_components.cpp                        | 26 +++++++++++++++++++
 .../dsf_components.hpp                        |  8 ++++++
 2 files changed, 34 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 1a12616..4c3cf73 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3881,6 +3881,7 @@ gridpack::dynamic_simulation::DSFullBranch::getBranchTripActionUpdateFactorForBu
 					}
 	
 				}
+				tmp -= getLineEndShunt(idx, busNo == getBus1OriginalIndex());
 
 				ret += tmp; 
 			}
@@ -3891,6 +3892,24 @@ gridpack::dynamic_simulation::DSFullBranch::getBranchTripActionUpdateFactorForBu
 	return ret;
 }
 
+/**
+ * Return the shunt admittance of a transmission element at one of its ends
+ * @param idx index of transmission element
+ * @param bus1 true for the shunt at bus 1, false for the shunt at bus 2
+ * @return shunt admittance
+ */
+gridpack::ComplexType
+gridpack::dynamic_simulation::DSFullBranch::getLineEndShunt(int idx, bool bus1)
+{
+  if (!p_shunt[idx]) return gridpack::ComplexType(0.0,0.0);
+  // the "from" end of a switched element is at bus 2
+  if (bus1 != p_switched[idx]) {
+    return gridpack::ComplexType(p_shunt_admt_g1[idx],p_shunt_admt_b1[idx]);
+  } else {
+    return gridpack::ComplexType(p_shunt_admt_g2[idx],p_shunt_admt_b2[idx]);
+  }
+}
+
 gridpack::ComplexType 
 gridpack::dynamic_simulation::DSFullBranch::getBranchTripActionUpdateFactorForward()
 { 
@@ -4200,6 +4219,13 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
     gridpack::ComplexType yii,yij,yji,yjj;
     getLineElements(ckt_id,&yii,&yij);
     getRvrsLineElements(ckt_id,&yjj,&yji);
+    for (int i=0; i<p_elems; i++) {
+      if (p_ckt[i] == ckt_id) {
+        yii += getLineEndShunt(i,true);
+        yjj += getLineEndShunt(i,false);
+        break;
+      }
+    }
     gridpack::dynamic_simulation::DSFullBus *bus1
       = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus1().get());
     gridpack::dynamic_simulation::DSFullBus *bus2
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
index 9cd3ecc..f834996 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
@@ -988,6 +988,14 @@ class DSFullBranch
 	gridpack::ComplexType getBranchTripActionUpdateFactorForward(); //renke add
 	
 	gridpack::ComplexType getBranchTripActionUpdateFactorReverse(); //renke add
+
+    /**
+     * Return the shunt admittance of a transmission element at one of its ends
+     * @param idx index of transmission element
+     * @param bus1 true for the shunt at bus 1, false for the shunt at bus 2
+     * @return shunt admittance
+     */
+    gridpack::ComplexType getLineEndShunt(int idx, bool bus1);
 	
 	/**
 	 * Clear fault event from branch
-- 
2.43.0


From db94b9a75e7449f3457738e758fa2992b6631e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 074/115] fix: tripping a phase shifter removes the admittances
 that the network matrix has for it

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 4c3cf73..9087fc9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3504,7 +3504,7 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     p_resistance.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_SHIFT, &rvar, idx);
-    rvar = -rvar*pi/180.0;
+    rvar = rvar*pi/180.0;
     p_phase_shift.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_TAP, &rvar, idx);
-- 
2.43.0


From adefe81cf5386513b0d780b7fc51dc220eff1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 075/115] fix: tripping two elements of a branch at once
 changes the diagonal of the network matrix once for each

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 9087fc9..55e703a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2130,6 +2130,10 @@ void gridpack::dynamic_simulation::DSFullBus::setBranchTripAction(int from_idx,
   }
   
   if (p_branchtripaction_to_flag || p_branchtripaction_from_flag) {
+    // a branch adds up all its tripped elements, so it is listed once
+    for (size_t i=0; i<p_vec_tripactionbranch.size(); i++) {
+      if (p_vec_tripactionbranch[i] == branch_ptr) return;
+    }
     p_vec_tripactionbranch.push_back(branch_ptr);
   } 
 }
-- 
2.43.0


From 4be0ebd111c9574a374326a63378a1ccce024af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 076/115] fix: switching or tripping an element updates its
 status wherever it is kept

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 55e703a..e73b67f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -4098,6 +4098,7 @@ void gridpack::dynamic_simulation::DSFullBranch::clearBranchTripAction()
 	for (ibr=0 ; ibr<nbr ; ibr++){
 		idx = p_vec_tripaction_branchcktidx[ibr];
 		p_branch_status[idx] = 0;
+		YMBranch::setLineStatus(p_ckt[idx],false);
 	}
 	
 	p_vec_tripaction_branchcktidx.clear();
@@ -4227,6 +4228,7 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
       if (p_ckt[i] == ckt_id) {
         yii += getLineEndShunt(i,true);
         yjj += getLineEndShunt(i,false);
+        p_branch_status[i] = (status ? 1 : 0);
         break;
       }
     }
-- 
2.43.0


From 64afbaef40b87ce87cf6a3ae7d618318a37084cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 077/115] fix: a branch becomes active when one of its elements
 is switched on

---
 src/applications/components/pf_matrix/pf_components.cpp     | 1 +
 src/applications/components/y_matrix/ymatrix_components.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 2c78c65..148be5d 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2448,6 +2448,7 @@ void gridpack::powerflow::PFBranch::setBranchStatus(std::string tag, bool status
   for (i=0; i<bsize; i++) {
     if (tag == p_ckt[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       YMBranch::setLineStatus(tag,status);
       return;
     }
diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 3fdf5fe..5a2eea2 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -782,6 +782,7 @@ bool gridpack::ymatrix::YMBranch::setLineStatus(std::string tag,
   for (i=0; i<p_elems; i++) {
     if (tag == p_tag[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       found = true;
       break;
     }
-- 
2.43.0


From 7ca967da89dcb6772ef58832ee07c8730c17a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 078/115] fix: the dynamic simulation of the DAE module sees
 reversed elements and line-end shunts

---
 .../dynamic_simulation_dae/dsimnetwork.cpp    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index e644252..6e0e731 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -19,6 +19,7 @@
 
 #include <vector>
 #include <iostream>
+#include <algorithm>
 #include <dsimnetwork.hpp>
 #include <gridpack/include/gridpack.hpp>
 #include <gridpack/utilities/complex.hpp>
@@ -808,6 +809,14 @@ void DSimBranch::load(
     data->getValue(BRANCH_TAP,&tap,i);
     data->getValue(BRANCH_SHIFT,&shift,i);
     data->getValue(BRANCH_CKT,&cktid,i);
+    bool switched = false;
+    data->getValue(BRANCH_SWITCHED,&switched,i);
+    double G1,B1,G2,B2;
+    G1 = B1 = G2 = B2 = 0.0;
+    data->getValue(BRANCH_SHUNT_ADMTTNC_G1,&G1,i);
+    data->getValue(BRANCH_SHUNT_ADMTTNC_B1,&B1,i);
+    data->getValue(BRANCH_SHUNT_ADMTTNC_G2,&G2,i);
+    data->getValue(BRANCH_SHUNT_ADMTTNC_B2,&B2,i);
     
     p_cktid.push_back(cktid);
     p_status.push_back(status);
@@ -837,6 +846,20 @@ void DSimBranch::load(
     Gtt = G;
     Btt = B+Bc/2.0;
 
+    // Shunts at the two ends of the line
+    Gff += G1;
+    Bff += B1;
+    Gtt += G2;
+    Btt += B2;
+
+    // The "from" end of a switched element is at bus 2 of the branch
+    if(switched) {
+      std::swap(Gff,Gtt);
+      std::swap(Bff,Btt);
+      std::swap(Gft,Gtf);
+      std::swap(Bft,Btf);
+    }
+
     p_Gff.push_back(Gff);
     p_Bff.push_back(Bff);
     p_Gft.push_back(Gft);
-- 
2.43.0


From 582f51effd5a34fbc6d499359090eb77f5472ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 079/115] fix: switched shunts are added to the fixed shunt of
 a bus, in every application

---
 src/applications/components/y_matrix/ymatrix_components.cpp  | 4 +++-
 .../modules/dynamic_simulation_dae/dsimnetwork.cpp           | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 5a2eea2..64d271f 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -147,6 +147,8 @@ void gridpack::ymatrix::YMBus::load(
   data->getValue(CASE_SBASE, &sbase);
   p_shunt = true;
   double shunt_binit;
+  p_shunt_gs = 0.0;
+  p_shunt_bs = 0.0;
   p_shunt = p_shunt && data->getValue(BUS_SHUNT_GL, &p_shunt_gs,0);
   p_shunt = p_shunt && data->getValue(BUS_SHUNT_BL, &p_shunt_bs,0);
   bool binit = data->getValue(SHUNT_BINIT, &shunt_binit);
@@ -157,7 +159,7 @@ void gridpack::ymatrix::YMBus::load(
   // update shunt based on shunt table 
   if (binit) {
     shunt_binit /= sbase; 
-    p_shunt_bs = shunt_binit;
+    p_shunt_bs += shunt_binit;
   }
   // Check to see if bus is reference bus
   int itype = 1;
diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index 6e0e731..7f1251d 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -231,8 +231,13 @@ void DSimBus::load(const
   if(p_isolated) return;
   
   // Read shunts
+  double binit = 0.0;
+  p_gl = p_bl = 0.0;
   data->getValue(BUS_SHUNT_GL,&p_gl);
   data->getValue(BUS_SHUNT_BL,&p_bl);
+  // switched shunts
+  data->getValue(SHUNT_BINIT,&binit);
+  p_bl += binit;
   p_gl /= p_sbase;
   p_bl /= p_sbase;
   
-- 
2.43.0


From f8b53bafea23ff8a050045ecddd92bfb1c1e6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 080/115] fix: a power flow bus publishes its status and
 voltage whenever they change

---
 src/applications/components/pf_matrix/pf_components.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 148be5d..5aa8a64 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -597,6 +597,7 @@ void gridpack::powerflow::PFBus::load(
     }
   }
   // If this is being called a second time, then update pointers
+  if (p_PV_ptr) *p_PV_ptr = p_isPV;
   if (p_vMag_ptr) *p_vMag_ptr = p_v;
   if (p_vAng_ptr) {
     double pi = 4.0*atan(1.0);
@@ -782,6 +783,7 @@ void gridpack::powerflow::PFBus::setIsPV(int status)
   p_isPV = status;
   if (p_PV_ptr) *p_PV_ptr = status;
   p_v = p_voltage;
+  if (p_vMag_ptr) *p_vMag_ptr = p_v;
 }
 
 /**
-- 
2.43.0


From 71fd70f404775dae3893394907c42ac22e8241b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 081/115] fix: copies of a bus follow when voltages are reset

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..dc9a5f5 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -697,6 +697,7 @@ void gridpack::powerflow::PFFactoryModule::resetVoltages()
       bus->resetVoltage();
     }
   }
+  p_network->updateBuses();
 }
 
 /**
-- 
2.43.0


From c55786eca589212ed0fb6bb203f223cb6f391107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 082/115] fix: a process holding no bus takes part in the
 exchange of copies

---
 src/factory/base_factory.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factory/base_factory.hpp b/src/factory/base_factory.hpp
index 57b029f..b79aefa 100644
--- a/src/factory/base_factory.hpp
+++ b/src/factory/base_factory.hpp
@@ -309,6 +309,8 @@ class BaseFactory {
       } else {
         busXCSize = 0;
       }
+      // a process without buses still takes part in the exchange
+      p_network->communicator().max(&busXCSize,1);
       if (flag) {
         p_network->allocXCBus(busXCSize);
       } else {
@@ -320,6 +322,7 @@ class BaseFactory {
       } else {
         branchXCSize = 0;
       }
+      p_network->communicator().max(&branchXCSize,1);
       if (flag) {
         p_network->allocXCBranch(branchXCSize);
       } else {
-- 
2.43.0


From 4c10a4faf8b096de54e6da78ef202b1a86b21e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 083/115] fix: initial values of a second machine on a bus in
 the DAE simulation go to its own place

---
 .../modules/dynamic_simulation_dae/dsimnetwork.cpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index 7f1251d..9f38ad0 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -531,19 +531,19 @@ bool DSimBus::vectorValues(gridpack::ComplexType *values)
 
 	p_gen[i]->setVoltage(p_VDQptr[0],p_VDQptr[1]);
 	p_gen[i]->init(fgen);
+	fgen += p_neqsgen[i];
 
 	has_ex = p_gen[i]->hasExciter();
 	if (has_ex) {
-  	  fgen += p_neqsgen[i];
 	  p_gen[i]->getExciter()->setVoltage(p_VDQptr[0],p_VDQptr[1]);
     	  p_gen[i]->getExciter()->init(fgen);
+	  fgen += p_neqsexc[i];
   	}	
 
 	has_gv = p_gen[i]->hasGovernor();
 	if (has_gv) {
- 	  if (has_ex) fgen += p_neqsexc[i];
- 	  else fgen += p_neqsgen[i];
 	  p_gen[i]->getGovernor()->init(fgen);
+	  fgen += p_neqsgov[i];
   	}	
       }
     }	  
-- 
2.43.0


From 68fbade075207112bd9373e590f9b360705cf0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 084/115] fix: observations set a second time start from empty
 lists

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index 32c3ba7..c2211f6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1960,6 +1960,13 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
   p_obs_genIDs.clear();
   p_obs_vBus.clear();
   p_obs_vBusfreq.clear();
+  p_obs_loadBus.clear();
+  p_obs_loadIDs.clear();
+  p_obs_GenIdx.clear();
+  p_obs_LoadIdx.clear();
+  p_obs_VIdx.clear();
+  p_obs_VIdxfreq.clear();
+  p_obs_vUsefreq.clear();
   gridpack::utility::StringUtils util;
   // Parser observation block
   std::vector<int> foundGen;
-- 
2.43.0


From ea7c5dc6c05efdf43a35ba8a7fa6fdf0381e4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 085/115] fix: which observed elements exist is combined over
 the whole list

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index c2211f6..5ee6c46 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -2099,7 +2099,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     p_obs_genP->upload();
     p_obs_genQ->addElements(p_obs_lGenIdx, zeros);
     p_obs_genQ->upload();
-    p_comm.sum(&p_obs_gActive[0],p_comm.size());
+    p_comm.sum(&p_obs_gActive[0],p_obs_gActive.size());
   }
   if (p_obs_loadBus.size() > 0) {
     int nbus = p_obs_loadBus.size();
@@ -2170,7 +2170,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     }
     p_obs_fOnline->addElements(p_obs_lLoadIdx, ones);
     p_obs_fOnline->upload();
-    p_comm.sum(&p_obs_lActive[0],p_comm.size());
+    p_comm.sum(&p_obs_lActive[0],p_obs_lActive.size());
   }
   if (p_obs_vBus.size() > 0) {
     int nbus = p_obs_vBus.size();
@@ -2224,7 +2224,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     p_obs_vMag->upload();
     p_obs_vAng->addElements(p_obs_lVIdx, zeros);
     p_obs_vAng->upload();
-    p_comm.sum(&p_obs_vActive[0],p_comm.size());
+    p_comm.sum(&p_obs_vActive[0],p_obs_vActive.size());
   }
   if (p_obs_vBusfreq.size() > 0) {  // this is for bus frequency ob
     int nbusfreq = p_obs_vBusfreq.size();
@@ -2276,7 +2276,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     }
     p_obs_vBusfreqVal->addElements(p_obs_lVIdxfreq, ones);
     p_obs_vBusfreqVal->upload();
-    p_comm.sum(&p_obs_vActivefreq[0],p_comm.size());
+    p_comm.sum(&p_obs_vActivefreq[0],p_obs_vActivefreq.size());
   } //bus frequency ob ends here
     
 }
-- 
2.43.0


From 9dfada125941db49e3b3a7d68044e6d5db07e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 086/115] fix: observed bus frequencies are listed under their
 own bus

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index 5ee6c46..9b4d22e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -2250,7 +2250,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         foundBusfreq[i] = 1;
         p_obs_lVIdxfreq.push_back(i);
         p_obs_VIdxfreq.push_back(lidx);
-        p_obs_lVBusfreq.push_back(p_obs_vBus[i]);
+        p_obs_lVBusfreq.push_back(p_obs_vBusfreq[i]);
         p_obs_vUsefreq.push_back(0);
         ones.push_back(1.0);
 
@@ -2268,7 +2268,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         if (!foundBusfreq[i]) {
           p_obs_lVIdxfreq.push_back(i);
           p_obs_VIdxfreq.push_back(-1);
-          p_obs_lVBusfreq.push_back(p_obs_vBus[i]);
+          p_obs_lVBusfreq.push_back(p_obs_vBusfreq[i]);
           p_obs_vUsefreq.push_back(1);
           ones.push_back(1.0);
         }
-- 
2.43.0


From bf11d58a7a806b66444e677f0076138b6fb450f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 087/115] fix: a load replaced by a composite load leaves every
 list of loads

---
 .../dynamic_simulation_full_y/dsf_components.cpp      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index e73b67f..0ebfd27 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -864,6 +864,11 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   p_downIntervalStart.clear();
   p_downStartedMonitoring.clear();
   p_loadid.clear();
+  p_powerflowload_p.clear();
+  p_powerflowload_p_save.clear();
+  p_powerflowload_q.clear();
+  p_powerflowload_q_save.clear();
+  p_powerflowload_status.clear();
   p_dynamic_loadid.clear();
   p_generators.clear();
   p_loadrelays.clear();
@@ -1216,6 +1221,9 @@ void gridpack::dynamic_simulation::DSFullBus::load(
           p_powerflowload_p.pop_back();
           p_powerflowload_q.pop_back();
           p_loadid.pop_back();	
+          p_powerflowload_p_save.pop_back();
+          p_powerflowload_q_save.pop_back();
+          p_powerflowload_status.pop_back();
           p_npowerflow_load = 0;
         }else{
           BaseLoadModel *load = loadFactory.createLoadModel(model); 
@@ -1444,7 +1452,10 @@ void gridpack::dynamic_simulation::DSFullBus::LoadExtendedCmplBus(
   // get the total of powerflow load
   double pl, ql;
   p_powerflowload_p.clear();
+  p_powerflowload_p_save.clear();
   p_powerflowload_q.clear();
+  p_powerflowload_q_save.clear();
+  p_powerflowload_status.clear();
   p_loadid.clear();
   printf("DSFullBus::LoadExtendedCmplBus():  entering processing load model \n");
   
-- 
2.43.0


From 41329afb0dddfdbeb7977bcf8f6175eb61c795c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 088/115] fix: a dynamic load is looked up by its own
 identifier

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 0ebfd27..53cb6e9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2923,8 +2923,8 @@ gridpack::dynamic_simulation::BaseLoadModel
 *gridpack::dynamic_simulation::DSFullBus::getLoad(std::string id)
 {
   int i;
-  for (i=0; i<p_loadmodels.size(); i++) {
-    if (id == p_loadid[i]) {
+  for (i=0; i<p_loadmodels.size() && i<p_dynamic_loadid.size(); i++) {
+    if (id == p_dynamic_loadid[i]) {
       return p_loadmodels[i].get();
     }
   }
-- 
2.43.0


From 60eb5d17badc4f4246a119d7874d6a8d6bdb9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 089/115] fix: a branch element without a circuit identifier
 keeps its place in the list

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 53cb6e9..6b8178a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3556,10 +3556,9 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
 
     //renke add, get line relays associated with this branch object
     sckt.clear();
-    if (data->getValue(BRANCH_CKT, &sckt, idx)) {
-      p_ckt.push_back(sckt);
-      //printf("branch %d element, ckt %s \n", idx, sckt.c_str());
-    }
+    data->getValue(BRANCH_CKT, &sckt, idx);
+    p_ckt.push_back(sckt);
+    //printf("branch %d element, ckt %s \n", idx, sckt.c_str());
 
     if (nrelay>0) {
       for (irelay=0 ; irelay<nrelay ; irelay++) {
-- 
2.43.0


From 732cf49a19c4aa3619133507974fa29ba8595a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 090/115] fix: the branches of a composite load have an entry
 in every list of elements

---
 .../dynamic_simulation_full_y/dsf_components.cpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 6b8178a..2d31001 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -4136,6 +4136,12 @@ void gridpack::dynamic_simulation::DSFullBranch::SetCmplXfmrBranch(double dx, do
 	p_xform.push_back(true);
 	p_branch_status.push_back(1);
 	p_shunt.push_back(false);
+	p_charging.push_back(0.0);
+	p_shunt_admt_g1.push_back(0.0);
+	p_shunt_admt_b1.push_back(0.0);
+	p_shunt_admt_g2.push_back(0.0);
+	p_shunt_admt_b2.push_back(0.0);
+	p_switched.push_back(false);
 	p_ckt.push_back("1"); 
 }
 
@@ -4154,6 +4160,12 @@ void gridpack::dynamic_simulation::DSFullBranch::SetCmplFeederBranch(double dr,
 	p_xform.push_back(false);
 	p_branch_status.push_back(1);
 	p_shunt.push_back(false);
+	p_charging.push_back(0.0);
+	p_shunt_admt_g1.push_back(0.0);
+	p_shunt_admt_b1.push_back(0.0);
+	p_shunt_admt_g2.push_back(0.0);
+	p_shunt_admt_b2.push_back(0.0);
+	p_switched.push_back(false);
 	p_ckt.push_back("1"); 
 }
 /*
-- 
2.43.0


From e26be84213954b2254baf300b460b492d5ca95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 091/115] fix: every generator of a bus has its place in the
 list of device models

---
 .../dynamic_simulation_full_y/dsf_components.cpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 2d31001..798e114 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -983,6 +983,14 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 
         BaseGeneratorModel *generator
           = genFactory.createGeneratorModel(model);
+        if (!generator) {
+          // model is not available, treat like a generator without model
+          generator = new gridpack::dynamic_simulation::BaseGeneratorModel;
+          p_gen_nodynmodel[i] = true;
+          p_genpg_nodynmodel[i] = pg;
+          p_genqg_nodynmodel[i] = qg;
+          p_ngen_nodynmodel++;
+        }
 	if (model == "REGCA1" || model == "REGCB1" || model == "REGCC1" || model == "GDFORM"){
 	  bcomputefreq = true;
 	}
@@ -1134,6 +1142,11 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
       } else if (pg < 0.0) {
+        // keep one entry per generator
+        boost::shared_ptr<BaseGeneratorModel> basegen(
+            new gridpack::dynamic_simulation::BaseGeneratorModel);
+        p_generators.push_back(basegen);
+
         p_negpg.push_back(pg);
         p_negqg.push_back(qg);
         p_negngen++;
-- 
2.43.0


From c566de70be3dd7df7ba3f0a2237bb090a35af3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 092/115] fix: observation lists and generator models keep
 their length in every case

---
 .../dsf_app_module.cpp                          | 17 +++++++++++++++++
 .../dsf_components.cpp                          |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index 9b4d22e..4991541 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1967,6 +1967,23 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
   p_obs_VIdx.clear();
   p_obs_VIdxfreq.clear();
   p_obs_vUsefreq.clear();
+  p_obs_lGenIdx.clear();
+  p_obs_lGenBus.clear();
+  p_obs_lGenIDs.clear();
+  p_obs_gActive.clear();
+  p_obs_gUse.clear();
+  p_obs_lLoadIdx.clear();
+  p_obs_lLoadBus.clear();
+  p_obs_lLoadIDs.clear();
+  p_obs_lActive.clear();
+  p_obs_lUse.clear();
+  p_obs_lVIdx.clear();
+  p_obs_lVBus.clear();
+  p_obs_vActive.clear();
+  p_obs_vUse.clear();
+  p_obs_lVIdxfreq.clear();
+  p_obs_lVBusfreq.clear();
+  p_obs_vActivefreq.clear();
   gridpack::utility::StringUtils util;
   // Parser observation block
   std::vector<int> foundGen;
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 798e114..43e924c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -1141,7 +1141,7 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genpg_nodynmodel[i] = pg;
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
-      } else if (pg < 0.0) {
+      } else {
         // keep one entry per generator
         boost::shared_ptr<BaseGeneratorModel> basegen(
             new gridpack::dynamic_simulation::BaseGeneratorModel);
-- 
2.43.0


From 9d39d9f3100ced4759dd42a71dd3e58e30aee31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 093/115] fix: a generator without complete data is not counted
 on a bus of the reduced-network simulation

---
 src/applications/components/ds_matrix/ds_components.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index ab3f042..8ef96d6 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -383,9 +383,10 @@ void gridpack::dynamic_simulation_r::DSBus::load(
   p_genid.clear();
   p_watch.clear();
 
+  int ngen = 0;
   p_ngen = 0;
-  if (data->getValue(GENERATOR_NUMBER, &p_ngen)) {
-    for (i=0; i<p_ngen; i++) {
+  if (data->getValue(GENERATOR_NUMBER, &ngen)) {
+    for (i=0; i<ngen; i++) {
       lgen = true;
       lgen = lgen && data->getValue(GENERATOR_PG, &pg,i);
       lgen = lgen && data->getValue(GENERATOR_QG, &qg,i);
@@ -417,6 +418,7 @@ void gridpack::dynamic_simulation_r::DSBus::load(
         bool ok = data->getValue(GENERATOR_ID,&id,i);
         p_genid.push_back(id);
         p_watch.push_back(false);
+        p_ngen++;
       }
     }
   }
-- 
2.43.0


From 59ad90d117726fd10cb7f60ec9f57766efb34a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 094/115] fix: plain loads beside a composite load on a bus are
 kept

---
 .../dynamic_simulation_full_y/dsf_components.cpp   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 43e924c..53a1a51 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -1186,12 +1186,13 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   p_powerflowload_status.clear();
   totaldynReactivepower = 0.0;
   if (bdebug_load_model) printf("DSFullBus::load():  entering processing load model \n");
-  if (data->getValue(LOAD_NUMBER, &p_npowerflow_load)) {
+  int nload = 0;
+  if (data->getValue(LOAD_NUMBER, &nload)) {
     std::string loadid;
     int icnt = 0;
-    if (bdebug_load_model) printf("bus %d has %d power flow loads \n", idx, p_npowerflow_load);
+    if (bdebug_load_model) printf("bus %d has %d power flow loads \n", idx, nload);
     int istat;
-    for (i=0; i<p_npowerflow_load; i++) { 
+    for (i=0; i<nload; i++) { 
       pl = ql = ip = iq = yp = yq = 0.0;
       loadid.clear();
       data->getValue(LOAD_PL, &pl, i);
@@ -1237,7 +1238,6 @@ void gridpack::dynamic_simulation::DSFullBus::load(
           p_powerflowload_p_save.pop_back();
           p_powerflowload_q_save.pop_back();
           p_powerflowload_status.pop_back();
-          p_npowerflow_load = 0;
         }else{
           BaseLoadModel *load = loadFactory.createLoadModel(model); 
           if (bdebug_load_model) printf("DSFullBus::load(): base load object created!\n");	
@@ -1258,12 +1258,12 @@ void gridpack::dynamic_simulation::DSFullBus::load(
           }  // end of if (load)	
         } // end of the judgement if the dynamic load is not CMLDBLU1
       } // end of if (data->getValue(LOAD_MODEL, &model, i))
-    } // end of for (i=0; i<p_npowerflow_load; i++)
+    } // end of for (i=0; i<nload; i++)
 		
-  } // end of if (data->getValue(LOAD_NUMBER, &p_npowerflow_load))
+  } // end of if (data->getValue(LOAD_NUMBER, &nload))
 
   p_ndyn_load = p_loadmodels.size(); 
-  //p_npowerflow_load = p_powerflowload_p.size();
+  p_npowerflow_load = p_powerflowload_p.size();
 
   //sum all the power flow load P and Q at this bus together
   p_pl = 0.0;
-- 
2.43.0


From 3e3cc89c37c954ee441262957d8b22b5af219860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 095/115] fix: table headers received by other processes end
 where they end

---
 src/parser/bus_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 1258003..fbbfb8a 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -177,7 +177,7 @@ public:
         }
         MPI_Bcast(str,hsize[i],MPI_CHAR,0,mpi_comm);
         if (me != 0) {
-          p_headers.push_back(str);
+          p_headers.push_back(std::string(str,hsize[i]));
         }
         delete [] str;
       }
-- 
2.43.0


From 17f813e3990faab6d1ede4502e2b57460add9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 096/115] fix: a generator treated as a negative load counts
 once and only when in service

In the diagonal of the network matrix of the dynamic simulation, generators
with negative output were subtracted twice, generators out of service were
included, the power in MW was used as per unit, and the entry was left
undefined when all generators of a bus are out of service.
---
 .../dsf_components.cpp                        | 66 ++++++-------------
 1 file changed, 19 insertions(+), 47 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 53a1a51..56f4d66 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -221,61 +221,33 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     values[0] = ret;
     return true;
   } else if (p_mode == PG) {
-    if (p_ngen > 0) {
-      for (int i = 0; i < p_ngen; i++) {
-	if(!p_gstatus[i]) continue;
-	
-	if (p_pg[i] < 0) {
-           p_ybusr = p_ybusr+(-p_pg[i])/(p_voltage*p_voltage);
-           p_ybusi = p_ybusi+p_qg[i]/(p_voltage*p_voltage);
-           gridpack::ComplexType ret(p_ybusr, p_ybusi);
-           values[0] = ret;
-         } else {
-           gridpack::ComplexType u(p_ybusr, p_ybusi);
-           values[0] = u;
-         }
-      }
-    } else {
-      gridpack::ComplexType u(p_ybusr, p_ybusi);
-      values[0] = u;
-    }
-    if (p_negngen > 0) {
-      for (int i = 0; i < p_negngen; i++) {
-        p_ybusr = p_ybusr+(-p_negpg[i])/(p_voltage*p_voltage);
-        p_ybusi = p_ybusi+p_negqg[i]/(p_voltage*p_voltage);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
-        values[0] = ret;
-      }
-    }
+    // Generators in service that have negative output or no dynamic model are
+    // treated as negative loads
     for (int i = 0; i < p_ngen; i++) {
-      if(p_gen_nodynmodel[i]) {
-	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
-	p_ybusi = p_ybusi+p_genqg_nodynmodel[i]/(p_voltage*p_voltage);
-	gridpack::ComplexType ret(p_ybusr, p_ybusi);
-	values[0] = ret;
+      if(!p_gstatus[i]) continue;
+      if (p_gen_nodynmodel[i]) {
+        p_ybusr -= p_genpg_nodynmodel[i]/(p_sbase*p_voltage*p_voltage);
+        p_ybusi += p_genqg_nodynmodel[i]/(p_sbase*p_voltage*p_voltage);
+      } else if (p_pg[i] < 0) {
+        p_ybusr -= p_pg[i]/(p_sbase*p_voltage*p_voltage);
+        p_ybusi += p_qg[i]/(p_sbase*p_voltage*p_voltage);
       }
     }
+    gridpack::ComplexType u(p_ybusr, p_ybusi);
+    values[0] = u;
     return true;
   } else if (p_mode == jxd) {
-    if (p_ngen > 0) {
-      for (int i = 0; i < p_ngen; i++) {
-	if(!p_gstatus[i] || !p_generators.size()) continue;
-
-        gridpack::ComplexType Y_a
-          = p_generators[i]->NortonImpedence();
-
-        p_ybusr = p_ybusr + real(Y_a);
-        p_ybusi = p_ybusi + imag(Y_a);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
+    for (int i = 0; i < p_ngen; i++) {
+      if(!p_gstatus[i] || !p_generators.size()) continue;
 
-        values[0] = ret;
-      }
+      gridpack::ComplexType Y_a
+        = p_generators[i]->NortonImpedence();
 
-    } else {
-      gridpack::ComplexType u(p_ybusr, p_ybusi);
-      values[0] = u;
-      //return true;
+      p_ybusr = p_ybusr + real(Y_a);
+      p_ybusi = p_ybusi + imag(Y_a);
     }
+    gridpack::ComplexType u(p_ybusr, p_ybusi);
+    values[0] = u;
     //printf("idx: %d Real: %f Imag: %f\n",getOriginalIndex(),
       //real(values[0]), imag(values[0]));
     return true;
-- 
2.43.0


From 66cf974cebf1df8120f2314a05bec7af6df8261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 097/115] fix: totals of power on a bus include only devices in
 service

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 56f4d66..3d8e28f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3133,6 +3133,7 @@ void gridpack::dynamic_simulation::DSFullBus::getTotalLoadPower(double &total_p,
   int i;
 //#if 0
   for (i=0; i<p_npowerflow_load; i++) {
+    if (!p_powerflowload_status[i]) continue;
     total_p += p_powerflowload_p[i];
     total_q += p_powerflowload_q[i];
   }
@@ -3159,6 +3160,7 @@ void gridpack::dynamic_simulation::DSFullBus::getTotalGeneratorPower(double &tot
         p_ngen,p_pg.size(),p_qg.size());
   }
   for (i=0; i<p_ngen; i++) {
+    if (!p_gstatus[i]) continue;
     total_p += p_pg[i];
     total_q += p_qg[i];
   }
-- 
2.43.0


From 01fbd7dda9d56404648eab7f5f8471a9693db192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 098/115] fix: enforcing and clearing reactive limits keeps
 generators and loads

A bus at its reactive limit dropped its generators and gave each load in
service the net power of the whole bus; clearing the limits removed the
generators of every bus that had not been converted.
---
 .../components/pf_matrix/pf_components.cpp    | 53 +++++--------------
 .../components/pf_matrix/pf_components.hpp    |  4 +-
 2 files changed, 15 insertions(+), 42 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 5aa8a64..77607e5 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -247,15 +247,13 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
   if (p_isPV) {
-    double qmax, qmin, ppl;
+    double qmax, qmin;
     qmax = 0.0;
     qmin = 0.0;
-    ppl = 0.0;
     for (int i=0; i<p_gstatus.size(); i++) {
       if (p_gstatus[i] == 1) {
         qmax += p_qmax[i];
         qmin += p_qmin[i];
-        ppl  += p_pg[i];
       }
     }
     std::vector<boost::shared_ptr<BaseComponent> > branches;
@@ -271,52 +269,28 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
         ql += p_ql[i];
       }
     }
-    p_save2isPV = p_isPV;
-    double pval = p_Pinj*p_sbase+pl;
     double qval = p_Qinj*p_sbase+ql;
 
 //  If qval exceeds the total generator Q capacity, perform PV->PQ
 //
     if (qval > qmax ) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
-      p_save2isPV = p_isPV;
+      p_qg_save = p_qg;
       p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
+      // generators that are in service are held at their limit
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+        if (p_gstatus[i] == 1) p_qg[i] = p_qmax[i];
       }
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
     } else if (qval < qmin) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
-      p_save2isPV = p_isPV;
+      p_qg_save = p_qg;
       p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
+      // generators that are in service are held at their limit
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+        if (p_gstatus[i] == 1) p_qg[i] = p_qmin[i];
       }
-
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
     } else {
@@ -337,13 +311,12 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
+  // nothing to restore unless the bus was converted by chkQlim
+  if (p_qg_save.size() > 0) {
+    p_qg = p_qg_save;
+    p_qg_save.clear();
+    p_isPV = true;
   }
-  p_isPV = p_save2isPV;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
 
@@ -449,7 +422,7 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_qg_save.clear();
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..46c1120 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -457,7 +457,7 @@ class PFBus
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_qg_save;
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
@@ -472,7 +472,7 @@ class PFBus
     double p_sbase;
     double p_Pinj, p_Qinj;
     double p_vmin, p_vmax;
-    bool p_isPV, p_saveisPV, p_save2isPV;
+    bool p_isPV, p_saveisPV;
     bool *p_PV_ptr;
     int p_ngen;
     int p_nload;
-- 
2.43.0


From eb3f30230254bf320fc540d0439d8744c004a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 099/115] fix: reactive limits of an area are reported violated
 when they are

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index dc9a5f5..929bce6 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -638,7 +638,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From 400260b76ed06c358247ed4ab8b2a8105af0372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 100/115] fix: a bus whose last generator is switched off no
 longer controls its voltage

---
 src/applications/components/pf_matrix/pf_components.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 77607e5..5140a81 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -741,6 +741,14 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
         p_qmax[i] = p_qmax_orig[i];
         p_qmin[i] = p_qmin_orig[i];
       }
+      // voltage is controlled as long as a generator is in service
+      if (p_type == 2) {
+        p_isPV = false;
+        for (int j=0; j<gsize; j++) {
+          if (p_gstatus[j] == 1) p_isPV = true;
+        }
+        if (p_PV_ptr) *p_PV_ptr = p_isPV;
+      }
       return;
     }
   }
-- 
2.43.0


From 987517bb62f0de1b0d63773823712af5e7ad49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:49 +0000
Subject: [PATCH 101/115] fix: all loads in service count in the reduced,
 Kalman and DAE simulations

The parsers store loads one by one; these modules only looked for a single
load of the bus and so left out the loads of networks read from files.
---
 .../components/ds_matrix/ds_components.cpp     | 18 ++++++++++++++++++
 .../components/kds_matrix/kds_components.cpp   | 18 ++++++++++++++++++
 .../dynamic_simulation_dae/dsimnetwork.cpp     | 18 ++++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index 8ef96d6..7eaaa9d 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -363,6 +363,24 @@ void gridpack::dynamic_simulation_r::DSBus::load(
   p_ql = 0.0;
   p_load = p_load && data->getValue(LOAD_PL, &p_pl);
   p_load = p_load && data->getValue(LOAD_QL, &p_ql);
+  // sum of the loads on the bus that are in service
+  int nload = 0;
+  if (data->getValue(LOAD_NUMBER, &nload)) {
+    p_pl = 0.0;
+    p_ql = 0.0;
+    for (int iload=0; iload<nload; iload++) {
+      double pl = 0.0;
+      double ql = 0.0;
+      int lstatus = 1;
+      data->getValue(LOAD_PL, &pl, iload);
+      data->getValue(LOAD_QL, &ql, iload);
+      data->getValue(LOAD_STATUS, &lstatus, iload);
+      if (lstatus) {
+        p_pl += pl;
+        p_ql += ql;
+      }
+    }
+  }
 
   p_pl /= p_sbase;
   p_ql /= p_sbase;
diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index 7f776a5..a4b882d 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -585,6 +585,24 @@ void gridpack::kalman_filter::KalmanBus::load(
   p_load = true;
   p_load = p_load && data->getValue(LOAD_PL, &p_pl);
   p_load = p_load && data->getValue(LOAD_QL, &p_ql);
+  // sum of the loads on the bus that are in service
+  int nload = 0;
+  if (data->getValue(LOAD_NUMBER, &nload)) {
+    p_pl = 0.0;
+    p_ql = 0.0;
+    for (int iload=0; iload<nload; iload++) {
+      double pl = 0.0;
+      double ql = 0.0;
+      int lstatus = 1;
+      data->getValue(LOAD_PL, &pl, iload);
+      data->getValue(LOAD_QL, &ql, iload);
+      data->getValue(LOAD_STATUS, &lstatus, iload);
+      if (lstatus) {
+        p_pl += pl;
+        p_ql += ql;
+      }
+    }
+  }
   //printf("p_pl=%f,p_ql=%f\n",p_pl,p_ql);
   bool lgen, dgen;
   int i, ngen, gstatus;
diff --git a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
index 9f38ad0..e9e1740 100644
--- a/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp
@@ -359,6 +359,24 @@ void DSimBus::load(const
   // Get active and reactive power load
   data->getValue(LOAD_PL,&p_pl);
   data->getValue(LOAD_QL,&p_ql);
+  // sum of the loads on the bus that are in service
+  int nload = 0;
+  if (data->getValue(LOAD_NUMBER, &nload)) {
+    p_pl = 0.0;
+    p_ql = 0.0;
+    for (int iload=0; iload<nload; iload++) {
+      double pl = 0.0;
+      double ql = 0.0;
+      int lstatus = 1;
+      data->getValue(LOAD_PL, &pl, iload);
+      data->getValue(LOAD_QL, &ql, iload);
+      data->getValue(LOAD_STATUS, &lstatus, iload);
+      if (lstatus) {
+        p_pl += pl;
+        p_ql += ql;
+      }
+    }
+  }
   // Convert to p.u.
   p_pl /= p_sbase;
   p_ql /= p_sbase;
-- 
2.43.0


From 5ab58b1b5b84bb2607bdc461b5bbae58025eb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 102/115] fix: generators out of service take no part in the
 reduced and Kalman simulations

---
 src/applications/components/ds_matrix/ds_components.cpp   | 3 ++-
 src/applications/components/kds_matrix/kds_components.cpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index 7eaaa9d..aac68d8 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -421,7 +421,8 @@ void gridpack::dynamic_simulation_r::DSBus::load(
       // SJin: need to be added to parser
       lgen = lgen && data->getValue(GENERATOR_INERTIA_CONSTANT_H, &h, i); // h
       lgen = lgen && data->getValue(GENERATOR_DAMPING_COEFFICIENT_0, &d0, i); // d0
-      if (lgen) {
+      // generators out of service take no part in the simulation
+      if (lgen && gstatus != 0) {
         p_pg.push_back(pg);
         p_qg.push_back(qg);
         p_gstatus.push_back(gstatus);
diff --git a/src/applications/components/kds_matrix/kds_components.cpp b/src/applications/components/kds_matrix/kds_components.cpp
index a4b882d..3cc2d50 100644
--- a/src/applications/components/kds_matrix/kds_components.cpp
+++ b/src/applications/components/kds_matrix/kds_components.cpp
@@ -650,6 +650,8 @@ void gridpack::kalman_filter::KalmanBus::load(
       dgen = dgen && data->getValue(GENERATOR_DAMPING_COEFFICIENT_0,&dm,i);
       dgen = dgen && data->getValue(GENERATOR_INERTIA_CONSTANT_H,&hmach,i);
       double pm = pgen*p_sbase/genMVA;
+      // generators out of service take no part in the simulation
+      if (lgen && gstatus == 0) continue;
       if (lgen && dgen) {
         p_omega_0.push_back(1.0);
         p_omega_n.push_back(1.0);
-- 
2.43.0


From 5d4ea006be234e6957668c8f56e002217aac9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 103/115] fix: the reduced simulation takes the base power of
 the case

---
 src/applications/components/ds_matrix/ds_components.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/components/ds_matrix/ds_components.cpp b/src/applications/components/ds_matrix/ds_components.cpp
index aac68d8..cb1a1ec 100644
--- a/src/applications/components/ds_matrix/ds_components.cpp
+++ b/src/applications/components/ds_matrix/ds_components.cpp
@@ -335,6 +335,7 @@ void gridpack::dynamic_simulation_r::DSBus::load(
   YMBus::load(data);
 
   p_sbase = 100.0;
+  data->getValue(CASE_SBASE, &p_sbase);
 
   // values of a flat start, if the bus record does not have them
   p_angle = 0.0;
-- 
2.43.0


From 997d8d941190863199bebe62ece115f6893643a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:07 +0000
Subject: [PATCH 104/115] fix: taking a generator out of service does not make
 a load bus control its voltage

---
 .../components/pf_matrix/pf_components.cpp             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 5140a81..466be54 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1668,11 +1668,13 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
       data->setValue(GENERATOR_QG,0.0,idx);
     }
     // Check PV status and change it if all generators are off
-    p_isPV = p_gstatus[0];
-    for (i=1; i<p_ngen; i++) {
-      p_isPV = p_isPV || p_gstatus[i];
+    bool isPV = false;
+    if (p_type == 2) {
+      for (i=0; i<p_ngen; i++) {
+        isPV = isPV || p_gstatus[i];
+      }
     }
-    setIsPV(p_isPV);
+    setIsPV(isPV);
   } else {
     printf("setGenertorStatus: No generator found on bus %d with id: (%s)\n",getOriginalIndex(),tag.c_str());
   }
-- 
2.43.0


From 90f21c52a6dc9fa14bfb1b8b073de62b49985625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 105/115] fix: ignoring voltage violations marks the buses that
 violate their limits, not the others

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 929bce6..2c2c81f 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -315,7 +315,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From c6e0c887e95dde9513266ae0ddaacdae186b59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 106/115] fix: violations found by checks of the whole network
 or an area are all listed

---
 .../modules/powerflow/pf_factory_module.cpp   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 2c2c81f..5a4d10b 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -262,7 +262,15 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = bus->getOriginalIndex();
+          violation.bus2 = -1;
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -447,7 +455,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
-- 
2.43.0


From 9d520f635095e235a431fe9a7b86068a06ab4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 107/115] fix: the check of named lines uses the mark, flow and
 rating of the line that is named

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 5a4d10b..9173192 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -512,7 +512,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -530,10 +530,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
-- 
2.43.0


From 5c369f62ab86292307fbf950d311646024076cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 108/115] fix: ignoring line overloads uses the rating that the
 check uses

---
 .../modules/powerflow/pf_factory_module.cpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 9173192..77f9076 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -572,13 +572,23 @@ void gridpack::powerflow::PFFactoryModule::ignoreLineOverloadViolations()
       int nlines;
       p_network->getBranchData(i)->getValue(BRANCH_NUM_ELEMENTS,&nlines);
       std::vector<std::string> tags = branch->getLineTags();
-      double rateA;
+      double rate;
       for (int k = 0; k<nlines; k++) {
-        if (p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rateA,k)) {
-          if (rateA > 0.0) {
+        // Use the same rating as the check for overloads
+        bool foundRating = false;
+        if (p_rateB) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_B,
+              &rate,k);
+        }
+        if (!foundRating) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_A,
+              &rate,k);
+        }
+        if (foundRating) {
+          if (rate > 0.0) {
             gridpack::ComplexType s = branch->getComplexPower(tags[k]);
             double pq = abs(s);
-            if (pq > rateA) branch->setIgnore(tags[k],true);
+            if (pq > rate) branch->setIgnore(tags[k],true);
           }
         }
       }
-- 
2.43.0


From 1484578a47463aee889e3c77514eca182d32dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 109/115] fix: the list of violations has a place of its own
 for those of each process

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 77f9076..7ba981e 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -940,7 +940,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From c713e41ab58f7e583e68af306986c1e120a0442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 110/115] fix: resetting the voltage of a bus goes back to the
 set point of its generators

---
 src/applications/components/pf_matrix/pf_components.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 466be54..19590bf 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -518,6 +518,8 @@ void gridpack::powerflow::PFBus::load(
         p_ngen++;
       }
     }
+    // the initial voltage, which resetVoltage goes back to
+    p_voltage = p_v;
     if (pcaptot != 0.0 && p_ngen > 1) {
       for (i=0; i<p_ngen; i++) {
         p_pFac[i] = p_pFac[i]/pcaptot;
-- 
2.43.0


From 0ac2f5d9da1630708e3ee7134c44f234c857bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 111/115] fix: control of the voltage is not switched on at the
 reactive limits or without a generator

---
 .../components/pf_matrix/pf_components.cpp            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 19590bf..045ea77 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -315,7 +315,11 @@ void gridpack::powerflow::PFBus::clearQlim()
   if (p_qg_save.size() > 0) {
     p_qg = p_qg_save;
     p_qg_save.clear();
-    p_isPV = true;
+    // voltage is controlled only if a generator is still in service
+    p_isPV = false;
+    for (int i=0; i<p_gstatus.size(); i++) {
+      if (p_gstatus[i] == 1) p_isPV = true;
+    }
   }
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
@@ -743,11 +747,12 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
         p_qmax[i] = p_qmax_orig[i];
         p_qmin[i] = p_qmin_orig[i];
       }
-      // voltage is controlled as long as a generator is in service
+      // voltage is controlled as long as a generator is in service and the
+      // bus is not held at its reactive limits
       if (p_type == 2) {
         p_isPV = false;
         for (int j=0; j<gsize; j++) {
-          if (p_gstatus[j] == 1) p_isPV = true;
+          if (p_gstatus[j] == 1 && p_qg_save.size() == 0) p_isPV = true;
         }
         if (p_PV_ptr) *p_PV_ptr = p_isPV;
       }
-- 
2.43.0


From 25ab9885908ee085baa1d8ba91eb73132f2e5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 112/115] fix: undoing a contingency that lists a device twice
 gives it back its status

---
 src/applications/modules/powerflow/pf_app_module.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index be03a61..28363c2 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -931,7 +931,9 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
   if (event.p_type == Generator) {
     int ngen = event.p_busid.size();
     int i, j, idx, jdx;
-    for (i=0; i<ngen; i++) {
+    // go backwards, so that a device that is listed twice gets back the
+    // status it had at first
+    for (i=ngen-1; i>=0; i--) {
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
@@ -948,7 +950,7 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
     int to, from;
     int nline = event.p_to.size();
     int i, j, idx, jdx;
-    for (i=0; i<nline; i++) {
+    for (i=nline-1; i>=0; i--) {
       to = event.p_to[i];
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
-- 
2.43.0


From fe505f4dd902884248434d78311d090a0c81d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 113/115] fix: totals of an area count each bus once over all
 processes

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 7ba981e..9309df0 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -798,6 +798,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -840,6 +841,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -862,6 +864,9 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  p_network->communicator().sum(total,1);
+  p_network->communicator().sum(pmin,1);
+  p_network->communicator().sum(pmax,1);
 }
 
 /**
-- 
2.43.0


From c79258f3cfe00d1549910c49bf521b777d52f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 114/115] fix: a bus of the dynamic simulation tells which of
 its devices are in service

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 3d8e28f..4fd1fce 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2827,7 +2827,7 @@ void gridpack::dynamic_simulation::DSFullBus::getGeneratorMargins(
     current.push_back(p_savePg[i]);
     pmin.push_back(p_gpmin[i]);
     pmax.push_back(p_gpmax[i]);
-    status.push_back(1);
+    status.push_back(p_gstatus[i]);
   }
 }
 
@@ -2851,7 +2851,7 @@ void gridpack::dynamic_simulation::DSFullBus::getLoadPower(
     tag.push_back(p_loadid[i]);
     pl.push_back(p_powerflowload_p_save[i]);
     ql.push_back(p_powerflowload_q_save[i]);
-    status.push_back(1);
+    status.push_back(p_powerflowload_status[i]);
   }
 }
 
-- 
2.43.0


From efbcb8edda098408a3b9127d0a591a5fa0c328db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 115/115] fix: totals of an area in the dynamic simulation
 count each bus once over all processes

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index e2cbd47..55f7c3b 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -502,6 +502,7 @@ double gridpack::dynamic_simulation::DSFullFactory::getTotalLoadRealPower(
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -544,6 +545,7 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -566,6 +568,9 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
       }
     }
   }
+  p_network->communicator().sum(total,1);
+  p_network->communicator().sum(pmin,1);
+  p_network->communicator().sum(pmax,1);
 }
 
 /**
-- 
2.43.0

