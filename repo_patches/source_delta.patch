From 09be4b247d13fd5f7cc36bfb8672364bba1e1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:00 +0000
Subject: [PATCH 01/14] fix: use the Z width in the Z propagator of the
 four-fermion processes

The constructors of these processes take and store the width of the Z
boson but only ever set the mass of the Z propagator, so the propagator
kept a width of zero.  The amplitude was independent of the width that
was asked for and diverged on the Z pole.
---
 SM/dddd2.cpp     | 1 +
 SM/ddee.cpp      | 1 +
 SM/ddnn.cpp      | 1 +
 SM/ddss.cpp      | 1 +
 SM/deed.cpp      | 1 +
 SM/dnnd.cpp      | 1 +
 SM/dsds.cpp      | 1 +
 SM/eeee.cpp      | 1 +
 SM/eeee2.cpp     | 1 +
 SM/eemm.cpp      | 1 +
 SM/eenene.cpp    | 1 +
 SM/eenmnm.cpp    | 1 +
 SM/emem.cpp      | 1 +
 SM/enenee.cpp    | 1 +
 SM/enmenm.cpp    | 1 +
 SM/nenenene.cpp  | 1 +
 SM/nenenene2.cpp | 1 +
 SM/nenenmnm.cpp  | 1 +
 SM/nenmnenm.cpp  | 1 +
 SM/ucuc.cpp      | 1 +
 SM/udud.cpp      | 1 +
 SM/ueeu.cpp      | 1 +
 SM/unnu.cpp      | 1 +
 SM/usus.cpp      | 1 +
 SM/uucc.cpp      | 1 +
 SM/uudd.cpp      | 1 +
 SM/uuee.cpp      | 1 +
 SM/uunn.cpp      | 1 +
 SM/uuss.cpp      | 1 +
 SM/uuuu.cpp      | 1 +
 SM/uuuu2.cpp     | 1 +
 31 files changed, 31 insertions(+)

diff --git a/SM/dddd2.cpp b/SM/dddd2.cpp
index 954523f..5a0c0d2 100755
--- a/SM/dddd2.cpp
+++ b/SM/dddd2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/ddee.cpp b/SM/ddee.cpp
index 3ae71bf..0b8853d 100755
--- a/SM/ddee.cpp
+++ b/SM/ddee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/ddnn.cpp b/SM/ddnn.cpp
index 22ce0b8..ea7d1ea 100755
--- a/SM/ddnn.cpp
+++ b/SM/ddnn.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/ddss.cpp b/SM/ddss.cpp
index f4ee478..27bf491 100755
--- a/SM/ddss.cpp
+++ b/SM/ddss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/deed.cpp b/SM/deed.cpp
index a4e93f6..11407e4 100755
--- a/SM/deed.cpp
+++ b/SM/deed.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/dnnd.cpp b/SM/dnnd.cpp
index eba29ab..116d614 100755
--- a/SM/dnnd.cpp
+++ b/SM/dnnd.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/dsds.cpp b/SM/dsds.cpp
index ea162fa..9b516d3 100755
--- a/SM/dsds.cpp
+++ b/SM/dsds.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/eeee.cpp b/SM/eeee.cpp
index 320a861..6d972b0 100755
--- a/SM/eeee.cpp
+++ b/SM/eeee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eeee2.cpp b/SM/eeee2.cpp
index 3b1ae2f..62cecc8 100755
--- a/SM/eeee2.cpp
+++ b/SM/eeee2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eemm.cpp b/SM/eemm.cpp
index 3b045ea..cf8bc91 100755
--- a/SM/eemm.cpp
+++ b/SM/eemm.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eenene.cpp b/SM/eenene.cpp
index fddc1fb..bda0717 100755
--- a/SM/eenene.cpp
+++ b/SM/eenene.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/eenmnm.cpp b/SM/eenmnm.cpp
index b26e696..79b7c0e 100755
--- a/SM/eenmnm.cpp
+++ b/SM/eenmnm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/emem.cpp b/SM/emem.cpp
index 1b23d34..b9884a6 100755
--- a/SM/emem.cpp
+++ b/SM/emem.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/enenee.cpp b/SM/enenee.cpp
index 8e08123..66662e8 100755
--- a/SM/enenee.cpp
+++ b/SM/enenee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/enmenm.cpp b/SM/enmenm.cpp
index 8ada286..0a951b9 100755
--- a/SM/enmenm.cpp
+++ b/SM/enmenm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/nenenene.cpp b/SM/nenenene.cpp
index 9d3957d..ab4b36c 100755
--- a/SM/nenenene.cpp
+++ b/SM/nenenene.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene::set_masses(const ldouble& massW){
diff --git a/SM/nenenene2.cpp b/SM/nenenene2.cpp
index 2823413..1f27b59 100755
--- a/SM/nenenene2.cpp
+++ b/SM/nenenene2.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene2::set_masses(const ldouble& massW){
diff --git a/SM/nenenmnm.cpp b/SM/nenenmnm.cpp
index 9953c2e..6804144 100755
--- a/SM/nenenmnm.cpp
+++ b/SM/nenenmnm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenmnm::set_masses(const ldouble& massW){
diff --git a/SM/nenmnenm.cpp b/SM/nenmnenm.cpp
index a2a834c..2ef37a5 100755
--- a/SM/nenmnenm.cpp
+++ b/SM/nenmnenm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenmnenm::set_masses(const ldouble& massW){
diff --git a/SM/ucuc.cpp b/SM/ucuc.cpp
index 319db46..9a4629a 100755
--- a/SM/ucuc.cpp
+++ b/SM/ucuc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/udud.cpp b/SM/udud.cpp
index d50c75d..edd680b 100755
--- a/SM/udud.cpp
+++ b/SM/udud.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/ueeu.cpp b/SM/ueeu.cpp
index bb58c11..b77c26b 100755
--- a/SM/ueeu.cpp
+++ b/SM/ueeu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/unnu.cpp b/SM/unnu.cpp
index 0aa75de..b56686e 100755
--- a/SM/unnu.cpp
+++ b/SM/unnu.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/usus.cpp b/SM/usus.cpp
index d783c1a..e7c1316 100755
--- a/SM/usus.cpp
+++ b/SM/usus.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uucc.cpp b/SM/uucc.cpp
index 09c7b77..82527b0 100755
--- a/SM/uucc.cpp
+++ b/SM/uucc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uudd.cpp b/SM/uudd.cpp
index 89698fc..193f818 100755
--- a/SM/uudd.cpp
+++ b/SM/uudd.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuee.cpp b/SM/uuee.cpp
index c08c2d3..702596f 100755
--- a/SM/uuee.cpp
+++ b/SM/uuee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uunn.cpp b/SM/uunn.cpp
index 6518114..cfb6bd9 100755
--- a/SM/uunn.cpp
+++ b/SM/uunn.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/uuss.cpp b/SM/uuss.cpp
index 2ff1bcf..8b28182 100755
--- a/SM/uuss.cpp
+++ b/SM/uuss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu.cpp b/SM/uuuu.cpp
index db629cc..0da45b5 100755
--- a/SM/uuuu.cpp
+++ b/SM/uuuu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu2.cpp b/SM/uuuu2.cpp
index cc54632..6c9b24c 100755
--- a/SM/uuuu2.cpp
+++ b/SM/uuuu2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
-- 
2.43.0


From c20ef409b00dc78949a6f8a3bc151b3426bf2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:00 +0000
Subject: [PATCH 02/14] fix: store the W mass in set_masses of the quark-Higgs
 processes

set_masses takes the W mass but did not store it, so the coupling kept
using the W mass given to the constructor.
---
 SM/dAdh.cpp | 1 +
 SM/dgdh.cpp | 1 +
 SM/hgdd.cpp | 1 +
 SM/hguu.cpp | 1 +
 SM/uAuh.cpp | 1 +
 SM/uguh.cpp | 1 +
 6 files changed, 6 insertions(+)

diff --git a/SM/dAdh.cpp b/SM/dAdh.cpp
index 340ff04..f74c2f0 100755
--- a/SM/dAdh.cpp
+++ b/SM/dAdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dAdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/dgdh.cpp b/SM/dgdh.cpp
index 9bb48b4..bc610ca 100755
--- a/SM/dgdh.cpp
+++ b/SM/dgdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dgdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/hgdd.cpp b/SM/hgdd.cpp
index 91e6b14..dbf53eb 100755
--- a/SM/hgdd.cpp
+++ b/SM/hgdd.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hgdd::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(md);
     p4.set_mass(md);
diff --git a/SM/hguu.cpp b/SM/hguu.cpp
index a5a8d6d..fa6ce84 100755
--- a/SM/hguu.cpp
+++ b/SM/hguu.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hguu::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(mu);
     p4.set_mass(mu);
diff --git a/SM/uAuh.cpp b/SM/uAuh.cpp
index cbe541f..2b83998 100755
--- a/SM/uAuh.cpp
+++ b/SM/uAuh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uAuh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
diff --git a/SM/uguh.cpp b/SM/uguh.cpp
index 47d50c1..b105931 100755
--- a/SM/uguh.cpp
+++ b/SM/uguh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uguh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
-- 
2.43.0


From 8ec8868ab85dfac11b532540c44b54dac3424f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:00 +0000
Subject: [PATCH 03/14] fix: update the Z propagator mass in set_masses of ZWWh
 and ZhWW

set_masses changed the Z mass of the external leg but left the Z
propagator at the mass given to the constructor.
---
 SM/ZWWh.cpp | 1 +
 SM/ZhWW.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SM/ZWWh.cpp b/SM/ZWWh.cpp
index 956c715..721c37b 100755
--- a/SM/ZWWh.cpp
+++ b/SM/ZWWh.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(mh);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = sqrt2*e*e/(2.0*MW*MW*SW*SW);
     preS = pre;
diff --git a/SM/ZhWW.cpp b/SM/ZhWW.cpp
index 9dbf049..c1ecf67 100755
--- a/SM/ZhWW.cpp
+++ b/SM/ZhWW.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(MW);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = e*e/(sqrt2*MW*MW*SW*SW);
     preS = pre;
-- 
2.43.0


From 111805eebfae5b3bfb54af063fdd33fddfd649d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:22 +0000
Subject: [PATCH 04/14] fix: rotate in the right direction for angles outside
 [0,pi]

rotate_momentum took the sine of the angle as the positive root of
1-cos^2, so a rotation by a negative angle, or by one between pi and
2*pi, turned the momentum the other way.
---
 source/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index bf6b6ee..b52685c 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -56,7 +56,7 @@ namespace spinas {
   //Rotate a Momentum by theta around axis given by normalized u[3]={ux,uy,uz}.
   void rotate_momentum(ldouble mom[4], const ldouble u[3], const ldouble& theta){
     ldouble cost = std::cos(theta), ux=u[0], uy=u[1], uz=u[2];
-    ldouble sint = std::sqrt(1.0-cost*cost);
+    ldouble sint = std::sin(theta);
     ldouble R[4][4] = {{1,0,0,0},
 		       {0, cost + ux*ux*(1 - cost), ux*uy*(1 - cost) - uz*sint, ux*uz*(1 - cost) + uy*sint},
 		       {0, ux*uy*(1 - cost) + uz*sint, cost + uy*uy*(1 - cost), uy*uz*(1 - cost) - ux*sint},
-- 
2.43.0


From 3f87e23e9ea335c050f32558f0cd96fde82c1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:22 +0000
Subject: [PATCH 05/14] fix: leave the momentum alone when boosting by zero
 velocity

boost_momentum divides by v^2, so a boost by v=0 turned the momentum
into NaN.
---
 source/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index b52685c..23123ee 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -72,6 +72,7 @@ namespace spinas {
   void boost_momentum(ldouble mom[4], const ldouble v[3]){
     ldouble vx=v[0], vy=v[1], vz=v[2];
     ldouble v2=vx*vx+vy*vy+vz*vz;
+    if(v2==0) return;//No boost.  The matrix below divides by v2.
     ldouble gamma = 1./std::sqrt(1-v2);
     ldouble B[4][4] = {{gamma, -gamma*vx, -gamma*vy, -gamma*vz},
 		       {-gamma*vx, 1 + (gamma - 1)*vx*vx/v2, (gamma - 1)*vx*vy/v2, (gamma - 1)*vx*vz/v2},
-- 
2.43.0


From 81512e75672627796e02bd49635d90e78e42f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:22 +0000
Subject: [PATCH 06/14] fix: compute the derived quantities of a particle built
 from its mass

particle(mass) sets the momentum of a particle at rest but left the
angles and square roots derived from it uninitialised, so the spinors
and momentum matrices of such a particle were garbage.
---
 source/particle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 633c1ed..a0158a4 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -36,7 +36,10 @@ namespace spinas {
   {}
 
   particle::particle(const ldouble& mass):
-    m(mass), p{m,0,0,0}{}
+    m(mass), p{m,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble momentum[4], const ldouble& mass):
     m(mass),p{momentum[0],momentum[1],momentum[2],momentum[3]}
-- 
2.43.0


From 9903c90420ee0c65e08cd5d41a640b12cf0eb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:44 +0000
Subject: [PATCH 07/14] fix: reject spin labels other than 1 and -1 whether or
 not the product was computed before

---
 source/sproduct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sproduct.cpp b/source/sproduct.cpp
index 9cc32d2..adf0317 100755
--- a/source/sproduct.cpp
+++ b/source/sproduct.cpp
@@ -316,6 +316,8 @@ namespace spinas {
   }
   //One massive spinor
   cdouble sproduct::v(const int& spin){
+    if(spin!=1&&spin!=-1)
+      throw std::runtime_error("Incorrect usage of sproduct.val(j).  j must be 1 or -1.");
     if(isLeftMassive){
       if(isRightMassive){
 	throw std::runtime_error("Incorrect usage of sproduct.val(j).  Only one particle must be massive.");
@@ -385,6 +387,8 @@ namespace spinas {
   }
   //Both massive
   cdouble sproduct::v(const int& spinL, const int& spinR){
+    if((spinL!=1&&spinL!=-1)||(spinR!=1&&spinR!=-1))
+      throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  jL and jR must be 1 or -1.");
     if(!isLeftMassive || !isRightMassive){
       throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  Both particles must be massive.");
       return cdouble(0,0);
-- 
2.43.0


From 881992092fda49e9605fbcc773873671996cad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:44 +0000
Subject: [PATCH 08/14] fix: compute sqrt(E-|p|) without cancellation for
 masses small compared to the energy

---
 source/particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index a0158a4..d33dd12 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -81,7 +81,8 @@ namespace spinas {
     s = std::polar(std::sin(theta/2.),phi);
     sc = std::conj(s);
     sqrtEpP = cdouble(std::sqrt(p[0]+pmag),0);
-    sqrtEmP = cdouble(std::sqrt(p[0]-pmag),0);
+    //sqrt(E-|p|) = m/sqrt(E+|p|), without the cancellation when m is small compared to E.
+    sqrtEmP = m==0 ? cdouble(0,0) : cdouble(std::abs(m),0)/sqrtEpP;
     
     //Reset all the calcs.
     //The matrices and spinors
-- 
2.43.0


From 80709c902b064951134b440906ba241a7bc6b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:10 +0000
Subject: [PATCH 09/14] fix: refuse momenta that are not numbers

---
 source/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index d33dd12..9e13d67 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -71,7 +71,7 @@ namespace spinas {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
     pxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
     pmag = std::sqrt(pxymag*pxymag+p[3]*p[3]);
-    if(std::abs(p[0]*p[0]-pmag*pmag-m*m) > epsilon){
+    if(!(std::abs(p[0]*p[0]-pmag*pmag-m*m) <= epsilon)){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
     }
     theta = atan2(pxymag,p[3]);
-- 
2.43.0


From afb5874cb009a5ec2b47e1d9c51a633f956906b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 10/14] fix: write matrices and vectors with numbers
 Mathematica reads back

---
 source/cmatrix.cpp | 9 +++++----
 source/cvector.cpp | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cmatrix.cpp b/source/cmatrix.cpp
index df8e7e9..665c6f4 100755
--- a/source/cmatrix.cpp
+++ b/source/cmatrix.cpp
@@ -28,6 +28,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "types.h"
 //#include "aliases.h"
+#include "utilities.h"
 #include "cmatrix.h"
 
 namespace spinas {
@@ -217,10 +218,10 @@ namespace spinas {
   
   std::string cmatrix::to_Mathematica_string() const {
     std::stringstream tmpStr;
-    tmpStr<<"{ { "<<std::real(mat[0][0])<<" + I* "<<std::imag(mat[0][0])<<
-      " , "<<std::real(mat[0][1])<<" + I* "<<std::imag(mat[0][1])<<
-      " } , { "<<std::real(mat[1][0])<<" + I* "<<std::imag(mat[1][0])<<
-      " , "<<std::real(mat[1][1])<<" + I* "<<std::imag(mat[1][1])<<" } }";
+    tmpStr<<"{ { "<<double_to_Mathematica_string(std::real(mat[0][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[0][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][1]))<<
+      " } , { "<<double_to_Mathematica_string(std::real(mat[1][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[1][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][1]))<<" } }";
     return tmpStr.str();
   }
   
diff --git a/source/cvector.cpp b/source/cvector.cpp
index 8be3ba7..87c6d12 100755
--- a/source/cvector.cpp
+++ b/source/cvector.cpp
@@ -26,6 +26,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "types.h"
 //#include "aliases.h"
+#include "utilities.h"
 #include "cmatrix.h"
 #include "cvector.h"
 
@@ -144,8 +145,8 @@ namespace spinas {
   std::string cvector::to_Mathematica_string() const {
     std::stringstream tmpStr;
     tmpStr<<"{ "
-	  <<std::real(vec[0])<<" + I * "<<std::imag(vec[0])<<
-      " , "<<std::real(vec[1])<<" + I * "<<std::imag(vec[1])<<
+	  <<double_to_Mathematica_string(std::real(vec[0]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[0]))<<
+      " , "<<double_to_Mathematica_string(std::real(vec[1]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[1]))<<
       " }";
     return tmpStr.str();
   }
-- 
2.43.0


From 1bfda1fd67af86514a528ce27855f635d2c57d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:22 +0000
Subject: [PATCH 11/14] fix: compute the ladder generators without cancellation
 for masses small compared to the energy

---
 source/particle.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 9e13d67..2b907ff 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -489,7 +489,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_lu() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::abs(m)/(p[0]+pmag);
 
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
@@ -498,7 +498,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_lu() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*(p[0]+pmag)/std::abs(m);
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
 		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
@@ -514,7 +514,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::abs(m)/(p[0]+pmag);
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
@@ -523,7 +523,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*(p[0]+pmag)/std::abs(m);
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
@@ -542,7 +542,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre = half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre = half*(p[0]+pmag)/std::abs(m);
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
@@ -551,7 +551,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre=half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre=half*std::abs(m)/(p[0]+pmag);
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
@@ -567,7 +567,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*(p[0]+pmag)/std::abs(m);
 
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
@@ -576,7 +576,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::abs(m)/(p[0]+pmag);
     
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-- 
2.43.0


From c6d0d7368d0d3f2d73ef045ef46119d3adbc6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:46 +0000
Subject: [PATCH 12/14] fix: give the electron propagator of nnWW and nWWn the
 electron mass at construction

It was built with mass zero, so amplitudes of a new object ignored the
electron mass until set_masses was called.
---
 SM/nWWn.cpp | 2 +-
 SM/nnWW.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/nWWn.cpp b/SM/nWWn.cpp
index 2e0a7ed..944a5b9 100755
--- a/SM/nWWn.cpp
+++ b/SM/nWWn.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nWWn::nWWn(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/nnWW.cpp b/SM/nnWW.cpp
index 6b5a525..9f16a21 100755
--- a/SM/nnWW.cpp
+++ b/SM/nnWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nnWW::nnWW(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
-- 
2.43.0


From 48a737a14e5cd26e4ce637c80248d2abf687779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:24 +0000
Subject: [PATCH 13/14] fix: compute the products [241> and <241] in the
 one-call eAeh::amp2

They were declared but never set, so two terms of the amplitude were
left out of the square.
---
 SM/eAeh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SM/eAeh.cpp b/SM/eAeh.cpp
index df427c5..dd1019c 100755
--- a/SM/eAeh.cpp
+++ b/SM/eAeh.cpp
@@ -171,6 +171,8 @@ namespace spinas {
       a23[i] = p2.langle()*p3.rangle(2*i-1);
       s243[i] = p2.lsquare()*p4.umat()*p3.rangle(2*i-1);
       a243[i] = p2.langle()*p4.lmat()*p3.rsquare(2*i-1);
+      s241[i] = p2.lsquare()*p4.umat()*p1.rangle(2*i-1);
+      a241[i] = p2.langle()*p4.lmat()*p1.rsquare(2*i-1);
     }
     s2342 = p2.lsquare()*p3.umat()*p4.lmat()*p2.rsquare();
     a2342 = p2.langle()*p3.lmat()*p4.umat()*p2.rangle();
-- 
2.43.0


From c4a59aefe6794c893f0529dd7e8e93ed5baa1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:32 +0000
Subject: [PATCH 14/14] fix: compute the angles of a momentum in the precision
 of its components

---
 source/particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/particle.cpp b/source/particle.cpp
index 2b907ff..731d957 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -68,6 +68,7 @@ namespace spinas {
 
   //Calc particle properties
   void particle::update(){
+    using std::atan2;//Otherwise the double version and its precision.
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
     pxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
     pmag = std::sqrt(pxymag*pxymag+p[3]*p[3]);
-- 
2.43.0

