From 16accbcfe942a3a9cba863363de685f4238e5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 01/14] fix: default the hkYu weights when None is given

---
 src/rfsed/hkYu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index 9c0855e..be2184b 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -122,9 +122,9 @@ def hkYu(FltResult, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed,
 
     if VpMoho is None: VpMoho = 6.5
     if VpSed is None: VpSed = 2.5
-    if w1SubSed is None: w1 = 0.6
-    if w2SubSed is None: w2 = 0.3
-    if w3SubSed is None: w3 = 0.1   
+    if w1SubSed is None: w1SubSed = 0.6
+    if w2SubSed is None: w2SubSed = 0.3
+    if w3SubSed is None: w3SubSed = 0.1   
     #----------------------------------------------------------
     rp=rayp
     Fltrf=FltResult['filteredrf']
-- 
2.43.0


From 69129019dc072fb8280c1fcd34e5024668cb9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 02/14] fix: accumulate the sequential H-K stack over all the
 traces

---
 src/rfsed/hkSeqYeck.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 57ec82e..2b96d6c 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -192,8 +192,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 amppsps = getamp(trdata, t, tpspsSed)
                 #--------------------------------------
                 stemp = (w1Sed * ampps) + (w2Sed * ampppps) - (w3Sed * amppsps)
-                sSed = stemp + s
-            stkSed[z,:] = [Htemp, Ktemp, sSed]
+                s = stemp + s
+            stkSed[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodSed = stkSed[np.argmax(stkSed[:,2]),:]
     #----------------------------------------------------------
@@ -252,9 +252,9 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 ampppps = getamp(trdata, t, tpppsMoho)  
                 amppsps = getamp(trdata, t, tpspsMoho)
                 stemp = (w1Moho * ampps) + (w2Moho * ampppps) - (w3Moho * amppsps)
-                sMoho = stemp + s
+                s = stemp + s
                 #--------------------------------------
-            stkMoho[z,:] = [Htemp, Ktemp, sMoho]
+            stkMoho[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
-- 
2.43.0


From 105dd74fca3483c05a77c34e2965ce5d6793097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 03/14] fix: keep negative values in the returned Moho stack of
 hkSeq

---
 src/rfsed/hkSeqYeck.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 2b96d6c..c949825 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -259,10 +259,11 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
-    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
+    stkplot = stkMoho.copy()
+    for i in range(len(stkplot)):
+        if stkplot[i,2] <= 0:
+            stkplot[i,2] = 0
+    plt.tricontourf(stkplot[:,0], stkplot[:,1], stkplot[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
         label='Best Model %s km %s Vp/Vs'%(bmodMoho[0], bmodMoho[1]))
-- 
2.43.0


From e3b2565560d1f74fa6f1c1709f9769e0034867a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 04/14] fix: keep negative values in the returned Moho stack of
 hkSeqSynth

---
 src/rfsed/SynthAnalysis.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index d4f55bb..6d8806d 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -375,10 +375,11 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
-    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
+    stkplot = stkMoho.copy()
+    for i in range(len(stkplot)):
+        if stkplot[i,2] <= 0:
+            stkplot[i,2] = 0
+    plt.tricontourf(stkplot[:,0], stkplot[:,1], stkplot[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
         label='Best Model %s km %s Vp/Vs'%(bmodMoho[0], bmodMoho[1]))
-- 
2.43.0


From 958e019d8e8be25b89b5a4f73d9541d4e7420065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 05/14] fix: report the Moho maximum with the best Moho model
 in hkSeq

---
 src/rfsed/hkSeqYeck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index c949825..57f11e2 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -280,7 +280,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     H2 = bmodMoho[0]
     K2 = bmodMoho[1] 
     print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, 
-          "Max stack: ", SSed)   
+          "Max stack: ", bmodMoho[2])   
     SequentialHKResult = {'RFSed': rfstreamSed, 'RFSedStack': RFStackedSed,
                           'RFMoho': rfstreamMoho, 'RFMohoStack': RFStackedMoho,
                           'time':t, 'bestmodelSed':bmodSed, 
-- 
2.43.0


From 2c32a1dd5883f5c1924d7e245205be5b494a5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 06/14] fix: report the Moho maximum with the best Moho model
 in hkSeqSynth

---
 src/rfsed/SynthAnalysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index 6d8806d..8b921dc 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -395,7 +395,8 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     plt.close("all")    
     H2 = bmodMoho[0]
     K2 = bmodMoho[1] 
-    print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, "Max stack: ", SSed)   
+    print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, "Max stack: ", 
+          bmodMoho[2])   
     SynthSeqHKResult = {'SynthRFSed': rfSynthSed, 'SynthRFMoho': rfSynthMoho, 
                         'time':t, 'bestmodelSed':bmodSed, 
                         'stackvalueSed':stkSed, 'bestmodelMoho':bmodMoho, 
-- 
2.43.0


From 4196e6c2dd8148bba71ce9f61c8f1bd83bbf6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 07/14] fix: do not clip the stored stack when plotting with
 rmneg

---
 src/rfsed/SynthAnalysis.py | 6 +++---
 src/rfsed/hkSeqYeck.py     | 4 ++--
 src/rfsed/hkYu.py          | 2 +-
 src/rfsed/hkZhu.py         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index 8b921dc..0198266 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -567,7 +567,7 @@ def plothkSynth(HKResultSynth, savepath, g = [75.,10., 15., 2.5], rmneg = None,
         maxtime=10
         span=0.1
         timestep=1
-    stk = HKResultSynth['stackvalues']
+    stk = HKResultSynth['stackvalues'].copy()
     H = HKResultSynth['H']
     K = HKResultSynth['K']
     plt.figure(figsize=(18, 6)) 
@@ -689,7 +689,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SynthSeqHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SynthSeqHKResult['stackvalueSed']
+    stkSed=SynthSeqHKResult['stackvalueSed'].copy()
     
     rfstream=SynthSeqHKResult['SynthRFSed']
     rp = SynthSeqHKResult['RayP']
@@ -772,7 +772,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SynthSeqHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SynthSeqHKResult['stackvalueMoho']
+    stkMoho=SynthSeqHKResult['stackvalueMoho'].copy()
     rfstream=SynthSeqHKResult['SynthRFMoho']
     rp = rp
     t=SynthSeqHKResult['time']
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 57f11e2..9aa322c 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -342,7 +342,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SequentialHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SequentialHKResult['stackvalueSed']
+    stkSed=SequentialHKResult['stackvalueSed'].copy()
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFSedStack']
         rp = kilometer2degrees(1) * SequentialHKResult['AvgSlow']
@@ -552,7 +552,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SequentialHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SequentialHKResult['stackvalueMoho']
+    stkMoho=SequentialHKResult['stackvalueMoho'].copy()
 
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFMohoStack']
diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index be2184b..e6afcb9 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -258,7 +258,7 @@ def plothkYu(hkYuResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
     bmodSubSed = hkYuResult['bestmodelSubSed']
     H2 = bmodSubSed[0]
     K2 = bmodSubSed[1]
-    stkSubSed=hkYuResult['stackvaluesSubSed']
+    stkSubSed=hkYuResult['stackvaluesSubSed'].copy()
     term1= ((K2/VpMoho)**2 - rp**2)**0.5
     term2= ((1/VpMoho)**2 - rp**2)**0.5
     tps = H2 * (term1 - term2)
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 1b4b52a..06dc98f 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -277,7 +277,7 @@ def plothk(HKResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
         timestep=1
     H=HKResult['H']
     K=HKResult['K']
-    stk = HKResult['stackvalues']
+    stk = HKResult['stackvalues'].copy()
     plt.figure(figsize=(18, 6)) 
     gs = gridspec.GridSpec(1, 3, width_ratios=[6,4,4])
     #-----Remove the stack values that is lower than zero------
-- 
2.43.0


From b67bdda92fa18f38f71560cbde077e46a7f7cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 08/14] fix: close the figures of unstacked H-K plots

---
 src/rfsed/hkSeqYeck.py | 3 ++-
 src/rfsed/hkZhu.py     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 9aa322c..6c191cf 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -745,4 +745,5 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
         filename = "%s/%s_%s_%s.%s"%(savepath, staname, comp, 'Moho', format)
         plt.savefig(filename , format=format, transparent=False, dpi=250, 
                     bbox_inches = 'tight', pad_inches=0.1)
-        plt.show()
\ No newline at end of file
+        plt.show()
+        plt.close('all')
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 06dc98f..abe2cd6 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -441,3 +441,4 @@ def plothk(HKResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
         plt.savefig(filename , format=format, transparent=False,\
             dpi=250, bbox_inches = 'tight', pad_inches=0.1)
         plt.show()
+        plt.close('all')
-- 
2.43.0


From 1eb1f813770d947c0b0392c06ed541f99fc441da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 09/14] fix: release the worker pool when computing the event
 times fails

---
 src/rfsed/ExtractEqMultiproc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/ExtractEqMultiproc.py b/src/rfsed/ExtractEqMultiproc.py
index 691a2b0..8d09fab 100644
--- a/src/rfsed/ExtractEqMultiproc.py
+++ b/src/rfsed/ExtractEqMultiproc.py
@@ -169,9 +169,11 @@ def Get_Eqtimes_multiproc(catalog, nproc):
 
     nproc = nproc
     pool = multiprocessing.get_context('fork').Pool(nproc)
-    timewindow = pool.map(Eq_times, catalog)
-    pool.close()
-    pool.join()
+    try:
+        timewindow = pool.map(Eq_times, catalog)
+    finally:
+        pool.close()
+        pool.join()
     return timewindow
 #----------------------------------------------
 
-- 
2.43.0


From 1e3ca8a7153d3e8547f66eb24820fa3b0693fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 10/14] fix: return the misfit of the last iteration of the
 iterative deconvolution

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index f38f6fc..f2ca449 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -204,7 +204,7 @@ def deconv_iterative(uin, win, dt, nt=None, preonset=10, gaussian=2.0,
     p_flt = gfilter(p0, nfft, gaussF, dt)
     p_flt = phaseshift(p_flt, nfft, dt, preonset)
     RFI = p_flt[0:nt]
-    rms = rms[0:it - 1]
+    rms = rms[0:it]
 
     return RFI, rms, it 
     
-- 
2.43.0


From 6f17faec02d2de518383c48499773077f83c398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 11/14] fix: raise the builtin ValueError from synrf

---
 src/rfsed/synrf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index f2ca449..f483f1b 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -73,7 +73,6 @@ from math import pi
 from numpy.fft import fft, ifft
 
 from obspy import Trace, Stream
-class ValueError(Exception): ...
 
 def gaussFilter(dt, nft, gaussian):
     df = 1.0 / (nft * dt)
-- 
2.43.0


From 51d7e72f6b5e3e5efa6d285581218c593ce044e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 12/14] fix: find the P onset sample when no sample time is
 exactly zero

---
 src/rfsed/WaveformFitting.py          | 3 +--
 src/rfsed/WaveformFittingMultiproc.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 731fc1b..9cde03c 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -133,8 +133,7 @@ def WaveformFitting(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset = abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    tzero=int(np.argmin(np.abs(t)))
     start=tzero
     end= 25/delta
     end=tzero + int(end)
diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 185c62d..aa1c8a7 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -119,8 +119,7 @@ def WaveformPara(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset=abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    tzero=int(np.argmin(np.abs(t)))
     start=tzero
     end= 25/delta
     end=tzero + int(end)
-- 
2.43.0


From 474a30b2c625682d53a280e9ee169defcdb31b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 13/14] fix: do not start more waveform fitting workers than
 processors

With nproc above the processor count every worker holds about 1 GB, the
machine runs out of memory, a worker is killed and the pool waits for its
result for ever.
---
 src/rfsed/WaveformFittingMultiproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index aa1c8a7..48e49ba 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -257,7 +257,8 @@ def run_waveformfitting(nproc, HMoho, ModelParams):
     >>> WaveformFitResults = run_waveformfitting(nproc, HMoho, ModelParams)
     """
 
-    nproc = nproc
+    # More workers than processors only multiply the memory in use
+    nproc = min(nproc, multiprocessing.cpu_count())
     HMoho = HMoho
     with multiprocessing.Pool(nproc) as pool:
         inputparams=((inputparams, ModelParams) for inputparams in 
-- 
2.43.0


From 40f103966988be895e7397e723e1fc61ffcf82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 14/14] fix: PlotWaveformFitting applies the weights it is
 given

The weights passed to PlotWaveformFitting were ignored: the combined
goodness of fit was always that of the weights of the fitting run.
---
 src/rfsed/WaveformFitting.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 9cde03c..e8f8324 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -296,15 +296,18 @@ def PlotWaveformFitting(WaveformFitting, wtCorr, wtRMSE, wtPG, savepath, format)
     KMoho=WaveformFitting['KMoho']
     HMoho=WaveformFitting['HMoho']
     gaussian=WaveformFitting['gaussian']
+    # Goodness of fit with the weights given for this plot
+    Corr = WaveformSolutions[:,0]
+    RMSE = WaveformSolutions[:,1]
+    PG = WaveformSolutions[:,2]
+    GoF = wtCorr*(Corr/max(Corr)) + wtRMSE*(1-RMSE/max(RMSE)) + wtPG*(PG/max(PG))
+    WaveformSolutions = WaveformSolutions.copy()
+    WaveformSolutions[:,3] = GoF
     BestModel_Correlation = WaveformSolutions[np.argmax(WaveformSolutions[:,0]),
                                               :]
     BestModel_RMSE = WaveformSolutions[np.argmin(WaveformSolutions[:,1]),:]
     BestModel_PG = WaveformSolutions[np.argmax(WaveformSolutions[:,2]),:]
     BestModel_GoF = WaveformSolutions[np.argmax(WaveformSolutions[:,3]),:]
-    Corr = WaveformSolutions[:,0]
-    RMSE = WaveformSolutions[:,1]
-    PG = WaveformSolutions[:,2]
-    GoF = WaveformSolutions[:,3]
     #----------------------------------------------------------
     labels=['Correlation Coefficient', 'Root-mean-square Error', 
             'Phase Goodness of Fit', 'Overall Goodness of Fit']
-- 
2.43.0

