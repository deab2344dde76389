From e7dafe4a03ecf01a6d19d7f6222a5570aa72f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 01/39] fix: AdaptiveSignalPOD keeps the input and output DOE
 paired when the model fails

The candidate was added to the input DOE before the physical model was
called: when the model raised, the input DOE had one point more than the
output DOE and the study could not be run again.
---
 otpod/_adaptive_signal_pod.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..5561a51 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -342,17 +342,16 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             # get the best candidate
             candidateOpt = doeCandidate[indexOpt]
-            # add new point to DOE
-            self._input.add(candidateOpt)
-            # add the signal computed by the physical model
+            # compute the signal with the physical model, which may fail
+            newSignal = self._physicalModel(candidateOpt)
             if self._boxCox:
-                self._signals.add(
-                    self._boxCoxTransform(
-                        self._physicalModel(candidateOpt) + [self._shift]
-                    )
-                )
-            else:
-                self._signals.add(self._physicalModel(candidateOpt))
+                newSignal = self._boxCoxTransform(newSignal + [self._shift])
+            # add the new point and its signal to the DOE, always together
+            newInput = ot.Sample(self._input)
+            newInput.add(candidateOpt)
+            newSignals = ot.Sample(self._signals)
+            newSignals.add(newSignal)
+            self._input, self._signals = newInput, newSignals
             # remove added candidate from the doeCandidate
             doeCandidate.erase(indexOpt)
             if self._verbose:
-- 
2.43.0


From 772ec8684c9e63a4286bf3b9a014473c76ecb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 02/39] fix: AdaptiveSignalPOD re-optimizes the covariance
 model when Q2 is below 0.95

The optimization settings belong to the GaussianProcessFitter, the
GaussianProcessRegression does not have them: run() stopped with an
AttributeError as soon as the updated kriging model had Q2 < 0.95.
---
 otpod/_adaptive_signal_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 5561a51..46b1f69 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -376,10 +376,12 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter.setOptimizeParameters(True)
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
                 )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From d2e3b892079c4b136ff233a5f9408917f948cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 03/39] fix: AdaptiveSignalPOD keeps the normalization of its
 kriging model

drawValidationGraph() and the PLI classes need it and raised an
AttributeError for an AdaptiveSignalPOD.
---
 otpod/_adaptive_signal_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 46b1f69..fa1cefe 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -223,6 +223,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
         # Get kriging results
         self._krigingResult = algoKriging.getResult()
+        self._transformation = transformation
         self._covarianceModel = self._krigingResult.getCovarianceModel()
         try:
             self._basis = self._krigingResult.getBasis()
@@ -386,6 +387,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             # Get kriging results
             self._krigingResult = algoKriging.getResult()
+            self._transformation = transformation
             self._covarianceModel = self._krigingResult.getCovarianceModel()
             try:
                 self._basis = self._krigingResult.getBasis()
-- 
2.43.0


From 8c6f70086a8241d0e332b9542d6b379b043438f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 04/39] fix: kriging POD results always come from one complete
 run and its defect sizes

run() filled the POD sample in place: after an interrupted run the POD at
confidence level was computed from a half filled sample, and mixed with
the mean POD of the previous run. The results were also read with the
current defect sizes: changing them after run() gave wrong curves.
---
 otpod/_adaptive_signal_pod.py | 20 ++++++-------------
 otpod/_kriging_pod.py         | 28 +++++++++++++--------------
 otpod/_kriging_tools.py       | 36 ++++++++++++++++++++++++-----------
 3 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index fa1cefe..c0d4470 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -6,7 +6,6 @@ import os
 import openturns as ot
 import numpy as np
 from ._pod import POD
-from scipy.interpolate import interp1d
 from ._progress_bar import updateProgress
 from ._kriging_tools import KrigingBase
 import logging
@@ -332,7 +331,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
                 # check if the result is better or not
                 if newCriterion < criterion:
-                    self._PODPerDefect = PODPerDefect
+                    PODPerDefectOpt = PODPerDefect
                     criterion = newCriterion
                     indexOpt = icand
 
@@ -402,11 +401,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             if self._graph:
                 # create the interpolate function of the POD model
-                meanPOD = self._PODPerDefect.computeMean()
-                interpModel = interp1d(
-                    self._defectSizes, np.array(meanPOD), kind="linear"
-                )
-                self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+                self._setPODResults(PODPerDefectOpt, self._defectSizes)
                 # The POD at confidence level is built in getPODCLModel() directly
                 fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
                 plt.draw()
@@ -426,11 +421,11 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         if self._verbose:
             print("\nStart computing the POD with the last updated kriging model")
         # compute the sample containing the POD values for all defect
-        self._PODPerDefect = ot.Sample(
+        PODPerDefect = ot.Sample(
             self._simulationSize * self._samplingSize, self._defectNumber
         )
         for i, defect in enumerate(self._defectSizes):
-            self._PODPerDefect[:, i] = self._computePODSamplePerDefect(
+            PODPerDefect[:, i] = self._computePODSamplePerDefect(
                 defect,
                 self._detectionBoxCox,
                 self._krigingResult,
@@ -442,11 +437,8 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             if self._verbose:
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
-        # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
-        # create the interpolate function of the POD model
-        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
-        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        # keep the results only now that they are all available
+        self._setPODResults(PODPerDefect, self._defectSizes)
 
         # The POD at confidence level is built in getPODCLModel() directly
 
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..0fd942a 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -5,7 +5,6 @@ __all__ = ["KrigingPOD"]
 import openturns as ot
 import numpy as np
 from ._pod import POD
-from scipy.interpolate import interp1d
 from ._progress_bar import updateProgress
 from ._kriging_tools import KrigingBase
 import logging
@@ -175,15 +174,14 @@ class KrigingPOD(POD, KrigingBase):
             algoKriging.run()
             if self._verbose:
                 print("Kriging optimizer completed")
-            self._krigingResult = algoKriging.getResult()
-            self._transformation = transformation
+            krigingResult = algoKriging.getResult()
+        else:
+            krigingResult = self._krigingResult
 
         # compute the Q2
-        self._Q2 = self._computeQ2(
-            self._input, self._signals, self._krigingResult, transformation
-        )
+        Q2 = self._computeQ2(self._input, self._signals, krigingResult, transformation)
         if self._verbose:
-            print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
+            print("kriging validation Q2 (>0.9): {:0.4f}".format(Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
         if self._distribution is None:
@@ -195,14 +193,14 @@ class KrigingPOD(POD, KrigingBase):
             self._distribution = ot.JointDistribution(marginals)
 
         # compute the sample containing the POD values for all defect
-        self._PODPerDefect = ot.Sample(
+        PODPerDefect = ot.Sample(
             self._simulationSize * self._samplingSize, self._defectNumber
         )
         for i, defect in enumerate(self._defectSizes):
-            self._PODPerDefect[:, i] = self._computePODSamplePerDefect(
+            PODPerDefect[:, i] = self._computePODSamplePerDefect(
                 defect,
                 self._detectionBoxCox,
-                self._krigingResult,
+                krigingResult,
                 transformation,
                 self._distribution,
                 self._simulationSize,
@@ -211,11 +209,11 @@ class KrigingPOD(POD, KrigingBase):
             if self._verbose:
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
-        # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
-        # create the interpolate function of the POD model
-        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
-        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        # keep the results only now that they are all available
+        self._setPODResults(PODPerDefect, self._defectSizes)
+        self._krigingResult = krigingResult
+        self._transformation = transformation
+        self._Q2 = Q2
 
         # The POD at confidence level is built in getPODCLModel() directly
 
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..71155e6 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -49,7 +49,7 @@ class KrigingBase:
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -63,8 +63,8 @@ class KrigingBase:
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -72,8 +72,8 @@ class KrigingBase:
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -89,27 +89,27 @@ class KrigingBase:
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
@@ -380,6 +380,20 @@ class KrigingBase:
         else:
             self._verbose = verbose
 
+    def _setPODResults(self, PODPerDefect, defectSizes):
+        """
+        Set the POD results. They are replaced all together, so that the POD model
+        and the POD at confidence level always come from the same computation.
+        """
+        # compute the mean POD
+        meanPOD = PODPerDefect.computeMean()
+        # create the interpolate function of the POD model
+        interpModel = interp1d(defectSizes, np.array(meanPOD), kind="linear")
+        PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODPerDefect = PODPerDefect
+        self._PODdefectSizes = defectSizes
+        self._PODmodel = PODmodel
+
     def _buildKrigingAlgo(self, inputSample, outputSample):
         """
         Build the functional chaos algorithm without running it.
-- 
2.43.0


From 431e26a5a065382a421017aa43ad535413197ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 05/39] fix: setDefectSizes changes nothing when it rejects the
 given sizes

The sizes were kept before being checked: after the ValueError the study
had the rejected sizes with the number of the previous ones.
---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 71155e6..a406de5 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..d8b869c 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From e4af8a0f5edd03e6fb7080273ffcacb0c07b902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 06/39] fix: Sobol indices are drawn with the defect sizes they
 were computed for

---
 otpod/_sobol_indices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index d8b869c..1cb6c84 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -167,6 +167,7 @@ class SobolIndices:
             )
 
         self._sa.setUseAsymptoticDistribution(True)
+        self._saDefectSizes = self._defectSizes
 
     def getSensitivityResult(self):
         """
@@ -300,7 +301,7 @@ class SobolIndices:
         # get the indices values that can be computed
         xplot = ot.Sample(0, 1)
         yplot = ot.Sample(0, self._dim)
-        for i, defect in enumerate(self._defectSizes):
+        for i, defect in enumerate(self._saDefectSizes):
             try:
                 if order == "first":
                     yplot.add(self._sa.getFirstOrderIndices(i))
-- 
2.43.0


From 2dd6fa620a52a68c7296ce3158b54a915460692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 07/39] fix: PLI results always come from one complete run and
 its defect sizes

run() filled the indices in place: before run() and after an interrupted
one, getIndices() returned null indices. setDefectSizes() erased the
indices of the previous run but not the list of defects they are for.
---
 otpod/_pli_pod.py | 53 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index d11f708..f0d7dba 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -62,20 +62,8 @@ class PLIBase:
             50, 1e-5, ot.GaussKronrodRule(ot.GaussKronrodRule.G7K15)
         )
 
-        # initialize result matrix
-        self._initializeResultMatrix()
-
-    def _initializeResultMatrix(self):
-        # initialize 3d matrix to save results for display
-        marginals = np.arange(0, self._dim, 1)
-        deltaMesh, defectMesh, marginalMesh = np.meshgrid(
-            marginals, self._delta, self._defectSizes
-        )
-        # matrix order [delta, marginal, defect]
-        self._indices = np.zeros((self._delta.shape[0], self._dim, self._defectNumber))
-
-        # initialize a list to store the pli object for each defect
-        self._pli = [object] * self._defectNumber
+        # the results are available after the run only
+        self._indices = None
 
     def _runMonteCarlo(self, defect):
         # set a parametric function where the first parameter = given defect
@@ -109,7 +97,12 @@ class PLIBase:
         greater than 0.999, then the indices are not computed.
         """
         # initialize a list to store the indices for which the PLI are computed
-        self._keepedDefect = np.arange(0, self._defectNumber, 1).tolist()
+        keepedDefect = np.arange(0, self._defectNumber, 1).tolist()
+        # initialize 3d matrix to save results for display
+        # matrix order [delta, marginal, defect]
+        indices = np.zeros((self._delta.shape[0], self._dim, self._defectNumber))
+        # initialize a list to store the pli object for each defect
+        pli = [object] * self._defectNumber
 
         for idefect in range(self._defectSizes.shape[0]):
 
@@ -117,19 +110,25 @@ class PLIBase:
             pf = resultMonteCarlo.getProbabilityEstimate()
 
             if pf > 1e-3 and pf < 0.999:
-                self._pli[idefect] = self._definePLIAlgorithm(resultMonteCarlo)
-                self._pli[idefect].setGaussKronrod(self._gaussKronrod)
-                self._pli[idefect].run()
+                pli[idefect] = self._definePLIAlgorithm(resultMonteCarlo)
+                pli[idefect].setGaussKronrod(self._gaussKronrod)
+                pli[idefect].run()
 
                 # store the result
-                self._indices[:, :, idefect] = self._pli[idefect].getIndices()
+                indices[:, :, idefect] = pli[idefect].getIndices()
             else:
-                self._keepedDefect.remove(idefect)
+                keepedDefect.remove(idefect)
                 # set not computed indices to nan values
-                self._indices[:, :, idefect] = (
-                    np.zeros(self._indices[:, :, idefect].shape) * np.nan
+                indices[:, :, idefect] = (
+                    np.zeros(indices[:, :, idefect].shape) * np.nan
                 )
 
+        # keep the results only now that they are all available
+        self._indices = indices
+        self._pli = pli
+        self._keepedDefect = keepedDefect
+        self._pliDefectSizes = self._defectSizes
+
         if len(self._keepedDefect) != self._defectNumber:
             logging.warning(
                 "The indices were estimated only for the following defect: "
@@ -165,8 +164,6 @@ class PLIBase:
         self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
-        # update result matrix
-        self._initializeResultMatrix()
 
     def getDefectSizes(self):
         """
@@ -293,6 +290,8 @@ class PLIBase:
             The returned array depends on the given parameter values.
 
         """
+        if self._indices is None:
+            raise Exception("The run method must be launched first.")
         if idelta is None and marginal is None and idefect is None:
             return self._indices[:, :, :]
         elif idelta is None and marginal is None:
@@ -346,7 +345,7 @@ class PLIBase:
             )
             ax.set_title(
                 self.__class__.__name__
-                + " - defect = {:.3f}".format(self._defectSizes[idefect])
+                + " - defect = {:.3f}".format(self._pliDefectSizes[idefect])
             )
             if name is not None:
                 fig.savefig(name, bbox_inches="tight", transparent=True)
@@ -382,8 +381,8 @@ class PLIBase:
             label = "X{}".format(marginal)
 
         extent = (
-            np.min(self._defectSizes[self._keepedDefect]),
-            np.max(self._defectSizes[self._keepedDefect]),
+            np.min(self._pliDefectSizes[self._keepedDefect]),
+            np.max(self._pliDefectSizes[self._keepedDefect]),
             np.min(self._delta),
             np.max(self._delta),
         )
-- 
2.43.0


From 6b0c125323599351761624c4458c9223cf5e3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 08/39] fix: drawMarginal1DPDF draws the perturbed density in
 its own figure

It was drawn in the current axes of pyplot, which may belong to another
figure.
---
 otpod/_pli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..b505dbc 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -485,7 +485,7 @@ class PLI:
         pdfSample = self._perturbedMarginalPDF(
             xSample, marginal, self._deltaValues[idelta, marginal]
         )
-        plt.plot(
+        ax.plot(
             xSample,
             pdfSample,
             "b-",
-- 
2.43.0


From 0dd5a6d43b8693e7b47dea5612dfa253e00fd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 09/39] fix: polynomial chaos POD results always come from one
 complete run

The POD sample was filled in place: after an interrupted run the POD at
confidence level was computed from a half filled sample and mixed with
another mean POD. The results were also read with the current defect
sizes: changing them after run() gave wrong curves.
---
 otpod/_polynomial_chaos_pod.py | 43 ++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..edd4aa7 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -188,10 +188,10 @@ class PolynomialChaosPOD(POD):
             print("Polynomial chaos validation Q2 (>0.8) : {:0.4f}".format(Q2))
 
         # Compute the POD values for each defect sizes
-        self.POD = self._computePOD(self._defectSizes, self._chaosCoefs)
+        POD = self._computePOD(self._defectSizes, self._chaosCoefs)
         # create the interpolate function
-        interpModel = interp1d(self._defectSizes, self.POD, kind="linear")
-        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        interpModel = interp1d(self._defectSizes, POD, kind="linear")
+        PODmodel = ot.PythonFunction(1, 1, interpModel)
 
         ####################### confidence interval ############################
         dof = inputSize - basisSize - 1
@@ -202,18 +202,25 @@ class PolynomialChaosPOD(POD):
         covMatrix = (
             gramBasis.solveLinearSystem(ot.IdentityMatrix(basisSize)) * varEpsilon
         )
-        self._coefsDist = ot.Normal(
+        coefsDist = ot.Normal(
             np.hstack(self._chaosCoefs),
             ot.CovarianceMatrix(covMatrix.getImplementation()),
         )
-        coefsRandom = self._coefsDist.getSample(self._simulationSize)
+        coefsRandom = coefsDist.getSample(self._simulationSize)
 
-        self._PODPerDefect = ot.Sample(self._simulationSize, self._defectNumber)
+        PODPerDefect = ot.Sample(self._simulationSize, self._defectNumber)
         for i, coefs in enumerate(coefsRandom):
-            self._PODPerDefect[i, :] = self._computePOD(self._defectSizes, coefs)
+            PODPerDefect[i, :] = self._computePOD(self._defectSizes, coefs)
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing POD per defect")
 
+        # keep the results only now that they are all available
+        self.POD = POD
+        self._PODmodel = PODmodel
+        self._coefsDist = coefsDist
+        self._PODPerDefect = PODPerDefect
+        self._PODdefectSizes = self._defectSizes
+
     def getPODModel(self):
         """
         Accessor to the POD model.
@@ -246,7 +253,7 @@ class PolynomialChaosPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -260,8 +267,8 @@ class PolynomialChaosPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -269,8 +276,8 @@ class PolynomialChaosPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -286,27 +293,27 @@ class PolynomialChaosPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
-- 
2.43.0


From e3c044c30cfc2fd4e8c78ae26288d042b6bfef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 10/39] fix: the linear POD at confidence level uses the
 simulations of the last run

It used the current simulation size: changing it after run() truncated
the simulations or raised an IndexError.
---
 otpod/_univariate_linear_model_pod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..90ab30c 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -247,10 +247,13 @@ class UnivariateLinearModelPOD(POD):
             )
         else:
             # Linear regression model + gaussian residuals or + bootstrap
+            # the simulation size may have been changed since the run
+            PODcoll = self._PODcollDict
+
             def PODfunction(x):
-                samplePODDef = ot.Sample(self._simulationSize, 1)
-                for i in range(self._simulationSize):
-                    samplePODDef[i] = [self._PODcollDict[i](x[0])]
+                samplePODDef = ot.Sample(len(PODcoll), 1)
+                for i in range(len(PODcoll)):
+                    samplePODDef[i] = [PODcoll[i](x[0])]
                 return samplePODDef.computeQuantilePerComponent(1.0 - confidenceLevel)
 
         PODmodelCl = ot.PythonFunction(1, 1, PODfunction)
-- 
2.43.0


From 466f2ece91d7f114e523d43a9ce4fa5bf036c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 11/39] fix: quantile regression POD results always come from
 one complete run

The bootstrap results were filled in place, and read with the current
quantiles: an interrupted run or a change of the quantiles after run()
gave a wrong POD at confidence level.
---
 otpod/_quantile_regression_pod.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..80a68b1 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -148,7 +148,7 @@ class QuantileRegressionPOD(POD):
         xvalue = np.hstack([0, defectList, defectMax])
         yvalue = np.hstack([0.0, self._quantile, self._quantile.max()])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
-        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        PODmodel = ot.PythonFunction(1, 1, interpModel)
 
         ############ Confidence interval with bootstrap ########################
         # Compute a NsimulationSize defect sizes for all quantiles
@@ -160,7 +160,7 @@ class QuantileRegressionPOD(POD):
         # create a numerical sample which contains for all simulations the
         # defect quantile value. The goal is to compute the QuantilePerComponent
         # of the simulation for each defect quantile (columns)
-        self._defectsPerQuantile = ot.Sample(self._simulationSize, self._quantile.size)
+        defectsPerQuantile = ot.Sample(self._simulationSize, self._quantile.size)
         for i in range(self._simulationSize):
             # generate a sample with replacement within data of the same size
             bootstrapData = bootstrapExp.generate()
@@ -207,10 +207,15 @@ class QuantileRegressionPOD(POD):
                     )
                 )
             # add the quantile in the numerical sample as the ith simulation
-            self._defectsPerQuantile[i, :] = defectList
+            defectsPerQuantile[i, :] = defectList
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
 
+        # keep the results only now that they are all available
+        self._PODmodel = PODmodel
+        self._defectsPerQuantile = defectsPerQuantile
+        self._PODquantile = self._quantile
+
     def getPODModel(self):
         """
         Accessor to the POD model.
@@ -245,7 +250,7 @@ class QuantileRegressionPOD(POD):
         )
 
         xvalue = np.hstack([0, np.array(defectsQuantile), self._defects.getMax()[0]])
-        yvalue = np.hstack([0.0, self._quantile, self._quantile.max()])
+        yvalue = np.hstack([0.0, self._PODquantile, self._PODquantile.max()])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From b65bd320b18a666b19781f3329b75dfceccf32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 12/39] fix: QuantileRegressionPOD reports the Box Cox
 parameter of the data

Each bootstrap resample overwrote it: getBoxCoxParameter() and
drawBoxCoxLikelihood() gave the result of the last random resample.
---
 otpod/_pod.py                     | 9 +++++----
 otpod/_quantile_regression_pod.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..1b61367 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -296,6 +296,7 @@ class POD(object):
         saturationThres,
         boxCox,
         censored,
+        keepBoxCox=True,
     ):
         """
         Run common preliminary analysis to all methods to build POD.
@@ -321,12 +322,12 @@ class POD(object):
             if signals.getMin()[0] < 0:
                 shift = -signals.getMin()[0] + 100
             # optimization required, get optimal lambda without graph
-            self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
-                inputSample, signals, shift
-            )
+            lambdaBoxCox, graphBoxCox = computeBoxCox(inputSample, signals, shift)
+            if keepBoxCox:
+                self._lambdaBoxCox, self._graphBoxCox = lambdaBoxCox, graphBoxCox
 
             # Transformation of data
-            boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
+            boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
             signals = boxCoxTransform(signals + shift)
             if censored:
                 if noiseThres is not None:
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 80a68b1..a37e95d 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -173,6 +173,7 @@ class QuantileRegressionPOD(POD):
                 self._saturationThres,
                 self._boxCox,
                 self._censored,
+                keepBoxCox=False,
             )
 
             # get some results
-- 
2.43.0


From a38e6771530417c534ca201f44e83502ae842ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 13/39] fix: the adaptive PODs put back the interactive
 plotting mode of the user

It was left on when run() failed, and switched off after each run even if
the user had it on.
---
 otpod/_adaptive_hitmiss_pod.py | 16 +++++++++++++---
 otpod/_adaptive_signal_pod.py  | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..527451b 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -185,7 +185,20 @@ class AdaptiveHitMissPOD(POD):
         defect sizes with the final classifier model. Eventually, the sample is
         used to compute the mean POD and the POD at the confidence level.
         """
+        # the interactive plotting mode of the user is put back in all cases
+        interactive = plt.isinteractive()
+        try:
+            self._runEnrichment()
+        finally:
+            if interactive:
+                plt.ion()
+            else:
+                plt.ioff()
 
+    def _runEnrichment(self):
+        """
+        Enrich the DOE and build the POD models.
+        """
         # Create an initial uniform distribution if not given
         if self._distribution is None:
             inputMin = self._input.getMin()
@@ -410,9 +423,6 @@ class AdaptiveHitMissPOD(POD):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-        # remove the interactive plotting
-        plt.ioff()
-
     def getPODModel(self):
         """
         Accessor to the POD model.
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index c0d4470..4cf7f1a 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -182,7 +182,20 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         distribution is used to compute the mean POD and the POD at the confidence
         level.
         """
-
+        # the interactive plotting mode of the user is put back in all cases
+        interactive = plt.isinteractive()
+        try:
+            self._runEnrichment()
+        finally:
+            if interactive:
+                plt.ion()
+            else:
+                plt.ioff()
+
+    def _runEnrichment(self):
+        """
+        Enrich the DOE and build the POD models.
+        """
         # Create an initial uniform distribution if not given
         if self._distribution is None:
             inputMin = self._input.getMin()
@@ -442,9 +455,6 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-        # remove the interactive plotting
-        plt.ioff()
-
     def getOutputDOE(self):
         """
         Accessor to the final output values of the DOE.
-- 
2.43.0


From 48aa27536a9491b2d9025528f7b93136812f0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 14/39] fix: the adaptive PODs create the graph directory when
 it does not exist

AdaptiveHitMissPOD did not create it and lost the run; AdaptiveSignalPOD
failed when the directory was created meanwhile by another process.
---
 otpod/_adaptive_hitmiss_pod.py | 1 +
 otpod/_adaptive_signal_pod.py  | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 527451b..855f459 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -404,6 +404,7 @@ class AdaptiveHitMissPOD(POD):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
+                    os.makedirs(self._graphDirectory, exist_ok=True)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveHitMissPOD_")
                         + str(algo_iteration),
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 4cf7f1a..3ee9a56 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -421,8 +421,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
-                    if not os.path.exists(self._graphDirectory):
-                        os.makedirs(self._graphDirectory)
+                    os.makedirs(self._graphDirectory, exist_ok=True)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveSignalPOD_")
                         + str(iteration),
-- 
2.43.0


From db5e94b47fe07323541a8fca15105547d4a31969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 15/39] fix: AdaptiveHitMissPOD keeps its DOE usable when the
 run fails

The input and output DOE were numpy arrays during the run and stayed so
when the physical model or the classifier raised: getInputDOE() gave an
array and run() could not be launched again.
---
 otpod/_adaptive_hitmiss_pod.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 855f459..1bd1ce0 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -170,8 +170,8 @@ class AdaptiveHitMissPOD(POD):
             self._physicalModel = ot.IndicatorFunction(
                 ot.LevelSet(physicalModel, ot.Greater(), self._detection)
             )
-            self._signals = np.array(
-                np.array(self._signals) > self._detection, dtype="int"
+            self._signals = ot.Sample(
+                np.array(np.array(self._signals) > self._detection, dtype="float")
             )
 
     def run(self):
@@ -227,8 +227,8 @@ class AdaptiveHitMissPOD(POD):
             print("Building the classifier")
 
         n_ini = int(self._input.getSize())
-        self._input = np.array(self._input)
-        self._signals = np.hstack(self._signals)
+        doeInput = np.array(self._input)
+        doeSignals = np.hstack(self._signals)
 
         n_added_points = 0
         algo_iteration = 0
@@ -263,7 +263,7 @@ class AdaptiveHitMissPOD(POD):
                 )
             )[0]
 
-        algo_temp.fit(self._input, self._signals)
+        algo_temp.fit(doeInput, doeSignals)
 
         list_classifiers = []
         f_iter = algo_temp.predict_proba
@@ -306,15 +306,18 @@ class AdaptiveHitMissPOD(POD):
             x_new = doeCandidate[ind[ind_bis], :]
             z_new = np.hstack(self._physicalModel(x_new))
 
-            n_new_temp = len(self._input) + len(x_new)
+            n_new_temp = len(doeInput) + len(x_new)
 
             # si on depasse le nombre de points, on s arrete
             if n_new_temp > (n_ini + self._nMorePoints):
-                x_new = x_new[: self._nMorePoints + n_ini - len(self._input), :]
-                z_new = z_new[: self._nMorePoints + n_ini - len(self._input)]
+                x_new = x_new[: self._nMorePoints + n_ini - len(doeInput), :]
+                z_new = z_new[: self._nMorePoints + n_ini - len(doeInput)]
 
-            self._input = np.vstack((self._input, x_new))
-            self._signals = np.hstack((self._signals, z_new))
+            doeInput = np.vstack((doeInput, x_new))
+            doeSignals = np.hstack((doeSignals, z_new))
+            # add the new points and their signals to the DOE, always together
+            newInput, newSignals = ot.Sample(doeInput), ot.Sample(np.vstack(doeSignals))
+            self._input, self._signals = newInput, newSignals
 
             n_added_points = n_new_temp - n_ini
             algo_iteration = algo_iteration + 1
@@ -347,13 +350,13 @@ class AdaptiveHitMissPOD(POD):
                     )
                 )[0]
 
-            # Apprentissage avec self._input,self._signals
-            algo_temp.fit(self._input, self._signals)
+            # Apprentissage avec doeInput,doeSignals
+            algo_temp.fit(doeInput, doeSignals)
 
             self._confMat = np.zeros((2, 2))
             for classifier in list_classifiers:
                 conf_temp = 1.0 * confusion_matrix(
-                    self._signals, classifier(self._input)[:, 1] >= 0.5
+                    doeSignals, classifier(doeInput)[:, 1] >= 0.5
                 )
                 conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
                 self._confMat = conf_temp + self._confMat
@@ -412,8 +415,8 @@ class AdaptiveHitMissPOD(POD):
                         transparent=True,
                     )
 
-        self._input = ot.Sample(self._input)
-        self._signals = ot.Sample(np.vstack(self._signals))
+        doeInput = ot.Sample(doeInput)
+        doeSignals = ot.Sample(np.vstack(doeSignals))
         # Compute the sample predicted for each defect sizes
         self._PODPerDefect = self._computePOD(self._defectSizes, self._classifierModel)
         # compute the POD for all defect sizes
-- 
2.43.0


From 5408f0ef4d2b24c402270a37a13a02ff3bfc452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 16/39] fix: AdaptiveHitMissPOD finds candidates when none is
 in [pmin, pmax[

The fallback selected the probabilities both lower than 0.1 and greater
than 0.8: there are none and run() stopped with an IndexError.
---
 otpod/_adaptive_hitmiss_pod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 1bd1ce0..c547cb1 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -288,11 +288,15 @@ class AdaptiveHitMissPOD(POD):
 
             # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
 
+            # if still none, take the most uncertain candidates
+            if len(ind) == 0:
+                ind = np.argsort(np.abs(probs - 0.5))[:5]
+
             ind_rank = np.argsort(probs[ind])
             quant = [
                 0,
-- 
2.43.0


From ad7b3d46c6a7f554e7ebd7b7be49a8091bfcf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 17/39] fix: AdaptiveHitMissPOD reports its results with the
 defect sizes of the run

Changing the defect sizes after run() gave wrong curves and detection
sizes. The confusion matrix was also updated in place during the run.
---
 otpod/_adaptive_hitmiss_pod.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index c547cb1..c1a7734 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -357,15 +357,15 @@ class AdaptiveHitMissPOD(POD):
             # Apprentissage avec doeInput,doeSignals
             algo_temp.fit(doeInput, doeSignals)
 
-            self._confMat = np.zeros((2, 2))
+            confMat = np.zeros((2, 2))
             for classifier in list_classifiers:
                 conf_temp = 1.0 * confusion_matrix(
                     doeSignals, classifier(doeInput)[:, 1] >= 0.5
                 )
                 conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
-                self._confMat = conf_temp + self._confMat
+                confMat = conf_temp + confMat
 
-            self._confMat = 1.0 * self._confMat / len(list_classifiers)
+            self._confMat = 1.0 * confMat / len(list_classifiers)
             classif_algo_temp = algo_temp.predict_proba
 
             p11 = self._confMat[1, 1]
@@ -399,6 +399,7 @@ class AdaptiveHitMissPOD(POD):
 
             if self._graph:
                 self._PODPerDefect = self._computePOD(self._defectSizes, agg_classifier)
+                self._PODdefectSizes = self._defectSizes
                 # create the interpolate function of the POD model
                 meanPOD = self._PODPerDefect.computeMean()
                 interpModel = interp1d(
@@ -419,10 +420,9 @@ class AdaptiveHitMissPOD(POD):
                         transparent=True,
                     )
 
-        doeInput = ot.Sample(doeInput)
-        doeSignals = ot.Sample(np.vstack(doeSignals))
         # Compute the sample predicted for each defect sizes
         self._PODPerDefect = self._computePOD(self._defectSizes, self._classifierModel)
+        self._PODdefectSizes = self._defectSizes
         # compute the POD for all defect sizes
         meanPOD = self._PODPerDefect.computeMean()
         # create the interpolate function of the POD model
@@ -463,7 +463,7 @@ class AdaptiveHitMissPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -477,8 +477,8 @@ class AdaptiveHitMissPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -486,8 +486,8 @@ class AdaptiveHitMissPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -503,27 +503,27 @@ class AdaptiveHitMissPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
-- 
2.43.0


From 3de7078d5dc18f9558c858a2906d25aed41320d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 18/39] fix: PolynomialChaosPOD does not rename the marginals
 of the given distribution

---
 otpod/_polynomial_chaos_pod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index edd4aa7..3d2be40 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -509,7 +509,8 @@ class PolynomialChaosPOD(POD):
         """
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
-        self._distribution = distribution
+        # keep a copy, since the description is changed by the run method
+        self._distribution = ot.JointDistribution(distribution)
 
     def getDistribution(self):
         """
-- 
2.43.0


From 69b65d8ce079bd2e376cd3055b6380fec4a082e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:55 +0000
Subject: [PATCH 19/39] fix: AdaptiveSignalPOD does not propose again the
 points already in the DOE

---
 otpod/_adaptive_signal_pod.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 3ee9a56..ddc3938 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -208,10 +208,17 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         # Create the design of experiments of the candidate points where the
         # criterion is computed
         if self._distribution.hasIndependentCopula():
-            # without copula use low discrepancy experiment as first doe
-            doeCandidate = ot.LowDiscrepancyExperiment(
-                ot.SobolSequence(), self._distribution, self._candidateSize
+            # without copula use low discrepancy experiment as first doe, without
+            # the points already in the DOE (added by a previous run)
+            sequence = ot.LowDiscrepancyExperiment(
+                ot.SobolSequence(),
+                self._distribution,
+                self._candidateSize + self._input.getSize(),
             ).generate()
+            known = set(tuple(point) for point in self._input)
+            doeCandidate = ot.Sample(
+                [point for point in sequence if tuple(point) not in known]
+            )[: self._candidateSize]
         else:
             # else simple Monte Carlo distribution
             doeCandidate = self._distribution.getSample(self._candidateSize)
-- 
2.43.0


From 0ca8acde99527254fafc43ecd147d32a60cbfcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:55 +0000
Subject: [PATCH 20/39] fix: AdaptiveHitMissPOD stores the POD and the sample
 behind it together

---
 otpod/_adaptive_hitmiss_pod.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index c1a7734..15b030d 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -398,14 +398,10 @@ class AdaptiveHitMissPOD(POD):
                 updateProgress(n_added_points - 1, self._nMorePoints, "Adding points")
 
             if self._graph:
-                self._PODPerDefect = self._computePOD(self._defectSizes, agg_classifier)
-                self._PODdefectSizes = self._defectSizes
-                # create the interpolate function of the POD model
-                meanPOD = self._PODPerDefect.computeMean()
-                interpModel = interp1d(
-                    self._defectSizes, np.array(meanPOD), kind="linear"
+                self._setPODResults(
+                    self._computePOD(self._defectSizes, agg_classifier),
+                    self._defectSizes,
                 )
-                self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 # The POD at confidence level is built in getPODCLModel() directly
                 fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
                 plt.draw()
@@ -421,13 +417,10 @@ class AdaptiveHitMissPOD(POD):
                     )
 
         # Compute the sample predicted for each defect sizes
-        self._PODPerDefect = self._computePOD(self._defectSizes, self._classifierModel)
-        self._PODdefectSizes = self._defectSizes
-        # compute the POD for all defect sizes
-        meanPOD = self._PODPerDefect.computeMean()
-        # create the interpolate function of the POD model
-        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
-        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._setPODResults(
+            self._computePOD(self._defectSizes, self._classifierModel),
+            self._defectSizes,
+        )
 
         # The POD at confidence level is built in getPODCLModel() directly
 
@@ -833,6 +826,19 @@ class AdaptiveHitMissPOD(POD):
         else:
             self._verbose = verbose
 
+    def _setPODResults(self, PODPerDefect, defectSizes):
+        """
+        Store together the POD sample, its defect sizes and the mean POD model.
+        """
+        # compute the POD for all defect sizes
+        meanPOD = PODPerDefect.computeMean()
+        # create the interpolate function of the POD model
+        interpModel = interp1d(defectSizes, np.array(meanPOD), kind="linear")
+        PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODPerDefect = PODPerDefect
+        self._PODdefectSizes = defectSizes
+        self._PODmodel = PODmodel
+
     def _mergeDefectInX(self, defect, X):
         """
         defect : scalar of the defect value
-- 
2.43.0


From ebacd8b56d7ac3545cfdd889d71522f195bdedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 21/39] fix: the default distribution and strategy follow the
 settings of each run

---
 otpod/_adaptive_hitmiss_pod.py | 4 +++-
 otpod/_adaptive_signal_pod.py  | 3 ++-
 otpod/_kriging_pod.py          | 3 ++-
 otpod/_kriging_tools.py        | 1 +
 otpod/_polynomial_chaos_pod.py | 8 ++++++--
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 15b030d..052de83 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -110,6 +110,7 @@ class AdaptiveHitMissPOD(POD):
         # self._censored
 
         self._distribution = None
+        self._userDistribution = False
         self._classifierType = "rf"  # random forest classifier or svc
         self._ClassifierParameters = [[100], [None], [2], [0]]
         self._classifierModel = None
@@ -200,7 +201,7 @@ class AdaptiveHitMissPOD(POD):
         Enrich the DOE and build the POD models.
         """
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
@@ -771,6 +772,7 @@ class AdaptiveHitMissPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index ddc3938..17f3c7c 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -123,6 +123,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
+        self._userDistribution = False
         self._initialStartSize = 100
         self._samplingSize = 5000  # Number of MC simulations to compute POD
         self._candidateSize = 1000
@@ -197,7 +198,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         Enrich the DOE and build the POD models.
         """
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 0fd942a..cbf3208 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -100,6 +100,7 @@ class KrigingPOD(POD, KrigingBase):
         self._userKriging = False
         self._krigingResult = None
         self._distribution = None
+        self._userDistribution = False
         self._basis = None
         self._covarianceModel = None
         self._samplingSize = 5000
@@ -184,7 +185,7 @@ class KrigingPOD(POD, KrigingBase):
             print("kriging validation Q2 (>0.9): {:0.4f}".format(Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index a406de5..0bd695f 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -279,6 +279,7 @@ class KrigingBase:
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 3d2be40..6a0f90a 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -99,7 +99,9 @@ class PolynomialChaosPOD(POD):
         self._chaosResult = None
         self._samplingSize = 5000
         self._distribution = None
+        self._userDistribution = False
         self._adaptiveStrategy = None
+        self._userStrategy = False
         self._projectionStrategy = None
         self._degree = 3
         self._defectSizes = None
@@ -511,6 +513,7 @@ class PolynomialChaosPOD(POD):
             raise ValueError("The given parameter is not a JointDistribution")
         # keep a copy, since the description is changed by the run method
         self._distribution = ot.JointDistribution(distribution)
+        self._userDistribution = True
 
     def getDistribution(self):
         """
@@ -541,6 +544,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._userStrategy = True
 
     def getAdaptiveStrategy(self):
         """
@@ -677,7 +681,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if not self._userDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
@@ -691,7 +695,7 @@ class PolynomialChaosPOD(POD):
         # put description of the inputSample into decription of the distribution
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if not self._userStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
-- 
2.43.0


From 6e8d662901dd2c1f0c02ca3b4817e90df6514c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 22/39] fix: the drawings of the Sobol indices name the method
 they were computed with

---
 otpod/_sobol_indices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 1cb6c84..847a61a 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -168,6 +168,7 @@ class SobolIndices:
 
         self._sa.setUseAsymptoticDistribution(True)
         self._saDefectSizes = self._defectSizes
+        self._saMethod = self._method
 
     def getSensitivityResult(self):
         """
@@ -328,11 +329,11 @@ class SobolIndices:
         ax.set_ylabel("Sensitivity indices")
         if order == "first":
             ax.set_title(
-                "First order sensitivity indices - {} Algorithm".format(self._method)
+                "First order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         elif order == "total":
             ax.set_title(
-                "Total order sensitivity indices - {} Algorithm".format(self._method)
+                "Total order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         ax.set_ylim(0, 1.2)
         ax.grid()
-- 
2.43.0


From 1382c371cb8079c9a3492fc3dbd4ccd34c882b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 23/39] fix: drawPOD does not evaluate the curves outside of
 the defect interval

---
 otpod/_pod.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 1b61367..f7a88ed 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -195,7 +195,7 @@ class POD(object):
         fig, ax = plt.subplots(figsize=(8, 6))
         # POD model graph
         _ = View(
-            PODmodel.draw(defectMin, defectMax, nbPt),
+            self._drawCurve(PODmodel, defectMin, defectMax, nbPt),
             axes=[ax],
             plot_kw={"color": "red", "label": "POD"},
         )
@@ -203,7 +203,7 @@ class POD(object):
         if confidenceLevel is not None:
             # POD at confidence level graph
             _ = View(
-                PODmodelCl.draw(defectMin, defectMax, nbPt),
+                self._drawCurve(PODmodelCl, defectMin, defectMax, nbPt),
                 axes=[ax],
                 plot_kw={
                     "color": "blue",
@@ -254,6 +254,15 @@ class POD(object):
         ax.set_ylabel("POD")
         return fig, ax
 
+    def _drawCurve(self, model, defectMin, defectMax, nbPt):
+        """
+        Graph of the model, evaluated at no defect outside of the bounds.
+        """
+        defects = ot.Sample(np.vstack(np.linspace(defectMin, defectMax, nbPt)))
+        graph = ot.Graph("", "Defects", "POD", True)
+        graph.add(ot.Curve(defects, model(defects)))
+        return graph
+
     def _drawValidationGraph(self, target, prediction):
         """
         Draw the validation graph of the metamodel.
-- 
2.43.0


From 9b4ff333a85d17f0ffb999c6cfb486151f2c4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 24/39] fix: an adaptive run with graphs does not stop on a
 probability level the POD does not reach yet

---
 otpod/_adaptive_hitmiss_pod.py |  5 ++++-
 otpod/_adaptive_signal_pod.py  |  5 ++++-
 otpod/_pod.py                  | 13 +++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 052de83..c465b58 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -404,7 +404,10 @@ class AdaptiveHitMissPOD(POD):
                     self._defectSizes,
                 )
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                probabilityLevel = self._reachedProbabilityLevel(
+                    self._probabilityLevel, self._confidenceLevel
+                )
+                fig, ax = self.drawPOD(probabilityLevel, self._confidenceLevel)
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 17f3c7c..e4edf37 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -424,7 +424,10 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 # create the interpolate function of the POD model
                 self._setPODResults(PODPerDefectOpt, self._defectSizes)
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                probabilityLevel = self._reachedProbabilityLevel(
+                    self._probabilityLevel, self._confidenceLevel
+                )
+                fig, ax = self.drawPOD(probabilityLevel, self._confidenceLevel)
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
diff --git a/otpod/_pod.py b/otpod/_pod.py
index f7a88ed..fc521f5 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -2,6 +2,7 @@
 
 __all__ = []
 
+import logging
 import openturns as ot
 from openturns.viewer import View
 import matplotlib.pyplot as plt
@@ -254,6 +255,18 @@ class POD(object):
         ax.set_ylabel("POD")
         return fig, ax
 
+    def _reachedProbabilityLevel(self, probabilityLevel, confidenceLevel):
+        """
+        The given probability level, None if the current POD does not reach it.
+        """
+        if probabilityLevel is not None:
+            try:
+                self.computeDetectionSize(probabilityLevel, confidenceLevel)
+            except Exception as e:
+                logging.warning("No detection size on the graph: " + str(e))
+                return None
+        return probabilityLevel
+
     def _drawCurve(self, model, defectMin, defectMax, nbPt):
         """
         Graph of the model, evaluated at no defect outside of the bounds.
-- 
2.43.0


From e24104f106db085ab99b6fcfcd320e118097070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:11 +0000
Subject: [PATCH 25/39] fix: AdaptiveHitMissPOD corrects the classifier also
 when a class is never predicted

---
 otpod/_adaptive_hitmiss_pod.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index c465b58..e97f295 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -361,8 +361,11 @@ class AdaptiveHitMissPOD(POD):
             confMat = np.zeros((2, 2))
             for classifier in list_classifiers:
                 conf_temp = 1.0 * confusion_matrix(
-                    doeSignals, classifier(doeInput)[:, 1] >= 0.5
+                    doeSignals, classifier(doeInput)[:, 1] >= 0.5, labels=[0, 1]
                 )
+                # a class which is never predicted is never mispredicted
+                for k in np.where(conf_temp.sum(axis=0) == 0.0)[0]:
+                    conf_temp[k, k] = 1.0
                 conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
                 confMat = conf_temp + confMat
 
@@ -374,7 +377,10 @@ class AdaptiveHitMissPOD(POD):
 
             def agg_classifier(x_in):
                 c = p11 - p10
-                p1_bayes = 1.0 / c * (classif_algo_temp(x_in)[:, 1] - p10)
+                p1_bayes = classif_algo_temp(x_in)[:, 1]
+                # no correction when the prediction carries no information
+                if c != 0.0:
+                    p1_bayes = 1.0 / c * (p1_bayes - p10)
                 p1_bayes = np.vstack(
                     np.min(
                         np.array(
-- 
2.43.0


From 782a16bcf6dc8008ee46f357f40d6949e16b2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:36 +0000
Subject: [PATCH 26/39] fix: an adaptive run keeps the covariance parameters
 when no better ones can be found

---
 otpod/_adaptive_signal_pod.py |  4 ++--
 otpod/_kriging_tools.py       | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index e4edf37..5c2fff5 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -237,7 +237,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         fitter = self._estimKrigingTheta(
             fitter, lowerBound, upperBound, self._initialStartSize
         )
-        fitter.run()
+        self._runFitter(fitter)
         algoKriging = ot.GaussianProcessRegression(fitter.getResult())
         algoKriging.run()
 
@@ -401,7 +401,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 fitter = self._estimKrigingTheta(
                     fitter, lowerBound, upperBound, self._initialStartSize
                 )
-                fitter.run()
+                self._runFitter(fitter)
                 algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 0bd695f..e6e9f4b 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -1,5 +1,6 @@
 # -*- Python -*-
 
+import logging
 import openturns as ot
 import numpy as np
 from scipy.interpolate import interp1d
@@ -532,6 +533,18 @@ class KrigingBase:
 
         return fitter
 
+    def _runFitter(self, fitter):
+        """
+        Run the fitter, with the current covariance parameters when none of the
+        searches of better ones succeeds.
+        """
+        try:
+            fitter.run()
+        except RuntimeError as e:
+            logging.warning("Covariance model parameters not optimized: " + str(e))
+            fitter.setOptimizeParameters(False)
+            fitter.run()
+
     def _computeLOO(self, inputSample, outputSample, krigingResult, transformation):
         """
         Compute the Leave One out prediction analytically.
-- 
2.43.0


From 9e3960b2b9f482b6a0844ea42ecbeecd6fdb26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 27/39] fix: KrigingPOD runs with the kriging result given by
 the user

---
 otpod/_kriging_pod.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index cbf3208..7a77441 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -98,6 +98,7 @@ class KrigingPOD(POD, KrigingBase):
         assert self._dim > 1, "Dimension of inputSample must be greater than 1."
 
         self._userKriging = False
+        self._userTransformation = None
         self._krigingResult = None
         self._distribution = None
         self._userDistribution = False
@@ -178,6 +179,10 @@ class KrigingPOD(POD, KrigingBase):
             krigingResult = algoKriging.getResult()
         else:
             krigingResult = self._krigingResult
+            transformation = self._userTransformation
+            if transformation is None:
+                # the result was built from the normalized inputs of this study
+                transformation = self._buildKrigingAlgo(self._input, self._signals)[1]
 
         # compute the Q2
         Q2 = self._computeQ2(self._input, self._signals, krigingResult, transformation)
@@ -218,20 +223,22 @@ class KrigingPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-    def setKrigingResult(self, result):
+    def setKrigingResult(self, result, transformation=None):
         """
         Accessor to the kriging result.
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
             The kriging result.
         transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+            The normalization transformation. Default is None : the inputs are
+            normalized with the mean and standard deviation of the input sample.
         """
         try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
+            ot.GaussianProcessRegressionResult(result)
+        except (TypeError, NotImplementedError):
             raise Exception("The given parameter is not an KrigingResult.")
         self._krigingResult = result
+        self._userTransformation = transformation
         self._userKriging = True
-- 
2.43.0


From 4a6da643560932211edbd6f82889a30a09ddaa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 28/39] fix: an interrupted PolynomialChaosPOD run keeps the
 metamodel of the reported POD

---
 otpod/_polynomial_chaos_pod.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 6a0f90a..c3e1ad9 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -153,7 +153,16 @@ class PolynomialChaosPOD(POD):
         computed by simulating new coefficients of the polynomial chaos, then
         Monte Carlo simulations are performed.
         """
-
+        kept = dict(self.__dict__)
+        try:
+            self._runChaos()
+        except BaseException:
+            # the metamodel and the POD reported are those of the same run
+            self.__dict__.clear()
+            self.__dict__.update(kept)
+            raise
+
+    def _runChaos(self):
         # run the chaos algorithm and get result if not given
         if not self._userChaos:
             if self._verbose:
-- 
2.43.0


From 2225a7bc973048f31866732f7aa65294f1d4dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:45 +0000
Subject: [PATCH 29/39] fix: PolynomialChaosPOD runs with the chaos result
 given by the user and the default distribution

---
 otpod/_polynomial_chaos_pod.py | 36 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index c3e1ad9..7a8d5d2 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -172,8 +172,10 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        else:
+            self._buildDistribution(self._input)
 
-            # get the metamodel
+        # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
         # get the basis, coef and transformation, needed for the confidence interval
         self._chaosCoefs = self._chaosResult.getCoefficients()
@@ -690,19 +692,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if not self._userDistribution:
-            # create default distribution : Uniform between min and max of the
-            # input sample
-            inputSample = ot.Sample(inputSample)
-            inputMin = inputSample.getMin()
-            inputMin[0] = np.min(self._defectSizes)
-            inputMax = inputSample.getMax()
-            inputMax[0] = np.max(self._defectSizes)
-            marginals = [ot.Uniform(inputMin[i], inputMax[i]) for i in range(self._dim)]
-            self._distribution = ot.JointDistribution(marginals)
-
-        # put description of the inputSample into decription of the distribution
-        self._distribution.setDescription(inputSample.getDescription())
+        self._buildDistribution(inputSample)
 
         if not self._userStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
@@ -740,6 +730,24 @@ class PolynomialChaosPOD(POD):
             self._projectionStrategy,
         )
 
+    def _buildDistribution(self, inputSample):
+        """
+        Build the default distribution if the user gave none.
+        """
+        if not self._userDistribution:
+            # create default distribution : Uniform between min and max of the
+            # input sample
+            inputSample = ot.Sample(inputSample)
+            inputMin = inputSample.getMin()
+            inputMin[0] = np.min(self._defectSizes)
+            inputMax = inputSample.getMax()
+            inputMax[0] = np.max(self._defectSizes)
+            marginals = [ot.Uniform(inputMin[i], inputMax[i]) for i in range(self._dim)]
+            self._distribution = ot.JointDistribution(marginals)
+
+        # put description of the inputSample into decription of the distribution
+        self._distribution.setDescription(inputSample.getDescription())
+
     def _mergeDefectInX(self, defect, X):
         """
         defect : scalar of the defect value
-- 
2.43.0


From ab0b1528a5d11716885ab53fb1781d77aaed854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 30/39] fix: the censored regression does not depend on the
 state of the random generator

---
 otpod/_math_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 009e3b2..d89882d 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -364,9 +364,11 @@ def computeLinearParametersCensored(
     testMLE = func(initialStartMLE)
     if testMLE == np.inf:
         iteration = 0
+        # the estimates are determined by the data: a generator of its own
+        generator = np.random.RandomState(0)
         while testMLE == np.inf and iteration < 100:
             iteration += 1
-            initialStartMLE = np.random.randn(3)
+            initialStartMLE = generator.randn(3)
             testMLE = func(initialStartMLE)
         if iteration == 100:
             raise Exception(
-- 
2.43.0


From 5e4704902182f8b92662b58a7eeee0d9cf61a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:07 +0000
Subject: [PATCH 31/39] fix: let PODSummary.drawGraphs draw the remaining
 graphs when no probability level is given

---
 otpod/_pod_summary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..8ca06d3 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -866,11 +866,14 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            # the regression line is that of the given quantile
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0


From 7e2a8f8745a66baf94091bfef46f4f1b07b39a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:42 +0000
Subject: [PATCH 32/39] fix: let PODSummary.drawGraphs draw the graphs when the
 Box Cox parameter is given

---
 otpod/_pod_summary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 8ca06d3..fd19950 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -765,7 +765,8 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox:
+        # the likelihood is computed only if the parameter is not given
+        if self._boxCox and type(self._boxCox) is not float:
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
-- 
2.43.0


From 6798f6a4cd041d089f1f0fbcb89eb3dac211b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 33/39] fix: AdaptiveSignalPOD reports the outputs of its
 design as they were given

---
 otpod/_adaptive_signal_pod.py | 14 +++++++-------
 otpod/_pod.py                 |  2 ++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 5c2fff5..a21ed9e 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -156,6 +156,8 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         # get some results
         self._input = result["inputSample"]
         self._signals = result["signals"]
+        # the output values as they are, without Box Cox transformation
+        self._outputs = result["outputs"]
         self._detectionBoxCox = result["detectionBoxCox"]
         self._boxCoxTransform = result["boxCoxTransform"]
         self._shift = result["shift"]
@@ -364,7 +366,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             # get the best candidate
             candidateOpt = doeCandidate[indexOpt]
             # compute the signal with the physical model, which may fail
-            newSignal = self._physicalModel(candidateOpt)
+            newOutput = newSignal = self._physicalModel(candidateOpt)
             if self._boxCox:
                 newSignal = self._boxCoxTransform(newSignal + [self._shift])
             # add the new point and its signal to the DOE, always together
@@ -372,7 +374,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             newInput.add(candidateOpt)
             newSignals = ot.Sample(self._signals)
             newSignals.add(newSignal)
-            self._input, self._signals = newInput, newSignals
+            newOutputs = ot.Sample(self._outputs)
+            newOutputs.add(newOutput)
+            self._input, self._signals, self._outputs = newInput, newSignals, newOutputs
             # remove added candidate from the doeCandidate
             doeCandidate.erase(indexOpt)
             if self._verbose:
@@ -469,11 +473,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         """
         Accessor to the final output values of the DOE.
         """
-        if self._boxCox:
-            invBoxCox = self._boxCoxTransform.getInverse()
-            return invBoxCox(self._signals) - self._shift
-        else:
-            return self._signals
+        return self._outputs
 
     def getInputDOE(self):
         """
diff --git a/otpod/_pod.py b/otpod/_pod.py
index fc521f5..a2bf2e6 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -336,6 +336,7 @@ class POD(object):
             )
         else:
             inputSample, signals = inputSample, outputSample
+        outputs = signals
 
         ###################### Box Cox transformation ##########################
         # Compute Box Cox if enabled
@@ -364,6 +365,7 @@ class POD(object):
 
         return {
             "inputSample": inputSample,
+            "outputs": outputs,
             "signals": signals,
             "shift": shift,
             "detectionBoxCox": detectionBoxCox,
-- 
2.43.0


From f3529e80b4a4de3efcfdcb9b8200bb008d7bfe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 34/39] fix: the Box Cox likelihood graph keeps the finite
 values only, so that it can be drawn

---
 otpod/_math_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index d89882d..5ca6477 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -100,6 +100,14 @@ def computeBoxCox(factors, valuesInit, shift):
             transform = factory.build(valuesInit, [shift])
             graph = ot.Graph()
     lambdaBoxCox = transform.getLambda()[0]
+    # the likelihood may be infinite far from its maximum, where it cannot be drawn
+    drawables = graph.getDrawables()
+    for drawable in drawables:
+        data = np.array(drawable.getData())
+        finite = np.isfinite(data).all(axis=1)
+        if not finite.all() and finite.any():
+            drawable.setData(ot.Sample(data[finite]))
+    graph.setDrawables(drawables)
 
     # if an affine trend is considered (more computing time required)
     # works only in 1D
-- 
2.43.0


From 20f3f88eee3eb0d99a569509c048f2c88849ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 35/39] fix: use the Box Cox parameter when it is given instead
 of estimating it

---
 otpod/_pod.py                              | 11 +++++++++--
 otpod/_univariate_linear_model_analysis.py |  4 ++++
 otpod/_univariate_linear_model_pod.py      | 23 +++++++++++++++++++---
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index a2bf2e6..5f9992d 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -35,6 +35,8 @@ class POD(object):
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # the given value, None if the parameter must be estimated
+        self._givenLambda = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -344,8 +346,11 @@ class POD(object):
         if boxCox:
             if signals.getMin()[0] < 0:
                 shift = -signals.getMin()[0] + 100
-            # optimization required, get optimal lambda without graph
-            lambdaBoxCox, graphBoxCox = computeBoxCox(inputSample, signals, shift)
+            if self._givenLambda is not None:
+                lambdaBoxCox, graphBoxCox = self._givenLambda, None
+            else:
+                # optimization required, get optimal lambda and graph
+                lambdaBoxCox, graphBoxCox = computeBoxCox(inputSample, signals, shift)
             if keepBoxCox:
                 self._lambdaBoxCox, self._graphBoxCox = lambdaBoxCox, graphBoxCox
 
@@ -398,6 +403,8 @@ class POD(object):
         # Check is the censored model exists when asking for it
         if not self._boxCox:
             raise Exception("The Box Cox transformation is not enabled.")
+        if self._givenLambda is not None:
+            raise Exception("The Box Cox parameter is given, it is not estimated.")
 
         fig, ax = plt.subplots(figsize=(8, 6))
         # get the graph from the method 'computeBoxCox'
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..690df0f 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -153,6 +153,8 @@ class UnivariateLinearModelAnalysis:
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # the given value, None if the parameter must be estimated
+        self._givenLambda = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -851,6 +853,8 @@ class UnivariateLinearModelAnalysis:
         # Check is the censored model exists when asking for it
         if not self._boxCox:
             raise Exception("The Box Cox transformation is not enabled.")
+        if self._givenLambda is not None:
+            raise Exception("The Box Cox parameter is given, it is not estimated.")
 
         fig, ax = plt.subplots(figsize=(8, 6))
         # get the graph from the method 'computeBoxCox'
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 90ab30c..1817090 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -120,6 +120,9 @@ class UnivariateLinearModelPOD(POD):
         super(UnivariateLinearModelPOD, self).__init__(
             inputSample, outputSample, detection, noiseThres, saturationThres, boxCox
         )
+        if self._analysis is not None:
+            # the parameter estimated by the analysis is not a given value
+            self._givenLambda = self._analysis._givenLambda
         # inherited attributes
         # self._simulationSize
         # self._detection
@@ -157,6 +160,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._givenLambda,
         )
         # get results
         self._defects = results["defects"]
@@ -483,6 +487,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                givenLambda,
             ):
 
                 results = _computeLinearModel(
@@ -493,6 +498,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    givenLambda,
                 )
 
                 self.intercept = results["intercept"]
@@ -524,6 +530,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._givenLambda,
             )
 
             PODcoll.append(model.PODmodel)
@@ -539,7 +546,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    givenLambda=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -566,8 +580,11 @@ def _computeLinearModel(
         else:
             shift = 0.0
 
-        # optimization required, get optimal lambda without graph
-        lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        if givenLambda is not None:
+            lambdaBoxCox, graphBoxCox = givenLambda, None
+        else:
+            # optimization required, get optimal lambda and graph
+            lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From 40f36521ea0546fe3b4d8d80799f6941e285f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 36/39] fix: bound the Box Cox likelihood graph by its finite
 values instead of editing its drawables

---
 otpod/_math_tools.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 5ca6477..d4166a5 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -101,13 +101,12 @@ def computeBoxCox(factors, valuesInit, shift):
             graph = ot.Graph()
     lambdaBoxCox = transform.getLambda()[0]
     # the likelihood may be infinite far from its maximum, where it cannot be drawn
-    drawables = graph.getDrawables()
-    for drawable in drawables:
-        data = np.array(drawable.getData())
-        finite = np.isfinite(data).all(axis=1)
-        if not finite.all() and finite.any():
-            drawable.setData(ot.Sample(data[finite]))
-    graph.setDrawables(drawables)
+    points = [np.array(drawable.getData()) for drawable in graph.getDrawables()]
+    if len(points) > 0:
+        points = np.vstack(points)
+        finite = points[np.isfinite(points).all(axis=1)]
+        if 0 < len(finite) < len(points):
+            graph.setBoundingBox(ot.Interval(finite.min(axis=0), finite.max(axis=0)))
 
     # if an affine trend is considered (more computing time required)
     # works only in 1D
-- 
2.43.0


From d6457df83a25436164d27c8b577942a6162b509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:06 +0000
Subject: [PATCH 37/39] fix: the label of a detection size names the
 probability it was asked for (a57 for 0.57, not a56)

---
 otpod/_pod.py                     | 12 ++++++------
 otpod/_pod_summary.py             |  6 +++---
 otpod/_quantile_regression_pod.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 5f9992d..6532ac9 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -125,7 +125,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 6)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -142,9 +142,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 6)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -233,7 +233,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -245,9 +245,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + str(int(round(probabilityLevel * 100, 6)))
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + str(int(round(confidenceLevel * 100, 6)))
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index fd19950..19e5160 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -569,11 +569,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + str(int(round(probabilityLevel * 100, 6))),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + str(int(round(confidenceLevel * 100, 6))),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index a37e95d..97394d4 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -311,7 +311,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 6)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -329,9 +329,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 6)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From 9eeca7a08dce88a7fe2b0efb818199531131d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 38/39] fix: the text report and a slow censored fit no longer
 change which messages OpenTURNS logs

---
 otpod/_math_tools.py                       | 1 -
 otpod/_univariate_linear_model_analysis.py | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index d4166a5..d003867 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -384,7 +384,6 @@ def computeLinearParametersCensored(
             )
     res = fmin(func, initialStartMLE, disp=0, full_output=1, maxiter=500)
     if res[4] == 2:
-        ot.Log.Show(ot.Log.WARN)
         ot.Log.Warn(
             "Maximum Likelihood optimization for censored data : "
             + "maximum number of iterations reached."
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 690df0f..7e3cf3e 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -350,9 +350,6 @@ class UnivariateLinearModelAnalysis:
         """
         Print results of the linear analysis.
         """
-        # Enable warning to be displayed
-        ot.Log.Show(ot.Log.WARN)
-
         regressionResult = "\n".join(
             ["{:<47} {:>13} {:>13}".format(*line) for line in self._dataRegression]
         )
-- 
2.43.0


From 85e118dc233c1d2bbbe65a1415caf216dd6d7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 39/39] fix: a Box-Cox parameter given as a NumPy float is
 used, not estimated anew

---
 otpod/_pod.py                              | 2 +-
 otpod/_pod_summary.py                      | 2 +-
 otpod/_univariate_linear_model_analysis.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 6532ac9..600bc53 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -29,7 +29,7 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 19e5160..8a4836a 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -766,7 +766,7 @@ class PODSummary:
         fig = []
 
         # the likelihood is computed only if the parameter is not given
-        if self._boxCox and type(self._boxCox) is not float:
+        if self._boxCox and not isinstance(self._boxCox, float):
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 7e3cf3e..e537c16 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,7 +147,7 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
-- 
2.43.0

