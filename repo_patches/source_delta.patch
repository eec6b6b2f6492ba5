From cbe36a9da82224099616e5157bb45daffc89ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 01/42] fix: use the Box Cox parameter given by the user to
 build the POD

---
 otpod/_pod.py                              | 18 +++++++++++----
 otpod/_univariate_linear_model_analysis.py |  2 ++
 otpod/_univariate_linear_model_pod.py      | 26 ++++++++++++++++++----
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..3acae13 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -34,6 +34,8 @@ class POD(object):
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # the Box Cox parameter given by the user, None if it must be estimated
+        self._givenLambdaBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -320,10 +322,14 @@ class POD(object):
         if boxCox:
             if signals.getMin()[0] < 0:
                 shift = -signals.getMin()[0] + 100
-            # optimization required, get optimal lambda without graph
-            self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
-                inputSample, signals, shift
-            )
+            if self._givenLambdaBoxCox is None:
+                # optimization required, get optimal lambda without graph
+                self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
+                    inputSample, signals, shift
+                )
+            else:
+                self._lambdaBoxCox = self._givenLambdaBoxCox
+                self._graphBoxCox = None
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
@@ -373,6 +379,10 @@ class POD(object):
         # Check is the censored model exists when asking for it
         if not self._boxCox:
             raise Exception("The Box Cox transformation is not enabled.")
+        if self._graphBoxCox is None:
+            raise Exception(
+                "The Box Cox parameter is given : its likelihood is not computed."
+            )
 
         fig, ax = plt.subplots(figsize=(8, 6))
         # get the graph from the method 'computeBoxCox'
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..e13237c 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -153,6 +153,8 @@ class UnivariateLinearModelAnalysis:
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # the Box Cox parameter given by the user, None if it must be estimated
+        self._givenLambdaBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..a57df6d 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -108,7 +108,9 @@ class UnivariateLinearModelPOD(POD):
             outputSample = self._analysis.getOutputSample()
             noiseThres = self._analysis.getNoiseThreshold()
             saturationThres = self._analysis.getSaturationThreshold()
-            boxCox = self._analysis.getBoxCoxParameter()
+            boxCox = self._analysis._boxCox
+            if self._analysis._givenLambdaBoxCox is not None:
+                boxCox = self._analysis._givenLambdaBoxCox
             self._resDistFact = self._analysis._resDistFact
         else:
             # residuals distribution factory attributes
@@ -133,6 +135,9 @@ class UnivariateLinearModelPOD(POD):
         # self._dim
         # self._censored
 
+        if self._analysis is not None:
+            self._lambdaBoxCox = self._analysis.getBoxCoxParameter()
+
         # assertion input dimension is 1
         assert self._dim == 1, "Dimension inputSample must be 1."
 
@@ -157,6 +162,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._givenLambdaBoxCox,
         )
         # get results
         self._defects = results["defects"]
@@ -480,6 +486,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                lambdaBoxCox,
             ):
 
                 results = _computeLinearModel(
@@ -490,6 +497,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    lambdaBoxCox,
                 )
 
                 self.intercept = results["intercept"]
@@ -521,6 +529,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._givenLambdaBoxCox,
             )
 
             PODcoll.append(model.PODmodel)
@@ -536,7 +545,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    lambdaBoxCox=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -563,8 +579,10 @@ def _computeLinearModel(
         else:
             shift = 0.0
 
-        # optimization required, get optimal lambda without graph
-        lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        graphBoxCox = None
+        if lambdaBoxCox is None:
+            # optimization required, get optimal lambda without graph
+            lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From d723c58562d6912afea12b7157692abc0ed7b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 02/42] fix: quantile regression POD reports the Box Cox
 parameter of its own data, not of the last bootstrap sample

---
 otpod/_quantile_regression_pod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..594f50d 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -161,6 +161,10 @@ class QuantileRegressionPOD(POD):
         # defect quantile value. The goal is to compute the QuantilePerComponent
         # of the simulation for each defect quantile (columns)
         self._defectsPerQuantile = ot.Sample(self._simulationSize, self._quantile.size)
+        # the Box Cox parameter is estimated again for each bootstrap sample, keep
+        # the one associated to the POD model
+        lambdaBoxCox = self._lambdaBoxCox
+        graphBoxCox = getattr(self, "_graphBoxCox", None)
         for i in range(self._simulationSize):
             # generate a sample with replacement within data of the same size
             bootstrapData = bootstrapExp.generate()
@@ -210,6 +214,8 @@ class QuantileRegressionPOD(POD):
             self._defectsPerQuantile[i, :] = defectList
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
+        self._lambdaBoxCox = lambdaBoxCox
+        self._graphBoxCox = graphBoxCox
 
     def getPODModel(self):
         """
-- 
2.43.0


From f502bc6e7182c7a7b23cc369e77db0adf6f55219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 03/42] fix: rejected defect sizes leave the object unchanged

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..453c88c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..d8b869c 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From dc71a98a8d1626183f3800076214e26626e46273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 04/42] fix: default distribution and chaos strategies follow
 the current parameters at each run

---
 otpod/_adaptive_hitmiss_pod.py |  4 +++-
 otpod/_adaptive_signal_pod.py  |  3 ++-
 otpod/_kriging_pod.py          |  3 ++-
 otpod/_kriging_tools.py        |  1 +
 otpod/_polynomial_chaos_pod.py | 12 +++++++++---
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..748fa67 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -110,6 +110,7 @@ class AdaptiveHitMissPOD(POD):
         # self._censored
 
         self._distribution = None
+        self._userDistribution = False
         self._classifierType = "rf"  # random forest classifier or svc
         self._ClassifierParameters = [[100], [None], [2], [0]]
         self._classifierModel = None
@@ -187,7 +188,7 @@ class AdaptiveHitMissPOD(POD):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
@@ -760,6 +761,7 @@ class AdaptiveHitMissPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..c02e899 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -124,6 +124,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
+        self._userDistribution = False
         self._initialStartSize = 100
         self._samplingSize = 5000  # Number of MC simulations to compute POD
         self._candidateSize = 1000
@@ -185,7 +186,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..03f63fe 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -101,6 +101,7 @@ class KrigingPOD(POD, KrigingBase):
         self._userKriging = False
         self._krigingResult = None
         self._distribution = None
+        self._userDistribution = False
         self._basis = None
         self._covarianceModel = None
         self._samplingSize = 5000
@@ -186,7 +187,7 @@ class KrigingPOD(POD, KrigingBase):
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 453c88c..b419486 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -279,6 +279,7 @@ class KrigingBase:
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..5dfb519 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -99,8 +99,11 @@ class PolynomialChaosPOD(POD):
         self._chaosResult = None
         self._samplingSize = 5000
         self._distribution = None
+        self._userDistribution = False
         self._adaptiveStrategy = None
+        self._userAdaptiveStrategy = False
         self._projectionStrategy = None
+        self._userProjectionStrategy = False
         self._degree = 3
         self._defectSizes = None
         self._verbose = True
@@ -503,6 +506,7 @@ class PolynomialChaosPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
@@ -533,6 +537,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._userAdaptiveStrategy = True
 
     def getAdaptiveStrategy(self):
         """
@@ -562,6 +567,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an ProjectionStrategy.")
         self._projectionStrategy = strategy
+        self._userProjectionStrategy = True
 
     def getProjectionStrategy(self):
         """
@@ -669,7 +675,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if not self._userDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
@@ -683,7 +689,7 @@ class PolynomialChaosPOD(POD):
         # put description of the inputSample into decription of the distribution
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if not self._userAdaptiveStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
@@ -700,7 +706,7 @@ class PolynomialChaosPOD(POD):
             indexMax = enumerateFunction.getStrataCumulatedCardinal(self._degree)
             self._adaptiveStrategy = ot.FixedStrategy(multivariateBasis, indexMax)
 
-        if self._projectionStrategy is None:
+        if not self._userProjectionStrategy:
             # sparse polynomial chaos
             basis_sequence_factory = ot.LARS()
             fitting_algorithm = ot.KFold()
-- 
2.43.0


From 549e6526af8cdc609e9fab3499e67fbe85f2e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 05/42] fix: a given polynomial chaos result can be used
 without giving its distribution

---
 otpod/_polynomial_chaos_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5dfb519..10d8564 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -164,6 +164,8 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        elif not self._userDistribution:
+            self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
-- 
2.43.0


From 60d53d5c651527bcfa15988bbb8e572e53ff73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 06/42] fix: a kriging result can be given to KrigingPOD

---
 otpod/_kriging_pod.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 03f63fe..88e8c0b 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -177,7 +177,10 @@ class KrigingPOD(POD, KrigingBase):
             if self._verbose:
                 print("Kriging optimizer completed")
             self._krigingResult = algoKriging.getResult()
-            self._transformation = transformation
+        else:
+            # the given kriging result is expressed with the normalized input sample
+            _, transformation = self._buildKrigingAlgo(self._input, self._signals)
+        self._transformation = transformation
 
         # compute the Q2
         self._Q2 = self._computeQ2(
@@ -226,14 +229,10 @@ class KrigingPOD(POD, KrigingBase):
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
-            The kriging result.
-        transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
+            The kriging result, built on the normalized input sample.
         """
-        try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
+        if not isinstance(result, ot.GaussianProcessRegressionResult):
             raise Exception("The given parameter is not an KrigingResult.")
         self._krigingResult = result
         self._userKriging = True
-- 
2.43.0


From 2486a2e241ce5253ff3b400624aab2ec88b76bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 07/42] fix: a failure of the physical model leaves the design
 of experiments of AdaptiveSignalPOD consistent

---
 otpod/_adaptive_signal_pod.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index c02e899..898c456 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -343,17 +343,16 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             # get the best candidate
             candidateOpt = doeCandidate[indexOpt]
-            # add new point to DOE
-            self._input.add(candidateOpt)
-            # add the signal computed by the physical model
+            # compute the signal with the physical model
             if self._boxCox:
-                self._signals.add(
-                    self._boxCoxTransform(
-                        self._physicalModel(candidateOpt) + [self._shift]
-                    )
+                signalOpt = self._boxCoxTransform(
+                    self._physicalModel(candidateOpt) + [self._shift]
                 )
             else:
-                self._signals.add(self._physicalModel(candidateOpt))
+                signalOpt = self._physicalModel(candidateOpt)
+            # add new point and its signal to DOE
+            self._input.add(candidateOpt)
+            self._signals.add(signalOpt)
             # remove added candidate from the doeCandidate
             doeCandidate.erase(indexOpt)
             if self._verbose:
-- 
2.43.0


From 84037f6ff2f23ff40e4f248edb3abf183455007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 08/42] fix: AdaptiveSignalPOD optimizes again the covariance
 model when Q2 is low

---
 otpod/_adaptive_signal_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 898c456..ef8c8a1 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -377,10 +377,12 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter.setOptimizeParameters(True)
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
                 )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From 3b744ad1a77a8f9c438ba666871864b3c305acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 09/42] fix: validation graph of AdaptiveSignalPOD

---
 otpod/_adaptive_signal_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index ef8c8a1..de06639 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -448,6 +448,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
 
         # The POD at confidence level is built in getPODCLModel() directly
+        self._transformation = transformation
 
         # remove the interactive plotting
         plt.ioff()
-- 
2.43.0


From 9a77352e31087340e628ae5de906fffe88e4a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 10/42] fix: the enrichment criterion of AdaptiveSignalPOD uses
 the updated kriging model

---
 otpod/_adaptive_signal_pod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index de06639..9af0741 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -393,6 +393,10 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             except AttributeError:
                 self._basis = self._krigingResult.getBasisCollection()[0]  # ot<1.21
 
+            metamodel = ot.ComposedFunction(
+                self._krigingResult.getMetaModel(), transformation
+            )
+
             self._Q2 = self._computeQ2(
                 self._input, self._signals, self._krigingResult, transformation
             )
-- 
2.43.0


From 7c5db83e7053c84e1434f514e734660f33672f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 11/42] fix: AdaptiveHitMissPOD widens the probability interval
 when no candidate is found

---
 otpod/_adaptive_hitmiss_pod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 748fa67..75fb982 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -276,10 +276,13 @@ class AdaptiveHitMissPOD(POD):
 
             # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
+            # no ambiguous candidate at all : keep all of them
+            if len(ind) == 0:
+                ind = np.arange(len(probs))
 
             ind_rank = np.argsort(probs[ind])
             quant = [
-- 
2.43.0


From 989d1087447ff11dfda2ec7252fdc4a8ab1c67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 12/42] fix: AdaptiveHitMissPOD never adds the same candidate
 twice

---
 otpod/_adaptive_hitmiss_pod.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 75fb982..971a128 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -293,7 +293,7 @@ class AdaptiveHitMissPOD(POD):
                 len(ind) - 1,
             ]
 
-            ind_bis = ind_rank[quant]
+            ind_bis = ind_rank[np.unique(quant)]
             x_new = doeCandidate[ind[ind_bis], :]
             z_new = np.hstack(self._physicalModel(x_new))
 
@@ -307,6 +307,9 @@ class AdaptiveHitMissPOD(POD):
             self._input = np.vstack((self._input, x_new))
             self._signals = np.hstack((self._signals, z_new))
 
+            # remove added candidates from the doeCandidate
+            doeCandidate = np.delete(doeCandidate, ind[ind_bis], axis=0)
+
             n_added_points = n_new_temp - n_ini
             algo_iteration = algo_iteration + 1
 
-- 
2.43.0


From 187bc4ee800dc76a746a96afaa1ae6546b8f3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 13/42] fix: a failure of the physical model leaves
 AdaptiveHitMissPOD usable

---
 otpod/_adaptive_hitmiss_pod.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 971a128..6349a9b 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -215,8 +215,8 @@ class AdaptiveHitMissPOD(POD):
             print("Building the classifier")
 
         n_ini = int(self._input.getSize())
-        self._input = np.array(self._input)
-        self._signals = np.hstack(self._signals)
+        inputDOE = np.array(self._input)
+        signalsDOE = np.hstack(self._signals)
 
         n_added_points = 0
         algo_iteration = 0
@@ -251,7 +251,7 @@ class AdaptiveHitMissPOD(POD):
                 )
             )[0]
 
-        algo_temp.fit(self._input, self._signals)
+        algo_temp.fit(inputDOE, signalsDOE)
 
         list_classifiers = []
         f_iter = algo_temp.predict_proba
@@ -297,15 +297,17 @@ class AdaptiveHitMissPOD(POD):
             x_new = doeCandidate[ind[ind_bis], :]
             z_new = np.hstack(self._physicalModel(x_new))
 
-            n_new_temp = len(self._input) + len(x_new)
+            n_new_temp = len(inputDOE) + len(x_new)
 
             # si on depasse le nombre de points, on s arrete
             if n_new_temp > (n_ini + self._nMorePoints):
-                x_new = x_new[: self._nMorePoints + n_ini - len(self._input), :]
-                z_new = z_new[: self._nMorePoints + n_ini - len(self._input)]
+                x_new = x_new[: self._nMorePoints + n_ini - len(inputDOE), :]
+                z_new = z_new[: self._nMorePoints + n_ini - len(inputDOE)]
 
-            self._input = np.vstack((self._input, x_new))
-            self._signals = np.hstack((self._signals, z_new))
+            inputDOE = np.vstack((inputDOE, x_new))
+            signalsDOE = np.hstack((signalsDOE, z_new))
+            self._input = ot.Sample(inputDOE)
+            self._signals = ot.Sample(np.vstack(signalsDOE))
 
             # remove added candidates from the doeCandidate
             doeCandidate = np.delete(doeCandidate, ind[ind_bis], axis=0)
@@ -341,13 +343,13 @@ class AdaptiveHitMissPOD(POD):
                     )
                 )[0]
 
-            # Apprentissage avec self._input,self._signals
-            algo_temp.fit(self._input, self._signals)
+            # Apprentissage avec inputDOE,signalsDOE
+            algo_temp.fit(inputDOE, signalsDOE)
 
             self._confMat = np.zeros((2, 2))
             for classifier in list_classifiers:
                 conf_temp = 1.0 * confusion_matrix(
-                    self._signals, classifier(self._input)[:, 1] >= 0.5
+                    signalsDOE, classifier(inputDOE)[:, 1] >= 0.5
                 )
                 conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
                 self._confMat = conf_temp + self._confMat
@@ -405,8 +407,8 @@ class AdaptiveHitMissPOD(POD):
                         transparent=True,
                     )
 
-        self._input = ot.Sample(self._input)
-        self._signals = ot.Sample(np.vstack(self._signals))
+        self._input = ot.Sample(inputDOE)
+        self._signals = ot.Sample(np.vstack(signalsDOE))
         # Compute the sample predicted for each defect sizes
         self._PODPerDefect = self._computePOD(self._defectSizes, self._classifierModel)
         # compute the POD for all defect sizes
-- 
2.43.0


From add08e71ef0f30e1365caf2daaa42bc91ed68e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 14/42] fix: the successive classifiers of AdaptiveHitMissPOD
 keep their own confusion matrix

---
 otpod/_adaptive_hitmiss_pod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 6349a9b..ea19443 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -360,7 +360,9 @@ class AdaptiveHitMissPOD(POD):
             p11 = self._confMat[1, 1]
             p10 = self._confMat[1, 0]
 
-            def agg_classifier(x_in):
+            def agg_classifier(
+                x_in, p11=p11, p10=p10, classif_algo_temp=classif_algo_temp
+            ):
                 c = p11 - p10
                 p1_bayes = 1.0 / c * (classif_algo_temp(x_in)[:, 1] - p10)
                 p1_bayes = np.vstack(
-- 
2.43.0


From 89fc9547fea0fafdac004c3b8ed25d950da9dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 15/42] fix: AdaptiveHitMissPOD creates the graph directory

---
 otpod/_adaptive_hitmiss_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index ea19443..8217fdb 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -402,6 +402,8 @@ class AdaptiveHitMissPOD(POD):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
+                    if not os.path.exists(self._graphDirectory):
+                        os.makedirs(self._graphDirectory)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveHitMissPOD_")
                         + str(algo_iteration),
-- 
2.43.0


From 0a8330c76b7579c46ed90334e96562618ac00bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 16/42] fix: names of the detection sizes give the asked levels

---
 otpod/_pod.py                     | 19 +++++++++++++------
 otpod/_pod_summary.py             |  7 ++++---
 otpod/_quantile_regression_pod.py |  8 ++++----
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 3acae13..078d889 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -9,6 +9,13 @@ import numpy as np
 from ._math_tools import computeBoxCox, DataHandling
 
 
+def _levelLabel(level):
+    """
+    Percentage of the given level, as used in the names of the detection sizes.
+    """
+    return str(int(round(level * 100, 6)))
+
+
 class POD(object):
     """
     Base class to compute the POD with the subclass.
@@ -124,7 +131,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + _levelLabel(probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -141,9 +148,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _levelLabel(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + _levelLabel(confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -232,7 +239,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _levelLabel(probabilityLevel)
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -244,9 +251,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + _levelLabel(probabilityLevel)
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + _levelLabel(confidenceLevel)
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..b7f12bd 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -4,6 +4,7 @@ __all__ = ["PODSummary"]
 
 import openturns as ot
 import numpy as np
+from ._pod import _levelLabel
 from ._univariate_linear_model_analysis import UnivariateLinearModelAnalysis
 from ._univariate_linear_model_pod import UnivariateLinearModelPOD
 from ._quantile_regression_pod import QuantileRegressionPOD
@@ -569,11 +570,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + _levelLabel(probabilityLevel),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _levelLabel(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + _levelLabel(confidenceLevel),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 594f50d..2589149 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -4,7 +4,7 @@ __all__ = ["QuantileRegressionPOD"]
 
 import openturns as ot
 import numpy as np
-from ._pod import POD
+from ._pod import POD, _levelLabel
 from statsmodels.regression.quantile_regression import QuantReg
 from scipy.interpolate import interp1d
 from ._decorator import DocInherit, keepingArgs
@@ -311,7 +311,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + _levelLabel(probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -329,9 +329,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _levelLabel(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + _levelLabel(confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From bc7699e3feda3993e8d17c9c9451c8bcfebfb67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 17/42] fix: the results of a POD study stay those of the last
 run when a parameter is changed afterwards

---
 otpod/_adaptive_hitmiss_pod.py        | 24 +++++++++++++-----------
 otpod/_adaptive_signal_pod.py         |  2 ++
 otpod/_kriging_pod.py                 |  1 +
 otpod/_kriging_tools.py               | 22 +++++++++++-----------
 otpod/_polynomial_chaos_pod.py        | 23 ++++++++++++-----------
 otpod/_quantile_regression_pod.py     |  3 ++-
 otpod/_univariate_linear_model_pod.py |  8 +++++---
 7 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8217fdb..36a7464 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -396,6 +396,7 @@ class AdaptiveHitMissPOD(POD):
                     self._defectSizes, np.array(meanPOD), kind="linear"
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+                self._PODdefectSizes = self._defectSizes.copy()
                 # The POD at confidence level is built in getPODCLModel() directly
                 fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
                 plt.draw()
@@ -420,6 +421,7 @@ class AdaptiveHitMissPOD(POD):
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODdefectSizes = self._defectSizes.copy()
 
         # The POD at confidence level is built in getPODCLModel() directly
 
@@ -458,7 +460,7 @@ class AdaptiveHitMissPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -472,8 +474,8 @@ class AdaptiveHitMissPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -481,8 +483,8 @@ class AdaptiveHitMissPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -498,27 +500,27 @@ class AdaptiveHitMissPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 9af0741..9ea9f6d 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -410,6 +410,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                     self._defectSizes, np.array(meanPOD), kind="linear"
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+                self._PODdefectSizes = self._defectSizes.copy()
                 # The POD at confidence level is built in getPODCLModel() directly
                 fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
                 plt.draw()
@@ -450,6 +451,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODdefectSizes = self._defectSizes.copy()
 
         # The POD at confidence level is built in getPODCLModel() directly
         self._transformation = transformation
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 88e8c0b..e8bcb4d 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -220,6 +220,7 @@ class KrigingPOD(POD, KrigingBase):
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODdefectSizes = self._defectSizes.copy()
 
         # The POD at confidence level is built in getPODCLModel() directly
 
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index b419486..ddef77f 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -49,7 +49,7 @@ class KrigingBase:
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -63,8 +63,8 @@ class KrigingBase:
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -72,8 +72,8 @@ class KrigingBase:
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -89,27 +89,27 @@ class KrigingBase:
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 10d8564..4090c12 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -197,6 +197,7 @@ class PolynomialChaosPOD(POD):
         # create the interpolate function
         interpModel = interp1d(self._defectSizes, self.POD, kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODdefectSizes = self._defectSizes.copy()
 
         ####################### confidence interval ############################
         dof = inputSize - basisSize - 1
@@ -251,7 +252,7 @@ class PolynomialChaosPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -265,8 +266,8 @@ class PolynomialChaosPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -274,8 +275,8 @@ class PolynomialChaosPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._PODdefectSizes),
+                np.max(self._PODdefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -291,27 +292,27 @@ class PolynomialChaosPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._PODdefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._PODdefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._PODdefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 2589149..286bdd6 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -149,6 +149,7 @@ class QuantileRegressionPOD(POD):
         yvalue = np.hstack([0.0, self._quantile, self._quantile.max()])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
+        self._PODquantile = self._quantile.copy()
 
         ############ Confidence interval with bootstrap ########################
         # Compute a NsimulationSize defect sizes for all quantiles
@@ -251,7 +252,7 @@ class QuantileRegressionPOD(POD):
         )
 
         xvalue = np.hstack([0, np.array(defectsQuantile), self._defects.getMax()[0]])
-        yvalue = np.hstack([0.0, self._quantile, self._quantile.max()])
+        yvalue = np.hstack([0.0, self._PODquantile, self._PODquantile.max()])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index a57df6d..ad34870 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -253,10 +253,12 @@ class UnivariateLinearModelPOD(POD):
             )
         else:
             # Linear regression model + gaussian residuals or + bootstrap
+            PODcoll = self._PODcollDict
+
             def PODfunction(x):
-                samplePODDef = ot.Sample(self._simulationSize, 1)
-                for i in range(self._simulationSize):
-                    samplePODDef[i] = [self._PODcollDict[i](x[0])]
+                samplePODDef = ot.Sample(len(PODcoll), 1)
+                for i in range(len(PODcoll)):
+                    samplePODDef[i] = [PODcoll[i](x[0])]
                 return samplePODDef.computeQuantilePerComponent(1.0 - confidenceLevel)
 
         PODmodelCl = ot.PythonFunction(1, 1, PODfunction)
-- 
2.43.0


From f78de4b0d202ffe245ec72a0f8d0bc8ab2e933dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 18/42] fix: POD curves built with kriging stay between 0 and 1

---
 otpod/_adaptive_signal_pod.py | 4 ++--
 otpod/_kriging_pod.py         | 2 +-
 otpod/_kriging_tools.py       | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 9ea9f6d..e3e046f 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -407,7 +407,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 # create the interpolate function of the POD model
                 meanPOD = self._PODPerDefect.computeMean()
                 interpModel = interp1d(
-                    self._defectSizes, np.array(meanPOD), kind="linear"
+                    self._defectSizes, np.clip(np.array(meanPOD), 0.0, 1.0), kind="linear"
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 self._PODdefectSizes = self._defectSizes.copy()
@@ -449,7 +449,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         # compute the mean POD
         meanPOD = self._PODPerDefect.computeMean()
         # create the interpolate function of the POD model
-        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
+        interpModel = interp1d(self._defectSizes, np.clip(np.array(meanPOD), 0.0, 1.0), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
         self._PODdefectSizes = self._defectSizes.copy()
 
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index e8bcb4d..e56856d 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -218,7 +218,7 @@ class KrigingPOD(POD, KrigingBase):
         # compute the mean POD
         meanPOD = self._PODPerDefect.computeMean()
         # create the interpolate function of the POD model
-        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
+        interpModel = interp1d(self._defectSizes, np.clip(np.array(meanPOD), 0.0, 1.0), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
         self._PODdefectSizes = self._defectSizes.copy()
 
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index ddef77f..a3769ec 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -49,6 +49,8 @@ class KrigingBase:
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
+        # the gaussian approximation of the POD estimator may be out of [0, 1]
+        PODQuantile = np.clip(np.array(PODQuantile), 0.0, 1.0)
         interpModel = interp1d(self._PODdefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From 0596b017cdc719ae471d54fff10115caeb524233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 19/42] fix: missing line break in the file saved by PODSummary

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index b7f12bd..1d6636e 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -550,7 +550,7 @@ class PODSummary:
             fd.write(regressionResult)
             fd.write("\n\nResiduals analysis results\n\n")
             fd.write(residualsResult)
-            fd.write("Model validation results\n\n")
+            fd.write("\n\nModel validation results\n\n")
             fd.write(validationResult)
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
-- 
2.43.0


From 8544f1986406c9ed01382393c8e3e2c48ca79a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 20/42] fix: PODSummary draws the graphs without probability
 level or with a given Box Cox parameter

---
 otpod/_pod_summary.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 1d6636e..a1db9b1 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -766,7 +766,7 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox:
+        if self._boxCox and type(self._boxCox) is not float:
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
@@ -867,11 +867,13 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0


From 4493f391c868b4b696936ac8c12ebce23a5e7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 21/42] fix: PODSummary never mixes the results of different
 runs

---
 otpod/_pod_summary.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index a1db9b1..390ded4 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -119,6 +119,14 @@ class PODSummary:
         Run all active methods.
         """
 
+        # forget the results of a previous run
+        self._PODgauss = None
+        self._PODbin = None
+        self._PODks = None
+        self._PODqr = None
+        self._PODchaos = None
+        self._PODkriging = None
+
         # run the univariate linear model analysis with gaussian residuals hypothesis
         if self._verbose:
             print("\nStart univariate linear model analysis...")
@@ -555,7 +563,23 @@ class PODSummary:
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
 
+    def _checkRun(self):
+        """
+        Check that all the active methods have been run.
+        """
+        for method, accessor in (
+            ("LinearGauss", self.getLinearGaussPOD),
+            ("LinearBinomial", self.getLinearBinomialPOD),
+            ("LinearKernelSmoothing", self.getLinearKernelSmoothingPOD),
+            ("QuantileRegression", self.getQuantileRegressionPOD),
+            ("PolynomialChaos", self.getPolynomialChaosPOD),
+            ("Kriging", self.getKrigingPOD),
+        ):
+            if self._activeMethods[method] and (method != "Kriging" or self._dim > 1):
+                accessor()
+
     def _buildPrintResults(self, probabilityLevel, confidenceLevel):
+        self._checkRun()
 
         # number of digits to be displayed
         n_digits = 2
@@ -761,6 +785,7 @@ class PODSummary:
             defect size is computed. Default is None.
         """
 
+        self._checkRun()
         if directory is None:
             directory = os.getcwd()
 
-- 
2.43.0


From 87835aafa7e46e68b76de5b4a281336d389a414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 22/42] fix: PLI failure sample for large comparison operators

---
 otpod/_pli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..b544693 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -150,7 +150,15 @@ class PLI:
             .getClassName()
         )
         threshold = self._monteCarloResult.getEvent().getThreshold()
-        if operator in ["Less", "LessOrEqual"]:
+        if operator == "LessOrEqual":
+            return np.array(inputSample)[
+                (np.hstack(np.array(outputSample)) <= threshold), :
+            ]
+        elif operator == "GreaterOrEqual":
+            return np.array(inputSample)[
+                (np.hstack(np.array(outputSample)) >= threshold), :
+            ]
+        elif operator in ["Less", "LessOrEqual"]:
             return np.array(inputSample)[
                 (np.hstack(np.array(outputSample)) < threshold), :
             ]
-- 
2.43.0


From 75f45ae9cf416542fa0e4d3ca817bcb2d2bd5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 23/42] fix: aggregated POD of the chaos uses the defect sizes
 of the sensitivity study

---
 otpod/_sobol_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index d8b869c..31e3243 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -573,7 +573,7 @@ class PODaggrChaos(ot.OpenTURNSPythonFunction):
         # create sample combining all defect size with the given X
         x = np.array(X, ndmin=2)
         x = x.repeat(self.defectNumber, axis=0)
-        xWitha = np.concatenate((np.vstack(self.chaosPOD._defectSizes), x), axis=1)
+        xWitha = np.concatenate((np.vstack(self.defectSizes), x), axis=1)
         # add randomness from the residual, identical for all defect size
         residualsSample = np.hstack(
             self.chaosPOD._normalDist.getSample(self.simulationSize)
-- 
2.43.0


From 3e51bdd9d7e8fb5374d0684f1b6736fa7b40cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 24/42] fix: sign test of the kriging variance in the Sobol
 indices

---
 otpod/_sobol_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 31e3243..c453a62 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -502,13 +502,13 @@ class PODaggrKriging(ot.OpenTURNSPythonFunction):
 
         # check if the variance is positive of not, accept negative values
         # if they are > -1e-2, else raise an error.
-        if (var < 0).all():
+        if (var < 0).any():
             logging.warning(
                 "Warning : some variance values are negatives, "
                 + "the kriging model may not be accurate enough."
             )
 
-            if (var[var < 0] < 1e-2).all():
+            if (var[var < 0] < -1e-2).any():
                 raise ValueError(
                     "Variance values are lower than -1e-2. Please "
                     + "check the validity of the kriging model."
-- 
2.43.0


From d158c475203baf2bbda346477f0a09b03333d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 25/42] fix: the progress of AdaptiveHitMissPOD always ends
 with 100 percent

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 36a7464..d70b126 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -312,7 +312,7 @@ class AdaptiveHitMissPOD(POD):
             # remove added candidates from the doeCandidate
             doeCandidate = np.delete(doeCandidate, ind[ind_bis], axis=0)
 
-            n_added_points = n_new_temp - n_ini
+            n_added_points = len(inputDOE) - n_ini
             algo_iteration = algo_iteration + 1
 
             if self._classifierType == "svc":
-- 
2.43.0


From c4968eac7f96ea22230d2bf8d97d1764df9b0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 26/42] fix: setBasis refuses values that are not a Basis

---
 otpod/_kriging_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index a3769ec..b03b62d 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -307,9 +307,7 @@ class KrigingBase:
         basis : :py:class:`openturns.Basis`
             The basis used as trend in the kriging model.
         """
-        try:
-            ot.Basis(basis)
-        except NotImplementedError:
+        if not isinstance(basis, ot.Basis):
             raise Exception("The given parameter is not a Basis.")
         self._basis = basis
 
-- 
2.43.0


From 838ce44425d3eabf9eebd590b195fca39f0a8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:02 +0000
Subject: [PATCH 27/42] fix: the validation graph of a kriging study shows the
 metamodel of its last run

---
 otpod/_adaptive_signal_pod.py | 1 +
 otpod/_kriging_pod.py         | 1 +
 otpod/_kriging_tools.py       | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index e3e046f..23d6a7b 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -455,6 +455,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
         self._transformation = transformation
+        self._validatedResult = self._krigingResult
 
         # remove the interactive plotting
         plt.ioff()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index e56856d..3afab9a 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -181,6 +181,7 @@ class KrigingPOD(POD, KrigingBase):
             # the given kriging result is expressed with the normalized input sample
             _, transformation = self._buildKrigingAlgo(self._input, self._signals)
         self._transformation = transformation
+        self._validatedResult = self._krigingResult
 
         # compute the Q2
         self._Q2 = self._computeQ2(
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index b03b62d..944c76f 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -151,7 +151,7 @@ class KrigingBase:
     def drawValidationGraph(self, name=None):
 
         y_loo = self._computeLOO(
-            self._input, self._signals, self._krigingResult, self._transformation
+            self._input, self._signals, self._validatedResult, self._transformation
         )
         fig, ax = self._drawValidationGraph(self._signals, y_loo)
         ax.set_title("Validation of the Kriging model")
-- 
2.43.0


From 50a5e7cba4d9dc8f61cecfccad813f9b133686f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:20 +0000
Subject: [PATCH 28/42] fix: confidence curves of the quantile regression POD
 do not cross each other

---
 otpod/_quantile_regression_pod.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 286bdd6..ba159e4 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -251,8 +251,14 @@ class QuantileRegressionPOD(POD):
             confidenceLevel
         )
 
-        xvalue = np.hstack([0, np.array(defectsQuantile), self._defects.getMax()[0]])
-        yvalue = np.hstack([0.0, self._PODquantile, self._PODquantile.max()])
+        # The regression quantiles may cross each other: the sizes are sorted so
+        # that the curve is increasing and decreases with the confidence level.
+        defectsQuantile = np.sort(np.array(defectsQuantile))
+        xvalue = np.hstack([defectsQuantile, self._defects.getMax()[0]])
+        yvalue = np.hstack([self._PODquantile, self._PODquantile.max()])
+        if defectsQuantile[0] > 0.0:
+            xvalue = np.hstack([0, xvalue])
+            yvalue = np.hstack([0.0, yvalue])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From bca2fe0a73001402fed1958432e217cb6b2ff152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:47 +0000
Subject: [PATCH 29/42] fix: drawing a POD over its whole range does not fail
 because of rounding

---
 otpod/_pod.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 078d889..d55c5e6 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -16,6 +16,15 @@ def _levelLabel(level):
     return str(int(round(level * 100, 6)))
 
 
+def _bounded(model, defectMin, defectMax):
+    # The last abscissa of a drawn curve can exceed the upper bound by a rounding
+    # error, where an interpolated model is not defined.
+    def evaluate(x):
+        return model([min(max(x[0], defectMin), defectMax)])
+
+    return ot.PythonFunction(1, 1, evaluate)
+
+
 class POD(object):
     """
     Base class to compute the POD with the subclass.
@@ -204,7 +213,7 @@ class POD(object):
         fig, ax = plt.subplots(figsize=(8, 6))
         # POD model graph
         _ = View(
-            PODmodel.draw(defectMin, defectMax, nbPt),
+            _bounded(PODmodel, defectMin, defectMax).draw(defectMin, defectMax, nbPt),
             axes=[ax],
             plot_kw={"color": "red", "label": "POD"},
         )
@@ -212,7 +221,9 @@ class POD(object):
         if confidenceLevel is not None:
             # POD at confidence level graph
             _ = View(
-                PODmodelCl.draw(defectMin, defectMax, nbPt),
+                _bounded(PODmodelCl, defectMin, defectMax).draw(
+                    defectMin, defectMax, nbPt
+                ),
                 axes=[ax],
                 plot_kw={
                     "color": "blue",
-- 
2.43.0


From 2dbe2f1a7f66ee5abf58a6e591a8f7ed4779e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:56 +0000
Subject: [PATCH 30/42] fix: a Box-Cox parameter given as a numpy float is used

---
 otpod/_pod.py                              | 2 +-
 otpod/_pod_summary.py                      | 2 +-
 otpod/_univariate_linear_model_analysis.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index d55c5e6..27e8df3 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -44,7 +44,7 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 390ded4..504508e 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -791,7 +791,7 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox and type(self._boxCox) is not float:
+        if self._boxCox and not isinstance(self._boxCox, float):
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index e13237c..7a3f661 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,7 +147,7 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
-- 
2.43.0


From ea95dba2c0257cfdcd59b07af88f3d253ba4c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 31/42] fix: kriging POD uses the dependence between the other
 inputs

---
 otpod/_kriging_tools.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 944c76f..be68e56 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -435,13 +435,11 @@ class KrigingBase:
         """
 
         dim = distribution.getDimension()
-        # create a distibution with a dirac distribution for the defect size
-        diracDist = [ot.Dirac(defect)]
-        diracDist += [distribution.getMarginal(i + 1) for i in range(dim - 1)]
-        distribution = ot.JointDistribution(diracDist)
-
-        # create a sample for the Monte Carlo simulation and confidence interval
-        MC_sample = distribution.getSample(samplingSize)
+        # create a sample for the Monte Carlo simulation and confidence interval :
+        # the defect size is fixed, the other inputs follow their joint distribution
+        MC_sample = ot.Sample(samplingSize, [defect] * dim)
+        otherDist = distribution.getMarginal(list(range(1, dim)))
+        MC_sample[:, 1:] = otherDist.getSample(samplingSize)
         # Kriging_RV = ot.KrigingRandomVector(krigingResult, MC_sample)
         # Y_sample = Kriging_RV.getSample(simulationSize)
         Y_sample = self._randomVectorSampling(
-- 
2.43.0


From b15db745d26ca355e8472a9e68e648d28109159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 32/42] fix: distributions and classifier parameters given by
 the user are copied

---
 otpod/_adaptive_hitmiss_pod.py | 5 +++--
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli.py                  | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 6 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d70b126..41a306d 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -2,6 +2,7 @@
 
 __all__ = ["AdaptiveHitMissPOD"]
 
+import copy
 import os
 import openturns as ot
 import numpy as np
@@ -623,7 +624,7 @@ class AdaptiveHitMissPOD(POD):
         """
         Accessor to the classifier parameters.
         """
-        self._ClassifierParameters = parameters
+        self._ClassifierParameters = copy.deepcopy(parameters)
 
     def getOutputDOE(self):
         """
@@ -774,7 +775,7 @@ class AdaptiveHitMissPOD(POD):
         """
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
-        self._distribution = distribution
+        self._distribution = ot.JointDistribution(distribution)
         self._userDistribution = True
 
     def getDistribution(self):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index be68e56..075861f 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -280,7 +280,7 @@ class KrigingBase:
         """
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
-        self._distribution = distribution
+        self._distribution = ot.JointDistribution(distribution)
         self._userDistribution = True
 
     def getDistribution(self):
diff --git a/otpod/_pli.py b/otpod/_pli.py
index b544693..182589d 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -64,7 +64,7 @@ class PLI:
 
         # the original distribution
         if distribution.hasIndependentCopula():
-            self._distribution = distribution
+            self._distribution = ot.Distribution(distribution)
         else:
             raise Exception("The distribution must have an independent copula.")
         self._dim = self._distribution.getDimension()
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index d11f708..7071228 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -220,7 +220,7 @@ class PLIBase:
             raise AttributeError(
                 "The dimension of the distribution must be {}.".format(self._dim)
             )
-        self._distribution = distribution
+        self._distribution = ot.JointDistribution(distribution)
 
     def getDistribution(self):
         """
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 4090c12..9832a43 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -508,7 +508,7 @@ class PolynomialChaosPOD(POD):
         """
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
-        self._distribution = distribution
+        self._distribution = ot.JointDistribution(distribution)
         self._userDistribution = True
 
     def getDistribution(self):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index c453a62..7cbd800 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -420,7 +420,7 @@ class SobolIndices:
             raise AttributeError(
                 "The dimension of the distribution must be {}.".format(self._dim)
             )
-        self._distribution = distribution
+        self._distribution = ot.JointDistribution(distribution)
 
     def getDistribution(self):
         """
-- 
2.43.0


From 6da1ab72695cfb73d679c979dde24ecba03ee67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 33/42] fix: a new run of the adaptive signal study does not
 add a point already in the DOE

---
 otpod/_adaptive_signal_pod.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 23d6a7b..1399d0d 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -199,11 +199,19 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         if self._distribution.hasIndependentCopula():
             # without copula use low discrepancy experiment as first doe
             doeCandidate = ot.LowDiscrepancyExperiment(
-                ot.SobolSequence(), self._distribution, self._candidateSize
+                ot.SobolSequence(),
+                self._distribution,
+                self._candidateSize + self._input.getSize(),
             ).generate()
         else:
             # else simple Monte Carlo distribution
             doeCandidate = self._distribution.getSample(self._candidateSize)
+        # points already in the DOE, e.g. added by a previous run, are replaced
+        # by the next ones of the sequence
+        doePoints = set(tuple(point) for point in self._input)
+        doeCandidate = ot.Sample(
+            [point for point in doeCandidate if tuple(point) not in doePoints]
+        )[: self._candidateSize]
 
         # build initial kriging model
         # build the kriging model without optimization
-- 
2.43.0


From 222a363f7540837b4a711e4cbde9f7838dc1d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 34/42] fix: a new run of the adaptive hit/miss study does not
 add a point already in the DOE

---
 otpod/_adaptive_hitmiss_pod.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 41a306d..c10a807 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -202,13 +202,19 @@ class AdaptiveHitMissPOD(POD):
         if self._distribution.hasIndependentCopula():
             # without copula use low discrepancy experiment as first doe
             doeCandidate = ot.LowDiscrepancyExperiment(
-                ot.SobolSequence(), self._distribution, self._candidateSize
+                ot.SobolSequence(),
+                self._distribution,
+                self._candidateSize + self._input.getSize(),
             ).generate()
         else:
             # else simple Monte Carlo distribution on Uniform distribution
             doeCandidate = self._distribution.getSample(self._candidateSize)
-
-        doeCandidate = np.array(doeCandidate)
+        # points already in the DOE, e.g. added by a previous run, are replaced
+        # by the next ones of the sequence
+        doePoints = set(tuple(point) for point in self._input)
+        doeCandidate = np.array(
+            [point for point in doeCandidate if tuple(point) not in doePoints]
+        )[: self._candidateSize]
         # build initial classifier model
         # build the kriging model without optimization
 
-- 
2.43.0


From 2b39e944de909cc0ed38d79a6f1a4aec289017d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:53 +0000
Subject: [PATCH 35/42] fix: a Box-Cox option given along with a linear
 analysis is refused instead of ignored

---
 otpod/_univariate_linear_model_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index ad34870..81ce80f 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -95,6 +95,7 @@ class UnivariateLinearModelPOD(POD):
                 assert noiseThres is None
                 assert saturationThres is None
                 assert resDistFact is None
+                assert boxCox is False
                 assert detection is not None
             except Exception:
                 raise AttributeError(
-- 
2.43.0


From 6b6af15af522a421fc23560982f83fc5bc7a5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 36/42] fix: the perturbed mean of a uniform input no longer
 depends on its unit and exists near the original mean

---
 otpod/_pli.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 182589d..031dcc1 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -672,30 +672,34 @@ class PLIMeanBase(PLI):
 
             elif marginalDist.getImplementation().getClassName() == "Uniform":
                 # define the function Mx'/Mx - delta, must be = 0 to find optimal lambda
-                def MprimeOverM(lamb, a, b, delta):
-                    a = float(a)
-                    if lamb == 0:
-                        return (a + b) / 2 - delta
+                # for the uniform variable on [-1, 1]
+                def MprimeOverM(lamb, delta):
+                    if np.abs(lamb) < 1e-4:
+                        return lamb / 3 - delta
                     else:
-                        return (
-                            np.exp(lamb * b) * (lamb * b - 1)
-                            + np.exp(lamb * a) * (1 - lamb * a)
-                        ) / (lamb * (np.exp(lamb * b) - np.exp(lamb * a))) - delta
+                        return 1 / np.tanh(lamb) - 1 / lamb - delta
 
                 a, b = marginalDist.getParameter()
+                # work with the variable reduced on [-1, 1], otherwise the
+                # exponentials overflow depending on the unit of the input
+                center, half = (a + b) / 2, (b - a) / 2
+                Z = (X - center) / half
                 # compute the optimal lambda solving the M'/M - delta = 0
                 optimalLambda = fsolve(
                     MprimeOverM,
                     0,
-                    args=(a, b, delta),
-                    epsfcn=marginalDist.getStandardDeviation()[0] * 0.01,
+                    args=((delta - center) / half,),
+                    epsfcn=marginalDist.getStandardDeviation()[0] / half * 0.01,
                 )
 
                 # return the analytical expression of the distribution
+                normalization = 0.5
+                if optimalLambda != 0:
+                    normalization = optimalLambda / (2 * np.sinh(optimalLambda))
                 return (
-                    optimalLambda
-                    / (np.exp(optimalLambda * b) - np.exp(optimalLambda * a))
-                    * np.exp(optimalLambda * X)
+                    normalization
+                    * np.exp(optimalLambda * Z)
+                    / half
                     * np.logical_and(X <= b, X >= a)
                 )
             else:
-- 
2.43.0


From 1c6190bd4c664e90d7d6cd7bfaf34f8afa85e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 37/42] fix: the perturbed variance of a uniform input no
 longer depends on its unit

---
 otpod/_pli.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 031dcc1..fbf56a0 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -789,14 +789,18 @@ class PLIVarianceBase(PLI):
 
                 # set the delta vector which the right hand of the constraints
                 # see eq 10 in Lemaitre paper
+                # written for the standardized variable, otherwise the
+                # optimization depends on the unit of the input
                 mean = marginalDist.getMean()[0]
-                deltaRHS = [mean, delta + mean**2]
+                std = marginalDist.getStandardDeviation()[0]
+                Z = (X - mean) / std
+                deltaRHS = [0.0, delta / std**2]
 
                 # find the optimal lambda for a given delta values
                 optimalLambda = self.optimizeLambda(marginal, deltaRHS)
                 psi = np.log(self.computeIntegral(marginal, optimalLambda, 0))
                 return np.exp(
-                    optimalLambda[0] * X + optimalLambda[1] * X**2 - psi
+                    optimalLambda[0] * Z + optimalLambda[1] * Z**2 - psi
                 ) * marginalDist.computePDF(X)
             else:
                 raise NotImplementedError(
@@ -827,13 +831,15 @@ class PLIVarianceBase(PLI):
         lamb : sequence of float of dim 2
             The optimization parameters
         degree : int
-            The wanted degree of the X values in the equation.
+            The wanted degree of the standardized X values in the equation.
         """
         X = np.atleast_2d(X)
+        marginalDist = self._distribution.getMarginal(marginal)
+        Z = (X - marginalDist.getMean()[0]) / marginalDist.getStandardDeviation()[0]
         return (
-            X**degree
-            * np.array(self._distribution.getMarginal(marginal).computePDF(X))
-            * np.exp(lamb[0] * X + lamb[1] * X**2)
+            Z**degree
+            * np.array(marginalDist.computePDF(X))
+            * np.exp(lamb[0] * Z + lamb[1] * Z**2)
         )
 
     def computeIntegral(self, marginal, lamb, degree):
-- 
2.43.0


From d6a258e1ac5bca791ff49af0a5935143c879ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:28 +0000
Subject: [PATCH 38/42] fix: PLI graph with deltas given for each input, or
 integer deltas and Hellinger abscissas

---
 otpod/_pli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index fbf56a0..260cc8e 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -394,7 +394,9 @@ class PLI:
 
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
-            x_support = np.hstack(self._originalDelta.copy())
+            # the deltas are either common to all inputs or given for each of them
+            column = marginal if self._originalDelta.shape[1] > 1 else 0
+            x_support = self._originalDelta[:, column].astype(float)
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From 6cee598f26be163f40d33d1f39dd74e8f2abe44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 39/42] fix: PLI objects of former defect sizes are not given
 after the defect sizes have changed

---
 otpod/_pli_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 7071228..e19b7f4 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -76,6 +76,8 @@ class PLIBase:
 
         # initialize a list to store the pli object for each defect
         self._pli = [object] * self._defectNumber
+        # no defect has been computed yet
+        self._keepedDefect = []
 
     def _runMonteCarlo(self, defect):
         # set a parametric function where the first parameter = given defect
-- 
2.43.0


From 7284f99dcdcfaf9f6e7b11f970af8445514e7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 40/42] fix: keep all points of the validation graph within its
 axes

---
 otpod/_pod.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 27e8df3..ec1f0c8 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -295,9 +295,10 @@ class POD(object):
         target = np.hstack(target)
         prediction = np.hstack(prediction)
         fig, ax = plt.subplots(figsize=(8, 8))
-        # compute boundaries of the graph assuming target and prediction > 0
-        _min = 0.99 * np.concatenate([target, prediction]).min()
-        _max = 1.01 * np.concatenate([target, prediction]).max()
+        # boundaries of the graph, whatever the signs of target and prediction
+        _min = np.concatenate([target, prediction]).min()
+        _max = np.concatenate([target, prediction]).max()
+        _min, _max = _min - 0.01 * abs(_min), _max + 0.01 * abs(_max)
         ax.plot([_min, _max], [_min, _max], "r-", lw=0.5)
         ax.plot(target, prediction, "b.", ms=9)
         ax.grid()
-- 
2.43.0


From 177c38d7978b16326901237dec5ed6fec4013908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 41/42] fix: the graphs of the Sobol indices are those of the
 last run

---
 otpod/_sobol_indices.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 7cbd800..c385339 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -95,6 +95,8 @@ class SobolIndices:
         # initialize method parameter and sa attribute
         self._method = "Saltelli"
         self._sa = None
+        self._saDefectSizes = None
+        self._saMethod = None
 
     def run(self):
         """
@@ -168,6 +170,11 @@ class SobolIndices:
 
         self._sa.setUseAsymptoticDistribution(True)
 
+        # the sizes and the method of these indices, needed to draw them
+        # even if others are set afterwards.
+        self._saDefectSizes = self._defectSizes.copy()
+        self._saMethod = self._method
+
     def getSensitivityResult(self):
         """
         Accessor to the OpenTURNS sensitivity object.
@@ -298,14 +305,15 @@ class SobolIndices:
                 )
 
         # get the indices values that can be computed
+        sa = self.getSensitivityResult()
         xplot = ot.Sample(0, 1)
         yplot = ot.Sample(0, self._dim)
-        for i, defect in enumerate(self._defectSizes):
+        for i, defect in enumerate(self._saDefectSizes):
             try:
                 if order == "first":
-                    yplot.add(self._sa.getFirstOrderIndices(i))
+                    yplot.add(sa.getFirstOrderIndices(i))
                 elif order == "total":
-                    yplot.add(self._sa.getTotalOrderIndices(i))
+                    yplot.add(sa.getTotalOrderIndices(i))
                 xplot.add([defect])
             except Exception:
                 pass
@@ -327,11 +335,11 @@ class SobolIndices:
         ax.set_ylabel("Sensitivity indices")
         if order == "first":
             ax.set_title(
-                "First order sensitivity indices - {} Algorithm".format(self._method)
+                "First order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         elif order == "total":
             ax.set_title(
-                "Total order sensitivity indices - {} Algorithm".format(self._method)
+                "Total order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         ax.set_ylim(0, 1.2)
         ax.grid()
-- 
2.43.0


From 3d0d91d7407bbda8ebfae444da5f4e5e1140f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 42/42] fix: hit/miss POD stays a probability when a class is
 never predicted

---
 otpod/_adaptive_hitmiss_pod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index c10a807..25abc5a 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -358,6 +358,10 @@ class AdaptiveHitMissPOD(POD):
                 conf_temp = 1.0 * confusion_matrix(
                     signalsDOE, classifier(inputDOE)[:, 1] >= 0.5
                 )
+                # a class that is never predicted is never mistaken
+                for k in range(2):
+                    if conf_temp[:, k].sum() == 0:
+                        conf_temp[k, k] = 1.0
                 conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
                 self._confMat = conf_temp + self._confMat
 
-- 
2.43.0

