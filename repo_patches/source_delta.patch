From f3206e00525b9f29a7771b11634b85594e43154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:02 +0000
Subject: [PATCH 01/55] fix: let StateSpace accept its structural parameters

Setting a structural parameter consumed the value before checking how many
values were passed, so the check always failed and every set was refused.
---
 StateSpace/model.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..181b267 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,8 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
+
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +272,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +279,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +286,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From 184d964da94fa42c2a315f275a0527473fc5ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:02 +0000
Subject: [PATCH 02/55] fix: use the dimensions n x m for matrix B of
 StateSpace

Reading B used m rows of n values although it is declared and set as n x m,
and the state derivatives summed over the number of outputs instead of inputs.
---
 StateSpace/model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 181b267..8bf986c 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From c25fd42cc765e62cc9b73d6d600578422daaab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:02 +0000
Subject: [PATCH 03/55] fix: start StateSpace from the initial state vector x0

The declared initial state was never copied to the states, and a reset kept
the last x0 instead of its start value.
---
 StateSpace/model.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 8bf986c..3c9be8c 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,8 +27,8 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
+        M(x0)[i] = 0;
         M(x)[i] = M(x0)[i];
-        M(x)[i] = 0;
     }
 
     comp->isDirtyValues = true;
@@ -200,6 +200,9 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         ASSERT_NVALUES((size_t)M(n));
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
+            if (comp->state == Instantiated || comp->state == InitializationMode) {
+                M(x)[i] = M(x0)[i];
+            }
         }
         break;
     case vr_u:
-- 
2.43.0


From 88be26b03f4956270424429d625c26d55964b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:04 +0000
Subject: [PATCH 04/55] fix: clear the event information and step bookkeeping
 on reset

A reset instance kept the termination request, next event time and stop time
of the previous run and therefore behaved differently from a new instance.
---
 src/cosimulation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..d894498 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -161,9 +161,18 @@ Status reset(ModelInstance* comp) {
 
     comp->state = Instantiated;
     comp->startTime = 0.0;
+    comp->stopTime = 0.0;
     comp->time = 0.0;
+    comp->nextCommunicationPoint = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0;
+    comp->clocksTicked = false;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From 48577d0a592aae0c5a2749a93a8f433fafcc63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:04 +0000
Subject: [PATCH 05/55] fix: refuse communication step sizes that are not
 finite

A NaN or infinite step size passed the check for positive values and DoStep
never returned.
---
 src/fmi2Functions.c | 2 +-
 src/fmi3Functions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..9c1cab6 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -510,7 +510,7 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
         logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
         CALL(Error);
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..f5f74e8 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1209,7 +1209,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
         logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
         CALL(Error);
     }
-- 
2.43.0


From c506421978ff53006489d170eddaa0365903ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:27 +0000
Subject: [PATCH 06/55] fix: compare points in time with a tolerance below the
 internal step

The tolerance grew with the simulation time and exceeded the internal step
size, so DoStep passed the requested communication point by several steps and
accepted wrong communication points late in a simulation, and always for
Roberts whose internal step is smaller than the absolute tolerance.
---
 src/cosimulation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index d894498..c9a3eba 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -179,7 +179,8 @@ Status reset(ModelInstance* comp) {
     return OK;
 }
 
-#define EPSILON (1.0e-5)
+// must be small compared to the internal step size
+#define EPSILON (FIXED_SOLVER_STEP < 1.0e-3 ? 1.0e-2 * FIXED_SOLVER_STEP : 1.0e-5)
 
 static double fmiAbs(double v) {
     return v >= 0 ? v : -v;
@@ -195,7 +196,7 @@ bool isClose(double a, double b) {
         return true;
     }
 
-    return fmiAbs(a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));
+    return fmiAbs(a - b) <= 4 * DBL_EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));
 }
 
 bool invalidNumber(ModelInstance *comp, const char *f, const char *arg, size_t actual, size_t expected) {
-- 
2.43.0


From 1fa54dc457df786a6526cb97c2442faa9c3acd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:27 +0000
Subject: [PATCH 07/55] fix: honour errors and termination of events handled
 inside DoStep

With event mode but without early return DoStep handles an event itself when
it is not the last one before the communication point. It ignored the status
of that update and went on for one more internal step after the model had
asked for termination. It also kept the old event indicators, which reported
the same event again.
---
 src/fmi3Functions.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index f5f74e8..c276ecf 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1240,8 +1240,15 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            eventUpdate(S);
+            CALL(eventUpdate(S));
+#if MAX_EVENT_INDICATORS > 0
+            CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
             *eventHandlingNeeded = fmi3False;
+
+            if (S->terminateSimulation) {
+                break;
+            }
         }
 #endif
 
-- 
2.43.0


From ba40a86c93bde340f4d82a04ae4ddfd90b2f21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:27 +0000
Subject: [PATCH 08/55] fix: do not report an early return at the requested
 communication point

If an event occurred in the internal step that reaches the communication
point, DoStep reported an early return although the step was complete.
---
 src/fmi3Functions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index c276ecf..369b1dd 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1279,6 +1279,9 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         }
     }
 
+    nextCommunicationPointReached = S->time + FIXED_SOLVER_STEP > nextCommunicationPoint
+        && !isClose(S->time + FIXED_SOLVER_STEP, nextCommunicationPoint);
+
     *terminateSimulation = S->terminateSimulation;
     *earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached;
     *lastSuccessfulTime  = S->time;
-- 
2.43.0


From ec9a50fc630b4c662a6a465e17286a2cf3a2f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:27 +0000
Subject: [PATCH 09/55] fix: update the remembered event indicators after an
 event

After an event had been handled, by the importer in event mode or inside the
FMI 2.0 DoStep, the next internal step still compared with the indicators from
before the event and detected an event that did not happen.
---
 src/fmi2Functions.c | 3 +++
 src/fmi3Functions.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 9c1cab6..257d967 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -538,6 +538,9 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
 #ifdef EVENT_UPDATE
         if (stateEvent || timeEvent) {
             CALL(eventUpdate(S));
+#if MAX_EVENT_INDICATORS > 0
+            CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
         }
 #endif
 
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 369b1dd..846cf71 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1161,6 +1161,9 @@ fmi3Status fmi3GetNumberOfContinuousStates(fmi3Instance instance,
 
 fmi3Status fmi3EnterStepMode(fmi3Instance instance) {
     BEGIN_FUNCTION(EnterStepMode);
+#if MAX_EVENT_INDICATORS > 0
+    CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
     S->state = StepMode;
     END_FUNCTION();
 }
-- 
2.43.0


From 5fdb9b19f144b8b7761f44b2e87b950911a52195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:27 +0000
Subject: [PATCH 10/55] fix: count Stair events that are not on the internal
 step grid

The time event is detected at the first internal step at or after its time,
but the counter was only incremented if that step was exactly on time. With a
start time that is not a multiple of the internal step it never counted.
---
 Stair/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..59e0601 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -86,7 +86,7 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
 Status eventUpdate(ModelInstance *comp) {
     ASSERT_NOT_NULL2(comp);
 
-    if (comp->nextEventTimeDefined && isClose(comp->time, comp->nextEventTime)) {
+    if (comp->nextEventTimeDefined && (comp->time >= comp->nextEventTime || isClose(comp->time, comp->nextEventTime))) {
         M(counter)++;
         comp->nextEventTime += 1;
     }
-- 
2.43.0


From e4bc2bd724a5ac19415335b82b0ae0c9177e0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:57 +0000
Subject: [PATCH 11/55] fix: calculate the event indicator variables of Roberts

The variables g1 and g2 are declared as the event indicators but were never
assigned and always read zero.
---
 Roberts/model.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..d95a641 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
@@ -257,8 +260,8 @@ Status getEventIndicators(ModelInstance* comp, double z[], size_t nz) {
 
     calculateValues(comp);
 
-    z[0] = M(y1) - 0.0001;
-    z[1] = M(y3) - 0.01;
+    z[0] = M(g1);
+    z[1] = M(g2);
 
     return OK;
 }
-- 
2.43.0


From 476e98419d02e7341adf5f5e41ef88ce96745e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:57 +0000
Subject: [PATCH 12/55] fix: make the start of y3 in Roberts independent of
 earlier reads

Switching to the DAE form keeps the current y3. It was only up to date if some
variable had been read since the last change, so reading a variable changed
the results.
---
 Roberts/model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index d95a641..5b0811e 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -148,6 +148,7 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
     switch (vr) {
     case vr_dae:
         ASSERT_NVALUES(1);
+        calculateValues(comp);
         M(dae) = values[(*index)++];
         break;
     default:
-- 
2.43.0


From 9e2268b92dee63a8253c38024ee58d75f3962f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:57 +0000
Subject: [PATCH 13/55] fix: include the dependency of y3 in the partial
 derivatives of Roberts

In the ODE form y3 is calculated from y1 and y2, but the derivatives with
respect to y1 and y2 were those of the DAE form with y3 held constant.
---
 Roberts/model.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Roberts/model.c b/Roberts/model.c
index 5b0811e..cee9555 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -177,22 +177,25 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 
     calculateValues(comp);
 
+    // dy3/dy1 and dy3/dy2
+    const double dy3 = M(dae) ? 0.0 : -1.0;
+
     if (unknown == vr_der_y1 && known == vr_y1) {
-        *partialDerivative = -0.04;
+        *partialDerivative = -0.04 + 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y1 && known == vr_y2) {
-        *partialDerivative = 1e4 * M(y3);
+        *partialDerivative = 1e4 * M(y3) + 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y1 && known == vr_y3) {
         *partialDerivative = 1e4 * M(y2);
     } else if (unknown == vr_der_y2 && known == vr_y1) {
-        *partialDerivative = 0.04;
+        *partialDerivative = 0.04 - 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y2 && known == vr_y2) {
-        *partialDerivative = -1e4 * M(y3) - 6e7 * M(y2);
+        *partialDerivative = -1e4 * M(y3) - 6e7 * M(y2) - 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y2 && known == vr_y3) {
         *partialDerivative = -1e4 * M(y2);
     } else if (unknown == vr_r && known == vr_y1) {
-        *partialDerivative = 1.0;
+        *partialDerivative = 1.0 + dy3;
     } else if (unknown == vr_r && known == vr_y2) {
-        *partialDerivative = 1.0;
+        *partialDerivative = 1.0 + dy3;
     } else if (unknown == vr_r && known == vr_y3) {
         *partialDerivative = 1.0;
     } else {
-- 
2.43.0


From 244c43bb5db7bd180d6cb66c04f6ad71667383fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:57 +0000
Subject: [PATCH 14/55] fix: declare the capabilities the Roberts and
 StateSpace FMUs have

Roberts declared an event mode it refuses to be instantiated with, and both
declared an internal step size different from the one they use.
---
 Roberts/FMI3.xml    | 3 +--
 StateSpace/FMI3.xml | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index ef5db34..bad7185 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,8 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"
-    hasEventMode="true"/>
+    fixedInternalStepSize="1e-6"/>
 
   <LogCategories>
     <Category name="logEvents" description="Log events"/>
diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 8d2e4d9..7533a9b 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -18,7 +18,7 @@
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
       canReturnEarlyAfterIntermediateUpdate="true"
-      fixedInternalStepSize="1"
+      fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
     <LogCategories>
-- 
2.43.0


From 110de3187dfeb6cc7c9aac9d7391419e48d548db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:30 +0000
Subject: [PATCH 15/55] fix: do not accept values for the Boolean output of
 Feedthrough

---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..5bd611e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -746,10 +746,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 28940765bda44b5125ba4765ebfcb90c8da5bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:30 +0000
Subject: [PATCH 16/55] fix: check the number of values before reading them

---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index 5bd611e..18d847e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -763,11 +763,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -787,11 +787,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 59e0601..36e6967 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,13 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
+
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From aa653b634b0073693313fe63e1142f151643995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:00 +0000
Subject: [PATCH 17/55] fix: refuse missing arrays of binary, clock and Boolean
 variables

---
 Clocks/model.c      |  1 +
 src/fmi2Functions.c |  6 ++++++
 src/fmi3Functions.c | 27 +++++++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..613a249 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -171,6 +171,7 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
 
 Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[], size_t nValues, size_t* index) {
 
+    ASSERT_NOT_NULL2(values);
     ASSERT_NVALUES(1);
 
     switch (vr) {
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 257d967..57af95d 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,6 +73,9 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 846cf71..7002628 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -560,6 +560,7 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
     }
 
     if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
         ASSERT_NOT_NULL(values);
     }
 
@@ -574,6 +575,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
@@ -583,6 +589,11 @@ fmi3Status fmi3GetClock(fmi3Instance instance,
     fmi3Clock values[]) {
     BEGIN_FUNCTION(GetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getClock(instance, (ValueReference)valueReferences[i], &values[i]));
     }
@@ -701,6 +712,11 @@ fmi3Status fmi3SetBinary(fmi3Instance instance,
 
     ASSERT_NOT_NULL(valueReferences);
 
+    if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
+        ASSERT_NOT_NULL(values);
+    }
+
     size_t index = 0;
 
     for (size_t i = 0; i < nValueReferences; i++) {
@@ -725,6 +741,11 @@ fmi3Status fmi3SetClock(fmi3Instance instance,
     const fmi3Clock values[]) {
     BEGIN_FUNCTION(SetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         if (values[i]) {
             CALL(activateClock(instance, (ValueReference)valueReferences[i]));
@@ -937,6 +958,12 @@ fmi3Status fmi3GetIntervalDecimal(fmi3Instance instance,
 
     // TODO: Check nValueReferences != nValues ?
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(intervals);
+        ASSERT_NOT_NULL(qualifiers);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getInterval(instance, (ValueReference)valueReferences[i], &intervals[i], (int*)&qualifiers[i]));
     }
-- 
2.43.0


From b1ac911241804bdbccec3c335dc5d86816af2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:00 +0000
Subject: [PATCH 18/55] fix: report failures of saving and restoring the FMU
 state in FMI 2.0

---
 src/fmi2Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 57af95d..6d13da9 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -373,13 +373,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
-- 
2.43.0


From 32a59c8ac70e55a92ad8726162fb207a6937dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:00 +0000
Subject: [PATCH 19/55] fix: check the lengths of seed and sensitivity

---
 src/cosimulation.c  |  2 +-
 src/fmi3Functions.c | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index c9a3eba..57b3b17 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -203,7 +203,7 @@ bool invalidNumber(ModelInstance *comp, const char *f, const char *arg, size_t a
 
     if (actual != expected) {
         comp->state = Terminated;
-        logError(comp, "%s: Invalid argument %s = %d. Expected %d.", f, arg, actual, expected);
+        logError(comp, "%s: Invalid argument %s = %zu. Expected %zu.", f, arg, actual, expected);
         return true;
     }
 
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 7002628..6ea181a 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -866,14 +866,17 @@ fmi3Status fmi3GetDirectionalDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetDirectionalDerivative);
 
     // TODO: check value references
-    // TODO: assert nUnknowns == nDeltaOfUnknowns
-    // TODO: assert nKnowns == nDeltaKnowns
+
+    if (invalidNumber(S, "fmi3GetDirectionalDerivative", "nSeed", nSeed, nKnowns)) {
+        return fmi3Error;
+    }
+
+    if (invalidNumber(S, "fmi3GetDirectionalDerivative", "nSensitivity", nSensitivity, nUnknowns)) {
+        return fmi3Error;
+    }
 
     for (size_t i = 0; i < nUnknowns; i++) {
         sensitivity[i] = 0;
@@ -897,13 +900,18 @@ fmi3Status fmi3GetAdjointDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetAdjointDerivative);
 
     // TODO: check value references
 
+    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSeed", nSeed, nUnknowns)) {
+        return fmi3Error;
+    }
+
+    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSensitivity", nSensitivity, nKnowns)) {
+        return fmi3Error;
+    }
+
     for (size_t i = 0; i < nKnowns; i++) {
         sensitivity[i] = 0;
         for (size_t j = 0; j < nUnknowns; j++) {
-- 
2.43.0


From c9ebcb17eca581b35ec9ff7bba810af2dc8d00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:00 +0000
Subject: [PATCH 20/55] fix: refuse Co-Simulation for models that do not
 support it

---
 src/fmi3Functions.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 6ea181a..664423e 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -302,6 +302,20 @@ fmi3Instance fmi3InstantiateCoSimulation(
     UNUSED(requiredIntermediateVariables);
     UNUSED(nRequiredIntermediateVariables);
 
+#ifndef CO_SIMULATION
+    UNUSED(instanceName);
+    UNUSED(instantiationToken);
+    UNUSED(resourcePath);
+    UNUSED(loggingOn);
+    UNUSED(eventModeUsed);
+    UNUSED(earlyReturnAllowed);
+    UNUSED(instanceEnvironment);
+    UNUSED(logMessage);
+    UNUSED(intermediateUpdate);
+
+    return NULL;
+#else
+
 #ifndef EVENT_UPDATE
     if (eventModeUsed) {
         if (logMessage) {
@@ -328,6 +342,7 @@ fmi3Instance fmi3InstantiateCoSimulation(
     }
 
     return instance;
+#endif
 }
 
 fmi3Instance fmi3InstantiateScheduledExecution(
-- 
2.43.0


From 1d147649caa5391caa4fc5be00df33f946c978b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:41 +0000
Subject: [PATCH 21/55] fix: refuse resource locations that are too long
 instead of truncating them

---
 Resource/model.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..ea11956 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -44,13 +44,18 @@ Status calculateValues(ModelInstance *comp) {
         return Error;
     }
 #else
-    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
+    if (strlen(comp->resourceLocation) + strlen("y.txt") >= MAX_PATH_LENGTH) {
+        logError(comp, "The resource location is too long.");
+        return Error;
+    }
+
+    strcpy(path, comp->resourceLocation);
 #endif
 
 #if FMI_VERSION == 2
     if (!PathAppendA(path, "y.txt")) return Error;
 #else
-    if (!strncat(path, "y.txt", MAX_PATH_LENGTH)) return Error;
+    strcat(path, "y.txt");
 #endif
 
 #else
@@ -59,23 +64,29 @@ Status calculateValues(ModelInstance *comp) {
     const char *scheme1 = "file:///";
     const char *scheme2 = "file:/";
 
+    const char* src = NULL;
+
     if (strncmp(comp->resourceLocation, scheme1, strlen(scheme1)) == 0) {
-        strncpy(path, &comp->resourceLocation[strlen(scheme1)] - 1, MAX_PATH_LENGTH-1);
+        src = &comp->resourceLocation[strlen(scheme1)] - 1;
     } else if (strncmp(comp->resourceLocation, scheme2, strlen(scheme2)) == 0) {
-        strncpy(path, &comp->resourceLocation[strlen(scheme2) - 1], MAX_PATH_LENGTH-1);
+        src = &comp->resourceLocation[strlen(scheme2) - 1];
     } else {
         logError(comp, "The resourceLocation must start with \"file:/\" or \"file:///\"");
         return Error;
     }
 
     // decode percent encoded characters
-    char* src = path;
     char* dst = path;
 
     char buf[3] = { '\0', '\0', '\0' };
 
     while (*src) {
 
+        if ((size_t)(dst - path) + strlen("/y.txt") + 1 >= MAX_PATH_LENGTH) {
+            logError(comp, "The resource location is too long.");
+            return Error;
+        }
+
         if (*src == '%' && (buf[0] = src[1]) && (buf[1] = src[2])) {
             *dst = strtol(buf, NULL, 16);
             src += 3;
@@ -89,15 +100,19 @@ Status calculateValues(ModelInstance *comp) {
 
     *dst = '\0';
 #else
-    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
+    if (strlen(comp->resourceLocation) + strlen("y.txt") >= MAX_PATH_LENGTH) {
+        logError(comp, "The resource location is too long.");
+        return Error;
+    }
+
+    strcpy(path, comp->resourceLocation);
 #endif
 
 #if FMI_VERSION == 2
-    strncat(path, "/y.txt", MAX_PATH_LENGTH-strlen(path)-1);
+    strcat(path, "/y.txt");
 #else
-    strncat(path, "y.txt", MAX_PATH_LENGTH-strlen(path)-1);
+    strcat(path, "y.txt");
 #endif
-    path[MAX_PATH_LENGTH-1] = 0;
 #endif
 
     // open the resource file
-- 
2.43.0


From 8ce23b61a766eab1947a270cb6bcb65da2bb7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:41 +0000
Subject: [PATCH 22/55] fix: report a resource file that cannot be read

---
 Resource/model.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index ea11956..db68d4b 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -27,7 +27,7 @@ Status calculateValues(ModelInstance *comp) {
 
     FILE *file = NULL;
     char path[MAX_PATH_LENGTH] = "";
-    char c = '\0';
+    int c = EOF;
 
     if (!comp->resourceLocation) {
         logError(comp, "Resource location must not be NULL.");
@@ -124,14 +124,19 @@ Status calculateValues(ModelInstance *comp) {
     }
 
     // read the first character
-    c = (char)fgetc(file);
-
-    // assign it to y
-    M(y) = c;
+    c = fgetc(file);
 
     // close the file
     fclose(file);
 
+    if (c == EOF) {
+        logError(comp, "Failed to read resource file %s.", path);
+        return Error;
+    }
+
+    // assign it to y
+    M(y) = (char)c;
+
     comp->isDirtyValues = false;
 
     return OK;
@@ -143,7 +148,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
+    const Status status = calculateValues(comp);
+
+    if (status > Warning) return status;
 
     switch (vr) {
     case vr_time:
@@ -162,7 +169,9 @@ Status getInt32(ModelInstance* comp, ValueReference vr, int32_t values[], size_t
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
+    const Status status = calculateValues(comp);
+
+    if (status > Warning) return status;
 
     switch (vr) {
         case vr_y:
-- 
2.43.0


From a86364aaee557f41490b6f8d16f24b430a1b381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:41 +0000
Subject: [PATCH 23/55] fix: decide about the clock update while preemption is
 locked

---
 Clocks/model.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 613a249..76d24f7 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -68,11 +68,13 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
     // set output clocks
     M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
 
+    const bool outClockTicked = M(outClock);
+
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (outClockTicked) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -107,11 +109,13 @@ static void activateModelPartition3(ModelInstance *comp, double time) {
     M(totalInClockTicks)++;
     M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
 
+    const bool outClockTicked = M(outClock);
+
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (outClockTicked) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
-- 
2.43.0


From da8186371a79439c49c6a4ea8d09c5b3c2bab145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:41 +0000
Subject: [PATCH 24/55] fix: handle failing memory allocations in the FMUs

---
 src/cosimulation.c  | 9 ++++++++-
 src/fmi2Functions.c | 4 ++++
 src/fmi3Functions.c | 4 ++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 57b3b17..e7eb3d2 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,9 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
@@ -296,6 +297,12 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
 
     va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+
+    if (!buf) {
+        va_end(args1);
+        return;
+    }
+
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 6d13da9..f740103 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -423,6 +423,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory for FMUstate.");
+            CALL(Error);
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 664423e..191cc6a 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -861,8 +861,8 @@ fmi3Status fmi3DeserializeFMUState(fmi3Instance instance,
     if (*FMUState == NULL) {
         *FMUState = calloc(1, sizeof(ModelInstance));
         if (*FMUState == NULL) {
-            printf("Failed to allocate memory for FMUState.\n");
-            return fmi3Error;
+            logError(S, "Failed to allocate memory for FMUState.");
+            CALL(Error);
         }
     }
 
-- 
2.43.0


From 3d041409f133f0ac3940773f1442788b29266d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:35 +0000
Subject: [PATCH 25/55] fix: explain refused clock and model partition calls

---
 src/cosimulation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index e7eb3d2..94e817e 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -571,36 +571,36 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 
 #ifndef ACTIVATE_CLOCK
 Status activateClock(ModelInstance* comp, ValueReference vr) {
-    UNUSED(comp);
     UNUSED(vr);
+    logError(comp, "Activating clocks is not supported.");
     return Error;
 }
 #endif
 
 #ifndef GET_CLOCK
 Status getClock(ModelInstance* comp, ValueReference vr, bool* value) {
-    UNUSED(comp);
     UNUSED(vr);
     UNUSED(value);
+    logError(comp, "Getting clocks is not supported.");
     return Error;
 }
 #endif
 
 #ifndef GET_INTERVAL
 Status getInterval(ModelInstance* comp, ValueReference vr, double* interval, int* qualifier) {
-    UNUSED(comp);
     UNUSED(vr);
     UNUSED(interval);
     UNUSED(qualifier);
+    logError(comp, "Getting clock intervals is not supported.");
     return Error;
 }
 #endif
 
 #ifndef ACTIVATE_MODEL_PARTITION
 Status activateModelPartition(ModelInstance* comp, ValueReference vr, double activationTime) {
-    UNUSED(comp);
     UNUSED(vr);
     UNUSED(activationTime);
+    logError(comp, "Model partitions are not supported.");
     return Error;
 }
 #endif
-- 
2.43.0


From c165910df0d65bafc35df5a5ed9df764b1e8d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:35 +0000
Subject: [PATCH 26/55] fix: refuse missing strings and binaries

---
 Feedthrough/model.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index 18d847e..a4234cd 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -764,6 +764,10 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
     switch (vr) {
         case vr_String_input:
             ASSERT_NVALUES(1);
+            if (!values[*index]) {
+                logError(comp, "The value of a String must not be NULL.");
+                return Error;
+            }
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
@@ -792,8 +796,13 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
+            if (!values[*index] && size[*index] > 0) {
+                logError(comp, "The value of a Binary must not be NULL.");
+                return Error;
+            }
             M(Binary_input_size) = size[*index];
-            memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
+            if (M(Binary_input_size) > 0) memcpy((void *)M(Binary_input), values[*index], M(Binary_input_size));
+            (*index)++;
             break;
         default:
             logError(comp, "Set Binary is not allowed for value reference %u.", vr);
-- 
2.43.0


From 3347dbbb1190a23061d2e046dc9df1397738cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:22 +0000
Subject: [PATCH 27/55] fix: do not declare an early return after intermediate
 updates that is never offered

---
 BouncingBall/FMI3.xml | 1 -
 Dahlquist/FMI3.xml    | 1 -
 Feedthrough/FMI3.xml  | 1 -
 Resource/FMI3.xml     | 1 -
 Roberts/FMI3.xml      | 1 -
 Stair/FMI3.xml        | 1 -
 StateSpace/FMI3.xml   | 1 -
 VanDerPol/FMI3.xml    | 1 -
 8 files changed, 8 deletions(-)

diff --git a/BouncingBall/FMI3.xml b/BouncingBall/FMI3.xml
index 87b0bbf..d36c3b2 100644
--- a/BouncingBall/FMI3.xml
+++ b/BouncingBall/FMI3.xml
@@ -18,7 +18,6 @@
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="1e-3"
     hasEventMode="true"/>
 
diff --git a/Dahlquist/FMI3.xml b/Dahlquist/FMI3.xml
index fd31a73..c11240d 100644
--- a/Dahlquist/FMI3.xml
+++ b/Dahlquist/FMI3.xml
@@ -17,7 +17,6 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="0.1"/>
 
   <LogCategories>
diff --git a/Feedthrough/FMI3.xml b/Feedthrough/FMI3.xml
index ebebcbc..9b3ca54 100644
--- a/Feedthrough/FMI3.xml
+++ b/Feedthrough/FMI3.xml
@@ -17,7 +17,6 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="0.1"
     hasEventMode="true"/>
 
diff --git a/Resource/FMI3.xml b/Resource/FMI3.xml
index 303917e..821a2da 100644
--- a/Resource/FMI3.xml
+++ b/Resource/FMI3.xml
@@ -17,7 +17,6 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="1"/>
 
   <LogCategories>
diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index bad7185..d576d81 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -20,7 +20,6 @@
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="1e-6"/>
 
   <LogCategories>
diff --git a/Stair/FMI3.xml b/Stair/FMI3.xml
index d7f6177..2325b60 100644
--- a/Stair/FMI3.xml
+++ b/Stair/FMI3.xml
@@ -17,7 +17,6 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="0.2"
     hasEventMode="true"/>
 
diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 7533a9b..c6d94ca 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -17,7 +17,6 @@
       canSerializeFMUState="true"
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
-      canReturnEarlyAfterIntermediateUpdate="true"
       fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
diff --git a/VanDerPol/FMI3.xml b/VanDerPol/FMI3.xml
index 723645a..d89896c 100644
--- a/VanDerPol/FMI3.xml
+++ b/VanDerPol/FMI3.xml
@@ -19,7 +19,6 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
-    canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="1e-2"
     providesDirectionalDerivatives="true"
     providesAdjointDerivatives="true"/>
-- 
2.43.0


From 6e8a0a828c1bd07c31d3468cabf6ae6ba009dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:35 +0000
Subject: [PATCH 28/55] fix: declare that Stair might return early from a step

---
 Stair/FMI3.xml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Stair/FMI3.xml b/Stair/FMI3.xml
index 2325b60..2c77d6e 100644
--- a/Stair/FMI3.xml
+++ b/Stair/FMI3.xml
@@ -17,6 +17,7 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
+    mightReturnEarlyFromDoStep="true"
     fixedInternalStepSize="0.2"
     hasEventMode="true"/>
 
-- 
2.43.0


From 92e75ec20a8634829f3a05f92d1f759d5e62c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:35 +0000
Subject: [PATCH 29/55] fix: declare the dependencies of y3 and its event
 indicator in Roberts

---
 Roberts/FMI3.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index d576d81..67e80d2 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -46,14 +46,14 @@
   <ModelStructure>
     <Output valueReference="2" dependencies=""/>
     <Output valueReference="4" dependencies=""/>
-    <Output valueReference="6" dependencies=""/>
+    <Output valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <ContinuousStateDerivative valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <ContinuousStateDerivative valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <EventIndicator valueReference="9" dependencies="2" dependenciesKind="constant"/>
-    <EventIndicator valueReference="10" dependencies="6" dependenciesKind="constant"/>
+    <EventIndicator valueReference="10" dependencies="2 4" dependenciesKind="constant constant"/>
   </ModelStructure>
 
 </fmiModelDescription>
-- 
2.43.0


From 3eb3b298d512ff97bce2f24e5361e7254c1a6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:06 +0000
Subject: [PATCH 30/55] fix: keep a tick of the output clock until it is read

---
 Clocks/model.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 76d24f7..e6be2e7 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -37,9 +37,13 @@ static void activateModelPartition1(ModelInstance* comp, double time) {
         M(inClock3_interval) = 0.0;
     }
 
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    const bool outClockTicked = M(totalInClockTicks) % 5 == 0;
 
-    if (M(inClock3_qualifier) == 2 || M(outClock)) {
+    if (outClockTicked) {
+        M(outClock) = true;  // until it is read
+    }
+
+    if (M(inClock3_qualifier) == 2 || outClockTicked) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -66,9 +70,11 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
     M(input2) = 0;
 
     // set output clocks
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    const bool outClockTicked = M(totalInClockTicks) % 5 == 0;
 
-    const bool outClockTicked = M(outClock);
+    if (outClockTicked) {
+        M(outClock) = true;  // until it is read
+    }
 
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
@@ -107,9 +113,11 @@ static void activateModelPartition3(ModelInstance *comp, double time) {
     }
 
     M(totalInClockTicks)++;
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    const bool outClockTicked = M(totalInClockTicks) % 5 == 0;
 
-    const bool outClockTicked = M(outClock);
+    if (outClockTicked) {
+        M(outClock) = true;  // until it is read
+    }
 
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
-- 
2.43.0


From 2c075292081ac55755f5e257002ed8eb8b8f3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 31/55] fix: log function calls completely when they end at the
 end of the buffer

A text that filled the log buffer exactly lost its last character, and an
array element that did so made the importer loop forever.  When the buffer
could not be enlarged, its recorded size was enlarged anyway.
---
 src/FMI.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..dcdaae8 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -200,20 +200,29 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
     const int length = vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
     va_end(args);
 
+    if (length < 0) {
+        return;
+    }
+
     if (length < instance->logMessageBufferSize - instance->logMessageBufferPosition) {
 
         instance->logMessageBufferPosition += length;
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t size = instance->logMessageBufferSize;
+
+        // the terminator must fit, too
+        while (size <= instance->logMessageBufferPosition + length) {
+            size *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = size;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -319,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t size = instance->logMessageBufferSize;
+
+            while (size <= instance->logMessageBufferPosition + requiredCharacters) {
+                size *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = size;
+
             continue;
         }
 
-- 
2.43.0


From 3d23d8860b1925499f7fd655f9ab6beeda9d7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 32/55] fix: report a failed allocation when an importer
 instance is created

---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index dcdaae8..07f3eb5 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From 9b83e151b7a9f768e858034c87d0a821ea6240f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 33/55] fix: make valid URIs from paths with special characters

Control characters were escaped with a space instead of a zero and bytes
above 127 with eight digits, which could write beyond the end of the buffer.
The characters ? # [ ] have a meaning of their own in a URI and must be
escaped.  Buffers that were just large enough were refused.
---
 src/FMI.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 07f3eb5..be59a41 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -377,10 +377,6 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
     // percent encode special characters
     for (size_t i = 0; i < pathLen; i++) {
 
-        if (uriLength < p + 4) {
-            return FMIError;
-        }
-
         char c = path[i];
 
 #ifdef _WIN32
@@ -391,17 +387,21 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
 
         bool encode = true;
 
-        const char* legal = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=";
+        const char* legal = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/@!$&'()*+,;=";
 
-        for (size_t j = 0; j < 84; j++) {
+        for (size_t j = 0; legal[j]; j++) {
             if (c == legal[j]) {
                 encode = false;
                 break;
             }
         }
 
+        if (uriLength < p + (encode ? 4 : 2)) {
+            return FMIError;
+        }
+
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From 411232d01e4c940592e1e68534e866988f04cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 34/55] fix: do not read in front of an empty directory name

---
 src/FMI.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index be59a41..2ef09be 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -418,7 +418,9 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const size_t length = strlen(unzipdir);
+
+    const char last = length > 0 ? unzipdir[length - 1] : '/';
 
     if (last != '/' && last != '\\') {
         separator = FMI_FILE_SEPARATOR;
-- 
2.43.0


From 7cba55b51c76a266b404d972c13f01185d37954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 35/55] fix: unload the previous platform binary before loading
 another one

---
 src/FMI.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 2ef09be..778fa22 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -120,6 +120,16 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
 FMIStatus FMILoadPlatformBinary(FMIInstance* instance, const char* libraryPath) {
 
+    // unload a previously loaded shared library
+    if (instance->libraryHandle) {
+# ifdef _WIN32
+        FreeLibrary(instance->libraryHandle);
+# else
+        dlclose(instance->libraryHandle);
+# endif
+        instance->libraryHandle = NULL;
+    }
+
 # ifdef _WIN32
     WCHAR dllDirectory[MAX_PATH];
 
-- 
2.43.0


From 9e423e7382f1fcd9d21eb290709c345690f65e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:04 +0000
Subject: [PATCH 36/55] fix: log the arguments of SetDebugLogging

---
 src/FMI2.c | 2 +-
 src/FMI3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..b73f9fd 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..0bc5339 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From 0127841bdc86f45ecaffc43068626a456e26cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 37/55] fix: do not call a missing log callback when a function
 is missing in an FMU

---
 src/FMI2.c | 8 ++++++--
 src/FMI3.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index b73f9fd..e9d5c84 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +55,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index 0bc5339..3a7ffc9 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +47,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From fbca1da5d210e95fd49f4b805c61d751a80ea043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 38/55] fix: load the functions that set the shift of a clock

---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 3a7ffc9..c2a0f70 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -213,6 +213,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 6df5d3ac16739223eac6165987986b60bd901564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 39/55] fix: do not instantiate an incomplete FMU for Model
 Exchange

---
 src/FMI3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index c2a0f70..b7b8a35 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -266,7 +266,9 @@ FMIStatus FMI3InstantiateModelExchange(
     fmi3Boolean  visible,
     fmi3Boolean  loggingOn) {
 
-    const FMIStatus status = loadSymbols3(instance);
+    if (loadSymbols3(instance) != FMIOK) {
+        return FMIFatal;
+    }
 
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
@@ -300,7 +302,7 @@ FMIStatus FMI3InstantiateModelExchange(
     instance->interfaceType = FMIModelExchange;
     instance->state = FMIInstantiatedState;
 
-    return status;
+    return FMIOK;
 }
 
 FMIStatus FMI3InstantiateCoSimulation(
-- 
2.43.0


From bfb8d13f7a7cfc6f7befe3f87edb8f5f903ac496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 40/55] fix: record that Step Mode is entered

---
 src/FMI3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index b7b8a35..eebe63e 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1150,6 +1150,7 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+    instance->state = FMIStepModeState;
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From 2a0a717892ad726d174d63785db515403a4790ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 41/55] fix: log sizes, qualifiers and numbers of states and
 event indicators as they are

The numbers of continuous states and event indicators were logged as the
address they are returned at, the qualifiers of intervals as a number, and
as many sizes of binary values as there are value references.
---
 src/FMI3.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index eebe63e..5c6f676 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -618,7 +618,7 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3GetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
@@ -758,7 +758,7 @@ FMIStatus FMI3SetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3SetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
@@ -928,7 +928,7 @@ FMIStatus FMI3GetIntervalFraction(FMIInstance *instance,
     fmi3UInt64 resolutions[],
     fmi3IntervalQualifier qualifiers[]) {
     CALL_ARGS(GetIntervalFraction,
-        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=%d",
+        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=0x%p",
         valueReferences, nValueReferences, intervalCounters, resolutions, qualifiers);
 }
 
@@ -1135,12 +1135,34 @@ FMIStatus FMI3GetNominalsOfContinuousStates(FMIInstance *instance,
 
 FMIStatus FMI3GetNumberOfEventIndicators(FMIInstance *instance,
     size_t* nEventIndicators) {
-    CALL_ARGS(GetNumberOfEventIndicators, "nEventIndicators=%zu", nEventIndicators);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfEventIndicators(instance->component, nEventIndicators);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfEventIndicators(nEventIndicators=%zu)", *nEventIndicators);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetNumberOfContinuousStates(FMIInstance *instance,
     size_t* nContinuousStates) {
-    CALL_ARGS(GetNumberOfContinuousStates, "nContinuousStates=%zu", nContinuousStates);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfContinuousStates(instance->component, nContinuousStates);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfContinuousStates(nContinuousStates=%zu)", *nContinuousStates);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 /***************************************************
-- 
2.43.0


From 0d135b7148b4f490a4127fe569038a5dc589264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 42/55] fix: free the table of functions when an FMU is
 instantiated again

---
 src/FMI2.c | 2 ++
 src/FMI3.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/FMI2.c b/src/FMI2.c
index e9d5c84..6b5f490 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -142,6 +142,8 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
     instance->fmiMajorVersion = FMIMajorVersion2;
 
+    FMIFree((void**)&instance->fmi2Functions);
+
     instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
 
     if (!instance->fmi2Functions) {
diff --git a/src/FMI3.c b/src/FMI3.c
index 5c6f676..518c851 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -127,6 +127,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
 
 #if !defined(FMI_VERSION) || FMI_VERSION == 3
 
+    FMIFree((void**)&instance->fmi3Functions);
+
     instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
 
     if (!instance->fmi3Functions) {
-- 
2.43.0


From f365567b20759a0db39b0c10365401d0d9409d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 43/55] fix: do not free an FMU instance that does not exist

After a failed instantiation or a second time, the function was called
through a pointer that may be missing, or with an instance that is gone.
---
 src/FMI2.c | 4 +++-
 src/FMI3.c | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 6b5f490..db121a9 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -252,12 +252,14 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
 void FMI2FreeInstance(FMIInstance *instance) {
 
-    if (!instance) {
+    if (!instance || !instance->component) {
         return;
     }
 
     instance->fmi2Functions->fmi2FreeInstance(instance->component);
 
+    instance->component = NULL;
+
     if (instance->logFunctionCall) {
         instance->logFunctionCall(instance, FMIOK, "fmi2FreeInstance()");
     }
diff --git a/src/FMI3.c b/src/FMI3.c
index 518c851..f56911c 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -451,7 +451,7 @@ FMIStatus FMI3InstantiateScheduledExecution(
 
 FMIStatus FMI3FreeInstance(FMIInstance *instance) {
 
-    if (!instance) {
+    if (!instance || !instance->component) {
         return FMIError;
     }
 
-- 
2.43.0


From 6342931794d289f0ed4460d9780cd49a36756097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:49 +0000
Subject: [PATCH 44/55] fix: do not log strings and binary values of calls that
 failed

The pointers are not set by the FMU then and cannot be followed.
---
 src/FMI2.c | 18 ++++++++++++++++--
 src/FMI3.c | 20 ++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index db121a9..9a77320 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -309,7 +309,21 @@ FMIStatus FMI2GetBoolean(FMIInstance *instance, const fmi2ValueReference vr[], s
 }
 
 FMIStatus FMI2GetString(FMIInstance *instance, const fmi2ValueReference vr[], size_t nvr, fmi2String value[]) {
-    CALL_ARRAY(Get, String);
+
+    const FMIStatus status = (FMIStatus)instance->fmi2Functions->fmi2GetString(instance->component, vr, nvr, value);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi2GetString(vr={");
+        FMIAppendArrayToLogMessageBuffer(instance, vr, nvr, NULL, FMIValueReferenceType);
+        FMIAppendToLogMessageBuffer(instance, "}, nvr=%zu, value={", nvr);
+        // no strings are returned if the call failed
+        FMIAppendArrayToLogMessageBuffer(instance, value, status > FMIWarning ? 0 : nvr, NULL, FMIStringType);
+        FMIAppendToLogMessageBuffer(instance, "})");
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    return status;
 }
 
 FMIStatus FMI2SetReal(FMIInstance *instance, const fmi2ValueReference vr[], size_t nvr, const fmi2Real value[]) {
@@ -607,7 +621,7 @@ FMIStatus FMI2GetStringStatus(FMIInstance *instance, const fmi2StatusKind s, fmi
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2GetStringStatus(s=%d, value=\"%s\")", s, *value);
+        FMIAppendToLogMessageBuffer(instance, "fmi2GetStringStatus(s=%d, value=\"%s\")", s, status > FMIWarning ? "" : *value);
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
     }
 
diff --git a/src/FMI3.c b/src/FMI3.c
index f56911c..df9fa89 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -603,7 +603,23 @@ FMIStatus FMI3GetString(FMIInstance *instance,
     size_t nValueReferences,
     fmi3String values[],
     size_t nValues) {
-    CALL_ARRAY(Get, String);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetString(instance->component, valueReferences, nValueReferences, values, nValues);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetString(valueReferences={");
+        FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
+        FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, values={", nValueReferences);
+        // no strings are returned if the call failed
+        FMIAppendArrayToLogMessageBuffer(instance, values, status > FMIWarning ? 0 : nValues, NULL, FMIStringType);
+        FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetBinary(FMIInstance *instance,
@@ -622,7 +638,7 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
         FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
-        FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
+        FMIAppendArrayToLogMessageBuffer(instance, values, status > FMIWarning ? 0 : nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
     }
-- 
2.43.0


From 7e92a9f4740c9a5cf221beabd1f7595f9f37c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:56 +0000
Subject: [PATCH 45/55] fix: check the arguments of functions that get output
 derivatives

---
 src/fmi2Functions.c |  5 +++++
 src/fmi3Functions.c | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index f740103..c9f6948 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -480,6 +480,11 @@ fmi2Status fmi2GetRealOutputDerivatives(fmi2Component c, const fmi2ValueReferenc
     BEGIN_FUNCTION(GetRealOutputDerivatives);
 
 #ifdef GET_OUTPUT_DERIVATIVE
+    if (nvr > 0 && (!vr || !order || !value)) {
+        logError(S, "Arguments vr, order, and value must not be NULL.");
+        CALL(Error);
+    }
+
     for (size_t i = 0; i < nvr; i++) {
         CALL(getOutputDerivative(S, vr[i], order[i], &value[i]));
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 191cc6a..6db0107 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1224,11 +1224,20 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     const fmi3Int32 orders[],
     fmi3Float64 values[],
     size_t nValues) {
-    UNUSED(nValues);
 
     BEGIN_FUNCTION(GetOutputDerivatives);
 
 #ifdef GET_OUTPUT_DERIVATIVE
+    if (nValues != nValueReferences) {
+        logError(S, "Expected nValues = %zu but was %zu.", nValueReferences, nValues);
+        CALL(Error);
+    }
+
+    if (nValueReferences > 0 && (!valueReferences || !orders || !values)) {
+        logError(S, "Arguments valueReferences, orders, and values must not be NULL.");
+        CALL(Error);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getOutputDerivative(S, (ValueReference)valueReferences[i], orders[i], &values[i]));
     }
@@ -1237,6 +1246,7 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     UNUSED(nValueReferences);
     UNUSED(orders);
     UNUSED(values);
+    UNUSED(nValues);
 
     NOT_IMPLEMENTED;
 #endif
-- 
2.43.0


From bd873e786c41c6bc369412d199e9bf43efdc779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:23 +0000
Subject: [PATCH 46/55] fix: terminate after a call of a function that is not
 implemented

The instance kept its mode after such a call returned Error, unlike after every other error.
---
 src/fmi3Functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 6db0107..150df06 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -207,6 +207,7 @@ END_FUNCTION()
 do { \
     ModelInstance *comp = (ModelInstance *)instance; \
     logError(comp, "Function is not implemented."); \
+    if (comp) comp->state = Terminated; \
     return fmi3Error; \
 } while (0)
 
-- 
2.43.0


From 2fa35018438b0503c77f2774ea84f65a8e0168ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:16:53 +0000
Subject: [PATCH 47/55] fix: declare strdup when the sources are compiled as
 ISO C99

The build descriptions declare the sources as C99. A C99 compiler that
does not offer extensions does not declare strdup(), so the returned
pointer was truncated or the sources did not compile.
---
 src/cosimulation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 94e817e..01fd917 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -12,6 +12,8 @@
 
 #ifdef _MSC_VER
 #define strdup _strdup
+#elif defined(__STRICT_ANSI__)
+extern char *strdup(const char *s);  // not declared by the headers of ISO C
 #endif
 
 #ifdef CALL
-- 
2.43.0


From c4c92b6448c8cef74c2821429535dd8355f52870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:16:53 +0000
Subject: [PATCH 48/55] fix: name Roberts in the build description of Roberts

---
 Roberts/buildDescription.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/buildDescription.xml b/Roberts/buildDescription.xml
index 0417ee4..a70bf0a 100644
--- a/Roberts/buildDescription.xml
+++ b/Roberts/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="BouncingBall">
+  <BuildConfiguration modelIdentifier="Roberts">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
-- 
2.43.0


From a96db5ef487f5c99e5c0ffbb2dc989c8129c072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:16:53 +0000
Subject: [PATCH 49/55] fix: name StateSpace in the build description of
 StateSpace

---
 StateSpace/buildDescription.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/buildDescription.xml b/StateSpace/buildDescription.xml
index 9eb477c..1da3940 100644
--- a/StateSpace/buildDescription.xml
+++ b/StateSpace/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="LinearTransform">
+  <BuildConfiguration modelIdentifier="StateSpace">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
-- 
2.43.0


From 1abea8e922667aae899562e237187a49d6bdab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:02 +0000
Subject: [PATCH 50/55] fix: name the result of Roberts in its reference
 manifest

---
 Roberts/fmi-ls-ref.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/fmi-ls-ref.xml b/Roberts/fmi-ls-ref.xml
index 7aa2ad2..a05b6ec 100644
--- a/Roberts/fmi-ls-ref.xml
+++ b/Roberts/fmi-ls-ref.xml
@@ -4,5 +4,5 @@
     xmlns:fmi-ls="http://fmi-standard.org/fmi-ls-manifest"
     fmi-ls:fmi-ls-name="org.fmi-standard.fmi-ls-ref"
     fmi-ls:fmi-ls-version="1.0.0-alpha.1">
-    <Related type="text/csv" source="BouncingBall_out.csv" role="result" description="Output of the default experiment"/>
+    <Related type="text/csv" source="Roberts_out.csv" role="result" description="Output of the default experiment"/>
 </fmiReferences>
-- 
2.43.0


From 9e8be8b2a74df12548a8965bc7e644d5a7f288c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:02 +0000
Subject: [PATCH 51/55] fix: name the DAE layered standard like its folder

---
 Roberts/fmi-ls-dae.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/fmi-ls-dae.xml b/Roberts/fmi-ls-dae.xml
index d07c640..cf3f66d 100644
--- a/Roberts/fmi-ls-dae.xml
+++ b/Roberts/fmi-ls-dae.xml
@@ -3,7 +3,7 @@
   xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
   xmlns="http://fmi-standard.org/fmi-ls-manifest"
   xmlns:fmi-ls="http://fmi-standard.org/fmi-ls-manifest"
-  fmi-ls:fmi-ls-name="fmi-ls-dae"
+  fmi-ls:fmi-ls-name="org.fmi-standard.fmi-ls-dae"
   fmi-ls:fmi-ls-version=""
   fmi-ls:fmi-ls-description="Layered standard for DAE support in FMI">
   <EnableDAE valueReference="1"/>
-- 
2.43.0


From bc4f0ca84af85a47e991ea9491ebba6d659fbc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:03 +0000
Subject: [PATCH 52/55] fix: list the residual instead of a constant as initial
 unknown of Roberts' DAE formulation

---
 Roberts/fmi-ls-dae.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/fmi-ls-dae.xml b/Roberts/fmi-ls-dae.xml
index cf3f66d..6beb201 100644
--- a/Roberts/fmi-ls-dae.xml
+++ b/Roberts/fmi-ls-dae.xml
@@ -30,7 +30,7 @@
       dependencies="2 4 6"
       dependenciesKind="constant constant constant"/>
     <InitialUnknown
-      valueReference="7"
+      valueReference="8"
       dependencies="2 4 6"
       dependenciesKind="constant constant constant"/>
     <EventIndicator
-- 
2.43.0


From e5fe142dfbdf6acb6c1a1b293caf26a48e6b5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:03 +0000
Subject: [PATCH 53/55] fix: declare the nonlinear dependencies of Roberts' DAE
 formulation

---
 Roberts/fmi-ls-dae.xml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Roberts/fmi-ls-dae.xml b/Roberts/fmi-ls-dae.xml
index 6beb201..e4c0284 100644
--- a/Roberts/fmi-ls-dae.xml
+++ b/Roberts/fmi-ls-dae.xml
@@ -16,19 +16,19 @@
     <ContinuousStateDerivative
       valueReference="3"
       dependencies="2 4 6"
-      dependenciesKind="constant constant constant"/>
+      dependenciesKind="constant dependent dependent"/>
     <ContinuousStateDerivative
       valueReference="5"
       dependencies="2 4 6"
-      dependenciesKind="constant constant constant"/>
+      dependenciesKind="constant dependent dependent"/>
     <InitialUnknown
       valueReference="3"
       dependencies="2 4 6"
-      dependenciesKind="constant constant constant"/>
+      dependenciesKind="constant dependent dependent"/>
     <InitialUnknown
       valueReference="5"
       dependencies="2 4 6"
-      dependenciesKind="constant constant constant"/>
+      dependenciesKind="constant dependent dependent"/>
     <InitialUnknown
       valueReference="8"
       dependencies="2 4 6"
-- 
2.43.0


From 29fcac4e71b749fc609a82748fff8cf3f5e9acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:17:46 +0000
Subject: [PATCH 54/55] fix: declare the FMI 3.0 functions in FMI3.h so that
 FMI3.c can be linked with an FMU

With FMI3_FUNCTION_PREFIX defined, FMI3.c takes the addresses of the prefixed
functions. FMI3.h only included their types, so it did not compile. FMI2.h
already includes fmi2Functions.h.
---
 include/FMI3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/FMI3.h b/include/FMI3.h
index cd35d61..cd8b0e4 100644
--- a/include/FMI3.h
+++ b/include/FMI3.h
@@ -4,7 +4,7 @@
 extern "C" {
 #endif
 
-#include "fmi3FunctionTypes.h"
+#include "fmi3Functions.h"
 #include "FMI.h"
 
 struct FMI3Functions_ {
-- 
2.43.0


From 5405207b4c847444761c4d43eea1fb956bbff0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:18:25 +0000
Subject: [PATCH 55/55] fix: escape percent signs in the messages passed to FMI
 2.0 loggers

---
 src/cosimulation.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 01fd917..bf5bb51 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -309,9 +309,21 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     va_end(args1);
 
     if (len >= 0) {
-        // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
-        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
+        // the logger expects a format, so percent signs in the message must be escaped
+        char *format = (char *)calloc(2 * (size_t)len + 1, sizeof(char));
+
+        if (format) {
+
+            for (int i = 0, j = 0; i < len; i++) {
+                if (buf[i] == '%') format[j++] = '%';
+                format[j++] = buf[i];
+            }
+
+            comp->logger(comp->componentEnvironment, comp->instanceName, status, category, format);
+
+            free(format);
+        }
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
 #endif
-- 
2.43.0

