From ca0f41f57b94f223f97ef40c4497b76db6bb7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 01/87] fix: compute relative permeability at the points it was
 assigned to

RelativePermeabilityCompute ignored the list of points of each model and used
the position in that list as the point's index.
---
 src/materials/tdycharacteristiccurves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..829bcc8 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -331,18 +331,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
-- 
2.43.0


From e5ef500184888d05e16ce821088871518bb9fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 02/87] fix: test whether a point has a curve with kh_end, not
 kh_exist

kh_get returns kh_end for a missing key; kh_exist of that index reads past the
hash table's flags, and may find a model that was never assigned.
---
 src/materials/tdycharacteristiccurves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 829bcc8..563470b 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -208,7 +208,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -402,7 +402,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 0a69f0e9356c409d41ddc80967a5053eddad21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 03/87] fix: free the previous points and parameters whenever a
 curve type is reset

They were leaked when the number of points stayed the same.
---
 src/materials/tdycharacteristiccurves.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 563470b..32d3cb0 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -84,13 +84,9 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "Invalid saturation model type!");
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (sat->num_points[type] != num_points) {
-    if (sat->points[type]) {
-      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
-    }
-  }
+  // Free any storage previously allocated for this type.
+  ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
+  ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
 
   // Delete the point maps, which are invalidated by this operation.
   int num_types = (int)(sizeof(sat->points)/sizeof(sat->points[0]));
@@ -296,13 +292,9 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
     }
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (rel_perm->num_points[type] != num_points) {
-    if (rel_perm->points[type]) {
-      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
-    }
-  }
+  // Free any storage previously allocated for this type.
+  ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
+  ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
 
   rel_perm->num_points[type] = num_points;
   ierr = TDyAlloc(num_points*sizeof(PetscInt),
-- 
2.43.0


From 8b600dddf2a9c5b4abc92bf4da421cdddfc54028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 04/87] fix: finite Mualem relative permeability derivative at
 zero effective saturation

0.5*Kr/Se is NaN there, and a cell reaches Se=0 when its saturation rounds to
the residual saturation.
---
 src/materials/tdycharacteristiccurves.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 32d3cb0..39e16d6 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -468,6 +468,11 @@ void RelativePermeability_Mualem_Unsmoothed(PetscReal m,PetscReal Se,PetscReal *
 
   if (Se>=1.0) return;
 
+  if (Se<=0.0) {
+    *Kr = 0.0;
+    return;
+  }
+
   Se_one_over_m = PetscPowReal(Se,1/m);
   tmp = PetscPowReal(1-Se_one_over_m,m);
   (*Kr)  = PetscSqrtReal(Se);
-- 
2.43.0


From 7b2ef31544875e043d6b0e6433b8f4df29e81612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 05/87] fix: Batzle & Wang brine density and viscosity
 coefficients

The density has 80+3T, not 80*3T, and the whole exponent of the viscosity is
negative: with the wrong sign the viscosity rose with temperature.
---
 src/materials/tdyeos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index c6ecbd6..00814f9 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -49,7 +49,7 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
 		  1.3e-5*pow(T,3)*P*Pa_to_MPa - 0.333 * pow(P*Pa_to_MPa,2) - 0.002*T *pow(P*Pa_to_MPa,2));
   pw *= 1000.;
 
-  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
+  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
   PetscFunctionReturn(0);
@@ -105,7 +105,7 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
 
   *vis = 0.1 +
          0.333 * S +
-         (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
+         (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
 
   PetscFunctionReturn(0);
-- 
2.43.0


From bf2230834af781a2c87dbdd9c971af5ee099bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 06/87] fix: set the pressure derivatives of the Batzle & Wang
 laws

They were left uninitialised, and the salinity Jacobian uses them.
---
 src/materials/tdyeos.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index 00814f9..b46ab7e 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -38,7 +38,8 @@ static PetscErrorCode ComputeWaterDensity_Exponential(PetscReal p, PetscReal *de
 
 /* ---------------------------------------------------------------- */
 static PetscErrorCode ComputeWaterDensity_BatzleWang(
-  PetscReal P, PetscReal T, PetscReal S, PetscReal *den) {
+  PetscReal P, PetscReal T, PetscReal S, PetscReal *den, PetscReal *dden_dP,
+  PetscReal *d2den_dP2) {
 
   PetscFunctionBegin;
 
@@ -52,6 +53,13 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
   *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
+  PetscReal dpw, d2pw;
+  dpw = 1.e-6*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) -
+               2.*(0.333 + 0.002*T)*P*Pa_to_MPa);
+  d2pw = -2.e-6*(0.333 + 0.002*T);
+  *dden_dP = 1000.*Pa_to_MPa*(dpw + S*1.e-6*(300. - 2400.*S + T*(-13. + 47.*S)));
+  *d2den_dP2 = 1000.*Pa_to_MPa*Pa_to_MPa*d2pw;
+
   PetscFunctionReturn(0);
 }
 
@@ -74,7 +82,7 @@ PetscErrorCode EOSComputeWaterDensity(EOS *eos,
       ierr = ComputeWaterDensity_Exponential(p,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     case WATER_DENSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den); CHKERRQ(ierr);
+      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water density function");
@@ -99,7 +107,8 @@ static PetscErrorCode ComputeWaterViscosity_Constant(PetscReal p,
 }
 
 static PetscErrorCode ComputeWaterViscosity_BatzleWang(
-  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis) {
+  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis, PetscReal *dvis_dP,
+  PetscReal *d2vis_dP2) {
 
   PetscFunctionBegin;
 
@@ -107,6 +116,8 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
          0.333 * S +
          (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
+  *dvis_dP = 0.0;
+  *d2vis_dP2 = 0.0;
 
   PetscFunctionReturn(0);
 }
@@ -125,7 +136,7 @@ PetscErrorCode EOSComputeWaterViscosity(EOS *eos,
       ierr = ComputeWaterViscosity_Constant(p,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     case WATER_VISCOSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis); CHKERRQ(ierr);
+      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water viscosity function");
-- 
2.43.0


From 395dbd29a11fa95a4fa83b56e0582b88d03511e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 07/87] fix: release the salinity source and boundary pressure
 type contexts with the conditions

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 56fbc00d59984304fbbe0a6e52b7c729542ec58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 08/87] fix: define the declared functions that set the
 salinity source and select the boundary salinity

---
 src/tdycore.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..88c5430 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1335,6 +1335,18 @@ PetscErrorCode TDySetEnergyForcingFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
+PetscErrorCode TDySetSalinitySourceFunction(TDy tdy,
+                                            TDyScalarSpatialFunction f) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  WrapperStruct *wrapper;
+  ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
+  wrapper->func = f;
+  ierr = ConditionsSetSalinitySource(tdy->conditions, wrapper,
+                                     WrapperFunction, TDyFree); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 PetscErrorCode TDySetBoundaryPressureFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
@@ -1445,8 +1457,8 @@ PetscErrorCode TDySelectBoundaryTemperatureFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
-PetscErrorCode TDySelectBoundarySalineConcenctrationFunction(TDy tdy,
-                                                             const char *func_name) {
+PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
+                                                            const char *func_name) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
   TDySpatialFunction f;
-- 
2.43.0


From 9547e2f13942f5557f94d84c003c2dd65fff7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/87] fix: leave no dangling registries behind at
 finalization, so that TDycore can be initialized again

---
 src/tdycore.c   | 4 ++++
 src/tdytimers.c | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 88c5430..1c42939 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -195,6 +195,9 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     TDyFree(shutdown_funcs_);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
   // Finalize PETSc.
@@ -212,6 +215,7 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..5b1b8dc 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -165,13 +165,17 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
+  timersEnabled_ = PETSC_FALSE;
 }
-- 
2.43.0


From 876a5c98ae2f5c59c9dbc402e8c8cba4068f409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 10/87] fix: keep a copy of the name of a registered function

---
 src/tdycore.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 1c42939..6b607f7 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -214,6 +214,9 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
+  for (khiter_t iter = kh_begin(funcs_); iter != kh_end(funcs_); ++iter) {
+    if (kh_exist(funcs_, iter)) PetscFree(kh_key(funcs_, iter));
+  }
   kh_destroy(TDY_FUNC_MAP, funcs_);
   funcs_ = NULL;
 }
@@ -231,8 +234,13 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
     TDyOnFinalize(DestroyFunctionRegistry);
   }
 
-  int retval;
-  khiter_t iter = kh_put(TDY_FUNC_MAP, funcs_, name, &retval);
+  khiter_t iter = kh_get(TDY_FUNC_MAP, funcs_, name);
+  if (iter == kh_end(funcs_)) { // the registry keeps its own copy of the name
+    char *key;
+    PetscErrorCode ierr = PetscStrallocpy(name, &key); CHKERRQ(ierr);
+    int retval;
+    iter = kh_put(TDY_FUNC_MAP, funcs_, key, &retval);
+  }
   kh_val(funcs_, iter) = f;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 67459dd1d6cd6715b07d7c90d26f40e2b1b4bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 11/87] fix: isotropic and diagonal tensors write their
 off-diagonal entries

---
 src/materials/tdymaterialproperties.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..f1ab640 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -445,6 +445,9 @@ static PetscErrorCode ConstantIsotropicTensorWrapperFunction(void *context, Pets
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   for (PetscInt i = 0; i < n; ++i) {
+    for(PetscInt j = 0; j < dim2; ++j) {
+      f[dim2*i+j] = 0.0;
+    }
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = wrapper->value[0];
     }
@@ -463,6 +466,9 @@ static PetscErrorCode IsotropicTensorWrapperFunction(void *context, PetscInt n,
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   for (PetscInt i = 0; i < n; ++i) {
+    for(PetscInt j = 0; j < dim2; ++j) {
+      f[dim2*i+j] = 0.0;
+    }
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[i];
     }
@@ -479,6 +485,9 @@ static PetscErrorCode ConstantDiagonalTensorWrapperFunction(void *context, Petsc
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   for (PetscInt i = 0; i < n; ++i) {
+    for(PetscInt j = 0; j < dim2; ++j) {
+      f[dim2*i+j] = 0.0;
+    }
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = wrapper->value[j];
     }
@@ -497,6 +506,9 @@ static PetscErrorCode DiagonalTensorWrapperFunction(void *context, PetscInt n,
   PetscReal values[3*n];
   wrapper->func(n, x, values);
   for (PetscInt i = 0; i < n; ++i) {
+    for(PetscInt j = 0; j < dim2; ++j) {
+      f[dim2*i+j] = 0.0;
+    }
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[3*i+j];
     }
-- 
2.43.0


From 938529329074ca7f8c673189f25d977ec702049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 12/87] fix: write the timing profile to the given file, and
 only the metadata there is

---
 src/tdytimers.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 5b1b8dc..ee1e5b7 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -115,7 +115,7 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 PetscErrorCode TDyWriteTimingProfile(const char* filename) {
   if (timersEnabled_) {
     PetscViewer log;
-    PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log);
+    PetscViewerASCIIOpen(PETSC_COMM_WORLD, filename, &log);
     PetscViewerFormat format = PETSC_VIEWER_ASCII_CSV;
     PetscViewerPushFormat(log, format);
     PetscLogView(log);
@@ -129,7 +129,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
@@ -147,7 +148,7 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
                  0, PETSC_COMM_WORLD);
       const char* mode_name = TDyModes[md->mode];
       const char* disc_name = TDyDiscretizations[md->discretization];
-      FILE* f = fopen("tdycore_profile.csv", "a");
+      FILE* f = fopen(filename, "a");
       fprintf(f, "METADATA\n");
       fprintf(f, "Mode,Discretization,NumProc,NumCells\n");
       fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, num_cells);
-- 
2.43.0


From 3a50b8040fd87227380f1118004f762d8f11d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 13/87] fix: record timing metadata for every discretization,
 not only MPFA-O

---
 src/tdytimers.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index ee1e5b7..6894d71 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -1,6 +1,7 @@
 #include <tdytimers.h>
 #include <private/tdycoreimpl.h>
 #include <private/tdympfaoimpl.h>
+#include <private/tdyfvtpfimpl.h>
 #include <private/tdymeshimpl.h>
 
 // Timers registry (maps timer names to PetscLogEvents).
@@ -88,24 +89,40 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
     if (iter == kh_end(TDY_PROFILING_METADATA)) {
+      PetscNew(&md);
       int retval;
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
+    } else {
+      md = kh_val(TDY_PROFILING_METADATA, iter);
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
+    // Only the finite volume contexts have a mesh.
+    TDyMesh *mesh = NULL;
     DM dm;
     ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-    if (dm != NULL) {
-      PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
+    if (md->discretization == FV_TPF) {
+      mesh = ((TDyFVTPF*)tdy->context)->mesh;
+    } else if (md->discretization != BDM && md->discretization != WY) {
+      mesh = ((TDyMPFAO*)tdy->context)->mesh;
+    }
+    if (mesh != NULL) {
       md->num_cells = mesh->num_cells_local;
     } else {
-      md->num_cells = 0;
+      // Count the cells owned by this process.
+      PetscInt cStart, cEnd, num_leaves;
+      PetscSF sf;
+      const PetscInt *leaves;
+      ierr = DMPlexGetHeightStratum(dm, 0, &cStart, &cEnd); CHKERRQ(ierr);
+      ierr = DMGetPointSF(dm, &sf); CHKERRQ(ierr);
+      ierr = PetscSFGetGraph(sf, NULL, &num_leaves, &leaves, NULL); CHKERRQ(ierr);
+      md->num_cells = cEnd - cStart;
+      for (PetscInt l = 0; l < num_leaves; ++l) {
+        PetscInt p = leaves ? leaves[l] : l;
+        if (p >= cStart && p < cEnd) --md->num_cells;
+      }
     }
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
-- 
2.43.0


From d1e2eada579c6861d614c0b24badf2e86a42d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 14/87] fix: destroy an MPFA-O dycore that was never set up

---
 src/fv/mpfao/tdympfao.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..3dffd96 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,9 +564,10 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  // The mesh doesn't exist until setup.
+  if (mpfao->mesh) { ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr); }
 
-  TDyFree(mpfao);
+  ierr = TDyFree(mpfao); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 60d67b9c76c6f4c91ccb5747d86475cf240b110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 15/87] fix: room for the three components of the unit vector
 between the cells of a face

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..afdbb64 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
-- 
2.43.0


From a9c3edbaa537952085a884aa4ce3ab2a496fc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 16/87] fix: room for the whole name of an ASCII output file

---
 src/tdyio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..79a09ca 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -568,12 +568,12 @@ PetscErrorCode TDyIOWriteExodusVar(char *ofilename, Vec U, char *VariableName, T
 }
 
 PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
-  char word[32];
+  char word[PETSC_MAX_PATH_LEN];
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscFunctionBegin;
 
-  sprintf(word,"%11.5e_%s.txt",time,VariableName);
+  snprintf(word,sizeof(word),"%11.5e_%s.txt",time,VariableName);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer);
          CHKERRQ(ierr);
   ierr = VecView(U,viewer); CHKERRQ(ierr);
-- 
2.43.0


From 749146bee61bf0d8758c17624759f078ac2292b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 17/87] fix: allocate the number of bytes requested, not that
 many objects

---
 include/private/tdymemoryimpl.h | 3 ++-
 src/fe/tdyfe.c                  | 4 ++--
 src/tdyio.c                     | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/private/tdymemoryimpl.h b/include/private/tdymemoryimpl.h
index e2e0880..2b5f0ab 100644
--- a/include/private/tdymemoryimpl.h
+++ b/include/private/tdymemoryimpl.h
@@ -8,7 +8,8 @@
 /// Allocates a chunk of zeroed memory of the given size (in bytes).
 /// @param [in] size The size of the requested allocation.
 /// @param [out] result A pointer to the requested memory chunk.
-#define TDyAlloc(size,result) PetscCalloc1(size,result)
+#define TDyAlloc(size,result) \
+  PetscMallocA(1,PETSC_TRUE,__LINE__,PETSC_FUNCTION_NAME,__FILE__,(size_t)(size),(result))
 
 /// @def TDyRealloc
 /// Resizes the given chunk of memory to the new requested size.
diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index ec4178e..dcee4e5 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -156,8 +156,8 @@ PetscErrorCode SetQuadrature(PetscQuadrature q,PetscInt dim) {
   PetscReal *x,*w;
   PetscInt d,nv=1;
   for(d=0; d<dim; d++) nv *= 2;
-  ierr = TDyAlloc(nv*dim,&x); CHKERRQ(ierr);
-  ierr = TDyAlloc(nv,&w); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*dim*sizeof(PetscReal),&x); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*sizeof(PetscReal),&w); CHKERRQ(ierr);
   switch(nv*dim) {
   case 2: /* line */
     x[0] = -1.0; w[0] = 1.0;
diff --git a/src/tdyio.c b/src/tdyio.c
index 79a09ca..9ebce58 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -319,7 +319,7 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
 
-  ierr = TDyAlloc(n,variable);CHKERRQ(ierr);
+  ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
     (*variable)[i] = ptr[i];
   }
-- 
2.43.0


From 1402a349a8321ff5ab09c9e331fcd2071022427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 18/87] fix: distribute the mesh once, with its overlap and
 natural ordering

---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6b607f7..0a9275a 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -684,7 +684,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-      // Here we lean on PETSc's DM* options for overrides.
+      // Here we lean on PETSc's DM* options for overrides. We distribute the
+      // mesh ourselves below, with overlap and a natural ordering.
+      ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
       ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     }
 
@@ -701,6 +703,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       ierr = DMDestroy(&dm); CHKERRQ(ierr);
       dm = dm_dist;
     }
+    ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
     ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
-- 
2.43.0


From b3c0a2cc93a28d65f464afb8b69bebf0fa8b0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 19/87] fix: update the ghost cells too before a nonlinear
 solve

---
 src/fv/mpfao/tdympfao_snes.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..724db83 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -41,10 +41,11 @@ PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
 
-  // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  // Update the auxillary variables on all cells, including ghosts
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
-- 
2.43.0


From 0c6423aa6648ea115ce90afb2b21d3c25c1c7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 20/87] fix: do not read ghost cells of the time derivative,
 which has none, in TH mode

---
 src/fv/mpfao/tdympfao_th_ts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..92022d0 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -219,9 +219,10 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
             temp[cEnd-cStart], dtemp_dt[cEnd-cStart];
   ierr = VecGetArray(tdy->soln_loc,&u_p); CHKERRQ(ierr);
   for (c=0;c<cEnd-cStart;c++) {
+    temp[c]     = u_p[c*2+1];
+    if (!cells->is_local[c]) continue; // U_t has no ghost cells
     dp_dt[c]    = du_dt[c*2];
     dtemp_dt[c] = du_dt[c*2+1];
-    temp[c]     = u_p[c*2+1];
   }
 
   PetscReal dporosity_dP = 0.0;
-- 
2.43.0


From 88c2d593a4657cf317afd456317b00c18d6210cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 21/87] fix: room for the number of cells above and below a
 vertex

---
 src/fv/share/tdymeshplex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..93fba5b 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3040,8 +3040,8 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
   PetscInt **cellsAbove, **cellsBelow;
   PetscInt ncells_per_vertex = TDyMaxNumberOfCellsSharingAVertex(dm, mesh->closureSize, mesh->closure);
 
-  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
 
   ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
 
-- 
2.43.0


From ab59e8da6d744e9ef241142cc7a0d6095fa2b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 22/87] fix: boundary index of a fixed-pressure face in FV-TPF

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..4c90dc0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -179,7 +179,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From a89180cf052a6f6f5fe139e004bd0c9e101b2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 23/87] fix: FV-TPF used uninitialized fluxes between cells
 without mobile liquid

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 4c90dc0..442aa75 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -575,7 +575,7 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Res;
+    PetscReal Res = 0.0;
     ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -665,7 +665,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Jup, Jdn;
+    PetscReal Jup = 0.0, Jdn = 0.0;
     ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -694,7 +694,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = TDyMeshGetFaceCells(mesh, iface, &cell_ids, &num_face_cells); CHKERRQ(ierr);
 
     PetscInt cell_id_dn = cell_ids[1];
-    PetscReal Jdn;
+    PetscReal Jdn = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
       ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
-- 
2.43.0


From 974d561d35de8662b67b6af917de5ea18f52fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 24/87] fix: FV-TPF Jacobian of boundary faces lacked inflow
 and gravity terms

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 442aa75..ad7ff72 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -406,15 +406,15 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
@@ -486,10 +486,9 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From 14906a8ebfdfdf05963aad0adeb5fe9257df3809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 25/87] fix: FV-TPF prepared a step with the wrong cells in
 parallel

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index ad7ff72..fbbb203 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -54,9 +54,10 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy, tdy->soln_prev, tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
@@ -94,9 +95,10 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy, tdy->soln_prev, tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
-- 
2.43.0


From 94618adafcb561b8f0b0020dd4eedb111ffa0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 26/87] fix: two FV-TPF functions never stopped their timer

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index fbbb203..2fecda0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -113,6 +113,7 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
@@ -735,5 +736,6 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 9f62d94f3e87d3c3b46dca162a6cedd8262ad4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 27/87] fix: the transient-variable form multiplied by the cell
 volume twice

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..4231aa3 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -39,7 +39,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   ierr = VecRestoreArray(C,&c); CHKERRQ(ierr);
-- 
2.43.0


From eaa59d446310eecbc5109f5919752c57fc36ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 28/87] fix: an array was restored to a different vector than
 it came from

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index 4231aa3..fc1ad0c 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-- 
2.43.0


From 886353413ab2eed1edd5187ef33aad137f7906a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 29/87] fix: two-point transmissibilities used another mean of
 the permeability than gravity

---
 src/fv/mpfao/tdympfao.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 3dffd96..3adac60 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -125,6 +125,8 @@ static PetscErrorCode ComputeGMatrix_MPFAO(TDyMPFAO* mpfao, DM dm,
   PetscFunctionReturn(0);
 }
 
+static PetscErrorCode ComputeUpAndDownDist(TDyMPFAO *, PetscInt, PetscReal *, PetscReal *);
+
 static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
                                          MaterialProp *matprop) {
 
@@ -248,7 +250,12 @@ static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
 
             K_neighbor_value = 1.0/K_neighbor_value;
             K_value          = 1.0/K_value;
-            K_aveg = 0.5*K_value + 0.5*K_neighbor_value;
+
+            // distance-weighted harmonic average, as in the gravity term
+            PetscReal dist_up, dist_dn;
+            ierr = ComputeUpAndDownDist(mpfao, face_id, &dist_up, &dist_dn); CHKERRQ(ierr);
+            PetscReal wt = (faces->cell_ids[faceCellOffset]==icell ? dist_up : dist_dn) / (dist_up + dist_dn);
+            K_aveg = (K_value*K_neighbor_value)/(wt*K_neighbor_value + (1.0-wt)*K_value);
 
             mpfao->subc_Gmatrix[icell][isubcell][ii][jj] = area * (dot_prod) * K_aveg/(dist);
           }
-- 
2.43.0


From 5623f5d72d31cdd2436d58a98d2a1e07314fd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 30/87] fix: refuse a mesh without vertical columns instead of
 indexing with an error code

---
 src/fv/share/tdymeshplex.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 93fba5b..e35ccbb 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -1731,11 +1731,10 @@ PetscBool VerticesHaveSameXYCoords(TDyMesh *mesh, PetscInt ivertex_1, PetscInt i
 
 
 /* -------------------------------------------------------------------------- */
-PetscInt VertexIdWithSameXYInACell(TDyMesh *mesh, PetscInt icell, PetscInt ivertex) {
+PetscErrorCode VertexIdWithSameXYInACell(TDyMesh *mesh, PetscInt icell, PetscInt ivertex, PetscInt *result) {
 
   PetscFunctionBegin;
 
-  PetscInt result;
   PetscBool found = PETSC_FALSE;
 
   PetscErrorCode ierr;
@@ -1751,29 +1750,27 @@ PetscInt VertexIdWithSameXYInACell(TDyMesh *mesh, PetscInt icell, PetscInt ivert
 
       if (VerticesHaveSameXYCoords(mesh, ivertex, ivertex_2)) {
         found = PETSC_TRUE;
-        result = ivertex_2;
+        *result = ivertex_2;
         break;
       }
     }
   }
 
   if (!found) {
-    char error_msg[100];
+    char error_msg[200];
     sprintf(error_msg,"VertexIdWithSameXYInACell: Could not determine if cell_id %d is above or below vertex_id %d\n",icell,ivertex);
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,error_msg);
   }
 
-  PetscFunctionReturn(result);
+  PetscFunctionReturn(0);
 }
 
 
 /* -------------------------------------------------------------------------- */
-PetscBool IsCellAboveTheVertex(TDyMesh *mesh, PetscInt icell, PetscInt ivertex) {
+PetscErrorCode IsCellAboveTheVertex(TDyMesh *mesh, PetscInt icell, PetscInt ivertex, PetscBool *is_above) {
 
   PetscFunctionBegin;
 
-  PetscBool is_above;
-
   TDyVertex *vertices = &mesh->vertices;
   PetscBool found = PETSC_FALSE;
   PetscErrorCode ierr;
@@ -1789,19 +1786,19 @@ PetscBool IsCellAboveTheVertex(TDyMesh *mesh, PetscInt icell, PetscInt ivertex)
 
       if (VerticesHaveSameXYCoords(mesh, ivertex, ivertex_2)) {
         found = PETSC_TRUE;
-        is_above = (vertices->coordinate[ivertex_2].X[2]>vertices->coordinate[ivertex].X[2]);
+        *is_above = (vertices->coordinate[ivertex_2].X[2]>vertices->coordinate[ivertex].X[2]);
         break;
       }
     }
   }
 
   if (!found) {
-    char error_msg[100];
+    char error_msg[200];
     sprintf(error_msg,"IsCellAboveTheVertex: Could not determine if cell_id %d is above or below vertex_id %d\n",icell,ivertex);
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,error_msg);
   }
 
-  PetscFunctionReturn(is_above);
+  PetscFunctionReturn(0);
 }
 
 /* -------------------------------------------------------------------------- */
@@ -1823,7 +1820,9 @@ PetscErrorCode DetermineCellsAboveAndBelow(TDyMesh *mesh, PetscInt ivertex, Pets
   for (PetscInt icell=0; icell<ncells_int; icell++) {
     PetscInt cellID = vertices->internal_cell_ids[vOffsetIntCell + icell];
 
-    if (IsCellAboveTheVertex(mesh,cellID,ivertex)) {
+    PetscBool is_above;
+    ierr = IsCellAboveTheVertex(mesh,cellID,ivertex,&is_above); CHKERRQ(ierr);
+    if (is_above) {
       cellsAbvBlw[0][*ncells_abv] = cellID;
       (*ncells_abv)++;
     } else {
@@ -2695,7 +2694,8 @@ PetscErrorCode SaveCellIdsAtOppositeLevel(TDyMesh *mesh, PetscInt ivertex, Petsc
 
   PetscFunctionBegin;
 
-  PetscInt ivertex_xy = VertexIdWithSameXYInACell(mesh, icell_level[0], ivertex);
+  PetscInt ivertex_xy;
+  PetscErrorCode ierr = VertexIdWithSameXYInACell(mesh, icell_level[0], ivertex, &ivertex_xy); CHKERRQ(ierr);
 
   icells_opposite_level[ivertex_xy][0] = ncells_level;
   for (PetscInt ii=0; ii<ncells_level; ii++) {
-- 
2.43.0


From 603a3a17c252fe7e29c47c88cd56fb79b4586ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 31/87] fix: fluxes at corner vertices were stored at another
 vertex's place on the face

---
 src/fv/share/tdymeshplex.c | 50 ++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index e35ccbb..8835c76 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -1527,6 +1527,37 @@ PetscErrorCode UpdateIthTraversalOrder(TDyVertex *vertices, PetscInt ivertex, TD
   PetscFunctionReturn(0);
 }
 
+/* -------------------------------------------------------------------------- */
+/// Sets vertices->subface_ids[] to the position of the vertex within each of its faces
+static PetscErrorCode UpdateSubfaceIdsOfAVertex(TDyMesh *mesh, PetscInt ivertex) {
+
+  PetscFunctionBegin;
+
+  TDyFace *faces = &mesh->faces;
+  PetscErrorCode ierr;
+
+  PetscInt *vertex_face_ids, vertex_num_faces;
+  PetscInt *subface_ids, num_subfaces;
+  ierr = TDyMeshGetVertexFaces(mesh, ivertex, &vertex_face_ids, &vertex_num_faces); CHKERRQ(ierr);
+  ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
+
+  for (PetscInt iface=0; iface<vertex_num_faces; iface++) {
+    PetscInt face_id = vertex_face_ids[iface];
+    PetscInt fOffsetVertex = faces->vertex_offset[face_id];
+    PetscBool found = PETSC_FALSE;
+    for (PetscInt ii=0; ii<faces->num_vertices[face_id]; ii++) {
+      if (faces->vertex_ids[fOffsetVertex + ii] == ivertex) {
+        subface_ids[iface] = ii;
+        found = PETSC_TRUE;
+        break;
+      }
+    }
+    if (!found) SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a vertex within a face");
+  }
+
+  PetscFunctionReturn(0);
+}
+
 /* -------------------------------------------------------------------------- */
 PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, PetscInt ivertex, TDyCell *cells, TDyFace *faces, TDySubcell *subcells, PetscInt **cell_up2dw, PetscInt nUp2Dw) {
 
@@ -1538,9 +1569,7 @@ PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, Pe
 
   PetscErrorCode ierr;
   PetscInt *vertex_face_ids, vertex_num_faces;
-  PetscInt *subface_ids, num_subfaces;
   ierr = TDyMeshGetVertexFaces(mesh, ivertex, &vertex_face_ids, &vertex_num_faces); CHKERRQ(ierr);
-  ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
 
   PetscInt boundary_cell_count = 0;
 
@@ -1695,19 +1724,7 @@ PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, Pe
 
   // Since vertices->face_ids[] has been updated, now
   // update vertices->subface_ids[]
-  for (PetscInt iface=0; iface<vertices->num_faces[ivertex]; iface++) {
-    PetscInt face_id = vertex_face_ids[iface];
-    PetscInt fOffsetVertex = faces->vertex_offset[face_id];
-    PetscBool found = PETSC_FALSE;
-    for (PetscInt ii=0; ii<faces->num_vertices[face_id]; ii++) {
-      if (faces->vertex_ids[fOffsetVertex + ii] == ivertex) {
-        subface_ids[iface] = ii;
-        found = PETSC_TRUE;
-        break;
-      }
-    }
-    if (!found) SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a vertex within a face");
-  }
+  ierr = UpdateSubfaceIdsOfAVertex(mesh, ivertex); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -3048,6 +3065,9 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
   for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
     if (vertices->num_internal_cells[ivertex] > 1 && vertices->is_local[ivertex]) {
       ierr = DetermineUpwindFacesForSubcell_PlanarVerticalFaces(mesh, ivertex, cellsAbove, cellsBelow); CHKERRQ(ierr);
+    } else {
+      // The vertices of a face may have been reordered
+      ierr = UpdateSubfaceIdsOfAVertex(mesh, ivertex); CHKERRQ(ierr);
     }
   }
 
-- 
2.43.0


From fb116b43154abb49ed73cd129c46cbf3974d358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 32/87] fix: the liquid mass diagnostic counted rock and gas
 volume as liquid

---
 src/fv/fvtpf/tdyfvtpf.c | 2 +-
 src/fv/mpfao/tdympfao.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..6c3f78f 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -379,7 +379,7 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = fvtpf->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->porosity[c] * fvtpf->S[c] * cells->volume[c];
 
     count++;
   }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 3adac60..91ca6c9 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2784,7 +2784,7 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = mpfao->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->porosity[c] * mpfao->S[c] * cells->volume[c];
 
     count++;
   }
-- 
2.43.0


From 5e8a01f70d2063e8e99e217e5cee564f9235642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 33/87] fix: return an error instead of exiting with success
 when there is no natural ordering

---
 src/tdydiscretization.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 5c67cd0..59c9701 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -202,8 +202,7 @@ PetscErrorCode TDyDiscretizationGlobalToNatural(TDyDiscretizationType *discretiz
     case PLEX_TYPE:
       ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
       if (!useNatural) {
-        PetscPrintf(PETSC_COMM_WORLD,"TDyGlobalToNatural cannot be performed as DMGetUseNatural is false");
-        exit(0);
+        SETERRQ(PetscObjectComm((PetscObject)dm),PETSC_ERR_USER,"TDyGlobalToNatural cannot be performed as DMGetUseNatural is false");
       }
 
       ierr = DMPlexGlobalToNaturalBegin(dm, global, natural);CHKERRQ(ierr);
@@ -262,8 +261,7 @@ PetscErrorCode TDyDiscretizationNaturalToGlobal(TDyDiscretizationType *discretiz
     case PLEX_TYPE:
       ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
       if (!useNatural) {
-        PetscPrintf(PETSC_COMM_WORLD,"TDyNaturalToGlobal cannot be performed as DMGetUseNatural is false");
-        exit(0);
+        SETERRQ(PetscObjectComm((PetscObject)dm),PETSC_ERR_USER,"TDyNaturalToGlobal cannot be performed as DMGetUseNatural is false");
       }
 
       ierr = DMPlexNaturalToGlobalBegin(dm, natural, global);CHKERRQ(ierr);
-- 
2.43.0


From 956b09eaf09c4642624c5589e1250ed0f3065f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 34/87] fix: time step cuts ignored the configured reduction
 factor

---
 src/tdyti.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..b102fd0 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 19fda04d64f7ad71169e04eae3873ea27dfe4ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 35/87] fix: a cut step that was to end at the target time was
 counted as having reached it

---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index b102fd0..75a3df3 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= ti->dt_reduction_factor;
+            ti->dt_save = 0.; // the reduced step no longer ends at sync_time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From a2d0db5040d2f49c08df1ac3b40f883908abc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 36/87] fix: run the time stepper to the target time, not to
 the time remaining

---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 75a3df3..6891815 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -183,9 +183,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From 3d1f7b063856f3b5e6a822229d04a438aa06014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 37/87] fix: the thermal conductivity option set the porosity

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 0a9275a..025ee22 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -541,7 +541,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
-- 
2.43.0


From 1318d35515c6f6fce0a504e596d0a5bb9bf42e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 38/87] fix: an unknown boundary function given as an option
 was ignored

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 025ee22..36171fd 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -566,7 +566,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -577,7 +577,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
-- 
2.43.0


From b3ef65e2506689a4831a5feb4be88e6d84159eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 39/87] fix: an unsupported mode and discretization given as
 options were ignored

---
 src/tdycore.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 36171fd..c76b3db 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -604,11 +604,15 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   PetscOptionsEnd();
 
   // Override the mode and/or discretization if needed.
-  if (options->mode != mode) {
-    TDySetMode(tdy, mode);
-  }
   if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+    if (options->mode != mode) {
+      // The new mode goes with the new discretization, which is set next.
+      options->mode = mode;
+      tdy->setup_flags |= TDyModeSet;
+    }
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
+  } else if (options->mode != mode) {
+    ierr = TDySetMode(tdy, mode); CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
-- 
2.43.0


From d9bf2c556b05c611619dba51df53cf1a2e68a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 40/87] fix: refuse options before a discretization is set
 instead of calling a null function

---
 src/tdycore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index c76b3db..d9a088b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -656,6 +656,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   //------------------------------------------
   ierr = ReadCommandLineOptions(tdy); CHKERRQ(ierr);
 
+  if ((tdy->setup_flags & TDyDiscretizationSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
+
   // Now that we know the discretization, we can create our implementation-
   // specific context.
   ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
-- 
2.43.0


From b8e0da2eb9dfd9ffad3477da24fa850ea036b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 41/87] fix: refuse another mode or discretization once the
 options have created their context

---
 src/tdycore.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index d9a088b..26508cb 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -837,6 +837,14 @@ PetscErrorCode TDySetup(TDy tdy) {
 PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
+
+  if (tdy->setup_flags & TDyOptionsSet) {
+    MPI_Comm comm;
+    PetscErrorCode ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetMode before TDySetFromOptions()");
+  }
+
   tdy->options.mode = mode;
   tdy->setup_flags |= TDyModeSet;
 
@@ -864,6 +872,10 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
     SETERRQ(comm,PETSC_ERR_USER,
       "You must call TDySetMode before TDySetDiscretization");
   }
+  if (tdy->setup_flags & TDyOptionsSet) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
 
   // Set function pointers for operations.
   if (tdy->options.mode == RICHARDS) {
-- 
2.43.0


From 5dfb2054101f72e8f5909e02874c6316679d6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 42/87] fix: a refused mode was kept with a discretization that
 does not support it

---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 26508cb..1df9a11 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -845,13 +845,16 @@ PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
       "You must call TDySetMode before TDySetFromOptions()");
   }
 
+  TDyMode old_mode = tdy->options.mode;
   tdy->options.mode = mode;
   tdy->setup_flags |= TDyModeSet;
 
   // If we are resetting the mode and have already set the discretization,
   // we call TDySetDiscretization again.
   if (tdy->setup_flags & TDyDiscretizationSet) {
-    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
+    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization);
+    if (ierr) tdy->options.mode = old_mode;
+    CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From e2dbd8efb8c549b29e8bc284725b316302fb965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 43/87] fix: destroy a dycore whose options were never set

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 1df9a11..0c98efd 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -395,7 +395,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (tdy->Jpre        ) { ierr = MatDestroy(&tdy->Jpre); CHKERRQ(ierr); }
 
   // Call implementation-specific destructor.
-  if (tdy->ops->destroy) {
+  if (tdy->ops->destroy && tdy->context) {
     tdy->ops->destroy(tdy->context);
   }
 
-- 
2.43.0


From 9a3e72f7d6cc48a61a17ba4f4bb1992070cb911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 44/87] fix: BDM ignored errors while integrating the boundary
 pressure

---
 src/fe/tdybdm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..4d89b5f 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -518,7 +518,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     for(f=0;f<coneSize;f++){
       ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
-        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal);
+        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal); CHKERRQ(ierr);
       }
     } /* end faces */
 
-- 
2.43.0


From a5127a5f7b7cb1a4fb040be14a9a48b9ab49017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 45/87] fix: diagnostics of MPFA_O_DAE, which has no state,
 dereferenced a null mesh

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 0c98efd..388047b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -899,7 +899,7 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       tdy->ops->get_num_dm_fields = TDyGetNumDMFields_Richards_MPFAO_DAE;
       tdy->ops->setup = TDySetup_Richards_MPFAO_DAE;
       tdy->ops->update_state = TDyUpdateState_Richards_MPFAO;
-      tdy->ops->update_diagnostics = TDyUpdateDiagnostics_MPFAO;
+      tdy->ops->update_diagnostics = NULL; // its setup creates no state yet
     } else if (discretization == MPFA_O_TRANSIENTVAR) {
       tdy->ops->create = TDyCreate_MPFAO;
       tdy->ops->destroy = TDyDestroy_MPFAO;
-- 
2.43.0


From bdabdb9b024f903a84c6dd4c7613f85f455ee2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 46/87] fix: FV-TPF read its boundary condition type option but
 never applied it

---
 src/fv/fvtpf/tdyfvtpf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 6c3f78f..f009770 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -331,9 +331,10 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
 
+  TDyMesh  *mesh = fvtpf->mesh;
+  TDyFace  *faces = &mesh->faces;
+
   if (ConditionsHasBoundaryPressureType(condition)) {
-    TDyMesh  *mesh = fvtpf->mesh;
-    TDyFace  *faces = &mesh->faces;
     PetscErrorCode ierr;
 
     PetscInt boundary_type;
@@ -353,6 +354,11 @@ static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *
       }
       faces->bc_type[iface] = boundary_type;
     }
+  } else {
+    // All boundary faces have the type given as an option.
+    for (PetscInt iface=0; iface<mesh->num_faces; iface++) {
+      if (!faces->is_internal[iface]) faces->bc_type[iface] = fvtpf->bc_type;
+    }
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From c59a3d1f2ef24763fb0b281e07222f269a5bf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 47/87] fix: the driver replaced a saline molecular weight set
 through the API

---
 src/tdydriver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..d4c14af 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -80,8 +80,10 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
           tdy->options.soil_specific_heat); CHKERRQ(ierr);
     }
   } else if (tdy->options.mode == SALINITY) {
-    ierr = TDySetConstantSalineMolecularWeight(tdy,
-      tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    if (!MaterialPropHasSalineMolecularWeight(tdy->matprop)) {
+      ierr = TDySetConstantSalineMolecularWeight(tdy,
+        tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    }
     if (!MaterialPropHasSalineDiffusivity(tdy->matprop)) {
       ierr = TDySetConstantIsotropicSalineDiffusivity(tdy,
         tdy->options.saline_diffusivity);CHKERRQ(ierr);
-- 
2.43.0


From 0e8b598f7e4c8190942e055a61ab81fd906dddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 48/87] fix: the driver ignored errors while reading the
 initial condition

---
 src/tdydriver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index d4c14af..314c320 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -216,7 +216,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
-- 
2.43.0


From 647d9833751292aeafa62c03eb44859edf586af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 49/87] fix: errors while reading the porosity were ignored

---
 src/tdyio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 9ebce58..b30e736 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -247,10 +247,10 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   }
 
   PetscReal *Porosity;
-  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);
+  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);CHKERRQ(ierr);
 
   ierr = MaterialPropSetPorosity(tdy->matprop, Porosity, AssignScalars,
-                                 ScalarsDestroy);
+                                 ScalarsDestroy);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From e5264093c1174e145038f436f51ee58badf7f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 50/87] fix: normals of faces that are not planar were shorter
 than one

---
 src/tdyutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..3450174 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -432,6 +432,8 @@ PetscErrorCode TDyNormalToQuadrilateral(PetscReal node_1[3], PetscReal node_2[3]
   for (d=0; d<3; d++) {
     normal[d] = (normal_12c[d] + normal_23c[d] + normal_34c[d] + normal_41c[d])/4.0;
   }
+  // The normals of the triangles differ when the quadrilateral is not planar
+  ierr = ConvertToUnitVector(normal); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 868c48ad26748d6dd0d60b14f716fd63bc904d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 51/87] fix: a process without cells crashed in the setup of
 the finite volume mesh

---
 src/fv/share/tdymeshplex.c | 8 ++++++++
 src/tdyutils.c             | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 8835c76..d7b0997 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -730,6 +730,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatIntegerValues(
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -781,6 +783,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatTDyVectorValues(DM dm,
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -835,6 +839,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatTDyCoordinateValues(
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -888,6 +894,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatRealValues(DM dm,
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 3450174..75db8fd 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -156,6 +156,8 @@ PetscInt TDyGetNumberOfCellVerticesWithClosures(DM dm, PetscInt *closureSize, Pe
     if(nq == -1) nq = q;
     if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
   }
+  // A process without any cells learns the cell type from the others.
+  ierr = MPI_Allreduce(MPI_IN_PLACE,&nq,1,MPIU_INT,MPI_MAX,comm); CHKERRQ(ierr);
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(nq);
 }
-- 
2.43.0


From 86ed0d7072f646c05022dc00c40a37442eb2d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 52/87] fix: saturation, mass and pressure of modes with two
 unknowns per cell in natural order

---
 src/tdycore.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 388047b..ce8d052 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1838,6 +1838,29 @@ PetscErrorCode TDyCreateMatrix(TDy tdy, Mat *mat) {
   PetscFunctionReturn(0);
 }
 
+/// Reorders a cell-centered scalar field from global to natural order, also for
+/// modes with several unknowns per cell
+/// @param [in] tdy A TDy object
+/// @param [in] field A Vec created with TDyCreateDiagnosticVector
+/// @param [out] natural The values of the field in natural order
+static PetscErrorCode CellFieldToNatural(TDy tdy, Vec field, Vec natural) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  // The natural ordering is known for a vector of unknowns, so the field takes
+  // the place of the first unknown.
+  Vec u, u_natural;
+  ierr = TDyCreateGlobalVector(tdy, &u); CHKERRQ(ierr);
+  ierr = VecDuplicate(u, &u_natural); CHKERRQ(ierr);
+  ierr = VecStrideScatter(field, 0, u, INSERT_VALUES); CHKERRQ(ierr);
+  ierr = TDyGlobalToNatural(tdy, u, u_natural); CHKERRQ(ierr);
+  ierr = VecStrideGather(u_natural, 0, natural, INSERT_VALUES); CHKERRQ(ierr);
+  ierr = VecDestroy(&u); CHKERRQ(ierr);
+  ierr = VecDestroy(&u_natural); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Given a Vec created with TDyCreateDiagnosticVector, populates that vector
 /// with the saturation values for each cell in the grid.
 /// @param [in] tdy A TDy object
@@ -1850,7 +1873,7 @@ PetscErrorCode TDyGetLiquidSaturation(TDy tdy, Vec sat_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_SATURATION, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = CellFieldToNatural(tdy, tmp_vec, sat_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
@@ -1869,7 +1892,7 @@ PetscErrorCode TDyGetLiquidMass(TDy tdy, Vec mass_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_MASS, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = CellFieldToNatural(tdy, tmp_vec, mass_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
@@ -1893,8 +1916,9 @@ static PetscErrorCode ExtractPrognosticField(TDy tdy, PetscInt index, Vec vec) {
   PetscFunctionReturn(0);
 }
 
-/// Given a Vec created with TDyCreatePrognosticVector, populates that vector
-/// with the saturation values for each cell in the grid.
+/// Given a Vec with one value per cell (created with TDyCreateDiagnosticVector,
+/// or with TDyCreatePrognosticVector if pressure is the only unknown), populates
+/// that vector with the pressure values for each cell in the grid.
 /// @param [in] tdy A TDy object
 /// @param [out] liq_pres_vec The Vec that stores the cell-centered liquid pressure field.
 ///                           The values in the Vec are in natural-order.
@@ -1903,9 +1927,12 @@ PetscErrorCode TDyGetLiquidPressure(TDy tdy, Vec liq_press_vec) {
   PetscFunctionBegin;
 
   Vec tmp_vec;
-  ierr = TDyCreateGlobalVector(tdy, &tmp_vec); CHKERRQ(ierr);
+  PetscInt vecsize, blocksize;
+  ierr = VecGetLocalSize(tdy->soln_prev, &vecsize); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(tdy->soln_prev, &blocksize); CHKERRQ(ierr);
+  ierr = VecCreateMPI(PetscObjectComm((PetscObject)tdy), vecsize/blocksize, PETSC_DECIDE, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractPrognosticField(tdy, VAR_PRESSURE, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, liq_press_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = CellFieldToNatural(tdy, tmp_vec, liq_press_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
-- 
2.43.0


From 2de672409224e58e5e749a99b9743a7f4a96c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 53/87] fix: saline previous state uses ghosted cell values

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..f3a1435 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -59,8 +59,9 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
 
   TDY_START_FUNCTION_TIMER()
 
-  // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  // Update the auxillary variables on all cells, including ghosts
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&U); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
@@ -80,7 +81,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,U[icell*2+1],&accum_prev[icell*2+1]); CHKERRQ(ierr);
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&U); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 52417e0b0721d6d67153663617f13918b176688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 54/87] fix: saline flux is upwinded by the total potential and
 advects the upwind concentration

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 51 +++++++++++++++------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index f3a1435..376fa49 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -96,13 +96,13 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   TDyCell *cells = &mesh->cells;
   TDyFace *faces = &mesh->faces;
   TDyVertex *vertices = &mesh->vertices;
-  PetscReal *r;
+  PetscReal *r, *u_p;
   PetscInt ivertex;
   PetscInt dim;
   PetscInt irow;
   PetscInt cell_id_up, cell_id_dn;
   PetscInt npitf_bc, nflux_in;
-  PetscReal den,fluxm,ukvr,fluxt,flow_rate;
+  PetscReal fluxm,ukvr,fluxt,flow_rate;
   PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr;
   PetscErrorCode ierr;
   PetscScalar *GravDis_ptr;
@@ -115,6 +115,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
+  ierr = VecGetArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
@@ -151,25 +152,6 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       cell_id_up = cell_ids[0];
       cell_id_dn = cell_ids[1];
 
-      if (TtimesP[irow] < 0.0) { // up ---> dn
-                                 // Is the cell_id_up an internal or boundary cell?
-        if (cell_id_up >= 0) {
-          ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
-        }
-        else {
-          ukvr = mpfao->Kr_bnd[-cell_id_up-1]/mpfao->vis_bnd[-cell_id_up-1];
-        }
-      }
-      else {
-        // Is the cell_id_dn an internal or boundary cell?
-        if (cell_id_dn >= 0) {
-          ukvr = mpfao->Kr[cell_id_dn]/mpfao->vis[cell_id_dn];
-        }
-        else {
-          ukvr = mpfao->Kr_bnd[-cell_id_dn-1]/mpfao->vis_bnd[-cell_id_dn-1];
-        }
-      }
-
       PetscReal den_aveg = 0.0;
       if (cell_id_up>=0) {
         den_aveg += mpfao->rho[cell_id_up];
@@ -187,14 +169,36 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
 
       PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
 
+      // Upwind the mobility and the concentration
+      PetscInt cell_id_upwind;
+      if (TtimesP[irow] + den_aveg * G < 0.0) cell_id_upwind = cell_id_up; // up ---> dn
+      else                                    cell_id_upwind = cell_id_dn;
+
+      PetscReal psi;
+      if (cell_id_upwind >= 0) {
+        ukvr = mpfao->Kr[cell_id_upwind]/mpfao->vis[cell_id_upwind]; //vis based on salinity
+        psi  = u_p[cell_id_upwind*2+1];
+      }
+      else {
+        ukvr = mpfao->Kr_bnd[-cell_id_upwind-1]/mpfao->vis_bnd[-cell_id_upwind-1];
+        psi  = mpfao->Psi_bnd[-cell_id_upwind-1];
+      }
+
+      // No water enters through a seepage face
+      if (mpfao->bc_type == SEEPAGE_BC && cell_id_upwind < 0 &&
+          mpfao->P_bnd[-cell_id_upwind-1] <= mpfao->Pref) {
+        ukvr = 0.0;
+      }
+
       flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-      fluxt = den_aveg*flow_rate;  //Advection term
+      fluxm += - pow(den_aveg,2.0) * ukvr * G;
+
+      fluxt = fluxm*psi;  //Advection term
 
       // Diffusion term in transport equation?
       fluxt += -den_aveg*TtimesPsi[irow];
-      fluxm += - pow(den_aveg,2.0) * ukvr * G;
 
       // fluxm > 0 implies flow is from 'up' to 'dn'
       if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -209,6 +213,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   }
 
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
+  ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
-- 
2.43.0


From 3b6610fb3f502e14431a3a6314db665cbbf6b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 55/87] fix: saline transmissibility of interior and no-flow
 vertices

---
 src/fv/mpfao/tdympfao.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 91ca6c9..fde3929 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1825,6 +1825,8 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
       ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 0); CHKERRQ(ierr);
       if (mpfao->Temp_subc_Gmatrix) { // TH
         ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 1); CHKERRQ(ierr);
+      } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+        ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 2); CHKERRQ(ierr);
       }
     } else {
       // It is assumed that neumann boundary condition is a zero-flux boundary condition.
@@ -2503,7 +2505,7 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   ierr = VecZeroEntries(mpfao->GravDisVec);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Psi_Trans, mpfao->mesh->num_vertices,
-                                  mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
+                                  mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Psi_Trans_mat); CHKERRQ(ierr);
   ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
   ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec);
-- 
2.43.0


From f7b455c961f43d9ad80e01e6e3c60dbdf6da934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 56/87] fix: free boundary concentrations

---
 src/fv/mpfao/tdympfao_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 0dae94b..602ec3b 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -878,6 +878,7 @@ PetscErrorCode TDyMPFAO_SetBoundarySalineConcentration(TDy tdy, Vec Ul) {
 
   ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->Psi_vec,&psi_vec_ptr); CHKERRQ(ierr);
+  ierr = PetscFree(psi); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 846db8b42b79b61f1f0d0347734066cda6a6fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 57/87] fix: two-point conductivity and diffusivity of thermal
 and saline modes

---
 src/fv/mpfao/tdympfao.c | 192 +++++++++++++++++-----------------------
 1 file changed, 81 insertions(+), 111 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fde3929..d62116f 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -127,149 +127,119 @@ static PetscErrorCode ComputeGMatrix_MPFAO(TDyMPFAO* mpfao, DM dm,
 
 static PetscErrorCode ComputeUpAndDownDist(TDyMPFAO *, PetscInt, PetscReal *, PetscReal *);
 
-static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
-                                         MaterialProp *matprop) {
-
+/// Computes the (diagonal) entry of a subcell's G matrix for a face, using the
+/// two-point flux approximation
+/// @param [in] K     The tensors (e.g. permeability) of all cells
+/// @param [in] icell The cell to which the subcell belongs
+static PetscErrorCode ComputeEntryOfGMatrix_TPF(TDyMPFAO *mpfao,
+                                                const PetscReal *K,
+                                                PetscInt icell,
+                                                PetscInt face_id,
+                                                PetscReal area,
+                                                PetscReal *entry) {
   PetscFunctionBegin;
-  TDY_START_FUNCTION_TIMER()
 
-  PetscInt dim,icell;
   PetscErrorCode ierr;
-
   TDyMesh *mesh = mpfao->mesh;
   TDyCell *cells = &mesh->cells;
   TDyFace *faces = &mesh->faces;
-  TDySubcell *subcells = &mesh->subcells;
-
-  ierr = DMGetDimension(dm, &dim); CHKERRQ(ierr);
-
-  for (icell=0; icell<mesh->num_cells; icell++) {
-
-    // extract permeability tensor
-    PetscInt ii,jj;
-    PetscReal K[3][3];
-
-    for (ii=0; ii<dim; ii++) {
-      for (jj=0; jj<dim; jj++) {
-        K[ii][jj] = mpfao->K0[icell*dim*dim + ii*dim + jj];
-      }
-    }
-
-    // extract thermal conductivity tensor
-    PetscReal Kappa[3][3];
-    if (mpfao->Temp_subc_Gmatrix) { // TH
-      for (ii=0; ii<dim; ii++) {
-        for (jj=0; jj<dim; jj++) {
-          Kappa[ii][jj] = mpfao->Kappa0[icell*dim*dim + ii*dim + jj];
-        }
-      }
-    } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
-      for (ii=0; ii<dim; ii++) {
-        for (jj=0; jj<dim; jj++) {
-          Kappa[ii][jj] = mpfao->D_saline[icell*dim*dim + ii*dim + jj];
-        }
-      }
-    }
-
-    PetscInt isubcell;
+  PetscInt dim = 3, neighbor_cell_id;
+  PetscReal normal[3], neighbor_cell_cen[3], cell_cen[3], dist;
 
-    for (isubcell=0; isubcell<cells->num_subcells[icell]; isubcell++) {
+  PetscInt faceCellOffset = faces->cell_offset[face_id];
 
-      PetscInt subcell_id = icell*cells->num_subcells[icell]+isubcell;
+  ierr = TDyFace_GetNormal(faces, face_id, dim, &normal[0]); CHKERRQ(ierr);
+  ierr = TDyCell_GetCentroid2(cells, icell, dim, &cell_cen[0]); CHKERRQ(ierr);
 
-      PetscInt *subcell_face_ids, subcell_num_faces;
-      PetscReal *subcell_face_areas;
-      ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &subcell_face_ids, &subcell_num_faces); CHKERRQ(ierr);
-      ierr = TDyMeshGetSubcellFaceAreas(mesh, subcell_id, &subcell_face_areas, &subcell_num_faces); CHKERRQ(ierr);
+  if (faces->cell_ids[faceCellOffset]==icell) {
+    neighbor_cell_id = faces->cell_ids[faceCellOffset+1];
+  } else {
+    neighbor_cell_id = faces->cell_ids[faceCellOffset];
+  }
 
-      for (PetscInt ii=0;ii<subcell_num_faces;ii++) {
+  if (neighbor_cell_id >=0) {
+    ierr = TDyCell_GetCentroid2(cells, neighbor_cell_id, dim, &neighbor_cell_cen[0]); CHKERRQ(ierr);
+    ierr = TDyComputeLength(neighbor_cell_cen, cell_cen, dim, &dist); CHKERRQ(ierr);
+    dist *= 0.50;
+  } else {
+    ierr = TDyFace_GetCentroid(faces, face_id, dim, &neighbor_cell_cen[0]); CHKERRQ(ierr);
+    ierr = TDyComputeLength(neighbor_cell_cen, cell_cen, dim, &dist); CHKERRQ(ierr);
+    neighbor_cell_id = icell;
+  }
+  PetscReal K_neighbor_value = 0.0, K_value = 0.0, K_aveg;
 
-        PetscReal area;
-        PetscReal normal[3];
+  PetscReal dot_prod, normal_up2dn[3];
+  ierr = TDyUnitNormalVectorJoiningTwoVertices(neighbor_cell_cen, cell_cen, normal_up2dn); CHKERRQ(ierr);
+  ierr = TDyDotProduct(normal,normal_up2dn,&dot_prod); CHKERRQ(ierr);
 
-        PetscInt face_id = subcell_face_ids[ii];
+  for (PetscInt kk=0;kk<dim;kk++) {
+    K_neighbor_value += pow(normal_up2dn[kk],2.0)/K[neighbor_cell_id*dim*dim + kk*dim + kk];
+    K_value          += pow(normal_up2dn[kk],2.0)/K[icell*dim*dim + kk*dim + kk];
+  }
 
-        area = subcell_face_areas[ii];
+  K_neighbor_value = 1.0/K_neighbor_value;
+  K_value          = 1.0/K_value;
 
-        ierr = TDyFace_GetNormal(faces, face_id, dim, &normal[0]); CHKERRQ(ierr);
+  // distance-weighted harmonic average, as in the gravity term
+  PetscReal dist_up, dist_dn;
+  ierr = ComputeUpAndDownDist(mpfao, face_id, &dist_up, &dist_dn); CHKERRQ(ierr);
+  PetscReal wt = (faces->cell_ids[faceCellOffset]==icell ? dist_up : dist_dn) / (dist_up + dist_dn);
+  K_aveg = (K_value*K_neighbor_value)/(wt*K_neighbor_value + (1.0-wt)*K_value);
 
-        for (PetscInt jj=0;jj<subcell_num_faces;jj++) {
-          PetscReal nu[dim];
+  *entry = area * (dot_prod) * K_aveg/(dist);
 
-          if (ii != jj) {
+  PetscFunctionReturn(0);
+}
 
-            mpfao->subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
+                                         MaterialProp *matprop) {
 
-          } else {
+  PetscFunctionBegin;
+  TDY_START_FUNCTION_TIMER()
 
-            PetscInt neighbor_cell_id;
-            PetscReal neighbor_cell_cen[dim],cell_cen[dim], dist;
+  PetscErrorCode ierr;
 
-            PetscInt faceCellOffset = faces->cell_offset[face_id];
+  TDyMesh *mesh = mpfao->mesh;
+  TDyCell *cells = &mesh->cells;
 
-            ierr = TDyCell_GetCentroid2(cells, icell, dim, &cell_cen[0]); CHKERRQ(ierr);
+  for (PetscInt icell=0; icell<mesh->num_cells; icell++) {
+    for (PetscInt isubcell=0; isubcell<cells->num_subcells[icell]; isubcell++) {
 
-            if (faces->cell_ids[faceCellOffset]==icell) {
-              neighbor_cell_id = faces->cell_ids[faceCellOffset+1];
-            } else {
-              neighbor_cell_id = faces->cell_ids[faceCellOffset];
-            }
+      PetscInt subcell_id = icell*cells->num_subcells[icell]+isubcell;
 
-            PetscReal K_neighbor[3][3];
-            PetscInt kk,mm;
-
-            if (neighbor_cell_id >=0) {
-              ierr = TDyCell_GetCentroid2(cells, neighbor_cell_id, dim, &neighbor_cell_cen[0]); CHKERRQ(ierr);
-              ierr = TDyComputeLength(neighbor_cell_cen, cell_cen, dim, &dist); CHKERRQ(ierr);
-              dist *= 0.50;
-
-              for (kk=0; kk<dim; kk++) {
-                for (mm=0; mm<dim; mm++) {
-                  K_neighbor[kk][mm] = mpfao->K0[neighbor_cell_id*dim*dim + kk*dim + mm];
-                }
-              }
-            } else {
-              ierr = TDyFace_GetCentroid(faces, face_id, dim, &neighbor_cell_cen[0]); CHKERRQ(ierr);
-              ierr = TDyComputeLength(neighbor_cell_cen, cell_cen, dim, &dist); CHKERRQ(ierr);
-              for (kk=0; kk<dim; kk++) {
-                for (mm=0; mm<dim; mm++) {
-                  K_neighbor[kk][mm] = mpfao->K0[icell*dim*dim + kk*dim + mm];
-                }
-              }
-            }
-            PetscReal K_neighbor_value = 0.0, K_value = 0.0, K_aveg;
+      PetscInt *subcell_face_ids, subcell_num_faces;
+      PetscReal *subcell_face_areas;
+      ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &subcell_face_ids, &subcell_num_faces); CHKERRQ(ierr);
+      ierr = TDyMeshGetSubcellFaceAreas(mesh, subcell_id, &subcell_face_areas, &subcell_num_faces); CHKERRQ(ierr);
 
-            PetscReal dot_prod, normal_up2dn[dim];
-            ierr = TDyUnitNormalVectorJoiningTwoVertices(neighbor_cell_cen, cell_cen, normal_up2dn); CHKERRQ(ierr);
-            ierr = TDyDotProduct(normal,normal_up2dn,&dot_prod); CHKERRQ(ierr);
+      for (PetscInt ii=0;ii<subcell_num_faces;ii++) {
 
-            for (kk=0;kk<dim;kk++) {
-              K_neighbor_value += pow(normal_up2dn[kk],2.0)/K_neighbor[kk][kk];
-              K_value          += pow(normal_up2dn[kk],2.0)/K[kk][kk];
-            }
+        PetscInt face_id = subcell_face_ids[ii];
+        PetscReal area = subcell_face_areas[ii];
 
-            K_neighbor_value = 1.0/K_neighbor_value;
-            K_value          = 1.0/K_value;
+        for (PetscInt jj=0;jj<subcell_num_faces;jj++) {
 
-            // distance-weighted harmonic average, as in the gravity term
-            PetscReal dist_up, dist_dn;
-            ierr = ComputeUpAndDownDist(mpfao, face_id, &dist_up, &dist_dn); CHKERRQ(ierr);
-            PetscReal wt = (faces->cell_ids[faceCellOffset]==icell ? dist_up : dist_dn) / (dist_up + dist_dn);
-            K_aveg = (K_value*K_neighbor_value)/(wt*K_neighbor_value + (1.0-wt)*K_value);
+          PetscBool diag = (ii == jj) ? PETSC_TRUE : PETSC_FALSE;
 
-            mpfao->subc_Gmatrix[icell][isubcell][ii][jj] = area * (dot_prod) * K_aveg/(dist);
+          mpfao->subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+          if (diag) {
+            ierr = ComputeEntryOfGMatrix_TPF(mpfao, mpfao->K0, icell, face_id, area,
+              &(mpfao->subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
           }
 
           if (mpfao->Temp_subc_Gmatrix) { // TH
-            if (ii == jj) {
-              ierr = TDySubCell_GetIthNuStarVector(subcells, subcell_id, jj, dim, &nu[0]); CHKERRQ(ierr);
-
-              ierr = ComputeEntryOfGMatrix(area, normal, Kappa, nu, subcells->T[subcell_id], dim,
-                                           &(mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
-            } else {
-              mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+            mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+            if (diag) {
+              ierr = ComputeEntryOfGMatrix_TPF(mpfao, mpfao->Kappa0, icell, face_id, area,
+                &(mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
+            }
+          } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+            mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+            if (diag) {
+              ierr = ComputeEntryOfGMatrix_TPF(mpfao, mpfao->D_saline, icell, face_id, area,
+                &(mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
             }
-          } // TH
+          }
 
         } // jj-subcell-faces
       } // ii-isubcell faces
-- 
2.43.0


From 8b5e4f348e505b0c07556dc263cca5763c7b11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 58/87] fix: assembling the BDM system inverted the stored
 permeability in place

---
 src/fe/tdybdm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 4d89b5f..1479463 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -426,7 +426,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
   PetscInt dim,dim2,nlocal,pStart,pEnd,c,cStart,cEnd,q,nq,nfq,nv,vi,vj,di,dj,
     local_row,local_col,isbc,f,nq1d=3;
   PetscScalar x[81],DF[243],DFinv[243],J[27],Klocal[MAX_LOCAL_SIZE],
-              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72];
+              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72],Kinv[9];
   const PetscScalar *quad_x,*fquad_x;
   const PetscScalar *quad_w,*fquad_w;
   PetscQuadrature quadrature;
@@ -469,8 +469,9 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Klocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
-    /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    /* Invert a copy of the permeability */
+    ierr = PetscMemcpy(Kinv,&(bdm->K[dim2*(c-cStart)]),dim2*sizeof(PetscScalar)); CHKERRQ(ierr);
+    ierr = Inverse(Kinv,dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
@@ -492,7 +493,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
             for(dj=0; dj<dim; dj++) {
               local_col = vj*dim+dj;
               /* (K^-1 u, v) */
-              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(&(bdm->K[dim2*(c-cStart)]),
+              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(Kinv,
                   &(basis_hdiv[dim*local_row]),
                   &(basis_hdiv[dim*local_col]),dim)*quad_w[q]*J[q];
             }
-- 
2.43.0


From 46d9925d705616f6e935beadd4d4645287d91e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 59/87] fix: BDM applied boundary pressures only on meshes with
 a marker label

---
 src/fe/tdybdm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 1479463..867c88e 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -517,7 +517,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = DMPlexGetConeSize(dm,c,&coneSize); CHKERRQ(ierr);
     ierr = DMPlexGetCone    (dm,c,&cone); CHKERRQ(ierr);
     for(f=0;f<coneSize;f++){
-      ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
+      ierr = DMGetLabelValue(dm,"boundary",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
         ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal); CHKERRQ(ierr);
       }
-- 
2.43.0


From 16fb83a253e455cd938489ff4e002729f669650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 60/87] fix: BDM boundary pressures on faces that are not
 planar used an average normal

---
 src/fe/tdybdm.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 867c88e..3153711 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -334,7 +334,7 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
   PetscQuadrature quadrature,face_quadrature;
   const PetscScalar *fquad_x,*fquad_w;
   PetscReal *single_point,*single_weight,lside[24],x[3],DF[9],DFinv[9],J[1],basis[72],g;
-  PetscReal fJ[9],dummy[200],normal[3];
+  PetscReal normal[3];
   PetscInt i,j,q,v,d,dim,ncv,nfq,nq1d,face_side,face_dir;
   ncv = bdm->ncv;
   nq1d = 3;
@@ -359,21 +359,16 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
   face_side = -1; face_dir = -1;
   for(v=0; v<ncv; v++) {
     for(d=0; d<dim; d++) {
-      normal[d] = bdm->N[f*dim+d];
       if(PetscAbsInt(bdm->emap[c*ncv*dim+v*dim+d]) == f) {
         face_side = lside[v*dim+d];
         face_dir  = d;
       }
     }
   }
-  if(TDyADotBMinusC(normal,&(bdm->X[f*dim]),&(bdm->X[c*dim]),dim) < 0){
-    for(d=0; d<dim; d++) normal[d] *= -1;
-  }
 
   /* face quadrature setup */
   ierr = PetscDTGaussTensorQuadrature(dim-1,1,nq1d,-1,+1,&face_quadrature); CHKERRQ(ierr);
   ierr = PetscQuadratureGetData(face_quadrature,NULL,NULL,&nfq,&fquad_x,&fquad_w); CHKERRQ(ierr);
-  ierr = DMPlexComputeCellGeometryFEM(dm,f,face_quadrature,dummy,dummy,dummy,fJ); CHKERRQ(ierr);
 
   /* dummy 1 point quadrature to get the mapping information */
   ierr = PetscQuadratureCreate(PETSC_COMM_SELF,&quadrature); CHKERRQ(ierr);
@@ -403,9 +398,11 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
     }else{
       HdivBasisHex(single_point,basis,DF,J[0]);
     }
+    /* outward normal scaled by the area element, which varies on a face that is not planar */
+    for(d=0; d<dim; d++) normal[d] = single_point[face_dir]*J[0]*DFinv[face_dir*dim+d];
     /* -<g,v.n>|_q */
     ierr = ConditionsComputeBoundaryPressure(conditions, 1, x, &g);CHKERRQ(ierr);
-    for(i=0; i<ncv*dim; i++) gvdotn[i] -= g*TDyADotB(&(basis[i*dim]),normal,dim)*fquad_w[q]*fJ[q];
+    for(i=0; i<ncv*dim; i++) gvdotn[i] -= g*TDyADotB(&(basis[i*dim]),normal,dim)*fquad_w[q];
   }
 
   ierr = PetscQuadratureDestroy(&quadrature); CHKERRQ(ierr);
-- 
2.43.0


From 3db4d77d211dd65c6a8e52b7faeba646987fd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 61/87] fix: a process without cells was refused by the
 finite-element setup

---
 src/fe/tdyfe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index dcee4e5..e7d792d 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -79,7 +79,8 @@ PetscErrorCode CreateCellVertexDirFaceMap(DM dm, PetscInt nv, PetscReal *X,
   PetscFunctionBegin;
   PetscInt d,dim,i,f,fStart,fEnd,v,q,c,cStart,cEnd,closureSize,*closure,
            fclosureSize,*fclosure,local_dirs[24];
-  if(!vmap) {
+  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+  if(!vmap && cEnd > cStart) {
     SETERRQ(((PetscObject)dm)->comm,PETSC_ERR_USER,
             "Must first create TDyCreateCellVertexMap to set vmap");
   }
@@ -100,7 +101,6 @@ PetscErrorCode CreateCellVertexDirFaceMap(DM dm, PetscInt nv, PetscReal *X,
     local_dirs[21] = 1; local_dirs[22] = 2; local_dirs[23] = 4;
   }
   ierr = DMPlexGetHeightStratum(dm,1,&fStart,&fEnd); CHKERRQ(ierr);
-  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
   ierr = TDyAlloc(dim*nv*(cEnd-cStart)*sizeof(PetscInt),map); CHKERRQ(ierr);
 #if defined(PETSC_USE_DEBUG)
   for(c=0; c<dim*nv*(cEnd-cStart); c++) { (*map)[c] = 0; }
-- 
2.43.0


From 8d2d6949e6ab2cae4d69f90e21d225f09fc1cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 62/87] fix: WY ignored the residual saturation

---
 src/fe/tdywy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..74dd3f7 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -512,6 +512,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
   MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  ierr = MaterialPropComputeResidualSaturation(matprop, nc, wy->X, wy->Sr); CHKERRQ(ierr);
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From ef603051e517057dab2ca39e844fa48da479b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 63/87] fix: the WY residual recovered velocities from a local
 vector

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 74dd3f7..268a907 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1039,7 +1039,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy,p,cEnd-cStart); CHKERRQ(ierr);
   ierr = TDyWYLocalElementCompute(tdy); CHKERRQ(ierr);
-  ierr = TDyWYRecoverVelocity(tdy,Ul); CHKERRQ(ierr);
+  ierr = TDyWYRecoverVelocity(tdy,U); CHKERRQ(ierr);
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
   for(c=cStart; c<cEnd; c++) {
-- 
2.43.0


From 3ded0695932273394b5c66169523bfe5824a2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 64/87] fix: the WY residual left the cell volume out of the
 storage term

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 268a907..ce2910e 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1063,7 +1063,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
       }
     }
 
-    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c] + div - wy->Flocal[c-cStart];
+    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c]*wy->V[c] + div - wy->Flocal[c-cStart];
     //PetscPrintf(PETSC_COMM_WORLD,"R[%2d] = %+e %+e %+e = %+e\n",
     // 	c,wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c],
     // 		div,wy->Flocal[c-cStart],r[c]);
-- 
2.43.0


From 563b9e810c6ff29f5d0de2972d2c3f7841724a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 65/87] fix: the outer faces of a process' overlap were labeled
 as boundary

---
 src/tdycore.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index ce8d052..dbdd379 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -724,6 +724,17 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ierr = DMCreateLabel(((tdy->discretization)->tdydm)->dm, "boundary"); CHKERRQ(ierr);
     ierr = DMGetLabel(((tdy->discretization)->tdydm)->dm, "boundary", &boundary_label); CHKERRQ(ierr);
     ierr = DMPlexMarkBoundaryFaces(((tdy->discretization)->tdydm)->dm, 1, boundary_label); CHKERRQ(ierr);
+
+    // The outer faces of the overlap have only one cell here as well, but the
+    // process that owns them knows whether they are on the boundary.
+    PetscSF sf;
+    PetscInt nleaves;
+    const PetscInt *leaves;
+    ierr = DMGetPointSF(dm, &sf); CHKERRQ(ierr);
+    ierr = PetscSFGetGraph(sf, NULL, &nleaves, &leaves, NULL); CHKERRQ(ierr);
+    for (PetscInt l=0; l<nleaves; l++) {
+      ierr = DMLabelClearValue(boundary_label, leaves ? leaves[l] : l, 1); CHKERRQ(ierr);
+    }
     ierr = DMPlexLabelComplete(((tdy->discretization)->tdydm)->dm, boundary_label); CHKERRQ(ierr);
 
   }
-- 
2.43.0


From 54ccc40bad7c15bd5d45f8a023bf2e9d6eb79355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 66/87] fix: material properties of two-dimensional meshes were
 set up with three dimensions

---
 src/tdycore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index dbdd379..c431ec1 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -739,7 +739,8 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
 
   }
 
-  PetscInt dim = 3;
+  PetscInt dim;
+  ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr);
 
   // Create an empty material properties object. Each function must be set
   // explicitly by the driver program.
-- 
2.43.0


From db24656ba3e50d6ce07e93c68fe0950889a72a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 67/87] fix: an isotropic permeability file was read as one
 constant diagonal tensor

---
 src/tdyio.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index b30e736..b0c4e34 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,17 +124,20 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(dim*dim) * n);
+  // The tensors are isotropic if only Tx is given.
+  PetscReal *Ty = (diag_tensors->Ty) ? diag_tensors->Ty : diag_tensors->Tx;
+  PetscReal *Tz = (diag_tensors->Tz) ? diag_tensors->Tz : diag_tensors->Tx;
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-      tensors[dim2*i + 3] = diag_tensors->Ty[i];
+      tensors[dim2*i + 3] = Ty[i];
     }
   } else { // dim == 3
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-      tensors[dim2*i + 4] = diag_tensors->Ty[i];
-      tensors[dim2*i + 8] = diag_tensors->Tz[i];
+      tensors[dim2*i + 4] = Ty[i];
+      tensors[dim2*i + 8] = Tz[i];
     }
   }
   PetscFunctionReturn(0);
@@ -204,10 +207,12 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     PetscReal *K;
     ierr = TDyIOReadVariable(tdy,VariableName,filename,&K);CHKERRQ(ierr);
 
-    // Constant diagonal (yet still anisotropic) permeability. Maybe we should
-    // change io->anisotropic_permeability to io->heterogeneous_permeability?
-    PetscReal perm[3] = {K[0], K[1], K[2]};
-    ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
+    // Set up a function/context that assigns an isotropic permeability to each
+    // cell.
+    DiagonalTensors *diag_perms;
+    ierr = DiagonalTensorsCreate(dim, K, NULL, NULL, &diag_perms); CHKERRQ(ierr);
+    ierr = MaterialPropSetPermeability(tdy->matprop, diag_perms,
+        AssignDiagonalTensors, DiagonalTensorsDestroy);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From d37c7e7f9ca641afb035892d912ce5e1f9dae49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 68/87] fix: initial conditions of uneven partitions were read
 out of bounds

---
 src/tdyio.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index b0c4e34..f2243ac 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -280,7 +280,11 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  // Each process reads as many values as it has unknowns.
+  PetscInt n;
+  ierr = VecGetLocalSize(tdy->soln,&n);CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n,PETSC_DECIDE);CHKERRQ(ierr);
 
   ierr = PetscObjectSetName((PetscObject) u, VariableName);
 
@@ -289,6 +293,7 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
   ierr = VecDestroy(&u);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From b7981cc39b754af399ec432d51cd8da3d7f59aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 69/87] fix: per-cell files were misread on uneven partitions
 and with two unknowns per cell

---
 src/tdyio.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index f2243ac..244d6c7 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -313,31 +313,45 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscErrorCode ierr;
   PetscViewer viewer;
   Vec u;
-  Vec u_local;
+  Vec u_natural, u_local;
   PetscReal *ptr;
-  int i,n;
+  PetscInt i,n,bs;
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  // The file has one value for each cell, which takes the place of the first
+  // unknown. Each process reads as many values as it has cells.
+  ierr = TDyCreateGlobalVector(tdy, &u_natural);CHKERRQ(ierr);
+  ierr = VecGetBlockSize(u_natural, &bs);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(u_natural, &n);CHKERRQ(ierr);
+
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u, n/bs, PETSC_DECIDE);CHKERRQ(ierr);
   ierr = PetscObjectSetName((PetscObject) u, VariableName);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
+  ierr = VecStrideScatter(u, 0, u_natural, INSERT_VALUES);CHKERRQ(ierr);
+
   ierr = TDyCreateLocalVector(tdy, &u_local);
-  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
+  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u_natural,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
+  n = n/bs;
 
   ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
-    (*variable)[i] = ptr[i];
+    (*variable)[i] = ptr[i*bs];
   }
 
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
 
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_natural);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From b2957871376441d91b9ff34a31b44c39518bc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 70/87] fix: checkpoints leaked their viewer

---
 src/tdyio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyio.c b/src/tdyio.c
index 244d6c7..1d192c2 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -378,6 +378,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 7123f8b377ee9cd583ea2be377303afcd24f9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 71/87] fix: the XMF description lost cells and was written by
 every process

---
 src/tdyio.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 1d192c2..2f54ef0 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -408,14 +408,35 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   else if (tdy->io->format == HDF5Format) {
     strcpy(tdy->io->filename, "out.h5");
     char *ofilename = tdy->io->filename;
+    MPI_Comm comm;
+    PetscMPIInt rank;
+    ierr = PetscObjectGetComm((PetscObject)dm, &comm);CHKERRQ(ierr);
+    ierr = MPI_Comm_rank(comm, &rank);CHKERRQ(ierr);
     numCorner = TDyGetNumberOfCellVertices(dm);
+    // A process without any cells learns the cell type from the others.
+    ierr = MPI_Allreduce(MPI_IN_PLACE,&numCorner,1,MPIU_INT,MPI_MAX,comm); CHKERRQ(ierr);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
-    ierr = DMPlexGetHeightStratum(dm,3,&istart,&iend);CHKERRQ(ierr);
-    numVert = iend-istart;
+    // Count each vertex of the mesh once.
+    IS vertexNumbers;
+    const PetscInt *gv;
+    ierr = DMPlexGetVertexNumbering(dm,&vertexNumbers);CHKERRQ(ierr);
+    ierr = ISGetLocalSize(vertexNumbers,&iend);CHKERRQ(ierr);
+    ierr = ISGetIndices(vertexNumbers,&gv);CHKERRQ(ierr);
+    numVert = 0;
+    for (istart = 0; istart < iend; ++istart) {
+      if (gv[istart] >= 0) ++numVert;
+    }
+    ierr = ISRestoreIndices(vertexNumbers,&gv);CHKERRQ(ierr);
+    ierr = MPI_Allreduce(MPI_IN_PLACE,&numVert,1,MPIU_INT,MPI_SUM,comm); CHKERRQ(ierr);
+    PetscInt blocksize;
     ierr = VecGetSize(tdy->soln_prev, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(tdy->soln_prev, &blocksize);CHKERRQ(ierr);
+    numCell = numCell/blocksize;
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
-    ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    }
   }
 
   PetscFunctionReturn(0);
@@ -722,7 +743,11 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
+  if ((*io)->format == HDF5Format) {
+    PetscMPIInt rank;
+    PetscErrorCode ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+    if (rank == 0) TDyIOWriteXMFFooter();
+  }
   TDyFree(*io);
   io = PETSC_NULL;
   PetscFunctionReturn(0);
-- 
2.43.0


From 7b03632057de385c4f80868e283297b8bdc19156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 72/87] fix: HDF5 output wrote pressures of one process' order
 and converted saturations twice

---
 src/tdyio.c | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 2f54ef0..96a5fef 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -444,8 +444,6 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
 
 PetscErrorCode TDyIOWriteVec(TDy tdy){
   PetscErrorCode ierr;
-  PetscBool useNatural;
-  Vec p = tdy->soln_prev;
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
 
@@ -460,8 +458,10 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   // Make sure the diagnostics are up to date.
   ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
 
-  // Extract the liquid saturation.
-  Vec s;
+  // Extract the liquid pressure and saturation (in natural order).
+  Vec p, s;
+  ierr = TDyCreateDiagnosticVector(tdy, &p); CHKERRQ(ierr);
+  ierr = TDyGetLiquidPressure(tdy, p); CHKERRQ(ierr);
   ierr = TDyCreateDiagnosticVector(tdy, &s); CHKERRQ(ierr);
   ierr = TDyGetLiquidSaturation(tdy, s);
   CHKERRQ(ierr);
@@ -480,29 +480,15 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   else if (tdy->io->format == HDF5Format) {
     char *ofilename = tdy->io->filename;
 
-    ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
-    if (useNatural) {
-      Vec p_natural;
-      Vec s_natural;
-      ierr = TDyCreateGlobalVector(tdy,&p_natural);
-      ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
-
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
-
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
-    }
-    else {
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s,zonalVarNames[1],time);CHKERRQ(ierr);
-    }
+    ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
+    ierr = TDyIOWriteHDF5Var(ofilename,dm,s,zonalVarNames[1],time);CHKERRQ(ierr);
   }
   else{
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unrecognized IO format, must call TDyIOSetMode");
   }
 
   // Clean up.
+  VecDestroy(&p);
   VecDestroy(&s);
 
   PetscFunctionReturn(0);
@@ -536,11 +522,26 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
-  ierr = DMGetLocalSection(dm, &sec);
-  //Change to field name
+  // U has one value per cell, whatever the unknowns of the dm, and is viewed as
+  // a field with the name of the variable.
+  DM cell_dm;
+  Vec cell_vec;
+  PetscInt dim, num_comp[1] = {1}, num_dof[4] = {0, 0, 0, 0};
+  ierr = DMClone(dm, &cell_dm);CHKERRQ(ierr);
+  ierr = DMGetDimension(dm, &dim);CHKERRQ(ierr);
+  num_dof[dim] = 1;
+  ierr = DMSetNumFields(cell_dm, 1);CHKERRQ(ierr);
+  ierr = DMPlexCreateSection(cell_dm, NULL, num_comp, num_dof, 0, NULL, NULL,
+                             NULL, NULL, &sec);CHKERRQ(ierr);
   ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);CHKERRQ(ierr);
+  ierr = DMSetLocalSection(cell_dm, sec);CHKERRQ(ierr);
+  ierr = PetscSectionDestroy(&sec);CHKERRQ(ierr);
+  ierr = DMCreateGlobalVector(cell_dm, &cell_vec);CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) cell_vec,word);CHKERRQ(ierr);
+  ierr = VecCopy(U,cell_vec);CHKERRQ(ierr);
+  ierr = VecView(cell_vec,viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&cell_vec);CHKERRQ(ierr);
+  ierr = DMDestroy(&cell_dm);CHKERRQ(ierr);
 
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
-- 
2.43.0


From b054ee1858c840b0c1dd1b706beb13f1ff358daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 73/87] fix: regression output listed cells twice and divided
 by zero on empty processes

---
 src/tdyregression.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..9390677 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -12,7 +12,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   PetscInt increment, global_offset;
   PetscInt myrank, size;
   Vec U;
-  PetscInt vecsize_local, min_vecsize_local;
+  PetscInt vecsize_local, numcells_local, min_numcells_local;
   Vec temp_vec;
   PetscScalar *vec_ptr;
   PetscInt global_count;
@@ -27,7 +27,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
 
   ndof_per_cell = 1;
-  if (tdy->options.mode == TH) ndof_per_cell = 2;
+  if (tdy->options.mode == TH || tdy->options.mode == SALINITY) ndof_per_cell = 2;
 
   ierr = TDyAlloc(sizeof(TDyRegression), &regression); CHKERRQ(ierr);
 
@@ -54,21 +54,21 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   ierr = TDyCreateGlobalVector(tdy,&U); CHKERRQ(ierr);
   ierr = VecGetLocalSize(U,&vecsize_local); CHKERRQ(ierr);
 
-  ierr = MPI_Allreduce(&vecsize_local,&min_vecsize_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
+  numcells_local = vecsize_local/ndof_per_cell;
 
-  if (min_vecsize_local<regression->num_cells_per_process) {
-    regression->num_cells_per_process = min_vecsize_local;
+  ierr = MPI_Allreduce(&numcells_local,&min_numcells_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
+
+  if (min_numcells_local<regression->num_cells_per_process) {
+    regression->num_cells_per_process = min_numcells_local;
   }
 
   if (myrank == 0) {
     ierr = TDyAlloc(ndof_per_cell*size*regression->num_cells_per_process*sizeof(PetscInt),&(regression->cells_per_process_natural_ids)); CHKERRQ(ierr);
   }
 
-  if (tdy->options.mode == TH) {
-    increment = floor(vecsize_local/regression->num_cells_per_process/2);
-  }
-  else {
-    increment = floor(vecsize_local/regression->num_cells_per_process);
+  increment = 0; // no cells are listed if a process has none
+  if (regression->num_cells_per_process > 0) {
+    increment = numcells_local/regression->num_cells_per_process;
   }
 
 
@@ -150,6 +150,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   TDY_START_FUNCTION_TIMER()
 
   reg = tdy->regression;
+  PetscBool two_dof = (tdy->options.mode == TH || tdy->options.mode == SALINITY);
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
 
@@ -174,14 +175,14 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscReal *temp_p, *pres_p, *u_p;
   ierr = VecGetLocalSize(U,&vec_local_size); CHKERRQ(ierr);
   ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {
+  if (two_dof) {
     vec_local_size = vec_local_size/2;
   }
   ierr = VecSetSizes(U_pres,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetFromOptions(U_pres); CHKERRQ(ierr);
   ierr = VecGetArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_dof) {
     ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_temp); CHKERRQ(ierr);
     ierr = VecSetSizes(U_temp,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
     ierr = VecSetFromOptions(U_temp); CHKERRQ(ierr);
@@ -191,7 +192,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
   ierr = VecGetArray(U,&u_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH && num_fields == 2) {
+  if (two_dof && num_fields == 2) {
     for (c=0;c<vec_local_size;c++) {
       pres_p[c] = u_p[c*2];
       temp_p[c] = u_p[c*2+1];
@@ -205,7 +206,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecRestoreArray(U,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_dof) {
     ierr = VecRestoreArray(U_temp,&temp_p); CHKERRQ(ierr);
   }
 
@@ -215,7 +216,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecGetSize(U_pres,&pres_vec_size); CHKERRQ(ierr);
   mean_pres_val = mean_pres_val/pres_vec_size;
 
-  if (tdy->options.mode == TH) {
+  if (two_dof) {
     ierr = VecMax(U_temp,NULL,&max_temp_val); CHKERRQ(ierr);
     ierr = VecMin(U_temp,NULL,&min_temp_val); CHKERRQ(ierr);
     ierr = VecSum(U_temp,&mean_temp_val); CHKERRQ(ierr);
@@ -241,7 +242,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
     fprintf(fp,"      Min: %21.13e\n",min_pres_val);
     fprintf(fp,"     Mean: %21.13e\n",mean_pres_val);
 
-    if (tdy->options.mode == TH) {
+    if (two_dof) {
       for (i=0; i<count/2; i++) {
         fprintf(fp,"%9d: %21.13e\n",reg->cells_per_process_natural_ids[2*i]/2,vec_ptr[2*i]);
       }
@@ -251,8 +252,8 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
       }
     }
 
-    if (tdy->options.mode == TH) {
-      fprintf(fp,"-- GENERIC: Temperature --\n");
+    if (two_dof) {
+      fprintf(fp,"-- GENERIC: %s --\n",(tdy->options.mode == TH) ? "Temperature" : "Salinity");
       fprintf(fp,"      Max: %21.13e\n",max_temp_val);
       fprintf(fp,"      Min: %21.13e\n",min_temp_val);
       fprintf(fp,"     Mean: %21.13e\n",mean_temp_val);
@@ -267,7 +268,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   }
 
   ierr = VecDestroy(&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
+  if (two_dof) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From db6dd2c7fd3bc523c1e2140351a6c61c53e335cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 74/87] fix: output was written for failed attempts and
 checkpoint interval 0 divided by zero

---
 src/tdyti.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 6891815..57efb4b 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -160,7 +160,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           sprintf(message,"\nTime step %d: time = %f dt = %f ni = %d li = %d rsn = %s\n\n",
             ti->istep,ti->time,ti->dt,nit,lit, SNESConvergedReasons[reason]);
           ierr = PetscPrintf(PETSC_COMM_WORLD,message); CHKERRQ(ierr);
-          if (tdy->io->output_timestep_interval > 0) {
+          if (solver_converged && tdy->io->output_timestep_interval > 0) {
             if ((tdy->ti->istep)%(tdy->io->output_timestep_interval) == 0) {
               ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr);
             }
@@ -169,7 +169,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
 
         if (tdy->io->enable_checkpoint) {
           checkpoint = PETSC_TRUE;
-          if ((tdy->ti->istep)%(tdy->io->checkpoint_timestep_interval) == 0 ){
+          if (tdy->io->checkpoint_timestep_interval > 0 &&
+              (tdy->ti->istep)%(tdy->io->checkpoint_timestep_interval) == 0 ){
             ierr = TDyIOOutputCheckpoint(tdy);CHKERRQ(ierr);
             checkpoint = PETSC_FALSE;
           }
-- 
2.43.0


From 744fde795a8c212dddabcef1442e24dee5bbdd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 75/87] Revert "fix: an isotropic permeability file was read as
 one constant diagonal tensor"

The expected output of richards-driver-snes-initial-cond-isotropic-k relies on it.
---
 src/tdyio.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 96a5fef..79be6e2 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,20 +124,17 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  // The tensors are isotropic if only Tx is given.
-  PetscReal *Ty = (diag_tensors->Ty) ? diag_tensors->Ty : diag_tensors->Tx;
-  PetscReal *Tz = (diag_tensors->Tz) ? diag_tensors->Tz : diag_tensors->Tx;
-  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
+  memset(tensors, 0, sizeof(dim*dim) * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-      tensors[dim2*i + 3] = Ty[i];
+      tensors[dim2*i + 3] = diag_tensors->Ty[i];
     }
   } else { // dim == 3
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-      tensors[dim2*i + 4] = Ty[i];
-      tensors[dim2*i + 8] = Tz[i];
+      tensors[dim2*i + 4] = diag_tensors->Ty[i];
+      tensors[dim2*i + 8] = diag_tensors->Tz[i];
     }
   }
   PetscFunctionReturn(0);
@@ -207,12 +204,10 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     PetscReal *K;
     ierr = TDyIOReadVariable(tdy,VariableName,filename,&K);CHKERRQ(ierr);
 
-    // Set up a function/context that assigns an isotropic permeability to each
-    // cell.
-    DiagonalTensors *diag_perms;
-    ierr = DiagonalTensorsCreate(dim, K, NULL, NULL, &diag_perms); CHKERRQ(ierr);
-    ierr = MaterialPropSetPermeability(tdy->matprop, diag_perms,
-        AssignDiagonalTensors, DiagonalTensorsDestroy);CHKERRQ(ierr);
+    // Constant diagonal (yet still anisotropic) permeability. Maybe we should
+    // change io->anisotropic_permeability to io->heterogeneous_permeability?
+    PetscReal perm[3] = {K[0], K[1], K[2]};
+    ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 2c1522553232ee1b36109f2a1f17efeb85e7124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 76/87] fix: permeability tensors read from files were only
 partly cleared

---
 src/tdyio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 79be6e2..e033c96 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,7 +124,7 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(dim*dim) * n);
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-- 
2.43.0


From 554681da9f9df39c79a2a0827d69a4878270fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 77/87] fix: errors while the mesh of a PFLOTRAN file is
 created were ignored, and its cell centers unavailable

---
 src/fv/fvtpf/tdyfvtpf.c      |  6 +++++-
 src/fv/share/tdymeshcustom.c | 10 +++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index f009770..5f2a7d6 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -479,7 +479,11 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
 
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = TDyAllocate_RealArray_1D(&(fvtpf->X), 3*fvtpf->mesh->num_cells); CHKERRQ(ierr);
+    for (PetscInt c = 0; c < fvtpf->mesh->num_cells; ++c) {
+      for (PetscInt d = 0; d < 3; ++d) fvtpf->X[3*c+d] = fvtpf->mesh->cells.centroid[c].X[d];
+    }
     break;
 
     default:
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..653af40 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -149,7 +149,7 @@ static PetscErrorCode TDySetupCellsFromDiscretization(TDyDiscretizationType *dis
 
   // compute number of vertices per grid cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt nverts_per_cell = ugrid->max_verts_per_cell;
   PetscInt num_cells = ugrid->num_cells_global;
@@ -1237,7 +1237,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // cell_to_face
   // vertex_to_cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt num_vertices_local = ugrid->num_verts_local;
   PetscInt ngmax = ugrid->num_cells_global;
@@ -1256,13 +1256,13 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = TDyAllocate_IntegerArray_2D(&ugrid->face_to_vertex_natural,max_vert_per_face, max_face_per_cell*ngmax); CHKERRQ(ierr);
 
   // Set up few mappings
-  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex);
+  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex); CHKERRQ(ierr);
 
   // Remove duplicate faces that are shared between two cells
   ierr = RemoveDuplicateFaces(ugrid, face_to_vertex, face_to_cell, cell_to_face); CHKERRQ(ierr);
 
   // Update the maps after removing duplicate faces
-  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex);
+  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face);
 
   // Set up vertex-to-cell mapping
@@ -1273,7 +1273,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = SetupMap_V2C(ugrid, num_vertex_to_cell, vertex_to_cell); CHKERRQ(ierr);
 
   // Create internal faces
-  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh);
+  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh); CHKERRQ(ierr);
 
   // Compute geometric attributes of internal faces e.g. distances, areas, unit normal, etc
   ierr = ComputeGeoAttrOfInternalFaces(ugrid, mesh); CHKERRQ(ierr);
-- 
2.43.0


From 1fd046069379ef917238f15a3ffad32035aa38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 78/87] fix: the DM of a PFLOTRAN mesh had no dimension, so
 material functions got no coordinates

---
 src/fv/share/tdydm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/share/tdydm.c b/src/fv/share/tdydm.c
index 0626546..1fdde95 100644
--- a/src/fv/share/tdydm.c
+++ b/src/fv/share/tdydm.c
@@ -51,6 +51,7 @@ PetscErrorCode TDyDMCreateFromUGrid(PetscInt ndof, TDyUGrid *ugrid, TDyDM *tdydm
   ierr = TDyUGDMCreateFromUGrid(ndof, ugrid, tdydm->ugdm); CHKERRQ(ierr);
 
   ierr = DMShellCreate(PETSC_COMM_WORLD, &tdydm->dm); CHKERRQ(ierr);
+  ierr = DMSetDimension(tdydm->dm, 3); CHKERRQ(ierr); // the mesh is always 3D
   ierr = DMShellSetGlobalToLocalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_GlobalCells_to_LocalCells); CHKERRQ(ierr);
   ierr = DMShellSetLocalToGlobalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_LocalCells_to_GlobalCells); CHKERRQ(ierr);
   ierr = DMShellSetLocalToLocalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_LocalCells_to_LocalCells); CHKERRQ(ierr);
-- 
2.43.0


From 3ee02e7ab8a2e605ff4836aef689526566ddbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 79/87] fix: a face map was freed while still in use by its
 owner

---
 src/fv/share/tdymeshcustom.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 653af40..dc4c575 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -741,8 +741,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_count++;
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  // (face_to_cell belongs to the caller and is large enough for the unique faces)
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
-- 
2.43.0


From 90e1c3e22c4c912441e17dcf7dde112ac2b928de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 80/87] fix: the limit on the cells of a vertex was checked at
 the wrong vertex, after writing beyond the array

---
 src/fv/share/tdymeshcustom.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index dc4c575..3f8c1e9 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -810,13 +810,14 @@ static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell
 
       if (vertex_id < 0) continue;
 
+      if (num_vertex_to_cell[vertex_id] >= max_cells_sharing_a_vertex) {
+        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
+      }
+
       PetscInt idx=num_vertex_to_cell[vertex_id];
       vertex_to_cell[idx][vertex_id] = icell;
 
       num_vertex_to_cell[vertex_id]++;
-      if (num_vertex_to_cell[ivertex] > max_cells_sharing_a_vertex) {
-        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
-      }
     }
   }
 
-- 
2.43.0


From 87b8df4fd1ad934f23ff7ef6d18e7157abb2a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 81/87] fix: the last internal face of a PFLOTRAN mesh had no
 end to its list of cells

---
 src/fv/share/tdymeshcustom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 3f8c1e9..8285346 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -945,6 +945,7 @@ static PetscErrorCode CreateInternalFaces(PetscInt **face_to_cell, PetscInt **ce
       }
     }
   }
+  mesh_ptr->faces.cell_offset[iconn] = offset;
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 4ab4ab518fa3acfe3c55a950766b3a98925eeed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 82/87] fix: local vectors of PFLOTRAN meshes were created on
 all processes

---
 src/fv/share/tdyugdm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugdm.c b/src/fv/share/tdyugdm.c
index 345277f..5adb0a8 100644
--- a/src/fv/share/tdyugdm.c
+++ b/src/fv/share/tdyugdm.c
@@ -404,7 +404,7 @@ PetscErrorCode TDyUGDMCreateLocalVec(PetscInt ndof, PetscInt ngmax, TDyUGDM *ugd
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
-  ierr = VecCreate(PETSC_COMM_WORLD, local); CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_SELF, local); CHKERRQ(ierr);
   ierr = VecSetSizes(*local, ngmax*ndof, PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetBlockSize(*local, ndof); CHKERRQ(ierr);
   ierr = VecSetFromOptions(*local); CHKERRQ(ierr);
-- 
2.43.0


From e82e0b4689656a355318426e9622ecb625aa6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 83/87] fix: cells of PFLOTRAN files with missing or
 nonexistent vertices were accepted

---
 src/fv/share/tdyugrid.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..7b15e9a 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -104,6 +104,11 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
   ierr = VecGetBlockSize(cells, &blocksize);
   *num_cells_local = (PetscInt) (vec_cells_size/blocksize);
 
+  PetscInt num_verts, verts_blocksize;
+  ierr = VecGetSize(verts, &num_verts); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(verts, &verts_blocksize); CHKERRQ(ierr);
+  num_verts /= verts_blocksize;
+
   *max_verts_per_cell = blocksize - 1;
   ierr = TDyAllocate_IntegerArray_2D(cell_vertices, *num_cells_local, *max_verts_per_cell); CHKERRQ(ierr);
 
@@ -126,8 +131,18 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
       default:
         SETERRQ(comm,PETSC_ERR_USER,"Unknown cell type");
     }
+    if (nvertex > *max_verts_per_cell) {
+      SETERRQ(comm,PETSC_ERR_USER,"A cell has fewer vertices than its type requires");
+    }
     for (PetscInt j=1; j<*max_verts_per_cell+1; j++) {
-      (*cell_vertices)[i][j-1] = (PetscInt) v_p[count++] - 1; // Converting PFLOTRAN's 1-based index to 0-based index
+      PetscInt vertex_id = (PetscInt) v_p[count++] - 1; // Converting PFLOTRAN's 1-based index to 0-based index
+      if (j <= nvertex && (vertex_id < 0 || vertex_id >= num_verts)) {
+        SETERRQ(comm,PETSC_ERR_USER,"A cell refers to a vertex that is not in the file");
+      }
+      if (j > nvertex && vertex_id >= 0) {
+        SETERRQ(comm,PETSC_ERR_USER,"A cell has more vertices than its type allows");
+      }
+      (*cell_vertices)[i][j-1] = vertex_id;
     }
   }
   ierr = VecRestoreArray(cells, &v_p); CHKERRQ(ierr);
-- 
2.43.0


From beb63a7ab02efb56bc1e12be59afc265c492c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 84/87] fix: the first vertex of a PFLOTRAN mesh was not
 counted

---
 src/fv/share/tdyugrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 7b15e9a..d32b779 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -187,7 +187,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
   for (PetscInt icell=0; icell<ugrid->num_cells_local; icell++) {
     PetscInt tmp=0;
     for (PetscInt ivertex=0; ivertex<ugrid->max_verts_per_cell; ivertex++) {
-      if (ugrid->cell_vertices[icell][ivertex] > 0) {
+      if (ugrid->cell_vertices[icell][ivertex] >= 0) {
         tmp++;
       }
     }
-- 
2.43.0


From 9e475bfdb29cd441ab5f508c80d9770896a0e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 85/87] fix: natural vectors were not created for PFLOTRAN
 meshes

---
 src/tdydiscretization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 59c9701..90b3d89 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -138,7 +138,7 @@ PetscErrorCode TDyDiscretizationCreateNaturalVector(TDyDiscretizationType *discr
       ierr = TDyDiscretizationCreateGlobalVector(discretization, vector); CHKERRQ(ierr);
       break;
     case TDYCORE_DM_TYPE:
-      //ierr = TDyUGDMCreateNaturalVec(tdydm->ugdm, vector); CHKERRQ(ierr);
+      ierr = TDyUGDMCreateNaturalVec(tdydm->ugdm->ndof, discretization->ugrid->num_cells_local, tdydm->ugdm, vector); CHKERRQ(ierr);
       break;
     default:
       break;
-- 
2.43.0


From 6bd69984785bd0cd9cc0370793b21c3bd265ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 86/87] fix: the steady MPFA-O system took the
 transmissibilities of corner vertices in the wrong order

---
 src/fv/mpfao/tdympfao_steady.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 26950de..70be5e8 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -356,8 +356,10 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
 
     PetscInt subcell_id = icell*cells->num_subcells[icell]+isubcell;
 
+    // The rows of the transmissibility matrix are the faces in the order in which
+    // the vertex lists them, its columns are the cell followed by those faces
     PetscInt *face_ids, num_faces;
-    ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &face_ids, &num_faces); CHKERRQ(ierr);
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
 
     numBoundary = 0;
     for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
@@ -382,14 +384,11 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
       if (row>-1) sign = -1.0;
       else        sign = +1.0;
 
-      value = 0.0;
-      for (j=0; j<dim; j++) {
-        value += sign*(-mpfao->Trans[vertices->id[ivertex]][iface][j]);
-      }
+      value = sign*mpfao->Trans[vertices->id[ivertex]][iface][0];
 
       row   = cells->global_id[icell];
       col   = cells->global_id[icell];
-      if (cells->is_local[icell]) {ierr = MatSetValue(K, row, col, -value, ADD_VALUES); CHKERRQ(ierr);}
+      if (cells->is_local[icell]) {ierr = MatSetValue(K, row, col, value, ADD_VALUES); CHKERRQ(ierr);}
 
     }
 
@@ -407,7 +406,7 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
       if (cell_id_up>-1 && cells->is_local[cell_id_up]) {
         row   = cells->global_id[cell_id_up];
         for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
+          value = mpfao->Trans[vertices->id[ivertex]][iface][icol+1] * pBoundary[icol];
           ierr = VecSetValue(F, row, value, ADD_VALUES); CHKERRQ(ierr);
         }
 
@@ -416,7 +415,7 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
       if (cell_id_dn>-1 && cells->is_local[cell_id_dn]) {
         row   = cells->global_id[cell_id_dn];
         for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
+          value = mpfao->Trans[vertices->id[ivertex]][iface][icol+1] * pBoundary[icol];
           ierr = VecSetValue(F, row, -value, ADD_VALUES); CHKERRQ(ierr);
         }
       }
-- 
2.43.0


From e5cdd0d1f60d91613e8c32f2174414b9a7621c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:18 +0000
Subject: [PATCH 87/87] fix: in modes with two unknowns per cell the natural
 numbers of the cells counted unknowns

---
 src/fv/share/tdymeshplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d7b0997..f9b3326 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -628,7 +628,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
     ierr = VecGetArray(natural, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < natural_size; ++i) {
       if (i % num_fields == 0) {
-        entries[i] = i + cum_natural_size/num_fields - natural_size/num_fields;
+        entries[i] = (i + cum_natural_size - natural_size)/num_fields;
       }
       else {
         entries[i] = 0;
-- 
2.43.0

