From 1bb2b88bc4ff58de1efff993fa585c024c75e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 01/50] fix: neighbourhood: variables shared by the threads of
 a parallel loop

curr_quantile was shared by all iterations of the loops in neighbourhood_quantile_fast, so with
several threads a grid point could be given another grid point's quantile. count_stat was
incremented without synchronisation.
---
 src/api/neighbourhood.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..5c42b35 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -150,7 +150,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         for(int i = 0; i < nY; i++) {
             values[i].resize(nX, 0);
         }
-        #pragma omp parallel for
+        #pragma omp parallel for reduction(+:count_stat)
         for(int i = 0; i < nY; i++) {
             if(i < halfwidth || i >= nY - halfwidth) {
                 // Regular way
@@ -362,11 +362,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -478,11 +477,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -571,7 +569,7 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
-        #pragma omp parallel for
+        #pragma omp parallel for reduction(+:count_stat)
         for(int y = 0; y < nY; y++) {
             for(int x = 0; x < nX; x++) {
                 // Put neighbourhood into vector
@@ -621,7 +619,7 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
-        #pragma omp parallel for
+        #pragma omp parallel for reduction(+:count_stat)
         for(int i = 0; i < nY; i++) {
             for(int j = 0; j < nX; j++) {
                 // Put neighbourhood into vector
-- 
2.43.0


From 4b28f79c721b7896a291ea7c9feb1b6708a1fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 02/50] fix: CalibratorNeighbourhood: unsynchronised counter in
 parallel loops

---
 src/client/Calibrator/Neighbourhood.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 324d29d..bda42cc 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -186,7 +186,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
          for(int i = 0; i < nLat; i++) {
             values[i].resize(nLon, 0);
          }
-         #pragma omp parallel for
+         #pragma omp parallel for reduction(+:count_stat)
          for(int i = 0; i < nLat; i++) {
             if(i < radius || i >= nLat - radius) {
                // Regular way
@@ -250,7 +250,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
          for(int i = 0; i < nLat; i++) {
             values[i].resize(nLon, 0);
          }
-         #pragma omp parallel for
+         #pragma omp parallel for reduction(+:count_stat)
          for(int i = 0; i < nLat; i++) {
             for(int j = 0; j < nLon; j++) {
                // Put neighbourhood into vector
-- 
2.43.0


From 332f7e9e86f6468511a256b34bf788c95d213cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 03/50] fix: gridding: parallel regions without a worksharing
 loop

Every thread computed and wrote every output element.
---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From e76cb8ea94519413a9db4756215f15d2d8c317e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 04/50] fix: calibrators: neighbourhoods read from the field
 being overwritten

Coastal, Gaussian and Zaga read neighbouring grid points of the field that other iterations of the
same parallel loop overwrite, and Kriging stored its cross-validation inverse in a shared variable;
results depended on the order in which grid points were processed.
---
 src/client/Calibrator/Coastal.cpp  | 5 +++--
 src/client/Calibrator/Gaussian.cpp | 3 ++-
 src/client/Calibrator/Kriging.cpp  | 6 ++++--
 src/client/Calibrator/Zaga.cpp     | 7 +++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..f71809f 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,7 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      const Field rawField = *field;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -58,11 +59,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = rawField(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = rawField(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..8f1e860 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      const Field rawField = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +56,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = rawField(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..dd0be2a 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -295,6 +295,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
             // Don't use the nearest station when cross validating
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
+            vec2 cvInverse;
             if(mCrossValidate) {
                for(int ii = 0; ii < currS.size(); ii++) {
                   if(!Util::isValid(ImaxCovar) || currS[ii] > maxCovar) {
@@ -309,8 +310,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +321,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..ac410b7 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -92,6 +92,8 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
          precipHigh = iFile.getField(mHighVariable, t);
       }
 
+      // Neighbouring grid points must be read before they are calibrated
+      Field calibrated = *precips[t];
       #pragma omp parallel for reduction(+:numInvalidRaw, numInvalidCal)
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
@@ -121,7 +123,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& precip = *precips[tt];
 
                            float value = precip(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
@@ -143,7 +145,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                      }
                   }
                }
-               Field& precip = *precips[t];
+               Field& precip = calibrated;
                const std::vector<float>& precipRaw = precip(i,j);
 
                // Only calibrate the ensemble if all members are available. Otherwise
@@ -224,6 +226,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
             }
          }
       }
+      *precips[t] = calibrated;
       if(numInvalidRaw > 0) {
          std::stringstream ss;
          ss << "File '" << iFile.getFilename() << "' missing " << numInvalidRaw
-- 
2.43.0


From a2915433dcbddb751d23d81ec2b0518be18f21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 05/50] fix: gamma_inv: reject levels, shape and scale of
 different sizes

---
 src/api/distribution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..1d88d3f 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("levels, shape, and scale must all be the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
-- 
2.43.0


From c6b1f414c9c51ff52ebb66c1803b2e079d32b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 06/50] fix: downscale_probability, mask_threshold_downscale:
 reject inputs that do not match the grids

---
 src/api/downscale_probability.cpp              | 14 ++++++++++++++
 src/api/mask_threshold_downscale_consensus.cpp | 16 ++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..a69baca 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -7,6 +7,20 @@ using namespace gridpp;
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
+    vec2 iInputLats = igrid.get_lats();
+
+    if(!gridpp::compatible_size(iOutputLats, threshold))
+        throw std::invalid_argument("Threshold is not the same size as the output grid");
+    if(ivalues.size() != iInputLats.size())
+        throw std::invalid_argument("Input values are not the same size as the input grid");
+    for(int i = 0; i < ivalues.size(); i++) {
+        if(ivalues[i].size() != iInputLats[i].size())
+            throw std::invalid_argument("Input values are not the same size as the input grid");
+        for(int j = 0; j < ivalues[i].size(); j++) {
+            if(ivalues[i][j].size() != ivalues[0][0].size())
+                throw std::invalid_argument("Input values must have the same number of members in every gridpoint");
+        }
+    }
 
     int nLat = iOutputLats.size();
     int nLon = iOutputLats[0].size();
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..e8c5cd3 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -19,6 +19,22 @@ namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
+        vec2 iInputLats = igrid.get_lats();
+
+        if(!gridpp::compatible_size(iOutputLats, threshold))
+            throw std::invalid_argument("Threshold is not the same size as the output grid");
+        if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
+            throw std::invalid_argument("Input values are not of the same size");
+        if(ivalues_true.size() != iInputLats.size())
+            throw std::invalid_argument("Input values are not the same size as the input grid");
+        for(int i = 0; i < ivalues_true.size(); i++) {
+            if(ivalues_true[i].size() != iInputLats[i].size())
+                throw std::invalid_argument("Input values are not the same size as the input grid");
+            for(int j = 0; j < ivalues_true[i].size(); j++) {
+                if(ivalues_true[i][j].size() != ivalues_true[0][0].size())
+                    throw std::invalid_argument("Input values must have the same number of members in every gridpoint");
+            }
+        }
 
         int nLat = iOutputLats.size();
         int nLon = iOutputLats[0].size();
-- 
2.43.0


From bde1c2a4e315a419a662dd5c211d9254832d34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 07/50] fix: full_gradient: reject gradients that do not match
 the values

---
 src/api/gradient.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..d322beb 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -90,6 +90,13 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
     int nX = ogrid.size()[1];
     int nTime = ivalues.size();
 
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Values is the wrong size");
+    if(laf_gradient.size() > 0 && !gridpp::compatible_size(laf_gradient, ivalues))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+    if(elev_gradient.size() > 0 && !gridpp::compatible_size(elev_gradient, ivalues))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
+
     //Outputs
     vec2 oelevs = ogrid.get_elevs();
     vec2 olafs = ogrid.get_lafs();
@@ -100,14 +107,12 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -179,20 +184,21 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
 
     int nPoints = opoints.size();
 
+    if(laf_gradient.size() > 0 && !gridpp::compatible_size(laf_gradient, ivalues))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+    if(elev_gradient.size() > 0 && !gridpp::compatible_size(elev_gradient, ivalues))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
+
     vec output = gridpp::downscaling(igrid, opoints, ivalues, downscaler);
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -231,6 +237,11 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3&
     int nPoints = opoints.size();
     int nTime = ivalues.size();
 
+    if(laf_gradient.size() > 0 && !gridpp::compatible_size(laf_gradient, ivalues))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+    if(elev_gradient.size() > 0 && !gridpp::compatible_size(elev_gradient, ivalues))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
+
     vec2 output = gridpp::downscaling(igrid, opoints, ivalues, downscaler);
     vec2 delev_gradient;
     vec delevs;
@@ -290,6 +301,10 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
         if(elev_gradient.size() != nY || elev_gradient[0].size() != nX)
             throw std::invalid_argument("Elevation gradient is the wrong size");
     */
+    if(laf_gradient.size() > 0 && !gridpp::compatible_size(laf_gradient, ivalues))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+    if(elev_gradient.size() > 0 && !gridpp::compatible_size(elev_gradient, ivalues))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
 
     //Inputs
     vec2 ielevs = igrid.get_elevs();
@@ -305,16 +320,14 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
     vec3 output = gridpp::init_vec3(nY, nX, 9);
     vec2 dvalues = gridpp::downscaling(igrid, ogrid, ivalues, downscaler);
     vec2 delev_gradient;
-    vec2 delevs;
+    vec2 delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     if(elev_gradient.size() != 0) {
         delev_gradient = gridpp::downscaling(igrid, ogrid, elev_gradient, downscaler);
-        delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     }
     vec2 dlaf_gradient;
-    vec2 dlafs;
+    vec2 dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     if(laf_gradient.size() != 0) {
         dlaf_gradient = gridpp::downscaling(igrid, ogrid, laf_gradient, downscaler);
-        dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     }
 
     for(int y = 0; y < nY ; y++){
-- 
2.43.0


From 28202a6cb0468b62fd7b3028d2f171f5daf9e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 08/50] fix: Grid, Points: check coordinate sizes and point
 indices

---
 src/api/grid.cpp   | 4 ++++
 src/api/points.cpp | 6 ++++--
 src/api/util.cpp   | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..4010ed9 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -17,6 +17,8 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
         mX = 0;
         return;
     }
+    if(!gridpp::compatible_size(lats, lons))
+        throw std::invalid_argument("Cannot create grid with unequal lat and lon sizes");
     mLats = lats;
     mLons = lons;
     mElevs = elevs;
@@ -230,6 +232,8 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     return true;
 }
 gridpp::Point gridpp::Grid::get_point(int y_index, int x_index) const {
+    if(y_index < 0 || y_index >= mLats.size() || x_index < 0 || x_index >= mX)
+        throw std::invalid_argument("Grid index is outside the grid");
     int index = y_index * mX + x_index;
     return Point(mLats[y_index][x_index], mLons[y_index][x_index], mElevs[y_index][x_index], mLafs[y_index][x_index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..e65a263 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -126,6 +126,8 @@ CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
 }
 gridpp::Point gridpp::Points::get_point(int index) const {
+    if(index < 0 || index >= mLats.size())
+        throw std::invalid_argument("Point index is outside the range of points");
     return Point(mLats[index], mLons[index], mElevs[index], mLafs[index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
 gridpp::Points gridpp::Points::subset(const ivec& indices) const {
@@ -136,9 +138,9 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
-            ss << "Index " << index << " exceeds number of points " << mLats.size();
+            ss << "Index " << index << " is not valid for number of points " << mLats.size();
             throw std::invalid_argument(ss.str());
         }
         lats[i] = mLats[index];
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..2e49523 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -582,6 +582,8 @@ bool gridpp::point_in_rectangle(const Point& A, const Point& B, const Point& C,
 
 bool gridpp::convert_coordinates(const vec& lats, const vec& lons, CoordinateType type, vec& x_coords, vec& y_coords, vec& z_coords) {
     int N = lats.size();
+    if(lons.size() != N)
+        throw std::invalid_argument("Cannot convert coordinates with unequal lat and lon sizes");
     x_coords.resize(N);
     y_coords.resize(N);
     z_coords.resize(N);
-- 
2.43.0


From 49f94ac74a2f57d342d5afc124500d395a8befa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 09/50] fix: local_distribution_correction: check input sizes
 before they are used

---
 src/api/local_distribution_correction.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..3eb1202 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,18 +40,24 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
-    int nY = background.size();
-    int nX = background[0].size();
-    int nT = pobs.size();
     vec2 blats = bgrid.get_lats();
     vec2 blons = bgrid.get_lons();
-    vec2 output(nY);
 
-    if (pobs.size() != pbackground.size()) {
-        std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
-        throw std::invalid_argument(ss.str());
+    if(!gridpp::compatible_size(blats, background))
+        throw std::invalid_argument("Input grid is not the same size as background");
+    if(!gridpp::compatible_size(pobs, pbackground))
+        throw std::invalid_argument("pobs is not the same size as pbackground");
+    for(int t = 0; t < pobs.size(); t++) {
+        if(pobs[t].size() < points.size())
+            throw std::invalid_argument("pobs does not have a value for every point");
     }
+    if(background.size() == 0)
+        return vec2();
+
+    int nY = background.size();
+    int nX = background[0].size();
+    int nT = pobs.size();
+    vec2 output(nY);
 
     bool weighted = true;
     float alpha = 0.01;
-- 
2.43.0


From 5af309bc9b5297b8c1c666e6de2ee12e7f82655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 10/50] fix: metric optimizer: reject ref and fcst of different
 sizes

---
 src/api/metric_optimizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..df6c456 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -127,6 +127,9 @@ vec gridpp::metric_optimizer_curve(const vec& ref, const vec& fcst, const vec& t
 }
 
 float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float threshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
+
     /*  For large vectors, the expense comes at 1) finding the starting point and 2) finding the
      *  optimal point.
      */
@@ -186,6 +189,9 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
     return calc_score(ref, fcst, threshold, threshold, metric);
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
+
     float a = 0, b = 0, c = 0, d = 0;
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
-- 
2.43.0


From 4c0c3be1eed1e52c7a2c476d067f736c736a72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 11/50] fix: neighbourhood_search: check the size of a one-row
 apply_array

---
 src/api/neighbourhood_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..13c9103 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -17,7 +17,7 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
 
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
+    if(apply_array.size() > 0 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
 
-- 
2.43.0


From df18868b810daa6fd6ef971bfcd4dfd524629ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 12/50] fix: optimal_interpolation: missing size checks,
 analysis variance without observations

---
 src/api/oi.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..6512843 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -119,6 +119,11 @@ vec gridpp::optimal_interpolation(const gridpp::Points& bpoints,
         ss << "Ratios (" << pratios.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
 
     vec obs_variance(pratios.size());
     vec bvariance_at_points(pratios.size());
@@ -175,6 +180,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -186,8 +196,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
@@ -364,6 +376,9 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
         ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
         throw std::invalid_argument(ss.str());
     }
+    if(!gridpp::compatible_size(background, bvariance)) {
+        throw std::invalid_argument("Input bvariance is not the same size as the input field");
+    }
     if(obs.size() != points.size()) {
         std::stringstream ss;
         ss << "Observations (" << obs.size() << ") and points (" << points.size() << ") size mismatch";
@@ -380,6 +395,12 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    if(bvariance_at_points.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     int nY = background.size();
     int nX = background[0].size();
 
-- 
2.43.0


From ebe883cb7d0f41bd6ea2d1ecff7e28cb0c4fc531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 13/50] fix: optimal_interpolation_ensi: ensemble sizes,
 buffers sized by points

---
 src/api/oi_ensi.cpp       | 12 +++++++++-
 src/api/oi_ensi_multi.cpp | 50 +++++++++++++++++++++++++++------------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..1ced14a 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -79,6 +79,12 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     // Check ensemble size is consistent
     if(nE != pbackground[0].size()) {
         std::stringstream ss;
@@ -135,8 +141,12 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != background[0].size())
+            throw std::invalid_argument("Background and point background ensemble size mismatch");
+    }
 
     int mY = -1;  // Write debug information for this station index
     int num_parameters = 2;
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..b707e2e 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -66,12 +66,12 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
         ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
@@ -167,12 +167,12 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
         ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
@@ -258,12 +258,12 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
         ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
@@ -360,7 +360,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
 
     float default_min_std = 0.0013;
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
 
     int mY = -1;  // Write debug information for this station index
@@ -368,6 +368,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
 
     int nY = background.size();
     int nEns = background[0].size();
+    for(int y = 0; y < nY; y++) {
+        if(background_corr[y].size() != nEns)
+            throw std::invalid_argument("Background and background_corr ensemble size mismatch");
+    }
+    for(int i = 0; i < nS; i++) {
+        if(pobs[i].size() != nEns || pbackground[i].size() != nEns || pbackground_corr[i].size() != nEns)
+            throw std::invalid_argument("Ensemble size at the points is not the same as in the background");
+    }
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -418,8 +426,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
-    // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -554,7 +562,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -654,7 +662,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
 
     int mY = -1;  // Write debug information for this station index
@@ -662,6 +670,10 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
 
     int nY = background.size();
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pobs[i].size() != nEns || pbackground[i].size() != nEns)
+            throw std::invalid_argument("Ensemble size at the points is not the same as in the background");
+    }
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -803,7 +815,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
@@ -893,7 +905,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
 
     float default_min_std = 0.0013;
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
 
     int mY = -1;  // Write debug information for this station index
@@ -901,6 +913,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
 
     int nY = background.size();
     int nEns = background[0].size();
+    for(int y = 0; y < nY; y++) {
+        if(background_corr[y].size() != nEns)
+            throw std::invalid_argument("Background and background_corr ensemble size mismatch");
+    }
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns || pbackground_corr[i].size() != nEns)
+            throw std::invalid_argument("Ensemble size at the points is not the same as in the background");
+    }
 
     // Prepare output matrix
     vec2 output = background;
@@ -953,8 +973,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 213750691a2a29bcf6dfc18b52a7d84d1280b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 14/50] fix: window: read before the start of an array

---
 src/api/window.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..6aab1a8 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -68,8 +68,11 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
+                // Number of valid values before the window
+                float count_before = start > 0 ? counts[start - 1] : 0;
+
                 if(start - 1 >= 0) {
-                    if(counts[end] - counts[start-1] != 0) {
+                    if(counts[end] - count_before != 0) {
                         output[y][x] = values[end] - values[start - 1];
                     }
                 }
@@ -80,16 +83,16 @@ vec2 gridpp::window(const vec2& array,
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = counts[end] - count_before;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
                         if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                            output[y][x] = output[y][x] / (counts[end] - count_before);
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(counts[end] - count_before < (end - (start - 1 ))) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 34eba391a73e23b37ba2baa6a6b381e30eae7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 15/50] fix: smart, Points: check the sizes of values, elevs
 and lafs; smart without neighbours

---
 src/api/points.cpp | 7 +++++++
 src/api/smart.cpp  | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index e65a263..df6846f 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -35,6 +35,13 @@ gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
     mTree = tree;
     mLats = tree.get_lats();
     mLons = tree.get_lons();
+    int N = mLats.size();
+    if(mElevs.size() != 0 && mElevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size as the tree");
+    if(mLafs.size() != 0 && mLafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size as the tree");
+    mElevs.resize(N, gridpp::MV);
+    mLafs.resize(N, gridpp::MV);
 }
 
 int gridpp::Points::get_num_neighbours(float lat, float lon, float radius, bool include_match) const {
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..25cce8b 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,9 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
@@ -45,7 +48,7 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
+            assert(rhos.size() == 0 || rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From d96e46fcf341ad82a7193f221e97d82d7a34c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 16/50] fix: exceptions thrown inside parallel loops
 (statistics, quantiles, curves, scores, distributions, pressure, bilinear)
 terminated the process instead of reaching the caller

---
 src/api/bilinear.cpp                          | 76 ++++++++++++++-----
 src/api/curve.cpp                             | 26 ++++++-
 src/api/distribution.cpp                      | 15 +++-
 src/api/gridding.cpp                          | 72 +++++++++++++-----
 .../mask_threshold_downscale_consensus.cpp    | 17 ++++-
 src/api/neighbourhood.cpp                     | 34 +++++++--
 src/api/neighbourhood_score.cpp               | 13 +++-
 src/api/pressure.cpp                          | 11 ++-
 src/api/window.cpp                            | 13 +++-
 9 files changed, 215 insertions(+), 62 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..a8f3bd5 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -40,16 +40,25 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
         return output;
 
     // Algorithm from here:
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
         for(int j = 0; j < nLon; j++) {
-            // Use the four points surrounding the lookup point. Use the nearest neighbour
-            // and then figure out what side of this point the other there points are.
-            float lat = iOutputLats[i][j];
-            float lon = iOutputLons[i][j];
-            output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            try {
+                // Use the four points surrounding the lookup point. Use the nearest neighbour
+                // and then figure out what side of this point the other there points are.
+                float lat = iOutputLats[i][j];
+                float lon = iOutputLons[i][j];
+                output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
@@ -69,16 +78,25 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
         return output;
 
     // To reuse nearest neighbour information across time, we can't call calc on each timestep
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
         for(int j = 0; j < nLon; j++) {
-            float lat = iOutputLats[i][j];
-            float lon = iOutputLons[i][j];
-            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-            for(int t = 0; t < nTime; t++)
-                output[t][i][j] = temp[t];
+            try {
+                float lat = iOutputLats[i][j];
+                float lon = iOutputLons[i][j];
+                vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+                for(int t = 0; t < nTime; t++)
+                    output[t][i][j] = temp[t];
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 
@@ -97,14 +115,23 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
         return output;
 
     // Algorithm from here:
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
-        // Use the four points surrounding the lookup point. Use the nearest neighbour
-        // and then figure out what side of this point the other there points are.
-        float lat = iOutputLats[i];
-        float lon = iOutputLons[i];
-        output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        try {
+            // Use the four points surrounding the lookup point. Use the nearest neighbour
+            // and then figure out what side of this point the other there points are.
+            float lat = iOutputLats[i];
+            float lon = iOutputLons[i];
+            output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
@@ -122,15 +149,24 @@ vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ival
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
-        float lat = iOutputLats[i];
-        float lon = iOutputLons[i];
-        vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-        for(int t = 0; t < nTime; t++) {
-            output[t][i] = temp[t];
+        try {
+            float lat = iOutputLats[i];
+            float lon = iOutputLons[i];
+            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            for(int t = 0; t < nTime; t++) {
+                output[t][i] = temp[t];
+            }
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 
diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..a3a321b 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -85,11 +85,20 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
     int N = fcst.size();
     vec output(N, gridpp::MV);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        float input = fcst[i];
-        output[i] = apply_curve(input, curve_ref, curve_fcst, policy_below, policy_above);
+        try {
+            float input = fcst[i];
+            output[i] = apply_curve(input, curve_ref, curve_fcst, policy_below, policy_above);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 // QQ on a grid
@@ -122,13 +131,22 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         output[y].resize(nX, gridpp::MV);
     }
 
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
-            float input = fcst[y][x];
-            output[y][x] = apply_curve(input, curve_ref[y][x], curve_fcst[y][x], policy_below, policy_above);
+            try {
+                float input = fcst[y][x];
+                output[y][x] = apply_curve(input, curve_ref[y][x], curve_fcst[y][x], policy_below, policy_above);
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 1d88d3f..66858c7 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -25,11 +25,20 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     }
     vec results(N);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
-        float value = boost::math::quantile(m_gamma_dist, levels[i]);
-        results[i] = value;
+        try {
+            boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
+            float value = boost::math::quantile(m_gamma_dist, levels[i]);
+            results[i] = value;
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return results;
 }
diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..4c84cf8 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -18,19 +18,28 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
     vec2 output = gridpp::init_vec2(Y, X);
 
     // Compute the statistic of the point values at each gridpoint
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < Y; y++) {
         for(int x = 0; x < X; x++) {
-            ivec I = points.get_neighbours(lats[y][x], lons[y][x], radius);
-            if(min_num <= 0 || I.size() >= min_num) {
-                vec curr(I.size());
-                for(int i = 0; i < I.size(); i++) {
-                    curr[i] = values[I[i]];
+            try {
+                ivec I = points.get_neighbours(lats[y][x], lons[y][x], radius);
+                if(min_num <= 0 || I.size() >= min_num) {
+                    vec curr(I.size());
+                    for(int i = 0; i < I.size(); i++) {
+                        curr[i] = values[I[i]];
+                    }
+                    output[y][x] = gridpp::calc_statistic(curr, statistic);
                 }
-                output[y][x] = gridpp::calc_statistic(curr, statistic);
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
             }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
@@ -46,17 +55,26 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int n = 0; n < N; n++) {
-        ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
-        if(min_num <= 0 || I.size() >= min_num) {
-            vec curr(I.size());
-            for(int i = 0; i < I.size(); i++) {
-                curr[i] = values[I[i]];
+        try {
+            ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
+            if(min_num <= 0 || I.size() >= min_num) {
+                vec curr(I.size());
+                for(int i = 0; i < I.size(); i++) {
+                    curr[i] = values[I[i]];
+                }
+                output[n] = gridpp::calc_statistic(curr, statistic);
             }
-            output[n] = gridpp::calc_statistic(curr, statistic);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 
@@ -87,15 +105,24 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     }
 
     vec2 output = gridpp::init_vec2(Y, X, gridpp::MV);
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < Y; y++) {
         for(int x = 0; x < X; x++) {
-            if(temp[y][x].size() > 0) {
-                if(min_num <=0 || temp[y][x].size() >= min_num)
-                    output[y][x] = gridpp::calc_statistic(temp[y][x], statistic);
+            try {
+                if(temp[y][x].size() > 0) {
+                    if(min_num <=0 || temp[y][x].size() >= min_num)
+                        output[y][x] = gridpp::calc_statistic(temp[y][x], statistic);
+                }
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
             }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
@@ -120,12 +147,21 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int n = 0; n < N; n++) {
-        if(temp[n].size() > 0) {
-            if(min_num <= 0 || temp[n].size() >= min_num)
-                output[n] = gridpp::calc_statistic(temp[n], statistic);
+        try {
+            if(temp[n].size() > 0) {
+                if(min_num <= 0 || temp[n].size() >= min_num)
+                    output[n] = gridpp::calc_statistic(temp[n], statistic);
+            }
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index e8c5cd3..c134545 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -44,6 +44,7 @@ namespace {
         for(int i = 0; i < nLat; i++)
             output[i].resize(nLon);
 
+        std::exception_ptr error;
         #pragma omp parallel for collapse(2)
         for(int i = 0; i < nLat; i++) {
             for(int j = 0; j < nLon; j++) {
@@ -86,14 +87,22 @@ namespace {
                     }
 
                 }
-                if(statistic == gridpp::Quantile) {
-                    output[i][j] = gridpp::calc_quantile(masked_ivalues, quantile);
+                try {
+                    if(statistic == gridpp::Quantile) {
+                        output[i][j] = gridpp::calc_quantile(masked_ivalues, quantile);
+                    }
+                    else {
+                        output[i][j] = gridpp::calc_statistic(masked_ivalues, statistic);
+                    }
                 }
-                else {
-                    output[i][j] = gridpp::calc_statistic(masked_ivalues, statistic);
+                catch(...) {
+                    #pragma omp critical
+                    error = std::current_exception();
                 }
             }
         }
+        if(error)
+            std::rethrow_exception(error);
         return output;
     }
 }
diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 5c42b35..4792f73 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -569,6 +569,7 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        std::exception_ptr error;
         #pragma omp parallel for reduction(+:count_stat)
         for(int y = 0; y < nY; y++) {
             for(int x = 0; x < nX; x++) {
@@ -590,13 +591,21 @@ namespace {
                     }
                 }
                 assert(index == curr_nY*curr_nX);
-                if(statistic == gridpp::Quantile)
-                    output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
-                else
-                    output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
+                try {
+                    if(statistic == gridpp::Quantile)
+                        output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
+                    else
+                        output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
+                }
+                catch(...) {
+                    #pragma omp critical
+                    error = std::current_exception();
+                }
                 count_stat += neighbourhood.size();
             }
         }
+        if(error)
+            std::rethrow_exception(error);
         return output;
     }
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
@@ -619,6 +628,7 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        std::exception_ptr error;
         #pragma omp parallel for reduction(+:count_stat)
         for(int i = 0; i < nY; i++) {
             for(int j = 0; j < nX; j++) {
@@ -641,13 +651,21 @@ namespace {
                     }
                 }
                 assert(index == Ni*Nj*nEns);
-                if(statistic == gridpp::Quantile)
-                    output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
-                else
-                    output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
+                try {
+                    if(statistic == gridpp::Quantile)
+                        output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
+                    else
+                        output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
+                }
+                catch(...) {
+                    #pragma omp critical
+                    error = std::current_exception();
+                }
                 count_stat += neighbourhood.size();
             }
         }
+        if(error)
+            std::rethrow_exception(error);
         return output;
     }
     vec3 vec2_to_vec3(const vec2& input) {
diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..9c49b5b 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -49,12 +49,21 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
 
     // Compute score in neighbourhood
     vec2 output = gridpp::init_vec2(nY, nX, gridpp::Mean);
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
-            output[y][x] = gridpp::calc_score(a_hood[y][x], b_hood[y][x], c_hood[y][x], d_hood[y][x], metric);
-            // std::cout << y << " " << x << " " << a_hood[y][x] << std::endl;
+            try {
+                output[y][x] = gridpp::calc_score(a_hood[y][x], b_hood[y][x], c_hood[y][x], d_hood[y][x], metric);
+                // std::cout << y << " " << x << " " << a_hood[y][x] << std::endl;
+            }
+            catch(...) {
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..93ccb75 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -85,9 +85,18 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
     vec values(N);
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        try {
+            values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        }
+        catch(...) {
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return values;
 }
diff --git a/src/api/window.cpp b/src/api/window.cpp
index 6aab1a8..7dc76d6 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -27,6 +27,7 @@ vec2 gridpp::window(const vec2& array,
         throw std::invalid_argument("Length variable must be an odd number");
     }
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
@@ -149,11 +150,19 @@ vec2 gridpp::window(const vec2& array,
                 else if(missing_edges && outside)
                     output[y][x] = gridpp::MV;
                 else {
-                    float value = gridpp::calc_statistic(stat_array, statistic);
-                    output[y][x] = value;
+                    try {
+                        float value = gridpp::calc_statistic(stat_array, statistic);
+                        output[y][x] = value;
+                    }
+                    catch(...) {
+                        #pragma omp critical
+                        error = std::current_exception();
+                    }
                 }
             }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
-- 
2.43.0


From c988e42ddd5cd424fd4f5eee96d6ff3b5cf72748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 17/50] fix: optimal_interpolation terminated the process when
 the observation covariance matrix is singular

---
 src/api/oi.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 6512843..152c93f 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -230,6 +230,7 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
+    bool is_singular = false;
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         if(!gridpp::is_valid(background[y])) {
@@ -324,7 +325,13 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        mattype lInverse;
+        if(!arma::inv(lInverse, lP + lR)) {
+            #pragma omp critical
+            is_singular = true;
+            continue;
+        }
+        mattype lGSR = lG * lInverse;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
@@ -348,6 +355,8 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         mattype a = (lGSR * lG.t());
         analysis_variance[y] = bvariance[y] * (1 - a(0, 0));
     }
+    if(is_singular)
+        throw std::runtime_error("Could not invert the error covariance matrix of the observations");
 
     return output;
 }
-- 
2.43.0


From 9930b9b611c71763665951707c3985eb3b7b65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 18/50] fix: copies, subsets and boxes of Cartesian points and
 grids lost their coordinate type; x and y were swapped in Cartesian points

---
 src/api/grid.cpp   | 13 +++++++------
 src/api/point.cpp  |  4 ++--
 src/api/points.cpp |  6 +++---
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 4010ed9..e8a9285 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -13,7 +13,7 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     if(lats.size() == 0) {
         vec lats;
         vec lons;
-        mTree = KDTree(lats, lons);
+        mTree = KDTree(lats, lons, type);
         mX = 0;
         return;
     }
@@ -196,11 +196,12 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        CoordinateType type = get_coordinate_type();
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
diff --git a/src/api/points.cpp b/src/api/points.cpp
index df6846f..8d213cb 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -111,7 +111,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -127,7 +127,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = KDTree(mLats, mLons, other.get_coordinate_type());
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
@@ -155,5 +155,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From cc1cb3891021592e1547ade9e805372b0e0fd3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 19/50] fix: functions combining two grids or point sets
 accepted different coordinate types, treating the coordinates of one as those
 of the other (or terminating the process inside a parallel loop)

---
 src/api/bilinear.cpp                           |  8 ++++++++
 src/api/count.cpp                              |  8 ++++++++
 src/api/doping.cpp                             |  4 ++++
 src/api/downscale_probability.cpp              |  2 ++
 src/api/fill.cpp                               |  2 ++
 src/api/gradient.cpp                           |  4 ++++
 src/api/gridding.cpp                           |  8 ++++++++
 src/api/local_distribution_correction.cpp      |  3 +++
 src/api/mask_threshold_downscale_consensus.cpp |  2 ++
 src/api/nearest.cpp                            | 16 ++++++++++++++++
 src/api/smart.cpp                              |  2 ++
 11 files changed, 59 insertions(+)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index a8f3bd5..02bebba 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -25,6 +25,8 @@ namespace {
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -62,6 +64,8 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     return output;
 }
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -101,6 +105,8 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 }
 
 vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -135,6 +141,8 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
     return output;
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
diff --git a/src/api/count.cpp b/src/api/count.cpp
index 7a7bd11..0bddf95 100644
--- a/src/api/count.cpp
+++ b/src/api/count.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec gridpp::count(const Grid& grid, const Points& points, float radius) {
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     int size = points.size();
     vec output(size);
     vec olats = points.get_lats();
@@ -17,6 +19,8 @@ vec gridpp::count(const Grid& grid, const Points& points, float radius) {
 }
 
 vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     ivec size = ogrid.size();
     vec2 output(size[0]);
     vec2 olats = ogrid.get_lats();
@@ -35,6 +39,8 @@ vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
 }
 
 vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
+    if(points.get_coordinate_type() != grid.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     ivec size = grid.size();
     vec2 output(size[0]);
     vec2 olats = grid.get_lats();
@@ -53,6 +59,8 @@ vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
 }
 
 vec gridpp::count(const Points& ipoints, const Points& opoints, float radius) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both sets of points must be of same coordinate type (lat/lon or x/y)");
     int size = opoints.size();
     vec output(size);
     vec olats = opoints.get_lats();
diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..9bcaac0 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -3,6 +3,8 @@
 using namespace gridpp;
 
 vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const ivec& halfwidth, float max_elev_diff) {
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
     if(points.size() != observations.size())
@@ -48,6 +50,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
 }
 
 vec2 gridpp::doping_circle(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const vec& radii, float max_elev_diff) {
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
     if(points.size() != observations.size())
diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index a69baca..421e88f 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -5,6 +5,8 @@
 using namespace gridpp;
 
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
     vec2 iInputLats = igrid.get_lats();
diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..3ec5f84 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, const vec& radii, float value, bool outside) {
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, input))
         throw std::invalid_argument("Grid size is not the same as values");
     if(points.size() != radii.size())
diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index d322beb..0d61d4e 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -3,6 +3,8 @@
 using namespace gridpp;
 
 vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& ivalues,  const vec2& elev_gradient, const vec2& laf_gradient, Downscaler downscaler) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     // Sizes;
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
@@ -85,6 +87,8 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
 }
 
 vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec3& elev_gradient, const vec3& laf_gradient, Downscaler downscaler) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     // Sizes;
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 4c84cf8..a3d638f 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(points, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
@@ -43,6 +45,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
     return output;
 }
 vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Both sets of points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
@@ -79,6 +83,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
 }
 
 vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(grid.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
@@ -126,6 +132,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     return output;
 }
 vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Both sets of points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index 3eb1202..e467112 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,6 +40,9 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(bgrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both background grid and points must be of same coordinate type (lat/lon or x/y)");
+
     vec2 blats = bgrid.get_lats();
     vec2 blons = bgrid.get_lons();
 
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index c134545..d32ba2a 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -17,6 +17,8 @@ vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& og
 
 namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
+        if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+            throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
         vec2 iInputLats = igrid.get_lats();
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..66c033d 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -5,6 +5,8 @@
 using namespace gridpp;
 
 vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -30,6 +32,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     return output;
 }
 vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -71,6 +75,8 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 }
 
 vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalues) {
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -93,6 +99,8 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     return output;
 }
 vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalues) {
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
@@ -122,6 +130,8 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 }
 
 vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -143,6 +153,8 @@ vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalue
     return output;
 }
 vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both grid and points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -175,6 +187,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalu
     return output;
 }
 vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& ivalues) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both sets of points must be of same coordinate type (lat/lon or x/y)");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -196,6 +210,8 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
     return output;
 }
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Both sets of points must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 25cce8b..f609f28 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,8 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
 
-- 
2.43.0


From 1628b26c258371841cef99919dc68b6d62571ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 20/50] fix: read the documented options minPrecip (phase) and
 maxEnsMean (bct)

---
 src/client/Calibrator/Bct.cpp   | 1 +
 src/client/Calibrator/Phase.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From 8d280dbb2f105823c30b27d97397164aac7f0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 21/50] fix: report unknown options of diagnoseHumidity and
 diagnoseWind

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 1 +
 src/client/Calibrator/DiagnoseWind.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index c754650..795e5da 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -21,6 +21,7 @@ CalibratorDiagnoseHumidity::CalibratorDiagnoseHumidity(const Variable& iVariable
       Util::error("Rh requires dewpoint=");
    if(mCompute == "wetbulb" && mRh == "")
       Util::error("Wetbulb requires rh=");
+   iOptions.check();
 }
 bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
    int nY = iFile.getNumY();
diff --git a/src/client/Calibrator/DiagnoseWind.cpp b/src/client/Calibrator/DiagnoseWind.cpp
index 6448d03..616ab57 100644
--- a/src/client/Calibrator/DiagnoseWind.cpp
+++ b/src/client/Calibrator/DiagnoseWind.cpp
@@ -20,6 +20,7 @@ CalibratorDiagnoseWind::CalibratorDiagnoseWind(const Variable& iVariable, const
    if((mCompute == "speed" || mCompute == "direction") && (mX == "" || mY == "")) {
       Util::error("Both x and y variables must be specified");
    }
+   iOptions.check();
 }
 bool CalibratorDiagnoseWind::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
    int nY = iFile.getNumY();
-- 
2.43.0


From 687ed07c68e9eb824c17a8b3c48dc1a77c6062b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 22/50] fix: set a variable's maximum from the option max

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From baeeccb6e8ee212b020341c4a2cbc77a655d753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 23/50] fix: do not carry options of one parameter file over to
 the next

---
 src/client/Setup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 6f3edde..08c5e9b 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -718,6 +718,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             calibrator = "";
             cOpt.clear();
             parameterFile = "";
+            pOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
-- 
2.43.0


From 6e73d014b34f0e4c90b92fd996dfb54df00f5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 24/50] fix: help text states the defaults that are in effect;
 epsilonC was overwritten

---
 src/client/Calibrator/Oi.cpp        | 8 ++++----
 src/client/Calibrator/Window.cpp    | 2 +-
 src/client/Downscaler/Gradient.cpp  | 4 ++--
 src/client/ParameterFile/Netcdf.cpp | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..d4a8bc3 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -72,7 +72,7 @@ CalibratorOi::CalibratorOi(Variable iVariable, const Options& iOptions):
    iOptions.getValue("useEns", mUseEns);
    iOptions.getValue("wmin", mWMin);
    iOptions.getValue("epsilon", mEpsilon);
-   if(iOptions.getValue("epsilonC", mEpsilonC))
+   if(!iOptions.getValue("epsilonC", mEpsilonC))
       mEpsilonC = mEpsilon;
    iOptions.getValue("c", mC);
    iOptions.getValue("lambda", mLambda);
@@ -1198,11 +1198,11 @@ std::string CalibratorOi::description(bool full) {
       ss << Util::formatDescription("   minRho=0.0013","Perform localization by requiring this minimum rho value") << std::endl;
       ss << Util::formatDescription("   maxBytes=6442450944","Don't allocate more than this many bytes when creating the localization information") << std::endl;
       ss << Util::formatDescription("   minEns=5","Switch to single-member mode if fewer than this number of members available") << std::endl;
-      ss << Util::formatDescription("   elevGradient=0","Elevation gradient when downscaling background to obs. Use -0.0065 for temperature.") << std::endl;
+      ss << Util::formatDescription("   elevGradient=undef","Elevation gradient when downscaling background to obs. Use -0.0065 for temperature.") << std::endl;
       ss << Util::formatDescription("   useEns=1","Enable ensemble-mode. If 0, use single-member mode.") << std::endl;
-      ss << Util::formatDescription("   wmin=0.5","") << std::endl;
+      ss << Util::formatDescription("   wmin=undef","") << std::endl;
       ss << Util::formatDescription("   epsilon=0.5","") << std::endl;
-      ss << Util::formatDescription("   epsilonC=0.2916","") << std::endl;
+      ss << Util::formatDescription("   epsilonC=undef","If undefined, the same as epsilon.") << std::endl;
       ss << Util::formatDescription("   lambda=0.5","") << std::endl;
       ss << Util::formatDescription("   boxCoxThreshold=undef","") << std::endl;
       ss << Util::formatDescription("   rhoType=gaussian","One of 'gaussian', 'soar'") << std::endl;
diff --git a/src/client/Calibrator/Window.cpp b/src/client/Calibrator/Window.cpp
index a2a9b2d..318683c 100644
--- a/src/client/Calibrator/Window.cpp
+++ b/src/client/Calibrator/Window.cpp
@@ -108,7 +108,7 @@ std::string CalibratorWindow::description(bool full) {
    std::stringstream ss;
    ss << Util::formatDescription("-c window","Applies a statistical operator to values within a temporal window. Any missing values are ignored when computing the statistic.") << std::endl;
    if(full) {
-      ss << Util::formatDescription("   length=required", "Length of the window (in number of timesteps) to apply operator on (must be 0 or greater).") << std::endl;
+      ss << Util::formatDescription("   length=7", "Length of the window (in number of timesteps) to apply operator on (must be 0 or greater).") << std::endl;
       ss << Util::formatDescription("   before=0", "If 0, the window is centered on each leadtime (if length is an even number, then it is shifted such that it includes one extra future leadtime). If 1, then the window ends and includes the leadtime.") << std::endl;
       ss << Util::formatDescription("   stat=mean", "What statistical operator should be applied to the neighbourhood? One of 'mean', 'median', 'min', 'max', 'quantile', 'std', or 'sum'. 'std' is the population standard deviation.") << std::endl;
       ss << Util::formatDescription("   quantile=undef", "If stat=quantile is selected, what quantile (number on the interval [0,1]) should be used?") << std::endl;
diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..9829439 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -473,12 +473,12 @@ std::string DownscalerGradient::description(bool full) {
       ss << Util::formatDescription("   minNumPoints=2", "Minimum number of points needed to compute elevation gradient.") << std::endl;
       ss << Util::formatDescription("   elevGradientVariable=undef", "Which variable to use for the gradient? If undefined, use the same variables as the forecast variable.") << std::endl;
 
-      ss << Util::formatDescription("   lafRadius=1", "Smoothen the LAF output with this neighbourhood radius.") << std::endl;
+      ss << Util::formatDescription("   lafRadius=0", "Smoothen the LAF output with this neighbourhood radius.") << std::endl;
       ss << Util::formatDescription("   minLafDiff=0.1", "Minimum LAF range (between 0 and 1) required within the neighbourhood to compute gradient. Use nearest neighbour otherwise.") << std::endl;
       ss << Util::formatDescription("   minFracSeaPoints=0", "Minimum fraction of points in neighbourhood with a LAF < 0.5 to compute a LAF gradient.") << std::endl;
       ss << Util::formatDescription("   minLafGradient=undef", "Do not allow LAF gradient to be smaller than this value. If undefined, do not alter gradient.") << std::endl;
       ss << Util::formatDescription("   maxLafGradient=undef", "Do not allow LAF gradient to be larger than this value. If undefined, do not alter gradient.") << std::endl;
-      ss << Util::formatDescription("   lafSearchRadii=1,2,3", "Compute LAF gradients using neighbourhoods with these sizes.") << std::endl;
+      ss << Util::formatDescription("   lafSearchRadii=undef", "Compute LAF gradients using neighbourhoods with these sizes.") << std::endl;
       ss << Util::formatDescription("   lafWeights=undef", "Weights when computing the average LAF gradient in different neighbourhoods.") << std::endl;
 
       ss << Util::formatDescription("   logTransform=0", "Should the variable be log-transformed first? I.e should a linear gradient be applied to log(variable)? T = T(nn) * exp(gradient * dElev). Only applied to elevation gradients. Useful for pressure variables. Can be used together with constantElevGradient.") << std::endl;
diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..9dda167 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -283,8 +283,8 @@ std::string ParameterFileNetcdf::description(bool full) {
    std::stringstream ss;
    ss << Util::formatDescription("-p netcdf", "Parameters stored in a Netcdf file. File must have contain: dimensions time, lat (or latitude or y), lon (or longitude or x), coefficient; variables with dims: time[time], latitude[lat,lon], longitude[lat,lon], coefficients[*]. the coefficient variable must have lat, lon, coefficient dimensions, and optimally time. These can be in any order. If there is no time dimension, then the parameters are used for all times. The number of parameters in a set must be constant and equals the size of the 'coefficient' dimension.") << std::endl;
    if(full) {
-      ss << Util::formatDescription("   dimName=coefficient", "What is the name of the dimension representing different coefficients?") << std::endl;
-      ss << Util::formatDescription("   varName=coefficients", "What is the name of the variable containing the coefficients?") << std::endl;
+      ss << Util::formatDescription("   dimName=coeff", "What is the name of the dimension representing different coefficients?") << std::endl;
+      ss << Util::formatDescription("   varName=coefficient", "What is the name of the variable containing the coefficients?") << std::endl;
       ss << Util::formatDescription("   file=required", "Filename of file.") << std::endl;
    }
    return ss.str();
-- 
2.43.0


From 6457141a7d42ada5ddcf7383951bac77cd9c75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 25/50] fix: unknown options were not reported when an earlier
 downscaler had read them

---
 src/client/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Options.cpp b/src/client/Options.cpp
index 0cdc33a..f0be93c 100644
--- a/src/client/Options.cpp
+++ b/src/client/Options.cpp
@@ -27,6 +27,7 @@ void Options::addOptions(std::string iOptionString) {
 }
 void Options::clear() {
    mPairs.clear();
+   mHasBeenAccessed.clear();
 }
 
 std::string Options::toString() const {
-- 
2.43.0


From d909dd2368560bf7b92fd2c359d72867801f8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 26/50] fix: default variable left its limits and level unset

---
 src/client/Variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 7529106..8dd572e 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -2,7 +2,10 @@
 #include <sstream>
 #include "Util.h"
 
-Variable::Variable() {
+Variable::Variable():
+      mMin(Util::MV),
+      mMax(Util::MV),
+      mLevel(Util::MV) {
 }
 Variable::Variable(std::string iName, float iMin, float iMax, std::string iUnits, std::string iStandardName, int iLevel):
       mName(iName),
-- 
2.43.0


From 357f0cad06d103d2aa4cb4bc8c43406782ca7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 27/50] fix: locations of a parameter file were appended to the
 old ones when its tree was rebuilt

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..d1bbda7 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
-- 
2.43.0


From 7b49b62efb9fd84e509b96d3a4ab1eac8661c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 28/50] fix: the number of times of a point file was read
 before it was set

---
 src/client/File/Point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..465f3b0 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -71,7 +71,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
 
    // Otherwise get the time or ensemble dimension from options
    iOptions.getValue("ens", mNEns);
-   int numTimes;
+   int numTimes = Util::MV;
    if(iOptions.getValue("time", numTimes)) {
       times.clear();
       // Empty file, probably used as output only
@@ -80,7 +80,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
    }
 
    // Check that we got time and ensemble dimension
-   if(!Util::isValid(numTimes)) {
+   if(times.size() == 0 && !Util::isValid(numTimes)) {
       Util::error("Missing 'time' option for empty file '" + iFilename + "'");
    }
    if(!Util::isValid(mNEns)) {
-- 
2.43.0


From 95693d403ca9c80ff99cfb2c23724910e24db14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 29/50] fix: limits of the land area fraction gradient were
 unset without the options

---
 src/client/Downscaler/Gradient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 9829439..95fd4bc 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -17,6 +17,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mMinLafForElevGradient(0),
       mMinLafDiff(0.1),
       mLafRadius(0),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mDownscalerName("nearestNeighbour"),
       mMinNumPoints(2),
       mLimit(false),
-- 
2.43.0


From fa90feefd5db1bf44c0a7362eaa7b2ea5ab4edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 30/50] fix: report failed reads and inquiries of NetCDF files

---
 src/client/File/Netcdf.cpp | 42 ++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..32b858a 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -166,7 +166,9 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
    }
 
    if(Util::isValid(mTimeVar)) {
-      int size = getDimSize(mTimeDim);
+      int size = Util::MV;
+      if(Util::isValid(mTimeDim))
+         size = getDimSize(mTimeDim);
       if(size == 0) {
 
       }
@@ -208,12 +210,14 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
    // Load variables
    int numVars = Util::MV;
    status = nc_inq_nvars(mFile, &numVars);
+   handleNetcdfError(status, "could not get number of variables");
    int vars[numVars];
    status = nc_inq_varids(mFile, &numVars, vars);
    handleNetcdfError(status, "could not get list of variables");
    for(int v = 0; v < numVars; v++) {
       char nameChar[10000];
       status = nc_inq_varname (mFile, vars[v], nameChar);
+      handleNetcdfError(status, "could not get name of variable");
       std::string name(nameChar);
       std::string units = getAttribute(vars[v], "units");
       std::string standardName = getAttribute(vars[v], "standard_name");
@@ -290,7 +294,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       size *= count[d];
    }
    float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   int status = nc_get_vara_float(mFile, var, start, count, values);
+   handleNetcdfError(status, "could not get data from variable '" + iVariable.name() + "'");
 
    float MV = getMissingValue(var);
    float offset = getOffset(var);
@@ -558,10 +563,12 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
    int numDims = getNumDims(iVar);
    if(numDims == 1) {
       int dim;
-      nc_inq_vardimid(mFile, iVar, &dim);
+      int status = nc_inq_vardimid(mFile, iVar, &dim);
+      handleNetcdfError(status, "could not get dimension of latitude/longitude/altitude variable");
       long size = getDimSize(dim);
       float* values = new float[size];
-      nc_get_var_float(mFile, iVar, values);
+      status = nc_get_var_float(mFile, iVar, values);
+      handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       // Latitude variable
       if(dim == mYDim) {
          for(int i = 0; i < getNumY(); i++) {
@@ -594,7 +601,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
       int indexY = Util::MV;
       int indexX = Util::MV;
       int dims[N];
-      nc_inq_vardimid(mFile, iVar, dims);
+      int status = nc_inq_vardimid(mFile, iVar, dims);
+      handleNetcdfError(status, "could not get dimensions of latitude/longitude/altitude variable");
       for(int i = 0; i < N; i++) {
          if(dims[i] == mYDim) {
             count[i] = getNumY();
@@ -608,7 +616,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
          }
          else {
             size_t dimsize = 1;
-            nc_inq_dimlen(mFile, dims[i], &dimsize);
+            status = nc_inq_dimlen(mFile, dims[i], &dimsize);
+            handleNetcdfError(status, "could not get size of dimension");
             if(dimsize > 1){
                std::stringstream ss;
                ss << "Lat/lon/elev has an extra non-singleton dimension (dim " << i << ") of length " << dimsize << ". Using index 0 to extract lat/lon/elev.";
@@ -624,7 +633,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_vara_float(mFile, iVar, start, count, values);
+      status = nc_get_vara_float(mFile, iVar, start, count, values);
+      handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       for(int i = 0; i < getNumY(); i++) {
          for(int j = 0; j < getNumX(); j++) {
             // Latitude dimension is ordered first
@@ -717,7 +727,8 @@ void FileNetcdf::defineAltitude() {
    if(Util::isValid(vUseDims)) {
       int N = getNumDims(vUseDims);
       int dims[N];
-      nc_inq_vardimid(mFile, vUseDims, dims);
+      int status = nc_inq_vardimid(mFile, vUseDims, dims);
+      handleNetcdfError(status, "could not get dimensions when creating altitude variable");
       for(int i = 0; i < N; i++) {
          if(dims[i] == mYDim)
             indexY = i;
@@ -767,7 +778,8 @@ void FileNetcdf::writeAltitude() const {
    int indexY = Util::MV;
    int indexX = Util::MV;
    int dims[N];
-   nc_inq_vardimid(mFile, vElev, dims);
+   int status = nc_inq_vardimid(mFile, vElev, dims);
+   handleNetcdfError(status, "could not get dimensions of altitude variable");
    for(int i = 0; i < N; i++) {
       if(dims[i] == mYDim) {
          count[i] = getNumY();
@@ -781,7 +793,8 @@ void FileNetcdf::writeAltitude() const {
       }
       else {
          size_t dimsize = 1;
-         nc_inq_dimlen(mFile, dims[i], &dimsize);
+         status = nc_inq_dimlen(mFile, dims[i], &dimsize);
+         handleNetcdfError(status, "could not get size of dimension");
          if(dimsize > 1){
             std::stringstream ss;
             ss << "Lat/lon/elev has an extra non-singleton dimension (dim " << i << ") of length " << dimsize << ". Using index 0 to write lat/lon/elev.";
@@ -808,7 +821,7 @@ void FileNetcdf::writeAltitude() const {
          }
       }
    }
-   int status = nc_put_vara_float(mFile, vElev, start, count, values);
+   status = nc_put_vara_float(mFile, vElev, start, count, values);
    handleNetcdfError(status, "could not write altitude");
    delete[] values;
 }
@@ -851,18 +864,21 @@ int FileNetcdf::getDimSize(std::string iDim) const {
    int dim = getDim(iDim);
    size_t len = Util::MV;
    int status = nc_inq_dimlen(mFile, dim, &len);
+   handleNetcdfError(status, "could not get size of dimension '" + iDim + "'");
    return len;
 }
 
 int FileNetcdf::getDimSize(int iDim) const {
    size_t len = Util::MV;
    int status = nc_inq_dimlen(mFile, iDim, &len);
+   handleNetcdfError(status, "could not get size of dimension");
    return len;
 }
 
 int FileNetcdf::getNumDims(int iVar) const {
    int len = Util::MV;
    int status = nc_inq_varndims(mFile, iVar, &len);
+   handleNetcdfError(status, "could not get number of dimensions of variable");
    return len;
 }
 std::string FileNetcdf::detectEnsDim() const {
@@ -1228,7 +1244,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
          Util::error(ss.str());
       }
 
-      bool status = nc_get_var_float(mFile, iVar, values);
+      int status = nc_get_var_float(mFile, iVar, values);
       handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
 
       for(int i = 0; i < numY; i++) {
@@ -1272,7 +1288,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
       }
 
       float* values = new float[numX*numY];
-      bool status = nc_get_vara_float(mFile, iVar, start, count, values);
+      int status = nc_get_vara_float(mFile, iVar, start, count, values);
       handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       for(int i = 0; i < numY; i++) {
          for(int j = 0; j < numX; j++) {
-- 
2.43.0


From e5b3c7cb1849eec5be70d15d31709e3e70b604e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 31/50] fix: report failed reads of NetCDF parameter files

---
 src/client/ParameterFile/Netcdf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index 9dda167..e839e2f 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -249,6 +249,7 @@ bool ParameterFileNetcdf::hasVar(int iFile, std::string iVar) {
 int ParameterFileNetcdf::getDimSize(int iFile, int iDim) const {
    size_t len;
    int status = nc_inq_dimlen(iFile, iDim, &len);
+   handleNetcdfError(status, "could not get size of dimension");
    return len;
 }
 
@@ -499,11 +500,12 @@ float* ParameterFileNetcdf::getNcFloats(int iFile, int iVar) {
    long size = NetcdfUtil::getTotalSize(iFile, iVar);
    assert(size > 0);
    float* values = new float[size];
-   int status = nc_get_var_float(iFile, iVar, values);
    char name[512];
-   status = nc_inq_varname(iFile, iVar, name);
+   int status = nc_inq_varname(iFile, iVar, name);
    handleNetcdfError(status, "could not get variable name");
 
+   status = nc_get_var_float(iFile, iVar, values);
+
    std::stringstream ss;
    ss <<  "could not retrieve values from variable '" << name << "'";
    handleNetcdfError(status, ss.str());
@@ -537,7 +539,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
       int dim = dims[0];
       long size = getDimSize(iFile, dim);
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      int status = nc_get_var_float(iFile, iVar, values);
+      handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       // Latitude variable
       if(dim == getLatDim(iFile)) {
          for(int i = 0; i < nLat; i++) {
@@ -589,7 +592,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      int status = nc_get_var_float(iFile, iVar, values);
+      handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             // Latitude dimension is ordered first
-- 
2.43.0


From f7125bd9091c3a05b9beb6e49c7be54900beb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 32/50] fix: report a NetCDF file that could not be closed

---
 src/client/File/Netcdf.cpp          | 3 ++-
 src/client/ParameterFile/Netcdf.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 32b858a..3ddb364 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -228,7 +228,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
 }
 
 FileNetcdf::~FileNetcdf() {
-   nc_close(mFile);
+   int status = nc_close(mFile);
+   handleNetcdfError(status, "could not close file");
 }
 
 FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index e839e2f..580d217 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -198,7 +198,8 @@ ParameterFileNetcdf::ParameterFileNetcdf(const Options& iOptions, bool iIsNew) :
 }
 
 ParameterFileNetcdf::~ParameterFileNetcdf() {
-   nc_close(mFile);
+   int status = nc_close(mFile);
+   handleNetcdfError(status, "could not close file");
 }
 
 int ParameterFileNetcdf::getDim(int iFile, std::string iDim) const {
-- 
2.43.0


From b2d7dab93db20aec25b738b1a964f726771e81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 33/50] fix: report text outputs that could not be written

---
 src/client/Calibrator/Oi.cpp      | 2 ++
 src/client/File/NorcomQnh.cpp     | 2 ++
 src/client/File/Point.cpp         | 2 ++
 src/client/File/Text.cpp          | 2 ++
 src/client/ParameterFile/Text.cpp | 2 ++
 src/client/Util.cpp               | 2 +-
 6 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index d4a8bc3..66b375d 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -1086,6 +1086,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    }
    if(mDiaFile != "") {
      diaFile.close();
+     if(!diaFile.good())
+        Util::error("Could not write to file '" + mDiaFile + "'");
    }
    return true;
 }
diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index 02fe294..b0c70a2 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -135,6 +135,8 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
       ofs << std::setfill('0') << std::setw(4) << std::right << valueHpa << " HPA" << "\r" << std::endl;
    }
    ofs.close();
+   if(!ofs.good())
+      Util::error("Could not write to file '" + getFilename() + "'");
 }
 
 std::string FileNorcomQnh::getNorcomTimeStamp(time_t iUnixTime) const {
diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 465f3b0..4490232 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -150,6 +150,8 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
       }
    }
    ofs.close();
+   if(!ofs.good())
+      Util::error("Could not write to file '" + getFilename() + "'");
 }
 
 std::string FilePoint::description() {
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index eb9790d..eacef6c 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -147,6 +147,8 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       }
    }
    ofs.close();
+   if(!ofs.good())
+      Util::error("Could not write to file '" + getFilename() + "'");
 }
 
 std::string FileText::description() {
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..6a65385 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -207,6 +207,8 @@ void ParameterFileText::write(const std::string& iFilename) const {
       }
    }
    ofs.close();
+   if(!ofs.good())
+      Util::error("Could not write parameters to " + filename);
 }
 
 bool ParameterFileText::isLocationDependent() const {
diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..8cb8436 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -283,7 +283,7 @@ bool Util::copy(std::string iFrom, std::string iTo) {
 
    source.close();
    dest.close();
-   return true;
+   return dest.good();
 }
 
 bool Util::remove(std::string iFilename) {
-- 
2.43.0


From f92eb13890030b4223e971e9b6bf394a4d398841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 34/50] fix: reject option values that cannot be read

---
 src/client/Options.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/Options.h b/src/client/Options.h
index b69b5d0..3db3564 100644
--- a/src/client/Options.h
+++ b/src/client/Options.h
@@ -52,7 +52,8 @@ class Options {
             std::string value = mPairs[i].second;
             if(key == iKey) {
                std::stringstream ss(value);
-               ss >> iValue;
+               if(!(ss >> iValue))
+                  Util::error("Could not read value of '" + iKey + "' in: " + toString());
                mHasBeenAccessed.insert(iKey);
                return true;
             }
@@ -93,7 +94,8 @@ class Options {
                      break; // We're at the end of the line
                   std::stringstream ss2(betweenComma);
                   T value;
-                  ss2 >> value;
+                  if(!(ss2 >> value))
+                     Util::error("Could not read values of '" + iKey + "' in: " + toString());
                   iValues.push_back(value);
                }
                mHasBeenAccessed.insert(iKey);
-- 
2.43.0


From 08b287b2be50ad158f7f5431b4e4e818d29a2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 35/50] fix: reject rows of point files without a time

---
 src/client/File/Point.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 4490232..0402332 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -58,7 +58,8 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
          if(ifs.good() && line[0] != '#') {
             std::stringstream ss(line);
             double time;
-            ss >> time;
+            if(!(ss >> time))
+               Util::error("Could not read time from file '" + iFilename + "'");
             times.push_back(time);
             double value;
             mNEns = 0;
@@ -103,7 +104,8 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
       if(ifs.good() && line[0] != '#') {
          std::stringstream ss(line);
          double time;
-         ss >> time;
+         if(!(ss >> time))
+            Util::error("Could not read time from file '" + getFilename() + "'");
 
          if(time == iTime) {
             double value;
-- 
2.43.0


From 290a642e7913bf261d367cd424c9e2b6fef6e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 36/50] fix: coastal leaves missing land fractions and values
 out

---
 src/client/Calibrator/Coastal.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index f71809f..f6d0356 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -58,6 +58,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
                         lowerValue = rawField(ii,jj,e);
                         minLaf = currLaf;
@@ -78,14 +80,12 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
+               // The corrected value is missing, if the value it is based on is missing
+               float baseValue = mUseNN ? nearestNeighbour : lowerValue;
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               if(Util::isValid(baseValue))
+                  value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
          }
@@ -145,18 +145,16 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
       float valueMax = Util::calculateStat(ensMax, Util::StatTypeMean);
       std::vector<float> ensNn = (*iData[i].second)(iIens, iJens);
       float valueNN = Util::calculateStat(ensNn, Util::StatTypeMean);
-      if(Util::isValid(obs) && Util::isValid(valueNN)) {
+      float baseValue = mUseNN ? valueNN : valueMin;
+      if(Util::isValid(obs) && Util::isValid(baseValue)) {
          float gradient = 0;
          if(Util::isValid(valueMin) && Util::isValid(valueMax))
             gradient = (valueMax - valueMin)/(maxLaf - minLaf);
-         if(mUseNN)
-            y.push_back(obs-valueNN);
-         else
-            y.push_back(obs-valueMin);
+         y.push_back(obs-baseValue);
          x[0].push_back(1);
          x[1].push_back(gradient);
          if(iIobs == 54 && iJobs == 16) {
-            std::cout << obs-valueNN << " " << gradient << std::endl;
+            std::cout << obs-baseValue << " " << gradient << std::endl;
          }
       }
    }
-- 
2.43.0


From c2a3c5b9439097207155fc6b24d74aee9437b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 37/50] fix: kriging leaves missing values and stations without
 altitude out

---
 src/client/Calibrator/Kriging.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index dd0be2a..c08d087 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -203,7 +203,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
          // Improve conditioning of matrix when you have two or more stations
          // that are very close
          float factor = 0.414 / 0.5;
-         float R = calcCovar(iloc, jloc)*factor;
+         float covar = calcCovar(iloc, jloc);
+         // A station without an elevation is not correlated with the other ones
+         float R = Util::isValid(covar) ? covar*factor : 0;
          // Store the number in both halves
          matrix[ii][jj] = R;
          matrix[jj][ii] = R;
@@ -351,6 +353,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
+                  // Leave missing values
+                  if(!Util::isValid(rawValue))
+                     continue;
 
                   // Adjust bias based on auxillary weight
                   if(mAuxVariable != "") {
-- 
2.43.0


From d54c563efd33e9491c179e7db46b981501111c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 38/50] fix: oi ignores missing altitudes and land fractions

---
 src/client/Calibrator/Oi.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 66b375d..65643a5 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -258,7 +258,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
       if(!Util::isValid(gridSize) || (X > 0 && X < nX - 1 && Y > 0 && Y < nY - 1)) {
          if(Util::isValid(gObs[i])) {
             // Check if the elevation of the station roughly matches the reference grid elevation
-            bool hasValidElev = !Util::isValid(mMaxElevDiff) || Util::isValid(gLocations[i].elev());
+            bool hasValidElev = !Util::isValid(mMaxElevDiff) || (Util::isValid(gLocations[i].elev()) && Util::isValid(elevs[Y][X]));
             if(Util::isValid(mMaxElevDiff) && hasValidElev) {
                float elevDiff = abs(gLocations[i].elev() - elevs[Y][X]);
                hasValidElev = elevDiff < mMaxElevDiff;
@@ -459,7 +459,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int index = lLocIndices0[i];
                float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                float vdist = Util::MV;
-               if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+               if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                   vdist = gLocations[index].elev() - elev;
                float lafdist = 0;
                if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -576,7 +576,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                   lR(i, i) = gCi[index];
                   float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                   float vdist = Util::MV;
-                  if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+                  if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                      vdist = gLocations[index].elev() - elev;
                   float lafdist = 0;
                   if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -587,10 +587,10 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      int index_j = lLocIndices[j];
                      float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), gLocations[index_j].lat(), gLocations[index_j].lon(), true);
                      float vdist = Util::MV;
-                     if(Util::isValid(gLocations[index].elev() && Util::isValid(gLocations[index_j].elev())))
+                     if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
-                     if(Util::isValid(gLafs[index]) && Util::isValid(laf))
+                     if(Util::isValid(gLafs[index]) && Util::isValid(gLafs[index_j]))
                         lafdist = gLafs[index] - gLafs[index_j];
 
                      lP(i, j) = calcRho(hdist, vdist, lafdist, mRhoType);
-- 
2.43.0


From 36a6865af5087d0b7314ffb507d5e5db0b121f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 39/50] fix: regression gives a missing value when a predictor
 is missing

---
 src/client/Calibrator/Regression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..1b7adaa 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -73,7 +73,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        float value = (*fields[p])(i,j,e);
+                        if(!Util::isValid(value)) {
+                           total = Util::MV;
+                           break;
+                        }
+                        total += coeff*value;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From eaeb70ff79edcfc26a393be5582c56451ac8f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 40/50] fix: windDirection keeps missing values

---
 src/client/Calibrator/WindDirection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..0802864 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -44,9 +44,10 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                parameters = parametersGlobal;
             for(int e = 0; e < nEns; e++) {
                float currDirection = direction(i,j,e);
-               if(Util::isValid(currDirection)) {
+               float currWind = wind(i,j,e);
+               if(Util::isValid(currDirection) && Util::isValid(currWind)) {
                    float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+                   wind(i,j,e) = Util::isValid(factor) ? factor*currWind : Util::MV;
                }
             }
          }
-- 
2.43.0


From 0975913eea590f70ca28050f360334b382eb8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 41/50] fix: zaga does not calculate with a missing probability

---
 src/client/Calibrator/Zaga.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index ac410b7..2c2fa97 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -362,6 +362,8 @@ float CalibratorZaga::getPdf(float iThreshold, float iEnsMean, float iEnsFrac, c
    float sb  = iParameters[3];
 
    float P0 = getP0(iEnsMean, iEnsFrac, iParameters);
+   if(!Util::isValid(P0))
+      return Util::MV;
 
    // Compute parameters of distribution (in same way as done in gamlss in R)
    float mu    = exp(mua + mub * pow(iEnsMean, 1.0/3));
@@ -656,6 +658,8 @@ void CalibratorZaga::my_fdf(const gsl_vector *x, void *params, double *f, gsl_ve
 float CalibratorZaga::logLikelihood(float obs, float iEnsMean, float iEnsFrac, const Parameters& iParameters) {
    assert(Util::isValid(obs));
    float pdf = getCdf(obs, iEnsMean, iEnsFrac, iParameters);
+   if(!Util::isValid(pdf))
+      return Util::MV;
    return log(pdf);
 }
 
-- 
2.43.0


From 61868350be13402f54dc1d65b09136bceb7282df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 42/50] fix: gradient leaves missing values and land fractions
 out

---
 src/client/Downscaler/Gradient.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 95fd4bc..ba61cff 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -199,14 +199,14 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
                      }
-                     if(value > max)
+                     if(Util::isValid(max) && value > max)
                         value = max;
-                     if(value < min)
+                     if(Util::isValid(min) && value < min)
                         value = min;
                   }
                   ofield(i,j,e)  = value;
@@ -307,11 +307,9 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
             float currLaf  = iLafs[ii][jj];
             float currElev = iElevs[ii][jj];
             float currValue = iField(ii,jj,e);
-            if(Util::isValid(currValue)) {
+            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                numSeaPoints += currLaf < 0.5;
                numPoints++;
-            }
-            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                if(!Util::isValid(minLaf) || currLaf < minLaf) {
                   minLaf = currLaf;
                   minElev = currElev;
@@ -411,7 +409,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
             float x = iElevs[ii][jj];
             float y = iGfield(ii,jj,e);
             float currLaf = iLafs[ii][jj];
-            if(mLogTransform) {
+            if(mLogTransform && Util::isValid(y)) {
                y = log(y);
             }
             if(Util::isValid(x) && Util::isValid(y) &&(!Util::isValid(currLaf) || currLaf >= mMinLafForElevGradient)) {
-- 
2.43.0


From ea0c8fc9d95044472ec7cf10e644d65dc7d7e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 43/50] fix: coastal gives a missing value when a parameter is
 missing

---
 src/client/Calibrator/Coastal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index f6d0356..68b085c 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -81,10 +81,10 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
 
-               // The corrected value is missing, if the value it is based on is missing
+               // The corrected value is missing, if the value it is based on or a parameter is missing
                float baseValue = mUseNN ? nearestNeighbour : lowerValue;
                float value = Util::MV;
-               if(Util::isValid(baseValue))
+               if(Util::isValid(baseValue) && Util::isValid(a) && Util::isValid(b) && Util::isValid(c))
                   value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
-- 
2.43.0


From a377baf3e8017c1ce3acbf0357ed43bb3884b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 44/50] fix: oi leaves missing observations out when they are
 transformed

---
 src/client/Calibrator/Oi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 65643a5..7a815aa 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -242,9 +242,14 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
       }
       Parameters parameters = iParameterFile->getParameters(0, gLocations[i]);
       assert(parameters.size() > 0);
-      gObs[i] = transform(parameters[0]);
-      if(parameters.size() == 2)
-         gCi[i] = parameters[1];
+      gObs[i] = Util::isValid(parameters[0]) ? transform(parameters[0]) : Util::MV;
+      if(parameters.size() == 2) {
+         // An observation without an error variance cannot be used
+         if(Util::isValid(parameters[1]))
+            gCi[i] = parameters[1];
+         else
+            gObs[i] = Util::MV;
+      }
       if(parameters.size() == 3)
          gRadarL[i] = parameters[2];
 
-- 
2.43.0


From af1c2aef9a4498dec14f7ef9855b8369e5950e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 45/50] fix: calc_gradient rejects an unknown gradient type

---
 src/api/calc_gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 2961d09..4d1c9ba 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -122,5 +122,8 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
             }
         }
     }
+    else {
+        throw std::invalid_argument("Unknown gradient type");
+    }
     return output;
 }
-- 
2.43.0


From 95a66eb85d37e0ac7667fd211f0bb8633be01ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 46/50] fix: downscale_probability rejects an unknown
 comparison operator

---
 src/api/downscale_probability.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index 421e88f..965a8de 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -7,6 +7,8 @@ using namespace gridpp;
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
     if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
         throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
+    if(comparison_operator != gridpp::Lt && comparison_operator != gridpp::Leq && comparison_operator != gridpp::Gt && comparison_operator != gridpp::Geq)
+        throw std::invalid_argument("Unknown comparison operator");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
     vec2 iInputLats = igrid.get_lats();
-- 
2.43.0


From de28f626f447b9adc3ca3101f5b736ca8dfc9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 47/50] fix: mask_threshold_downscale rejects an unknown
 comparison operator

---
 src/api/mask_threshold_downscale_consensus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index d32ba2a..9773c0b 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -19,6 +19,8 @@ namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
         if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
             throw std::invalid_argument("Both grids must be of same coordinate type (lat/lon or x/y)");
+        if(comparison_operator != gridpp::Lt && comparison_operator != gridpp::Leq && comparison_operator != gridpp::Gt && comparison_operator != gridpp::Geq)
+            throw std::invalid_argument("Unknown comparison operator");
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
         vec2 iInputLats = igrid.get_lats();
-- 
2.43.0


From e38a651d5c588caf04eb24293c2b8b8db39c4cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 48/50] fix: mask_threshold_downscale_consensus rejects a
 quantile without a level

---
 src/api/mask_threshold_downscale_consensus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 9773c0b..3ccea01 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -9,6 +9,8 @@ namespace{
 }
 
 vec2 gridpp::mask_threshold_downscale_consensus(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic) {
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use mask_threshold_downscale_quantile for computing quantiles");
     return ::mask_threshold_downscale(igrid, ogrid, ivalues_true, ivalues_false, threshold_values, threshold, comparison_operator, statistic, 0);
 }
 vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const float quantile) {
-- 
2.43.0


From 72c64926f77bc775c966529f238d6bb5e7bcbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 49/50] fix: neighbourhood_brute_force rejects a quantile
 without a level

---
 src/api/neighbourhood.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4792f73..0ddfc79 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -524,9 +524,13 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     return output;
 }
 vec2 gridpp::neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic) {
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
     return ::neighbourhood_brute_force(input, halfwidth, statistic, 0);
 }
 vec2 gridpp::neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
     return ::neighbourhood_brute_force(input, halfwidth, statistic, 0);
 }
 vec2 gridpp::neighbourhood_quantile(const vec2& input, float quantile, int halfwidth) {
-- 
2.43.0


From 78379d357e7a7e209f20c1ba0a1ca7126ffb5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 50/50] fix: get_statistic knows the variance

---
 src/api/gridpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/gridpp.cpp b/src/api/gridpp.cpp
index fee9882..64111b5 100644
--- a/src/api/gridpp.cpp
+++ b/src/api/gridpp.cpp
@@ -28,6 +28,9 @@ gridpp::Statistic gridpp::get_statistic(std::string name) {
     else if(name == "std") {
         type = gridpp::Std;
     }
+    else if(name == "variance") {
+        type = gridpp::Variance;
+    }
     else if(name == "sum") {
         type = gridpp::Sum;
     }
-- 
2.43.0

