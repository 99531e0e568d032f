From 5c5a05bc49df66bedc39d2008046a40986bd8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 01/40] fix: neighbourhood_quantile_fast: do not share the
 current quantile between threads

With a quantile field, curr_quantile was declared outside the parallel loop, so
one thread could compute its value with another thread's quantile.
---
 src/api/neighbourhood.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..75a1118 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -362,11 +362,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -478,11 +477,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
-- 
2.43.0


From a8e3f7bb648c60842c85a35ac0b64bb3aabae0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 02/40] fix: window: do not read before the start of the counts
 array

When a window starts at the first column, counts[start - 1] was read with
start == 0, i.e. whatever lies before the array on the heap.
---
 src/api/window.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..95d58c6 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -68,6 +68,11 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
+                // Number of valid values before the window
+                float counts_before = 0;
+                if(start - 1 >= 0)
+                    counts_before = counts[start - 1];
+
                 if(start - 1 >= 0) {
                     if(counts[end] - counts[start-1] != 0) {
                         output[y][x] = values[end] - values[start - 1];
@@ -80,16 +85,16 @@ vec2 gridpp::window(const vec2& array,
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = counts[end] - counts_before;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
                         if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                            output[y][x] = output[y][x] / (counts[end] - counts_before);
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(counts[end] - counts_before < (end - (start - 1 ))) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 62d507d2b4e1341eb8435feda43569d5ca3a7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 03/40] fix: smart: do not look at neighbours when there are
 none

---
 src/api/smart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..b6ec7d7 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -45,7 +45,7 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
+            assert(rhos.empty() || rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From 58b519edbb44c8bb5ebe35ae7dae1804e64de310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 04/40] fix: optimal_interpolation_ensi_multi: size the
 observation arrays by the number of observations

The ensemble perturbations at the observations were stored in arrays with one
row per grid point, so more observations than grid points wrote past the end.
---
 src/api/oi_ensi_multi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..5dbfa34 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -418,8 +418,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
-    // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -953,8 +953,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 03fc2c7fdc1f85fa7897dfc7e591fa3045a8a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 05/40] fix: DownscalerBilinear::getI and getJ return a value

Both ran off the end of a bool function, which is undefined; optimised
builds loop forever or crash in the client's bilinear downscaler.
---
 src/client/Downscaler/Bilinear.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..c886543 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -474,6 +474,7 @@ bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2)
          I2 = I + 1;
       }
    }
+   return true;
 }
 
 bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
@@ -498,6 +499,7 @@ bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2)
          J2 = J + 1;
       }
    }
+   return true;
 }
 std::string DownscalerBilinear::description(bool full) {
    std::stringstream ss;
-- 
2.43.0


From 5040ff8566dfe46a0c9447ed3f54494b468fc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 06/40] fix: client downscalers: read the input field as it was
 when input and output are the same file

---
 src/client/Downscaler/Bilinear.cpp         | 2 +-
 src/client/Downscaler/Gradient.cpp         | 4 ++--
 src/client/Downscaler/NearestNeighbour.cpp | 2 +-
 src/client/Downscaler/Pressure.cpp         | 2 +-
 src/client/Downscaler/Smart.cpp            | 2 +-
 src/client/Downscaler/Upscale.cpp          | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index c886543..1fa3400 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -22,7 +22,7 @@ void DownscalerBilinear::downscaleCore(const File& iInput, File& iOutput) const
    Downscaler::getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
       downscaleField(ifield, ofield, ilats, ilons, olats, olons, nearestI, nearestJ);
    }
diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..1ee0298 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -87,9 +87,9 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
    getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
-      Field& gfield = *iInput.getField(mElevGradientVariableName, t);
+      const Field gfield = *iInput.getField(mElevGradientVariableName, t);
 
       vec2 elevsInterp;
       vec2 lafsInterp;
diff --git a/src/client/Downscaler/NearestNeighbour.cpp b/src/client/Downscaler/NearestNeighbour.cpp
index 81a147c..c3247aa 100644
--- a/src/client/Downscaler/NearestNeighbour.cpp
+++ b/src/client/Downscaler/NearestNeighbour.cpp
@@ -22,7 +22,7 @@ void DownscalerNearestNeighbour::downscaleCore(const File& iInput, File& iOutput
    getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
 
       #pragma omp parallel for
diff --git a/src/client/Downscaler/Pressure.cpp b/src/client/Downscaler/Pressure.cpp
index ae6d06f..826d783 100644
--- a/src/client/Downscaler/Pressure.cpp
+++ b/src/client/Downscaler/Pressure.cpp
@@ -27,7 +27,7 @@ void DownscalerPressure::downscaleCore(const File& iInput, File& iOutput) const
    getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
 
       #pragma omp parallel for
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 81a9b7c..de383fd 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -25,7 +25,7 @@ void DownscalerSmart::downscaleCore(const File& iInput, File& iOutput) const {
    getSmartNeighbours(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
 
       #pragma omp parallel for
diff --git a/src/client/Downscaler/Upscale.cpp b/src/client/Downscaler/Upscale.cpp
index 3aed55d..2dfeaf8 100644
--- a/src/client/Downscaler/Upscale.cpp
+++ b/src/client/Downscaler/Upscale.cpp
@@ -40,7 +40,7 @@ void DownscalerUpscale::downscaleCore(const File& iInput, File& iOutput) const {
    searchTree.getNearestNeighbour(iInput, I, J);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      const Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
 
       #pragma omp parallel for
-- 
2.43.0


From 090de8c62a510cbecc9f8ab7d039a4200f129312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 07/40] fix: coastal calibrator: read neighbours from the
 uncalibrated field

---
 src/client/Calibrator/Coastal.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..8902ca6 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      // The neighbourhood must be read from the uncalibrated field
+      const Field input = *field;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +54,17 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = input(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = input(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = input(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
-- 
2.43.0


From a61107c965101b0479cdf1fdd3726fcdc21dfb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 08/40] fix: gaussian calibrator: read the neighbourhood from
 the uncalibrated field

---
 src/client/Calibrator/Gaussian.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..509e8bc 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      // The neighbourhood must be read from the uncalibrated field
+      const Field input = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +57,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = input(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
-- 
2.43.0


From 8d17a0b4234c5685ca02f7b80c19c7d323bb1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 09/40] fix: text, point and QNH outputs: fail when the file
 cannot be opened or written

---
 src/client/File/NorcomQnh.cpp | 6 ++++++
 src/client/File/Point.cpp     | 6 ++++++
 src/client/File/Text.cpp      | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index 02fe294..18c3d15 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -84,6 +84,9 @@ FieldPtr FileNorcomQnh::getFieldCore(const Variable& iVariable, int iTime) const
 
 void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
    std::ofstream ofs(getFilename().c_str());
+   if(!ofs.good()) {
+      Util::error("Could not open file '" + getFilename() + "' for writing");
+   }
    if(iVariables.size() == 0) {
       Util::warning("No variables to write");
       return;
@@ -135,6 +138,9 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
       ofs << std::setfill('0') << std::setw(4) << std::right << valueHpa << " HPA" << "\r" << std::endl;
    }
    ofs.close();
+   if(!ofs.good()) {
+      Util::error("Could not write to file '" + getFilename() + "'");
+   }
 }
 
 std::string FileNorcomQnh::getNorcomTimeStamp(time_t iUnixTime) const {
diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..c2afd6a 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -133,6 +133,9 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
 
 void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
    std::ofstream ofs(getFilename().c_str());
+   if(!ofs.good()) {
+      Util::error("Could not open file '" + getFilename() + "' for writing");
+   }
    if(iVariables.size() == 0) {
       Util::warning("No variables to write");
       return;
@@ -150,6 +153,9 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
       }
    }
    ofs.close();
+   if(!ofs.good()) {
+      Util::error("Could not write to file '" + getFilename() + "'");
+   }
 }
 
 std::string FilePoint::description() {
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index eb9790d..93624d5 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -130,6 +130,9 @@ FieldPtr FileText::getFieldCore(const Variable& iVariable, int iTime) const {
 
 void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
    std::ofstream ofs(getFilename().c_str());
+   if(!ofs.good()) {
+      Util::error("Could not open file '" + getFilename() + "' for writing");
+   }
    if(iVariables.size() == 0) {
       Util::warning("No variables to write");
       return;
@@ -147,6 +150,9 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       }
    }
    ofs.close();
+   if(!ofs.good()) {
+      Util::error("Could not write to file '" + getFilename() + "'");
+   }
 }
 
 std::string FileText::description() {
-- 
2.43.0


From 05e382d0ca39e0050c029382a823d2ea6bb9aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 10/40] fix: netCDF outputs: fail when the file cannot be
 closed

---
 src/client/File/Netcdf.cpp          | 3 ++-
 src/client/ParameterFile/Netcdf.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..3a1f511 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -224,7 +224,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
 }
 
 FileNetcdf::~FileNetcdf() {
-   nc_close(mFile);
+   int status = nc_close(mFile);
+   handleNetcdfError(status, "could not close file");
 }
 
 FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..ad98c84 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -198,7 +198,8 @@ ParameterFileNetcdf::ParameterFileNetcdf(const Options& iOptions, bool iIsNew) :
 }
 
 ParameterFileNetcdf::~ParameterFileNetcdf() {
-   nc_close(mFile);
+   int status = nc_close(mFile);
+   handleNetcdfError(status, "could not close file");
 }
 
 int ParameterFileNetcdf::getDim(int iFile, std::string iDim) const {
-- 
2.43.0


From 667753fb55dccd59b4fad5f8e94af8bd77962bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 11/40] fix: netCDF inputs: fail when values, dimensions or
 names cannot be read

---
 src/client/File/Netcdf.cpp          | 38 ++++++++++++++++++++---------
 src/client/ParameterFile/Netcdf.cpp | 11 ++++++---
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 3a1f511..ea97f7c 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -214,6 +214,7 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
    for(int v = 0; v < numVars; v++) {
       char nameChar[10000];
       status = nc_inq_varname (mFile, vars[v], nameChar);
+      handleNetcdfError(status, "could not get name of variable");
       std::string name(nameChar);
       std::string units = getAttribute(vars[v], "units");
       std::string standardName = getAttribute(vars[v], "standard_name");
@@ -291,7 +292,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       size *= count[d];
    }
    float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   int status = nc_get_vara_float(mFile, var, start, count, values);
+   handleNetcdfError(status, "could not read variable '" + variableName + "'");
 
    float MV = getMissingValue(var);
    float offset = getOffset(var);
@@ -559,10 +561,12 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
    int numDims = getNumDims(iVar);
    if(numDims == 1) {
       int dim;
-      nc_inq_vardimid(mFile, iVar, &dim);
+      int status = nc_inq_vardimid(mFile, iVar, &dim);
+      handleNetcdfError(status, "could not get dimension");
       long size = getDimSize(dim);
       float* values = new float[size];
-      nc_get_var_float(mFile, iVar, values);
+      status = nc_get_var_float(mFile, iVar, values);
+      handleNetcdfError(status, "could not read grid values");
       // Latitude variable
       if(dim == mYDim) {
          for(int i = 0; i < getNumY(); i++) {
@@ -595,7 +599,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
       int indexY = Util::MV;
       int indexX = Util::MV;
       int dims[N];
-      nc_inq_vardimid(mFile, iVar, dims);
+      int status = nc_inq_vardimid(mFile, iVar, dims);
+      handleNetcdfError(status, "could not get dimensions");
       for(int i = 0; i < N; i++) {
          if(dims[i] == mYDim) {
             count[i] = getNumY();
@@ -609,7 +614,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
          }
          else {
             size_t dimsize = 1;
-            nc_inq_dimlen(mFile, dims[i], &dimsize);
+            int status = nc_inq_dimlen(mFile, dims[i], &dimsize);
+            handleNetcdfError(status, "could not get dimension size");
             if(dimsize > 1){
                std::stringstream ss;
                ss << "Lat/lon/elev has an extra non-singleton dimension (dim " << i << ") of length " << dimsize << ". Using index 0 to extract lat/lon/elev.";
@@ -625,7 +631,8 @@ vec2 FileNetcdf::getGridValues(int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_vara_float(mFile, iVar, start, count, values);
+      status = nc_get_vara_float(mFile, iVar, start, count, values);
+      handleNetcdfError(status, "could not read grid values");
       for(int i = 0; i < getNumY(); i++) {
          for(int j = 0; j < getNumX(); j++) {
             // Latitude dimension is ordered first
@@ -718,7 +725,8 @@ void FileNetcdf::defineAltitude() {
    if(Util::isValid(vUseDims)) {
       int N = getNumDims(vUseDims);
       int dims[N];
-      nc_inq_vardimid(mFile, vUseDims, dims);
+      int status = nc_inq_vardimid(mFile, vUseDims, dims);
+      handleNetcdfError(status, "could not get dimensions");
       for(int i = 0; i < N; i++) {
          if(dims[i] == mYDim)
             indexY = i;
@@ -768,7 +776,8 @@ void FileNetcdf::writeAltitude() const {
    int indexY = Util::MV;
    int indexX = Util::MV;
    int dims[N];
-   nc_inq_vardimid(mFile, vElev, dims);
+   int status = nc_inq_vardimid(mFile, vElev, dims);
+   handleNetcdfError(status, "could not get dimensions of altitude");
    for(int i = 0; i < N; i++) {
       if(dims[i] == mYDim) {
          count[i] = getNumY();
@@ -782,7 +791,8 @@ void FileNetcdf::writeAltitude() const {
       }
       else {
          size_t dimsize = 1;
-         nc_inq_dimlen(mFile, dims[i], &dimsize);
+         int status = nc_inq_dimlen(mFile, dims[i], &dimsize);
+         handleNetcdfError(status, "could not get dimension size");
          if(dimsize > 1){
             std::stringstream ss;
             ss << "Lat/lon/elev has an extra non-singleton dimension (dim " << i << ") of length " << dimsize << ". Using index 0 to write lat/lon/elev.";
@@ -809,7 +819,7 @@ void FileNetcdf::writeAltitude() const {
          }
       }
    }
-   int status = nc_put_vara_float(mFile, vElev, start, count, values);
+   status = nc_put_vara_float(mFile, vElev, start, count, values);
    handleNetcdfError(status, "could not write altitude");
    delete[] values;
 }
@@ -852,18 +862,22 @@ int FileNetcdf::getDimSize(std::string iDim) const {
    int dim = getDim(iDim);
    size_t len = Util::MV;
    int status = nc_inq_dimlen(mFile, dim, &len);
+   handleNetcdfError(status, "could not get dimension size");
    return len;
 }
 
 int FileNetcdf::getDimSize(int iDim) const {
    size_t len = Util::MV;
    int status = nc_inq_dimlen(mFile, iDim, &len);
+   if(status != NC_EBADDIM) // A missing dimension has no size
+      handleNetcdfError(status, "could not get dimension size");
    return len;
 }
 
 int FileNetcdf::getNumDims(int iVar) const {
    int len = Util::MV;
    int status = nc_inq_varndims(mFile, iVar, &len);
+   handleNetcdfError(status, "could not get number of dimensions");
    return len;
 }
 std::string FileNetcdf::detectEnsDim() const {
@@ -1229,7 +1243,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
          Util::error(ss.str());
       }
 
-      bool status = nc_get_var_float(mFile, iVar, values);
+      int status = nc_get_var_float(mFile, iVar, values);
       handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
 
       for(int i = 0; i < numY; i++) {
@@ -1273,7 +1287,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
       }
 
       float* values = new float[numX*numY];
-      bool status = nc_get_vara_float(mFile, iVar, start, count, values);
+      int status = nc_get_vara_float(mFile, iVar, start, count, values);
       handleNetcdfError(status, "could not get data from latitude/longitude/altitude variable");
       for(int i = 0; i < numY; i++) {
          for(int j = 0; j < numX; j++) {
diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ad98c84..9b69f3f 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -250,6 +250,7 @@ bool ParameterFileNetcdf::hasVar(int iFile, std::string iVar) {
 int ParameterFileNetcdf::getDimSize(int iFile, int iDim) const {
    size_t len;
    int status = nc_inq_dimlen(iFile, iDim, &len);
+   handleNetcdfError(status, "could not get dimension size");
    return len;
 }
 
@@ -500,11 +501,11 @@ float* ParameterFileNetcdf::getNcFloats(int iFile, int iVar) {
    long size = NetcdfUtil::getTotalSize(iFile, iVar);
    assert(size > 0);
    float* values = new float[size];
-   int status = nc_get_var_float(iFile, iVar, values);
    char name[512];
-   status = nc_inq_varname(iFile, iVar, name);
+   int status = nc_inq_varname(iFile, iVar, name);
    handleNetcdfError(status, "could not get variable name");
 
+   status = nc_get_var_float(iFile, iVar, values);
    std::stringstream ss;
    ss <<  "could not retrieve values from variable '" << name << "'";
    handleNetcdfError(status, ss.str());
@@ -538,7 +539,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
       int dim = dims[0];
       long size = getDimSize(iFile, dim);
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      int status = nc_get_var_float(iFile, iVar, values);
+      handleNetcdfError(status, "could not read grid values");
       // Latitude variable
       if(dim == getLatDim(iFile)) {
          for(int i = 0; i < nLat; i++) {
@@ -590,7 +592,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      int status = nc_get_var_float(iFile, iVar, values);
+      handleNetcdfError(status, "could not read grid values");
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             // Latitude dimension is ordered first
-- 
2.43.0


From 8fbdfceb61c4f20c1ecdcfc39f3930171925f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 12/40] fix: netCDF attributes that cannot be read are not
 taken for absent ones

---
 src/client/File/Netcdf.cpp | 8 ++++++++
 src/client/NetcdfUtil.cpp  | 7 +++++++
 src/client/NetcdfUtil.h    | 2 ++
 3 files changed, 17 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index ea97f7c..fe86580 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include "../Util.h"
+#include "../NetcdfUtil.h"
 
 FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iReadOnly) : File(iFilename, iOptions),
       mInDataMode(true)
@@ -936,6 +937,7 @@ std::vector<int> FileNetcdf::getDims(int iVar) const {
 float FileNetcdf::getMissingValue(int iVar) const {
    float fillValue;
    int status = nc_get_att_float(mFile, iVar, "_FillValue", &fillValue);
+   NetcdfUtil::handleAttributeError(status, "could not read attribute '_FillValue'");
    if(status != NC_NOERR)
       fillValue  = NC_FILL_FLOAT;
    return fillValue;
@@ -956,6 +958,7 @@ void FileNetcdf::setMissingValue(int iVar, float iValue) const {
 float FileNetcdf::getScale(int iVar) const {
    float scale;
    int status = nc_get_att_float(mFile, iVar, "scale_factor", &scale);
+   NetcdfUtil::handleAttributeError(status, "could not read attribute 'scale_factor'");
    if(status != NC_NOERR)
       scale  = 1;
    return scale;
@@ -963,6 +966,7 @@ float FileNetcdf::getScale(int iVar) const {
 float FileNetcdf::getOffset(int iVar) const {
    float offset;
    int status = nc_get_att_float(mFile, iVar, "add_offset", &offset);
+   NetcdfUtil::handleAttributeError(status, "could not read attribute 'add_offset'");
    if(status != NC_NOERR)
       offset  = 0;
    return offset;
@@ -1010,6 +1014,7 @@ void FileNetcdf::setGlobalAttribute(std::string iName, std::string iValue) {
 void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
    int id;
    int status = nc_inq_attid(mFile, NC_GLOBAL, iName.c_str(), &id);
+   NetcdfUtil::handleAttributeError(status, "could not look up attribute '" + iName + "'");
    if(status == NC_NOERR) {
       size_t len;
       int status = nc_inq_attlen(mFile, NC_GLOBAL, iName.c_str(), &len);
@@ -1038,6 +1043,7 @@ void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
 void FileNetcdf::prependGlobalAttribute(std::string iName, std::string iValue) {
    int id;
    int status = nc_inq_attid(mFile, NC_GLOBAL, iName.c_str(), &id);
+   NetcdfUtil::handleAttributeError(status, "could not look up attribute '" + iName + "'");
    if(status == NC_NOERR) {
       size_t len;
       int status = nc_inq_attlen(mFile, NC_GLOBAL, iName.c_str(), &len);
@@ -1073,6 +1079,7 @@ std::string FileNetcdf::getAttribute(int iVar, std::string iName) {
    std::string ret = "";
    int id;
    int status = nc_inq_attid(mFile, iVar, iName.c_str(), &id);
+   NetcdfUtil::handleAttributeError(status, "could not look up attribute '" + iName + "'");
    if(status == NC_NOERR) {
       size_t len;
       int status = nc_inq_attlen(mFile, iVar, iName.c_str(), &len);
@@ -1100,6 +1107,7 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
    std::string ret = "";
    int id;
    int status = nc_inq_attid(mFile, NC_GLOBAL, iName.c_str(), &id);
+   NetcdfUtil::handleAttributeError(status, "could not look up attribute '" + iName + "'");
    if(status == NC_NOERR) {
       size_t len;
       int status = nc_inq_attlen(mFile, NC_GLOBAL, iName.c_str(), &len);
diff --git a/src/client/NetcdfUtil.cpp b/src/client/NetcdfUtil.cpp
index 8ac1d97..53d2e24 100644
--- a/src/client/NetcdfUtil.cpp
+++ b/src/client/NetcdfUtil.cpp
@@ -4,6 +4,7 @@
 float NetcdfUtil::getMissingValue(int iFile, int iVar) {
    float fillValue;
    int status = nc_get_att_float(iFile, iVar, "_FillValue", &fillValue);
+   handleAttributeError(status, "could not read attribute '_FillValue'");
    if(status != NC_NOERR)
       fillValue  = NC_FILL_FLOAT;
    return fillValue;
@@ -42,3 +43,9 @@ void NetcdfUtil::handleNetcdfError(int status, std::string message) {
       Util::error(ss.str());
    }
 }
+
+void NetcdfUtil::handleAttributeError(int status, std::string message) {
+   // An attribute that is absent (or not a number) is not an error
+   if(status != NC_ENOTATT && status != NC_ECHAR && status != NC_ERANGE)
+      handleNetcdfError(status, message);
+}
diff --git a/src/client/NetcdfUtil.h b/src/client/NetcdfUtil.h
index 1b697a8..d3d1a8a 100644
--- a/src/client/NetcdfUtil.h
+++ b/src/client/NetcdfUtil.h
@@ -9,5 +9,7 @@ class NetcdfUtil {
       static float getMissingValue(int iFile, int iVar);
       static long  getTotalSize(int iFile, int iVar);
       static void handleNetcdfError(int status, std::string message="");
+      //! Handles errors except those that mean that the attribute is absent or has another type
+      static void handleAttributeError(int status, std::string message="");
 };
 #endif
-- 
2.43.0


From 8fb7f7212373e0882787939f91a41a6b93f0ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 13/40] fix: netCDF parameter file: do not close a file that
 could not be opened

---
 src/client/ParameterFile/Netcdf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index 9b69f3f..94fde8e 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -273,7 +273,8 @@ bool ParameterFileNetcdf::isValid(std::string iFilename) {
 
    int file;
    int status = nc_open(iFilename.c_str(), NC_NOWRITE, &file);
-   nc_close(file);
+   if(status == NC_NOERR)
+      nc_close(file);
    return status == NC_NOERR;
 }
 
-- 
2.43.0


From efa41f2142d5a475d763dada1e31003b2f833fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 14/40] fix: netCDF outputs: report errors when a classic file
 is flushed

---
 src/client/File/Netcdf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index fe86580..ce31f3d 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -524,6 +524,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       }
       delete[] values;
    }
+
+   // Errors when flushing a classic file are not reported by nc_close
+   int status = nc_sync(mFile);
+   handleNetcdfError(status, "could not write to file");
 }
 
 
-- 
2.43.0


From c4cee4956a73374c56345317a885546e2a1f5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 15/40] fix: text and point inputs: fail when the file cannot
 be opened or read

---
 src/client/File/File.cpp  |  2 +-
 src/client/File/Point.cpp | 20 +++++++++++++++++---
 src/client/File/Point.h   |  3 ++-
 src/client/File/Text.cpp  |  5 ++++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..19b6dc9 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -43,7 +43,7 @@ File* File::getScheme(std::string iFilename, const Options& iOptions, bool iRead
       return new FileNetcdf(iFilename, iOptions, iReadOnly);
    }
    else if(type == "point") {
-      return new FilePoint(iFilename, iOptions);
+      return new FilePoint(iFilename, iOptions, iReadOnly);
    }
    else if(type == "text") {
       return new FileText(iFilename, iOptions);
diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index c2afd6a..f8ecf4e 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -2,10 +2,11 @@
 #include <math.h>
 #include <assert.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <fstream>
 #include "../Util.h"
 
-FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
+FilePoint::FilePoint(std::string iFilename, const Options& iOptions, bool iReadOnly) :
       File(iFilename, iOptions) {
    float lat,lon,elev;
    if(!iOptions.getValue("lat", lat)) {
@@ -51,6 +52,11 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
 
    // Determine time and ensemble dimension if possible
    std::ifstream ifs(getFilename().c_str());
+   mHasData = ifs.good();
+   if(!mHasData && (iReadOnly || errno != ENOENT)) {
+      // Only a file used for output does not need to exist
+      Util::error("Could not open file '" + getFilename() + "'");
+   }
    if(ifs.good()) {
       while(ifs.good()) {
          char line[10000];
@@ -67,6 +73,9 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
             }
          }
       }
+      if(ifs.bad()) {
+         Util::error("Could not read file '" + getFilename() + "'");
+      }
    }
 
    // Otherwise get the time or ensemble dimension from options
@@ -78,9 +87,8 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
       for(int i = 0; i < numTimes; i++)
          times.push_back(i);
    }
-
    // Check that we got time and ensemble dimension
-   if(!Util::isValid(numTimes)) {
+   else if(times.size() == 0) {
       Util::error("Missing 'time' option for empty file '" + iFilename + "'");
    }
    if(!Util::isValid(mNEns)) {
@@ -94,6 +102,9 @@ FilePoint::~FilePoint() {
 
 FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
    std::ifstream ifs(getFilename().c_str());
+   if(mHasData && !ifs.good()) {
+      Util::error("Could not open file '" + getFilename() + "'");
+   }
    FieldPtr field = getEmptyField();
 
    int row = 0;
@@ -127,6 +138,9 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
       row++;
    }
 
+   if(ifs.bad()) {
+      Util::error("Could not read file '" + getFilename() + "'");
+   }
    ifs.close();
    return field;
 }
diff --git a/src/client/File/Point.h b/src/client/File/Point.h
index e9e2390..05819e4 100644
--- a/src/client/File/Point.h
+++ b/src/client/File/Point.h
@@ -10,11 +10,12 @@
 //! and the second column is the forecast value.
 class FilePoint : public File {
    public:
-      FilePoint(std::string iFilename, const Options& iOptions);
+      FilePoint(std::string iFilename, const Options& iOptions, bool iReadOnly=false);
       ~FilePoint();
       static std::string description();
       std::string name() const {return "point";};
    protected:
+      bool mHasData; // Is there a file to read fields from?
       FieldPtr getFieldCore(const Variable& iVariable, int iTime) const;
       void writeCore(std::vector<Variable> iVariables, std::string iMessage="");
       bool hasVariableCore(const Variable& iVariable) const {return true;};
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 93624d5..ae7ae7e 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -11,7 +11,7 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
-      return;
+      Util::error("Could not open file '" + getFilename() + "'");
    }
    std::set<int> timesSet;
    std::set<Location> locationsSet;
@@ -71,6 +71,9 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
          locationsSet.insert(location);
       }
    }
+   if(ifs.bad()) {
+      Util::error("Could not read file '" + getFilename() + "'");
+   }
    ifs.close();
 
    std::vector<double> times(timesSet.begin(), timesSet.end());
-- 
2.43.0


From 1b9a84dc377ad557d680d426d302ba14c1b4b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 16/40] fix: text parameter file: fail when it cannot be opened
 or read

---
 src/client/ParameterFile/Text.cpp | 9 ++++++++-
 src/client/ParameterFile/Text.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..e78c7a4 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -7,13 +7,15 @@
 #include <fstream>
 #include <algorithm>
 
-ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : ParameterFile(iOptions, iIsNew) {
+ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : ParameterFile(iOptions, iIsNew),
+      mIsRead(iIsNew) {
    if(iIsNew)
       return;
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
       return;
    }
+   mIsRead = true;
    int numParameters = Util::MV;
    int counter = 0;
    std::set<int> times;
@@ -120,6 +122,9 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
          }
       }
    }
+   if(ifs.bad()) {
+      Util::error("Could not read parameters from '" + mFilename + "'");
+   }
    ifs.close();
 
    // Check header
@@ -161,6 +166,8 @@ bool ParameterFileText::isValid(std::string iFilename) {
 }
 
 bool ParameterFileText::isReadable() const {
+   if(!mIsRead)
+      return false;
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
       return false;
diff --git a/src/client/ParameterFile/Text.h b/src/client/ParameterFile/Text.h
index 40061e2..c5c6067 100644
--- a/src/client/ParameterFile/Text.h
+++ b/src/client/ParameterFile/Text.h
@@ -36,5 +36,6 @@ class ParameterFileText : public ParameterFile {
       std::string name() const {return "text";};
    private:
       std::vector<int> mTimes;
+      bool mIsRead; // Could the file be opened when reading parameters?
 };
 #endif
-- 
2.43.0


From b09303231cc4174d728d05898ec10ee18aea43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 17/40] fix: options: do not ignore failed allocations when
 parsing values

---
 src/client/Options.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/Options.h b/src/client/Options.h
index b69b5d0..5a798cb 100644
--- a/src/client/Options.h
+++ b/src/client/Options.h
@@ -29,6 +29,7 @@ class Options {
       //! @param iKey cannot be ""
       template <class T> void addOption(std::string iKey, T iValue) {
          std::stringstream ss;
+         ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
          ss << iValue;
          std::string value = ss.str();
          addOption(iKey, value);
@@ -52,6 +53,7 @@ class Options {
             std::string value = mPairs[i].second;
             if(key == iKey) {
                std::stringstream ss(value);
+               ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
                ss >> iValue;
                mHasBeenAccessed.insert(iKey);
                return true;
@@ -86,12 +88,14 @@ class Options {
             if(key == iKey) {
                std::string values = mPairs[i].second;
                std::stringstream ss(values);
+               ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
                // Parse collection of attributes separated by commas
                while(ss) {
                   std::string betweenComma;
                   if(!getline(ss, betweenComma, ','))
                      break; // We're at the end of the line
                   std::stringstream ss2(betweenComma);
+                  ss2.exceptions(std::stringstream::badbit);
                   T value;
                   ss2 >> value;
                   iValues.push_back(value);
-- 
2.43.0


From f06983ac9b1276d89891d437751be55c2f462993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 18/40] fix: text files: do not ignore failed allocations when
 parsing lines

---
 src/client/File/Point.cpp         | 2 ++
 src/client/File/Text.cpp          | 1 +
 src/client/ParameterFile/Text.cpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index f8ecf4e..7cc5249 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -63,6 +63,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions, bool iReadO
          ifs.getline(line, 10000, '\n');
          if(ifs.good() && line[0] != '#') {
             std::stringstream ss(line);
+            ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
             double time;
             ss >> time;
             times.push_back(time);
@@ -113,6 +114,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
       ifs.getline(line, 10000, '\n');
       if(ifs.good() && line[0] != '#') {
          std::stringstream ss(line);
+         ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
          double time;
          ss >> time;
 
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index ae7ae7e..9c37dca 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -22,6 +22,7 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
       ifs.getline(line, 10000, '\n');
       if(ifs.good() && line[0] != '#') {
          std::stringstream ss(line);
+         ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
          // Loop over each value
          std::vector<float> currValues;
          int time;
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index e78c7a4..d88b595 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -31,6 +31,7 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
       if(ifs.good() && line[0] != '#') {
          header = std::string(line);
          std::stringstream ss(header);
+         ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
          if(columnNames.size() == 0) {
             int currCounter = 0;
             while(ss.good()) {
-- 
2.43.0


From 179e5c69ffe5c16334592e5b8ed30543dd1681ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 19/40] fix: outputs: do not ignore failed allocations when
 composing attributes and headers

---
 src/client/Driver/Gridpp.cpp  | 1 +
 src/client/File/Netcdf.cpp    | 4 ++++
 src/client/File/NorcomQnh.cpp | 1 +
 src/client/Util.cpp           | 1 +
 4 files changed, 7 insertions(+)

diff --git a/src/client/Driver/Gridpp.cpp b/src/client/Driver/Gridpp.cpp
index ac28f66..4184ac0 100644
--- a/src/client/Driver/Gridpp.cpp
+++ b/src/client/Driver/Gridpp.cpp
@@ -184,6 +184,7 @@ int main(int argc, const char *argv[]) {
       // Write to output
       double s = Util::clock();
       std::stringstream ssMessage;
+      ssMessage.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
       for(int i = 1; i < argc; i++) {
          if(i > 1)
             ssMessage << " ";
diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index ce31f3d..63eaca6 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -422,6 +422,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
       // Set the coordinate attribute based on the names of the lat lon variables
       std::stringstream ss;
+      ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
       ss << getVarName(mLonVar) << " " << getVarName(mLatVar);
       setAttribute(var, "coordinates", ss.str());
 
@@ -1024,6 +1025,7 @@ void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
       int status = nc_inq_attlen(mFile, NC_GLOBAL, iName.c_str(), &len);
       handleNetcdfError(status, "could not determine global attribute length");
       std::stringstream ss;
+      ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
       if(len > mMaxAttributeLength) {
          std::stringstream ss0;
          ss0 << "Cannot append to attribute with length greater than " << mMaxAttributeLength << ". Resetting to new value";
@@ -1054,6 +1056,7 @@ void FileNetcdf::prependGlobalAttribute(std::string iName, std::string iValue) {
       handleNetcdfError(status, "could not determine global attribute length");
 
       std::stringstream ss;
+      ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
       ss << iValue;
       if(len > mMaxAttributeLength) {
          std::stringstream ss0;
@@ -1208,6 +1211,7 @@ void FileNetcdf::defineGlobalAttributes(std::string iMessage) {
    if(getGlobalAttribute("Conventions") != "")
       setGlobalAttribute("Conventions", "CF-1.0");
    std::stringstream ss;
+   ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
    ss << Util::getCurrentTimeStamp() << ": gridpp " << iMessage;
    prependGlobalAttribute("history", ss.str());
 }
diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index 18c3d15..f97b085 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -147,6 +147,7 @@ std::string FileNorcomQnh::getNorcomTimeStamp(time_t iUnixTime) const {
    int date = Util::getDate(iUnixTime);
    int time = Util::getTime(iUnixTime);
    std::stringstream ss;
+   ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
    int day = date % 100;
    int HHMM = time / 100;
    ss << std::setfill('0') << std::right << std::setw(2) << day;
diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..56a3386 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -210,6 +210,7 @@ std::string Util::getCurrentTimeStamp() {
     // boost::gregorian::date today = boost::gregorian::day_clock::universal_day();
     boost::posix_time::ptime today = boost::posix_time::second_clock::universal_time();
     std::stringstream ss;
+    ss.exceptions(std::stringstream::badbit); // Do not ignore failed allocations
     ss << std::setfill('0') << std::setw(4) << today.date().year() << "-"
        << std::setfill('0') << std::setw(2) << today.date().month() << "-"
        << std::setfill('0') << std::setw(2) << today.date().day() << " "
-- 
2.43.0


From f5673703e035406e948d462f0f077d2fee79f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 20/40] fix: File::getField: keep the fields added for other
 times

---
 src/client/File/File.cpp | 18 ++++++++++--------
 src/client/File/File.h   |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 19b6dc9..ec29ab7 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -110,18 +110,12 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
          addField(getFieldCore(iVariable, iTime), iVariable, iTime);
       }
       else if (iSkipRead) {
-         for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
-         }
+         addEmptyFields(iVariable);
       }
       else {
          std::string variableType = iVariable.name();
          Util::warning(variableType + " not available in '" + getFilename() + "'");
-         for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
-         }
+         addEmptyFields(iVariable);
       }
    }
    if(mFields[iVariable].size() <= iTime) {
@@ -164,6 +158,14 @@ void File::addField(FieldPtr iField, const Variable& iVariable, int iTime) const
    mFields[iVariable][iTime] = iField;
 }
 
+void File::addEmptyFields(const Variable& iVariable) const {
+   for(int t = 0; t < getNumTime(); t++) {
+      // Do not overwrite fields that have been added for other times
+      if(mFields[iVariable][t] == NULL)
+         addField(getEmptyField(), iVariable, t);
+   }
+}
+
 bool File::hasSameDimensions(const File& iOther) const {
    if(getNumY() == iOther.getNumY()
          && getNumX() == iOther.getNumX()
diff --git a/src/client/File/File.h b/src/client/File/File.h
index c8f2cc5..97a7d8f 100644
--- a/src/client/File/File.h
+++ b/src/client/File/File.h
@@ -108,6 +108,8 @@ class File {
       mutable Uuid mTag;
       void createNewTag() const;
       FieldPtr getEmptyField(int nY, int nX, int nEns, float iFillValue=Util::MV) const;
+      // Add an empty field for each time without a field
+      void addEmptyFields(const Variable& iVariable) const;
       double mReferenceTime;
       std::vector<double> mTimes;
       static Uuid mNextTag;
-- 
2.43.0


From 16d2ecaf76d64c38fa77d1de4b8ca6d6c279a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 21/40] fix: ParameterFile::recomputeTree: do not keep the
 locations of the previous tree

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..d1bbda7 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
-- 
2.43.0


From ddbe5bae0a4ff1ff2795499e4086a40ba97b1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 22/40] fix: text parameter file: write the whole header on the
 first line

---
 src/client/ParameterFile/Text.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index d88b595..58de21a 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -189,12 +189,14 @@ void ParameterFileText::write(const std::string& iFilename) const {
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
-   for(int i = 0; i < getNumParameters(); i++) {
+      ofs << "time";
+   int numParameters = getNumParameters();
+   for(int i = 0; i < numParameters; i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
-- 
2.43.0


From 9d2a064cb5f292d0184dccb157e29572556bb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 23/40] fix: text parameter file: write values with all their
 digits

---
 src/client/ParameterFile/Text.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 58de21a..131a419 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -6,6 +6,7 @@
 #include <set>
 #include <fstream>
 #include <algorithm>
+#include <limits>
 
 ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : ParameterFile(iOptions, iIsNew),
       mIsRead(iIsNew) {
@@ -185,6 +186,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
    if(!ofs.good()) {
       Util::error("Cannot write parameters to " + filename);
    }
+   ofs.precision(std::numeric_limits<float>::max_digits10); // Enough digits to read back the same values
 
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
-- 
2.43.0


From 7ade374d685cd0a9f6c028672f947a2afbe2c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 24/40] fix: text parameter file: fail when it cannot be
 written in full

---
 src/client/ParameterFile/Text.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 131a419..932c5dc 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -219,6 +219,9 @@ void ParameterFileText::write(const std::string& iFilename) const {
       }
    }
    ofs.close();
+   if(!ofs.good()) {
+      Util::error("Could not write parameters to " + filename);
+   }
 }
 
 bool ParameterFileText::isLocationDependent() const {
-- 
2.43.0


From a14793901ab7e44d92d2749b96b2333635b3871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 25/40] fix: netCDF outputs: round values that are stored as
 integers

---
 src/client/File/Netcdf.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 63eaca6..0038767 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -482,6 +482,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
          float offset = getOffset(var);
          float scale = getScale(var);
+         nc_type type;
+         int status = nc_inq_vartype(mFile, var, &type);
+         handleNetcdfError(status, "could not get type of variable " + variableName);
+         bool isFloatingPoint = type == NC_FLOAT || type == NC_DOUBLE;
          FieldPtr field = getField(variable, t);
          if(field != NULL) { // TODO: Can't be null if coming from reference
             std::vector<int> countVector(count, count + dims.size());
@@ -514,12 +518,15 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      }
                      else {
                         value = (value - offset)/scale;
+                        // Conversion to integers by the netCDF library does not round
+                        if(!isFloatingPoint)
+                           value = round(value);
                      }
                      values[i] = value;
                   }
                }
             }
-            int status = nc_put_vara_float(mFile, var, start, count, values);
+            status = nc_put_vara_float(mFile, var, start, count, values);
             handleNetcdfError(status, "could not write variable " + variableName);
          }
       }
-- 
2.43.0


From 0f4f3876bd48ad0750a599960d71fad61e994ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 26/40] fix: text files: write every location in the format
 that is read

The writer left out the location columns and all but the first location, so
that the file it wrote could not be read again.
---
 src/client/File/Text.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 9c37dca..2aab45a 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -141,16 +141,25 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       Util::warning("No variables to write");
       return;
    }
+   vec2 lats = getLats();
+   vec2 lons = getLons();
+   vec2 elevs = getElevs();
    for(int i = 0; i < getNumTime(); i++) {
-      ofs.precision(0);
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
-         ofs << (long) getTimes()[i];
-         ofs.precision(2);
-         for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+         for(int y = 0; y < getNumY(); y++) {
+            for(int x = 0; x < getNumX(); x++) {
+               ofs << (long) getTimes()[i];
+               ofs << std::defaultfloat;
+               ofs.precision(9); // Enough digits to get the same location back
+               ofs << " " << lats[y][x] << " " << lons[y][x] << " " << elevs[y][x];
+               ofs.precision(2);
+               for(int e = 0; e < getNumEns(); e++) {
+                  ofs << std::fixed << " " << (*field)(y,x,e);
+               }
+               ofs << std::endl;
+            }
          }
-         ofs << std::endl;
       }
    }
    ofs.close();
-- 
2.43.0


From 9e0b947934adb87a864383f86c964b974fbdb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 27/40] fix: point files: find the row of a timestep by its
 time

Rows start with the time of the forecast, not with its number, so that all
values of a file with UNIX times were read as missing.
---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 7cc5249..34b3e50 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -118,7 +118,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
          double time;
          ss >> time;
 
-         if(time == iTime) {
+         if(time == getTimes()[iTime]) {
             double value;
             int e = 0;
             while(ss >> value) {
-- 
2.43.0


From 1351ba3ce0a0ccb1d7e33b64a1b8adb1ed31d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 28/40] fix: point files: read fields before the file is
 overwritten

Fields that were not cached were read from the file after it was truncated.
---
 src/client/File/Point.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 34b3e50..10bcb6b 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -148,6 +148,11 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
 }
 
 void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
+   // Fields that are not cached must be read before the file is overwritten
+   std::vector<FieldPtr> fields;
+   for(int i = 0; i < getNumTime() && iVariables.size() > 0; i++) {
+      fields.push_back(getField(iVariables[0], i));
+   }
    std::ofstream ofs(getFilename().c_str());
    if(!ofs.good()) {
       Util::error("Could not open file '" + getFilename() + "' for writing");
@@ -158,7 +163,7 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
    }
    for(int i = 0; i < getNumTime(); i++) {
       ofs.precision(0);
-      FieldPtr field = getField(iVariables[0], i);
+      FieldPtr field = fields[i];
       if(field != NULL) {
          ofs << (long) getTimes()[i];
          ofs.precision(2);
-- 
2.43.0


From aef6a7d7c047c193aca73b693c6fa27c2d40eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 29/40] fix: text files: keep what is stored apart from the
 fields handed out

---
 src/client/File/Text.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 2aab45a..963feb7 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -129,7 +129,8 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 }
 
 FieldPtr FileText::getFieldCore(const Variable& iVariable, int iTime) const {
-   return mLocalFields[iTime];
+   // The caller may change the field, which must not change what is stored
+   return FieldPtr(new Field(*mLocalFields[iTime]));
 }
 
 void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
@@ -144,6 +145,7 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
    vec2 lats = getLats();
    vec2 lons = getLons();
    vec2 elevs = getElevs();
+   std::vector<FieldPtr> written(getNumTime());
    for(int i = 0; i < getNumTime(); i++) {
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
@@ -160,12 +162,14 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
                ofs << std::endl;
             }
          }
+         written[i] = FieldPtr(new Field(*field));
       }
    }
    ofs.close();
    if(!ofs.good()) {
       Util::error("Could not write to file '" + getFilename() + "'");
    }
+   mLocalFields = written;
 }
 
 std::string FileText::description() {
-- 
2.43.0


From 8cfb7b9e30a875217a7a503e926a8489f07b817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 30/40] fix: kriging: do not share the cross-validation inverse
 between threads

---
 src/client/Calibrator/Kriging.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..5a8562e 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -295,6 +295,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
             // Don't use the nearest station when cross validating
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
+            vec2 cvInverse; // Each gridpoint has its own, the shared one is used by all threads
             if(mCrossValidate) {
                for(int ii = 0; ii < currS.size(); ii++) {
                   if(!Util::isValid(ImaxCovar) || currS[ii] > maxCovar) {
@@ -309,8 +310,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +321,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From 8b9b638d22c7e8ec16cdb805c8744d9bd8fc28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 31/40] fix: zaga calibrator: read the neighbourhood from the
 uncalibrated fields

---
 src/client/Calibrator/Zaga.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..e9fb131 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -61,8 +61,11 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
    }
 
    std::vector<FieldPtr> precips;
+   // The neighbourhood must be read from the uncalibrated fields
+   std::vector<Field> inputs;
    for(int t = 0; t < nTime; t++) {
       precips.push_back(iFile.getField(mVariable, t));
+      inputs.push_back(*precips[t]);
    }
 
    // Loop over offsets
@@ -121,9 +124,9 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& input = inputs[tt];
 
-                           float value = precip(ii,jj,e);
+                           float value = input(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
                               total += value;
                            }
-- 
2.43.0


From 5d6015e919c8589c0b237589e0955992ecc721ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 32/40] fix: optimal_interpolation_full: set the analysis
 variance when there are no observations

---
 src/api/oi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..d0c0453 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -186,8 +186,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
-- 
2.43.0


From 29185f857f7250503dc8f234dfd0fc634fa2051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 33/40] fix: text parameter file: keep the location when its
 elevation is missing

---
 src/client/ParameterFile/Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 932c5dc..25d641a 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -106,7 +106,7 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
             }
             times.insert(time);
             Location location(Util::MV, Util::MV, Util::MV);
-            if(Util::isValid(lat) && Util::isValid(lon) && Util::isValid(elev)) {
+            if(Util::isValid(lat) && Util::isValid(lon)) { // The elevation can be missing
                location = Location(lat, lon, elev);
             }
 
-- 
2.43.0


From 6bdebc003c6b91eb38710af1d1c15239a78c1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 34/40] fix: KDTree: find the nearest neighbour across the date
 line and at high latitudes

---
 src/client/KDTree.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..d84555b 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -1,6 +1,25 @@
 #include "KDTree.h"
 
 #include <limits>
+#include <algorithm>
+#include <math.h>
+
+namespace {
+   // Longitudes are stored and looked up in [-180, 180), so that nearby points have either similar
+   // longitudes or are on different sides of the date line
+   float normalizeLon(float lon) {
+      return lon - 360 * floor((lon + 180) / 360);
+   }
+
+   // Shortest distance from a point to any point on a meridian
+   float getDistanceToMeridian(float lat, float lon, float meridian) {
+      double latr = Util::deg2rad(lat);
+      double dlonr = Util::deg2rad(lon - meridian);
+      if(cos(dlonr) <= 0)
+         return Util::radiusEarth * (Util::pi / 2 - fabs(latr)); // One of the poles is nearest
+      return Util::radiusEarth * asin(cos(latr) * fabs(sin(dlonr)));
+   }
+}
 
 KDTree::KDTree() : mRoot(NULL) {
 }
@@ -47,7 +66,7 @@ void KDTree::build(const vec2& iLats, const vec2& iLons) {
    for(size_t i = 0; i < iLats.size(); ++i) {
      for(size_t j = 0; j < iLats[0].size(); ++j) {
         if(Util::isValid(iLons[i][j]) && Util::isValid(iLats[i][j])) {
-           *(currLon++) = Indexed(iLons[i][j], iLats[i][j], i, j);
+           *(currLon++) = Indexed(normalizeLon(iLons[i][j]), iLats[i][j], i, j);
            ++to;
         }
      }
@@ -147,7 +166,8 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // The other side starts at the longitude of this node and ends at the date line
+         cross = std::min(getDistanceToMeridian(lat, lon, currentLeaf->lon), getDistanceToMeridian(lat, lon, 180)) < currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
@@ -218,7 +238,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
       for(size_t j = 0; j < nLon; ++j) {
          if(Util::isValid(olats[i][j]) && Util::isValid(olons[i][j])) {
             // Find the nearest neighbour from input grid (ii, jj)
-            nearest = nearestNeighbour(mRoot, olons[i][j], olats[i][j], std::numeric_limits<float>::infinity()).first;
+            nearest = nearestNeighbour(mRoot, normalizeLon(olons[i][j]), olats[i][j], std::numeric_limits<float>::infinity()).first;
             iI[i][j] = nearest->ipos;
             iJ[i][j] = nearest->jpos;
          }
@@ -227,7 +247,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
 }
 
 void KDTree::getNearestNeighbour(float iLat, float iLon, int& iI, int& iJ) const {
-   const TreeNode * nearest = nearestNeighbour(mRoot, iLon, iLat, std::numeric_limits<float>::infinity()).first;
+   const TreeNode * nearest = nearestNeighbour(mRoot, normalizeLon(iLon), iLat, std::numeric_limits<float>::infinity()).first;
    iI = nearest->ipos;
    iJ = nearest->jpos;
    return;
-- 
2.43.0


From ad43ee2d5334f91b31c2215fdadfabbbc3f77312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 35/40] fix: netCDF parameter file: create the coefficient
 dimension with the name it is read by

---
 src/client/ParameterFile/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index 94fde8e..cef31f2 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -317,7 +317,7 @@ void ParameterFileNetcdf::write() const {
    int dTime = createDim(mFile, "time", nTime);
    int dLon  = createDim(mFile, "lon", nLon);
    int dLat  = createDim(mFile, "lat", nLat);
-   int dCoeff = createDim(mFile, "coeff", nCoeff);
+   int dCoeff = createDim(mFile, mDimName, nCoeff);
    int dims[4]  = {dTime, dLat, dLon, dCoeff};
    int var = Util::MV;
    int status = nc_def_var(mFile, mVarName.c_str(), NC_FLOAT, 4, dims, &var);
-- 
2.43.0


From 0ac81968d89e9ba92812cc09ec96173d5bcd3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 36/40] fix: netCDF parameter file: report errors from flushing
 the file

---
 src/client/ParameterFile/Netcdf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index cef31f2..57a077d 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -406,6 +406,10 @@ void ParameterFileNetcdf::write() const {
    double e3 = Util::clock();
    std::cout << "Writing parameters: " << e3 - e2 << std::endl;
    delete[] values;
+
+   // Errors when buffered data are flushed are not reported when the file is closed
+   status = nc_sync(mFile);
+   handleNetcdfError(status, "could not write data to disk");
 }
 
 void ParameterFileNetcdf::handleNetcdfError(int status, std::string message) const {
-- 
2.43.0


From 4272941e2dfd11938b0b10ddb4263ab1ff4f8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 37/40] fix: treat different levels of a variable as different
 fields

A file's cache was keyed by the variable's name only, so in a job that uses
two levels of one input variable the second output was given the first's level.
---
 src/client/Variable.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..e6509b1 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -2,7 +2,10 @@
 #include <sstream>
 #include "Util.h"
 
-Variable::Variable() {
+Variable::Variable():
+      mMin(Util::MV),
+      mMax(Util::MV),
+      mLevel(Util::MV) {
 }
 Variable::Variable(std::string iName, float iMin, float iMax, std::string iUnits, std::string iStandardName, int iLevel):
       mName(iName),
@@ -97,9 +100,12 @@ void Variable::add(const Options& iOptions) {
 }
 
 bool Variable::operator<(const Variable &right) const {
-   return mName < right.name();
+   // Different levels of the same variable are different fields
+   if(mName != right.mName)
+      return mName < right.mName;
+   return mLevel < right.mLevel;
 }
 
 bool Variable::operator==(const Variable &right) const {
-   return mName == right.name();
+   return mName == right.mName && mLevel == right.mLevel;
 }
-- 
2.43.0


From 3d895393ba0cd88f4eeb2ec5e658760ef1050ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 38/40] fix: oi: report when the diaFile cannot be opened or
 written

---
 src/client/Calibrator/Oi.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..7121064 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -183,6 +183,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    std::ofstream diaFile;
    if(mDiaFile != "") {
      diaFile.open(mDiaFile.c_str());
+     if(!diaFile.is_open()) {
+       Util::error("Could not open '" + mDiaFile + "' for writing");
+     }
    }
 
    // Loop over each observation, find the nearest gridpoint and place the obs into all gridpoints
@@ -1086,6 +1089,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    }
    if(mDiaFile != "") {
      diaFile.close();
+     if(diaFile.fail()) {
+       Util::error("Could not write to '" + mDiaFile + "'");
+     }
    }
    return true;
 }
-- 
2.43.0


From 9557244bf753f553f30e998b6a6fcbb68e41b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 39/40] fix: points: copies, subsets and points inside a domain
 keep the coordinate type

---
 src/api/points.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..b23a5e2 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = KDTree(mLats, mLons, other.mTree.get_coordinate_type());
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From c50e063be5b3545d3e21b8c5a843f5c56613201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 40/40] fix: points: fill in missing elevations and land
 fractions of points made from a tree

---
 src/api/points.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index b23a5e2..5e10fcb 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -35,6 +35,15 @@ gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
     mTree = tree;
     mLats = tree.get_lats();
     mLons = tree.get_lons();
+    int N = mLats.size();
+    if(mElevs.size() != 0 && mElevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size at lats/lons");
+    if(mLafs.size() != 0 && mLafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size at lats/lons");
+    if(mElevs.size() != N)
+        mElevs.resize(N, gridpp::MV);
+    if(mLafs.size() != N)
+        mLafs.resize(N, gridpp::MV);
 }
 
 int gridpp::Points::get_num_neighbours(float lat, float lon, float radius, bool include_match) const {
-- 
2.43.0

