From 541d4d4248b968fa565fa184f18ed616a8db5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:04 +0000
Subject: [PATCH 01/24] fix: elevate all interior control points of a Bezier
 segment

The loop bound in DegreeElevateBezierSegment was the degree of the spline, not of the
segment's width, so the last interior control point of every elevated segment stayed
default constructed and later showed up as NaN / zero control points.
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..2022f07 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j < width - 1; ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From d0dd79e186462e2e06963837121b35ddda123020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:37 +0000
Subject: [PATCH 02/24] fix: test the control point itself when an odd number
 of points is affected by a knot removal

With i == j the two neighbouring temporary points are not expected to coincide; if they did
(e.g. a closed control polygon) the knot was removed although the point in between was far
outside the tolerance.
---
 src/spl/b_spline.h | 2 +-
 src/spl/nurbs.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..681c57a 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -222,7 +222,7 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..d843b13 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From f62d3f7533974e5e4a9183b696f4ffbef7795961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:07 +0000
Subject: [PATCH 03/24] fix: do not remove a NURBS knot when the reduced
 weights make the test undefined

A vanishing intermediate weight makes the distance NaN; the knot was then reported as removed
and the spline was left with NaN control points.
---
 src/spl/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index d843b13..51fc52d 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
@@ -429,7 +429,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From fcf70d601caf205393c5ba04d562743689df3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 04/24] fix: keep the knot position in sync when degree
 reduction removes a knot completely

RemoveBezierKnots stepped over a knot that no longer existed and read past the end of the
knot vector (and skipped the following interior knot).
---
 src/spl/spline.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 2022f07..e192492 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -310,13 +310,11 @@ class Spline {
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
     auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
-                 util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
-      }
+    for (size_t current_knot_span = 0; current_knot_span < diff.size(); ++current_knot_span) {
+      ParamCoord knot = GetKnotVector(dimension)->GetKnot(current_knot);
+      RemoveKnot(knot, dimension, util::NumericSettings<double>::kEpsilon(),
+                 static_cast<size_t>(diff[current_knot_span]));
+      current_knot += GetKnotVector(dimension)->GetMultiplicity(knot);
     }
   }
 
-- 
2.43.0


From b093ea115b4938f7dc3d11872e3c7ae21876e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 05/24] fix: refuse to reduce the degree of a linear spline

For degree 1 DegreeReduceBezierSegment accessed control point -1 and the control points were
distributed with a division by zero.
---
 src/spl/spline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index e192492..5d393b8 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -227,6 +227,7 @@ class Spline {
   }
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
+    if (GetDegree(dimension).get() < 2) return false;
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<std::vector<baf::ControlPoint>> bezier_segments;
-- 
2.43.0


From 135015a0014d5e421d61f4f1a7e061e3f89c3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:38 +0000
Subject: [PATCH 06/24] fix: do not read past the parameter data of an IGES
 surface

---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From eb338f352ed69f63ac9dd309565c8f626d16565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:38 +0000
Subject: [PATCH 07/24] fix: read numerals with an exponent but no decimal
 point, a leading point or a plus sign

---
 src/util/string_operations.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..70bfd77 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -90,12 +90,15 @@ class StringOperations {
     if (string[0] == '-') {
       sign = -1;
       string.erase(0, 1);
+    } else if (string[0] == '+') {
+      string.erase(0, 1);
     }
     std::size_t found = string.find_first_of('.');
     std::size_t exponent = string.find_first_of("Ee");
     std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
     double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
+    std::size_t end_of_integer_part = found != std::string::npos ? found : end_of_number + 1;
+    double factor = pow(10, static_cast<int>(end_of_integer_part) - 1);
     for (auto i = 0u; i <= end_of_number; ++i) {
       if (i != found) {
         result += std::stoi(string.substr(i, 1)) * factor;
-- 
2.43.0


From cfb09ced292a2442f9dd1fdfcaf2646ec70d4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 08/24] fix: compare splines geometrically on their own knot
 vector range

---
 src/spl/spline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 5d393b8..7a15a0e 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -108,8 +108,9 @@ class Spline {
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double first = GetKnotVector(dim)->GetKnot(0).get();
+        double last = GetKnotVector(dim)->GetLastKnot().get();
+        param_coord[dim] = ParamCoord(std::min(first + (last - first) / number * point_handler[dim], last));
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-- 
2.43.0


From e0532c5714c6b047897313d7e14a00ec3ef5a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 09/24] fix: refuse an empty list of control points instead of
 reading its first entry

---
 src/spl/physical_space.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..ce5f9d0 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,7 +30,8 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()),
+        number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
-- 
2.43.0


From a4d78f02564de1c255626070b64114e4abb09f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 10/24] fix: recognise the end of a string whatever precedes it

---
 src/io/executables/converter_log.cc | 10 ++++++++--
 src/util/string_operations.h        |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..abe68f4 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -22,6 +22,12 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include "system_operations.h"
 #include "vector_utils.h"
 
+namespace {
+bool IsEndOfSection(const std::string &line) {
+  return line.empty() || util::StringOperations::EndsWith(line, ":");
+}
+}  // namespace
+
 io::ConverterLog::ConverterLog() : log_file_("") {}
 
 io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
@@ -39,7 +45,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfSection(util::StringOperations::trim(line))) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +55,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfSection(util::StringOperations::trim(line))) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 70bfd77..4b86477 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -72,7 +72,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), end_of_string.length(), end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From cabba86b1f0e1037e0d0be19e4bf5fde5e737b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 11/24] fix: forget the positions of an earlier conversion

---
 src/io/executables/converter_log.cc | 2 ++
 src/io/io_converter.cc              | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index abe68f4..07c811c 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -75,6 +75,8 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
   if (positions_[0] == -1) {
     written_ = possible_positions;
   } else {
+    written_.clear();
+    not_written_.clear();
     for (const auto &pos : positions_) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..35319b9 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -100,6 +100,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
-- 
2.43.0


From 742943252901cb3d1e4559b49392321c3a9803de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:25 +0000
Subject: [PATCH 12/24] fix: project onto splines on their own knot vector
 range in every direction

---
 src/spl/projection.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..e9b9fe7 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -85,10 +85,10 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate(paramCoords, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +115,8 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0]);
+        ParamCoord coord2 = ParamCoord(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1]);
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -140,11 +140,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 15254190c2e9ab9f743a70508fd12c7284bafc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:25 +0000
Subject: [PATCH 13/24] fix: sweep along the tangent of the trajectory and over
 its own knot vector range

---
 src/spl/surface_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..8c74462 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -72,7 +72,7 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    v_i.emplace_back(ParamCoord{nurbs_T->GetKnotVector(0)->GetKnot(0).get() + i * step_size});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
@@ -169,9 +169,9 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From c788abdf67991e086c59f8b05d94cb44d3d9f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:26 +0000
Subject: [PATCH 14/24] fix: start an averaged knot vector at the first
 coordinate

---
 src/baf/knot_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..73c1b2c 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
-- 
2.43.0


From c0a835d549b9ce0a21db31bf4ebbc93515f38c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:19 +0000
Subject: [PATCH 15/24] fix: refuse negative positions when filtering a vector

---
 src/util/vector_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/vector_utils.h b/src/util/vector_utils.h
index 6ac5548..46b22c9 100644
--- a/src/util/vector_utils.h
+++ b/src/util/vector_utils.h
@@ -69,10 +69,10 @@ class VectorUtils {
   static std::vector<T> FilterVector(const std::vector<T> &input, const std::vector<int> &positions) {
     std::vector<T> output;
     for (const auto &pos : positions) {
-      if (pos < static_cast<int>(input.size())) {
+      if (pos >= 0 && pos < static_cast<int>(input.size())) {
         output.emplace_back(input[pos]);
       } else {
-        throw std::runtime_error("The vector index is too high to be filtered from the input vector.");
+        throw std::runtime_error("The vector index is out of range to be filtered from the input vector.");
       }
     }
     return output;
-- 
2.43.0


From 629d05cb5901e1c00eaf64c1edd9ce6720ed9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:46 +0000
Subject: [PATCH 16/24] fix: refuse to remove knots that are not inside the
 knot vector

---
 src/spl/spline.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 7a15a0e..49ec21b 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -190,6 +190,9 @@ class Spline {
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
     size_t count = 0;
     for (; count < multiplicity; ++count) {
+      // Only knots inside the domain that are (still) part of the knot vector can be removed.
+      if (GetKnotVector(dimension)->GetMultiplicity(knot) == 0 || GetKnotVector(dimension)->IsLastKnot(knot)
+          || knot == GetKnotVector(dimension)->GetKnot(0)) break;
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
-- 
2.43.0


From 4185312c1c3f0edd5f276c58de6623d9d649ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 17/24] fix: remove knots whose multiplicity exceeds the degree
 without reading out of bounds

---
 src/spl/b_spline.h | 6 +++++-
 src/spl/nurbs.h    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 681c57a..e461b6d 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,9 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    // A knot whose multiplicity exceeds the degree has no scaling factors.
+    double alfi = scaling.empty() ? 0 : scaling[i - off - 1];
+    if (!IsKnotRemovable(alfi, temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -223,6 +225,8 @@ class BSpline : public Spline<DIM> {
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
       if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        // The control points on both sides of a knot whose multiplicity exceeds the degree differ.
+        if (static_cast<size_t>((i - off + 1) * this->GetPointDim()) >= temp_length) return false;
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 51fc52d..11b145f 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,9 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    // A knot whose multiplicity exceeds the degree has no scaling factors.
+    double alfi = scaling.empty() ? 0 : scaling[i - off - 1];
+    if (!IsKnotRemovable(alfi, temp, temp_w, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -419,6 +421,8 @@ class NURBS : public Spline<DIM> {
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
       if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        // The control points on both sides of a knot whose multiplicity exceeds the degree differ.
+        if (static_cast<size_t>((i - off + 1) * this->GetPointDim()) >= temp_length) return false;
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 4929805f3254abcdb8740a49162ce431d156da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:39 +0000
Subject: [PATCH 18/24] fix: skip lines of an IGES file that are too short to
 belong to a section

---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index d05b984..97d2ce9 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -32,10 +32,10 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
   std::vector<std::string> directoryEntrySection;
   std::vector<std::string> parameterDataSection;
   while (getline(newFile, line)) {
-    if (line[72] == 'D') {
+    if (line.size() > 72 && line[72] == 'D') {
       directoryEntrySection.push_back(line.substr(0, 72));
     }
-    if (line[72] == 'P') {
+    if (line.size() > 72 && line[72] == 'P') {
       parameterDataSection.push_back(line.substr(0, 64));
     }
   }
-- 
2.43.0


From 1e92192912cee1c631f8270ac3ee517cd57c095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:39 +0000
Subject: [PATCH 19/24] fix: keep the entries of adjacent lines of an IRIT file
 apart

---
 src/io/irit_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..464473a 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -30,7 +30,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   std::string line;
   std::string file;
   while (getline(newFile, line)) {
-    file += line;
+    file += line + ' ';
   }
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
-- 
2.43.0


From 35ea8b0bbb34101594cb18af8da0457d96eef9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 20/24] fix: treat a log file without positions as a request
 for all splines

---
 src/io/executables/converter_log.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 07c811c..cadfd72 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -72,7 +72,7 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
-  if (positions_[0] == -1) {
+  if (positions_.empty() || positions_[0] == -1) {
     written_ = possible_positions;
   } else {
     written_.clear();
@@ -90,7 +90,7 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
 
 std::vector<std::vector<int>> io::ConverterLog::GetScattering() {
   std::vector<int> indices;
-  if (positions_[0] != -1) {
+  if (!positions_.empty() && positions_[0] != -1) {
     for (int i = 0; i < static_cast<int>(positions_.size()); ++i) {
       if (std::find(written_.begin(), written_.end(), positions_[i]) != written_.end()) {
         indices.emplace_back(i);
-- 
2.43.0


From 07ca3f33a583e898ab02f9bc8207febef62ce9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 21/24] fix: keep the last points of a VTK grid inside the
 domain in spite of rounding

---
 src/io/vtk_writer_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..0a85bc5 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_IO_VTK_WRITER_UTILS_H_
 #define SRC_IO_VTK_WRITER_UTILS_H_
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 
@@ -56,7 +57,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        coords[j] = ParamCoord(std::min(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j],
+                                        knots[j + DIM]));
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From 25292798facc2776796e91994ff150766c0fa1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 22/24] fix: keep the last station of a sweep inside the domain
 in spite of rounding

---
 src/spl/surface_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 8c74462..f7d2a81 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <utility>
 
 /* Copyright 2018 Chair for Computational Analysis of Technical Systems, RWTH Aachen University
@@ -72,7 +73,8 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{nurbs_T->GetKnotVector(0)->GetKnot(0).get() + i * step_size});
+    v_i.emplace_back(ParamCoord{std::min(nurbs_T->GetKnotVector(0)->GetKnot(0).get() + i * step_size,
+                                         nurbs_T->GetKnotVector(0)->GetLastKnot().get())});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From 3c0b6b0b48dc9b704e46d4f42e80368a1397c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 23/24] fix: keep the initial grid of a surface projection
 inside the domain in spite of rounding

---
 src/spl/projection.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index e9b9fe7..e71574a 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_SPL_PROJECTION_H_
 #define SRC_SPL_PROJECTION_H_
 
+#include <algorithm>
 #include <vector>
 
 #include "b_spline.h"
@@ -115,8 +116,10 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0],
+                                               last_knot1));
+        ParamCoord coord2 = ParamCoord(std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1],
+                                               last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
-- 
2.43.0


From b97fda2c7b5bf4141018861721a1838c6711111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 24/24] fix: accept tabs and carriage returns between the
 entries of IRIT and XML files

---
 src/util/string_operations.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 4b86477..8dccb40 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -24,7 +24,11 @@ You should have received a copy of the GNU Lesser General Public License along w
 namespace util {
 class StringOperations {
  public:
-  static std::vector<std::string> split(const std::string &string, char delimiter) {
+  // If the delimiter is a blank, tabs and carriage returns separate values as well.
+  static std::vector<std::string> split(std::string string, char delimiter) {
+    if (delimiter == ' ') {
+      std::replace_if(string.begin(), string.end(), [](char ch) { return ch == '\t' || ch == '\r'; }, ' ');
+    }
     std::stringstream ss_string(string);
     std::string current_line;
     std::string current_value;
-- 
2.43.0

