From 19568cf873f916b2401b7cf8998eee4d41e0f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 01/31] fix: reject STL facets that do not have exactly three
 vertices

A facet with fewer vertices was read past the end of its vertex list.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..d44602c 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": facet with " << points.size()
+                   << " vertexes, expected 3";
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From ef4cdfddc06fc1730f7bf5b1b89326b6477d8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 02/31] fix: don't abort on numbers that don't fit in a float

std::stof throws on overflow and underflow, and nothing catches it. Numbers
that are too small round as usual and numbers that are too big are reported as
errors.
---
 stl-to-ps/lexer.l | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..17e766b 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -29,6 +29,9 @@
 %option reentrant bison-bridge yylineno bison-locations noinput nounput
 %option prefix="stl2ps"
 %{
+#include <cmath>
+#include <cstdlib>
+
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
@@ -93,8 +96,15 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+) {
+                              // Not std::stof, that throws when out of range.
+                              yylval_param->fp  = std::strtof(yytext, nullptr);
+                              if (!std::isfinite(yylval_param->fp)) {
+                                stl2pserror(yyscanner);
+                                return 256;
+                              }
+                              return T::NUM;
+                            }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From f643b802d7b37aebed79dc5f6bd5fd79178aed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 03/31] fix: don't truncate string literals at a NUL byte

---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index 17e766b..294a0eb 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -105,7 +105,7 @@ text  return T::TEXT;
                               }
                               return T::NUM;
                             }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(std::string(yytext, yyleng)); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From d759db60997269bafb76ab8e0807df45ca3df3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 04/31] fix: count columns the same way on every line

Columns on the first line were reported 0 based but on all other lines they
were (and still are) 1 based.
---
 stl-to-ps/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.cc b/stl-to-ps/parser.cc
index aec6120..237931a 100644
--- a/stl-to-ps/parser.cc
+++ b/stl-to-ps/parser.cc
@@ -54,7 +54,7 @@ int Parse(std::string filename, const std::string& file, Document* doc) {
   stl2pslex_init(&scanner);
   auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);
   stl2psset_lineno(1, scanner);
-  stl2psset_column(0, scanner);
+  stl2psset_column(1, scanner);
   stl2psset_extra(&extra, scanner);
   int ret;
   {
-- 
2.43.0


From 0d48f80e2be8ffdbb6e074faa6bb465a6b309aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 05/31] fix: reject scales that can't be represented

A scale is a pair of ints, but its terms were silently truncated from floats.
1.5:1 was drawn as 1:1, .5:1 collapsed the drawing to a point, 1:.5 and 1:0
filled the output with NaNs and terms that don't fit in an int were undefined
behavior. A negative scale mirrored the drawing and gave negative radii.
---
 stl-to-ps/parser.y | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..9b99784 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -31,6 +31,8 @@
 
 %{
 #include <math.h>
+
+#include <cmath>
 #include <stdio.h>
 #include <string.h>
 
@@ -54,6 +56,11 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+// Can `f` be used, as is, as a part of a scale?
+bool IsScaleTerm(float f) {
+  return 1 <= f && f <= 1e9 && std::floor(f) == f;
+}
 }  // namespace
 
 %}
@@ -134,7 +141,15 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           // Scales are ints: don't truncate, overflow or divide by zero.
+           if (!IsScaleTerm($3) || !IsScaleTerm($5)) {
+             delete $1;
+             error(@3 + @5, "scale terms must be positive whole numbers");
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From 9eacb6a0310f0db59e80cc324edb561861e12e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 06/31] fix: escape the user's format in dia labels

The label is output raw because of the diameter symbol, so parentheses and
backslashes in `fmt` unbalanced the PostScript string.
---
 stl-to-ps/stl-to-ps.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..ee4b762 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -40,6 +40,7 @@
 #include "absl/log/log.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
 #include "re2/re2.h"
@@ -527,6 +528,11 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
   t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() - 2)) / proj.scale;
+  // Raw text isn't escaped when it's output.
+  t.str = absl::StrCat(
+      kPsDia, absl::StrReplaceAll(
+                  absl::StrFormat(fmt, r * 2),
+                  {{"\\", "\\\\"}, {"(", "\\("}, {")", "\\)"}}));
 
   AddText({t});
 
-- 
2.43.0


From 8d73238a15b1c6163aa48e91fe33eff29de1d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 07/31] fix: reject dia/rad with no direction rather than
 drawing NaNs

---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index ee4b762..3ca85ab 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -269,6 +269,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must not be zero in the plane of the view";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From e3cde7ce8c00eeecfc3033b812d6fda26b1b762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 08/31] fix: don't label (nearly) flat angles "nan deg"

The dot product of parallel unit vectors can round to just over 1.
---
 stl-to-ps/stl-to-ps.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 3ca85ab..7ff8fb5 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -456,7 +456,9 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Not acos, rounding can put the dot product of unit vectors outside [-1,1].
+  double ang = std::atan2(from_dir.cross(to_dir).norm(), from_dir.dot(to_dir)) *
+               180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From bce3df28f584002bc433fd0b96736faae7c66514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 09/31] fix: report why near() and center() fail, rather than
 failing silently

---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..1f15449 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "No points to be near";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enough points to find a center";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From af778a8826a9ab28b8cc49ce6c9eb99b33ebfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 10/31] fix: don't skip points while there is still room for
 them

Closest() dropped every point further out than the furthest one collected so
far even when it didn't have `count` points yet. With the points in order of
distance it only ever returned one, so dia, rad and center() failed on, or
worse picked the wrong circle for, perfectly good models.
---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 1f15449..e47275d 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -91,7 +91,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From fb458973254b9e0fd192cf5e06821691d28ebe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 11/31] fix: fail if the output can't be written

---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..4ba6551 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (out.rdstate() != std::ios_base::goodbit) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    ret = false;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From b7469915818015f3a6bb5748c9c2f2775c58f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 12/31] fix: ignore empty --load_path entries

An empty entry (the default) became the root directory, so `load X = "a.stl"`
fell back to /a.stl.
---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 7ff8fb5..7a52f37 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -135,7 +135,7 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From 3bc0fefb5d77f49d1afa35c9f911949afa5d99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 13/31] fix: fail if reading a model fails

Read errors (e.g. for a directory) were treated as the end of the file.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index d44602c..68bf685 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -130,6 +130,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << "Read failed after line " << line_number;
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 33835db75e40a21709eaf35c73994dfe4b6555cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 14/31] fix: draw dia/rad lines all the way to the arrow head

With `at` inside of a circle that has a radius over 1 the line stopped short of
the circle, leaving the arrow head detached from it.
---
 stl-to-ps/stl-to-ps.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 7a52f37..12e45e7 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -511,7 +511,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
 
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > std::max(1.0, r)) {
     Eigen::RowVector2d c = center + dir * len;
     AddLines({{b, c}, {c, at}});
   } else {
@@ -781,7 +781,7 @@ bool DrawToPage::RenderRad(std::map<std::string, Meta*>* seen, const NodeI& rad,
   // TODO, Do a better job here.
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > std::max(1.0, r)) {
     Eigen::RowVector2d b = center + dir * len;
     AddLines({{center, b}, {b, at}});
   } else {
-- 
2.43.0


From b59be9726bda34f21e61f2aa6a5d16aa59d5ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 15/31] fix: don't collect the same point twice when it's
 exactly the target

---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index e47275d..51018af 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -97,7 +97,7 @@ std::vector<Eigen::RowVector2d> Closest(
     // (if so; reject it).
     auto r = c.equal_range(d);
     auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+      return (p - i.second).squaredNorm() <= d * .01;
     };
     if (std::find_if(r.first, r.second, pred) != r.second) continue;
 
-- 
2.43.0


From 281e910b10eea42af6e23b903fcf1936bebd0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 16/31] fix: keep FindCircle accurate away from the origin

The precision of the result dropped with the fourth power of how far out the
circle is relative to its radius: a 1mm hole at (300mm,210mm) got a radius of
1.356 and further out the radius was NaN.
---
 stl-to-ps/center.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..a865baa 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -47,8 +47,10 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
+  // Work relative to one of the points. Squaring the distance to some far off
+  // origin costs more precision than is available.
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    Eigen::RowVector2d p = points[i] - points[0];
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -58,8 +60,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = res.x() + points[0].x();
+  center->y() = res.y() + points[0].y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 559fd8b07b0076668709dd65458b5c06bfc5014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 17/31] fix: don't claim FindCircle worked when the result is
 NaN or infinite

---
 stl-to-ps/center.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index a865baa..66a81bb 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -27,6 +27,7 @@
 
 #include "stl-to-ps/center.h"
 
+#include <cmath>
 #include <vector>
 
 #include "absl/strings/str_split.h"
@@ -63,7 +64,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   center->x() = res.x() + points[0].x();
   center->y() = res.y() + points[0].y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
-  return true;
+  return std::isfinite(*rad) && std::isfinite(center->x()) &&
+         std::isfinite(center->y());
 }
 
 }  // namespace stl2ps
-- 
2.43.0


From 5591117955bf63eba3a17586dfc2d86d5b154383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 18/31] fix: keep line breaks in names from ending the header's
 comments

---
 stl-to-ps/ps.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..0e9eea2 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -30,6 +30,7 @@
 #include <vector>
 
 #include "absl/flags/flag.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/substitute.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -49,8 +50,13 @@ std::string Now() {
     return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
   }();
   return ret;
+}
+
+// Anything after the end of the line isn't part of a comment any more.
+std::string OneLine(const std::string& s) {
+  return absl::StrReplaceAll(s, {{"\n", " "}, {"\r", " "}, {"\f", " "}});
+}
 }  // namespace impl
-}  // namespace
 
 void DocumentHeader(const std::string& src, std::ostream& out) {
   out << absl::Substitute(R"(% generated by stl-to-ps
@@ -77,7 +83,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          impl::OneLine(absl::GetFlag(FLAGS_name)),
+                          impl::OneLine(src), impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From 39c333eba4d89083e9562f4be259b627f4aa70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 19/31] fix: reject rather than overflow the stack on deeply
 nested functions

---
 stl-to-ps/ast.h    | 10 +++++++++-
 stl-to-ps/parser.y | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/ast.h b/stl-to-ps/ast.h
index 6d1a21c..51b6fe5 100644
--- a/stl-to-ps/ast.h
+++ b/stl-to-ps/ast.h
@@ -96,6 +96,9 @@ class Point : public NodeI {
 
   virtual void Rotate(Eigen::Matrix3d rot) = 0;
   virtual bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) = 0;
+
+  // How deeply are functions nested in this?
+  virtual int depth() const { return 0; }
 };
 
 class Val final : public Point {
@@ -127,10 +130,14 @@ std::vector<Eigen::RowVector2d> Between(
 class PointFunc final : public Point {
  public:
   PointFunc(std::unique_ptr<std::string> n, std::unique_ptr<Point> p, Loc loc)
-      : Point(loc), name_(std::move(*n)), p_(std::move(p)) {}
+      : Point(loc),
+        name_(std::move(*n)),
+        p_(std::move(p)),
+        depth_(p_ ? p_->depth() + 1 : 1) {}
 
   void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }
   bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) override;
+  int depth() const override { return depth_; }
 
  private:
   bool Near(const geo::point_set& ps, Eigen::RowVector3d* ret);
@@ -138,6 +145,7 @@ class PointFunc final : public Point {
 
   std::string name_;
   std::unique_ptr<Point> p_;
+  int depth_;
 };
 
 /////////////////////////////////
diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 9b99784..5f6f9cf 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -114,7 +114,17 @@ location : '[' NUM ',' NUM ']' { $$ = new Eigen::RowVector2d{$2, $4}; }
          ;
 
 point : '[' NUM ',' NUM ',' NUM ']' { $$ = new stl2ps::Val({$2, $4, $6}, @1); }
-      | ID '(' point ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }
+      | ID '(' point ')'
+         {
+           // Evaluating (and deleting) this uses stack space for each level.
+           if ($3->depth() >= 1000) {
+             delete $1;
+             delete $3;
+             error(@1, "functions nested too deeply");
+             YYERROR;
+           }
+           $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1);
+         }
       ;
 
 input : input model  { ($$ = $1)->Add(absl::WrapUnique($2)); }
-- 
2.43.0


From 788beee60679cfd51334d2c058ae14c455be7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 20/31] fix: use a 24 hour clock in timestamps

The 12 hour clock was used without saying am or pm.
---
 stl-to-ps/ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 0e9eea2..6f780a1 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -47,7 +47,7 @@ std::string Now() {
     absl::TimeZone tz;
     absl::LoadTimeZone("localtime", &tz);
 
-    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
+    return absl::FormatTime("%Y-%m-%d %H:%M:%S", absl::Now(), tz);
   }();
   return ret;
 }
-- 
2.43.0


From 7f5a19253454de0d2466eab38f6806869869a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 21/31] fix: produce the output file that was asked for in the
 Bazel rules

Only the basename of `out` was used, so with `out` in a subdirectory some other
file was produced and the requested one never was.
---
 stl-to-ps/rule.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/rule.bzl b/stl-to-ps/rule.bzl
index c3013cc..30497ae 100644
--- a/stl-to-ps/rule.bzl
+++ b/stl-to-ps/rule.bzl
@@ -46,7 +46,7 @@ def _stl2pdf_impl(ctx):
         arguments = [args_ps]
     )
 
-    out_pdf = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out_pdf = ctx.outputs.out
 
     args_pdf = ctx.actions.args()
     args_pdf.add(out_ps.path)
@@ -93,7 +93,7 @@ stl2pdf = rule(
 )
 
 def _scad_binary_impl(ctx):
-    out = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out = ctx.outputs.out
 
     args = ctx.actions.args()
     args.add("-o%s" % out.path)
-- 
2.43.0


From 5856ae4e5784d6677c12ff689ac0030532b96b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 22/31] fix: hide edges that start at a corner of the facet
 hiding them

Rounding could put the shared corner outside the facet and outside every
edge of it, leaving a single hidden point and so the edge fully drawn.
---
 stl-to-ps/stl.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 68bf685..c47a324 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -208,8 +208,15 @@ std::vector<geo::Line> STLFile::ToLines() const {
       using PD = std::pair<Eigen::RowVector3d, double>;
       PD hidden_points[5];
       int idx = 0;
+      // An end that is a corner of f bounds what f can hide, don't depend on how
+      // the computations for it round.
+      const auto IsCorner = [&f](const Eigen::RowVector3d& p) {
+        return p == f.edge[0] || p == f.edge[1] || p == f.edge[2];
+      };
       // check if the ends of ev are hidden by f
-      if (ev.first.dot(f.norm) < f.r) {
+      if (IsCorner(ev.first)) {
+        hidden_points[idx++] = {ev.first, 0};
+      } else if (ev.first.dot(f.norm) < f.r) {
         auto v0 = ev.first - f.edge[0];
         auto v1 = ev.first - f.edge[1];
         auto v2 = ev.first - f.edge[2];
@@ -223,7 +230,10 @@ std::vector<geo::Line> STLFile::ToLines() const {
         }
       }
 
-      if (ev.second.dot(f.norm) < f.r) {
+      if (IsCorner(ev.second)) {
+        hidden_points[idx++] = {ev.second,
+                                (ev.first - ev.second).squaredNorm()};
+      } else if (ev.second.dot(f.norm) < f.r) {
         auto v0 = ev.second - f.edge[0];
         auto v1 = ev.second - f.edge[1];
         auto v2 = ev.second - f.edge[2];
-- 
2.43.0


From abe706689de26479c38c434220d3e1c3422e3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 23/31] fix: don't take corners that only differ by rounding
 for different ones

Seen along its axis, the two rims of a bore can be the same but for
rounding. Two of the three points picked were then the same point.
---
 stl-to-ps/ast.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 51018af..dd4c372 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -28,6 +28,7 @@
 #include "stl-to-ps/ast.h"
 
 #include <cxxabi.h>
+#include <algorithm>
 #include <limits>
 #include <map>
 #include <string>
@@ -100,6 +101,13 @@ std::vector<Eigen::RowVector2d> Closest(
       return (p - i.second).squaredNorm() <= d * .01;
     };
     if (std::find_if(r.first, r.second, pred) != r.second) continue;
+    // Rounding can put points that should coincide at slightly different
+    // distances.
+    auto same = [&p](const decltype(c)::value_type& i) {
+      return (p - i.second).norm() <=
+             1e-9 * std::max(p.norm(), i.second.norm());
+    };
+    if (std::find_if(c.begin(), c.end(), same) != c.end()) continue;
 
     c.emplace(d, p);
     // If there are already more than enought points, throw out the last ones.
-- 
2.43.0


From bf062749c5265f994aa3bd1f1e0fab04dd47633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 24/31] fix: reject STL files that are cut short

---
 stl-to-ps/stl.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index c47a324..89726a5 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -73,7 +73,9 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
   std::unique_ptr<STLFile> ret{new STLFile};
 
   std::string line;
+  std::string kind;
   int line_number = 0, solid = 0, loop = 0;
+  bool in_solid = false, in_facet = false;
 
   Eigen::RowVector3d norm = geo::point::zero;
   std::vector<Eigen::RowVector3d> points;
@@ -83,7 +85,9 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Ignore
     static const auto& re_solid = *new RE2(R"( *(solid|endsolid)( .*)?)");
-    if (RE2::FullMatch(line, re_solid)) {
+    if (RE2::FullMatch(line, re_solid, &kind)) {
+      if (in_facet) break;
+      in_solid = kind == "solid";
       solid++;
       continue;
     }
@@ -98,6 +102,8 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
+      if (in_facet) break;
+      in_facet = true;
       norm = {x, y, z};
       points.clear();
       continue;
@@ -105,6 +111,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_efacet = *new RE2(R"( *endfacet *)");
     if (RE2::FullMatch(line, re_efacet)) {
+      in_facet = false;
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
@@ -134,6 +141,11 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << "Read failed after line " << line_number;
     return nullptr;
   }
+  if (in_facet || in_solid) {
+    LOG(ERROR) << line_number << ": " << (in_facet ? "facet" : "solid")
+               << " is not finished";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 1fb14e3ab61f2a8383c26eb36874f7cb2edb07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 25/31] fix: read STL numbers with a plus sign or a capital E

---
 stl-to-ps/stl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 89726a5..30a9c87 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -100,7 +100,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Start of facet
     static const auto& re_facet = *new RE2(
-        R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
       if (in_facet) break;
       in_facet = true;
@@ -128,7 +128,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     }
 
     static const auto& re_vertex = *new RE2(
-        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
       points.push_back({x, y, z});
       continue;
-- 
2.43.0


From 3cb03eac26bc37a6664d0b24b7d28654cc912f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 26/31] fix: read STL files with CRLF line ends

---
 stl-to-ps/stl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 30a9c87..0212fa7 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -82,6 +82,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
   double x, y, z;
   while (std::getline(in, line)) {
     line_number++;
+    if (!line.empty() && line.back() == '\r') line.pop_back();
 
     // Ignore
     static const auto& re_solid = *new RE2(R"( *(solid|endsolid)( .*)?)");
-- 
2.43.0


From b34bb95c6da0d158a125f6f2a857d38fb8bda407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 27/31] fix: measure the radius of an angle's arc in the plane
 of the view

---
 stl-to-ps/stl-to-ps.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 12e45e7..8729eef 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -428,7 +428,8 @@ bool DrawToPage::operator()(const Angle& dim) {
     swap(to_point, from_point);
   }
 
-  double l = (at - apex).norm();
+  // What matters is how far off the label is seen, not how deep it is.
+  double l = (at - apex).head<2>().norm();
   double gap = 2 / proj.scale;
 
   Eigen::RowVector3d fa = from_dir.normalized() / proj.scale;
-- 
2.43.0


From 3c8f13187edd2afcf1e6e8bd25b2e6b51fee133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 28/31] fix: let a page's lists grow at their own pace,
 reserving for each addition copied them every time

---
 stl-to-ps/stl-to-ps.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 8729eef..1d5c30f 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -844,9 +844,6 @@ bool DrawToPage::operator()(const Text& text) {
 
 void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {
   CHECK(current_page != nullptr);
-  current_page->lines.reserve(
-      std::max(current_page->lines.capacity(),
-               current_page->lines.size() + lines.size()));
   for (auto l : lines) {
     l.o *= proj.scale;
     l.t *= proj.scale;
@@ -859,8 +856,6 @@ void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {
 
 void DrawToPage::AddArcs(const std::vector<geo::Arc>& arcs) {
   CHECK(current_page != nullptr);
-  current_page->arcs.reserve(std::max(current_page->arcs.capacity(),
-                                      current_page->arcs.size() + arcs.size()));
   for (auto a : arcs) {
     a.center *= proj.scale;
     a.center += proj.d;
@@ -872,8 +867,6 @@ void DrawToPage::AddArcs(const std::vector<geo::Arc>& arcs) {
 
 void DrawToPage::AddText(const std::vector<ps::Text>& text) {
   CHECK(current_page != nullptr);
-  current_page->text.reserve(std::max(current_page->text.capacity(),
-                                      current_page->text.size() + text.size()));
   for (auto t : text) {
     t.at *= proj.scale;
     t.at += proj.d;
-- 
2.43.0


From 5386abca1290c70059e4d5662d74d1cd966c4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 29/31] fix: show a carriage return in a text or fmt as it is

PostScript reads a bare carriage return in a string as a line feed. Write
it as the escape \r.
---
 stl-to-ps/ps.cc        | 4 ++++
 stl-to-ps/stl-to-ps.cc | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 6f780a1..63e126e 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -152,6 +152,10 @@ void TextToPs(const std::vector<Text>& text, std::ostream& out) { //
             s.push_back('\\');
             s.push_back(c);
             break;
+
+          case '\r':  // As is, PostScript takes it for a new line.
+            s.append("\\r");
+            break;
         }
       }
     }
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 1d5c30f..711f633 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -540,7 +540,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   t.str = absl::StrCat(
       kPsDia, absl::StrReplaceAll(
                   absl::StrFormat(fmt, r * 2),
-                  {{"\\", "\\\\"}, {"(", "\\("}, {")", "\\)"}}));
+                  {{"\\", "\\\\"}, {"(", "\\("}, {")", "\\)"}, {"\r", "\\r"}}));
 
   AddText({t});
 
-- 
2.43.0


From fd9ca00ca2894818f35013cd303ef324a0956139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 30/31] fix: refuse STL files whose lines are missing, repeated
 or out of place

---
 stl-to-ps/stl.cc | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 0212fa7..78ed7c9 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -75,7 +75,16 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
   std::string line;
   std::string kind;
   int line_number = 0, solid = 0, loop = 0;
-  bool in_solid = false, in_facet = false;
+  // Each kind of line is only allowed in one place.
+  enum { kFile, kSolid, kFacet, kLoop, kLoopEnd } in_what = kFile;
+  const auto Move = [&](decltype(in_what) from, decltype(in_what) to) {
+    if (in_what != from) {
+      LOG(ERROR) << line_number << ": Unexpected line: '" << line << "'";
+      return false;
+    }
+    in_what = to;
+    return true;
+  };
 
   Eigen::RowVector3d norm = geo::point::zero;
   std::vector<Eigen::RowVector3d> points;
@@ -87,14 +96,18 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     // Ignore
     static const auto& re_solid = *new RE2(R"( *(solid|endsolid)( .*)?)");
     if (RE2::FullMatch(line, re_solid, &kind)) {
-      if (in_facet) break;
-      in_solid = kind == "solid";
+      if (!(kind == "solid" ? Move(kFile, kSolid) : Move(kSolid, kFile))) {
+        return nullptr;
+      }
       solid++;
       continue;
     }
 
     static const auto& re_oloop = *new RE2(R"( *(outer loop|endloop) *)");
-    if (RE2::FullMatch(line, re_oloop)) {
+    if (RE2::FullMatch(line, re_oloop, &kind)) {
+      if (!(kind == "endloop" ? Move(kLoop, kLoopEnd) : Move(kFacet, kLoop))) {
+        return nullptr;
+      }
       loop++;
       continue;
     }
@@ -103,8 +116,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
-      if (in_facet) break;
-      in_facet = true;
+      if (!Move(kSolid, kFacet)) return nullptr;
       norm = {x, y, z};
       points.clear();
       continue;
@@ -112,14 +124,14 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_efacet = *new RE2(R"( *endfacet *)");
     if (RE2::FullMatch(line, re_efacet)) {
-      in_facet = false;
-      if (norm == geo::point::zero) {
-        LOG(WARNING) << line_number << ": missing normal";
-        continue;
-      } else if (points.size() != 3) {
+      if (!Move(kLoopEnd, kSolid)) return nullptr;
+      if (points.size() != 3) {
         LOG(ERROR) << line_number << ": facet with " << points.size()
                    << " vertexes, expected 3";
         return nullptr;
+      } else if (norm == geo::point::zero) {
+        LOG(WARNING) << line_number << ": missing normal";
+        continue;
       } else {
         ret->facets.emplace_back(norm, points);
       }
@@ -131,6 +143,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_vertex = *new RE2(
         R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
+      if (!Move(kLoop, kLoop)) return nullptr;
       points.push_back({x, y, z});
       continue;
     }
@@ -142,9 +155,9 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << "Read failed after line " << line_number;
     return nullptr;
   }
-  if (in_facet || in_solid) {
-    LOG(ERROR) << line_number << ": " << (in_facet ? "facet" : "solid")
-               << " is not finished";
+  if (in_what != kFile) {
+    LOG(ERROR) << line_number << ": "
+               << (in_what == kSolid ? "solid" : "facet") << " is not finished";
     return nullptr;
   }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
-- 
2.43.0


From de5ee1ba00ab7bd5906a4ba87eec8a231f58efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:09 +0000
Subject: [PATCH 31/31] fix: do not take corners that are exactly as far from
 the target for the same one

---
 stl-to-ps/ast.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index dd4c372..cea03d3 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -95,14 +95,8 @@ std::vector<Eigen::RowVector2d> Closest(
     if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
-    // (if so; reject it).
-    auto r = c.equal_range(d);
-    auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() <= d * .01;
-    };
-    if (std::find_if(r.first, r.second, pred) != r.second) continue;
-    // Rounding can put points that should coincide at slightly different
-    // distances.
+    // (if so; reject it). Rounding can put points that should coincide at
+    // slightly different distances.
     auto same = [&p](const decltype(c)::value_type& i) {
       return (p - i.second).norm() <=
              1e-9 * std::max(p.norm(), i.second.norm());
-- 
2.43.0

