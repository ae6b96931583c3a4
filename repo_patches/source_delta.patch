From 1e5b6d44112cef00e703322458f179a94eed214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 01/25] fix: Closest() must not drop points before it has
 collected count of them

A point farther away than everything seen so far was skipped even while fewer
than count points had been collected, so the result depended on the order of
the input and could hold fewer than count points.
---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..1404084 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -88,7 +88,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From 7c96d6db1e0ec94f92453693a341f4c8aa100032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 02/25] fix: Closest() must reject duplicates of a point that
 is exactly at the target

With d == 0 the strict comparison never holds, so two vertices on top of each
other (as seen by the viewer) used up two of the count points.
---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 1404084..58c8913 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -94,7 +94,7 @@ std::vector<Eigen::RowVector2d> Closest(
     // (if so; reject it).
     auto r = c.equal_range(d);
     auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+      return (p - i.second).squaredNorm() <= d * .01;
     };
     if (std::find_if(r.first, r.second, pred) != r.second) continue;
 
-- 
2.43.0


From 0664d2c335aaaa81062df010e06564f159f1add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 03/25] fix: report why near() and center() failed

They made the whole run fail without a single diagnostic.
---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 58c8913..ae29702 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "No points for 'near' to choose from";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enough points for 'center'";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "'center' failed to find a circle";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "'center' failed to find a circle";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From f89cecc0aedf670f612b2ac32301765b2a45a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 04/25] fix: reject facets that don't have exactly 3 vertexes

Facets with fewer were read past the end of the vector, extra vertexes were
silently dropped.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..763b32f 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": facet with " << points.size()
+                   << " vertexes";
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From a8b1b29549d945044198b60b4ecd00fbcbeccbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 05/25] fix: reject scales that aren't positive

They resulted in inf and nan operands (or a mirrored drawing) in the output.
---
 stl-to-ps/stl-to-ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..c02ac28 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -669,6 +669,10 @@ bool DrawToPage::operator()(const Draw& draw) {
       SYM_ERROR(*s) << "Wrong type for scale";
       return false;
     }
+    if (scales.first <= 0 || scales.second <= 0) {
+      SYM_ERROR(*s) << "Both sides of scale must be positive";
+      return false;
+    }
   }
   proj.scale = 72.0 * scales.first / scales.second;
 
-- 
2.43.0


From b1e7002701546695d9a9c66620fa610033a767cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 06/25] fix: reject dia and rad with a 'dir' that has no length
 in the view

Dividing by its components put nan operands in the output.
---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index c02ac28..1b63571 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -268,6 +268,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must not be the zero vector (in the view)";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From 51bc13b6c4fe3ada1df107735d101d997298229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 07/25] fix: escape the formatted value of dia

The text of a dia is emitted raw, so a parenthesis or backslash in its fmt
ended the PostScript string early.
---
 stl-to-ps/stl-to-ps.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 1b63571..d5a2133 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -40,6 +40,7 @@
 #include "absl/log/log.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
 #include "re2/re2.h"
@@ -527,11 +528,15 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   ps::Text t;
   t.at = at;
   constexpr char kPsDia[] = "\\351";
-  t.str = absl::StrCat(kPsDia, absl::StrFormat(fmt, r * 2));
+  const std::string value = absl::StrFormat(fmt, r * 2);
+  // t.raw skips the normal escaping, but only kPsDia should be exempt from it.
+  t.str = absl::StrCat(
+      kPsDia, absl::StrReplaceAll(
+                  value, {{"(", "\\("}, {")", "\\)"}, {"\\", "\\\\"}}));
   t.raw = true;
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
-  t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() - 2)) / proj.scale;
+  t.at.x() += (ps::kFontSize * 0.3 * (value.length() + 2)) / proj.scale;
 
   AddText({t});
 
-- 
2.43.0


From 27f761e523fff0faca915df6b262f6b60e8e9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 08/25] fix: ignore empty entries in --load_path

An empty entry (the default value has one) made relative names resolve
against the root of the file system.
---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index d5a2133..015454a 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -135,7 +135,7 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From a34fb999af7c85a08f6da9b0ce27ff1460cd1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 09/25] fix: a model that can't be read is an error

A directory or a read error was taken for the end of the file, so an empty or
cut off model was accepted.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 763b32f..42a511d 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -130,6 +130,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": failed to read";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 28d0aa2799ea912666647585f6547a9199162ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 10/25] fix: a script that can't be read is an error

The stream buffer throws when reading fails (e.g. for a directory), which took
the process down.
---
 stl-to-ps/stl-to-ps.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 015454a..8f1d08f 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -108,7 +108,15 @@ void RenderPages(const std::string& src, const std::vector<OutputPage>& pages,
 
 bool ScriptToPS(const std::string& src, std::istream& in_orig,
                 std::ostream& out) {
-  std::string file_string(std::istreambuf_iterator<char>(in_orig), {});
+  std::string file_string;
+  char buf[4096];
+  while (in_orig.read(buf, sizeof(buf)) || in_orig.gcount() > 0) {
+    file_string.append(buf, in_orig.gcount());
+  }
+  if (in_orig.bad()) {
+    LOG(ERROR) << "Failed to read " << src;
+    return false;
+  }
 
   Document doc;
   if (int ret = Parse(src, file_string, &doc)) {
-- 
2.43.0


From bf5bae00fc89fe65cf80aeb0b036a353b00157ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 11/25] fix: report a failure to write the output

A full disk went unnoticed: the output was cut off and the exit status 0.
---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..a56bef1 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    return 1;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From bf87f3ee5b828dfb33d60531f2a2850056cd39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 12/25] fix: numbers that don't fit a float must not take the
 process down

std::stof throws for these and nothing catches it. Report them as an error,
except for the ones that are too small, which are as good as zero.
---
 stl-to-ps/lexer.l | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..a56d312 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -55,6 +58,16 @@ int stl2psget_column(stl2psscan_t scanner);
     stl2psset_column(col + yyleng, yyscanner);       \
 } while(0);
 
+// std::strtof doesn't throw for numbers that are out of range.
+#define NUM_ACTION do {                              \
+    yylval_param->fp = std::strtof(yytext, nullptr); \
+    if (!std::isfinite(yylval_param->fp)) {          \
+      stl2pserror(yyscanner);                        \
+      return 256;                                    \
+    }                                                \
+    return T::NUM;                                   \
+} while(0)
+
 extern "C" int stl2pswrap(stl2psscan_t scanner) { return 1; }
 
 void stl2pserror(stl2psscan_t scanner) {
@@ -93,8 +106,8 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?[0-9]+(\.[0-9]*)?      { NUM_ACTION; }
+[-+]?\.[0-9]+               { NUM_ACTION; }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From f55e564012cbe09c982b64b0798527967d5dafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 13/25] fix: a draw without '@' belongs at the center of the
 page

Like a text without '@' does. It was centered on the lower left corner of the
page, where most of it is cut off.
---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 8f1d08f..eae2d7e 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -721,8 +721,8 @@ bool DrawToPage::operator()(const Draw& draw) {
   if (auto at = Take("@", &seen)) {
     CHECK(at->As(&loc)) << at->type_name();
     loc *= 72.0;
-    loc += Eigen::RowVector2d{792 / 2, 612 / 2};
   }
+  loc += Eigen::RowVector2d{792 / 2, 612 / 2};
 
   // project the model.
   auto projection = file->second->Rotate(rotation);
-- 
2.43.0


From acb2a3af1919db51bd5b36db41b9dd85595c9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 14/25] fix: angles close to 0 or 180 degrees must not be shown
 as nan

Rounding can take the dot product of the directions out of acos' domain.
---
 stl-to-ps/stl-to-ps.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index eae2d7e..a2270de 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -464,7 +464,10 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Rounding can take the product of two unit vectors out of acos' domain.
+  double ang_cos =
+      std::max(-1.0, std::min(1.0, from_dir.dot(to_dir.normalized())));
+  double ang = std::acos(ang_cos) * 180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From e89954de118a9cbf2fbfcf46e919f356fb2afc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 15/25] fix: keep --name and the script's path inside their
 comments

A line break in one of them ended the comment, and the rest was PostScript
code.
---
 stl-to-ps/ps.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..18bb965 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -30,6 +30,7 @@
 #include <vector>
 
 #include "absl/flags/flag.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/substitute.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -50,6 +51,11 @@ std::string Now() {
   }();
   return ret;
 }  // namespace impl
+
+// Keep a value that goes in a comment on the line of that comment.
+std::string OneLine(const std::string& s) {
+  return absl::StrReplaceAll(s, {{"\n", " "}, {"\r", " "}, {"\f", " "}});
+}
 }  // namespace
 
 void DocumentHeader(const std::string& src, std::ostream& out) {
@@ -77,7 +83,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          impl::OneLine(absl::GetFlag(FLAGS_name)),
+                          impl::OneLine(src), impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From d421de097c8714daa73ea0cf461f5af7cb3e76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 16/25] fix: strings must not be cut off at a NUL

The token was converted to a std::string without its length, which also
dropped the last character before the NUL.
---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index a56d312..08dcfd9 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -108,7 +108,7 @@ text  return T::TEXT;
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
 [-+]?[0-9]+(\.[0-9]*)?      { NUM_ACTION; }
 [-+]?\.[0-9]+               { NUM_ACTION; }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote({yytext, static_cast<size_t>(yyleng)}); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From ff2551d631662c7f96b80d00d01c40dc8d6d3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 17/25] fix: accept the '+' and 'E' of numbers in .stl files

1.5e+02 and 1.5E2 are valid (and common) but made the whole file unreadable.
---
 stl-to-ps/stl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 42a511d..df870b8 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -96,7 +96,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Start of facet
     static const auto& re_facet = *new RE2(
-        R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
       norm = {x, y, z};
       points.clear();
@@ -121,7 +121,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     }
 
     static const auto& re_vertex = *new RE2(
-        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
       points.push_back({x, y, z});
       continue;
-- 
2.43.0


From 34b4f49068ae52e957bf445581edd8d6c33bd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 18/25] fix: reject scales that aren't whole numbers

They were silently truncated, so 2.5:1 drew at 2:1 and 1:1.5 at 1:1.
---
 stl-to-ps/parser.y | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..bdf0f25 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -30,6 +30,7 @@
 %locations
 
 %{
+#include <cmath>
 #include <math.h>
 #include <stdio.h>
 #include <string.h>
@@ -54,6 +55,16 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+bool ToInt(float f, int* i) {
+  if (!(std::abs(f) < 1e9f) || f != std::trunc(f)) return false;
+  *i = static_cast<int>(f);
+  return true;
+}
+
+bool ToScale(float l, float r, Scale* s) {
+  return ToInt(l, &s->first) && ToInt(r, &s->second);
+}
 }  // namespace
 
 %}
@@ -134,7 +145,15 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           Scale scale;
+           if (!ToScale($3, $5, &scale)) {
+             delete $1;
+             error(@3, "Both sides of a scale must be whole numbers");
+             YYABORT;
+           }
+           $$ = Meta::New<Scale>($1, scale, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From 49ba63bbb267564996b1e5ad2c1f337fe0de438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 19/25] fix: fit circles that are far from the origin precisely

---
 stl-to-ps/center.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..5172e2c 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -44,11 +44,15 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   // X^2 - 2*X*Xc + Xc^2 + Y^2 - 2*Y*Yc + Yc^2 - R^2 = 0
   // X*(Xc) + Y*(Yc) + 1/2*(R^2 - Xc^2 - Yc^2) = (X^2 + Y^2)/2
 
+  // Far from the origin these sums would lose the precision of the circle, so
+  // use one of the points as the origin.
+  const Eigen::RowVector2d origin = points[0];
+
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    const Eigen::RowVector2d p = points[i] - origin;
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -58,8 +62,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = origin.x() + res.x();
+  center->y() = origin.y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 0aa656388a809f1de2fdd7ad44d84255c5e301ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 20/25] fix: don't fit circles to points that are on a line

---
 stl-to-ps/center.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index 5172e2c..f5f3898 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -60,7 +60,13 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   }
 
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
-  Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
+  const Eigen::Matrix3d XtX = Xt * X;
+
+  // No circle goes through points that are (but for rounding) on a line.
+  const double spread = XtX(0, 0) + XtX(1, 1);
+  if (!(XtX.determinant() > 1e-12 * XtX(2, 2) * spread * spread)) return false;
+
+  Eigen::Vector3d res = XtX.inverse() * Xt * Y;
 
   center->x() = origin.x() + res.x();
   center->y() = origin.y() + res.y();
-- 
2.43.0


From c65992e5bd7a9647451d0ae28283e9baccd11552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 21/25] fix: reject angles between parallel directions despite
 rounding

---
 stl-to-ps/stl-to-ps.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index a2270de..2e1d885 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -426,7 +426,8 @@ bool DrawToPage::operator()(const Angle& dim) {
   if (!ok) return false;
 
   auto c = to_dir.cross(from_dir);
-  if (c.z() == 0) {
+  // Both are unit vectors (or zero); allow for their rounding.
+  if (std::abs(c.z()) < 1e-12) {
     SYM_ERROR(dim) << "Degenerate angle provided.";
     return false;
   }
-- 
2.43.0


From b0e5dab67b6c6694dd957243ec513a31fe44c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 22/25] fix: count columns in diagnostics from the start of
 each line alike

---
 stl-to-ps/lexer.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index 08dcfd9..5b9f370 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -110,7 +110,8 @@ text  return T::TEXT;
 [-+]?\.[0-9]+               { NUM_ACTION; }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote({yytext, static_cast<size_t>(yyleng)}); return T::STRING_LIT; }
 
-[ \t\n\r]    ;
+[ \t\r]      ;
+\n           { stl2psset_column(0, yyscanner); }
 \/\/.*      ;
 
 .      { stl2pserror(yyscanner); return 256; }
-- 
2.43.0


From 9af4696e245d60f62bee586425717d02dd5173f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 23/25] fix: don't load a file whose name only begins like the
 one asked for

---
 stl-to-ps/stl-to-ps.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 2e1d885..23dc678 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -149,7 +149,10 @@ bool LoadFiles(const Document& doc,
     }());
 
     std::ifstream model;
-    if (file.find('/') == 0) {
+    if (file.find('\0') != std::string::npos) {
+      // No file has such a name; open() would ignore what follows the NUL.
+      model.setstate(std::ios_base::failbit);
+    } else if (file.find('/') == 0) {
       model.open(file, std::ios::in);
     } else {
       for (const auto& p : load_paths) {
-- 
2.43.0


From 9dfa3e6a5939f3b11742cf0b8a8b668dd5ce4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 24/25] fix: let rules write outputs in subdirectories of the
 package

---
 stl-to-ps/rule.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/rule.bzl b/stl-to-ps/rule.bzl
index c3013cc..30497ae 100644
--- a/stl-to-ps/rule.bzl
+++ b/stl-to-ps/rule.bzl
@@ -46,7 +46,7 @@ def _stl2pdf_impl(ctx):
         arguments = [args_ps]
     )
 
-    out_pdf = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out_pdf = ctx.outputs.out
 
     args_pdf = ctx.actions.args()
     args_pdf.add(out_ps.path)
@@ -93,7 +93,7 @@ stl2pdf = rule(
 )
 
 def _scad_binary_impl(ctx):
-    out = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out = ctx.outputs.out
 
     args = ctx.actions.args()
     args.add("-o%s" % out.path)
-- 
2.43.0


From 7a5f7f6f4655601a170f2eaa5a075deee100fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:34 +0000
Subject: [PATCH 25/25] fix: don't let rounding decide what hides an edge

Edges that start or end at a face, or lie in its plane or right below its
border, were drawn though hidden, or not drawn though visible, depending on
rounding.
---
 stl-to-ps/stl.cc | 50 +++++++++++++++++++++++++++++++++++++++---------
 stl-to-ps/stl.h  |  1 +
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index df870b8..f452d49 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -46,6 +46,7 @@ constexpr double kMinLineLen = 0;
 constexpr bool show_hidden = false;
 constexpr bool show_invisible = false;
 constexpr double min_ang = .98;
+constexpr double kRounding = 1e-11;  // Relative to the size of the model.
 using std::swap;
 
 std::ostream& operator<<(std::ostream& o, const Edge& e) {
@@ -177,6 +178,13 @@ geo::Line STLFile::Limits() const {
   return {minp, maxp};
 }
 
+double STLFile::Rounding() const {
+  double size = 0;
+  for (const auto& f : facets)
+    for (const auto& e : f.edge) size = std::max(size, e.cwiseAbs().maxCoeff());
+  return size * kRounding;
+}
+
 std::vector<geo::Line> STLFile::ToLines() const {
   // At this point, edges[:unseen] are line to be draw.
   ////////////// Start looking for hidden section.
@@ -187,6 +195,8 @@ std::vector<geo::Line> STLFile::ToLines() const {
   // Find intersections of lines
   std::vector<std::map<int, Eigen::RowVector3d>> hidden_by_edge = EdgeCrosses();
 
+  const double slack = Rounding();
+
   //       edge hidden    from/to
   std::map<int, std::vector<Edge>> edge_hides_list;
   for (int fi = 0; fi < int(facets.size()); fi++) {
@@ -195,6 +205,10 @@ std::vector<geo::Line> STLFile::ToLines() const {
     const auto e01 = f.edge[1] - f.edge[0];
     const auto e12 = f.edge[2] - f.edge[1];
     const auto e20 = f.edge[0] - f.edge[2];
+    // The border of a face is a part of it.
+    const double m01 = -slack * e01.norm();
+    const double m12 = -slack * e12.norm();
+    const double m20 = -slack * e20.norm();
 
     // For each visable edge, find the "first" and "last" point were the current
     // face hides the edge. Points on the edge are orderd by how close they are
@@ -209,7 +223,7 @@ std::vector<geo::Line> STLFile::ToLines() const {
       PD hidden_points[5];
       int idx = 0;
       // check if the ends of ev are hidden by f
-      if (ev.first.dot(f.norm) < f.r) {
+      if (ev.first.dot(f.norm) < f.r + slack) {
         auto v0 = ev.first - f.edge[0];
         auto v1 = ev.first - f.edge[1];
         auto v2 = ev.first - f.edge[2];
@@ -218,12 +232,12 @@ std::vector<geo::Line> STLFile::ToLines() const {
         auto x1 = e12.x() * v1.y() - e12.y() * v1.x();
         auto x2 = e20.x() * v2.y() - e20.y() * v2.x();
 
-        if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {
+        if ((x0 >= m01) && (x1 >= m12) && (x2 >= m20)) {
           hidden_points[idx++] = {ev.first, 0};
         }
       }
 
-      if (ev.second.dot(f.norm) < f.r) {
+      if (ev.second.dot(f.norm) < f.r + slack) {
         auto v0 = ev.second - f.edge[0];
         auto v1 = ev.second - f.edge[1];
         auto v2 = ev.second - f.edge[2];
@@ -232,7 +246,7 @@ std::vector<geo::Line> STLFile::ToLines() const {
         auto x1 = e12.x() * v1.y() - e12.y() * v1.x();
         auto x2 = e20.x() * v2.y() - e20.y() * v2.x();
 
-        if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {
+        if ((x0 >= m01) && (x1 >= m12) && (x2 >= m20)) {
           hidden_points[idx++] = {ev.second,
                                   (ev.first - ev.second).squaredNorm()};
         }
@@ -250,12 +264,19 @@ std::vector<geo::Line> STLFile::ToLines() const {
 
       if (idx < 2) continue;
 
+      // An edge that only touches the plane of the face isn't hidden by it.
+      if (std::none_of(hidden_points, hidden_points + idx, [&](const PD& p) {
+            return p.first.dot(f.norm) < f.r - slack;
+          })) {
+        continue;
+      }
+
       std::sort(hidden_points, hidden_points + idx,
                 [](const PD& l, const PD& r) { return l.second < r.second; });
 
       auto& p_min = hidden_points[0].first;
       auto& p_max = hidden_points[idx - 1].first;
-      if ((p_min - p_max).squaredNorm() == 0) continue;
+      if ((p_min - p_max).norm() <= slack) continue;
       CHECK(hidden_points[0].second <= hidden_points[idx - 1].second)
           << "Points out of order " << idx;
       edge_hides_list[v].emplace_back(p_min, p_max);
@@ -379,6 +400,7 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
   if (show_hidden) return hidden_by_edge;
   std::vector<std::tuple<int, int, Eigen::RowVector3d>> hidden_by_list;
   hidden_by_list.reserve(edges.size());
+  const double slack = Rounding();
 
   for (int v = 0; v < unseen; v++) {
     const auto& ev = edges[v];
@@ -391,21 +413,31 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       // dv.y * j + -du.y * i = eu.first.y-ev.first.y;
       // [[j][i]] = [[-du.y, du.x][-dv.y, dv.x]] * [[x][y]]/ det
 
+      // Edges that are parallel but for rounding don't cross.
+      auto cross = du.x() * dv.y() - dv.x() * du.y();
+      if (cross * cross <= kRounding * kRounding *
+                               du.head<2>().squaredNorm() *
+                               dv.head<2>().squaredNorm()) {
+        continue;
+      }
+
       // Matrix inversion
-      auto det = 1 / (du.x() * dv.y() - dv.x() * du.y());
+      auto det = 1 / cross;
       auto x = eu.first.x() - ev.first.x();
       auto y = eu.first.y() - ev.first.y();
       auto j = (-du.y() * x + du.x() * y) * det;
       auto i = (-dv.y() * x + dv.x() * y) * det;
 
-      if (!(0 <= i && i <= 1 && 0 <= j && j <= 1)) {
+      // An edge that starts or ends on another one crosses it as well.
+      if (!(-kRounding <= i && i <= 1 + kRounding &&  //
+            -kRounding <= j && j <= 1 + kRounding)) {
         continue;
       }
       auto pu = eu.first + du * i;
       auto pv = ev.first + dv * j;
 
-      if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
-      if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);
+      if (pu.z() <= pv.z() + slack) hidden_by_list.emplace_back(u, v, pu);
+      if (pv.z() <= pu.z() + slack) hidden_by_list.emplace_back(v, u, pv);
     }
   }
   for (const auto& h : hidden_by_list) {
diff --git a/stl-to-ps/stl.h b/stl-to-ps/stl.h
index 6cb63f0..e4706fd 100644
--- a/stl-to-ps/stl.h
+++ b/stl-to-ps/stl.h
@@ -74,6 +74,7 @@ class STLFile {
  private:
   void Index();
   std::vector<std::map<int, Eigen::RowVector3d>> EdgeCrosses() const;
+  double Rounding() const;  // How far points may be off due to rounding.
 
   std::vector<Facet> facets;
   std::vector<Edge> edges;                    // All edges w/o dupes
-- 
2.43.0

