From 4d2ae1d19e4c13e6082f0ae666c4ceb5303ba90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 01/60] fix: expression parser misread minus signs before
 exponents, signed operands and powers

"x*2-1e-5" evaluated as x*(2-1e-5), "x-y*-z" as (x-y)*(-z), "-x^2" as (-x)^2,
and "x+1e+5" and "e-1" were rejected.
---
 src/nimble_expression_parser.h | 42 ++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..5ba4910 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -581,6 +581,27 @@ class EquationContext
     }
     return 0;
   }
+  // Moves r to the last occurrence of the sign c that is a binary operator, i.e.
+  // neither the sign of an operand nor that of an exponent such as in 1.0e-5
+  bool
+  FindBinarySign(Reader& r, char c)
+  {
+    if (!(r << c)) return false;
+    while (r.pos > 0) {
+      if (r.first[r.pos] == c) {
+        unsigned int prev = r.pos - 1;
+        while (prev > 0 && r.first[prev] == ' ') prev--;
+        char const p          = r.first[prev];
+        bool const is_operand = std::strchr("+-*/^%=<>~&|!?: ", p) == nullptr;
+        bool const is_exponent =
+            p == 'e' && prev == r.pos - 1 && prev > 0 && (IsDigit(r.first[prev - 1]) || r.first[prev - 1] == '.');
+        if (is_operand && !is_exponent) return true;
+      }
+      r.Prev('(', ')');
+    }
+    return false;
+  }
+
   RealValuedExpression*
   ParseOperation(Reader r)
   {
@@ -598,21 +619,11 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    if (FindBinarySign(r, '+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    if (FindBinarySign(r, '-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
@@ -620,6 +631,9 @@ class EquationContext
     if (r << '/')
       return mem.New<DoubleDivide>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
+    // A leading minus sign negates the power that follows it: -x^2 is -(x^2)
+    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
+
     if (r >> '^') {
       RealValuedExpression* base       = ParseEquation(r.sub(r.first, r.pos));
       Reader                power_text = r.sub(r.pos + 1, r.length);
@@ -630,8 +644,6 @@ class EquationContext
         return mem.New<DoublePow>(base, ParseEquation(power_text));
     }
 
-    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
-
     return 0;
   }
 
-- 
2.43.0


From 0a0947c61541f10500e45f151e26ad1ec9e8057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 02/60] fix: expression parser rejected operands padded with
 spaces inside parentheses

"sin( x )" and "( 2 )" were reported as unparsable.
---
 src/nimble_expression_parser.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..2b68227 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,13 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  unsigned int length;
+  do {
+    length = text.length;
+    if (text.IsEmpty()) return;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != length);
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From bf949fc6983cecc6144727dc71c9928d62d53b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 03/60] fix: expression parser read out of bounds on empty or
 malformed conditions

---
 src/nimble_expression_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 5ba4910..f317783 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -651,6 +651,7 @@ class EquationContext
   ParseBooleanExpression(Reader r)
   {
     ApplyNecessaryFormatting(r);
+    if (r.IsEmpty()) throw std::invalid_argument("Can't parse empty string as boolean");
     if (r == "true") return mem.New<BooleanConstant>(true);
     if (r == "false") return mem.New<BooleanConstant>(false);
 
@@ -695,7 +696,7 @@ class EquationContext
     }*/
 
     if (r << '=') {
-      if (r.first[r.pos - 1] == '=')
+      if (r.pos > 0 && r.first[r.pos - 1] == '=')
         return mem.New<GenericEqual<bool, double, double>>(
             ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
     }
-- 
2.43.0


From ff2f66aa6c3dd02facc375d9b384da10e1b4bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/60] fix: logical not in expressions parsed one character
 too many, so it was always rejected

---
 src/nimble_expression_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index f317783..b81a8f7 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -667,7 +667,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(1, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From 423999cd507b6f34b3fe051d61d06fc106204aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/60] fix: material line with a missing value read past its
 tokens or aborted

---
 src/nimble_material_factory_base.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..fa3062b 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -53,6 +53,21 @@
 
 namespace nimble {
 
+namespace {
+
+// A material name must be followed by key-value pairs
+void
+CheckMaterialTokens(const std::vector<std::string>& tokens, const std::string& material_parameters)
+{
+  if (tokens.size() < 3 || tokens.size() % 2 == 0) {
+    std::string errMsg = "Material parameters must be a material name followed by pairs of parameter names and values: '" +
+                         material_parameters + "'";
+    throw std::invalid_argument(errMsg);
+  }
+}
+
+}  // namespace
+
 MaterialFactoryBase::MaterialFactoryBase()
 {
   NeohookeanMaterial::register_supported_material_parameters(*this);
@@ -68,7 +83,7 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   // The first string is the material name, followed by the material properties
   // (key-value pairs)
 
-  NIMBLE_ASSERT(tokens.size() > 1);
+  CheckMaterialTokens(tokens, material_parameters);
 
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
@@ -103,7 +118,7 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   auto tokens = nimble::tokenize_string(material_parameters);
 
   // The first string is the material name, followed by the material properties (key-value pairs)
-  NIMBLE_ASSERT(tokens.size() > 1);
+  CheckMaterialTokens(tokens, material_parameters);
 
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
-- 
2.43.0


From 89034377b2886f2e5b27fe707297622f1f4cadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/60] fix: a material parameter that is not a number was
 silently taken as zero

---
 src/nimble_parser_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..c3a8d61 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -93,6 +94,7 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
+  if (ss.fail()) throw std::invalid_argument("Expected a number but found '" + s + "'");
   return val;
 }
 
-- 
2.43.0


From 3576dc955ee5b83f0eda30d2a88a5796937a4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 07/60] fix: input deck reader threw on blank lines with spaces
 and empty values, and looped forever on long lines

Tabs around keys and values and carriage returns were kept, and a line of 1000
characters or more left the stream in a failed state that is never eof.
---
 src/nimble_parser.cc | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..dc1cdbf 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -54,6 +54,19 @@
 
 namespace nimble {
 
+namespace {
+
+std::string
+StripWhitespace(std::string const& s)
+{
+  size_t start_pos = s.find_first_not_of(" \t\r");
+  if (start_pos == std::string::npos) { return std::string(); }
+  size_t end_pos = s.find_last_not_of(" \t\r");
+  return s.substr(start_pos, end_pos - start_pos + 1);
+}
+
+}  // namespace
+
 std::string
 IOFileName(
     std::string const& serial_name,
@@ -196,9 +209,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
-  std::string delimiter(" ");
-
   std::ifstream fin;
   fin.open(file_name_.c_str());
   if (!fin.good()) {
@@ -206,29 +216,24 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
-
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
     // Strip out leading and trailing whitespace
-    if (line.size() > 0) {
-      size_t start_pos = line.find_first_not_of(" \t");
-      size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
-    }
+    line = StripWhitespace(line);
 
     if (line.size() > 0) {
       // Obtain key and value
       // Commands are delimited with a colon
-      size_t      colon_pos = line.find(":");
-      std::string key       = line.substr(0, colon_pos);
-      key                   = key.substr(key.find_first_not_of(" "), key.find_last_not_of(" ") + 1);
-      std::string value     = line.substr(colon_pos + 1, line.size());
-      value                 = value.substr(value.find_first_not_of(" "), value.find_last_not_of(" ") + 1);
+      size_t colon_pos = line.find(":");
+      if (colon_pos == std::string::npos) {
+        std::string msg = "\n**** Error in Parser::ReadFile(), missing colon in line " + line + "\n";
+        throw std::invalid_argument(msg);
+      }
+      std::string key   = StripWhitespace(line.substr(0, colon_pos));
+      std::string value = StripWhitespace(line.substr(colon_pos + 1));
 
       ParseKeyValue(key, value);
     }
-- 
2.43.0


From 226e533c6999d72ba9f56d3d805c8f9f2ac4b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/60] fix: extra spaces in an element block line became part
 of the material name

---
 src/nimble_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index dc1cdbf..e1d2903 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -173,7 +173,8 @@ BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
   size_t space_pos                 = props.find(" ");
   block_name_                      = props.substr(0, space_pos);
-  material_key_                    = props.substr(space_pos + 1, props.size());
+  size_t material_pos              = props.find_first_not_of(" ", space_pos);
+  material_key_                    = material_pos == std::string::npos ? std::string() : props.substr(material_pos);
   size_t            underscore_pos = block_name_.rfind("_");
   std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
   std::stringstream ss;
-- 
2.43.0


From b3834060b7abf09550dcf62d433747ecb2cb83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/60] fix: file names lost everything after an inner .g or .e
 and, in parallel, after a space

---
 src/nimble_parser.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index e1d2903..54ffa72 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -78,10 +78,10 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  size_t      len       = file_name.size();
+  if (len > 2 && (file_name.compare(len - 2, 2, ".g") == 0 || file_name.compare(len - 2, 2, ".e") == 0)) {
+    file_name = file_name.substr(0, len - 2);
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
@@ -94,8 +94,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
@@ -116,7 +115,9 @@ IOFileNameThreadSafe(
 
   // strip off .g or .e suffix
   size_t len = strlen(file_name);
-  if (len > 2) { file_name[len - 2] = '\0'; }
+  if (len > 2 && (strcmp(file_name + len - 2, ".g") == 0 || strcmp(file_name + len - 2, ".e") == 0)) {
+    file_name[len - 2] = '\0';
+  }
 
   // add the label, if any, to the file_name
   size_t label_len = strlen(label);
-- 
2.43.0


From f9e992e451bc542d270abe79ad4d9b43c71e47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 10/60] fix: LU decomposition swapped with a stale pivot row
 when a column had no pivot, hiding a singular matrix

---
 src/nimble_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5942007..d92527d 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1301,7 +1301,8 @@ LU_Decompose(int num_entries, Matrix& mat, int* index)
       mat(i, j) = sum;
     }
 
-    big = 0.0;
+    big  = 0.0;
+    imax = j;
     for (int i = j; i < n; ++i) {
       sum = mat(i, j);
       for (int k = 0; k < j; ++k) { sum -= mat(i, k) * mat(k, j); }
-- 
2.43.0


From bd0fecf7f7f1def3140926c7e7f6bc09867c9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 11/60] fix: logarithm of a 180 degree rotation was left unset,
 and aborted for the x axis

---
 src/nimble_utils.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index d92527d..5bd2368 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1142,21 +1142,30 @@ Log_Rotation_Pi(const ScalarT* const rotation, ScalarT* const log_rotation)
   ScalarT norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
   if (norm > 0.0) { norm = std::sqrt(norm); }
 
-  if (norm < machine_epsilon) {
-    ScalarT w[3];
-    w[0] = B[K_F_ZX];
-    w[1] = B[K_F_ZY];
-    w[2] = B[K_F_ZZ];
-
-    CrossProduct(u, w, normal);
-
-    norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-    if (norm > 0.0) { norm = std::sqrt(norm); }
-
-    NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
-                  " determine rotation vector.");
+  // the rows of B are perpendicular to the rotation axis; use the two that are furthest from parallel
+  ScalarT w[3];
+  w[0] = B[K_F_ZX];
+  w[1] = B[K_F_ZY];
+  w[2] = B[K_F_ZZ];
+
+  const ScalarT* const first_row[2]  = {u, v};
+  const ScalarT* const second_row[2] = {w, w};
+  for (int i = 0; i < 2; i++) {
+    ScalarT candidate[3];
+    CrossProduct(first_row[i], second_row[i], candidate);
+    ScalarT candidate_norm =
+        std::sqrt(candidate[0] * candidate[0] + candidate[1] * candidate[1] + candidate[2] * candidate[2]);
+    if (candidate_norm > norm) {
+      norm      = candidate_norm;
+      normal[0] = candidate[0];
+      normal[1] = candidate[1];
+      normal[2] = candidate[2];
+    }
   }
 
+  NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
+                " determine rotation vector.");
+
   normal[0] /= norm;
   normal[1] /= norm;
   normal[2] /= norm;
@@ -1216,7 +1225,7 @@ Log_Rotation(const ScalarT* const rotation, ScalarT* const log_rotation)
   if (theta == 0.0) {
     Zero_Full33(log_rotation);
   } else if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
-    //        r = log_rotation_pi(R);
+    Log_Rotation_Pi(rotation, log_rotation);
   } else {
     // r = theta / std::sin(theta) * skew(R);
     ScalarT a = theta / std::sin(theta);
-- 
2.43.0


From 07bb618ea09ce091f36fcca2c086bc860fc7c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 12/60] fix: StringsAreEqual took a string and its prefix as
 equal

---
 src/nimble_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5bd2368..400c413 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -72,7 +72,7 @@ StringsAreEqual(const char* str1, const char* str2)
   int  len1      = StringLength(str1);
   int  len2      = StringLength(str2);
   int  len       = len1 < len2 ? len1 : len2;
-  bool are_equal = true;
+  bool are_equal = (len1 == len2);
   for (int i = 0; i < len; ++i) {
     if (str1[i] != str2[i]) {
       are_equal = false;
-- 
2.43.0


From 636f76cbf7221b6ece2bd339f2f5c2b83cdef50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 13/60] fix: characteristic length ignored the box of elements
 at negative coordinates

---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..5041e54 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = -std::numeric_limits<double>::max();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From 4044bfac9246cc225681334e5df13b4064ad3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 14/60] fix: rows without entries, and the last row of a
 diagonal matrix, had wrong bounds in the sparse matrix

---
 src/nimble_linear_solver.cc | 36 +++++++++++++-----------------------
 src/nimble_linear_solver.h  |  3 ++-
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 0f8d83d..aa1d0f0 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -58,22 +58,16 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
 {
   i_index_ = i_index;
   j_index_ = j_index;
-  data_.resize(i_index.size(), 0.0);
+  data_.assign(i_index.size(), 0.0);
   int max_row = 0;
   for (auto const& i : i_index) {
     if (i > max_row) { max_row = i; }
   }
   num_rows_ = max_row + 1;
-  row_first_index_.resize(num_rows_ + 1);
-  int current_row = -1;
-  for (int i = 0; i < i_index_.size(); i++) {
-    int row = i_index_[i];
-    if (row > current_row) {
-      row_first_index_[row] = i;
-      current_row           = row;
-    }
-  }
-  row_first_index_[num_rows_] = i_index_.size();
+  // count the entries of every row, rows without entries included
+  row_first_index_.assign(num_rows_ + 1, 0);
+  for (auto const& i : i_index) { row_first_index_[i + 1] += 1; }
+  for (int row = 0; row < num_rows_; row++) { row_first_index_[row + 1] += row_first_index_[row]; }
 }
 
 void
@@ -93,22 +87,18 @@ CRSMatrixContainer::SetColumnValues(int col, double value)
 int
 CRSMatrixContainer::FindIndex(int i_index, int j_index) const
 {
-  int min        = row_first_index_[i_index];
-  int max        = row_first_index_[i_index + 1];
-  int trial      = (min + max) / 2;
-  int j_value    = j_index_[trial];
-  int max_trials = max - min;
-
-  for (int i = 0; i < max_trials; i++) {
-    if (j_value == j_index) {
+  int min = row_first_index_[i_index];
+  int max = row_first_index_[i_index + 1];
+
+  while (min < max) {
+    int trial = (min + max) / 2;
+    if (j_index_[trial] == j_index) {
       return trial;
-    } else if (j_value < j_index) {
-      min = trial;
+    } else if (j_index_[trial] < j_index) {
+      min = trial + 1;
     } else {
       max = trial;
     }
-    trial   = (min + max) / 2;
-    j_value = j_index_[trial];
   }
 
   throw std::invalid_argument("Error, CRSMatrixContainer::FindIndex() failed to find index.");
diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0c6ae96..2b7f4a9 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -133,13 +133,14 @@ class CRSMatrixContainer
     data_.resize(num_rows_);
     i_index_.resize(num_rows_);
     j_index_.resize(num_rows_);
-    row_first_index_.resize(num_rows_);
+    row_first_index_.resize(num_rows_ + 1);
     for (int i = 0; i < num_rows_; i++) {
       data_[i]            = 0.0;
       i_index_[i]         = i;
       j_index_[i]         = i;
       row_first_index_[i] = i;
     }
+    row_first_index_[num_rows_] = num_rows_;
   }
 
   void
-- 
2.43.0


From 2329e66430ea4f10611626861b0545f2a1962ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 15/60] fix: conjugate gradients reported success on a residual
 that is not a number, and failure when the last allowed iteration converged

---
 src/nimble_linear_solver.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index aa1d0f0..1da8738 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -218,9 +218,8 @@ CG_SolveSystem(
   }
 
   num_iterations = iteration;
-  bool success   = true;
-  if (iteration == max_iterations) { success = false; }
-  return success;
+  // false if not converged, which includes a residual that is not a number
+  return delta_new <= tolerance;
 }
 
 }  // namespace nimble
-- 
2.43.0


From 6a960902e51aaa6d2b50d972a3923c4a7e646034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 16/60] fix: labels that begin with ipt but carry no
 integration point number lost characters or threw

---
 src/nimble_data_utils.cc | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 79fa156..333b049 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -100,22 +100,11 @@ RemoveIntegrationPointPrefix(std::string label)
 {
   std::string stripped_label(label);
 
-  size_t pos = label.find("ipt");
-  if (pos == 0) {
-    // remove "ipt"
-    std::string temp = label.substr(3);
-    // strip off integers, they are the integration point number
-    // the initial value of 1 is for the trailing underscore
-    int  num_digits   = 1;
-    bool first_digits = true;
-    for (char& c : temp) {
-      if (first_digits && isdigit(c)) {
-        num_digits++;
-      } else {
-        first_digits = false;
-      }
-    }
-    stripped_label = temp.substr(num_digits);
+  // the prefix is "ipt", the integration point number, and an underscore
+  if (label.find("ipt") == 0) {
+    size_t pos = 3;
+    while (pos < label.size() && isdigit(static_cast<unsigned char>(label[pos]))) { pos++; }
+    if (pos > 3 && pos < label.size() && label[pos] == '_') { stripped_label = label.substr(pos + 1); }
   }
   return stripped_label;
 }
-- 
2.43.0


From 8eecd236f3bbfe0793290141bd53cb3ecdfdaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 17/60] fix: two components of a full tensor in two dimensions
 had the same label

---
 src/nimble_data_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 333b049..72366e3 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -172,7 +172,7 @@ GetComponentLabels(std::string label, Length length, int dim)
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
       labels.push_back(label + "_xy");
-      labels.push_back(label + "_xy");
+      labels.push_back(label + "_yx");
     } else if (dim == 3) {
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
-- 
2.43.0


From 83a78bd198766b8611eb268b64e6d0302781d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 18/60] fix: array view over a pointer range counted bytes
 instead of elements

---
 src/nimble.quanta.arrayview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble.quanta.arrayview.h b/src/nimble.quanta.arrayview.h
index 6b6ee02..94b80c5 100644
--- a/src/nimble.quanta.arrayview.h
+++ b/src/nimble.quanta.arrayview.h
@@ -62,7 +62,7 @@ class arrayview_t
   arrayview_t() : addr(nullptr), count(0) {}
   arrayview_t(T* addr, size_t start, size_t count) : addr(addr + start), count(count) {}
   arrayview_t(T* addr, size_t count) : addr(addr), count(count) {}
-  arrayview_t(T* begin, T* end) : addr(begin), count((size_t)end - (size_t)begin) {}
+  arrayview_t(T* begin, T* end) : addr(begin), count(static_cast<size_t>(end - begin)) {}
   arrayview_t(const arrayview_t& s) : addr(s.addr), count(s.count) {}
   arrayview_t(arrayview_t&& s) : addr(s.addr), count(s.count) {}
   arrayview_t(std::vector<T>& vect) : addr(vect.data()), count(vect.size()) {}
-- 
2.43.0


From f7fa600f670f825d53ed92a085e4d8d3f583c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 19/60] fix: node sets and side sets without one distribution
 factor per entry were read as empty

---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..1a0c74c 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From 964ecdc23b6bb9886f8d8af313397e6325f909ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 20/60] fix: blocks of a text mesh file were missing from the
 list of all blocks and their names

---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 1a0c74c..77e7483 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -385,7 +385,9 @@ GenesisMesh::ReadTextFile(std::string file_name)
       std::string       block_name;
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
+      all_block_ids_.push_back(block_id);
       block_names_[block_id]              = block_name;
+      all_block_names_[block_id]          = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
       block_elem_global_ids_[block_id]    = std::vector<int>(num_elem_in_block);
-- 
2.43.0


From a4c53d6de5106f005404234c58261b093daff08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 21/60] fix: text output lost the last digit of coordinates and
 results

---
 src/nimble_exodus_output.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 9511191..7f6a88b 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -420,7 +420,7 @@ ExodusOutput::InitializeDatabaseTextFile(
   for (int i = 0; i < num_nodes_; ++i) {
     // switch to 1-based indexing
     int global_id = node_global_ids[i] + 1;
-    output_file << std::setprecision(16) << global_id << " " << x_coord[i] << " " << y_coord[i] << " " << z_coord[i]
+    output_file << std::setprecision(17) << global_id << " " << x_coord[i] << " " << y_coord[i] << " " << z_coord[i]
                 << std::endl;
   }
 
@@ -509,7 +509,7 @@ ExodusOutput::WriteStepTextFile(
 
   // Write the time
   output_file << "time" << std::endl;
-  output_file << std::setprecision(16) << time << std::endl;
+  output_file << std::setprecision(17) << time << std::endl;
 
   // Global data
   output_file << "global_data_values" << std::endl;
@@ -518,7 +518,7 @@ ExodusOutput::WriteStepTextFile(
   // Node data
   output_file << "node_data_values" << std::endl;
   for (auto const& data : node_data) {
-    for (auto const& datum : data) { output_file << std::setprecision(16) << datum << std::endl; }
+    for (auto const& datum : data) { output_file << std::setprecision(17) << datum << std::endl; }
   }
 
   // Element data
@@ -532,7 +532,7 @@ ExodusOutput::WriteStepTextFile(
       int         block_num_elem = static_cast<int>(elem_data.at(block_id).at(j).size());
       output_file << data_name << " " << variable_index << " " << block_id << " " << block_num_elem << std::endl;
       std::vector<double> const& data = elem_data.at(block_id).at(j);
-      for (auto const& datum : data) { output_file << std::setprecision(16) << datum << std::endl; }
+      for (auto const& datum : data) { output_file << std::setprecision(17) << datum << std::endl; }
     }
     int num_derived_elem_data = derived_elem_data_names.at(block_id).size();
     for (int j = 0; j < num_derived_elem_data; ++j) {
@@ -541,7 +541,7 @@ ExodusOutput::WriteStepTextFile(
       int         block_num_elem = static_cast<int>(derived_elem_data.at(block_id).at(j).size());
       output_file << data_name << " " << variable_index << " " << block_id << " " << block_num_elem << std::endl;
       std::vector<double> const& data = derived_elem_data.at(block_id).at(j);
-      for (auto const& datum : data) { output_file << std::setprecision(16) << datum << std::endl; }
+      for (auto const& datum : data) { output_file << std::setprecision(17) << datum << std::endl; }
     }
   }
 
-- 
2.43.0


From 77ec9b9f836a9617cc3817c755297d38f7ba0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 22/60] fix: node set names were missing from the output file

---
 src/nimble_exodus_output.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 7f6a88b..7567280 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -225,6 +225,12 @@ ExodusOutput::InitializeDatabase(
     set_specs.sets_dist_fact      = node_sets_dist_fact.data();
     retval                        = ex_put_concat_sets(exodus_file_id, EX_NODE_SET, &set_specs);
     if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_concat_sets");
+
+    // Write the node set names
+    for (int id : node_set_ids) {
+      retval = ex_put_name(exodus_file_id, EX_NODE_SET, id, node_set_names[id].c_str());
+      if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_name");
+    }
   }
 
   // Write global data info
-- 
2.43.0


From 9b4caaea6468c52dd3a012ec54456b5cbc142724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 23/60] fix: initial record evaluated prescribed velocities at
 time zero instead of the initial time

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 8937894f9cbbd45085d40d22c045e7f9e071e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 24/60] fix: in parallel the reported stable time step was that
 of the first rank only

---
 src/integrators/explicit_time_integrator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..832be08 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -123,6 +123,10 @@ ExplicitTimeIntegrator::Integrate()
   model_data.ComputeLumpedMass(data_manager);
 
   double     critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  // the smallest critical time step over all ranks
+  MPI_Allreduce(MPI_IN_PLACE, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From cd380f55f73673f6cf2d049bbf315b6c1fb5b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 25/60] fix: numeric values of the input deck that are not
 numbers were silently taken as zero or truncated

---
 src/nimble_parser.cc | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 54ffa72..aff8ce3 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -44,6 +44,8 @@
 #include "nimble_parser.h"
 
 #include <algorithm>
+#include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
@@ -65,6 +67,30 @@ StripWhitespace(std::string const& s)
   return s.substr(start_pos, end_pos - start_pos + 1);
 }
 
+double
+StringToDouble(std::string const& key, std::string const& value)
+{
+  char*  end    = nullptr;
+  double number = std::strtod(value.c_str(), &end);
+  if (end == value.c_str() || *end != '\0') {
+    std::string msg = "\n**** Error in Parser::ReadFile(), value for \"" + key + "\" is not a number: " + value + "\n";
+    throw std::invalid_argument(msg);
+  }
+  return number;
+}
+
+int
+StringToInt(std::string const& key, std::string const& value)
+{
+  double number = StringToDouble(key, value);
+  if (!(number >= INT_MIN && number <= INT_MAX) || number != std::floor(number)) {
+    std::string msg =
+        "\n**** Error in Parser::ReadFile(), value for \"" + key + "\" is not an integer: " + value + "\n";
+    throw std::invalid_argument(msg);
+  }
+  return static_cast<int>(number);
+}
+
 }  // namespace
 
 std::string
@@ -282,17 +308,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::atof(value.c_str());
+    nonlinear_solver_relative_tolerance_ = StringToDouble(key, value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::atoi(value.c_str());
+    nonlinear_solver_max_iterations_ = StringToInt(key, value);
   } else if (key == "initial time") {
-    initial_time_ = std::atof(value.c_str());
+    initial_time_ = StringToDouble(key, value);
   } else if (key == "final time") {
-    final_time_ = std::atof(value.c_str());
+    final_time_ = StringToDouble(key, value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::atoi(value.c_str());
+    num_load_steps_ = StringToInt(key, value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::atoi(value.c_str());
+    output_frequency_ = StringToInt(key, value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
-- 
2.43.0


From 8b7c8361c93b334cfd8b904cc3b8519989b79be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 26/60] fix: a missing or malformed magnitude of a boundary
 condition was silently taken as zero

---
 src/nimble_boundary_condition.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index e9166c0..8bf128f 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -44,6 +44,7 @@
 #include "nimble_boundary_condition.h"
 
 #include <algorithm>
+#include <cstdlib>
 #include <sstream>
 #include <stdexcept>
 
@@ -111,7 +112,14 @@ BoundaryCondition::Initialize(
     expression_        = ExpressionParsing::BoundaryConditionFunctor(expression_string_);
   } else if (num_quotes == 0) {
     has_expression_ = false;
-    ss >> magnitude_;  // DJL valgrind complains about this
+    std::string magnitude_string;
+    ss >> magnitude_string;
+    char* end  = nullptr;
+    magnitude_ = std::strtod(magnitude_string.c_str(), &end);
+    if (end == magnitude_string.c_str() || *end != '\0') {
+      throw std::invalid_argument(
+          "Error processing boundary condition, magnitude is neither a number nor a quoted expression: " + bc_string);
+    }
   } else {
     throw std::invalid_argument("Error processing boundary condition, illegal number of quotes: " + bc_string);
   }
-- 
2.43.0


From dc420f35c9df292640c8c95230fc26c5073e9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 27/60] fix: a final time before the initial time was reported
 by the first rank only, and the others could wait for it forever

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 832be08..1f52829 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -139,7 +139,7 @@ ExplicitTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time)
         + " is less than initial time: " + std::to_string(initial_time)
         + "\n";
-- 
2.43.0


From 4664689443cfa77cbaeda6901047ad55c5980e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 28/60] fix: gather split the values of the ranks at the wrong
 places when their counts differ

---
 src/nimble.mpi.mpicontext.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index e4e4e41..eaada3f 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -214,11 +214,11 @@ class mpicontext
 
       // Step 3: Copy data from a contiguous block into a vector of vectors.
       std::vector<std::vector<int>> result(this->get_size());
-      int *                         start_iter = destination.data(), *end_iter = destination.data() + recv_counts[0];
+      int*                          start_iter = destination.data();
       for (size_t i = 0; i < result.size(); ++i) {
-        result[i]  = std::vector<int>(start_iter, end_iter);
-        start_iter = end_iter;
-        end_iter += recv_counts[i];
+        int* end_iter = start_iter + recv_counts[i];
+        result[i]     = std::vector<int>(start_iter, end_iter);
+        start_iter    = end_iter;
       }
       // Return result
       return result;
-- 
2.43.0


From 92f0c3e83c3998c41c14561e7f911216a054a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 29/60] fix: scatter sent the root's bookkeeping instead of the
 values, and gave the root nothing

---
 src/nimble.mpi.mpicontext.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index eaada3f..44ab8f3 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -250,8 +250,11 @@ class mpicontext
       std::vector<int> source_made_contiguous(std::accumulate(send_counts.begin(), send_counts.end(), 0), 0);
 
       std::partial_sum(send_counts.begin(), send_counts.end() - 1, displacements.data() + 1);
+      for (size_t i = 0; i < send_counts.size(); ++i) {
+        std::copy(source[i].begin(), source[i].end(), source_made_contiguous.data() + displacements[i]);
+      }
       MPI_Scatterv(
-          source.data(),
+          source_made_contiguous.data(),
           send_counts.data(),
           displacements.data(),
           MPI_INT,
@@ -260,6 +263,7 @@ class mpicontext
           MPI_INT,
           root,
           this->get_comm());
+      return destination;
     } else {
       int recvcount;
       MPI_Scatter(0, 0, MPI_INT, &recvcount, 1, MPI_INT, root, this->get_comm());
@@ -267,7 +271,6 @@ class mpicontext
       MPI_Scatterv(0, 0, 0, MPI_INT, recvbuff.data(), recvcount, MPI_INT, root, this->get_comm());
       return recvbuff;
     }
-    return std::vector<int>();
   }
 
   template <size_t count>
-- 
2.43.0


From 6ab47847a5e59cb2aeca4d7f98fcc8c733926e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 30/60] fix: Tpetra reduction of fields that are neither scalar
 nor vector summed the wrong entries

---
 src/nimble_tpetra_utils.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index d8681e2..63df797 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -249,16 +249,23 @@ TpetraContainer::VectorReduction(int data_dimension, double* data)
   if (data_dimension == dim_) length = VECTOR;
 
   if (length == SCALAR) {
-    // load the data into a tpetra vector
-    Teuchos::ArrayRCP<scalar_type> vec_1d_data = vec_1d_->getDataNonConst();
-    for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) { vec_1d_data[i_node] = data[i_node]; }
+    // fields that are not vectors are reduced one component at a time
+    for (int i_comp = 0; i_comp < data_dimension; i_comp++) {
+      // load the data into a tpetra vector
+      Teuchos::ArrayRCP<scalar_type> vec_1d_data = vec_1d_->getDataNonConst();
+      for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) {
+        vec_1d_data[i_node] = data[i_node * data_dimension + i_comp];
+      }
 
-    // use tpetra import/export to allreduce over the vector
-    vec_1d_one_to_one_->doExport(*vec_1d_, *export_into_vec_1d_one_to_one_, Tpetra::CombineMode::ADD);
-    vec_1d_->doImport(*vec_1d_one_to_one_, *import_from_vec_1d_one_to_one_, Tpetra::CombineMode::INSERT);
+      // use tpetra import/export to allreduce over the vector
+      vec_1d_one_to_one_->doExport(*vec_1d_, *export_into_vec_1d_one_to_one_, Tpetra::CombineMode::ADD);
+      vec_1d_->doImport(*vec_1d_one_to_one_, *import_from_vec_1d_one_to_one_, Tpetra::CombineMode::INSERT);
 
-    // copy the reduced values back into the original container
-    for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) { data[i_node] = vec_1d_data[i_node]; }
+      // copy the reduced values back into the original container
+      for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) {
+        data[i_node * data_dimension + i_comp] = vec_1d_data[i_node];
+      }
+    }
   } else if (length == VECTOR) {
     // load the data into a tpetra vector
     Teuchos::ArrayRCP<scalar_type> vec_3d_data = vec_3d_->getDataNonConst();
-- 
2.43.0


From cc6539f56b5a29020f6c077db7c33d0533cd37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 31/60] fix: largest node id read past the end on a rank
 without nodes

---
 src/nimble.mpi.reduction_utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nimble.mpi.reduction_utils.cc b/src/nimble.mpi.reduction_utils.cc
index 9641d38..f48b0c9 100644
--- a/src/nimble.mpi.reduction_utils.cc
+++ b/src/nimble.mpi.reduction_utils.cc
@@ -46,6 +46,7 @@
 #include "nimble.mpi.reduction_utils.h"
 #include "nimble_macros.h"
 
+#include <limits>
 #include <map>
 
 std::vector<int>
@@ -98,7 +99,9 @@ nimble::GetMaximumNodeId(const std::vector<int>& global_node_ids, const mpiconte
 {
   // std::cout << "GetMaximumNodeId recieved input " << global_node_ids <<
   // std::endl;
-  int my_max_node_id = *std::max_element(global_node_ids.begin(), global_node_ids.end());
+  // a rank without nodes does not contribute
+  int my_max_node_id = std::numeric_limits<int>::min();
+  for (int id : global_node_ids) my_max_node_id = std::max(my_max_node_id, id);
   int global_maximum = 0;
   MPI_Allreduce(&my_max_node_id, &global_maximum, 1, MPI_INT, MPI_MAX, context.get_comm());
   // std::cout << "Calculated global maximum to be " << global_maximum <<
-- 
2.43.0


From da3b1fb72c16a094976d19a6779d34c789ea3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 32/60] fix: contact nodes on partition boundaries were lost
 when the lowest rank holding them has no secondary face there

---
 src/nimble_contact_manager.cc | 37 ++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..ad213cd 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -230,12 +230,43 @@ ContactManager::CreateContactEntities(
   myVecComm.GetPartitionBoundaryNodeLocalIds(
       partition_boundary_node_local_ids, min_rank_containing_partition_boundary_nodes);
 
+  // A node of the secondary surface is owned by the lowest rank that has it on
+  // its part of that surface.  Other ranks, even lower ones, may hold the node
+  // without having any secondary face attached to it.
   std::vector<int> ghosted_node_local_ids;
-  for (int i = 0; i < partition_boundary_node_local_ids.size(); i++) {
-    if (min_rank_containing_partition_boundary_nodes[i] != mpi_rank) {
-      ghosted_node_local_ids.push_back(partition_boundary_node_local_ids[i]);
+#ifdef NIMBLE_HAVE_MPI
+  {
+    const int*    node_global_ids = mesh.GetNodeGlobalIds();
+    std::set<int> secondary_nodes;
+    for (auto const& face : secondary_skin_faces) secondary_nodes.insert(face.begin(), face.end());
+
+    std::vector<int> my_boundary_node_global_ids;
+    for (auto local_id : partition_boundary_node_local_ids) {
+      if (secondary_nodes.count(local_id) > 0) my_boundary_node_global_ids.push_back(node_global_ids[local_id]);
+    }
+
+    int              my_count = static_cast<int>(my_boundary_node_global_ids.size());
+    std::vector<int> counts(num_ranks), offsets(num_ranks + 1, 0);
+    MPI_Allgather(&my_count, 1, MPI_INT, counts.data(), 1, MPI_INT, MPI_COMM_WORLD);
+    for (int i = 0; i < num_ranks; ++i) offsets[i + 1] = offsets[i] + counts[i];
+    std::vector<int> all_boundary_node_global_ids(offsets[num_ranks]);
+    MPI_Allgatherv(
+        my_boundary_node_global_ids.data(),
+        my_count,
+        MPI_INT,
+        all_boundary_node_global_ids.data(),
+        counts.data(),
+        offsets.data(),
+        MPI_INT,
+        MPI_COMM_WORLD);
+
+    std::set<int> nodes_of_lower_ranks(
+        all_boundary_node_global_ids.begin(), all_boundary_node_global_ids.begin() + offsets[mpi_rank]);
+    for (auto local_id : partition_boundary_node_local_ids) {
+      if (nodes_of_lower_ranks.count(node_global_ids[local_id]) > 0) ghosted_node_local_ids.push_back(local_id);
     }
   }
+#endif
 
   // construct containers for the subset of the model that is involved with
   // contact this constitutes a submodel that is stored in the ContactManager
-- 
2.43.0


From 804ce0370dc910d3ba2b77d5eee8db1cf4ecee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 33/60] fix: a missing or malformed penalty parameter of a
 contact command was silently taken as zero or truncated

---
 src/nimble_contact_manager.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index ad213cd..d3c04c5 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -85,6 +85,7 @@
 #endif
 
 #include <algorithm>
+#include <cstdlib>
 #include <iostream>
 #include <set>
 #include <type_traits>
@@ -145,7 +146,15 @@ ParseContactCommand(
         "\"penalty_parameter\".\n");
   }
 
-  ss >> penalty_parameter;
+  std::string penalty_parameter_value;
+  ss >> penalty_parameter_value;
+  char* end         = nullptr;
+  penalty_parameter = std::strtod(penalty_parameter_value.c_str(), &end);
+  if (penalty_parameter_value.empty() || *end != '\0') {
+    throw std::invalid_argument(
+        "\n**** Error processing contact command, expected a number after "
+        "\"penalty_parameter\".\n");
+  }
 }
 
 std::shared_ptr<nimble::ContactManager>
-- 
2.43.0


From dda2d58377b829d5e08ee7ed4c5082a68405b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 34/60] fix: run the quasistatic scheme on the model data it is
 written for

The integrator works on nimble::ModelData, but with Kokkos the data manager and
the material factory were always the Kokkos ones and every quasistatic run ended
with "Incompatible Model Data".
---
 src/nimble.cc              | 2 ++
 src/nimble_data_manager.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..b7601c0 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -273,6 +273,8 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
+  // The quasistatic integrator works on nimble::ModelData
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic") { return std::make_unique<nimble::MaterialFactory>(); }
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
diff --git a/src/nimble_data_manager.cc b/src/nimble_data_manager.cc
index 061dfed..0998805 100644
--- a/src/nimble_data_manager.cc
+++ b/src/nimble_data_manager.cc
@@ -109,6 +109,8 @@ DataManager::Initialize()
 #else
     NIMBLE_ABORT(" Wrong environment !\n");
 #endif
+  } else if (parser_.TimeIntegrationScheme() == "quasistatic") {
+    model_data_ = std::make_shared<nimble::ModelData>();
   } else {
     model_data_ = std::make_shared<nimble_kokkos::ModelData>();
   }
-- 
2.43.0


From 501b0129c836165ee6510feb6364c36e3283c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 35/60] fix: quasistatic linear system for node ids that are
 not 0..n-1

Global node ids index rows of the linear system, which has one row per distinct
id. Number the rows instead, and keep all nodes of a row.
---
 src/integrators/quasistatic_time_integrator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..20ac6b6 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -147,11 +147,15 @@ QuasistaticTimeIntegrator::Integrate()
   // Store various mappings from global to local node ids
   std::vector<int>                linear_system_global_node_ids;
   std::map<int, std::vector<int>> map_from_linear_system;
+  // Global node ids need not be contiguous, rows of the linear system are
+  std::map<int, int> linear_system_node_ids;
+  for (int n = 0; n < num_nodes; ++n) { linear_system_node_ids[global_node_ids[n]] = 0; }
+  int num_linear_system_node_ids = 0;
+  for (auto& id : linear_system_node_ids) { id.second = num_linear_system_node_ids++; }
   for (int n = 0; n < num_nodes; ++n) {
-    int global_node_id = global_node_ids[n];
-    linear_system_global_node_ids.push_back(global_node_id);
-    map_from_linear_system[global_node_id] = std::vector<int>();
-    map_from_linear_system[global_node_id].push_back(n);
+    int linear_system_node_id = linear_system_node_ids[global_node_ids[n]];
+    linear_system_global_node_ids.push_back(linear_system_node_id);
+    map_from_linear_system[linear_system_node_id].push_back(n);
   }
   int linear_system_num_nodes    = static_cast<int>(map_from_linear_system.size());
   int linear_system_num_unknowns = linear_system_num_nodes * dim;
-- 
2.43.0


From dd329cf7abf4cb06a328e7db754b85ee21160faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 36/60] fix: quasistatic residual norm covers all unknowns

Only the first num_nodes of the dim * num_nodes entries were summed.
---
 src/integrators/quasistatic_time_integrator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 20ac6b6..1f1fcfc 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From 5ee2d3152c85afa06dae7b9adebea77cc390d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 37/60] fix: a quasistatic step whose residual is not a number
 has not converged

---
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 1f1fcfc..cf0d50e 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -273,7 +273,7 @@ QuasistaticTimeIntegrator::Integrate()
       std::cout << "  iteration " << iteration << ": residual = " << residual << std::endl;
     }
 
-    while (residual > convergence_tolerance && iteration < max_nonlinear_iterations) {
+    while (!(residual <= convergence_tolerance) && iteration < max_nonlinear_iterations) {
       tangent_stiffness.SetAllValues(0.0);
 #ifdef NIMBLE_HAVE_TRILINOS
       //      tpetra_container.TangentStiffnessMatrixSetScalar(0.0);
-- 
2.43.0


From 98e8d65de6c9bf8ede7f97b5b32cd3ad84039d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 38/60] fix: element data of a quasistatic step belong to the
 accepted displacement

When the full step won the line search the element data were those of the other
trial.
---
 src/integrators/quasistatic_time_integrator.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index cf0d50e..9d9ecef 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -386,11 +386,21 @@ QuasistaticTimeIntegrator::Integrate()
           is_output_step);
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
-      if (trial_residual < residual) {
-        residual = trial_residual;
+      if (!(trial_residual >= residual)) {
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        // evaluated again so that the element data go with the displacement
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From ac5d7ad44fb82d86a1fef180567587ef734c96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 39/60] fix: convergence in the last permitted nonlinear
 iteration is convergence

---
 src/integrators/quasistatic_time_integrator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 9d9ecef..06651bc 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -410,9 +410,9 @@ QuasistaticTimeIntegrator::Integrate()
                   << ", linear cg iterations = " << num_cg_iterations << std::endl;
       }
 
-    }  // while (residual > convergence_tolerance ... )
+    }  // while (!(residual <= convergence_tolerance) ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From 7f9357ae3acb81796fc0c77b17673186a67d3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 40/60] fix: boundary conditions without a node set in the
 linear system

A traction condition on a side set made the node set lookup throw.
---
 src/nimble_boundary_condition_manager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index 71656ea..98a1862 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -88,10 +88,10 @@ BoundaryConditionManager::ModifyTangentStiffnessMatrixForKinematicBC(
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         int index = global_node_ids[node_set[n]] * dim_ + coordinate;
         tangent_stiffness.SetRowValues(index, 0.0);
@@ -124,10 +124,10 @@ BoundaryConditionManager::ModifyRHSForKinematicBC(const int* const global_node_i
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         rhs[global_node_ids[node_set[n]] * dim_ + coordinate] = 0.0;
       }
-- 
2.43.0


From c2e2f4267d54b60f2099d0d91ba9048568904f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 41/60] fix: refuse a z condition on a 2D model

---
 src/nimble_boundary_condition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index 8bf128f..21228cd 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -142,7 +142,7 @@ BoundaryCondition::Initialize(
     coordinate_ = 0;
   } else if (coordinate_string == "y") {
     coordinate_ = 1;
-  } else if (coordinate_string == "z") {
+  } else if (coordinate_string == "z" && dim_ > 2) {
     coordinate_ = 2;
   } else {
     throw std::invalid_argument("Error processing boundary condition, unknown coordinate: " + coordinate_string);
-- 
2.43.0


From 9c7fd49b6fcf4aff4542f6f4bce06bc31c8ba558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 42/60] fix: initial values of state variables

They were looked up by the label with the integration point prefix and never
found.
---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..69ee7b2 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0


From 052d6f2e63da462f47eae0e4d75fc2b46e2b5377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 43/60] fix: blanks between requested output fields

---
 src/nimble_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..deb9e36 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -219,7 +219,7 @@ ModelData::SpecifyOutputFields(const std::string& output_field_string)
   std::vector<std::string> requested_output_labels;
   std::stringstream        ss(output_field_string);
   std::string              entry;
-  while (std::getline(ss, entry, ' ')) { requested_output_labels.push_back(entry); }
+  while (ss >> entry) { requested_output_labels.push_back(entry); }
 
   std::vector<std::string> node_noncomponent_labels;
   std::vector<std::string> node_component_labels;
-- 
2.43.0


From 0914e694a27454ba5a3c40fe7d848364059d2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 44/60] fix: scalar and vector integration point data of the
 Kokkos model data

They were allocated as node data, so that a material with state variables ended in
a null pointer, and scalar, vector and symmetric tensor state was carried over as
full tensors.
---
 src/nimble_kokkos_defs.h        |  8 +--
 src/nimble_kokkos_model_data.cc | 87 ++++++++++++++-------------------
 2 files changed, 41 insertions(+), 54 deletions(-)

diff --git a/src/nimble_kokkos_defs.h b/src/nimble_kokkos_defs.h
index 052c256..7f0f667 100644
--- a/src/nimble_kokkos_defs.h
+++ b/src/nimble_kokkos_defs.h
@@ -379,11 +379,11 @@ class Field<FieldType::DeviceScalarIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceScalarIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceScalarIntPt), data_(v) {}
 
   View
   data() const noexcept
@@ -405,11 +405,11 @@ class Field<FieldType::DeviceVectorIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceVectorIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..caae92d 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -737,14 +737,14 @@ ModelData::AllocateIntegrationPointData(
 
   if (length == nimble::SCALAR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
   } else if (length == nimble::VECTOR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
   } else if (length == nimble::SYMMETRIC_TENSOR) {
     device_integration_point_data_step_n_.at(block_index)
         .emplace_back(new Field<FieldType::DeviceSymTensorIntPt>(label, num_objects));
@@ -767,53 +767,40 @@ ModelData::AllocateIntegrationPointData(
   FieldBase* d_field_step_n   = device_integration_point_data_step_n_.at(block_index).back().get();
   FieldBase* d_field_step_np1 = device_integration_point_data_step_np1_.at(block_index).back().get();
 
-  if (d_field_step_n->type() == FieldType::DeviceScalarNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_n);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_n = field_step_n->data();
-    auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
-    host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_n));
-
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_np1 = field_step_np1->data();
-    auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
-    host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_np1));
-
+  if (d_field_step_n->type() == FieldType::DeviceScalarIntPt) {
+    // there is no host copy of these
+    auto d_view_step_n   = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_n)->data();
+    auto d_view_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_np1)->data();
     if (set_initial_value) {
-      int num_elem = h_view_step_n.extent(0);
-      for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        h_view_step_n(i_elem)   = initial_value.at(0);
-        h_view_step_np1(i_elem) = initial_value.at(0);
+      auto h_view = Kokkos::create_mirror_view(d_view_step_n);
+      for (int i_elem = 0; i_elem < h_view.extent(0); ++i_elem) {
+        for (int i_int_pt = 0; i_int_pt < h_view.extent(1); ++i_int_pt) {
+          for (int i_entry = 0; i_entry < h_view.extent(2); ++i_entry) {
+            h_view(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
+        }
       }
-      Kokkos::deep_copy(d_view_step_n, h_view_step_n);
-      Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
+      Kokkos::deep_copy(d_view_step_n, h_view);
+      Kokkos::deep_copy(d_view_step_np1, h_view);
     }
-  } else if (d_field_step_n->type() == FieldType::DeviceVectorNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_n);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_n = field_step_n->data();
-    auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
-    host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_n));
-
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_np1 = field_step_np1->data();
-    auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
-    host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_np1));
-
+    return field_id;
+  } else if (d_field_step_n->type() == FieldType::DeviceVectorIntPt) {
+    // there is no host copy of these
+    auto d_view_step_n   = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_n)->data();
+    auto d_view_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_np1)->data();
     if (set_initial_value) {
-      int num_elem    = h_view_step_n.extent(0);
-      int num_entries = 3;
-      for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
-          h_view_step_n(i_elem, i_entry)   = initial_value.at(i_entry);
-          h_view_step_np1(i_elem, i_entry) = initial_value.at(i_entry);
+      auto h_view = Kokkos::create_mirror_view(d_view_step_n);
+      for (int i_elem = 0; i_elem < h_view.extent(0); ++i_elem) {
+        for (int i_int_pt = 0; i_int_pt < h_view.extent(1); ++i_int_pt) {
+          for (int i_entry = 0; i_entry < h_view.extent(2); ++i_entry) {
+            h_view(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
         }
       }
-      Kokkos::deep_copy(d_view_step_n, h_view_step_n);
-      Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
+      Kokkos::deep_copy(d_view_step_n, h_view);
+      Kokkos::deep_copy(d_view_step_np1, h_view);
     }
+    return field_id;
   } else if (d_field_step_n->type() == FieldType::DeviceSymTensorIntPt) {
     auto field_step_n = dynamic_cast<Field<FieldType::DeviceSymTensorIntPt>*>(d_field_step_n);
     Field<FieldType::DeviceSymTensorIntPt>::View d_view_step_n = field_step_n->data();
@@ -986,9 +973,9 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
     if (blocks_.at(block_id).GetMaterialPointer()->NumStateVariables() > 0) {
       if (field_ids_.state_sym_tensor >= 0) {
         auto state_sym_tensor_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
         auto state_sym_tensor_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
         Kokkos::deep_copy(state_sym_tensor_n, state_sym_tensor_np1);
       }
       //
@@ -1002,16 +989,16 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
       //
       if (field_ids_.state_scalar >= 0) {
         auto state_scalar_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
         auto state_scalar_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
         Kokkos::deep_copy(state_scalar_n, state_scalar_np1);
       }
       //
       if (field_ids_.state_vec3D >= 0) {
-        auto state_vector_n = GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
+        auto state_vector_n = GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
         auto state_vector_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
+            GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
         Kokkos::deep_copy(state_vector_n, state_vector_np1);
       }
     }
-- 
2.43.0


From 622e5116319a5d346e0a4306c694f8b1719a2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 45/60] fix: volume averages of the tensor state for output

There was no element data to hold them.
---
 src/nimble_kokkos_model_data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index caae92d..b2c67c4 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -938,6 +938,9 @@ ModelData::InitializeBlocks(
           AllocateIntegrationPointData(block_id, nimble::SCALAR, "state_scalar", num_elements_in_block);
       field_ids_.state_vec3D =
           AllocateIntegrationPointData(block_id, nimble::VECTOR, "state_vec3D", num_elements_in_block);
+      // volume-averaged quantities for I/O are stored as element data
+      AllocateElementData(block_id, nimble::SYMMETRIC_TENSOR, "state_sym_tensor", num_elements_in_block);
+      AllocateElementData(block_id, nimble::FULL_TENSOR, "state_full_tensor", num_elements_in_block);
     }
   }
 
-- 
2.43.0


From 93544d871a04248cfadf197d79088824f4359dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 46/60] fix: output requests for integration points an element
 does not have

They read past the integration point data.
---
 src/nimble_kokkos_model_data.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index b2c67c4..edfa041 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -204,15 +204,21 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
         bool        single_integration_point = false;
         bool        require_volume_average   = true;
         int         integration_point_index  = -1;
-        if (requested_label.substr(0, 3) == "ipt") {
+        if (requested_label.substr(0, 3) == "ipt" && requested_label.size() > 6) {
           field_label              = requested_label.substr(6, requested_label.size() - 6);
           single_integration_point = true;
           require_volume_average   = false;
-          integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
+          integration_point_index  = atoi(requested_label.substr(3, 2).c_str()) - 1;
         }
         if (field_label == ipt_label) {
           int iptdata_field_id = model_data.GetFieldId(ipt_label);
           int edata_field_id   = iptdata_field_id;
+          int num_int_pts =
+              model_data.GetDeviceSymTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(1);
+          // there is nothing to output for a point the element does not have
+          if (single_integration_point && (integration_point_index < 0 || integration_point_index >= num_int_pts)) {
+            continue;
+          }
           if (require_volume_average) {
             sym_tensor_field_ids_requiring_volume_average_[block_id].push_back(iptdata_field_id);
           }
@@ -283,16 +289,22 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
       bool        single_integration_point = false;
       bool        require_volume_average   = true;
       int         integration_point_index  = -1;
-      if (requested_label.substr(0, 3) == "ipt") {
+      if (requested_label.substr(0, 3) == "ipt" && requested_label.size() > 6) {
         field_label              = requested_label.substr(6, requested_label.size() - 6);
         single_integration_point = true;
         require_volume_average   = false;
-        integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
+        integration_point_index  = atoi(requested_label.substr(3, 2).c_str()) - 1;
       }
       for (auto& ipt_label : full_tensor_integration_point_data_labels) {
         if (field_label == ipt_label) {
           int iptdata_field_id = model_data.GetFieldId(ipt_label);
           int edata_field_id   = iptdata_field_id;
+          int num_int_pts =
+              model_data.GetDeviceFullTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(1);
+          // there is nothing to output for a point the element does not have
+          if (single_integration_point && (integration_point_index < 0 || integration_point_index >= num_int_pts)) {
+            continue;
+          }
           if (require_volume_average) {
             full_tensor_field_ids_requiring_volume_average_[block_id].push_back(iptdata_field_id);
           }
-- 
2.43.0


From 6c67d4845e9bc1f9d280c503ab02f795e959a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 47/60] fix: a quasistatic step whose initial residual is not
 finite has not converged

---
 src/integrators/quasistatic_time_integrator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 06651bc..624350c 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -43,6 +43,7 @@
 
 #include "quasistatic_time_integrator.h"
 
+#include <cmath>
 #include <iostream>
 
 #include "../nimble.h"
@@ -273,6 +274,13 @@ QuasistaticTimeIntegrator::Integrate()
       std::cout << "  iteration " << iteration << ": residual = " << residual << std::endl;
     }
 
+    // nothing can be measured against a residual that is not a finite number
+    if (!std::isfinite(convergence_tolerance)) {
+      if (my_rank == 0) { std::cout << "\n**** The initial residual is not finite!\n" << std::endl; }
+      status = 1;
+      return status;
+    }
+
     while (!(residual <= convergence_tolerance) && iteration < max_nonlinear_iterations) {
       tangent_stiffness.SetAllValues(0.0);
 #ifdef NIMBLE_HAVE_TRILINOS
-- 
2.43.0


From 8f0b47e577c77c9c3b7ca4610a2b388e85f55e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 48/60] fix: element averages without volume-averaged
 quantities use arrays of length zero

---
 src/nimble_block.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 69ee7b2..0972eae 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -466,9 +466,10 @@ Block::ComputeDerivedElementData(
   // volume and volume-averaged quantities
   double       cur_coord[vector_size * num_node_per_elem];
   unsigned int num_vol_ave_data = vol_ave_offsets_.size() / num_int_pt_per_elem;
-  double       int_pt_quantities[num_vol_ave_data * num_int_pt_per_elem];
   double       volume;
-  double       vol_ave_quantities[num_vol_ave_data];
+  // There may be no volume-averaged quantity (element volume only)
+  std::vector<double> int_pt_quantities(num_vol_ave_data * num_int_pt_per_elem);
+  std::vector<double> vol_ave_quantities(num_vol_ave_data);
 
   // Loop over each element and compute element volume and volume-averaged
   // quantities
@@ -486,7 +487,7 @@ Block::ComputeDerivedElementData(
     }
 
     // Compute element volume and volume-averaged quantities
-    element_->ComputeVolumeAverage(cur_coord, num_vol_ave_data, &int_pt_quantities[0], volume, vol_ave_quantities);
+    element_->ComputeVolumeAverage(cur_coord, num_vol_ave_data, int_pt_quantities.data(), volume, vol_ave_quantities.data());
 
     // Copy the results into the global containers for derived data
     for (int i = 0; i < num_vol_ave_data; i++) {
-- 
2.43.0


From 3281cd19d9075226e1fe2f8abdfb27e1fd0442c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 49/60] fix: contact visualization without contact dereferences
 a null contact manager

---
 src/integrators/explicit_time_integrator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 1f52829..f035087 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -74,7 +74,8 @@ ExplicitTimeIntegrator::Integrate()
   auto contact_manager = nimble::GetContactManager(contact_interface, data_manager);
 
   bool contact_enabled       = parser.HasContact();
-  bool contact_visualization = parser.ContactVisualization();
+  // There is nothing to visualize without contact
+  bool contact_visualization = contact_enabled && parser.ContactVisualization();
 
   auto                   myVectorCommunicator = data_manager.GetVectorCommunicator();
   nimble::ProfilingTimer watch_simulation;
-- 
2.43.0


From 1b4729f0d399b639f790c99f768af3320d1cee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 50/60] fix: steps in contact are counted from host copies that
 are only updated for visualization

---
 src/nimble_contact_manager.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index d3c04c5..18a8c8f 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -728,28 +728,31 @@ ContactManager::numContactNodes() const
   return contact_nodes_h_.extent(0);
 }
 
-size_t
-ContactManager::numActiveContactFaces() const
+static std::size_t
+CountContactEntitiesInContact(nimble_kokkos::DeviceContactEntityArrayView contact_entities)
 {
   std::size_t num_contacts = 0;
-  const std::size_t total_num_contact_faces = numContactFaces();
-  for (std::size_t i = 0; i < total_num_contact_faces; ++i) {
-    const auto &myface = getContactFace(i);
-    num_contacts += static_cast<size_t>(myface.contact_status());
-  }
+  Kokkos::parallel_reduce(
+      "ContactManager::CountContactEntitiesInContact",
+      contact_entities.extent(0),
+      KOKKOS_LAMBDA(const int i, std::size_t& count) {
+        if (contact_entities(i).contact_status()) { count += 1; }
+      },
+      num_contacts);
   return num_contacts;
 }
 
+size_t
+ContactManager::numActiveContactFaces() const
+{
+  // The contact status is set on the device entities, the host copies are only updated for visualization
+  return CountContactEntitiesInContact(contact_faces_d_);
+}
+
 size_t
 ContactManager::numActiveContactNodes() const
 {
-  std::size_t num_contacts = 0;
-  const std::size_t total_num_contact_nodes = numContactNodes();
-  for (std::size_t i = 0; i < total_num_contact_nodes; ++i) {
-    const auto &mynode = getContactNode(i);
-    num_contacts += static_cast<size_t>(mynode.contact_status());
-  }
-  return num_contacts;
+  return CountContactEntitiesInContact(contact_nodes_d_);
 }
 
 const ContactEntity&
-- 
2.43.0


From 4d84e463816ebe81cc85ef4b4e69836f41e77c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 51/60] fix: asking for help runs without an input file and
 aborts

---
 src/nimble.cc     |  2 ++
 src/nimble_cli.cc | 10 ++++++++++
 src/nimble_cli.h  |  3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index b7601c0..f4e8c06 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -110,6 +110,8 @@ NimbleApplication::Run(int argc, char **argv) {
   int err = impl_->cli_config_->ParseAndGetErrorCode();
   if (err != 0)
     return err;
+  if (impl_->cli_config_->InformationOnly())
+    return 0;
 
   impl_->parser_ = CreateParser();
 
diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..c05f37a 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -58,6 +58,7 @@ struct CommandLineConfiguration::impl
   bool use_tpetra_ = false;
   bool use_vt_ = false;
   bool use_uq_ = false;
+  bool information_only_ = false;
   std::string input_filename_;
 };
 
@@ -113,6 +114,9 @@ int
 CommandLineConfiguration::ParseAndGetErrorCode() {
   try {
     impl_->cli_app_.parse(impl_->argc_, impl_->argv_);
+  } catch (const CLI::Success& e) {
+    impl_->information_only_ = true;
+    return impl_->cli_app_.exit(e);
   } catch (const CLI::ParseError& e) {
     return impl_->cli_app_.exit(e);
   }
@@ -120,6 +124,12 @@ CommandLineConfiguration::ParseAndGetErrorCode() {
   return 0;
 }
 
+bool
+CommandLineConfiguration::InformationOnly() const noexcept
+{
+  return impl_->information_only_;
+}
+
 bool
 CommandLineConfiguration::UseTpetra() const noexcept
 {
diff --git a/src/nimble_cli.h b/src/nimble_cli.h
index 97519a2..0e5d88a 100644
--- a/src/nimble_cli.h
+++ b/src/nimble_cli.h
@@ -64,6 +64,9 @@ class CommandLineConfiguration
 
   int ParseAndGetErrorCode();
 
+  /// \brief True when only information was asked for (--help) and there is nothing to run
+  bool InformationOnly() const noexcept;
+
   bool UseTpetra() const noexcept;
   bool UseVT() const noexcept;
   bool UseUQ() const noexcept;
-- 
2.43.0


From 5553ee648df0ee5527ca4dc99c1e219e4908982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 52/60] fix: powers in conditions of expressions were taken for
 an exclusive or and rejected

---
 src/nimble_expression_parser.h | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index b81a8f7..96b2a22 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -602,6 +602,36 @@ class EquationContext
     return false;
   }
 
+  // True if r reads as a condition rather than as a number
+  bool
+  IsCondition(Reader r)
+  {
+    ApplyNecessaryFormatting(r);
+    if (r.IsEmpty() || r >> '?') return false;
+    return r == "true" || r == "false" || r >> '|' || r >> '&' || r >> '!' || r >> '<' || r >> '>' || r >> '=' ||
+           FindExclusiveOr(r);
+  }
+  // Moves r to the last ^ between two conditions, the exclusive or; any other ^
+  // is a power
+  bool
+  FindExclusiveOr(Reader& r)
+  {
+    if (!(r << '^')) return false;
+    while (r.pos > 0) {
+      if (r.first[r.pos] == '^') {
+        Reader left  = r.sub(r.first, r.pos);
+        Reader right = r.sub(r.pos + 1, r.length);
+        for (char c : {'^', '&'}) {
+          if (!left.IsEmpty() && left << c) left = left.sub(left.pos + 1, left.length);
+          if (!right.IsEmpty() && right >> c) right = right.sub(right.first, right.pos);
+        }
+        if (IsCondition(left) && IsCondition(right)) return true;
+      }
+      r.Prev('(', ')');
+    }
+    return false;
+  }
+
   RealValuedExpression*
   ParseOperation(Reader r)
   {
@@ -659,7 +689,7 @@ class EquationContext
       return mem.New<GenericOr<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '^')
+    if (FindExclusiveOr(r))
       return mem.New<GenericXor<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-- 
2.43.0


From 20fdd85e49251f3a123c00252400e72e4e708990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 53/60] fix: a quasistatic step moved nodes under several
 prescribed conditions more than once

---
 src/nimble_boundary_condition_manager.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index 3c663b6..eadfea0 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -145,6 +145,16 @@ class BoundaryConditionManager
   {
     double delta_t = time_current - time_previous;
 
+    // A quasistatic analysis moves the nodes here, each of them once: if several
+    // conditions act on a degree of freedom, the last one moves it from where it
+    // was at the start of the step.
+    std::map<std::pair<int, int>, double> displacement_at_start;
+    auto displacement_previous = [&](int n, int coordinate) -> double {
+      if (time_integration_scheme_ != QUASISTATIC) { return displacement(n, coordinate); }
+      auto dof = std::make_pair(n, coordinate);
+      return displacement_at_start.insert(std::make_pair(dof, displacement(n, coordinate))).first->second;
+    };
+
     for (auto& bc : boundary_conditions_) {
       int                     node_set_id    = bc.node_set_id_;
       int                     coordinate     = bc.coordinate_;
@@ -160,7 +170,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = displacement_previous(n, coordinate) + velocity_magnitude * delta_t;
             }
           }
         } else {
@@ -176,7 +186,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = displacement_previous(n, coordinate) + velocity_magnitude * delta_t;
             }
           }
         }
@@ -184,7 +194,7 @@ class BoundaryConditionManager
         if (!has_expression) {
           double displacement_magnitude = bc.magnitude_;
           for (int n : node_set) {
-            velocity(n, coordinate) = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            velocity(n, coordinate) = (displacement_magnitude - displacement_previous(n, coordinate)) / delta_t;
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         } else {
@@ -195,7 +205,7 @@ class BoundaryConditionManager
             if (dim_ == 3) { bc.expression_.z = reference_coordinates(n, 2); }
             bc.expression_.t              = time_current;
             double displacement_magnitude = bc.expression_.eval();
-            velocity(n, coordinate)       = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            velocity(n, coordinate)       = (displacement_magnitude - displacement_previous(n, coordinate)) / delta_t;
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         }
-- 
2.43.0


From 3dce6660dcb167ca6d84909932d48b6771b750cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 54/60] fix: a parallel run hangs when an error occurs on some
 of the ranks only

---
 src/nimble.cc | 11 +++++++++++
 src/nimble.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index f4e8c06..2c9b452 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -132,9 +132,11 @@ NimbleApplication::Run(int argc, char **argv) {
     status = ExecMain();
   } catch (std::exception& e) {
     std::cerr << "Standard exception: " << e.what() << std::endl;
+    EndOtherRanks();
     return 1;
   } catch (...) {
     std::cerr << "\n !!! NimbleSM Simulation did not end correctly !!!\n\n";
+    EndOtherRanks();
     return 1;
   }
 
@@ -151,6 +153,15 @@ NimbleApplication::Run(int argc, char **argv) {
   return status;
 }
 
+void
+NimbleApplication::EndOtherRanks() const
+{
+#ifdef NIMBLE_HAVE_MPI
+  // The other ranks may be waiting for this one
+  if (impl_->num_ranks_ > 1) { MPI_Abort(MPI_COMM_WORLD, 1); }
+#endif
+}
+
 int
 NimbleApplication::Rank() const noexcept
 {
diff --git a/src/nimble.h b/src/nimble.h
index 606d37c..4228a69 100644
--- a/src/nimble.h
+++ b/src/nimble.h
@@ -89,6 +89,7 @@ class NimbleApplication
 
   void InitializeSubsystems();
   void FinalizeSubsystems();
+  void EndOtherRanks() const;
   int ExecMain();
   int MainLoop();
 
-- 
2.43.0


From 59187b3240370e088e0c2f458c445b88b608d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 55/60] fix: meshes of other elements than hexahedra are read
 past their connectivity

---
 src/nimble.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 2c9b452..3704363 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -348,6 +348,13 @@ NimbleApplication::MainLoop()
     mesh.ReadFile(genesis_file_name);
   }
 
+  // All blocks are made of hexahedra with eight nodes
+  for (auto block_id : mesh.GetBlockIds()) {
+    if (mesh.GetElementType(block_id) != "HEX") {
+      throw std::invalid_argument("Error processing input mesh, only hexahedra with eight nodes are supported.");
+    }
+  }
+
   std::string tag                = "out";
   std::string output_exodus_name = nimble::IOFileName(impl_->parser_->ExodusFileName(), "e", tag, my_rank, num_ranks);
 
-- 
2.43.0


From e097872ee07349475cb6ebe9c8d2a29d7254a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 56/60] fix: numbers of nodes and elements that are not in the
 mesh are used unchecked

---
 src/nimble_genesis_mesh.cc | 29 +++++++++++++++++++++++++++++
 src/nimble_genesis_mesh.h  |  4 ++++
 2 files changed, 33 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 77e7483..feb3af0 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -295,6 +295,9 @@ GenesisMesh::ReadFile(std::string file_name)
     block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
 
     // global element ids for this block
+    if (num_elem_this_block > num_elem - elem_local_index) {
+      throw std::invalid_argument("Error processing input mesh " + file_name_ + ", the blocks have too many elements.");
+    }
     block_elem_global_ids_[block_id] = std::vector<int>(num_elem_this_block);
     for (int i = 0; i < num_elem_this_block; i++) {
       block_elem_global_ids_.at(block_id).at(i) = elem_global_id_[elem_local_index++];
@@ -312,9 +315,35 @@ GenesisMesh::ReadFile(std::string file_name)
 
   retval = ex_close(exodus_file_id);
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_close");
+
+  CheckNumbers();
 #endif
 }
 
+void
+GenesisMesh::CheckNumbers() const
+{
+  auto check = [this](const std::vector<int>& numbers, std::size_t count, const std::string& what) {
+    for (int number : numbers) {
+      if (number < 0 || static_cast<std::size_t>(number) >= count) {
+        std::stringstream error_msg_ss;
+        error_msg_ss << "Error processing input mesh " << file_name_ << ", " << what << " refers to number "
+                     << number + 1LL << " of " << count << ".";
+        throw std::invalid_argument(error_msg_ss.str());
+      }
+    }
+  };
+  for (auto const& block : block_elem_connectivity_) {
+    check(block.second, node_x_.size(), "element block " + std::to_string(block.first));
+  }
+  for (auto const& node_set : node_sets_) {
+    check(node_set.second, node_x_.size(), "node set " + std::to_string(node_set.first));
+  }
+  for (auto const& side_set : side_sets_) {
+    check(side_set.second, elem_global_id_.size(), "side set " + std::to_string(side_set.first));
+  }
+}
+
 void
 GenesisMesh::ReadTextFile(std::string file_name)
 {
diff --git a/src/nimble_genesis_mesh.h b/src/nimble_genesis_mesh.h
index 8da014a..7ef2095 100644
--- a/src/nimble_genesis_mesh.h
+++ b/src/nimble_genesis_mesh.h
@@ -329,6 +329,10 @@ class GenesisMesh
   void
   ReportExodusError(int error_code, const char* method_name, const char* exodus_method_name) const;
 
+  // Throws if a block, node set or side set refers to nodes or elements that are not in the mesh
+  void
+  CheckNumbers() const;
+
   std::string file_name_;
   int         dim_;
 
-- 
2.43.0


From 1c04729cd64b29326365a4dcb3e56011b0858341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 57/60] fix: tabs in material and element block lines are not
 taken as blanks

---
 src/nimble_parser.cc     | 6 +++---
 src/nimble_parser_util.h | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index aff8ce3..d160470 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -198,9 +198,9 @@ IOFileNameThreadSafe(
 
 BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
-  size_t space_pos                 = props.find(" ");
+  size_t space_pos                 = props.find_first_of(" \t");
   block_name_                      = props.substr(0, space_pos);
-  size_t material_pos              = props.find_first_not_of(" ", space_pos);
+  size_t material_pos              = props.find_first_not_of(" \t", space_pos);
   material_key_                    = material_pos == std::string::npos ? std::string() : props.substr(material_pos);
   size_t            underscore_pos = block_name_.rfind("_");
   std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
@@ -348,7 +348,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
 
     contact_visualization_file_name_ = vals[5];
   } else if (key == "material parameters") {
-    size_t      space_pos           = value.find(" ");
+    size_t      space_pos           = value.find_first_of(" \t");
     std::string material_key        = value.substr(0, space_pos);
     std::string material_props      = value.substr(space_pos + 1, value.size());
     material_strings_[material_key] = material_props;
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c3a8d61..5fd05ca 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -80,8 +80,9 @@ tokenize_string(const std::string& s)
     if (is_quoted_segment(i)) {
       tokens.push_back(*quote);
     } else {
-      auto segment_tokens = tokenize_string_with_separator(*quote, ' ');
-      tokens.insert(tokens.end(), segment_tokens.begin(), segment_tokens.end());
+      std::stringstream ss(*quote);
+      std::string       token;
+      while (ss >> token) { tokens.push_back(token); }
     }
   }
   return tokens;
-- 
2.43.0


From 11cbe9b16c6477a01f407d02f8bdff1ff422cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 58/60] fix: material parameter values with trailing characters
 are accepted

---
 src/nimble_parser_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index 5fd05ca..55f4c12 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -95,7 +95,8 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
-  if (ss.fail()) throw std::invalid_argument("Expected a number but found '" + s + "'");
+  if (ss.fail() || ss.peek() != std::stringstream::traits_type::eof())
+    throw std::invalid_argument("Expected a number but found '" + s + "'");
   return val;
 }
 
-- 
2.43.0


From 3c8317914fd40a2f71ace82a678f54b6cb6e47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 59/60] fix: output fields separated by tabs are dropped

---
 src/nimble_kokkos_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index edfa041..8a5ca6e 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -119,7 +119,7 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
   std::vector<std::string> requested_labels;
   std::stringstream        ss(output_command_string);
   std::string              entry;
-  while (std::getline(ss, entry, ' ')) { requested_labels.push_back(entry); }
+  while (ss >> entry) { requested_labels.push_back(entry); }
 
   std::vector<std::string> scalar_node_data_labels = model_data.GetScalarNodeDataLabels();
   for (auto const& requested_label : requested_labels) {
-- 
2.43.0


From 642376fbb95beb98d63e5655c121d7fa7e479266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 60/60] fix: expressions with tabs are rejected

---
 src/nimble_expression_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 96b2a22..aa4cded 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -44,6 +44,7 @@
 #ifndef NIMBLE_EXPRESSION_PARSER_H
 #define NIMBLE_EXPRESSION_PARSER_H
 
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 #include <cstring>
@@ -535,6 +536,7 @@ class EquationContext
   ParseEquation(std::string s)
   {
     ConvertStringToLowercase(s);
+    std::replace(s.begin(), s.end(), '\t', ' ');
     Reader reader = Reader(s);
     return ParseEquation(reader);
   }
-- 
2.43.0

