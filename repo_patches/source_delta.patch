From c33a0fc4d634070d55976ae3dd4a586fed7f5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 01/42] fix: a macro variable assigned again on the same line
 keeps the newer value

---
 parser/fanuc/MacroEvaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..827a882 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -99,8 +99,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
+                                      macro_result_value);
     }
 
     return true;
-- 
2.43.0


From fc33990c3e109fcc597703a3bdf1477039b36cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 02/42] fix: a macro expression reads variables as of its own
 line, not of later lines

---
 parser/fanuc/MacroEvaluator.cpp  |  3 ++-
 parser/fanuc/ValueCalculator.cpp | 15 ++++++---------
 parser/fanuc/ValueCalculator.h   |  3 ++-
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 827a882..f7d9e56 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -96,7 +96,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
 
         double          macro_result_value{};
         ValueCalculator value_calculator;
-        auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
+        auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value,
+                                             language, line);
         if (!vc_ret)
             return false;
         macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..1be7269 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -8,7 +8,6 @@
 
 #include <cmath>
 #include <iomanip>
-#include <limits>
 
 #ifndef M_PI
 #define M_PI (3.14159265358979323846)
@@ -204,9 +203,10 @@ static uint32_t bcd_to_ui32(uint64_t bcd)
 class eval
 {
 public:
-    eval(const macro_map& macro_values, ELanguage language)
+    eval(const macro_map& macro_values, ELanguage language, int line)
         : macro_val(macro_values)
         , language(language)
+        , line(line)
     {
     }
 
@@ -257,11 +257,7 @@ public:
         case '+':
             return +rhs;
         case '#': {
-#ifdef max
-#undef max
-#endif
-            const auto it =
-                macro_val.lower_bound({static_cast<decltype(macro_map_key::id)>(rhs), std::numeric_limits<int>::max()});
+            const auto it = macro_val.lower_bound({static_cast<decltype(macro_map_key::id)>(rhs), line});
             if (it != std::end(macro_val) && it->first.id == static_cast<decltype(macro_map_key::id)>(rhs))
                 return it->second;
             throw eval_exception(
@@ -333,6 +329,7 @@ public:
 private:
     const macro_map& macro_val;
     const ELanguage  language;
+    const int        line;
 };
 
 template <typename Iterator>
@@ -392,7 +389,7 @@ void ValueCalculator::build_symbols()
 }
 
 bool ValueCalculator::parse(const std::string& data, std::string& message, bool single_line_msg,
-                            const macro_map& macro_values, double& value, ELanguage language)
+                            const macro_map& macro_values, double& value, ELanguage language, int line)
 {
     using pos_iterator_type = boost::spirit::line_pos_iterator<std::string::const_iterator>;
 
@@ -412,7 +409,7 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 #ifndef NDEBUG
         printer()(p);
 #endif
-        value = eval(macro_values, language)(p);
+        value = eval(macro_values, language, line)(p);
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/ValueCalculator.h b/parser/fanuc/ValueCalculator.h
index 4b40d56..63b0816 100644
--- a/parser/fanuc/ValueCalculator.h
+++ b/parser/fanuc/ValueCalculator.h
@@ -2,6 +2,7 @@
 
 #include "parser_export.h"
 
+#include <limits>
 #include <map>
 #include <string>
 
@@ -23,7 +24,7 @@ public:
     ValueCalculator();
 
     bool parse(const std::string& data, std::string& message, bool single_line_msg, const macro_map& macro_values,
-               double& value, ELanguage language);
+               double& value, ELanguage language, int line = (std::numeric_limits<int>::max)());
 
 private:
     void build_symbols();
-- 
2.43.0


From 159d04ec58b2fafa7c2d28b3e02e7d4fdef1b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 03/42] fix: a rejected macro definition keeps its own message

---
 parser/fanuc/AllAttributesParser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..1531cb1 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -222,10 +222,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         }
 
         if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
-        {
-            message = all_attr_grammar->get_message();
             return false;
-        }
 
         std::vector<AttributeVariant> value2;
 
-- 
2.43.0


From 02bf9691c79caf85f6493a1ed6519204c2518041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 04/42] fix: MOD by zero in a macro expression is reported
 instead of killing the process

---
 parser/fanuc/ValueCalculator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 1be7269..a3d19bb 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -240,7 +240,12 @@ public:
         else if (x.operator_name == "XOR")
             return static_cast<int>(lhs) ^ static_cast<int>(rhs);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            const auto divisor = static_cast<int>(rhs);
+            if (divisor == 0)
+                throw eval_exception(make_message(MessageName::UnsupportedBinaryOperation, language, x.operator_name));
+            return divisor == -1 ? 0 : static_cast<int>(lhs) % divisor;
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From 5968157ae59cbd00ce6f287c2e0b244b8c0dec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 05/42] fix: SINH is evaluated like COSH and TANH

---
 parser/fanuc/ValueCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a3d19bb..680808f 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -303,6 +303,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
-- 
2.43.0


From 554144c7a146d197508074bfa768b9f3e664f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 06/42] fix: ACOS, ASIN and ATAN return degrees

---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 680808f..009308c 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -282,11 +282,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From 49247de859f80da08568ba7b2a9c20a51411d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 07/42] fix: FUP and FIX round the magnitude of negative
 numbers

---
 parser/fanuc/ValueCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 009308c..3322d1f 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -288,7 +288,7 @@ public:
         else if (x.name == "atan")
             return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
-            return std::ceil(rhs);
+            return rhs < 0 ? std::floor(rhs) : std::ceil(rhs);
         else if (x.name == "cos")
             return std::cos(rhs * M_PI / 180);
         else if (x.name == "cosh")
@@ -296,7 +296,7 @@ public:
         else if (x.name == "exp")
             return std::exp(rhs);
         else if (x.name == "floor")
-            return std::floor(rhs);
+            return std::trunc(rhs);
         else if (x.name == "log10")
             return std::log10(rhs);
         else if (x.name == "log")
-- 
2.43.0


From fc1bc4112d37777ef9d2efcce4469f6c454ca110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 08/42] fix: machine points are shifted by the zero point
 instead of replaced by it

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 1531cb1..438f9e5 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From 08726bbe44b6f1fad2b4f642f6ae40a8e070e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 09/42] fix: the verdict on a line no longer depends on
 brackets and macros of earlier lines

---
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From f8d4e1e03a1dc1af3abe357592e7f8b508310257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:02 +0000
Subject: [PATCH 10/42] fix: the text of a rotation direction reads back as
 that direction

---
 parser/GeneralParserDefines.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/GeneralParserDefines.cpp b/parser/GeneralParserDefines.cpp
index 4673c86..f40879d 100644
--- a/parser/GeneralParserDefines.cpp
+++ b/parser/GeneralParserDefines.cpp
@@ -499,11 +499,11 @@ std::string to_string(ERotationDirection e)
     switch (e)
     {
     case ERotationDirection::Right:
-        return "right (M03) CLW (clockwise)";
+        return "right";
     case ERotationDirection::Left:
-        return "left (M04) CCLW (counterclockwise)";
+        return "left";
     case ERotationDirection::Stop:
-        return "stop (M05)";
+        return "stop";
         // omit default case to trigger compiler warning for missing cases
     }
 
-- 
2.43.0


From cf2c966f6ff7fd278950d8a85494f8fb423b4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:56 +0000
Subject: [PATCH 11/42] fix: rotating axes reads G02 as G2 and leaves G2.1 and
 G#2 alone

---
 parser/fanuc/AxesRotator.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..558a342 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -191,18 +191,24 @@ public:
         }
         else if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro) // the number of a macro variable is not a code
+                return;
+            if (data.value2 && data.value2->find_first_not_of('0') != std::string::npos) // G2.1 is not G2
                 return;
 
-            auto& val = *data.value;
-            if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
+            auto&      val    = *data.value;
+            const auto zeroes = val.find_first_not_of('0'); // G02 is G2
+            if (zeroes == std::string::npos)
+                return;
+            const auto code = val.substr(zeroes);
+            if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
                 return;
 
-            const auto wt_item = wtm.find({data.word, val});
+            const auto wt_item = wtm.find({data.word, code});
             if (wt_item == std::end(wtm))
                 return;
 
-            val = std::to_string(wt_item->second.value);
+            val = val.substr(0, zeroes) + std::to_string(wt_item->second.value);
         }
     }
 
-- 
2.43.0


From 585fb17dd7f158f516ecfdfe151b31740a0cc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 12/42] fix: keep the zeros of a converted number written
 without decimals

With no decimals configured for a word the converter trimmed the trailing
zeros of the integer part (10 mm feed became 1).
---
 parser/fanuc/UnitConverter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..dcacd92 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -128,8 +128,11 @@ public:
         ostr << std::fixed << std::setprecision(precision) << dvalue;
 
         std::string ret_str(ostr.str());
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        if (precision > 0)
+        {
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        }
 
         const auto pos = ret_str.find('.');
         if (pos != std::string::npos)
-- 
2.43.0


From 3163c6618fbb243bacbfb9052fd13ae9525c10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 13/42] fix: arc lengths use the floating point absolute value

The unqualified abs() is the integer one here: radii were truncated, and every arc
shorter than 1 in both axes was taken for a full circle.
---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..b8c345f 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -137,7 +137,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -160,7 +160,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -168,7 +168,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -190,7 +190,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -217,7 +217,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -267,7 +267,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -278,7 +278,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From f852f375264b901b2c36a44401071f89b8d3206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 14/42] fix: absolute arcs over 180 degrees that start or end
 on an axis

Points on an axis through the centre belonged to no quadrant, so the short arc was taken.
---
 parser/fanuc/PathCalculator.cpp | 69 +++------------------------------
 1 file changed, 5 insertions(+), 64 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b8c345f..cd0f42c 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -67,70 +67,11 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             CurtempY = Ycur;
         }
 
-        // Sprawdzenie do której cwiartki nalezy punkt poprzedni
-        // Utworzenie grupy cwiartek poprzednich Prev
-        int Prev{};
-        if (PretempX > 0 && PretempY > 0)
-            Prev = 1;
-        else if (PretempX < 0 && PretempY < 0)
-            Prev = 3;
-        else if (PretempX > 0 && PretempY < 0)
-            Prev = 4;
-        else if (PretempX < 0 && PretempY > 0)
-            Prev = 2;
-
-        // Sprawdzenie do ktorej cwiartki nalezy punkt biezacy
-        // Utworzenie grup cwiartek biezacych Curr
-        int Curr{};
-        if (CurtempX > 0 && CurtempY > 0)
-            Curr = 1;
-        else if (CurtempX < 0 && CurtempY < 0)
-            Curr = 3;
-        else if (CurtempX > 0 && CurtempY < 0)
-            Curr = 4;
-        else if (CurtempX < 0 && CurtempY > 0)
-            Curr = 2;
-
-        // Sprawdzenie czy luk przechodzi przez 4 cwiartki
-        bool longArc{};
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 4) || (Prev == 2 && Curr == 1) || (Prev == 3 && Curr == 2) ||
-                (Prev == 4 && Curr == 3))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 4 && Curr == 1) || (Prev == 1 && Curr == 2) || (Prev == 2 && Curr == 3) ||
-                (Prev == 3 && Curr == 4))
-            {
-                longArc = true;
-            }
-        }
-
-        // Sprawdzanie czy luk przechodzac przez 3 cwiartki jest wiekszy niz 180 stopni
-        // Najpierw obliczenie tg dla punktow poprzednich i biezacych
-        auto tg_p = atan(PretempY / PretempX) * Deg;
-        auto tg_c = atan(CurtempY / CurtempX) * Deg;
-
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c > tg_p) || (Prev == 3 && Curr == 1 && tg_c > tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c > tg_p) || (Prev == 4 && Curr == 2 && tg_c > tg_p))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c < tg_p) || (Prev == 3 && Curr == 1 && tg_c < tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c < tg_p) || (Prev == 4 && Curr == 2 && tg_c < tg_p))
-            {
-                longArc = true;
-            }
-        }
+        // Sprawdzenie czy luk jest wiekszy niz 180 stopni: iloczyn wektorowy promieni poczatkowego i koncowego
+        // Dla punktow wewnatrz tej samej cwiartki przyjmowany jest krotszy luk
+        const bool sameQuadrant = PretempX * CurtempX > 0 && PretempY * CurtempY > 0;
+        const auto crossProduct = PretempX * CurtempY - PretempY * CurtempX;
+        const bool longArc      = !sameQuadrant && (Direction_CW_CCW == 3 ? crossProduct < 0 : crossProduct > 0);
 
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
-- 
2.43.0


From 9c263f028931db2811b0edeef11e6a49701a60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 15/42] fix: incremental arcs over 180 degrees

Only some of the positions of the end and the centre were recognised as a long arc.
---
 parser/fanuc/PathCalculator.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index cd0f42c..67796b9 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -176,22 +176,9 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
         // Obliczenie dlugosci luku
         Arclong = AlphaArc / 360 * 2 * M_PI * Rarcradius;
 
-        // Sprawdzenie czy luk jest wiekszy niz 180 stopni
-        bool longArc{};
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Xcur > 0 && Ycur > 0 && Icur >= 0 && Jcur >= 0) || (Xcur > 0 && Ycur < 0 && Icur >= 0 && Jcur <= 0))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Xcur < 0 && Ycur < 0 && Icur <= 0 && Jcur <= 0) || (Xcur < 0 && Ycur > 0 && Icur <= 0 && Jcur >= 0))
-            {
-                longArc = true;
-            }
-        }
+        // Sprawdzenie czy luk jest wiekszy niz 180 stopni: iloczyn wektorowy promieni poczatkowego i koncowego
+        const auto crossProduct = Jcur * Xcur - Icur * Ycur;
+        const bool longArc      = Direction_CW_CCW == 3 ? crossProduct < 0 : crossProduct > 0;
 
         if (longArc)
             Arclong = 2 * M_PI * Rarcradius - Arclong;
-- 
2.43.0


From 0af6f06172ed7b934fc3f226e863fc570770a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 16/42] fix: incremental half circles with rounded coordinates
 have no NaN length

---
 parser/fanuc/PathCalculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 67796b9..c13dad7 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -1,5 +1,6 @@
 ﻿#include "stdafx.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include "PathCalculator.h"
@@ -168,7 +169,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     if (Arclong == 0)
     {
         // Obliczenie kata cieciwy AB i promienia R
-        auto AangleHR = asin(ABhalf / Rarcradius) * Deg;
+        auto AangleHR = asin(std::min(ABhalf / Rarcradius, 1.)) * Deg;
 
         // Obliczenie kata calego luku
         auto AlphaArc = AangleHR * 2;
@@ -216,7 +217,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     if (Arclong == 0)
     {
         // Obliczenie kata cieciwy AB i promienia R
-        const auto AangleHR = asin(ABhalf / Rarcradius) * Deg;
+        const auto AangleHR = asin(std::min(ABhalf / Rarcradius, 1.)) * Deg;
 
         // Obliczenie kata calego luku
         const auto AlphaArc = AangleHR * 2;
-- 
2.43.0


From 2956bc0470e4be67e727a22fda529c4d05595170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 17/42] fix: drilling with an incremental negative depth has no
 negative length

---
 parser/fanuc/PathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index c13dad7..4868e11 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -352,8 +352,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
-                auto Cycle_distance_Rapid  = Zpre - Rparam + Zgleb;
-                auto Cycle_distance_Linear = Zgleb;
+                auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
+                auto Cycle_distance_Linear = std::abs(Zgleb);
                 return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
         }
@@ -531,7 +531,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         int mnoznikG98G99 = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
-            auto Gleb_rzeczyw          = Zgleb;
+            auto Gleb_rzeczyw          = std::abs(Zgleb);
             auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
             auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
-- 
2.43.0


From bcd766686cbb0413b4a03196b45b0225793695eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 18/42] fix: drilling from above zero with a reference level
 below zero

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 4868e11..3ff4630 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -370,7 +370,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 if (Zpre > 0 && Zgleb < 0)
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
+                    auto Cycle_distance_Rapid  = std::abs(Zpre - Rparam) + std::abs(Zpre) + std::abs(Zgleb);
                     return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
                 }
                 else
-- 
2.43.0


From e9092e28e5e3ba9921ab17edd93f8476647eea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 19/42] fix: modal words on a line without motion stay active
 in cycles and arcs

---
 parser/fanuc/AttributesPathCalculator.cpp | 30 +++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..343c66e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -642,6 +642,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto current_g_return  = g_return ? *g_return : active_g_return;
     const auto current_feed_mode = feed_mode ? *feed_mode : active_feed_mode;
 
+    const auto save_modal_values = [&] {
+        active_f         = current_f;
+        active_s         = current_s;
+        active_g         = current_g;
+        active_g171819   = current_g171819;
+        active_g_return  = current_g_return;
+        active_g9091     = current_g9091;
+        active_g9697     = current_g9697;
+        active_feed_mode = current_feed_mode;
+    };
+
     const auto lathe_programming =
         machine_tool_type == EMachineToolType::Lathe ||
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
@@ -737,8 +748,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // only modal values here
+        {
+            save_modal_values();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1107,8 +1121,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // only modal values here
+        {
+            save_modal_values();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
@@ -1284,14 +1301,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         return; // don't save anything
     }
 
-    active_f         = current_f;
-    active_s         = current_s;
-    active_g         = current_g;
-    active_g171819   = current_g171819;
-    active_g_return  = current_g_return;
-    active_g9091     = current_g9091;
-    active_g9697     = current_g9697;
-    active_feed_mode = current_feed_mode;
+    save_modal_values();
 
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
-- 
2.43.0


From 07120633c355a864a40c4c1e69e0ddfd62959043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 20/42] fix: speeds and feeds on a line that only selects a
 tool are kept

---
 parser/fanuc/AttributesPathCalculator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 343c66e..bc0900e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -566,6 +566,15 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            if (f)
+                active_f = *f;
+            if (s)
+                active_s = *s;
+            if (g9697)
+                active_g9697 = *g9697;
+            if (feed_mode)
+                active_feed_mode = *feed_mode;
+
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
-- 
2.43.0


From 31864e6642ebd3515b13fd1fd3c3bd2cbd71f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 21/42] fix: a drilling cycle without its Q word is reported

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index bc0900e..ce37a21 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1222,7 +1222,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
-- 
2.43.0


From f1f0a7822dcda1899d35291e4a73ddb3f3d431dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 22/42] fix: resetting the path calculator clears the pending
 rapid traverse

---
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ce37a21..32e70aa 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From 6af602c8a92ff190e3adbb823c4732ab0015d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:47 +0000
Subject: [PATCH 23/42] fix: a helix continued without its third axis keeps
 that axis' position

---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 32e70aa..b4bfac9 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -993,23 +993,27 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
+            if (!z_prev)
+                throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
+
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_step = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_step, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_step, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_step, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_step, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1019,9 +1023,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_step, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_step, *r);
                     }
                     else
                     {
@@ -1040,16 +1044,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1058,9 +1062,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From 269dc4f555fc85bbffabd74b10706197ddc2150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 24/42] fix: G04 X is a dwell and not a position, like G4 X

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b4bfac9..692e90d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -168,7 +168,7 @@ public:
                 active_g9091 = vale;
             else
             {
-                auto tmp = *data.value;
+                auto tmp = std::to_string(val); // G04 is G4
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
-- 
2.43.0


From 003965ddbb739a199c6b5a693d0e00003986d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:58 +0000
Subject: [PATCH 25/42] fix: dwell, setting and calling words run no motion,
 cycle or arc

---
 parser/fanuc/AttributesPathCalculator.cpp | 61 ++++++++++++++++-------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 692e90d..68c6a18 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -310,6 +310,40 @@ auto get_ignore_g_codes()
     return ignore_g_codes;
 }
 
+bool is_ignored_axis(const std::string& word, const std::vector<std::string>& other_g)
+{
+    const auto& ignore_g_codes = get_ignore_g_codes();
+    const auto  axis           = ignore_g_codes.find(word);
+    if (axis == std::cend(ignore_g_codes))
+        return false;
+    return std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
+        return std::any_of(std::cbegin(other_g), std::cend(other_g),
+                           [&](const auto& og_value) { return og_value == axis_value; });
+    });
+}
+
+// axis words of a dwell or a setting code (G10, G52, G68, G92 etc.) are no motion; G53 is a motion
+std::map<std::string, double> get_motion_values(const std::map<std::string, double>& values,
+                                                const std::vector<std::string>&      other_g)
+{
+    if (other_g.empty() || std::find(std::cbegin(other_g), std::cend(other_g), "53") != std::cend(other_g))
+        return values;
+    std::map<std::string, double> motion_values;
+    for (const auto& it : values)
+    {
+        if (!is_ignored_axis(it.first, other_g))
+            motion_values.insert(it);
+    }
+    return motion_values;
+}
+
+// P, L and Q alone (dwell, subprogram calls, settings) do not start the active cycle or arc
+bool has_motion_words(const std::map<std::string, double>& values)
+{
+    return std::any_of(std::cbegin(values), std::cend(values),
+                       [](const auto& it) { return it.first != "P" && it.first != "L" && it.first != "Q"; });
+}
+
 struct copy_on_return
 {
     copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
@@ -333,18 +367,8 @@ struct copy_on_return
             if (it.first == "Q" || it.first == "L")
                 continue;
 
-            if (og && !og->empty())
-            {
-                const auto& ignore_g_codes = get_ignore_g_codes();
-                if (const auto& axis = ignore_g_codes.find(it.first); axis != std::cend(ignore_g_codes))
-                {
-                    if (std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
-                            return std::any_of(std::cbegin(*og), std::cend(*og),
-                                               [&](const auto& og_value) { return og_value == axis_value; });
-                        }))
-                        continue;
-                }
-            }
+            if (og && is_ignored_axis(it.first, *og))
+                continue;
 
             if (g9091 == EProgrammingType::Incremental && (it.first == "X" || it.first == "Y" || it.first == "Z"))
             {
@@ -491,7 +515,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    const auto& all_values           = attributes_visitor.get_values();
+    const auto  values               = get_motion_values(all_values, other_g);
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -586,11 +611,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     if (std::find_if(std::cbegin(other_g), std::cend(other_g),
                      [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
     {
-        if (const auto xit = values.find("X"); xit != std::cend(values))
+        if (const auto xit = all_values.find("X"); xit != std::cend(all_values))
             time_result.total += xit->second;
-        if (const auto xit = values.find("U"); xit != std::cend(values))
+        if (const auto xit = all_values.find("U"); xit != std::cend(all_values))
             time_result.total += xit->second;
-        if (const auto xit = values.find("P"); xit != std::cend(values))
+        if (const auto xit = all_values.find("P"); xit != std::cend(all_values))
             time_result.total += xit->second;
     }
 
@@ -758,7 +783,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // only modal values here
+        if (!g && !has_motion_words(values)) // only modal values here
         {
             save_modal_values();
             return;
@@ -1135,7 +1160,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // only modal values here
+        if (!g && !has_motion_words(values)) // only modal values here
         {
             save_modal_values();
             return;
-- 
2.43.0


From 647d75aeebfa68c820cd173f9cedb1ee791589ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 26/42] fix: the position after a tool exchange does not depend
 on a dead temporary

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 68c6a18..84c3f51 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -346,7 +346,7 @@ bool has_motion_words(const std::map<std::string, double>& values)
 
 struct copy_on_return
 {
-    copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
+    copy_on_return(int active_g, EProgrammingType active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -413,8 +413,8 @@ private:
     std::map<std::string, double>&       pv;
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
-    const int&                           g;
-    const EProgrammingType&              g9091;
+    const int                            g;
+    const EProgrammingType               g9091; // by value: a temporary is gone before the destructor runs
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 88da8fd0f6b576380139efe0fa04b84828fa9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:28 +0000
Subject: [PATCH 27/42] fix: the path calculator built from temporaries uses
 its own settings

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 84c3f51..c88dba2 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -427,14 +427,14 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , cnc_default_values(std::move(cnc_default_values))
     , language(language)
     , active_s(this->cnc_default_values.operator_turns_on_rotation ? this->cnc_default_values.default_rotation : -1)
-    , active_g(static_cast<int>(cnc_default_values.default_motion))
+    , active_g(static_cast<int>(this->cnc_default_values.default_motion))
     , active_g171819(this->cnc_default_values.default_work_plane)
     , active_g_return(this->cnc_default_values.drill_cycle_return_value)
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
-    for (const auto& it : kinematics.cartesian_system_axis)
+    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
 
-- 
2.43.0


From 5cdb34eec6837970bb836761f4778639ad580072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 28/42] fix: a dwell on a line that selects a tool is counted

---
 parser/fanuc/AttributesPathCalculator.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c88dba2..492a24e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -536,6 +536,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     if (was_pallet_exchange)
         time_result.total += kinematics.pallet_exchange_time;
 
+    if (std::find_if(std::cbegin(other_g), std::cend(other_g),
+                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
+    {
+        if (const auto xit = all_values.find("X"); xit != std::cend(all_values))
+            time_result.total += xit->second;
+        if (const auto xit = all_values.find("U"); xit != std::cend(all_values))
+            time_result.total += xit->second;
+        if (const auto xit = all_values.find("P"); xit != std::cend(all_values))
+            time_result.total += xit->second;
+    }
+
     if (t)
     {
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
@@ -608,17 +619,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
-    if (std::find_if(std::cbegin(other_g), std::cend(other_g),
-                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
-    {
-        if (const auto xit = all_values.find("X"); xit != std::cend(all_values))
-            time_result.total += xit->second;
-        if (const auto xit = all_values.find("U"); xit != std::cend(all_values))
-            time_result.total += xit->second;
-        if (const auto xit = all_values.find("P"); xit != std::cend(all_values))
-            time_result.total += xit->second;
-    }
-
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
         std::cend(other_g))
         move_to_machine_base_point = true;
-- 
2.43.0


From 56efa9e28cb66044d7f041c3734f4878feda6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 29/42] fix: number the blocks of a split program consecutively

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 438f9e5..f5cbaae 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -522,7 +522,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -549,7 +549,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From 9fe73f4c4bcedc6184ff2a32becd8975a69fdf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 30/42] fix: report a line that cannot be read when splitting
 by text

---
 parser/fanuc/AllAttributesParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index f5cbaae..b98f52f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -484,7 +484,13 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto line(t[x]);
+                    boost::algorithm::trim(line);
+                    if (!line.empty() &&
+                        !renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs))
+                        return false;
+                }
                 ++cnt;
             }
         }
-- 
2.43.0


From 5a10ec055308511531bd53a1c72b2445c70dafe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 31/42] fix: keep the modal motion code when splitting past
 other G codes

---
 parser/fanuc/FileSplitter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..3e482ff 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -50,8 +50,7 @@ public:
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
                 active_g    = val;
                 drill_cycle = false;
-- 
2.43.0


From 20c721daa6f8c6f0431cface5fc267a5bbbe8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 32/42] fix: do not take a G or M macro reference for a code
 when splitting

---
 parser/fanuc/FileSplitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 3e482ff..613e366 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -38,7 +38,7 @@ public:
 
         if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             const auto val = std::stoi(*data.value);
             if ((val >= 0 && val <= 3))
@@ -62,7 +62,7 @@ public:
         }
         else if (data.word == "M")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             if (data.dot || data.value2)
                 return;
-- 
2.43.0


From 4c5f24f23b8d47ad8da99d4154e8ecd01e9b5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 33/42] fix: do not count a block's length or time again for an
 empty line when splitting

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index b98f52f..2daee0f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -508,10 +508,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 if (!tmp.empty() && !parse(x, data[x], v, message, single_line_msg, {true, false, true}))
                     return false;
                 vtmp.emplace_back(std::move(v));
+                // an empty line does not move anything
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : attr_path_calc->get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : attr_path_calc->get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From 99db88e7263be280d78ea2fe2d9df1910d4cb199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:15 +0000
Subject: [PATCH 34/42] fix: report splitting without a limit as an error
 message

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 2daee0f..c7bfcc2 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -562,6 +562,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From 121ab7d1d9607df5720678309a7c1006bf61a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:53 +0000
Subject: [PATCH 35/42] fix: leave no uninitialised pointer for an empty piece
 of a split program

---
 parser/fanuc/AllAttributesParserWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..a5f4976 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{};
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From 492b506d89f39306d5b61eac8c82dbe989fad5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:16 +0000
Subject: [PATCH 36/42] fix: report a diagnostic at its line also when the
 source text contains 'line 1'

---
 nclangsrv/NCParser.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..80c40b8 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -392,7 +392,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -438,26 +437,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message[0] == '1')
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 9c0df95e174c996d74332a355f1ae4b047dfb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:26 +0000
Subject: [PATCH 37/42] fix: keep diagnostic messages that contain a colon
 whole

---
 nclangsrv/JsonMessageHandler.cpp | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..6076dfe 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1060,33 +1060,25 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
+            // "line: message" or "line:character: message", the message itself may contain colons
+            const auto line_end = error_message.find(':');
+            if (line_end != std::string::npos)
             {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
+                line = atoi(error_message.c_str());
                 if (line > 0)
                     line--;
-                if (tokens.size() > 2)
+                auto       message_begin = line_end + 1;
+                const auto character_end = error_message.find_first_not_of("0123456789", message_begin);
+                if (character_end != message_begin and character_end != std::string::npos and
+                    error_message[character_end] == ':')
                 {
-                    character = atoi(tokens[1].c_str());
+                    character = atoi(error_message.c_str() + message_begin);
                     if (character > 0)
                         character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
+                    message_begin = character_end + 1;
                 }
+                result_message = error_message.substr(message_begin);
+                boost::algorithm::trim(result_message);
             }
 
             if (line != 0 or character != 0 or not result_message.empty())
-- 
2.43.0


From 807a27960ca4e3f125de6cd8bdddabcebf8c490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:35 +0000
Subject: [PATCH 38/42] fix: survive hovering a macro variable whose number
 does not fit an integer

---
 nclangsrv/JsonMessageHandler.cpp | 16 ++++++++++++++--
 nclangsrv/MacrosDescReader.cpp   | 28 ++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 6076dfe..0d3d26e 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -143,6 +143,18 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+decltype(parser::fanuc::macro_map_key::id) extractMacroId(const std::string& code)
+{
+    try
+    {
+        return extractMacroId(code);
+    }
+    catch (const std::out_of_range&)
+    {
+        return -1; // no macro variable has such a number
+    }
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -690,7 +702,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                auto macroId = extractMacroId(code);
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
                 if (itm != macroMap->cend() && itm->first.id == macroId)
@@ -733,7 +745,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 if (!contents.empty())
                 {
                     auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto macroId = extractMacroId(code);
 
                     bool exist{};
 
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..17a93f8 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -102,14 +102,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,14 +140,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From 0aa34bf150205966cc81dfe50c0e053bc8f3a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 39/42] fix: answer hover on macro variables when the program
 assigns none

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 0d3d26e..e3e05f1 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -691,7 +691,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             else
                 result.SetNull();
         }
-        else if (macroMap && !macroMap->empty())
+        else if (macroMap)
         {
             size_t from{};
             size_t to{};
-- 
2.43.0


From 2de09e6dc99acf6a72ca1932dc736490652bf7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 40/42] fix: answer hover on a G# or M# code whose variable is
 undefined

---
 nclangsrv/JsonMessageHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index e3e05f1..618913d 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -147,7 +147,7 @@ decltype(parser::fanuc::macro_map_key::id) extractMacroId(const std::string& cod
 {
     try
     {
-        return extractMacroId(code);
+        return static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
     }
     catch (const std::out_of_range&)
     {
@@ -733,7 +733,8 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    contents += " = undefined";
+                    hoverMakeResult(contents, line, from, to, result, a);
                 }
             }
             else
-- 
2.43.0


From 5f2130d7ac0be6eca0e9bc8a3d177e088c429f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 41/42] fix: include both ends of a macro description range

---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 17a93f8..a923f2a 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -158,7 +158,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 328b3375e344fba3528afa11c0519c7e550c0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:49 +0000
Subject: [PATCH 42/42] fix: a grammar or code group file that could not be
 read was reported once, then documents were checked without it

---
 nclangsrv/NCParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 80c40b8..f8478ef 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -277,7 +277,10 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         mWordGrammarReader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
 
         if (!mWordGrammarReader->read())
+        {
+            mWordGrammarReader.reset();
             return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
+        }
     }
 
     if (!mGCodeGroupsReader.get())
@@ -293,7 +296,10 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         mGCodeGroupsReader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
 
         if (!mGCodeGroupsReader->read())
+        {
+            mGCodeGroupsReader.reset();
             return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
+        }
     }
 
     if (!mMCodeGroupsReader.get())
@@ -309,7 +315,10 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         mMCodeGroupsReader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
 
         if (!mMCodeGroupsReader->read())
+        {
+            mMCodeGroupsReader.reset();
             return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
+        }
     }
 
     auto word_grammar = mWordGrammarReader->getWordGrammar();
-- 
2.43.0

