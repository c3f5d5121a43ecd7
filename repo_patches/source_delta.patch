From fdcbabc39fd2d1420a6c982ae5e746fceb2634cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 01/75] fix: reset the bracket/macro status of the block
 grammar before every block

The status was kept between blocks, so an unbalanced bracket or a macro
assignment in one block changed what was accepted in all later ones.
---
 parser/fanuc/AllAttributesParser.cpp      | 1 +
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..db66cc3 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -237,6 +237,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
+            all_attr_grammar->clear_message();
             evaluated_code_part     = true;
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From 48b1990a1c0d33d98fae6e19fd36740fe68ffa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 02/75] fix: keep '=' and apply the sign when a variable is
 substituted in a word

C2=#1 was re-read as C2<digits>, and X-#1 with a negative #1 became X--5 and
was rejected.
---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..071dcfd 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -40,7 +40,11 @@ public:
         }
 
         text += data.word;
-        if (data.sign)
+        if (data.assign)
+            text += *data.assign;
+
+        const bool negated_macro = was_interesting_word && data.macro && data.sign && !data.open_bracket;
+        if (data.sign && !negated_macro)
             text += *data.sign;
         if (data.open_bracket)
             text += *data.open_bracket;
@@ -52,7 +56,9 @@ public:
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            // X-#1 with a negative #1 is a positive value, so the sign has to be applied and not only put in front
+            const bool negate = negated_macro && *data.sign == '-';
+            text += to_string_trunc(negate ? -macro_itor->second : macro_itor->second);
             was_modified = true;
         }
         else
-- 
2.43.0


From 2d6a7d04c26878fed8e01b8cddd4d9c813e15749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 03/75] fix: assigning a variable again on the same line
 replaces its value

The second assignment was silently ignored.
---
 parser/fanuc/MacroEvaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..827a882 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -99,8 +99,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
+                                      macro_result_value);
     }
 
     return true;
-- 
2.43.0


From 8213b7dcf1fd30549d25f025194e149f1241b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:07 +0000
Subject: [PATCH 04/75] fix: integer macro operators no longer trap or overflow

MOD with a zero divisor killed the process with SIGFPE; operands outside int
were converted with undefined behaviour.
---
 parser/fanuc/ValueCalculator.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..ff39997 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -234,13 +234,22 @@ public:
         else if (x.operator_name == "/")
             return lhs / rhs;
         else if (x.operator_name == "AND")
-            return static_cast<int>(lhs) & static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) & to_int(rhs, x.operator_name);
         else if (x.operator_name == "OR")
-            return static_cast<int>(lhs) | static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) | to_int(rhs, x.operator_name);
         else if (x.operator_name == "XOR")
-            return static_cast<int>(lhs) ^ static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) ^ to_int(rhs, x.operator_name);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            const int divisor = to_int(rhs, x.operator_name);
+            // -1 divides everything; INT_MIN % -1 traps
+            if (divisor == -1)
+                return 0;
+            if (divisor == 0)
+                throw eval_exception(
+                    make_message(MessageName::UnsupportedBinaryOperation, language, x.operator_name));
+            return to_int(lhs, x.operator_name) % divisor;
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
@@ -331,6 +340,15 @@ public:
     }
 
 private:
+    // the integer operators are defined only for operands which fit in int
+    int to_int(double n, const std::string& operator_name) const
+    {
+        if (!(n > static_cast<double>(std::numeric_limits<int>::min()) - 1 &&
+              n < static_cast<double>(std::numeric_limits<int>::max()) + 1))
+            throw eval_exception(make_message(MessageName::UnsupportedBinaryOperation, language, operator_name));
+        return static_cast<int>(n);
+    }
+
     const macro_map& macro_val;
     const ELanguage  language;
 };
-- 
2.43.0


From aac7e930f543cfa7cd998157852c3324d4ee8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:07 +0000
Subject: [PATCH 05/75] fix: ACOS, ASIN and ATAN return degrees

They converted their argument from degrees to radians instead of converting
the resulting angle from radians to degrees.
---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index ff39997..5cc4dfe 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -290,11 +290,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From 9c598f1e9fd331d6462ca0c9b87964fc3404e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:07 +0000
Subject: [PATCH 06/75] fix: evaluate SINH

It was recognised as a function name but reported as unsupported.
---
 parser/fanuc/ValueCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 5cc4dfe..b07c1bc 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -311,6 +311,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
-- 
2.43.0


From 53ba01a110deabb1df6a609ad0475f04aaa6750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 07/75] fix: reject a block whose evaluated words break the
 word table

The words substituted for macros are parsed again; when that failed after the
first word the block was still reported as correct, and the error position
pointed into an already destroyed string.
---
 parser/fanuc/AllAttributesParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index db66cc3..c81994a 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -207,6 +207,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     bool              evaluated_code_part{};
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
+    std::string       evaluated_code; // outlives the try block because the position of the error points into it
 
     try
     {
@@ -229,7 +230,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         std::vector<AttributeVariant> value2;
 
-        auto evaluated_code =
+        evaluated_code =
             MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language);
         if (!evaluated_code.empty())
         {
@@ -286,6 +287,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         if (!message.empty())
             msg << " <- " << message;
         message = msg.str();
+        ret     = false; // the block may have been fine before its macros were evaluated
     }
     catch (const code_groups_exception& e)
     {
-- 
2.43.0


From 6f43ff2262efcf390372b5af7d71fd06b1d88c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 08/75] fix: G20 and G21 select the word table blocks are
 verified against

The grammar kept verifying against the table of the default unit system.
---
 parser/fanuc/AllAttributesParser.cpp | 13 +++++++++++--
 parser/fanuc/AllAttributesParser.h   |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index c81994a..a04e5d9 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -162,6 +162,15 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
 
+void AllAttributesParser::select_grammar(const std::vector<AttributeVariant>& value)
+{
+    const auto previous_word_grammar = active_word_grammar;
+    GrammarSelector()(word_grammar, active_word_grammar, value);
+    if (active_word_grammar != previous_word_grammar) // next blocks are verified against the selected grammar
+        all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
+            *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
+}
+
 void AllAttributesParser::build_symbols()
 {
     assignable_sym.clear();
@@ -243,7 +252,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
+            select_grammar(value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -274,7 +283,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                                 other_settings.language);
         }
 
-        GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
+        select_grammar(evaluated_code.empty() ? value : value2);
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index 49ac6c7..70cec83 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -116,6 +116,8 @@ private:
 
     void build_symbols();
 
+    void select_grammar(const std::vector<AttributeVariant>& value);
+
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
                       bool single_line_msg);
 
-- 
2.43.0


From 6c89334ef5580d3942c4fb05fdc25dda6f177e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 09/75] fix: relate the tool exchange and machine base points
 to the zero point

Operator precedence made every coordinate of both points the zero point's (or 0).
---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a04e5d9..bd855bc 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From 5680fb56cf94fbadd01ea2be02bc7dd6d3c52de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 10/75] fix: arc lengths use the floating point absolute value

The unqualified abs is the integer one with GCC: the fraction of R was dropped
in absolute programming and short arcs were taken for full circles.
---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..b8c345f 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -137,7 +137,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -160,7 +160,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -168,7 +168,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -190,7 +190,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -217,7 +217,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -267,7 +267,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -278,7 +278,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From 12233f21621974baaa191a26dfb096a6edf5f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 11/75] fix: detect arcs over 180 degrees with an end on an
 axis or both ends in one quadrant

---
 parser/fanuc/PathCalculator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b8c345f..4f13854 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -132,6 +132,15 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             }
         }
 
+        // Cwiartki nie rozstrzygaja, gdy punkt lezy na osi albo oba punkty sa w tej samej cwiartce.
+        // Wtedy decyduje strona, po ktorej lezy punkt biezacy (o ile lezy on na okregu)
+        const auto RadiusCur = MathUtils::CalcLineLength2d(CurtempX, CurtempY);
+        if ((Prev == 0 || Curr == 0 || Prev == Curr) && std::abs(RadiusCur - Rarcradius) < Rarcradius / 1000)
+        {
+            const auto Side = PretempX * CurtempY - PretempY * CurtempX;
+            longArc         = Direction_CW_CCW == 3 ? Side < -tolerance : Side > tolerance;
+        }
+
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
             AlphaArc = 360 - AlphaArc;
-- 
2.43.0


From df98164af0dd6b0c83151b421e872d1dc4806914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 12/75] fix: report a missing Q of a drilling cycle

R was tested twice and the end iterator was read.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..a09a28e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1196,7 +1196,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
-- 
2.43.0


From f83409db09d83b0f6e0498223d324ce95e770713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 13/75] fix: reset the rapid traverse requested by a tool
 exchange

---
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a09a28e..fb98e42 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From 1b4aed902909bf6c94d5d7165a766bf6fc11c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 14/75] fix: a helix block without the third axis and a helix
 ended by another motion

The missing axis value was read, and an arc long after a helix was taken for its last part.
---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index fb98e42..2e57cfa 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -648,6 +648,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
     const auto lathe_non_diameter = lathe_programming && !kinematics.diameter_programming_2x;
 
+    if (current_g != 2 && current_g != 3)
+        active_helix = EHelixType::None; // helix is continued only by blocks of circular interpolation
+
     if (current_g == 0 || current_g == 1)
     {
         // if(move_to_tool_exchange_point)
@@ -972,21 +975,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_curr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -996,9 +1000,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_curr, *r);
                     }
                     else
                     {
@@ -1017,16 +1021,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1035,9 +1039,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From 582e418b7e5daa27b8f18328cf054800c81fc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:17 +0000
Subject: [PATCH 15/75] fix: keep F, S and modal codes of blocks without motion

They were dropped while an arc or a drilling cycle was active and together with
a tool that is only preselected.
---
 parser/fanuc/AttributesPathCalculator.cpp | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 2e57cfa..96c43ad 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -567,6 +567,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            if (f)
+                active_f = *f;
+            if (s)
+                active_s = *s;
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
@@ -643,6 +647,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto current_g_return  = g_return ? *g_return : active_g_return;
     const auto current_feed_mode = feed_mode ? *feed_mode : active_feed_mode;
 
+    const auto save_modal_values = [&] {
+        active_f         = current_f;
+        active_s         = current_s;
+        active_g         = current_g;
+        active_g171819   = current_g171819;
+        active_g_return  = current_g_return;
+        active_g9091     = current_g9091;
+        active_g9697     = current_g9697;
+        active_feed_mode = current_feed_mode;
+    };
+
     const auto lathe_programming =
         machine_tool_type == EMachineToolType::Lathe ||
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
@@ -741,8 +756,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // no motion here
+        {
+            save_modal_values();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1112,8 +1130,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // no motion here
+        {
+            save_modal_values();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
@@ -1289,14 +1310,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         return; // don't save anything
     }
 
-    active_f         = current_f;
-    active_s         = current_s;
-    active_g         = current_g;
-    active_g171819   = current_g171819;
-    active_g_return  = current_g_return;
-    active_g9091     = current_g9091;
-    active_g9697     = current_g9697;
-    active_feed_mode = current_feed_mode;
+    save_modal_values();
 
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
-- 
2.43.0


From 7821a0961478db5b180f0ee97c867bc589849feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 16/75] fix: X, U, P of a dwell and coordinates of setting
 codes are not motion

They are not taken for positions either; G04 is G4.
---
 parser/fanuc/AttributesPathCalculator.cpp | 50 +++++++++++++----------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 96c43ad..eb356b4 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -168,7 +168,7 @@ public:
                 active_g9091 = vale;
             else
             {
-                auto tmp = *data.value;
+                auto tmp = std::to_string(val); // without leading zeros
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
@@ -310,6 +310,17 @@ auto get_ignore_g_codes()
     return ignore_g_codes;
 }
 
+bool is_ignored_value(const std::string& word, const std::vector<std::string>& other_g)
+{
+    const auto& ignore_g_codes = get_ignore_g_codes();
+    const auto  axis           = ignore_g_codes.find(word);
+    return axis != std::cend(ignore_g_codes) &&
+           std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
+               return std::any_of(std::cbegin(other_g), std::cend(other_g),
+                                  [&](const auto& og_value) { return og_value == axis_value; });
+           });
+}
+
 struct copy_on_return
 {
     copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
@@ -333,18 +344,8 @@ struct copy_on_return
             if (it.first == "Q" || it.first == "L")
                 continue;
 
-            if (og && !og->empty())
-            {
-                const auto& ignore_g_codes = get_ignore_g_codes();
-                if (const auto& axis = ignore_g_codes.find(it.first); axis != std::cend(ignore_g_codes))
-                {
-                    if (std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
-                            return std::any_of(std::cbegin(*og), std::cend(*og),
-                                               [&](const auto& og_value) { return og_value == axis_value; });
-                        }))
-                        continue;
-                }
-            }
+            if (og && is_ignored_value(it.first, *og))
+                continue;
 
             if (g9091 == EProgrammingType::Incremental && (it.first == "X" || it.first == "Y" || it.first == "Z"))
             {
@@ -491,7 +492,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    auto        values               = attributes_visitor.get_values();
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -578,17 +579,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
-    if (std::find_if(std::cbegin(other_g), std::cend(other_g),
-                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
+    if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "4"; }) !=
+        std::cend(other_g))
     {
-        if (const auto xit = values.find("X"); xit != std::cend(values))
-            time_result.total += xit->second;
-        if (const auto xit = values.find("U"); xit != std::cend(values))
-            time_result.total += xit->second;
-        if (const auto xit = values.find("P"); xit != std::cend(values))
-            time_result.total += xit->second;
+        for (const auto& word : {"X", "U", "P"})
+        {
+            if (const auto it = values.find(word); it != std::cend(values))
+            {
+                time_result.total += it->second;
+                values.erase(it);
+            }
+        }
     }
 
+    for (auto it = std::cbegin(values); it != std::cend(values);) // they are not positions so there is no motion to them
+        it = is_ignored_value(it->first, other_g) ? values.erase(it) : std::next(it);
+
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
         std::cend(other_g))
         move_to_machine_base_point = true;
-- 
2.43.0


From e23dc05d5f247947c67d0563f25cef18296bd660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 17/75] fix: the axis drilled along is the one that keeps its
 position in a cycle

It was always Z: in G18 and G19 the hole position along Z was lost and the depth became a position.
---
 parser/fanuc/AttributesPathCalculator.cpp | 64 ++++++++++++++++-------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index eb356b4..94bf654 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -321,9 +321,16 @@ bool is_ignored_value(const std::string& word, const std::vector<std::string>& o
            });
 }
 
+std::string_view get_drill_axis(EMachineTool machine_tool, EWorkPlane plane)
+{
+    if (machine_tool == EMachineTool::lathe_zx || machine_tool == EMachineTool::lathe_zxc) // no Y axis
+        return "Z";
+    return plane == EWorkPlane::XY ? "Z" : plane == EWorkPlane::XZ ? "Y" : "X";
+}
+
 struct copy_on_return
 {
-    copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
+    copy_on_return(const int& active_g, std::string_view drill_axis, const EProgrammingType& active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -331,6 +338,7 @@ struct copy_on_return
         , wr(word_range)
         , og(other_g)
         , g(active_g)
+        , da(drill_axis)
         , g9091(active_g9091)
     {
     }
@@ -339,7 +347,7 @@ struct copy_on_return
     {
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
+            if (it.first == da && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
                 continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
@@ -391,6 +399,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int&                           g;
+    const std::string_view               da;
     const EProgrammingType&              g9091;
 };
 
@@ -410,7 +419,9 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g,     get_drill_axis(machine_tool, active_g171819),
+                      active_g9091, machine_points_data.machine_base_point,
+                      prev_values,  word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -432,7 +443,9 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g,     get_drill_axis(machine_tool, active_g171819),
+                      active_g9091, machine_points_data.machine_base_point,
+                      prev_values,  word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -456,7 +469,9 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g,     get_drill_axis(machine_tool, active_g171819),
+                      active_g9091, machine_points_data.machine_base_point,
+                      prev_values,  word_range};
 }
 
 template <typename T, typename U>
@@ -573,8 +588,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (s)
                 active_s = *s;
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis in case the start values are provided together with tool change
+                active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
+                &other_g}; // save axis in case the start values are provided together with tool change
             return;
         }
     }
@@ -592,7 +607,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
-    for (auto it = std::cbegin(values); it != std::cend(values);) // they are not positions so there is no motion to them
+    for (auto it = std::cbegin(values);
+         it != std::cend(values);) // they are not positions so there is no motion to them
         it = is_ignored_value(it->first, other_g) ? values.erase(it) : std::next(it);
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
@@ -620,8 +636,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (g_return)
                 active_g_return = *g_return;
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis because here may be start values before any G code is being used
+                active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
+                &other_g}; // save axis because here may be start values before any G code is being used
             return;
         }
 
@@ -1052,9 +1068,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
+                            path_result.work_motion =
+                                PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
+                            path_result.work_motion =
+                                PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1368,15 +1386,25 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
 
     if (move_to_tool_exchange_point)
-        copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
-            &other_g};
+        copy_on_return cr{active_g,
+                          get_drill_axis(machine_tool, active_g171819),
+                          EProgrammingType::Absolute,
+                          machine_points_data.tool_exchange_point,
+                          prev_values,
+                          word_range,
+                          &other_g};
     else if (move_to_machine_base_point)
+        copy_on_return cr{active_g,
+                          get_drill_axis(machine_tool, active_g171819),
+                          EProgrammingType::Absolute,
+                          machine_points_data.machine_base_point,
+                          prev_values,
+                          word_range,
+                          &other_g};
+    else
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
+            active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
             &other_g};
-    else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
 }
 
 } // namespace fanuc
-- 
2.43.0


From e821161a13e3afdaa232b7f2b2788ccf93cd0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 18/75] fix: every incremental hole of a drilling cycle with K
 moves the position

---
 parser/fanuc/AttributesPathCalculator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 94bf654..aefb74f 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1318,6 +1318,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     path_result.work_motion += work_motion;
                     path_result.fast_motion += fast_motion;
                 }
+                for (const auto& axis : {axis1, axis2}) // position is changed by every hole
+                {
+                    if (const auto it = values.find(axis); it != std::end(values))
+                        it->second *= holes;
+                }
             }
             else
             {
-- 
2.43.0


From b8ff05dc1a44fd5a3ecb9b49d3d469fb7720ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 19/75] fix: rapid distance of a drilling cycle with a negative
 R level

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 4f13854..671d6c7 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -450,7 +450,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 if (Zpre > 0 && Zgleb < 0)
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
+                    auto Cycle_distance_Rapid  = std::abs(Zpre) - Rparam + std::abs(Zpre) + std::abs(Zgleb);
                     return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
                 }
                 else
-- 
2.43.0


From c76cebdbaf43c0cef8c0d1a7f339546e996be111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 20/75] fix: a block with new R, depth and Q changes the
 running drilling cycle

The distances of the first hole were kept, also when another cycle was started without G80.
---
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index aefb74f..fe7820a 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1224,9 +1224,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 static_cast<fn_drill_cycle_hole_incr*>(&PathCalculator::DrillCyclePathHole_G19);
         }
 
-        const auto k = get_optional_value(values, "K");
-        if (path_result.hole_number == 0 || k) // we want to calculate this even though *k=0 or k is with G90 because
-                                               // the results may be needed in next blocks
+        const auto k              = get_optional_value(values, "K");
+        const bool new_cycle_data = values.count(axis_gleb) && values.count("R") && (dc || values.count("Q"));
+        // we want to calculate this even though *k=0 or k is with G90 because the results may be needed in next blocks
+        if (path_result.hole_number == 0 || k || new_cycle_data)
         {
             const bool zgleb_is_lathe_without_Y =
                 machine_tool == EMachineTool::lathe_zx ||
-- 
2.43.0


From 8524a642b18aa7e35e0690dd3ee4aa66d0a90535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:34 +0000
Subject: [PATCH 21/75] fix: preselecting a tool keeps the totals of the tool
 in use before the first exchange

---
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index fe7820a..8a5c3be 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -532,11 +532,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
             active_auto_rapid_traverse_after_tool_exchange = true;
 
-        if (!active_t.empty())
-        {
-            t_path[active_t] = path_result.tool_total;
-            t_time[active_t] = time_result.tool_total;
-        }
+        t_path[active_t] = path_result.tool_total;
+        t_time[active_t] = time_result.tool_total;
 
         if (cnc_default_values.tool_number_executes_exchange ||
             (!cnc_default_values.tool_number_executes_exchange && was_m6))
-- 
2.43.0


From 558b1c6238c1636e3002c1aec4f91fd0aa92de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 22/75] fix: direction of arcs in the ZX plane

Clockwise is defined looking along -Y, which shows X over Z; the arc was computed with Z over X.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8a5c3be..80097a7 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -865,7 +865,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             param1 = "I";
             param2 = "K";
             param3 = "J";
-            if (current_g == 2)
+            if (current_g == 3) // G18 is the ZX plane: seen as XZ the direction is the opposite one
             {
                 gfunc      = static_cast<fn_g*>(&PathCalculator::G2_G18);
                 gfunc_incr = static_cast<fn_g_incr*>(&PathCalculator::G2_G18);
-- 
2.43.0


From 2b28edcc985813d60c8a82d910f1a71e071ab22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:19 +0000
Subject: [PATCH 23/75] fix: full and quarter helices are told apart by the
 motion in the plane

An incremental block was compared with the absolute position and an
absolute one ending at the zero point was always taken for a full helix.
---
 parser/fanuc/AttributesPathCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 80097a7..3b8ae0d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -971,7 +971,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if ((*x == *x_prev && *y == *y_prev) || (*x == 0. && *y == 0.))
+            if (current_g9091 == EProgrammingType::Incremental ? *x == 0. && *y == 0.
+                                                               : *x == *x_prev && *y == *y_prev)
             {
                 active_helix = EHelixType::Full;
             }
-- 
2.43.0


From eff9f253707da1af752a133bfd93e87f69a205dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:24 +0000
Subject: [PATCH 24/75] fix: read all header fields of a message and end with
 the input

Content-Type before Content-Length was read forever, after it was taken for
the content; the server went on running after its client was gone.
---
 nclangsrv/nclangsrv.cpp | 75 +++++++++++++----------------------------
 1 file changed, 23 insertions(+), 52 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..c4e98a2 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -1,9 +1,7 @@
 #include "stdafx.h"
-#include <chrono>
 #include <fstream>
 #include <iostream>
 #include <string>
-#include <thread>
 
 #include <boost/program_options.hpp>
 #include <filesystem>
@@ -102,62 +100,35 @@ int main(int argc, char* argv[])
     if (logger)
         LOGGER << __func__ << ": Current path is " << fs::current_path() << std::endl;
 
-    while (true)
+    while (std::cin)
     {
-        using namespace std::chrono_literals;
-        std::this_thread::sleep_for(1ms);
-
-        char        c;
-        std::string str;
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
-                continue;
-            str += c;
-            if (str == "Content-Length: ")
-                break;
-        }
-
-        if (str.empty())
-            continue;
-
-        str.clear();
-
-        while (std::cin.get(c))
+        // header fields up to the empty line which ends them
+        const std::string content_length("Content-Length:");
+        std::string       line;
+        uint32_t          length{};
+        bool              end_of_header{};
+        while (!end_of_header && std::getline(std::cin, line))
         {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
+            if (!line.empty() && line.back() == '\r')
+                line.pop_back();
+            if (line.empty())
+                end_of_header = length > 0; // empty lines between messages are skipped
+            else if (const auto pos = line.find(content_length); pos != std::string::npos)
+            {
+                const int value = std::atoi(line.c_str() + pos + content_length.size());
+                length          = value > 0 ? value : 0;
+                if (logger)
+                    LOGGER << __func__ << ": " << line << ", " << length << std::endl;
+            }
         }
 
-        uint32_t length = std::atoi(str.c_str());
-        if (logger)
-            LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
-                   << "], " << length << std::endl;
-        if (length == 0)
-        {
-            continue;
-        }
+        if (!end_of_header)
+            break; // the client is gone
 
-        std::string buffer;
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
+        std::string buffer(length, '\0');
+        std::cin.read(&buffer[0], length);
+        if (static_cast<uint32_t>(std::cin.gcount()) != length)
             break;
-        }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
 
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
-- 
2.43.0


From 6e8d86ea8aff088932a33e807121a7c81d8a45b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:30 +0000
Subject: [PATCH 25/75] fix: malformed or unknown requests are answered instead
 of ending the server

---
 nclangsrv/JsonMessageHandler.cpp | 185 ++++++++++++++++++++++---------
 nclangsrv/JsonMessageHandler.h   |   8 +-
 2 files changed, 138 insertions(+), 55 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..eb4b0b3 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -8,6 +8,7 @@
 #include <memory>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 #include <thread>
 
 #include <boost/algorithm/string/trim.hpp>
@@ -31,6 +32,38 @@ namespace nclangsrv {
 
 namespace {
 
+constexpr int MethodNotFound = -32601;
+constexpr int InvalidParams  = -32602;
+
+// access to the members of a message, whatever the client has sent
+const rapidjson::Value& member(const rapidjson::Value& value, const char* name)
+{
+    if (!value.IsObject() || !value.HasMember(name))
+        throw std::invalid_argument(std::string("Missing member: ") + name);
+    return value[name];
+}
+
+std::string stringMember(const rapidjson::Value& value, const char* name)
+{
+    const auto& v = member(value, name);
+    if (!v.IsString())
+        throw std::invalid_argument(std::string("Not a string: ") + name);
+    return std::string(v.GetString(), v.GetStringLength());
+}
+
+int intMember(const rapidjson::Value& value, const char* name)
+{
+    const auto& v = member(value, name);
+    if (!v.IsInt())
+        throw std::invalid_argument(std::string("Not an integer: ") + name);
+    return v.GetInt();
+}
+
+rapidjson::Value copyMember(const rapidjson::Value& value, const char* name, rapidjson::Document::AllocatorType& a)
+{
+    return rapidjson::Value(member(value, name), a);
+}
+
 rapidjson::Value makeRange(int line, size_t from, size_t to, rapidjson::Document::AllocatorType& a)
 {
     rapidjson::Value start(rapidjson::kObjectType);
@@ -202,9 +235,6 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
-    int32_t     id{};
-    std::string method;
-
     rapidjson::Document d;
 
     rapidjson::ParseResult parse_result = d.Parse(json.c_str());
@@ -214,32 +244,42 @@ bool JsonMessageHandler::parse(const std::string& json)
             LOGGER << "JsonMessageHandler::" << __func__
                    << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
                    << parse_result.Offset() << ")" << std::endl;
+        return false;
     }
 
-    if (d.HasMember("id"))
+    if (!d.IsObject() || !d.HasMember("method") || !d["method"].IsString())
     {
-        if (d["id"].IsInt())
-            id = d["id"].GetInt();
-        else if (d["id"].IsString())
-            id = atoi(d["id"].GetString());
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": no method!" << std::endl;
+        return false;
     }
 
-    if (d.HasMember("method"))
+    try
     {
-        method = std::string{d["method"].GetString(), d["method"].GetStringLength()};
+        dispatch(d);
     }
-    else
+    catch (const std::exception& e)
     {
         if (mLogger)
-            LOGGER << "JsonMessageHandler::" << __func__ << ": no method!" << std::endl;
+            LOGGER << "JsonMessageHandler::" << __func__ << ": ERR: " << e.what() << std::endl;
+        if (d.HasMember("id"))
+            sendError(d, InvalidParams, e.what());
+        return false;
     }
 
+    return true;
+}
+
+void JsonMessageHandler::dispatch(const rapidjson::Document& d)
+{
+    const std::string method = stringMember(d, "method");
+
     if (mLogger)
-        LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
+        LOGGER << "JsonMessageHandler::" << __func__ << ": method:" << method << std::endl;
 
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(d);
     }
     else if (method == "initialized")
     {
@@ -263,7 +303,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(d);
     }
     else if (method == "completionItem/resolve")
     {
@@ -287,7 +327,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(d);
     }
     else if (method == "exit")
     {
@@ -297,19 +337,55 @@ bool JsonMessageHandler::parse(const std::string& json)
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
+        if (d.HasMember("id"))
+            sendError(d, MethodNotFound, "No handler for method: " + method);
     }
+}
 
-    return true;
+void JsonMessageHandler::sendError(const rapidjson::Document& request, int code, const std::string& message)
+{
+    rapidjson::Document d;
+    d.SetObject();
+    rapidjson::Document::AllocatorType& a = d.GetAllocator();
+
+    d.AddMember("jsonrpc", "2.0", a);
+    d.AddMember("id", copyMember(request, "id", a), a);
+
+    rapidjson::Value error(rapidjson::kObjectType);
+    {
+        error.AddMember("code", code, a);
+        rapidjson::Value value;
+        value.SetString(message.c_str(), static_cast<rapidjson::SizeType>(message.size()), a);
+        error.AddMember("message", value, a);
+    }
+
+    d.AddMember("error", error, a);
+
+    rapidjson::StringBuffer                    stringBuffer;
+    rapidjson::Writer<rapidjson::StringBuffer> writer(stringBuffer);
+    d.Accept(writer);
+
+    std::string response{stringBuffer.GetString()};
+
+    if (mLogger)
+    {
+        LOGGER << "JsonMessageHandler::" << __func__ << ": Content-Length: " << response.size() << std::endl
+               << "[" << response << "]" << std::endl;
+        mLogger->flush();
+    }
+
+    std::cout << "Content-Length: " << response.size() << MSG_ENDL << MSG_ENDL << response;
+    std::cout.flush();
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -370,27 +446,32 @@ void JsonMessageHandler::workspace_didChangeConfiguration(const rapidjson::Docum
 
 void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = member(request, "params");
+    const auto& textDocument = member(params, "textDocument");
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    textDocument_publishDiagnostics(stringMember(textDocument, "uri"), stringMember(textDocument, "text"));
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
 {
-    const auto& params         = request["params"];
-    const auto& textDocument   = params["textDocument"];
-    const auto& contentChanges = params["contentChanges"];
+    const auto& params         = member(request, "params");
+    const auto& textDocument   = member(params, "textDocument");
+    const auto& contentChanges = member(params, "contentChanges");
+
+    if (!contentChanges.IsArray() || contentChanges.Empty())
+        throw std::invalid_argument("No content changes");
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    // the changes are full texts, the last one is the current text
+    textDocument_publishDiagnostics(stringMember(textDocument, "uri"),
+                                    stringMember(contentChanges[contentChanges.Size() - 1], "text"));
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = member(request, "params");
+    const auto& textDocument = member(params, "textDocument");
 
-    mFileContexts.erase(textDocument["uri"].GetString());
+    mFileContexts.erase(stringMember(textDocument, "uri"));
 }
 
 void JsonMessageHandler::fetch_gCodesDesc()
@@ -444,7 +525,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -454,7 +535,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -498,13 +579,14 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
         if (request.HasMember("params"))
         {
-            const auto& params = request["params"];
+            const auto&       params = request["params"];
+            const std::string label  = stringMember(params, "label");
 
             rapidjson::Value value(rapidjson::kObjectType);
             value.CopyFrom(params["label"], a);
@@ -533,7 +615,6 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
 
             std::string       desc;
             std::string       title;
-            const std::string label(params["label"].GetString(), params["label"].GetStringLength());
             if (!label.empty())
             {
                 if (label[0] == 'G' || label[0] == 'g')
@@ -601,13 +682,13 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
 
 void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& position     = params["position"];
-    const int   line         = position["line"].GetInt();
-    const int   character    = position["character"].GetInt();
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = member(request, "params");
+    const auto& position     = member(params, "position");
+    const int   line         = intMember(position, "line");
+    const int   character    = intMember(position, "character");
+    const auto& textDocument = member(params, "textDocument");
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = stringMember(textDocument, "uri");
 
     std::string               strLine;
     parser::fanuc::macro_map* macroMap{};
@@ -642,7 +723,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -792,10 +873,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
 void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = member(request, "params");
+    const auto& textDocument = member(params, "textDocument");
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = stringMember(textDocument, "uri");
 
     PathTimeResult* pathTimeResult{};
 
@@ -819,7 +900,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -880,10 +961,10 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
 
 void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
 {
-    const auto& params = request["params"];
-    const auto& range  = params["range"];
-    const auto& start  = range["start"];
-    const int   line   = start["line"].GetInt();
+    const auto& params = member(request, "params");
+    const auto& range  = member(params, "range");
+    const auto& start  = member(range, "start");
+    const int   line   = intMember(start, "line");
 
     PathTimeResult* pathTimeResult{};
 
@@ -907,7 +988,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -966,14 +1047,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", copyMember(request, "id", a), a);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..ae749cb 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -31,19 +31,21 @@ public:
     }
 
 private:
-    void initialize(int32_t id);
+    void dispatch(const rapidjson::Document& d);
+    void sendError(const rapidjson::Document& request, int code, const std::string& message);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From 9d75685265847a1e8f36ed682b43aa6bc541edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:13 +0000
Subject: [PATCH 26/75] fix: a macro description file that could not be read is
 reported and read again

---
 nclangsrv/JsonMessageHandler.cpp | 5 +++++
 nclangsrv/MacrosDescReader.cpp   | 1 +
 nclangsrv/MacrosDescReader.h     | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index eb4b0b3..e4ca073 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -518,6 +518,11 @@ void JsonMessageHandler::fetch_macrosDesc()
                                       fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
         mMacrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
+    }
+
+    // a file which could not be read is tried (and reported) again
+    if (!mMacrosDesc->isRead())
+    {
         mMacrosDesc->read();
 
         for (const auto& v : mMacrosDesc->getMacros())
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..20c8825 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -30,6 +30,7 @@ bool MacrosDescReader::read()
 
     mData.clear();
     mMacros.clear();
+    mRanges.clear();
 
     if (not mMacrosDescUserPath.empty())
         readJson(mMacrosDescUserPath);
diff --git a/nclangsrv/MacrosDescReader.h b/nclangsrv/MacrosDescReader.h
index 6cfe2e2..ffc4270 100644
--- a/nclangsrv/MacrosDescReader.h
+++ b/nclangsrv/MacrosDescReader.h
@@ -23,6 +23,10 @@ public:
     MacrosDescReader(const std::string& path, const std::string& macrosDescUserPath, Logger* logger);
 
     bool read();
+    bool isRead() const
+    {
+        return mRead;
+    }
 
     using MacroDescPair   = std::pair<std::string, std::string>;
     using MacroCodesRange = std::pair<int, int>;
-- 
2.43.0


From a1debd347d52d74bff428c05cab571f943b038d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:22 +0000
Subject: [PATCH 27/75] fix: completion items do not depend on the requests
 before

---
 nclangsrv/JsonMessageHandler.cpp | 18 +++++++++++++++++-
 nclangsrv/JsonMessageHandler.h   |  1 +
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index e4ca073..4cdaded 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -530,11 +530,25 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
+void JsonMessageHandler::fetch_descs()
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
 
+    try
+    {
+        fetch_macrosDesc();
+    }
+    catch (const json_parser_exception&)
+    {
+        // reported with the diagnostics
+    }
+}
+
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
+{
+    fetch_descs();
+
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
@@ -579,6 +593,8 @@ void JsonMessageHandler::textDocument_completion(const rapidjson::Document& requ
 
 void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& request)
 {
+    fetch_descs();
+
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index ae749cb..3d31e6c 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -51,6 +51,7 @@ private:
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
+    void fetch_descs();
 
     struct FileContext
     {
-- 
2.43.0


From cc609d31039000d981dc2d7708e36b048796f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 28/75] fix: descriptions are those of the driver in the
 settings

---
 nclangsrv/JsonMessageHandler.cpp | 21 +++++++++++++++++++++
 nclangsrv/JsonMessageHandler.h   |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 4cdaded..5136883 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -474,8 +474,25 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     mFileContexts.erase(stringMember(textDocument, "uri"));
 }
 
+void JsonMessageHandler::resetDescsOfOtherDriver()
+{
+    if (!mNcSettingsReader.getNcSettingsPath().empty())
+        mNcSettingsReader.read();
+
+    if (mDescDriver == mNcSettingsReader.getFanucParserType())
+        return;
+
+    mDescDriver = mNcSettingsReader.getFanucParserType();
+    mGCodes.reset();
+    mMCodes.reset();
+    mMacrosDesc.reset();
+    mSuggestions.clear();
+}
+
 void JsonMessageHandler::fetch_gCodesDesc()
 {
+    resetDescsOfOtherDriver();
+
     if (!mGCodes.get())
     {
         auto fsRootPath = fs::path(mRootPath);
@@ -493,6 +510,8 @@ void JsonMessageHandler::fetch_gCodesDesc()
 
 void JsonMessageHandler::fetch_mCodesDesc()
 {
+    resetDescsOfOtherDriver();
+
     if (!mMCodes.get())
     {
         auto fsRootPath = fs::path(mRootPath);
@@ -510,6 +529,8 @@ void JsonMessageHandler::fetch_mCodesDesc()
 
 void JsonMessageHandler::fetch_macrosDesc()
 {
+    resetDescsOfOtherDriver();
+
     if (!mMacrosDesc.get())
     {
         auto fsRootPath = fs::path(mRootPath);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 3d31e6c..c28d36a 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -52,6 +52,7 @@ private:
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
     void fetch_descs();
+    void resetDescsOfOtherDriver();
 
     struct FileContext
     {
@@ -75,6 +76,7 @@ private:
     std::unique_ptr<CodesReader>       mGCodes;
     std::unique_ptr<CodesReader>       mMCodes;
     std::unique_ptr<MacrosDescReader>  mMacrosDesc;
+    parser::EFanucParserType           mDescDriver{};
     std::string                        mRootPath;
     std::string                        mCurrentUri;
     NCSettingsReader&                  mNcSettingsReader;
-- 
2.43.0


From d5b7df673d6fb9919a644b2c21c2dbd5768a4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:42 +0000
Subject: [PATCH 29/75] fix: hovering over undefined, overlong or only
 described variables

---
 nclangsrv/JsonMessageHandler.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5136883..8da96da 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -5,6 +5,7 @@
 #include <chrono>
 #include <filesystem>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <regex>
 #include <sstream>
@@ -176,6 +177,19 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+// numbers no variable can have give the number of no variable
+unsigned int macroIdOf(const std::string& code)
+{
+    try
+    {
+        return static_cast<unsigned int>(std::stoi(code));
+    }
+    catch (const std::out_of_range&)
+    {
+        return std::numeric_limits<unsigned int>::max();
+    }
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -802,7 +816,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             else
                 result.SetNull();
         }
-        else if (macroMap && !macroMap->empty())
+        else if (macroMap)
         {
             size_t from{};
             size_t to{};
@@ -813,7 +827,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                auto macroId = macroIdOf(code);
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
                 if (itm != macroMap->cend() && itm->first.id == macroId)
@@ -844,7 +858,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    result.SetNull();
                 }
             }
             else
@@ -856,7 +870,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 if (!contents.empty())
                 {
                     auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto macroId = macroIdOf(code);
 
                     bool exist{};
 
@@ -867,6 +881,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
+                    fetch_descs();
                     auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
-- 
2.43.0


From c43a83dabffb6def7ef92acf17a4650ea60d9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 30/75] fix: variable numbers that are no number do not need a
 logger

---
 nclangsrv/MacrosDescReader.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 20c8825..8a52594 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -103,14 +103,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -135,14 +141,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From b0f167ed1068d47587f007c984da4daf4f5b5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:59 +0000
Subject: [PATCH 31/75] fix: the ends of a described range of variables belong
 to it

---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 8a52594..cb5e36c 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -159,7 +159,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 8caaefe5f35dfc669caf33e01f5ef10d63549610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 32/75] fix: diagnostics keep the text after a colon

---
 nclangsrv/JsonMessageHandler.cpp | 47 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 8da96da..97a6cf4 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1198,34 +1198,25 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
-            {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
-                if (line > 0)
-                    line--;
-                if (tokens.size() > 2)
-                {
-                    character = atoi(tokens[1].c_str());
-                    if (character > 0)
-                        character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
-                }
-            }
+            // line:character:message or line:message
+            size_t     pos{};
+            const auto number = [&](int32_t& value) {
+                size_t end{pos};
+                while (end < error_message.size() && error_message[end] >= '0' && error_message[end] <= '9')
+                    ++end;
+                if (end == pos || end == error_message.size() || error_message[end] != ':')
+                    return;
+                value = atoi(error_message.c_str() + pos);
+                if (value > 0)
+                    value--;
+                pos = end + 1;
+            };
+
+            number(line);
+            if (pos > 0)
+                number(character);
+            result_message = error_message.substr(pos);
+            boost::algorithm::trim(result_message);
 
             if (line != 0 or character != 0 or not result_message.empty())
             {
-- 
2.43.0


From 5e08b9cb4bc28fc75b29be1f82a9eac3a66d195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 33/75] fix: a block containing "line 1" keeps its own line
 number in the message

---
 nclangsrv/NCParser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..f546eed 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -439,7 +439,12 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         {
             ++line_err;
             auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.compare(0, 2, "1:") == 0)
+            {
+                // the rest quotes the block, whatever it says
+                message = std::to_string(line_nbr) + message.substr(1);
+            }
+            else if (pos != std::string::npos)
             {
                 message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
             }
@@ -450,10 +455,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
                     message = data;
                     message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
                 }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
                 else
                 {
                     message = std::to_string(line_nbr) + ": " + message;
-- 
2.43.0


From a98c4eda3ca3edfbce539ae63bbf503a0b0ac988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:20 +0000
Subject: [PATCH 34/75] fix: unreadable grammar or code groups are reported for
 every document

---
 nclangsrv/NCParser.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index f546eed..21fbc81 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -275,11 +275,11 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": grammarPath: " << grammarPath << std::endl;
         mWordGrammarReader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
-
-        if (!mWordGrammarReader->read())
-            return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
     }
 
+    if (!mWordGrammarReader->read())
+        return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
+
     if (!mGCodeGroupsReader.get())
     {
         const auto         fsRootPath = fs::path(mRootPath);
@@ -291,11 +291,11 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": gCodeGroupsPath: " << gCodeGroupsPath << std::endl;
         mGCodeGroupsReader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
-
-        if (!mGCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
     }
 
+    if (!mGCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
+
     if (!mMCodeGroupsReader.get())
     {
         const auto         fsRootPath = fs::path(mRootPath);
@@ -307,11 +307,11 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": mCodeGroupsPath: " << mCodeGroupsPath << std::endl;
         mMCodeGroupsReader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
-
-        if (!mMCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
     }
 
+    if (!mMCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
+
     auto word_grammar = mWordGrammarReader->getWordGrammar();
     auto operations   = mWordGrammarReader->getOperations();
 
-- 
2.43.0


From 987cc8b59062b2a4ed9602c79c62e52dc8a6c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 35/75] fix: a code lens is resolved against its own document

---
 nclangsrv/JsonMessageHandler.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 97a6cf4..5339e0e 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -973,6 +973,10 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
             {
                 entry.AddMember("range", makeRange(static_cast<int>(value.first), 0, 0, a), a);
 
+                rapidjson::Value document;
+                document.SetString(uri.c_str(), static_cast<rapidjson::SizeType>(uri.size()), a);
+                entry.AddMember("data", document, a);
+
                 // --- optional, if not provided then codeLens/resolve request will be sent to resolve missing commands.
                 // But since computation of Path/Time is in no time (already computed) then it is faster to send
                 // everything in one go. Resolving one by one seems to be a performance problem on Windows which is
@@ -1023,15 +1027,18 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     const auto& start  = member(range, "start");
     const int   line   = intMember(start, "line");
 
+    // a lens names its document
+    const std::string uri =
+        params.HasMember("data") && params["data"].IsString() ? params["data"].GetString() : mCurrentUri;
+
     PathTimeResult* pathTimeResult{};
 
-    auto it = mFileContexts.find(mCurrentUri);
+    auto it = mFileContexts.find(uri);
     if (it == mFileContexts.cend())
     {
         if (mLogger)
         {
-            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << mCurrentUri
-                   << std::endl;
+            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << uri << std::endl;
             mLogger->flush();
         }
     }
-- 
2.43.0


From 6cd3e9f77847e646bf4156f23ce216b65a84d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 36/75] fix: rotation of axes knows codes written with leading
 zeros

---
 parser/fanuc/AxesRotator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..cd4f637 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -194,7 +195,8 @@ public:
             if (!data.value)
                 return;
 
-            auto& val = *data.value;
+            std::string val(*data.value);
+            val.erase(0, std::min(val.find_first_not_of('0'), val.size() - 1)); // G02 is G2
             if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
                 return;
 
@@ -202,7 +204,7 @@ public:
             if (wt_item == std::end(wtm))
                 return;
 
-            val = std::to_string(wt_item->second.value);
+            data.value = std::to_string(wt_item->second.value);
         }
     }
 
-- 
2.43.0


From 42ec55fa380bca7df71321813da76b17184f425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 37/75] fix: rotation of axes leaves the time of a dwell alone

---
 parser/fanuc/AxesRotator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index cd4f637..9addb0c 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -219,6 +219,13 @@ private:
 
 void AxesRotator::operator()(AxesRotatingOption option, std::vector<AttributeVariant>& value)
 {
+    for (const auto& attr : value)
+    {
+        const auto* code = boost::get<DecimalAttributeData>(&attr);
+        if (code && code->word == "G" && !code->macro && code->value && !code->value2 && std::stoi(*code->value) == 4)
+            return; // X is the time of the dwell
+    }
+
     AttributesAxesRotatorVisitor attributes_visitor(wtom.at(option));
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(attributes_visitor, value[x]);
-- 
2.43.0


From 6e65ccd71f9720164f0c027a472b569974a71bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 38/75] fix: unit conversion honours G4 and G68 wherever they
 stand in the block

---
 parser/fanuc/UnitConverter.cpp | 42 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..a0257c0 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -28,6 +28,23 @@ public:
     {
     }
 
+    // the codes decide about all the words of the block, also about the ones in front of them
+    void find_codes(const std::vector<AttributeVariant>& value)
+    {
+        for (const auto& attr : value)
+        {
+            const auto* data = boost::get<DecimalAttributeData>(&attr);
+            if (!data || data->word != "G" || data->macro || data->open_bracket || !data->value)
+                continue;
+            const auto val  = std::stoi(*data->value);
+            const auto val2 = data->value2 ? std::stoi(*data->value2) : 0;
+            if (val == 4)
+                ignore_rest = true;
+            else if (val == 68 && (!data->value2 || (val2 >= 2 && val2 <= 4)))
+                was_g68 = true;
+        }
+    }
+
     void operator()(DecimalAttributeData& data)
     {
         if (ignore_rest)
@@ -43,12 +60,6 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
-        {
-            ignore_rest = true;
-            return;
-        }
-
         if (data.macro || data.open_bracket || data.close_bracket)
             return;
 
@@ -65,23 +76,6 @@ public:
                 *data.value = "20";
                 return;
             }
-            else if (val == 68)
-            {
-                if (data.value2)
-                {
-                    auto val2 = std::stoi(*data.value2);
-                    if (val2 == 2 || val2 == 3 || val2 == 4)
-                    {
-                        was_g68 = true;
-                        return;
-                    }
-                }
-                else
-                {
-                    was_g68 = true;
-                    return;
-                }
-            }
         }
 
         if (was_g68)
@@ -187,6 +181,7 @@ void UnitConverter::mm_to_inch(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_imperial, conv_words_imperial,
                                                 UnitConversionType::metric_to_imperial);
+    unit_converter_visitor.find_codes(value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
@@ -195,6 +190,7 @@ void UnitConverter::inch_to_mm(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_metric, conv_words_metric,
                                                 UnitConversionType::imperial_to_metric);
+    unit_converter_visitor.find_codes(value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
-- 
2.43.0


From d49ab06e4885ffe62234100a8bc825c2b152c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 39/75] fix: blocks of a split file are numbered one after
 another

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index bd855bc..f2c771b 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -537,7 +537,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -564,7 +564,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From e5414d7ce20ae09b8d0de21c8090d0e548e17489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 40/75] fix: a wrong number of blocks, path or time of a split
 is reported

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index f2c771b..9cd55ba 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -570,6 +570,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From f7230cd0d9c928e1ee8efd75d4a32c73d153dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 41/75] fix: a block that cannot be read stops splitting by
 text

---
 parser/fanuc/AllAttributesParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 9cd55ba..5be73ef 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -499,7 +499,12 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto tmp2(t[x]);
+                    boost::algorithm::trim(tmp2);
+                    if (!renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs) && !tmp2.empty())
+                        return false;
+                }
                 ++cnt;
             }
         }
-- 
2.43.0


From 6c39b50cfec41070848345ee00f413f87d441c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 42/75] fix: other codes after G0 or G1 do not end rapid
 traverse or a cycle when splitting

---
 parser/fanuc/FileSplitter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..3e482ff 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -50,8 +50,7 @@ public:
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
                 active_g    = val;
                 drill_cycle = false;
-- 
2.43.0


From 6ccacba340a13a61185f6e4912f9dcd86bcaae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 43/75] fix: an empty part of a split file is an empty string

---
 parser/fanuc/AllAttributesParserWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..12c761f 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -474,7 +474,8 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
             tmp += "\r\n";
         }
 
-        fill_message(tmp, &(*value)[x]);
+        (*value)[x] = new char[tmp.size() + 1];
+        memcpy((*value)[x], tmp.c_str(), tmp.size() + 1);
     }
 
     fill_message(msg, message);
-- 
2.43.0


From 55e939f29453379fad785acdd0ad4147a15c4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 44/75] fix: removal of optional block marks keeps an
 assignment after a bare slash

---
 parser/fanuc/AllAttributesParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 5be73ef..1bfcbc5 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -636,7 +636,7 @@ bool AllAttributesParser::remove_optional_block(int line, const std::string& dat
     {
         if (const auto* p = boost::get<DecimalAttributeData>(&*it))
         {
-            if (p->word == "/" && p->value)
+            if (p->word == "/" && p->value && !p->macro)
             {
                 it = value.erase(it);
                 continue;
-- 
2.43.0


From 8044ebbbdf9f8ed2121d462375db4bc9dc2a23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 45/75] fix: conversion of units leaves a word without a number
 alone

---
 parser/fanuc/UnitConverter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index a0257c0..c448b66 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -91,6 +91,9 @@ public:
                          [&](const std::string& item) { return item == data.word; }))
             return;
 
+        if (!data.value && !data.value2)
+            return; // nothing to convert
+
         std::string str_value;
         if (data.value)
             str_value += *data.value;
-- 
2.43.0


From 096350bc0e47210c03228be84b6401d7b6dd9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:43 +0000
Subject: [PATCH 46/75] fix: rotation of axes does not renumber the variable of
 a G code

---
 parser/fanuc/AxesRotator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index 9addb0c..8118df2 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -192,8 +192,8 @@ public:
         }
         else if (data.word == "G")
         {
-            if (!data.value)
-                return;
+            if (!data.value || data.macro || (data.open_bracket && !data.close_bracket))
+                return; // the code is known only when the program runs
 
             std::string val(*data.value);
             val.erase(0, std::min(val.find_first_not_of('0'), val.size() - 1)); // G02 is G2
-- 
2.43.0


From 1ba482703692e5d862a12092d07d31c3d0661103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 47/75] fix: the number of a variable is not a code when
 splitting

---
 parser/fanuc/FileSplitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 3e482ff..613e366 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -38,7 +38,7 @@ public:
 
         if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             const auto val = std::stoi(*data.value);
             if ((val >= 0 && val <= 3))
@@ -62,7 +62,7 @@ public:
         }
         else if (data.word == "M")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             if (data.dot || data.value2)
                 return;
-- 
2.43.0


From b9df25b4addbc4fc2a4cd0f03bda549c8c17f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 48/75] fix: an empty line adds no path or time when splitting

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 1bfcbc5..6c9326f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -522,10 +522,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 if (!tmp.empty() && !parse(x, data[x], v, message, single_line_msg, {true, false, true}))
                     return false;
                 vtmp.emplace_back(std::move(v));
+                // an empty line moves nothing
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : attr_path_calc->get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : attr_path_calc->get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From a983a6f0d486410bc3738a69441b235ece25a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 49/75] fix: a word with an empty bracket does not end the
 parser

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 parser/fanuc/SystemMacroAssigner.cpp      | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 3b8ae0d..a903c13 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -69,7 +69,7 @@ public:
 
         if (itor != std::cend(gcode_params))
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             // if(data.assign)
@@ -99,7 +99,7 @@ public:
         }
         else if (data.word == "F")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
@@ -114,7 +114,7 @@ public:
         }
         else if (data.word == "S")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
diff --git a/parser/fanuc/SystemMacroAssigner.cpp b/parser/fanuc/SystemMacroAssigner.cpp
index cafd964..30155e8 100644
--- a/parser/fanuc/SystemMacroAssigner.cpp
+++ b/parser/fanuc/SystemMacroAssigner.cpp
@@ -31,6 +31,8 @@ public:
 
     void operator()(const DecimalAttributeData& data)
     {
+        if (!data.value && !data.value2)
+            return; // a bracket without a number
         auto value_extractor = [](const DecimalAttributeData& data) {
             std::string str;
             if (data.sign)
-- 
2.43.0


From a1c89423a4eac58eec07bf9fa00678768892387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 50/75] fix: a variable that cannot be calculated is refused
 with its message

---
 parser/fanuc/AllAttributesParser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6c9326f..750ec79 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -232,10 +232,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         }
 
         if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
-        {
-            message = all_attr_grammar->get_message();
-            return false;
-        }
+            return false; // the message says why
 
         std::vector<AttributeVariant> value2;
 
-- 
2.43.0


From bc28f0612740618d703f59654985b88500a5338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 51/75] fix: the programming mode after a tool exchange is not
 read from a dead temporary

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a903c13..67f541b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -400,7 +400,7 @@ private:
     const std::vector<std::string>*      og;
     const int&                           g;
     const std::string_view               da;
-    const EProgrammingType&              g9091;
+    const EProgrammingType               g9091; // a copy because it may be bound to a temporary
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From f703948a2d1b23e40cee12c8a6d3d04c4d171995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 52/75] fix: an expression nested too deeply is refused instead
 of overflowing the stack

---
 parser/fanuc/ValueCalculator.cpp | 42 ++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index b07c1bc..6a472d1 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -6,9 +6,11 @@
 #include "MessageTextImpl.h"
 #include "ValueCalculator.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <vector>
 
 #ifndef M_PI
 #define M_PI (3.14159265358979323846)
@@ -383,6 +385,39 @@ private:
     qi::rule<Iterator, operand_type(), qi::blank_type>  factor;
 };
 
+// brackets and signs which are open at once; the grammar is recursive, so it has to be limited
+static size_t get_nesting(const std::string& data)
+{
+    std::vector<size_t> brackets;
+    size_t              signs{}, depth{}, ret{};
+    for (const auto c : data)
+    {
+        if (c == ' ' || c == '\t')
+            continue;
+        if (c == '[' || c == '(')
+        {
+            brackets.push_back(depth);
+            depth += signs + 1;
+            signs = 0;
+        }
+        else if (c == ']' || c == ')')
+        {
+            signs = 0;
+            if (!brackets.empty())
+            {
+                depth = brackets.back();
+                brackets.pop_back();
+            }
+        }
+        else if (c == '+' || c == '-' || c == '#')
+            ++signs;
+        else
+            signs = 0;
+        ret = std::max(ret, depth + signs);
+    }
+    return ret;
+}
+
 ValueCalculator::ValueCalculator()
 {
     build_symbols();
@@ -421,6 +456,13 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 
     bool ret{};
 
+    constexpr size_t max_nesting = 100;
+    if (get_nesting(data) > max_nesting)
+    {
+        message = make_message(MessageName::UnsupportedOperation, language, data);
+        return false;
+    }
+
     calculator<pos_iterator_type> calc(sym);
 
     try
-- 
2.43.0


From 1ee83447961e2a0787cd932eabd8ff0542cfb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:58 +0000
Subject: [PATCH 53/75] fix: positions in a line are exchanged in UTF-16 units,
 as the protocol demands

---
 nclangsrv/JsonMessageHandler.cpp | 47 ++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5339e0e..63b8e66 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -2,6 +2,7 @@
 
 #include "JsonMessageHandler.h"
 
+#include <algorithm>
 #include <chrono>
 #include <filesystem>
 #include <iostream>
@@ -148,18 +149,46 @@ void hoverMakeResult(const std::string& contents, int line, size_t from, size_t
     result.AddMember("range", makeRange(line, from, to, a), a);
 }
 
+// the protocol counts the characters of a line in UTF-16 code units, the lines are UTF-8
+size_t utf16Units(unsigned char c)
+{
+    if ((c & 0xC0) == 0x80)
+        return 0; // continues a character
+    return c >= 0xF0 ? 2 : 1;
+}
+
+size_t toUtf16(const std::string& line, size_t pos)
+{
+    size_t units = pos > line.size() ? pos - line.size() : 0;
+    for (size_t x = 0; x < std::min(pos, line.size()); ++x)
+        units += utf16Units(static_cast<unsigned char>(line[x]));
+    return units;
+}
+
+size_t fromUtf16(const std::string& line, size_t character)
+{
+    size_t units{};
+    for (size_t pos = 0; pos < line.size(); ++pos)
+    {
+        units += utf16Units(static_cast<unsigned char>(line[pos]));
+        if (units > character)
+            return pos;
+    }
+    return line.size() + character - units;
+}
+
 std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
 {
-    size_t      pos{};
-    std::string strLine = contentLine;
-    std::smatch m;
+    size_t       pos{};
+    std::string  strLine = contentLine;
+    std::smatch  m;
+    const size_t searched = character < 0 ? std::string::npos : fromUtf16(contentLine, character);
     while (std::regex_search(strLine, m, r))
     {
-        if (character >= static_cast<int>(pos + m.position()) &&
-            character < static_cast<int>(pos + m.position() + m.str().size()))
+        if (searched >= pos + m.position() && searched < pos + m.position() + m.str().size())
         {
-            from = pos + m.position();
-            to   = pos + m.position() + m.str().size();
+            from = toUtf16(contentLine, pos + m.position());
+            to   = toUtf16(contentLine, pos + m.position() + m.str().size());
             break;
         }
         pos += m.position() + m.str().size();
@@ -1160,7 +1189,7 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
     std::tie(messages, fileContext.macroMap, fileContext.pathTimeResult) = mParser.parse(content);
 
     mFileContexts.erase(uri);
-    mFileContexts.emplace(std::make_pair(uri, std::move(fileContext)));
+    const auto& contentLines = mFileContexts.emplace(uri, std::move(fileContext)).first->second.contentLines;
 
     std::string macroDescErr;
     try
@@ -1224,6 +1253,8 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                 number(character);
             result_message = error_message.substr(pos);
             boost::algorithm::trim(result_message);
+            if (static_cast<size_t>(line) < contentLines.size())
+                character = static_cast<int32_t>(toUtf16(contentLines[line], character));
 
             if (line != 0 or character != 0 or not result_message.empty())
             {
-- 
2.43.0


From 2ad6c3dce7f9cf0e3c3ec48867318ac7eceabcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 54/75] fix: hovering over a very long number does not overflow
 the stack

---
 nclangsrv/JsonMessageHandler.cpp | 60 ++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 63b8e66..ccfd64f 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -177,25 +177,45 @@ size_t fromUtf16(const std::string& line, size_t character)
     return line.size() + character - units;
 }
 
-std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
+bool isDigit(const std::string& line, size_t pos)
 {
-    size_t       pos{};
-    std::string  strLine = contentLine;
-    std::smatch  m;
-    const size_t searched = character < 0 ? std::string::npos : fromUtf16(contentLine, character);
-    while (std::regex_search(strLine, m, r))
+    return pos < line.size() && line[pos] >= '0' && line[pos] <= '9';
+}
+
+// the word of one of the letters (or of #, if there are none) followed by a number
+std::string searchWord(const std::string& letters, bool macro, const std::string& line, int character, size_t& from,
+                       size_t& to)
+{
+    if (character < 0)
+        return {};
+
+    const size_t searched = fromUtf16(line, character);
+    for (size_t begin = 0; begin < line.size(); ++begin)
     {
-        if (searched >= pos + m.position() && searched < pos + m.position() + m.str().size())
+        size_t end = begin;
+        if (!letters.empty() && letters.find(line[end++]) == std::string::npos)
+            continue;
+        if (macro && (end == line.size() || line[end++] != '#'))
+            continue;
+        if (!isDigit(line, end))
+            continue;
+        while (isDigit(line, end))
+            ++end;
+        if (!macro && end < line.size() && line[end] == '.')
+            ++end;
+        if (!macro && isDigit(line, end))
+            ++end;
+
+        if (searched >= begin && searched < end)
         {
-            from = toUtf16(contentLine, pos + m.position());
-            to   = toUtf16(contentLine, pos + m.position() + m.str().size());
-            break;
+            from = toUtf16(line, begin);
+            to   = toUtf16(line, end);
+            return line.substr(begin, end - begin);
         }
-        pos += m.position() + m.str().size();
-        strLine = m.suffix();
+        begin = end - 1;
     }
 
-    return m.str();
+    return {};
 }
 
 std::string extractCode(const std::string& data)
@@ -812,11 +832,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
-        size_t     from{};
-        size_t     to{};
-        std::regex r("[GgMm]\\d+\\.?\\d?");
+        size_t from{};
+        size_t to{};
 
-        std::string contents = searchPattern(r, strLine, character, from, to);
+        std::string contents = searchWord("GgMm", false, strLine, character, from, to);
 
         if (!contents.empty())
         {
@@ -850,8 +869,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             size_t from{};
             size_t to{};
 
-            std::regex  rGM("[GgMm]#\\d+");
-            std::string contents = searchPattern(rGM, strLine, character, from, to);
+            std::string contents = searchWord("GgMm", true, strLine, character, from, to);
             if (!contents.empty() && contents.size() > 2)
             {
                 std::string code = extractCode(contents.substr(2));
@@ -892,9 +910,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             }
             else
             {
-                std::regex rm("#\\d+");
-
-                std::string contents = searchPattern(rm, strLine, character, from, to);
+                std::string contents = searchWord("", true, strLine, character, from, to);
 
                 if (!contents.empty())
                 {
-- 
2.43.0


From 882f2c2909c85a1b03d16ab4b7aa64fa77084571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 55/75] fix: a tab is one character of a line in the position
 of an error

---
 parser/fanuc/AllAttributesParser.cpp      | 4 ++--
 parser/fanuc/ValueCalculator.cpp          | 2 +-
 parser/heidenhain/AllAttributesParser.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 750ec79..d8ac0a0 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -285,7 +285,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first);
+        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
@@ -359,7 +359,7 @@ bool AllAttributesParser::simple_parse(int line, std::string_view data, std::vec
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 6a472d1..f9ed89f 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -479,7 +479,7 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
 
         std::stringstream msg;
         msg << line << ":" << column << ": " << std::string(e.first, e.last);
diff --git a/parser/heidenhain/AllAttributesParser.cpp b/parser/heidenhain/AllAttributesParser.cpp
index 91cd5ee..3a9f623 100644
--- a/parser/heidenhain/AllAttributesParser.cpp
+++ b/parser/heidenhain/AllAttributesParser.cpp
@@ -101,7 +101,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
@@ -140,7 +140,7 @@ bool AllAttributesParser::simple_parse(int line, const std::string& data, std::v
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
-- 
2.43.0


From 848a5dec4be2baaf0ac65c777ea3207dfeabca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 56/75] fix: a message nested too deeply is refused instead of
 overflowing the stack

---
 nclangsrv/JsonMessageHandler.cpp | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index ccfd64f..08925fa 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -37,6 +37,35 @@ namespace {
 constexpr int MethodNotFound = -32601;
 constexpr int InvalidParams  = -32602;
 
+// the parser and the writer of messages are recursive
+constexpr size_t MaxNesting = 1000;
+
+bool isNestedTooDeeply(const std::string& json)
+{
+    size_t depth{};
+    bool   quoted{};
+    for (size_t x = 0; x < json.size(); ++x)
+    {
+        if (quoted)
+        {
+            if (json[x] == '\\')
+                ++x;
+            else if (json[x] == '"')
+                quoted = false;
+        }
+        else if (json[x] == '"')
+            quoted = true;
+        else if (json[x] == '[' || json[x] == '{')
+        {
+            if (++depth > MaxNesting)
+                return true;
+        }
+        else if ((json[x] == ']' || json[x] == '}') && depth > 0)
+            --depth;
+    }
+    return false;
+}
+
 // access to the members of a message, whatever the client has sent
 const rapidjson::Value& member(const rapidjson::Value& value, const char* name)
 {
@@ -298,6 +327,13 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
+    if (isNestedTooDeeply(json))
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": message nested too deeply" << std::endl;
+        return false;
+    }
+
     rapidjson::Document d;
 
     rapidjson::ParseResult parse_result = d.Parse(json.c_str());
-- 
2.43.0


From a521c60aa45bc4a447eefff82144439ec29392dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:54 +0000
Subject: [PATCH 57/75] fix: an expression which cannot be read is named
 instead of a position inside it

---
 parser/fanuc/ValueCalculator.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index f9ed89f..c5fd4e5 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -476,14 +476,10 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 #endif
         value = eval(macro_values, language)(p);
     }
-    catch (const qi::expectation_failure<pos_iterator_type>& e)
+    catch (const qi::expectation_failure<pos_iterator_type>&)
     {
-        size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first, 1);
-
-        std::stringstream msg;
-        msg << line << ":" << column << ": " << std::string(e.first, e.last);
-        message = msg.str();
+        // no position, because it would be the one in the expression and not in the block
+        message = make_message(MessageName::UnsupportedOperation, language, data);
     }
     catch (const eval_exception& e)
     {
-- 
2.43.0


From 4eb4383c60eb1886f2652067d790942a76cee5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 58/75] fix: the status shows the whole name of a configuration
 file without machine id

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 9a2d51f..f5df9b9 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -171,7 +171,7 @@ function stem(ncsettingFilePath: string) {
     const normalized = path.normalize(ncsettingFilePath);
     const filename = path.basename(normalized);
     const ext = path.extname(normalized);
-    return filename.replace(ext, "");
+    return path.basename(filename, ext);
 }
 
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-- 
2.43.0


From bd0517f97017d654568c13230027a72e1b62216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 59/75] fix: the configuration tool is not started where it is
 not supported

---
 vscode-client/src/extension.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index f5df9b9..1613e0c 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -349,6 +349,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
     const disposable = commands.registerCommand("ncproj.ncsettingCreate", () => {
         if (process.platform != "win32") {
             window.showInformationMessage("Function not supported.");
+            return;
         }
         if (cmtConfigRunning) {
             window.showInformationMessage("Configuration window is already running!");
-- 
2.43.0


From 29ad41e53da8d3499dcb9bc5997594cfff4372d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 60/75] fix: the configuration tool is found in a folder with
 blanks

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 1613e0c..0f552cf 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -355,7 +355,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell(exeCmtconfigPath, options);
+            execShell('"' + exeCmtconfigPath + '"', options);
         }
     });
 
-- 
2.43.0


From 463e8f9fb97396686938fb553e760be558458825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 61/75] fix: the status shows the latest content of the
 configuration file

---
 vscode-client/src/extension.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 0f552cf..11da507 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -142,8 +142,14 @@ async function startLangServerNCProj(executable: string, cwd: string) {
     afterStartLangServer(executable);
 }
 
+let lastStatusRequest = 0;
+
 function setStatusText(ncsettingFilePath: string) {
+    const statusRequest = ++lastStatusRequest;
     fs.readFile(ncsettingFilePath, (err, data) => {
+        if (statusRequest != lastStatusRequest) {
+            return; // a newer content is being read
+        }
         let statusText: string;
         if (err) {
             console.log(err);
-- 
2.43.0


From 3e1a1ff5bf5eeb42ba340d4d57938dd9f0ee5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 62/75] fix: the calculation is switched also where the
 workspace sets it

---
 vscode-client/src/extension.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 11da507..b111cba 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -372,9 +372,11 @@ function registerCmdTogglePathTimeCalculation(context: ExtensionContext) {
     const disposable = commands.registerCommand("ncproj.togglePathTimeCalculation", () => {
         const config = workspace.getConfiguration("ncproj");
         const calculatePathTime = config.get<boolean>("calculate.pathtime.enable");
+        const inWorkspace = config.inspect<boolean>("calculate.pathtime.enable")?.workspaceValue !== undefined;
+        const configurationTarget = inWorkspace ? ConfigurationTarget.Workspace : ConfigurationTarget.Global;
 
         ignoreNextConfigurationChange = true;
-        config.update("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
+        config.update("calculate.pathtime.enable", !calculatePathTime, configurationTarget);
         askReloadWindow('Please use the "Reload Window" action for setting to take effect.');
     });
 
-- 
2.43.0


From 44a3ab24ba6a0cc09bf1dfe6ae220668eb4c4cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 63/75] fix: changes of settings are neither missed after nor
 announced twice for those made by commands

---
 vscode-client/src/extension.ts | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index b111cba..d2de218 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -180,15 +180,8 @@ function stem(ncsettingFilePath: string) {
     return path.basename(filename, ext);
 }
 
-// i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-let ignoreNextConfigurationChange = false;
-
 function startListeningConfigurationChanges() {
     workspace.onDidChangeConfiguration((event) => {
-        if (ignoreNextConfigurationChange) {
-            ignoreNextConfigurationChange = false;
-            return;
-        }
         for (const s of [
             "ncproj.debug.log.path",
             "ncproj.ncsetting.file.path",
@@ -267,13 +260,9 @@ function askFilePath(
                             configurationTarget = ConfigurationTarget.Global;
                         }
                         const config = workspace.getConfiguration("ncproj");
-                        ignoreNextConfigurationChange = true;
-                        config.update(configProperty, onfulfilled[0].fsPath, configurationTarget);
-                        askReloadWindow(
-                            'Please use the "Reload Window" action for setting ' +
-                                onfulfilled[0].fsPath +
-                                " to take effect."
-                        );
+                        config
+                            .update(configProperty, onfulfilled[0].fsPath, configurationTarget)
+                            .then(undefined, reportUnsavedSetting);
                     }
                 });
         }
@@ -375,9 +364,9 @@ function registerCmdTogglePathTimeCalculation(context: ExtensionContext) {
         const inWorkspace = config.inspect<boolean>("calculate.pathtime.enable")?.workspaceValue !== undefined;
         const configurationTarget = inWorkspace ? ConfigurationTarget.Workspace : ConfigurationTarget.Global;
 
-        ignoreNextConfigurationChange = true;
-        config.update("calculate.pathtime.enable", !calculatePathTime, configurationTarget);
-        askReloadWindow('Please use the "Reload Window" action for setting to take effect.');
+        config
+            .update("calculate.pathtime.enable", !calculatePathTime, configurationTarget)
+            .then(undefined, reportUnsavedSetting);
     });
 
     context.subscriptions.push(disposable);
@@ -417,6 +406,11 @@ function registerMacroDescriptionsPlaceholder(context: ExtensionContext) {
     context.subscriptions.push(disposable);
 }
 
+// a setting which was saved is noticed as any other change of the configuration
+function reportUnsavedSetting(error: unknown) {
+    window.showErrorMessage("Unable to save the setting: " + error);
+}
+
 function askReloadWindow(message: string) {
     window.showWarningMessage(message, ...["Reload Window"]).then((selection) => {
         if (selection === "Reload Window") {
-- 
2.43.0


From 80cbd489bfa12fd62e0534c3d0ba26bf7c00f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:25 +0000
Subject: [PATCH 64/75] fix: a helix programmed by its radius does not take the
 centre of earlier arcs

---
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 67f541b..2623f4a 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -985,7 +985,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
         if (active_helix != EHelixType::None)
         {
-            calculate_arc     = false;
+            calculate_arc = false;
+            if (r && (!i || !j)) // the radius replaces the centre of earlier arcs
+            {
+                prev_values.erase(param1);
+                prev_values.erase(param2);
+            }
             const auto i_prev = get_optional_value(prev_values, param1);
             const auto j_prev = get_optional_value(prev_values, param2);
             const auto k_prev = get_optional_value(prev_values, param3);
-- 
2.43.0


From 5d3ae86921552627d44239abe8cb5f39a9f8bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 65/75] fix: dwells, feed and spindle modes in a block that
 selects a tool take effect

---
 parser/fanuc/AttributesPathCalculator.cpp | 30 +++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 2623f4a..d15c5fa 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -527,6 +527,19 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     if (was_pallet_exchange)
         time_result.total += kinematics.pallet_exchange_time;
 
+    if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "4"; }) !=
+        std::cend(other_g))
+    {
+        for (const auto& word : {"X", "U", "P"})
+        {
+            if (const auto it = values.find(word); it != std::cend(values))
+            {
+                time_result.total += it->second;
+                values.erase(it);
+            }
+        }
+    }
+
     if (t)
     {
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
@@ -584,6 +597,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 active_f = *f;
             if (s)
                 active_s = *s;
+            if (g9697)
+                active_g9697 = *g9697;
+            if (feed_mode)
+                active_feed_mode = *feed_mode;
             copy_on_return cr{
                 active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
                 &other_g}; // save axis in case the start values are provided together with tool change
@@ -591,19 +608,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
-    if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "4"; }) !=
-        std::cend(other_g))
-    {
-        for (const auto& word : {"X", "U", "P"})
-        {
-            if (const auto it = values.find(word); it != std::cend(values))
-            {
-                time_result.total += it->second;
-                values.erase(it);
-            }
-        }
-    }
-
     for (auto it = std::cbegin(values);
          it != std::cend(values);) // they are not positions so there is no motion to them
         it = is_ignored_value(it->first, other_g) ? values.erase(it) : std::next(it);
-- 
2.43.0


From a5acfca67d28469e0737cb97eed71f9378bf29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 66/75] fix: a tool exchange or return to the base point leaves
 the axes there, whatever other code the block has

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index d15c5fa..ce44229 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1404,16 +1404,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                           EProgrammingType::Absolute,
                           machine_points_data.tool_exchange_point,
                           prev_values,
-                          word_range,
-                          &other_g};
+                          word_range};
     else if (move_to_machine_base_point)
         copy_on_return cr{active_g,
                           get_drill_axis(machine_tool, active_g171819),
                           EProgrammingType::Absolute,
                           machine_points_data.machine_base_point,
                           prev_values,
-                          word_range,
-                          &other_g};
+                          word_range};
     else
         copy_on_return cr{
             active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
-- 
2.43.0


From e0415db1eb41de7c8f5e99d69bf8f163b710c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 67/75] fix: a return to the base point is made also in a block
 that selects a tool

---
 parser/fanuc/AttributesPathCalculator.cpp | 39 +++++++++++++----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ce44229..8d2a573 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -540,6 +540,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
+    if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
+        std::cend(other_g))
+        move_to_machine_base_point = true;
+
     if (t)
     {
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
@@ -593,18 +597,25 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
-            if (f)
-                active_f = *f;
-            if (s)
-                active_s = *s;
-            if (g9697)
-                active_g9697 = *g9697;
-            if (feed_mode)
-                active_feed_mode = *feed_mode;
-            copy_on_return cr{
-                active_g, get_drill_axis(machine_tool, active_g171819), active_g9091, values, prev_values, word_range,
-                &other_g}; // save axis in case the start values are provided together with tool change
-            return;
+            if (!move_to_machine_base_point)
+            {
+                if (f)
+                    active_f = *f;
+                if (s)
+                    active_s = *s;
+                if (g9697)
+                    active_g9697 = *g9697;
+                if (feed_mode)
+                    active_feed_mode = *feed_mode;
+                copy_on_return cr{active_g,
+                                  get_drill_axis(machine_tool, active_g171819),
+                                  active_g9091,
+                                  values,
+                                  prev_values,
+                                  word_range,
+                                  &other_g}; // save axis in case the start values are provided together with tool change
+                return;
+            }
         }
     }
 
@@ -612,10 +623,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
          it != std::cend(values);) // they are not positions so there is no motion to them
         it = is_ignored_value(it->first, other_g) ? values.erase(it) : std::next(it);
 
-    if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
-        std::cend(other_g))
-        move_to_machine_base_point = true;
-
     if (move_to_tool_exchange_point || move_to_machine_base_point)
         active_g = 0;
 
-- 
2.43.0


From 61c338410771d092c60e89ad9cd8f9bac06e2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:42 +0000
Subject: [PATCH 68/75] fix: pallet exchange and tool measurement codes are
 recognized with leading zeros

---
 parser/fanuc/AttributesPathCalculator.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8d2a573..86f73fa 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -35,6 +35,16 @@ constexpr bool is_drill_cycle_qparam(int value)
                        [value](EDrillGmode gmode) { return static_cast<int>(gmode) == value; });
 }
 
+bool is_same_code(std::string_view value, std::string_view code_value) // leading zeros make no other code
+{
+    const auto trim_zeros = [](std::string_view v) {
+        while (v.size() > 1 && v.front() == '0')
+            v.remove_prefix(1);
+        return v;
+    };
+    return trim_zeros(value) == trim_zeros(code_value);
+}
+
 class AttributesPathCalculatorVisitor : public boost::static_visitor<>
 {
 public:
@@ -135,12 +145,13 @@ public:
                 return;
             if (std::stoi(*data.value) == 6)
                 m6 = true;
-            if (data.word == kinematics.pallet_exchange_code && *data.value == kinematics.pallet_exchange_code_value)
+            if (data.word == kinematics.pallet_exchange_code &&
+                is_same_code(*data.value, kinematics.pallet_exchange_code_value))
                 pallet_exchange = true;
             if (!kinematics.auto_measure_after_tool_selection)
             {
                 if (data.word == kinematics.tool_measurement_code &&
-                    *data.value == kinematics.tool_measurement_code_value)
+                    is_same_code(*data.value, kinematics.tool_measurement_code_value))
                     tool_measurement = true;
             }
         }
@@ -178,11 +189,13 @@ public:
 
     void operator()(const StringAttributeData& data)
     {
-        if (data.word == kinematics.pallet_exchange_code && data.value == kinematics.pallet_exchange_code_value)
+        if (data.word == kinematics.pallet_exchange_code &&
+            is_same_code(data.value, kinematics.pallet_exchange_code_value))
             pallet_exchange = true;
         if (!kinematics.auto_measure_after_tool_selection)
         {
-            if (data.word == kinematics.tool_measurement_code && data.value == kinematics.tool_measurement_code_value)
+            if (data.word == kinematics.tool_measurement_code &&
+                is_same_code(data.value, kinematics.tool_measurement_code_value))
                 tool_measurement = true;
         }
     }
-- 
2.43.0


From 6881e6a5c2b450b8d9bce2099241ccbe24f54571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 69/75] fix: G80.4 to G81.8, G91.1 and G92.1 are no drilling
 cycle, cancellation, programming mode or motion

---
 parser/fanuc/AttributesPathCalculator.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 86f73fa..a6d3e81 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -160,8 +160,13 @@ public:
             if (!data.value)
                 return;
             const auto val = std::stoi(*data.value);
-            if (const auto vale = static_cast<EWorkPlane>(val);
-                vale == EWorkPlane::XY || vale == EWorkPlane::XZ || vale == EWorkPlane::YZ)
+            // G80.5, G81.4 or G91.1 are codes of their own
+            const auto is_other_code = data.value2 && std::stoi(*data.value2) != 0 &&
+                                       (val == 80 || val == 81 || val == 91);
+            if (is_other_code)
+                other_g.push_back(std::to_string(val) + '.' + *data.value2);
+            else if (const auto vale = static_cast<EWorkPlane>(val);
+                     vale == EWorkPlane::XY || vale == EWorkPlane::XZ || vale == EWorkPlane::YZ)
                 active_g171819 = vale;
             else if ((val >= 0 && val <= 3) || val == 80 || is_drill_cycle(val) || is_drill_cycle_qparam(val))
                 active_g = val;
@@ -309,9 +314,9 @@ private:
 auto get_ignore_g_codes()
 {
     static const std::map<std::string_view, std::vector<std::string_view>> ignore_g_codes = {
-        {"X", {"4", "10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92"}},
-        {"Y", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92"}},
-        {"Z", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92"}},
+        {"X", {"4", "10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
+        {"Y", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
+        {"Z", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
         {"I", {"68.2", "68.4"}},
         {"J", {"68.2", "68.4"}},
         {"K", {"68.2", "68.4"}},
-- 
2.43.0


From c5f02e6be8a22769cb87e470aeb1679896f4f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:12 +0000
Subject: [PATCH 70/75] fix: G80.5 and G81.4 neither end nor begin a drilling
 cycle when a program is split

---
 parser/fanuc/FileSplitter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 613e366..283cb81 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -41,7 +41,13 @@ public:
             if (!data.value || data.macro)
                 return;
             const auto val = std::stoi(*data.value);
-            if ((val >= 0 && val <= 3))
+            // G80.5 or G81.4 are codes of their own
+            const auto is_other_code = data.value2 && std::stoi(*data.value2) != 0 && (val == 80 || val == 81);
+            if (is_other_code)
+            {
+                other_g = std::make_optional(val);
+            }
+            else if ((val >= 0 && val <= 3))
             {
                 active_g = val;
             }
-- 
2.43.0


From 1f49f95b06e5e0416461e78a5c04767cebdcae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:25 +0000
Subject: [PATCH 71/75] fix: G81.4 is no drilling cycle for the verification of
 the rotation either

---
 parser/fanuc/RotationVerifier.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/RotationVerifier.cpp b/parser/fanuc/RotationVerifier.cpp
index c19604f..8cd79a2 100644
--- a/parser/fanuc/RotationVerifier.cpp
+++ b/parser/fanuc/RotationVerifier.cpp
@@ -47,8 +47,9 @@ void RotationVerifierVisitor::operator()(const DecimalAttributeData& data)
     }
     else if (!cnc_default_values->operator_turns_on_rotation && data.word == "G" && data.value)
     {
-        int32_t value = std::stoi(*data.value);
-        if (value == 1 || (value >= 81 && value <= 89))
+        int32_t    value         = std::stoi(*data.value);
+        const auto is_other_code = value == 81 && data.value2 && std::stoi(*data.value2) != 0; // G81.4 drills nothing
+        if (!is_other_code && (value == 1 || (value >= 81 && value <= 89)))
         {
             G = true;
         }
-- 
2.43.0


From 0714df7ad0fed1f2e874d602265500ea5c4aab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 72/75] fix: M6 alone exchanges the tool preselected before

---
 parser/fanuc/AttributesPathCalculator.cpp | 17 ++++++++++++++++-
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a6d3e81..ac3316b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -278,6 +278,14 @@ public:
         }
     }
 
+    std::optional<std::string> get_t_after_exchange() const
+    {
+        if (active_t.size() < 2)
+            return std::nullopt;
+        else
+            return std::make_optional(active_t.back());
+    }
+
     auto was_pallet_exchange() const
     {
         return pallet_exchange;
@@ -486,6 +494,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    preselected_t.reset();
     active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g,     get_drill_axis(machine_tool, active_g171819),
                       active_g9091, machine_points_data.machine_base_point,
@@ -515,7 +524,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(attributes_visitor, value[x]);
 
-    const auto  t                    = attributes_visitor.get_t();
+    auto        t                    = attributes_visitor.get_t();
     const auto  f                    = attributes_visitor.get_f();
     const auto  s                    = attributes_visitor.get_s();
     const auto  g                    = attributes_visitor.get_g();
@@ -535,6 +544,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     if (!cnc_default_values.tool_number_executes_exchange && was_m6)
     {
+        if (!t) // the tool was selected in an earlier block
+            t = preselected_t;
+        preselected_t = attributes_visitor.get_t_after_exchange();
+
         move_to_tool_exchange_point = true;
         time_result.total += kinematics.tool_exchange_time;
         if (kinematics.auto_measure_after_tool_selection)
@@ -615,6 +628,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            preselected_t = t;
+
             if (!move_to_machine_base_point)
             {
                 if (f)
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 6bfbb4e..bdd6559 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -98,6 +98,7 @@ private:
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
     std::string                   active_t;
+    std::optional<std::string>    preselected_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
 #ifdef _MSC_VER
 #pragma warning(pop)
-- 
2.43.0


From 795caff4982004d5c540e6af57e70004a18d99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 73/75] fix: T05 and T5 are one tool in the totals by tool

---
 parser/fanuc/AttributesPathCalculator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ac3316b..76b82c3 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -501,6 +501,12 @@ void AttributesPathCalculator::reset()
                       prev_values,  word_range};
 }
 
+static std::string tool_key(const std::string& t) // T05 is the same tool as T5
+{
+    const auto pos = t.find_first_not_of('0');
+    return pos == std::string::npos ? t.substr(0, 1) : t.substr(pos);
+}
+
 template <typename T, typename U>
 std::optional<U> get_optional_value(const std::map<T, U>& values, const std::string& param)
 {
@@ -580,8 +586,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
             active_auto_rapid_traverse_after_tool_exchange = true;
 
-        t_path[active_t] = path_result.tool_total;
-        t_time[active_t] = time_result.tool_total;
+        t_path[tool_key(active_t)] = path_result.tool_total;
+        t_time[tool_key(active_t)] = time_result.tool_total;
 
         if (cnc_default_values.tool_number_executes_exchange ||
             (!cnc_default_values.tool_number_executes_exchange && was_m6))
@@ -603,11 +609,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
 
         path_result.tool_total = 0;
-        if (const auto it = t_path.find(active_t); it != std::end(t_path))
+        if (const auto it = t_path.find(tool_key(active_t)); it != std::end(t_path))
             path_result.tool_total = it->second;
 
         time_result.tool_total = 0;
-        if (const auto it = t_time.find(active_t); it != std::end(t_time))
+        if (const auto it = t_time.find(tool_key(active_t)); it != std::end(t_time))
             time_result.tool_total = it->second;
 
         if (!move_to_tool_exchange_point)
-- 
2.43.0


From 6b5386775b1b3d7ee1858d5c028c519c8d4ba033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 74/75] fix: the words of G50, G51, G65 and G66 are no
 coordinates

---
 parser/fanuc/AttributesPathCalculator.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 76b82c3..711afcf 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -322,13 +322,14 @@ private:
 auto get_ignore_g_codes()
 {
     static const std::map<std::string_view, std::vector<std::string_view>> ignore_g_codes = {
-        {"X", {"4", "10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
-        {"Y", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
-        {"Z", {"10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
-        {"I", {"68.2", "68.4"}},
-        {"J", {"68.2", "68.4"}},
-        {"K", {"68.2", "68.4"}},
-        {"R", {"5", "5.1", "6.2", "10", "68", "68.3"}},
+        {"X", {"4",  "10", "50", "50.1", "51",   "51.1", "52", "53",
+               "65", "66", "66.1", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
+        {"Y", {"10", "50", "50.1", "51", "51.1", "52", "53", "65", "66", "66.1", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
+        {"Z", {"10", "50", "50.1", "51", "51.1", "52", "53", "65", "66", "66.1", "68", "68.2", "68.3", "68.4", "92", "92.1"}},
+        {"I", {"51", "65", "66", "66.1", "68.2", "68.4"}},
+        {"J", {"51", "65", "66", "66.1", "68.2", "68.4"}},
+        {"K", {"51", "65", "66", "66.1", "68.2", "68.4"}},
+        {"R", {"5", "5.1", "6.2", "10", "65", "66", "66.1", "68", "68.3"}},
         {"U", {"71", "72"}},
         {"W", {"71", "72"}},
     };
-- 
2.43.0


From 93f595c11371ddb58e985b571a1ccbf4c760c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 75/75] fix: S of G50 and G92 is the limit of the spindle
 speed, not the speed

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 711afcf..8b39561 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -533,7 +533,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     auto        t                    = attributes_visitor.get_t();
     const auto  f                    = attributes_visitor.get_f();
-    const auto  s                    = attributes_visitor.get_s();
+    auto        s                    = attributes_visitor.get_s();
     const auto  g                    = attributes_visitor.get_g();
     const auto  g171819              = attributes_visitor.get_g171819();
     const auto  g_return             = attributes_visitor.get_g_return();
@@ -549,6 +549,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     bool move_to_tool_exchange_point{};
     bool move_to_machine_base_point{};
 
+    if (std::find_if(std::cbegin(other_g), std::cend(other_g),
+                     [](const std::string& val) { return val == "50" || val == "92"; }) != std::cend(other_g))
+        s.reset(); // the limit of the spindle speed
+
     if (!cnc_default_values.tool_number_executes_exchange && was_m6)
     {
         if (!t) // the tool was selected in an earlier block
-- 
2.43.0

