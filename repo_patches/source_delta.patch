From d685a652c5dbf9fb06bd053efbba9ba331be03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 001/113] fix: token lengths of '&&' and '!'

---
 src/bms/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..ca431c1 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -228,6 +228,7 @@ namespace bit_manipulation::bms {
     case bitwise_or:
     case bitwise_not:
     case bitwise_xor:
+    case logical_not:
     case dot:
     case colon:
     case comma:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From 047d7020fa122e379701436814e650e8993bf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 002/113] fix: block comment at the end of a BMS file

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From 821b0cf5efdbf78be2031ca5080bce7b51e280a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 003/113] fix: line and column of tokens after a multi-line
 string literal

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From 14cca0bbbf2dad9464d28973d0372f79a0287634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 004/113] fix: comparison lookahead no longer looks past the
 end of its expression

---
 src/bms/parsing/parse.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..44a4b10 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1331,13 +1331,20 @@ private:
             case Token_Type::semicolon: return false;
 
             case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
+            case Token_Type::right_parenthesis:
+                if (parenthesis_level == 0) {
+                    return false;
+                }
+                --parenthesis_level;
+                break;
 
             default:
                 if (parenthesis_level != 0) {
                     continue;
                 }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
+                if (m_tokens[i].type == Token_Type::keyword_if
+                    || m_tokens[i].type == Token_Type::keyword_else
+                    || m_tokens[i].type == Token_Type::comma) {
                     return false;
                 }
                 if (is_comparison_operator(m_tokens[i].type)) {
-- 
2.43.0


From f7376e6aa84cfe0a597bd4098f76598827545db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 005/113] fix: errors in annotation arguments are reported

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 44a4b10..36b7855 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -859,6 +859,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From fb691d6a4fd6aaf969aa1a23a87b5f680ad492bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 006/113] fix: function call arguments must be separated by
 commas

---
 src/bms/parsing/parse.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 36b7855..6647368 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1437,16 +1437,17 @@ private:
         }
 
         std::pmr::vector<astp::Handle> arguments(m_program.get_memory());
-        for (bool demand_expression = false; true;) {
-            if (!demand_expression && expect(Token_Type::right_parenthesis)) {
-                break;
-            }
-            auto arg = match_expression();
-            if (!arg) {
-                return arg;
+        if (!expect(Token_Type::right_parenthesis)) {
+            do {
+                auto arg = match_expression();
+                if (!arg) {
+                    return arg;
+                }
+                arguments.push_back(m_program.push_node(std::move(*arg)));
+            } while (expect(Token_Type::comma));
+            if (!expect(Token_Type::right_parenthesis)) {
+                return Rule_Error { this_rule, const_array_one_v<Token_Type::right_parenthesis> };
             }
-            arguments.push_back(m_program.push_node(std::move(*arg)));
-            demand_expression = expect(Token_Type::comma);
         }
 
         auto annotations
-- 
2.43.0


From 389ddb543cbafb51aae7edb5ac9a932dd93dfa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 007/113] fix: string literals are not primary expressions

---
 src/bms/parsing/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 6647368..96d9f3e 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1470,7 +1470,8 @@ private:
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
-        if (const Token* t = expect(is_literal)) {
+        if (peek(is_literal) && !peek(Token_Type::string_literal)) {
+            const Token* t = expect(is_literal);
             return astp::Some_Node { astp::Literal { t->pos, m_program.extract(t->pos), t->type } };
         }
         if (const Token* t = expect(Token_Type::identifier)) {
-- 
2.43.0


From 5793fc657fd2edbeff148db667f0a30aa6db3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 008/113] fix: positions of programs, parameter lists and
 annotation lists

---
 src/bms/parsing/parse.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 96d9f3e..acb5818 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -547,6 +547,7 @@ private:
         if (!first) {
             return first;
         }
+        const Local_Source_Span first_pos = get_source_position(*first);
         std::pmr::vector<astp::Handle> declarations(m_program.get_memory());
         declarations.push_back(m_program.push_node(std::move(*first)));
 
@@ -557,8 +558,7 @@ private:
             }
             declarations.push_back(m_program.push_node(std::move(*d)));
         }
-        return astp::Some_Node { astp::Program { get_source_position(*first),
-                                                 std::move(declarations) } };
+        return astp::Some_Node { astp::Program { first_pos, std::move(declarations) } };
     }
 
     Rule_Result match_program_declaration()
@@ -760,7 +760,9 @@ private:
             if (!p) {
                 return p;
             }
-            first_pos = get<astp::Parameter>(*p).pos;
+            if (parameters.empty()) {
+                first_pos = get<astp::Parameter>(*p).pos;
+            }
             parameters.push_back(m_program.push_node(std::move(*p)));
             if (!expect(Token_Type::comma)) {
                 break;
@@ -826,7 +828,9 @@ private:
             if (!annotation) {
                 return annotation;
             }
-            first_pos = get<astp::Annotation>(*annotation).pos;
+            if (annotations.empty()) {
+                first_pos = get<astp::Annotation>(*annotation).pos;
+            }
             annotations.push_back(m_program.push_node(std::move(*annotation)));
             if (!peek(Token_Type::at)) {
                 break;
-- 
2.43.0


From 07e36ee9bdba430b8297a8654632522ca849945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 009/113] fix: parsing nested parentheses no longer takes
 exponential time

---
 src/bms/parsing/parse.cpp | 57 ++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index acb5818..0fb7232 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1185,22 +1185,18 @@ private:
 
     Rule_Result match_expression()
     {
-        bool is_conversion_expression = [&]() {
-            Scoped_Attempt always_roll_back = start_attempt();
-            return match_prefix_expression() && peek(Token_Type::keyword_as);
-        }();
-
-        return is_conversion_expression ? match_conversion_expression() //
-                                        : match_if_expression();
+        const Size begin = m_pos;
+        auto prefix = match_prefix_expression();
+        if (!prefix) {
+            return prefix;
+        }
+        return peek(Token_Type::keyword_as) ? match_conversion_expression(std::move(prefix))
+                                            : match_if_expression(begin, std::move(prefix));
     }
 
-    Rule_Result match_conversion_expression()
+    Rule_Result match_conversion_expression(Rule_Result expression)
     {
         constexpr auto this_rule = Grammar_Rule::conversion_expression;
-        auto expression = match_prefix_expression();
-        if (!expression) {
-            return expression;
-        }
         if (!expect(Token_Type::keyword_as)) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_as> };
         }
@@ -1214,9 +1210,17 @@ private:
     }
 
     Rule_Result match_if_expression()
+    {
+        const Size begin = m_pos;
+        return match_if_expression(begin, match_prefix_expression());
+    }
+
+    /// @param begin the position of the first token of `prefix`
+    /// @param prefix the prefix expression that the if-expression begins with, already matched
+    Rule_Result match_if_expression(Size begin, Rule_Result prefix)
     {
         constexpr auto this_rule = Grammar_Rule::if_expression;
-        auto left = match_binary_expression();
+        auto left = match_binary_expression(begin, std::move(prefix));
         if (!left || !expect(Token_Type::keyword_if)) {
             return left;
         }
@@ -1238,15 +1242,19 @@ private:
 
     Rule_Result match_binary_expression()
     {
-        // FIXME: use a similar roll_back_after approach to match_conversion_expression
-        if (should_binary_expression_commit_to_comparison_expression()) {
-            return match_comparison_expression();
-        }
+        const Size begin = m_pos;
+        return match_binary_expression(begin, match_prefix_expression());
+    }
 
-        auto left = match_prefix_expression();
+    Rule_Result match_binary_expression(Size begin, Rule_Result left)
+    {
         if (!left) {
             return left;
         }
+        if (should_binary_expression_commit_to_comparison_expression(begin)) {
+            return match_comparison_expression(std::move(left));
+        }
+
         const Token* op = expect(is_binary_operator);
         if (!op) {
             return left;
@@ -1328,10 +1336,10 @@ private:
     /// Thanks to this test, our parser is completely deterministic and we can avoid more complex
     /// expression parsing approach.
     /// @return `true` if we should commit, `false` otherwise.
-    bool should_binary_expression_commit_to_comparison_expression() const
+    bool should_binary_expression_commit_to_comparison_expression(Size begin) const
     {
         Size parenthesis_level = 0;
-        for (Size i = m_pos; i < m_tokens.size(); ++i) {
+        for (Size i = begin; i < m_tokens.size(); ++i) {
             switch (m_tokens[i].type) {
             case Token_Type::left_brace:
             case Token_Type::right_brace:
@@ -1362,14 +1370,14 @@ private:
         return false;
     }
 
-    Rule_Result match_comparison_expression()
+    Rule_Result match_comparison_expression(Rule_Result first)
     {
         constexpr auto this_rule = Grammar_Rule::comparison_expression;
         static constexpr Token_Type expected[]
             = { Token_Type::equals,       Token_Type::not_equals,    Token_Type::less_than,
                 Token_Type::greater_than, Token_Type::less_or_equal, Token_Type::greater_or_equal };
 
-        auto left = match_arithmetic_expression();
+        auto left = match_arithmetic_expression(std::move(first));
         if (!left) {
             return left;
         }
@@ -1377,7 +1385,7 @@ private:
         if (!op) {
             return Rule_Error { this_rule, expected };
         }
-        auto right = match_arithmetic_expression();
+        auto right = match_arithmetic_expression(match_prefix_expression());
         if (!right) {
             return right;
         }
@@ -1386,9 +1394,8 @@ private:
             op->type } };
     }
 
-    Rule_Result match_arithmetic_expression()
+    Rule_Result match_arithmetic_expression(Rule_Result left)
     {
-        auto left = match_prefix_expression();
         if (!left) {
             return left;
         }
-- 
2.43.0


From 5ba90bc5bbbff7fe55dec2ea7797df9fc12491e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 010/113] fix: uppercase hexadecimal digits

---
 src/common/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..cd953ae 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -72,6 +72,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
-- 
2.43.0


From cf0e3e3061d5be497046d2ae1831a91455ac63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 011/113] fix: detection of integer literals that are too large

---
 src/common/parse.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index cd953ae..f452b61 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -15,7 +15,7 @@ constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
     auto old = x;
     x *= y;
-    return x >= old;
+    return y == 0 || x / y == old;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
@@ -208,17 +208,20 @@ std::optional<Big_Uint> parse_uinteger_literal(std::string_view str) noexcept
 
 std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
 {
+    constexpr Big_Uint max_int = Big_Uint(-1) / 2;
+
     if (str.empty()) {
         return std::nullopt;
     }
     if (str.starts_with("-")) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        if (auto positive = parse_uinteger_literal(str.substr(1));
+            positive && *positive - (*positive != 0) <= max_int) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<Big_Int>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    if (auto result = parse_uinteger_literal(str); result && *result <= max_int) {
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 4f7212ff21c10ad30acfdffb307f42fe048bd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 012/113] fix: printing 128-bit integers with zeros among the
 low digits

---
 src/common/diagnostics.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..ea89645 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,11 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    const std::string low_digits = std::to_string(Uint64(x % exp10_19));
+    return to_string(x / exp10_19) + std::string(19 - low_digits.size(), '0') + low_digits;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0


From fc584e8decbf3163e76ef5aa4c9b37b801b3bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 013/113] fix: prose for all tokenization errors

---
 src/common/diagnostics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index ea89645..3862969 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -102,6 +102,10 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
         return "Unterminated block comment found. '/*' must have a matching '*/'";
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. There must be a closing quote.";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "Integer literal prefix must be followed by at least one digit.";
     default: //
         BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
     }
-- 
2.43.0


From 27707bc76ca62915983524c8dcb59e8866030db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 014/113] fix: move assignment of Result returns and handles
 self-assignment

---
 src/common/result.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/result.hpp b/src/common/result.hpp
index 582e735..187b8d9 100644
--- a/src/common/result.hpp
+++ b/src/common/result.hpp
@@ -137,7 +137,10 @@ public:
     constexpr Result& operator=(Result&& other) noexcept
         requires(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_assignable_v<Error>)
     {
-        if (m_has_value && other.m_has_value) {
+        if (this == &other) {
+            // do nothing
+        }
+        else if (m_has_value && other.m_has_value) {
             m_value = std::move(other.m_value);
         }
         else if (!m_has_value && !other.m_has_value) {
@@ -153,6 +156,7 @@ public:
             std::construct_at(std::addressof(m_value), std::move(other.m_value));
             m_has_value = true;
         }
+        return *this;
     }
 
     constexpr ~Result() noexcept(std::is_nothrow_destructible_v<T>
-- 
2.43.0


From 776ea3fe4e868cc1b851e3a965214f785d33240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:22 +0000
Subject: [PATCH 015/113] fix: quoting the affected line at the end of a line
 or file

---
 src/common/diagnostics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 3862969..8675422 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -625,12 +625,12 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
-    Size begin = source.rfind('\n', index);
+    Size begin = index != 0 ? source.rfind('\n', index - 1) : std::string_view::npos;
     begin = begin != std::string_view::npos ? begin + 1 : 0;
 
-    Size end = std::min(source.find('\n', index + 1), source.size());
+    Size end = std::min(source.find('\n', index), source.size());
 
     return source.substr(begin, end - begin);
 }
-- 
2.43.0


From 5887a616db31879109d12ee3c9ec4dd6ac0f3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 016/113] fix: unexpected end of file is reported at the last
 token of a BMS file

---
 src/bms/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 0fb7232..9ceadbd 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -399,7 +399,9 @@ public:
             return {};
         }
         else {
-            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : Token {};
+            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos]
+                : m_tokens.empty()                          ? Token {}
+                                                            : m_tokens.back();
             const auto [fail_rule, expected_tokens] = program.error();
             return Parse_Error { fail_rule, expected_tokens, fail_token };
         }
-- 
2.43.0


From 8e053d4ac234918416ca7e74d1c467d80705ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 017/113] fix: errors inside parentheses are reported with the
 rule that failed there

---
 src/bms/parsing/parse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 9ceadbd..a24143c 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1490,10 +1490,10 @@ private:
         if (const Token* t = expect(Token_Type::identifier)) {
             return astp::Some_Node { astp::Id_Expression { t->pos, m_program.extract(t->pos) } };
         }
-        if (auto e = match_parenthesized_expression()) {
-            return e;
+        if (peek(Token_Type::left_parenthesis)) {
+            return match_parenthesized_expression();
         }
-        // Intentionally forget about the e error to not falsely suggest that parentheses are
+        // Intentionally do not produce a parentheses error to not falsely suggest that parentheses are
         // required for a primary expression, but give feedback about the whole union.
         return Rule_Error { this_rule, expected };
     }
-- 
2.43.0


From 7ba5d240e6af77e3c5374084735f70b17b4a81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 018/113] fix: Uint types of width 1 and 128

---
 src/bms/concrete_type.hpp  | 6 +++---
 src/bms/concrete_value.hpp | 3 +--
 src/bms/value.hpp          | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..5fb0129 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width >= 1);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..43688cb 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -62,8 +62,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From 51115cdf0b3d48192045c33d5053bf5641dccae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 019/113] fix: converting negative integers to Uint(128) is a
 range error

---
 src/bms/concrete_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 43688cb..dc9bb16 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -51,7 +51,7 @@ public:
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
-- 
2.43.0


From 8499bf7e9fe50d0b22d6fb8a72883c1c4c950d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 020/113] fix: division and remainder of Uint(128) are unsigned

---
 src/bms/evaluation/operations.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..20273ea 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
-- 
2.43.0


From 969010931ad8143979aebb2ec281539a7ebc064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 021/113] fix: shifting by the operand width or more is an
 evaluation error

---
 src/bms/evaluation/operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 20273ea..fcef52a 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -429,6 +429,10 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
     }
 
     case Type_Type::Uint: {
+        if ((op == shift_left || op == shift_right)
+            && Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+            return Evaluation_Error_Code::shift_too_much;
+        }
         switch (op) {
         case less_than: //
             return compare_uint([](Big_Uint x, Big_Uint y) { return x < y; });
-- 
2.43.0


From f1cb3d2d62026cc3153c646bbae3e7dd9257cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 022/113] fix: checks of a known right operand when the left
 one is unknown

---
 src/bms/evaluation/operations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index fcef52a..0d46aa8 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -530,11 +530,11 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        if ((op == division || op == remainder) && rhs.concrete_value().int_value == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && rhs.as_uint() >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From 3da189199f37dad78660aba097f92b1424c45dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 023/113] fix: comparing Bool values for equality

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 0d46aa8..c56da2c 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -403,6 +403,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         if (op == logical_or) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value || rhs.int_value) };
         }
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Bool operation not caught by type-check.");
     }
 
-- 
2.43.0


From 86a959883f3541f3972cb54311a3c48683ce845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 024/113] fix: overflow of Int arithmetic is an evaluation
 error

---
 src/bms/evaluation/evaluation_error.hpp |  5 ++++-
 src/bms/evaluation/operations.cpp       | 23 ++++++++++++++++++++---
 src/common/diagnostics.cpp              |  3 +++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/bms/evaluation/evaluation_error.hpp b/src/bms/evaluation/evaluation_error.hpp
index aaf807f..6a74d73 100644
--- a/src/bms/evaluation/evaluation_error.hpp
+++ b/src/bms/evaluation/evaluation_error.hpp
@@ -17,7 +17,9 @@ enum struct Evaluation_Error_Code : Default_Underlying {
     /// @brief An assertion failed.
     assertion_fail,
     /// @brief Conversion from Int to Uint would lose information.
-    int_to_uint_range_error
+    int_to_uint_range_error,
+    /// @brief The result of an operation is not representable as Int.
+    int_overflow
 };
 
 constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code)
@@ -29,6 +31,7 @@ constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code
         BIT_MANIPULATION_ENUM_STRING_CASE(shift_too_much);
         BIT_MANIPULATION_ENUM_STRING_CASE(assertion_fail);
         BIT_MANIPULATION_ENUM_STRING_CASE(int_to_uint_range_error);
+        BIT_MANIPULATION_ENUM_STRING_CASE(int_overflow);
     };
     BIT_MANIPULATION_ASSERT_UNREACHABLE();
 }
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index c56da2c..b4e48af 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <limits>
 #include <ranges>
 
 #include "bms/analysis_error.hpp"
@@ -318,6 +319,9 @@ evaluate_unary_operator(Expression_Type op, Concrete_Value value)
             return value;
         }
         if (op == Expression_Type::unary_minus) {
+            if (value.int_value == std::numeric_limits<Big_Int>::min()) {
+                return Evaluation_Error_Code::int_overflow;
+            }
             return Concrete_Value { Concrete_Type::Int, -value.int_value };
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Int operation not caught by type-check.");
@@ -380,6 +384,9 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
                     ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
                     : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
             }
+            if (lhs.int_value == std::numeric_limits<Big_Int>::min() && rhs.int_value == -1) {
+                return Evaluation_Error_Code::int_overflow;
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
@@ -413,6 +420,7 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
     }
 
     case Type_Type::Int: {
+        Big_Int result;
         switch (op) {
         case less_than: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value < rhs.int_value) };
@@ -423,11 +431,20 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         case greater_or_equal: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value >= rhs.int_value) };
         case binary_plus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value + rhs.int_value) };
+            if (__builtin_add_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         case binary_minus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value - rhs.int_value) };
+            if (__builtin_sub_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         case multiplication: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value * rhs.int_value) };
+            if (__builtin_mul_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Int operation not caught by type-check.");
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 8675422..f2707a6 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -241,6 +241,9 @@ std::string_view to_prose(bms::Evaluation_Error_Code e)
         return "Bit-shift was not less than the operand size.";
     case assertion_fail: //
         return "Assertion failed.";
+    case int_overflow: //
+        return "The result of the operation is too large to be represented as Int.";
+
     case int_to_uint_range_error: //
         return "Conversion from Int to Uint would lose information.";
     }
-- 
2.43.0


From fef858e373135c6228c77038de5015ad4764ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 025/113] fix: short-circuiting logical operators have a known
 value in constant expressions

---
 src/bms/evaluation/operations.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index b4e48af..6fefeca 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -549,6 +549,13 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
         return result_from_concrete(
             evaluate_binary_operator(lhs.concrete_value(), op, rhs.concrete_value()));
     }
+    // The value of a short-circuiting operator doesn't depend on an operand that isn't evaluated.
+    if (lhs && op == Expression_Type::logical_and && !lhs.as_bool()) {
+        return Value::False;
+    }
+    if (lhs && op == Expression_Type::logical_or && lhs.as_bool()) {
+        return Value::True;
+    }
     // Even if we don't know the values of both operands, there are certain operations which are
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
-- 
2.43.0


From fd1ce87ccfb4dfde291e0eca84e43d43971d4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 026/113] fix: recursive functions in semantic analysis

---
 src/bms/analyze.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..9c68c2d 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -139,6 +139,8 @@ private:
             !r) {
             return r;
         }
+        // The body may contain recursive calls, which require the return type of this function.
+        node.const_value() = get_const_value(*node.get_return_type_node());
         auto scope = push_function(&node);
 
         if (node.get_requires_clause_node() != nullptr) {
@@ -153,16 +155,15 @@ private:
                     !r) {
                     return r;
                 }
-                node.const_value() = expr_const_value;
-                BIT_MANIPULATION_ASSERT(node.const_value() && node.const_value()->is_known());
+                BIT_MANIPULATION_ASSERT(expr_const_value && expr_const_value->is_known());
 
-                if (node.const_value()->get_type() != Concrete_Type::Bool) {
+                if (expr_const_value->get_type() != Concrete_Type::Bool) {
                     return Analysis_Error_Builder { Analysis_Error_Code::requires_clause_not_bool }
                         .fail(node.get_requires_clause_node())
                         .cause(handle)
                         .build();
                 }
-                if (!node.const_value()->as_bool()) {
+                if (!expr_const_value->as_bool()) {
                     return Analysis_Error_Builder {
                         Analysis_Error_Code::requires_clause_not_satisfied
                     }
@@ -196,7 +197,6 @@ private:
             }
         }
         BIT_MANIPULATION_ASSERT(!node.is_generic);
-        node.const_value() = get_const_value(*node.get_return_type_node());
         node.analysis_so_far = level;
         return {};
     }
-- 
2.43.0


From fcb8ae74867c6f849e405ff7c994ef820a123c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 027/113] fix: Uint constants as widths of Uint types

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 9c68c2d..34be870 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -225,7 +225,7 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        const Big_Int folded_width = width->concrete_value().int_value;
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-- 
2.43.0


From 0ea34257841252e54005dd3bf80fe602d9057182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 028/113] fix: failing conversions in constant expressions are
 evaluation errors

---
 src/bms/analyze.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 34be870..df51750 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -605,7 +605,9 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
-
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
     }
@@ -656,10 +658,11 @@ private:
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
-        // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
-
+        // Type analysis has already succeeded, but the conversion of the selected operand to the
+        // common type may still fail.
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
     }
-- 
2.43.0


From 84a393d7bc3bad1805234b50c9af6286ec4f5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:56 +0000
Subject: [PATCH 029/113] fix: assertions known to fail are no error where they
 are not evaluated

---
 src/bms/analyze.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index df51750..d54fa51 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -786,15 +786,13 @@ private:
                     .build();
             }
             auto eval_result = evaluate_builtin_function(*builtin, arg_values);
-            if (!eval_result) {
+            if (!eval_result && context == Expression_Context::constant) {
                 return Analysis_Error_Builder { eval_result.error() }
                     .fail(handle)
                     .cause(*builtin)
                     .build();
             }
-            BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
-                                    || eval_result.has_value());
-            node.const_value() = *eval_result;
+            node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
             return {};
         }
 
-- 
2.43.0


From 65dbd824bbb0190003828fc2854c940580f105c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 030/113] fix: calling a parameter is reported as an error

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d54fa51..7dfe507 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -804,7 +804,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(*node.lookup_result)
                 .build();
         }
 
-- 
2.43.0


From 53498d5e6fa48fb8032ad1d2d46c462c4e203ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 031/113] fix: assigning or referring to a builtin function is
 reported as an error

---
 src/bms/analyze.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 7dfe507..1d3b73f 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -519,6 +519,12 @@ private:
                 .cause(*node.lookup_result)
                 .build();
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         ast::Some_Node* looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         if (holds_alternative<ast::Function>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
@@ -1003,6 +1009,12 @@ private:
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::function_in_expression }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         auto looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         return analyze_types_for_id_looking_up_node(handle, node, looked_up_node, level, context);
     }
-- 
2.43.0


From 4edf0477bd425fb78de42b2a93f880e8e53b6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 032/113] fix: code of execution errors in analysis

---
 src/bms/analysis_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
-- 
2.43.0


From 6e129c8b6897e8a685b150004d94771ba07aca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 033/113] fix: name of the inline annotation

---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index ca431c1..9be74a2 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -509,7 +509,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+    case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From 9ad19e60b4440159e1a1b84388de4ffdd94dbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 034/113] fix: undefined functions in widths of parameters are
 reported

---
 src/bms/analyze_name_lookup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bms/analyze_name_lookup.cpp b/src/bms/analyze_name_lookup.cpp
index 37ca9ff..d712379 100644
--- a/src/bms/analyze_name_lookup.cpp
+++ b/src/bms/analyze_name_lookup.cpp
@@ -203,8 +203,6 @@ private:
             return {};
         }
         if (auto r = analyze_symbols_local(g, table); !r) {
-            BIT_MANIPULATION_ASSERT(r.error().code()
-                                    == Analysis_Error_Code::reference_to_undefined_variable);
             if (auto* id = get_if<ast::Id_Expression>(g)) {
                 // TODO: now that lookup results can be more than just an AST node,
                 //       we can get rid of this dirty hack and properly emplace a lookup result
-- 
2.43.0


From 7026957bf53d246938b8dae25fc7b48c8d67b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 035/113] fix: instantiation of functions that use globals,
 optional nodes, or themselves

---
 src/bms/instantiate.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..4ba1dd8 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -126,8 +126,8 @@ private:
 
         if (const auto* old_function = get_if<ast::Function>(h)) {
             ast::Some_Node* result = m_program.insert(old_function->copy_for_instantiation());
-            m_remap.emplace(h, result);
-
+            // The function is intentionally not remapped to its instance, because
+            // a recursive call must perform its own deduction and instantiation.
             auto& instance = get<ast::Function>(*result);
             deep_copy_parameters(*old_function, instance, result);
 
@@ -154,7 +154,9 @@ private:
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
             child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            if (child) {
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
@@ -188,7 +190,10 @@ private:
 
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            // Nodes outside the instantiated function, such as globals, are not copied.
+            if (const auto it = self.m_remap.find(looked_up_node); it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
@@ -200,10 +205,6 @@ private:
     struct Update_Name_Lookup {
         Instantiator& self;
 
-        void operator()(ast::Id_Expression& n) const
-        {
-            BIT_MANIPULATION_ASSERT(n.bit_generic || n.lookup_result);
-        }
         template <Lookup_Performing_Node T>
         void operator()(T& n)
         {
-- 
2.43.0


From 2f292e785d27ac0f3dd26ed65ea8d76598763738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 036/113] fix: instantiating all functions of a program with
 functions that are not generic

---
 src/bms/instantiate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 4ba1dd8..1b9d39a 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -40,7 +40,7 @@ public:
     Result<void, Analysis_Error> instantiate_all(const Widths& w)
     {
         for (ast::Some_Node* decl : get_children(*m_program.get_root())) {
-            if (auto* f = get_if<ast::Function>(decl)) {
+            if (auto* f = get_if<ast::Function>(decl); f && f->is_generic) {
                 auto r = instantiate_function(decl, *f, w);
                 if (!r) {
                     return r.error();
-- 
2.43.0


From af442f084d0fc2f45234f7ff0a80ee3138f0d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 037/113] fix: instances are created while other instances are
 analyzed

---
 src/bms/analyze.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 1d3b73f..e2feb77 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -117,8 +117,9 @@ private:
         // new implicit instantiations may have been generated in the meantime.
         // For concrete functions, we can memoize the result of type analysis.
         if (node.is_generic) {
-            for (const ast::Function::Instance& instance : node.instances) {
-                auto r = analyze_types(instance.handle, level, Expression_Context::normal);
+            // The analysis of an instance may append further instances.
+            for (Size i = 0; i < node.instances.size(); ++i) {
+                auto r = analyze_types(node.instances[i].handle, level, Expression_Context::normal);
                 if (!r) {
                     return r;
                 }
-- 
2.43.0


From d245599b2cc8e50dc6eb014da508fdecebde25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 038/113] fix: implicit conversions of let initializers and
 assignments in the virtual machine

---
 src/bms/vm/codegen.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..ba48003 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -60,6 +60,17 @@ public:
     }
 
 private:
+    /// @brief Emits an implicit conversion of the value of `expression` to `type`, if its type is
+    /// a different one.
+    void convert_if_necessary(const ast::Some_Node* h,
+                              const ast::Some_Node* expression,
+                              Concrete_Type type)
+    {
+        if (get_const_value(*expression).value().get_type() != type) {
+            out.push_back(ins::Convert { { h }, type });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node* h)
     {
         BIT_MANIPULATION_ASSERT(h);
@@ -144,6 +155,7 @@ private:
         if (!init) {
             return init;
         }
+        convert_if_necessary(h, node.get_initializer_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -288,6 +300,7 @@ private:
         if (!result) {
             return result;
         }
+        convert_if_necessary(h, node.get_expression_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
-- 
2.43.0


From 7916448e7fee627a0ab9d9b80dff185e3345f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 039/113] fix: implicit conversions of if-expression operands
 in the virtual machine

---
 src/bms/vm/codegen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index ba48003..d3effd3 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -365,6 +365,7 @@ private:
             restore();
             return left;
         }
+        convert_if_necessary(h, node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -376,6 +377,7 @@ private:
             restore();
             return right;
         }
+        convert_if_necessary(h, node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From 29b2266f62d73b43006505f43f27f5db380c43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 040/113] fix: functions that end without returning a value are
 an execution error

---
 src/bms/vm/codegen.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index d3effd3..54fc593 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -108,10 +108,6 @@ private:
             return body_result;
         }
 
-        if (return_type.get_type() != Type_Type::Void) {
-            return {};
-        }
-
         const bool returns_unconditionally = !body.is_empty() && [&]() -> bool {
             for (const ast::Some_Node* n : std::views::reverse(body.get_children())) {
                 if (const auto ret = get_if<ast::Control_Statement>(n)) {
@@ -123,7 +119,12 @@ private:
             return false;
         }();
 
-        if (!returns_unconditionally) {
+        if (!returns_unconditionally && return_type.get_type() != Type_Type::Void) {
+            // There is no value to be returned, so execution must not get past this point.
+            // Nothing is ever stored in the function itself, so this load always fails.
+            out.push_back(ins::Load { { h }, h });
+        }
+        else if (!returns_unconditionally) {
             out.push_back(ins::Push { { h }, Concrete_Value::Void });
             out.push_back(ins::Return { { h } });
         }
-- 
2.43.0


From 757259dc6f5123baec032851e77bb7d42178650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 041/113] fix: comparison reported for a failed assertion is
 the one that failed

---
 src/bms/vm/vm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..3a657e4 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -188,6 +188,7 @@ struct Cycle_Impl {
             error.comparison_failure = self.m_comparison_failure_for_assert;
             return error;
         }
+        self.m_comparison_failure_for_assert.reset();
         self.m_stack.resize(self.m_stack.size() - params);
         self.m_stack.push_back(*result);
         ++self.m_instruction_counter;
-- 
2.43.0


From c2b704812afab01b93749a677864948463d30e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:36 +0000
Subject: [PATCH 042/113] fix: calls past the end of the program are an
 execution error

---
 src/bms/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 3a657e4..00c3a8e 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -162,7 +162,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From 2eb9bc0aab1b09f5a7f70a7d5658c067d4cdf706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 043/113] fix: variables without an initializer are
 uninitialized each time they are declared

---
 src/bms/vm/codegen.cpp          |  2 ++
 src/bms/vm/instructions.cpp     |  5 +++++
 src/bms/vm/instructions.hpp     | 10 +++++++++-
 src/bms/vm/linear_map_stack.hpp |  8 ++++++++
 src/bms/vm/vm.cpp               |  7 +++++++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 54fc593..a225e47 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -150,6 +150,8 @@ private:
     {
         BIT_MANIPULATION_ASSERT(node.const_value());
         if (!node.get_initializer_node()) {
+            // When declared in a loop, the variable may have a value from a prior iteration.
+            out.push_back(ins::Forget { { h }, h });
             return {};
         }
         auto init = generate_code(node.get_initializer_node());
diff --git a/src/bms/vm/instructions.cpp b/src/bms/vm/instructions.cpp
index 284d444..4284cc4 100644
--- a/src/bms/vm/instructions.cpp
+++ b/src/bms/vm/instructions.cpp
@@ -58,6 +58,11 @@ std::ostream& operator<<(std::ostream& out, const Push& i)
     return out << std::left << std::setw(name_column_width) << "push " << i.value;
 }
 
+std::ostream& operator<<(std::ostream& out, const Forget& forget)
+{
+    return out << std::left << std::setw(name_column_width) << "forget " << forget.target;
+}
+
 std::ostream& operator<<(std::ostream& out, const Pop&)
 {
     return out << std::left << std::setw(name_column_width) << "pop";
diff --git a/src/bms/vm/instructions.hpp b/src/bms/vm/instructions.hpp
index 56569ad..6ef15b0 100644
--- a/src/bms/vm/instructions.hpp
+++ b/src/bms/vm/instructions.hpp
@@ -34,6 +34,13 @@ struct Store : detail::Base {
 
 std::ostream& operator<<(std::ostream& out, const Store&);
 
+/// @brief Makes `target` uninitialized, if it isn't already.
+struct Forget : detail::Base {
+    const void* target;
+};
+
+std::ostream& operator<<(std::ostream& out, const Forget&);
+
 /// @brief Pushes `value` onto the stack.
 struct Push : detail::Base {
     Concrete_Value value;
@@ -131,7 +138,8 @@ using Instruction_Variant = Variant<ins::Load,
                                     ins::Unary_Operate,
                                     ins::Binary_Operate,
                                     ins::Call,
-                                    ins::Builtin_Call>;
+                                    ins::Builtin_Call,
+                                    ins::Forget>;
 
 struct Instruction : Instruction_Variant {
     using Variant::Variant;
diff --git a/src/bms/vm/linear_map_stack.hpp b/src/bms/vm/linear_map_stack.hpp
index aa42d8c..897ec72 100644
--- a/src/bms/vm/linear_map_stack.hpp
+++ b/src/bms/vm/linear_map_stack.hpp
@@ -74,6 +74,14 @@ public:
         return m_data.emplace_back(key, value);
     }
 
+    /// @brief Removes the entry with the given key from the topmost map, if there is one.
+    void erase(Key key)
+    {
+        if (Entry* const existing = find(key)) {
+            m_data.erase(m_data.begin() + (existing - m_data.data()));
+        }
+    }
+
     Entry& push_frame(Concrete_Value sentinel_value)
     {
         return m_data.emplace_back(sentinel_key, sentinel_value);
diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 00c3a8e..c9bb3f3 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -40,6 +40,13 @@ struct Cycle_Impl {
         return {};
     }
 
+    Result<void, Execution_Error> operator()(const ins::Forget& forget)
+    {
+        self.m_function_frame_stack.erase(forget.target);
+        ++self.m_instruction_counter;
+        return {};
+    }
+
     Result<void, Execution_Error> operator()(const ins::Push& push)
     {
         self.m_stack.push_back(push.value);
-- 
2.43.0


From ce32ee4976875748bc65368957828e6b8fac0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 044/113] fix: functions whose own signature calls them are
 rejected

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index e2feb77..679bf8f 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -128,6 +128,8 @@ private:
         }
         BIT_MANIPULATION_ASSERT(node.instances.empty());
 
+        auto scope = push_function(&node);
+
         for (Parameter& parameter : node.get_parameters()) {
             auto r = analyze_types(parameter.get_type_node(), parameter.get_type(), level,
                                    Expression_Context::normal);
@@ -142,7 +144,6 @@ private:
         }
         // The body may contain recursive calls, which require the return type of this function.
         node.const_value() = get_const_value(*node.get_return_type_node());
-        auto scope = push_function(&node);
 
         if (node.get_requires_clause_node() != nullptr) {
             auto& expr_const_value = get_const_value(*node.get_requires_clause_node());
-- 
2.43.0


From ca9a07e2043c62edd5b6cd4a42c3cc64f47f0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 045/113] fix: instances created after the generic function are
 analyzed too

---
 src/bms/analyze.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 679bf8f..46142f7 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -98,6 +98,24 @@ private:
                 return r;
             }
         }
+        // Analysis of a declaration may have instantiated generic functions prior to it.
+        Size old_instances;
+        Size instances = 0;
+        do {
+            old_instances = instances;
+            instances = 0;
+            for (ast::Some_Node* h : node.get_children()) {
+                auto* function = get_if<ast::Function>(h);
+                if (!function || !function->is_generic) {
+                    continue;
+                }
+                auto r = analyze_types(h, *function, level, Expression_Context::normal);
+                if (!r) {
+                    return r;
+                }
+                instances += function->instances.size();
+            }
+        } while (instances != old_instances);
         node.const_value() = Value::Void;
         return {};
     }
-- 
2.43.0


From 4d6f8e8230f65b16dc6047f898fd55019a873979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 046/113] fix: assigning a deduced width is reported as an
 error

---
 src/bms/analyze.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 46142f7..f614ee9 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -553,7 +553,9 @@ private:
                 .build();
         }
 
-        if (holds_alternative<ast::Const>(*looked_up_node)) {
+        // Deduced widths (e.g. `N` in `Uint(N)`) are represented by the id-expression in the type.
+        if (holds_alternative<ast::Const>(*looked_up_node)
+            || holds_alternative<ast::Id_Expression>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_const }
                 .fail(handle)
                 .cause(looked_up_node)
-- 
2.43.0


From a30fac01853eb263b7c483bffef588ffee86af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:49 +0000
Subject: [PATCH 047/113] fix: types of builtin function arguments dangle

---
 src/bms/evaluation/operations.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 6fefeca..e7515f9 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -123,7 +123,8 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
     const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+        = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From f554082f466cee02345de614303eda98ea66847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 048/113] fix: calling generic functions that also have
 parameters without a width

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index f614ee9..92181ea 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -862,7 +862,7 @@ private:
                 const ast::Type& type = possibly_generic_params[i].get_type();
                 // If this function is generic, parameter types wouldn't have undergone analysis.
                 BIT_MANIPULATION_ASSERT(!type.const_value());
-                if (type.concrete_width) {
+                if (type.concrete_width || type.get_width_node() == nullptr) {
                     continue;
                 }
                 const auto* gen_expr = get_if<ast::Id_Expression>(type.get_width_node());
-- 
2.43.0


From 19bb62ff270ae32d20cf4910e5ef6e7964b4126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:00 +0000
Subject: [PATCH 049/113] fix: greater-or-equal comparison crashes

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From a51ba60db3087284d7afb1537521fa08f0eade58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 050/113] fix: rendering errors of incompatible return types

---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 92181ea..a70b5fd 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -516,6 +516,7 @@ private:
         if (!expr_value->get_type().is_convertible_to(return_type)) {
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
+                .type(return_type)
                 .cause(function->get_return_type_node())
                 .build();
         }
-- 
2.43.0


From 8d024d6c955986fe2e03ed51bc9f5784227006e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 051/113] fix: IO errors are printed to the given stream

---
 src/common/diagnostics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index f2707a6..e5a3965 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -807,7 +807,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
+    print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
     return out;
 }
 
-- 
2.43.0


From 89b5ea96a028234ca5875eb3108f0fe60be0ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 052/113] fix: printing BMD parse errors at the end of the
 document

---
 src/common/diagnostics.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index e5a3965..997f5d8 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -730,7 +730,11 @@ std::ostream& print_parse_error(std::ostream& out,
 {
     print_file_position(out, file, error.pos, colors) << ": " << error_prefix;
 
-    if (error.code == bmd::Parse_Error_Code::unexpected_character) {
+    if (error.code == bmd::Parse_Error_Code::unexpected_character
+        && error.pos.begin >= source.size()) {
+        out << "unexpected end of file while matching '" << grammar_rule_name(error.rule) << "'\n";
+    }
+    else if (error.code == bmd::Parse_Error_Code::unexpected_character) {
         out << "unexpected character '" << source[error.pos.begin] << "' while matching '"
             << grammar_rule_name(error.rule) << "'\n";
         // TODO: diagnose expected character perhaps
-- 
2.43.0


From 7281d2196ba7e83b43584d0bd7c2b7e16eba4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 053/113] fix: printing annotations with several arguments

---
 src/bms/parsing/astp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bms/parsing/astp.hpp b/src/bms/parsing/astp.hpp
index 22258ab..d0e7ea0 100644
--- a/src/bms/parsing/astp.hpp
+++ b/src/bms/parsing/astp.hpp
@@ -252,7 +252,6 @@ struct Annotation_List final : detail::Node_Base {
 
 struct Annotation final : detail::Node_Base {
     static inline constexpr std::string_view self_name = "Attribute";
-    static inline constexpr std::string_view child_names[] = { "type" };
 
     std::string_view name;
     std::pmr::vector<Handle> arguments;
-- 
2.43.0


From 47f4628da171ac1dcd1858ebc0774d5aea3fe1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 054/113] fix: visiting variants with a single alternative

---
 src/common/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/variant.hpp b/src/common/variant.hpp
index 18c4085..da5aa53 100644
--- a/src/common/variant.hpp
+++ b/src/common/variant.hpp
@@ -59,7 +59,7 @@ constexpr decltype(auto) visit(F&& f, V&& v)
     constexpr Size alternatives = VV::alternatives;
 
     if constexpr (alternatives == 1) {
-        return static_cast<F&&>(f)(::std::get<0>(static_cast<V&&>(v)));
+        return static_cast<F&&>(f)(get<0>(static_cast<V&&>(v)));
     }
     else if constexpr (alternatives == 2) {
         switch (v.index()) {
-- 
2.43.0


From c7c5062944bffc1742811814bd1812080f1fe11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 055/113] fix: exceptions thrown while copying an alternative
 into a variant propagate

---
 src/common/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/variant.hpp b/src/common/variant.hpp
index da5aa53..114caf4 100644
--- a/src/common/variant.hpp
+++ b/src/common/variant.hpp
@@ -231,7 +231,7 @@ public:
     }
 
     template <typename T>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T&&>)
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
@@ -360,7 +360,7 @@ public:
 
     template <typename T>
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T&&>)
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
         std::construct_at(reinterpret_cast<std::remove_reference_t<T>*>(m_storage),
-- 
2.43.0


From 077ca750a4c370ba26add41a0f44be3eb4763cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 056/113] fix: comment openers at the end of a BMD document

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From 0b6b8604a3ad2e6a0ffa298cceb9ac63046f40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:30 +0000
Subject: [PATCH 057/113] fix: comments between the elements of a BMD span

---
 src/bmd/parsing/parse.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..316a833 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -381,16 +381,14 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
-                Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
-                if (!blank) {
-                    return blank.error();
-                }
-                // If there is a leading space but we couldn't match it as a blank, we must have
-                // run into a paragraph break and should break.
-                if (blank->length == 0) {
-                    break;
-                }
+            Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
+            if (!blank) {
+                return blank.error();
+            }
+            // If we couldn't match the leading space and comments as a blank, we must have run
+            // into a paragraph break and should break.
+            if (blank->is_paragraph_break) {
+                break;
             }
             ast::Some_Node* text = match_text();
             if (text) {
@@ -603,14 +601,22 @@ private:
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
-            // Text already consumes trailing space, so it only would have failed to consume
-            // all if the trailing space is a paragraph break.
+        const auto pos_after_content = m_pos;
+        auto trailing_blank = match_blank();
+        if (!trailing_blank) {
+            return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
+        }
+        if (trailing_blank->is_paragraph_break) {
+            m_pos = pos_after_content;
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
         if (!directives_allowed && peek_possible_directive()) {
             return Rule_Error { Parse_Error_Code::directive_in_text_span, Grammar_Rule::block };
         }
+        if (!eof()) {
+            // Text spans consist of a single piece of text, which cannot continue after a comment.
+            return Rule_Error { Parse_Error_Code::unexpected_character, Grammar_Rule::block };
+        }
         return result;
     }
 
-- 
2.43.0


From d99b9db956a8366e0a53587bbdf2f7fcbdd5bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 058/113] fix: empty blocks of directives that must be empty

---
 src/bmd/html/doc_to_html.cpp | 2 +-
 src/bmd/parsing/parse.cpp    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..c28aba3 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -262,7 +262,7 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr
                                 || !directive_type_must_be_empty(directive.get_type()));
 
         if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 316a833..0f06c06 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -577,6 +577,9 @@ private:
 
     Result<ast::Some_Node*, Rule_Error> match_empty_block()
     {
+        if (auto r = expect('{'); !r) {
+            return Rule_Error { r.error(), Grammar_Rule::block };
+        }
         if (auto r = match_blank(); !r) {
             return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
         }
-- 
2.43.0


From 0000b44eccf4e6c8f571afa2933bf45dfa3330a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 059/113] fix: blocks without any content in BMD documents

---
 src/bmd/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0f06c06..e383205 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -60,7 +60,6 @@ Raw::Raw(const Local_Source_Span& pos, std::string_view value)
     : detail::Base { pos }
     , m_value(value)
 {
-    BIT_MANIPULATION_ASSERT(!value.empty());
 }
 
 } // namespace ast
@@ -715,6 +714,9 @@ private:
         if (!raw) {
             return raw.error();
         }
+        if (raw->get_value().empty()) {
+            return nullptr;
+        }
         return alloc_node<ast::Text>(raw->get_source_position(), raw->get_value());
     }
 
-- 
2.43.0


From 348545ea809c4574293d24a6885ad2d510ddf106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:40 +0000
Subject: [PATCH 060/113] fix: paragraphs use the memory resource and start at
 their first element

---
 src/bmd/parsing/parse.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index e383205..6fab43e 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -310,17 +310,17 @@ private:
         /// If `!paragraph_elements.empty()`, creates a new paragraph containing the elements
         /// and appends it to `elements`.
         /// Other state is update to make subsequent calls possible.
-        auto break_paragraph =
-            [this, &elements, &paragraph_elements, pos_before_paragraph = initial_pos]() mutable //
+        auto break_paragraph = [this, &elements, &paragraph_elements]() //
         {
             if (paragraph_elements.empty()) {
                 return;
             }
+            const Local_Source_Span first = ast::get_source_span(*paragraph_elements.front());
+            const Local_Source_Span last = ast::get_source_span(*paragraph_elements.back());
             elements.push_back(alloc_node<ast::List>(
-                { pos_before_paragraph, m_pos.begin - pos_before_paragraph.begin },
-                std::vector(paragraph_elements)));
+                { first, last.end() - first.begin },
+                std::pmr::vector<ast::Some_Node*>(paragraph_elements, m_memory)));
             paragraph_elements.clear();
-            pos_before_paragraph = m_pos;
         };
 
         while (!eof()) {
-- 
2.43.0


From d483abc9cef85ea4b5cbb0598192826c04ededa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 061/113] fix: BMD numbers that cannot be represented

---
 src/bmd/parsing/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6fab43e..1b069bf 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -904,7 +905,7 @@ private:
         }
 
         std::optional<Big_Int> value = parse_integer_literal(s.substr(0, literal_match.length));
-        if (!value) {
+        if (!value || *value > std::numeric_limits<Int64>::max()) {
             return Rule_Error { Parse_Error_Code::invalid_integer_literal,
                                 Grammar_Rule::decimal_literal };
         }
-- 
2.43.0


From f31f5995f3f63090346026976d7832244f9b5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 062/113] fix: looking up directives after the last known one

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..20c69cf 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::ranges::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 142570de0ac6248a5c25845d20dd1bcf4db5622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 063/113] fix: tag of superscript

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 20c69cf..aea90bd 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 828bb6d186dd38daf180915a9cc28235a95aadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 064/113] fix: HTML for pieces of text separated by comments

---
 src/bmd/html/doc_to_html.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index c28aba3..5e890b7 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -191,15 +191,15 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                // The next element is usually a directive, but it can also be text following a
+                // comment.
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
                 const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                    = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From 99e83cc453acc6e2195a35db9d9abde74e3c1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 065/113] fix: HTML source gaps after carriage returns

---
 src/bmd/html/html_writer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..f4a0d23 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -260,8 +260,7 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
                                    Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
-    BIT_MANIPULATION_ASSERT(first.line < second.line
-                            || (first.line == second.line && first.column <= second.column));
+    BIT_MANIPULATION_ASSERT(first.end() <= second.begin);
 
     if (style == Formatting_Style::pre) {
         if (first.line != second.line) {
-- 
2.43.0


From 11729ac007ae864d9f08af62b19d5e9ec5d92caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:07 +0000
Subject: [PATCH 066/113] fix: whitespace between the tokens of highlighted
 code

---
 src/bmd/html/bms_to_html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..e949b82 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,9 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            const Size gap_begin = tokens[i - 1].pos.end();
+            const std::string_view gap = code.substr(gap_begin, tokens[i].pos.begin - gap_begin);
+            out.write_inner_text(gap, Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
-- 
2.43.0


From 1e5f47a35e71632a0e680f2e64e994426fc89d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 067/113] fix: ampersands in HTML text

---
 src/bmd/html/html_writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index f4a0d23..91ddba0 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -37,7 +37,7 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of("<>&");
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
         m_out.write(snippet, HTML_Token_Type::inner_text);
         if (bracket_pos == std::string_view::npos) {
@@ -49,6 +49,9 @@ void HTML_Writer::write_escaped_text(std::string_view text)
         else if (text[bracket_pos] == '>') {
             m_out.write("&gt;", HTML_Token_Type::inner_text);
         }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", HTML_Token_Type::inner_text);
+        }
         else {
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Logical mistake.");
         }
-- 
2.43.0


From 7dd10629abf49985c326e610002c7c1e38e5d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:13 +0000
Subject: [PATCH 068/113] fix: quoting and escaping of HTML attribute values

---
 src/bmd/html/html_writer.cpp | 11 ++++++++++-
 src/bmd/html/html_writer.hpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 91ddba0..a4c24bd 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -212,7 +212,16 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            while (true) {
+                const Size special_pos = value.find_first_of("\"&");
+                m_out.write(value.substr(0, special_pos), HTML_Token_Type::attribute_value);
+                if (special_pos == std::string_view::npos) {
+                    break;
+                }
+                m_out.write(value[special_pos] == '"' ? "&quot;" : "&amp;",
+                            HTML_Token_Type::attribute_value);
+                value = value.substr(special_pos + 1);
+            }
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..dfd7cdc 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<>& \t\n\v\f\r") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
-- 
2.43.0


From 172c3f3cb6f9151b8471c6a174ba407708489c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:16 +0000
Subject: [PATCH 069/113] fix: HTML for escape sequences in BMD text

---
 src/bmd/html/doc_to_html.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 5e890b7..744216c 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -231,7 +231,20 @@ struct HTML_Converter {
                                                             Formatting_Style inherited_style)
     {
         m_at_start_of_file = false;
-        return m_writer.write_inner_text(text.get_text(), inherited_style);
+        return m_writer.write_inner_text(unescape(text.get_text()), inherited_style);
+    }
+
+    /// @brief Replaces the escape sequences `\\`, `\{`, and `\}` with the escaped character.
+    [[nodiscard]] std::pmr::string unescape(std::string_view text) const
+    {
+        std::pmr::string result(m_memory);
+        for (Size i = 0; i < text.length(); ++i) {
+            const bool is_escape = text[i] == '\\' && i + 1 < text.length()
+                && (text[i + 1] == '\\' || text[i + 1] == '{' || text[i + 1] == '}');
+            i += is_escape;
+            result += text[i];
+        }
+        return result;
     }
 
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
@@ -349,7 +362,7 @@ struct HTML_Converter {
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
             begin_tag_with_passed_through_attributes(*title_directive, heading);
-            m_writer.write_inner_text(m_meta.title, heading.style);
+            m_writer.write_inner_text(unescape(m_meta.title), heading.style);
             m_writer.end_tag(heading);
         }
 
@@ -445,13 +458,14 @@ struct HTML_Converter {
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
         // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        const std::pmr::string text
+            = unescape(get<ast::Text>(*directive.get_block()).get_text());
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -459,7 +473,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From a811e0d67fa5ba30f4da9e1b1b8092c5ea65e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:19 +0000
Subject: [PATCH 070/113] fix: HTML for instructions without a block and with
 invalid extension

---
 src/bmd/html/doc_to_html.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 744216c..7419e74 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -457,9 +457,13 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const std::pmr::string text
-            = unescape(get<ast::Text>(*directive.get_block()).get_text());
+        if (!extension) {
+            return extension.error();
+        }
+
+        const std::pmr::string text = directive.get_block() == nullptr
+            ? std::pmr::string(m_memory)
+            : unescape(get<ast::Text>(*directive.get_block()).get_text());
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
-- 
2.43.0


From 79665aa1b1179146c985a2e5a7219c1348cefd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 071/113] fix: code directives contain code, not a paragraph

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index aea90bd..dd2006f 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -77,7 +77,6 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case title: return Directive_Content_Type::text_span;
 
     case bold:
-    case code:
     case deleted:
     case heading1:
     case heading2:
@@ -95,6 +94,7 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case teletype:
     case underlined: return Directive_Content_Type::span;
 
+    case code:
     case code_block: return Directive_Content_Type::raw;
 
     case note: return Directive_Content_Type::block;
-- 
2.43.0


From 7535618b10788bd5aa9424ad9031ace22d706e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 072/113] fix: HTML for code in languages which cannot be
 highlighted

---
 src/bmd/html/doc_to_html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 7419e74..6cb8f81 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -420,8 +420,9 @@ struct HTML_Converter {
             break;
         }
         default:
-            BIT_MANIPULATION_ASSERT_UNREACHABLE(
-                "Only bms and plaintext highlighting is implemented.");
+            // Only bms highlighting is implemented.
+            m_writer.write_inner_text(code_text->get_text(), Formatting_Style::pre);
+            break;
         }
 
         return {};
-- 
2.43.0


From ebbe8863a1e517b65c4d1829067c65d89114c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 073/113] fix: HTML for directives with arguments but no block

---
 src/bmd/html/doc_to_html.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 6cb8f81..065575a 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -281,6 +281,11 @@ struct HTML_Converter {
         if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
             m_writer.write_empty_tag(tag);
         }
+        else if (directive.get_block() == nullptr) {
+            auto attribute_writer = m_writer.begin_tag_with_attributes(tag);
+            pass_through_attributes(directive, attribute_writer);
+            attribute_writer.end_empty();
+        }
         else {
             begin_tag_with_passed_through_attributes(directive, tag);
 
@@ -303,6 +308,7 @@ struct HTML_Converter {
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
+        attribute_writer.end();
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -319,12 +325,6 @@ struct HTML_Converter {
             }
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown attribute value type.");
         }
-        if (directive.get_block() == nullptr) {
-            attribute_writer.end_empty();
-        }
-        else {
-            attribute_writer.end();
-        }
     }
 
     [[nodiscard]] Result<void, Document_Error>
-- 
2.43.0


From 0e0ca8771a35bb858976d33667839c65d125cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:27 +0000
Subject: [PATCH 074/113] fix: HTML for list items and notes

---
 src/bmd/enums.cpp            | 4 ++--
 src/bmd/html/doc_to_html.cpp | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index dd2006f..5138f56 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -223,13 +223,13 @@ std::string_view directive_type_tag(Directive_Type type)
     case code: return "code";
     case code_block: return "div";
     case instruction: return "span";
+    case item: return "li";
     case note: return "div";
     case meta: return "head";
     case title: return "title";
 
     case bms_function:
-    case c_equivalent:
-    case item: return "";
+    case c_equivalent: return "";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid directive type.");
 }
diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 065575a..4f9aab2 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -253,6 +253,13 @@ struct HTML_Converter {
             return convert_html_passthrough_directive(directive);
         }
 
+        switch (directive.get_type()) {
+        // These have their own name but otherwise work like passthrough directives.
+        case Directive_Type::item:
+        case Directive_Type::note: return convert_html_passthrough_directive(directive);
+        default: break;
+        }
+
         switch (directive.get_type()) {
         case Directive_Type::meta: return convert_meta_directive(directive);
 
@@ -268,8 +275,6 @@ struct HTML_Converter {
     [[nodiscard]] Result<void, Document_Error>
     convert_html_passthrough_directive(const ast::Directive& directive)
     {
-        BIT_MANIPULATION_ASSERT(directive_type_is_html_passthrough(directive.get_type()));
-
         m_at_start_of_file = false;
 
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
-- 
2.43.0


From 2c619b4634367ff8cc47f069cea6b5ce437b0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 075/113] fix: HTML attributes followed by the end of an empty
 tag

---
 src/bmd/html/html_writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index a4c24bd..2dce9ed 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -257,6 +257,8 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
+    // Without whitespace, the slash would belong to the value of an unquoted attribute.
+    m_out.write(' ', HTML_Token_Type::whitespace);
     m_out.write("/>", HTML_Token_Type::tag_bracket);
     m_state = State::normal;
 
-- 
2.43.0


From cbf2e298b40dcd26871cf295bbe2c68b1fe497f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:51 +0000
Subject: [PATCH 076/113] fix: HTML attributes of block-like tags

---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 2dce9ed..899c9d2 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -237,6 +237,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -244,9 +245,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From 47bd61fdd82c4ee8239cc79291fcf26ab1b998d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 077/113] fix: generated BMS code lacks else before a block

---
 src/bmd/codegen/codegen_bms.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..0369cd6 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -297,15 +297,17 @@ struct Bms_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_after_if();
+            self.write_indent();
+            self.write_keyword(bms::Token_Type::keyword_else);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.write_keyword(bms::Token_Type::keyword_else);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From dbafe92885ce2cee2082b4d88bb0c3a6205266b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 078/113] fix: generated BMS call statements lack a semicolon

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 0369cd6..59df584 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -487,6 +487,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From 1d967d0ae88fcf7799f2efa2860ad2d89a529ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 079/113] fix: generated BMS functions lack their requires
 clause

---
 src/bmd/codegen/codegen_bms.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 59df584..5da666f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -174,6 +174,13 @@ struct Bms_Code_Generator::Visitor {
             return r;
         }
 
+        if (const Some_Node* requires_clause = function.get_requires_clause_node()) {
+            self.write_infix_keyword(bms::Token_Type::keyword_requires);
+            if (auto r = self.generate_code(requires_clause); !r) {
+                return r;
+            }
+        }
+
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
             return r;
-- 
2.43.0


From badfba531b58a371ab8daba928b2b1839c2f3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:40 +0000
Subject: [PATCH 080/113] fix: generated BMS blocks on their own line are not
 indented

---
 src/bmd/codegen/codegen_bms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 5da666f..641213e 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -390,6 +390,7 @@ struct Bms_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
-- 
2.43.0


From 6dec71e937b6774aa475a519b1c3923074622c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 081/113] fix: generated BMS conversions of binary expressions
 lack parentheses

---
 src/bmd/codegen/codegen_bms.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 641213e..da64468 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,11 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        // The operand of a conversion is a prefix expression, even though the conversion itself has
+        // the lowest precedence.
+        if (outer_type == bms::Expression_Type::conversion && is_binary(inner_type)) {
+            return true;
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0


From 00ea232c773e600263a52f090dfa437efb2c0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 082/113] fix: generated C parameters are written in BMS syntax

---
 src/bmd/codegen/codegen_c_cpp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index ba39b75..770a170 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -341,13 +341,12 @@ struct C_Cpp_Code_Generator::Visitor {
                     self.write_separating_comma();
                 }
                 first = false;
-                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
-                self.m_out.append(':', Code_Span_Type::punctuation);
-                self.m_out.append(' ');
                 auto v = Visitor { self, parameter.get_type_node() };
                 if (auto r = v(parameter.get_type()); !r) {
                     return r;
                 }
+                self.m_out.append(' ');
+                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
             }
             if (first) {
                 self.write_keyword("void");
-- 
2.43.0


From 07b7c14f9dbc3c3e4967732a997bb92065c80e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:09 +0000
Subject: [PATCH 083/113] fix: generated C code lacks else before a block

---
 src/bmd/codegen/codegen_c_cpp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 770a170..4c7b1d2 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -442,15 +442,17 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_after_if();
+            self.write_indent();
+            self.m_out.append("else", Code_Span_Type::keyword);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.m_out.append("else", Code_Span_Type::keyword);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From b40e6bc03e732dec6637668cc6a0d79743860699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 084/113] fix: generated C call statements lack a semicolon

---
 src/bmd/codegen/codegen_c_cpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 4c7b1d2..b879e20 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -650,6 +650,9 @@ struct C_Cpp_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From 259faf8864c94ce433aea6952243416392d04c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:15 +0000
Subject: [PATCH 085/113] fix: generated C blocks on their own line are not
 indented

---
 src/bmd/codegen/codegen_c_cpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index b879e20..c1293e7 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -531,6 +531,7 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
-- 
2.43.0


From 80c1485d1c48c8673f4e58bf10a861b5c73e754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 086/113] fix: generated C conditional expressions have
 unbalanced parentheses

---
 src/bmd/codegen/codegen_c_cpp.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index c1293e7..dc9c0b9 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -577,13 +577,6 @@ struct C_Cpp_Code_Generator::Visitor {
         constexpr auto outer_type = bms::Expression_Type::if_expression;
         Scoped_Attempt attempt = self.start_attempt();
 
-        const Some_Node& parent = *expression.get_parent();
-        const bool parenthesize = is_expression(parent);
-
-        if (parenthesize) {
-            self.m_out.append('(', Code_Span_Type::bracket);
-        }
-
         if (auto r = self.generate_subexpression(outer_type, expression.get_condition_node()); !r) {
             return r;
         }
@@ -596,10 +589,6 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
 
-        if (!parenthesize) {
-            self.m_out.append(')', Code_Span_Type::bracket);
-        }
-
         attempt.commit();
         return {};
     }
-- 
2.43.0


From edd943c642a970ab5d2c82d4ab0a2ab4f23ac716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 087/113] fix: generated C code lacks parentheses between
 operators of equal precedence

---
 src/bmd/codegen/codegen_c_cpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index dc9c0b9..dae9568 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -285,7 +285,9 @@ private:
     {
         const C_Cpp_Precedence_Group outer_group = precedence_group_of(outer_type);
         const C_Cpp_Precedence_Group inner_group = precedence_group_of(get_expression_type(inner));
-        return !std::is_lteq(compare_readably(outer_group, inner_group));
+        // Operands of equal precedence also need parentheses:
+        // a - (b - c) and -(-x) would otherwise become a - b - c and --x.
+        return !std::is_lt(compare_readably(outer_group, inner_group));
     }
 
     struct Visitor;
-- 
2.43.0


From b0f586e84e20cc27fccced69331f8acddd286fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:24 +0000
Subject: [PATCH 088/113] fix: generated C23 code lacks the names of constants

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index dae9568..04e85e8 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -658,8 +658,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
                     append_value(self.m_out, constant->const_value()->concrete_value());
+                    return {};
                 }
-                return {};
             }
         }
 
-- 
2.43.0


From 074d78b5505a9919ba361f3664fceffc2f44ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:28 +0000
Subject: [PATCH 089/113] fix: generated C code declares objects of type void

---
 src/bmd/codegen/codegen_c_cpp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 04e85e8..c59efd6 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -343,6 +343,9 @@ struct C_Cpp_Code_Generator::Visitor {
                     self.write_separating_comma();
                 }
                 first = false;
+                if (parameter.get_type().get_type() == bms::Type_Type::Void) {
+                    return Generator_Error { Generator_Error_Code::error, node };
+                }
                 auto v = Visitor { self, parameter.get_type_node() };
                 if (auto r = v(parameter.get_type()); !r) {
                     return r;
@@ -398,9 +401,13 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Let& variable)
     {
+        const bms::Concrete_Type type = variable.const_value()->get_type();
+        if (type == bms::Concrete_Type::Void) {
+            return Generator_Error { Generator_Error_Code::error, node };
+        }
         self.write_indent();
 
-        if (auto r = self.generate_type(node, variable.const_value()->get_type()); !r) {
+        if (auto r = self.generate_type(node, type); !r) {
             return r;
         }
 
-- 
2.43.0


From d9dfa5ee9347733d50e627ed3ae1c45ba559b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 090/113] fix: generated C code calls generic functions that it
 does not define

---
 src/bmd/codegen/codegen_c_cpp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index c59efd6..207c925 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -630,6 +631,14 @@ struct C_Cpp_Code_Generator::Visitor {
 
     Result<void, Generator_Error> operator()(const Function_Call_Expression& call)
     {
+        if (const auto* const* callee = get_if<Some_Node*>(&call.lookup_result)) {
+            // No code is generated for instances of generic functions.
+            const auto declarations = get<Program>(*self.m_program.get_root()).get_children();
+            if (std::ranges::find(declarations, *callee) == declarations.end()) {
+                return Generator_Error { Generator_Error_Code::error, node };
+            }
+        }
+
         Scoped_Attempt attempt = self.start_attempt();
         if (call.is_statement()) {
             self.write_indent();
-- 
2.43.0


From 10a86c397c4645d6f102a280bde81609b1d1a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:41 +0000
Subject: [PATCH 091/113] fix: generating code in languages that are not
 implemented crashes

---
 src/bmd/codegen/codegen.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/bmd/codegen/codegen.cpp b/src/bmd/codegen/codegen.cpp
index c23a1d7..1cd9ae2 100644
--- a/src/bmd/codegen/codegen.cpp
+++ b/src/bmd/codegen/codegen.cpp
@@ -1,36 +1,43 @@
+#include "bms/analyzed_program.hpp"
+
 #include "bmd/codegen/codegen.hpp"
 #include "bmd/codegen/code_language.hpp"
 
 namespace bit_manipulation::bmd {
 
 Result<void, Generator_Error>
-generate_rust_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_rust_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Rust codegen not implemented yet");
+    // Rust codegen is not implemented yet.
+    return Generator_Error { Generator_Error_Code::error, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_java_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_java_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Java codegen not implemented yet");
+    // Java codegen is not implemented yet.
+    return Generator_Error { Generator_Error_Code::error, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_kotlin_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_kotlin_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Kotlin codegen not implemented yet");
+    // Kotlin codegen is not implemented yet.
+    return Generator_Error { Generator_Error_Code::error, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_javascript_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_javascript_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, JavaScript codegen not implemented yet");
+    // JavaScript codegen is not implemented yet.
+    return Generator_Error { Generator_Error_Code::error, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_typescript_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_typescript_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, TypeScript codegen not implemented yet");
+    // TypeScript codegen is not implemented yet.
+    return Generator_Error { Generator_Error_Code::error, program.get_root() };
 }
 
 Result<void, Generator_Error> generate_code(Code_String& out,
-- 
2.43.0


From 9fe6af2409fdf397d20220475c0795c8bd4c6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:18 +0000
Subject: [PATCH 092/113] fix: generated C constants lose their type, sign or
 value

---
 src/bmd/codegen/codegen_c_cpp.cpp | 129 +++++++++++++++++++++++-------
 1 file changed, 101 insertions(+), 28 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 207c925..d92dcca 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,4 +1,6 @@
 #include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -143,26 +145,17 @@ struct C_Cpp_Type {
     int width = 0;
 };
 
-void append_value(Code_String& out, const bms::Concrete_Value& v)
+[[nodiscard]] bool is_representable_as_int(Big_Int value) noexcept
 {
-    switch (v.type.type()) {
-    case bms::Type_Type::Void: //
-        out.append('(', Code_Span_Type::bracket);
-        out.append("void", Code_Span_Type::keyword);
-        out.append(')', Code_Span_Type::bracket);
-        out.append('0', Code_Span_Type::number);
-        break;
-    case bms::Type_Type::Bool:
-        out.append(v.int_value ? "true" : "false", Code_Span_Type::boolean_literal);
-        break;
-    case bms::Type_Type::Int: //
-        out.append(to_string(v.int_value), Code_Span_Type::number);
-        break;
-    case bms::Type_Type::Uint: //
-        out.append(to_string(Big_Uint(v.int_value)), Code_Span_Type::number);
-        break;
-    default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
-    }
+    return value >= std::numeric_limits<std::int32_t>::min()
+        && value <= std::numeric_limits<std::int32_t>::max();
+}
+
+[[nodiscard]] bool is_representable_as_int64(Big_Int value) noexcept
+{
+    // The minimum is excluded because it cannot be written as a negated decimal literal.
+    return value > std::numeric_limits<std::int64_t>::min()
+        && value <= std::numeric_limits<std::int64_t>::max();
 }
 
 void append_type(Code_String& out, C_Cpp_Type type, C_Cpp_Dialect dialect)
@@ -281,6 +274,88 @@ private:
         return {};
     }
 
+    [[nodiscard]] Result<void, Generator_Error> generate_cast(const Some_Node* node,
+                                                              const bms::Concrete_Type& type)
+    {
+        Scoped_Parenthesization p = parenthesize();
+        return generate_type(node, type);
+    }
+
+    /// @brief Generates an expression with the given constant value, as an operand that can be used
+    /// within any prefix expression or binary expression.
+    [[nodiscard]] Result<void, Generator_Error> generate_value(const Some_Node* node,
+                                                               const bms::Concrete_Value& v)
+    {
+        const auto generate_magnitude = [&](Big_Uint magnitude, bool is_signed) {
+            const bool is_bitint_literal = magnitude > std::numeric_limits<std::uint64_t>::max();
+            if (is_bitint_literal && m_dialect != C_Cpp_Dialect::c23) {
+                return false;
+            }
+            std::string digits = to_string(magnitude);
+            if (is_bitint_literal) {
+                digits += is_signed ? "wb" : "uwb";
+            }
+            else if (magnitude > Big_Uint(std::numeric_limits<std::int64_t>::max())) {
+                digits += 'u';
+            }
+            m_out.append(digits, Code_Span_Type::number);
+            return true;
+        };
+        const Generator_Error width_error { Generator_Error_Code::unsupported_integer_width, node };
+
+        switch (v.type.type()) {
+        case bms::Type_Type::Void: //
+            m_out.append('(', Code_Span_Type::bracket);
+            m_out.append("void", Code_Span_Type::keyword);
+            m_out.append(')', Code_Span_Type::bracket);
+            m_out.append('0', Code_Span_Type::number);
+            return {};
+        case bms::Type_Type::Bool:
+            m_out.append(v.int_value ? "true" : "false", Code_Span_Type::boolean_literal);
+            return {};
+        case bms::Type_Type::Int: //
+            if (v.int_value < 0) {
+                if (m_dialect != C_Cpp_Dialect::c23 && !is_representable_as_int64(v.int_value)) {
+                    return width_error;
+                }
+                Scoped_Parenthesization p = parenthesize();
+                m_out.append('-', Code_Span_Type::operation);
+                if (!is_representable_as_int64(v.int_value)) {
+                    m_out.append(to_string(-Big_Uint(v.int_value)) + "wb", Code_Span_Type::number);
+                    return {};
+                }
+                m_out.append(to_string(-v.int_value), Code_Span_Type::number);
+                return {};
+            }
+            if (!generate_magnitude(Big_Uint(v.int_value), true)) {
+                return width_error;
+            }
+            return {};
+        case bms::Type_Type::Uint: //
+            if (auto r = generate_cast(node, v.type); !r) {
+                return r;
+            }
+            if (!generate_magnitude(Big_Uint(v.int_value), false)) {
+                return width_error;
+            }
+            return {};
+        }
+        BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
+    }
+
+    /// @brief Returns `true` if no object is declared for the given constant,
+    /// so that its value has to appear wherever the constant is used.
+    [[nodiscard]] bool is_inlined(const Const& constant) const
+    {
+        // Only C23 supports constexpr; there are no "true constants" prior to that.
+        if (!m_options.c_23) {
+            return true;
+        }
+        const bms::Concrete_Value value = constant.const_value()->concrete_value();
+        return value.type == bms::Concrete_Type::Void
+            || (value.type == bms::Concrete_Type::Int && !is_representable_as_int(value.int_value));
+    }
+
     [[nodiscard]] bool needs_parentheses(bms::Expression_Type outer_type,
                                          const Some_Node& inner) const final
     {
@@ -375,7 +450,7 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Const& constant)
     {
-        if (!self.m_options.c_23) {
+        if (self.is_inlined(constant)) {
             return Generator_Error { Generator_Error_Code::empty, node };
         }
         Scoped_Attempt attempt = self.start_attempt();
@@ -392,7 +467,9 @@ struct C_Cpp_Code_Generator::Visitor {
         self.m_out.append(constant.get_name(), Code_Span_Type::identifier);
 
         self.write_infix_operator("=");
-        append_value(self.m_out, constant.const_value()->concrete_value());
+        if (auto r = self.generate_value(node, constant.const_value()->concrete_value()); !r) {
+            return r;
+        }
 
         self.m_out.append(';', Code_Span_Type::punctuation);
 
@@ -670,11 +747,8 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         if (const auto* const* looked_up_node = get_if<Some_Node*>(&id.lookup_result)) {
             if (const auto* constant = get_if<Const>(*looked_up_node)) {
-                // Only C23 supports constexpr; there are no "true constants" prior to that.
-                // Therefore, we are forced to inline these whenever used.
-                if (!self.m_options.c_23) {
-                    append_value(self.m_out, constant->const_value()->concrete_value());
-                    return {};
+                if (self.is_inlined(*constant)) {
+                    return self.generate_value(node, constant->const_value()->concrete_value());
                 }
             }
         }
@@ -686,8 +760,7 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Literal& literal)
     {
         // TODO: preserve original style (hex vs. decimal literal etc.)
-        append_value(self.m_out, literal.const_value()->concrete_value());
-        return {};
+        return self.generate_value(node, literal.const_value()->concrete_value());
     }
 };
 
-- 
2.43.0


From 135d00411ab35fe40154038ce7081690ecd58c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 093/113] fix: generated C arithmetic is not done in the types
 of the program

---
 src/bmd/codegen/codegen_c_cpp.cpp | 205 +++++++++++++++++++++++++++---
 1 file changed, 189 insertions(+), 16 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index d92dcca..791487b 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -343,6 +343,100 @@ private:
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
     }
 
+    /// @brief Returns `true` if the result of an operation with the given type has to be converted
+    /// back to that type, because C performs it in the wider type `int`.
+    [[nodiscard]] bool is_result_truncated(const bms::Concrete_Type& type,
+                                           bms::Expression_Type operation) const
+    {
+        if (!type.is_uint()) {
+            return false;
+        }
+        const auto c_type = to_c_type(type, m_options, m_dialect);
+        if (!c_type
+            || (c_type->type != C_Cpp_Type_Type::uint8 && c_type->type != C_Cpp_Type_Type::uint16)) {
+            return false;
+        }
+        switch (operation) {
+        case bms::Expression_Type::binary_plus:
+        case bms::Expression_Type::binary_minus:
+        case bms::Expression_Type::multiplication:
+        case bms::Expression_Type::shift_left:
+        case bms::Expression_Type::unary_minus:
+        case bms::Expression_Type::bitwise_not: return true;
+        default: return false;
+        }
+    }
+
+    /// @brief Generates an operand of an operation in which the operand is converted to the given
+    /// type, where C would not necessarily convert `Int` operands to that same type.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_operand(bms::Expression_Type outer_type,
+                     const Some_Node* operand,
+                     const bms::Concrete_Type& type,
+                     bool is_left_operand = false)
+    {
+        const bms::Value& value = *get_const_value(*operand);
+        if (!type.is_uint() || value.get_type() != bms::Concrete_Type::Int) {
+            return generate_subexpression(outer_type, operand);
+        }
+        const auto c_type = to_c_type(type, m_options, m_dialect);
+        if (!c_type) {
+            return Generator_Error { c_type.error(), operand };
+        }
+        // The type of a shift is the type of its left operand.
+        const bool is_shifted = is_left_operand
+            && (outer_type == bms::Expression_Type::shift_left
+                || outer_type == bms::Expression_Type::shift_right);
+        const bool is_int_sufficient = c_type->type != C_Cpp_Type_Type::bituint
+            && !is_shifted
+            && (value.is_unknown() || is_representable_as_int(value.concrete_value().int_value));
+        if (is_int_sufficient) {
+            return generate_subexpression(outer_type, operand);
+        }
+        return generate_conversion(operand, type);
+    }
+
+    [[nodiscard]] Result<void, Generator_Error> generate_conversion(const Some_Node* operand,
+                                                                    const bms::Concrete_Type& type)
+    {
+        if (auto r = generate_cast(operand, type); !r) {
+            return r;
+        }
+        return generate_subexpression(bms::Expression_Type::conversion, operand);
+    }
+
+    /// @brief The result of attempting to generate an operation on `Int` operands as a constant.
+    enum struct Int_Folding { not_needed, impossible, needed };
+
+    /// @brief `Int` has more values than the C type `int`, but at least, operations with a constant
+    /// value can be replaced with this value.
+    [[nodiscard]] Int_Folding get_int_folding(const Some_Node* operation,
+                                              std::initializer_list<const Some_Node*> operands) const
+    {
+        const auto is_int = [](const bms::Value& v) { //
+            return v.get_type() == bms::Concrete_Type::Int;
+        };
+        const bms::Value& result = *get_const_value(*operation);
+        bool is_too_large = false, is_much_too_large = false;
+        for (const Some_Node* operand : operands) {
+            const bms::Value& value = *get_const_value(*operand);
+            if (!is_int(value)) {
+                return Int_Folding::not_needed;
+            }
+            if (value.is_known()) {
+                const Big_Int int_value = value.concrete_value().int_value;
+                is_too_large |= !is_representable_as_int(int_value);
+                is_much_too_large |= !is_representable_as_int64(int_value);
+            }
+        }
+        if (result.is_unknown()) {
+            return is_much_too_large ? Int_Folding::impossible : Int_Folding::not_needed;
+        }
+        is_too_large
+            |= is_int(result) && !is_representable_as_int(result.concrete_value().int_value);
+        return is_too_large ? Int_Folding::needed : Int_Folding::not_needed;
+    }
+
     /// @brief Returns `true` if no object is declared for the given constant,
     /// so that its value has to appear wherever the constant is used.
     [[nodiscard]] bool is_inlined(const Const& constant) const
@@ -641,16 +735,16 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Conversion_Expression& conversion)
     {
-        constexpr auto outer_type = bms::Expression_Type::conversion;
         Scoped_Attempt attempt = self.start_attempt();
-        {
-            Scoped_Parenthesization p = self.parenthesize();
-            Visitor v { self, conversion.get_target_type_node() };
-            if (auto r = v(conversion.get_target_type()); !r) {
-                return r;
+        if (auto folded = generate_folded_int({ conversion.get_expression_node() })) {
+            if (!*folded) {
+                return *folded;
             }
+            attempt.commit();
+            return {};
         }
-        if (auto r = self.generate_subexpression(outer_type, conversion.get_expression_node());
+        if (auto r = self.generate_conversion(conversion.get_expression_node(),
+                                              conversion.const_value()->get_type());
             !r) {
             return r;
         }
@@ -662,17 +756,26 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const If_Expression& expression)
     {
         constexpr auto outer_type = bms::Expression_Type::if_expression;
+        const bms::Concrete_Type type = expression.const_value()->get_type();
         Scoped_Attempt attempt = self.start_attempt();
+        if (auto folded = generate_folded_int(
+                { expression.get_left_node(), expression.get_right_node() })) {
+            if (!*folded) {
+                return *folded;
+            }
+            attempt.commit();
+            return {};
+        }
 
         if (auto r = self.generate_subexpression(outer_type, expression.get_condition_node()); !r) {
             return r;
         }
         self.write_infix_operator("?");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
+        if (auto r = self.generate_operand(outer_type, expression.get_left_node(), type); !r) {
             return r;
         }
         self.write_infix_operator(":");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
+        if (auto r = self.generate_operand(outer_type, expression.get_right_node(), type); !r) {
             return r;
         }
 
@@ -683,16 +786,45 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Binary_Expression& expression)
     {
         const auto outer_type = expression.get_expression_type();
+        const Some_Node* const left = expression.get_left_node();
+        const Some_Node* const right = expression.get_right_node();
         Scoped_Attempt attempt = self.start_attempt();
+        if (auto folded = generate_folded_int({ left, right })) {
+            if (!*folded) {
+                return *folded;
+            }
+            attempt.commit();
+            return {};
+        }
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
-            return r;
+        const bms::Concrete_Type left_type = get_const_value(*left)->get_type();
+        const bms::Concrete_Type right_type = get_const_value(*right)->get_type();
+        const bms::Concrete_Type operand_type = left_type.is_uint() ? left_type : right_type;
+        const bool is_truncated = self.is_result_truncated(operand_type, outer_type);
+
+        if (is_truncated) {
+            if (auto r = self.generate_cast(node, operand_type); !r) {
+                return r;
+            }
         }
+        {
+            Scoped_Parenthesization p = self.parenthesize_if(is_truncated);
+
+            // The product of two uint16_t would be computed as a (signed) int, and overflow.
+            const bool is_widened
+                = is_truncated && outer_type == bms::Expression_Type::multiplication;
+            if (auto r = is_widened
+                    ? self.generate_conversion(left, bms::Concrete_Type::Uint(32))
+                    : self.generate_operand(outer_type, left, operand_type, true);
+                !r) {
+                return r;
+            }
 
-        self.write_infix_operator(token_type_code_name(expression.get_op()));
+            self.write_infix_operator(token_type_code_name(expression.get_op()));
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
-            return r;
+            if (auto r = self.generate_operand(outer_type, right, operand_type); !r) {
+                return r;
+            }
         }
 
         attempt.commit();
@@ -702,8 +834,49 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Prefix_Expression& expression)
     {
         const auto outer_type = expression.get_expression_type();
-        self.m_out.append(token_type_code_name(expression.get_op()), Code_Span_Type::operation);
-        return self.generate_subexpression(outer_type, expression.get_expression_node());
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        Scoped_Attempt attempt = self.start_attempt();
+        if (auto folded = generate_folded_int({ expression.get_expression_node() })) {
+            if (!*folded) {
+                return *folded;
+            }
+            attempt.commit();
+            return {};
+        }
+
+        const bool is_truncated = self.is_result_truncated(type, outer_type);
+        if (is_truncated) {
+            if (auto r = self.generate_cast(node, type); !r) {
+                return r;
+            }
+        }
+        {
+            Scoped_Parenthesization p = self.parenthesize_if(is_truncated);
+            self.m_out.append(token_type_code_name(expression.get_op()), Code_Span_Type::operation);
+            if (auto r
+                = self.generate_subexpression(outer_type, expression.get_expression_node());
+                !r) {
+                return r;
+            }
+        }
+
+        attempt.commit();
+        return {};
+    }
+
+    /// @brief Generates the current node as a constant if this is necessary.
+    /// @return The result of generation, or `std::nullopt` if the node should be generated normally.
+    [[nodiscard]] std::optional<Result<void, Generator_Error>>
+    generate_folded_int(std::initializer_list<const Some_Node*> int_operands)
+    {
+        switch (self.get_int_folding(node, int_operands)) {
+        case Int_Folding::not_needed: return std::nullopt;
+        case Int_Folding::impossible:
+            return Generator_Error { Generator_Error_Code::unsupported_integer_width, node };
+        case Int_Folding::needed:
+            return self.generate_value(node, get_const_value(*node)->concrete_value());
+        }
+        BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid folding.");
     }
 
     Result<void, Generator_Error> operator()(const Function_Call_Expression& call)
-- 
2.43.0


From 2852ff62b851518e6f54e9cfd23683a962a6e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 094/113] fix: generated C code uses functions and constants
 before their declaration

---
 src/bmd/codegen/codegen_c_cpp.cpp | 73 ++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 6 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 791487b..8f8d42d 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -2,6 +2,7 @@
 #include <cstdint>
 #include <limits>
 #include <optional>
+#include <vector>
 
 #include "common/assert.hpp"
 #include "common/result.hpp"
@@ -249,6 +250,8 @@ using namespace bms::ast;
 struct C_Cpp_Code_Generator final : Code_Generator_Base {
 private:
     const C_Cpp_Dialect m_dialect;
+    /// @brief The functions and constants for which a declaration was generated so far.
+    std::vector<const Some_Node*> m_declared;
 
 public:
     C_Cpp_Code_Generator(Code_String& out,
@@ -437,6 +440,16 @@ private:
         return is_too_large ? Int_Folding::needed : Int_Folding::not_needed;
     }
 
+    [[nodiscard]] bool is_declared(const Some_Node* declaration) const
+    {
+        return std::ranges::find(m_declared, declaration) != m_declared.end();
+    }
+
+    /// @brief Generates prototypes for functions which are called anywhere within the given node,
+    /// and which have not been declared yet.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_prototypes_of_callees(const Some_Node& node);
+
     /// @brief Returns `true` if no object is declared for the given constant,
     /// so that its value has to appear wherever the constant is used.
     [[nodiscard]] bool is_inlined(const Const& constant) const
@@ -496,6 +509,27 @@ struct C_Cpp_Code_Generator::Visitor {
         }
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.m_declared.push_back(node);
+        if (auto r = self.generate_prototypes_of_callees(*function.get_body_node()); !r) {
+            return r;
+        }
+        if (auto r = generate_signature(function); !r) {
+            return r;
+        }
+
+        self.separate_after_function();
+        if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
+            return r;
+        }
+
+        attempt.commit();
+        return {};
+    }
+
+    [[nodiscard]] Result<void, Generator_Error> generate_signature(const Function& function)
+    {
+        Scoped_Attempt attempt = self.start_attempt();
+
         self.write_indent();
         if (auto r = Visitor { self, function.get_return_type_node() }(function.get_return_type());
             !r) {
@@ -528,11 +562,6 @@ struct C_Cpp_Code_Generator::Visitor {
             }
         }
 
-        self.separate_after_function();
-        if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
-            return r;
-        }
-
         attempt.commit();
         return {};
     }
@@ -566,6 +595,7 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         self.m_out.append(';', Code_Span_Type::punctuation);
+        self.m_declared.push_back(node);
 
         attempt.commit();
         return {};
@@ -920,7 +950,7 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         if (const auto* const* looked_up_node = get_if<Some_Node*>(&id.lookup_result)) {
             if (const auto* constant = get_if<Const>(*looked_up_node)) {
-                if (self.is_inlined(*constant)) {
+                if (self.is_inlined(*constant) || !self.is_declared(*looked_up_node)) {
                     return self.generate_value(node, constant->const_value()->concrete_value());
                 }
             }
@@ -942,6 +972,37 @@ Result<void, Generator_Error> C_Cpp_Code_Generator::generate_code(const Some_Nod
     return visit(Visitor { *this, node }, *node);
 }
 
+Result<void, Generator_Error>
+C_Cpp_Code_Generator::generate_prototypes_of_callees(const Some_Node& node)
+{
+    // No code is generated for these, so nothing in them needs to be declared.
+    if (holds_alternative<Type>(node) || holds_alternative<Const>(node)
+        || holds_alternative<Static_Assert>(node)) {
+        return {};
+    }
+    for (const Some_Node* child : get_children(node)) {
+        if (child == nullptr) {
+            continue;
+        }
+        if (auto r = generate_prototypes_of_callees(*child); !r) {
+            return r;
+        }
+    }
+    if (const auto* call = get_if<Function_Call_Expression>(&node)) {
+        const auto* const* callee = get_if<Some_Node*>(&call->lookup_result);
+        if (callee == nullptr || is_declared(*callee)) {
+            return {};
+        }
+        if (auto r = Visitor { *this, *callee }.generate_signature(get<Function>(**callee)); !r) {
+            return r;
+        }
+        write_semicolon();
+        end_line();
+        m_declared.push_back(*callee);
+    }
+    return {};
+}
+
 Result<void, Generator_Error> generate_c_cpp_code(Code_String& out,
                                                   const bms::Analyzed_Program& program,
                                                   Code_Language language,
-- 
2.43.0


From b735dc0221082a7c3045b20f1f8568b4a64bc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:06 +0000
Subject: [PATCH 095/113] fix: the width of generated _BitInt types is not
 highlighted

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 8f8d42d..88e91c0 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -205,7 +205,7 @@ void append_type(Code_String& out, C_Cpp_Type type, C_Cpp_Dialect dialect)
         out.append("_BitInt", Code_Span_Type::keyword);
         out.append('(', Code_Span_Type::bracket);
         // TODO: using allocations here is really dirty; better avoid
-        out.append(std::to_string(type.width));
+        out.append(std::to_string(type.width), Code_Span_Type::number);
         out.append(')', Code_Span_Type::bracket);
         return;
     }
-- 
2.43.0


From 581f562f9dfb220073fdc11de927712b163311ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 096/113] fix: errors when reading files are reported as
 internal errors

---
 src/common/io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/io.cpp b/src/common/io.cpp
index 0b23eb2..ec08928 100644
--- a/src/common/io.cpp
+++ b/src/common/io.cpp
@@ -10,7 +10,6 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
 {
     constexpr auto read_size = std::size_t(4096);
     auto stream = std::ifstream(path.data());
-    stream.exceptions(std::ios_base::badbit);
 
     if (!stream) {
         return IO_Error_Code::cannot_open;
@@ -22,6 +21,9 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
     while (stream.read(&buf[0], read_size)) {
         out.append(buf, 0, static_cast<Size>(stream.gcount()));
     }
+    if (stream.bad()) {
+        return IO_Error_Code::read_error;
+    }
     out.append(buf, 0, static_cast<Size>(stream.gcount()));
     return out;
 }
-- 
2.43.0


From 3aec9e71d3ac0ed07f26a76769220a8a7ef75cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 097/113] fix: the failed conversion of BMS files to HTML is
 successful

---
 src/cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..a4e52c2 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -73,7 +73,7 @@ int to_html(std::string_view file,
 
     if (file.ends_with(".bms")) {
         std::cout << "Converting BMS files to HTML is not supported yet\n";
-        return 0;
+        return 1;
     }
     if (file.ends_with(".bmd")) {
         const bmd::Parsed_Document program = parse_bmd_file(source, file, memory);
-- 
2.43.0


From 4cb79869a3651be34367c431937fe0a3d8b0cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 098/113] fix: HTML output is incomplete or lost without a
 diagnostic

---
 src/cli/main.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index a4e52c2..aa93709 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -2,6 +2,7 @@
 #include <iomanip>
 #include <iostream>
 #include <span>
+#include <sstream>
 #include <stdexcept>
 #include <string_view>
 
@@ -80,22 +81,14 @@ int to_html(std::string_view file,
 
         Result<void, bmd::Document_Error> result;
 
+        // The output is only written once it is known to be complete.
+        std::ostringstream html;
         if (!out_file) {
-            if (!std::cout) {
-                print_io_error(std::cerr, "stdout", IO_Error_Code::cannot_open, colors);
-                return 1;
-            }
-            Colored_HTML_Consumer consumer { std::cout };
+            Colored_HTML_Consumer consumer { html };
             result = write_html(consumer, program, memory);
         }
         else {
-            std::ofstream out { std::string(*out_file) };
-            if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
-                return 1;
-            }
-
-            Simple_HTML_Consumer consumer { out };
+            Simple_HTML_Consumer consumer { html };
             result = write_html(consumer, program, memory);
         }
 
@@ -104,6 +97,20 @@ int to_html(std::string_view file,
             return 1;
         }
 
+        if (!out_file) {
+            std::cout << html.view();
+            return 0;
+        }
+        std::ofstream out { std::string(*out_file) };
+        if (!out) {
+            print_io_error(std::cout, *out_file, IO_Error_Code::cannot_open, colors);
+            return 1;
+        }
+        out << html.view() << std::flush;
+        if (!out) {
+            print_io_error(std::cout, *out_file, IO_Error_Code::write_error, colors);
+            return 1;
+        }
         return 0;
     }
 
-- 
2.43.0


From 14246d7be63b195e0874fb6f4c3b9563fc30dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 099/113] fix: failures to write to stdout are ignored

---
 src/cli/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index aa93709..3de30c2 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -250,5 +250,12 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    using namespace bit_manipulation;
+
+    const int status = bit_manipulation::main(argc, argv);
+    if (!std::cout.flush()) {
+        print_io_error(std::cerr, "stdout", IO_Error_Code::write_error, colors);
+        return 1;
+    }
+    return status;
 }
-- 
2.43.0


From 96a4151093a3fafadcb0702322d54a4f6dc3f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 100/113] fix: dumped BMD documents contain colors even without
 the colors option

---
 src/common/diagnostics.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 997f5d8..fb2a9af 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -923,18 +923,18 @@ struct BMD_AST_Printer {
         const auto* const directive = get_if<bmd::ast::Directive>(node);
 
         if (directive) {
-            out << ansi::h_green << '\\' << directive->get_identifier();
+            out << color(ansi::h_green) << '\\' << directive->get_identifier();
         }
         else {
-            out << ansi::h_magenta << node_name;
+            out << color(ansi::h_magenta) << node_name;
         }
-        out << ansi::h_black << "(" << ansi::reset;
+        out << color(ansi::h_black) << "(" << color(ansi::reset);
         print_cut_off(out, extracted);
-        out << ansi::h_black << ")\n" << ansi::reset;
+        out << color(ansi::h_black) << ")\n" << color(ansi::reset);
 
         if (directive) {
             for (const auto& [key, val] : directive->m_arguments) {
-                out << indent << ansi::h_blue << key << ": " << ansi::reset
+                out << indent << color(ansi::h_blue) << key << ": " << color(ansi::reset)
                     << program.extract(get_source_span(val)) << '\n';
             }
         }
-- 
2.43.0


From dbe6c3109a81630365cbcc3052d2ef54dbdd7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:41 +0000
Subject: [PATCH 101/113] fix: diagnostics contain colors even without the
 colors option

---
 src/common/diagnostics.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index fb2a9af..6c97753 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -90,8 +90,19 @@ struct Printable_Error {
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
 
-const std::string error_prefix = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
-const std::string note_prefix = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+std::string_view error_prefix(bool colors)
+{
+    static const std::string colored
+        = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
+    return colors ? std::string_view(colored) : "error: ";
+}
+
+std::string_view note_prefix(bool colors)
+{
+    static const std::string colored
+        = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+    return colors ? std::string_view(colored) : "note: ";
+}
 
 std::string_view to_prose(bms::Tokenize_Error_Code e)
 {
@@ -584,8 +595,8 @@ std::ostream& print_printable_error(std::ostream& out, const Printable_Error& er
     for (const Error_Line& line : error.lines) {
         print_source_position(out, line.pos, colors) << ": ";
         switch (line.type) {
-        case Error_Line_Type::error: out << error_prefix; break;
-        case Error_Line_Type::note: out << note_prefix; break;
+        case Error_Line_Type::error: out << error_prefix(colors); break;
+        case Error_Line_Type::note: out << note_prefix(colors); break;
         }
         out << line.message;
 
@@ -686,7 +697,7 @@ std::ostream& print_tokenize_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, e.pos, colors);
-    out << ": " << error_prefix << to_prose(e.code) << '\n';
+    out << ": " << error_prefix(colors) << to_prose(e.code) << '\n';
     print_affected_line(out, source, e.pos, colors);
     return out;
 }
@@ -697,12 +708,12 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bms::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix(colors);
     out << "unexpected token " << token_type_readable_name(error.fail_token.type)
         << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
-        << ": " << note_prefix << "expected ";
+        << ": " << note_prefix(colors) << "expected ";
 
     const std::span<const bms::Token_Type> expected = error.expected_tokens;
     if (expected.size() == 0) {
@@ -728,7 +739,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bmd::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.pos, colors) << ": " << error_prefix(colors);
 
     if (error.code == bmd::Parse_Error_Code::unexpected_character
         && error.pos.begin >= source.size()) {
@@ -766,7 +777,7 @@ std::ostream& print_document_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, error.pos, colors)
-        << ": " << error_prefix << to_prose(error.code) << '\n';
+        << ": " << error_prefix(colors) << to_prose(error.code) << '\n';
 
     print_affected_line(out, source, error.pos, colors);
     if (error.code == bmd::Document_Error_Code::writer_misuse) {
-- 
2.43.0


From c82beca4ddbadfa5f0743f5b864f85b14aab0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:49 +0000
Subject: [PATCH 102/113] fix: names of tags with attributes are highlighted as
 brackets

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 899c9d2..85120cf 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -126,7 +126,7 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
 
     indent(properties.style);
     m_out.write('<', HTML_Token_Type::tag_bracket);
-    m_out.write(properties.id, HTML_Token_Type::tag_bracket);
+    m_out.write(properties.id, HTML_Token_Type::tag_identifier);
 
     m_state = State::attributes;
 
-- 
2.43.0


From 78fec0b7059b5c9a5d08b295536c304d6aee49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 103/113] fix: an HTML document without preamble is said to be
 complete

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index dfd7cdc..be959b4 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -143,7 +143,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From a76470b689886f0924b4a3b859fa41b0a517f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 104/113] fix: the program is terminated when writing an
 attribute fails

---
 src/bmd/html/html_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index be959b4..843648e 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -1,6 +1,8 @@
 #ifndef BIT_MANIPULATION_BMD_HTML_WRITER_HPP
 #define BIT_MANIPULATION_BMD_HTML_WRITER_HPP
 
+#include <exception>
+
 #include "common/assert.hpp"
 #include "common/parse.hpp"
 
@@ -60,6 +62,7 @@ struct Attribute_Writer {
 private:
     HTML_Writer& m_writer;
     Formatting_Style m_type;
+    int m_uncaught_exceptions = std::uncaught_exceptions();
 
 public:
     Attribute_Writer(HTML_Writer& writer, Formatting_Style type)
@@ -237,7 +240,9 @@ inline Attribute_Writer& Attribute_Writer::end_empty()
 inline Attribute_Writer::~Attribute_Writer() noexcept(false)
 {
     // This indicates that end() or end_empty() weren't called.
-    BIT_MANIPULATION_ASSERT(m_writer.m_state != HTML_Writer::State::attributes);
+    // However, if this is because an exception was thrown, another one must not be thrown.
+    BIT_MANIPULATION_ASSERT(std::uncaught_exceptions() > m_uncaught_exceptions
+                            || m_writer.m_state != HTML_Writer::State::attributes);
 }
 
 } // namespace bit_manipulation::bmd
-- 
2.43.0


From e2ca5488867927d6335c88d9875fd0ab0110b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 105/113] fix: usage errors leave the terminal in red

---
 src/cli/main.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 3de30c2..5a9fd60 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -36,7 +36,7 @@ constexpr bool colors = true;
 int dump_tokens(std::string_view file, std::pmr::memory_resource* memory)
 {
     if (!file.ends_with(".bms")) {
-        std::cout << ansi::red << "Error: file must have '.bms' suffix\n";
+        std::cout << ansi::red << "Error: file must have '.bms' suffix\n" << ansi::reset;
         return 1;
     }
     const std::pmr::string source = load_file(file, memory);
@@ -62,7 +62,8 @@ int dump_ast(std::string_view file, std::pmr::memory_resource* memory)
         return 0;
     }
 
-    std::cout << ansi::red << "Error: unrecognized file suffix for: " << file << '\n';
+    std::cout << ansi::red << "Error: unrecognized file suffix for: " << file << '\n'
+              << ansi::reset;
     return 1;
 }
 
@@ -114,14 +115,15 @@ int to_html(std::string_view file,
         return 0;
     }
 
-    std::cout << ansi::red << "Error: unrecognized file suffix for: " << file << '\n';
+    std::cout << ansi::red << "Error: unrecognized file suffix for: " << file << '\n'
+              << ansi::reset;
     return 1;
 }
 
 int check_semantics(std::string_view file, std::pmr::memory_resource* memory)
 {
     if (!file.ends_with(".bms")) {
-        std::cout << ansi::red << "Error: file must have '.bms' suffix\n";
+        std::cout << ansi::red << "Error: file must have '.bms' suffix\n" << ansi::reset;
         return 1;
     }
     std::pmr::unsynchronized_pool_resource memory_resource(memory);
@@ -140,12 +142,13 @@ int generate(std::string_view file,
              std::pmr::memory_resource* memory)
 {
     if (!file.ends_with(".bms")) {
-        std::cout << ansi::red << "Error: file must have '.bms' suffix.\n";
+        std::cout << ansi::red << "Error: file must have '.bms' suffix.\n" << ansi::reset;
         return 1;
     }
     std::optional<bmd::Code_Language> language = code_language_by_name(language_name);
     if (!language) {
-        std::cout << ansi::red << "Error: unrecognized code language: '" << language_name << "'\n";
+        std::cout << ansi::red << "Error: unrecognized code language: '" << language_name << "'\n"
+                  << ansi::reset;
         return 1;
     }
 
@@ -158,7 +161,7 @@ int generate(std::string_view file,
 
     bmd::Code_String out { &memory_resource };
     if (!bmd::generate_code(out, a, *language, {})) {
-        std::cout << ansi::red << "Error: failed to generate code.\n";
+        std::cout << ansi::red << "Error: failed to generate code.\n" << ansi::reset;
         return 1;
     }
     print_code_string(std::cout, out, colors);
-- 
2.43.0


From 51ba29f2c50510a0d8a8fc963faee5b60ac20fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 106/113] fix: boolean literals in generated BMS are marked as
 numbers

---
 src/bmd/codegen/codegen_bms.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index da64468..37e4425 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -516,7 +516,9 @@ struct Bms_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Literal& literal)
     {
-        self.m_out.append(literal.get_literal(), Code_Span_Type::number);
+        const bool is_boolean = bms::is_boolean_literal(literal.get_type());
+        self.m_out.append(literal.get_literal(),
+                          is_boolean ? Code_Span_Type::boolean_literal : Code_Span_Type::number);
         return {};
     }
 };
-- 
2.43.0


From 0465b1051b1c28760f10a665cef2f7cd96f62e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:13 +0000
Subject: [PATCH 107/113] fix: name the reason of an evaluation error that has
 no other cause

---
 src/common/diagnostics.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 6c97753..cdd5d8b 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -569,6 +569,13 @@ bool is_incompatible_return_type_error(const bms::Analysis_Error& error)
         }
         result.lines.push_back({ Error_Line_Type::note, cause->pos, std::move(message) });
     }
+    else if (error.code() == bms::Analysis_Error_Code::evaluation_error) {
+        result.lines.push_back({ .type = Error_Line_Type::note,
+                                 .pos = error.fail_pos(),
+                                 .message
+                                 = "Caused by: " + std::string(to_prose(error.evaluation_error())),
+                                 .omit_affected_line = true });
+    }
 
     result.is_internal = is_internal(error);
     return result;
-- 
2.43.0


From 189e6a17a626e4c341b8c34f3753497ec97bd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:17 +0000
Subject: [PATCH 108/113] fix: reading an uninitialized variable is not an
 internal error

---
 src/common/diagnostics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index cdd5d8b..f2fc13e 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -82,10 +82,11 @@ struct Printable_Error {
 // For example, an evaluation error can fail as a type error, but that can only happen
 // if prior analysis didn't spot the type error in the first place.
 // Similarly, VM execution errors are also "clean errors", but only end up here as the result
-// of faulty codegen.
+// of faulty codegen, except for reading variables which the program has not initialized.
 [[nodiscard]] bool is_internal(const bms::Analysis_Error& error)
 {
-    return error.code() == bms::Analysis_Error_Code::execution_error
+    return (error.code() == bms::Analysis_Error_Code::execution_error
+            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized)
         || (error.code() == bms::Analysis_Error_Code::evaluation_error
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
-- 
2.43.0


From 30ac8209ae39ff22aeb4fd06928872601c78fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:20 +0000
Subject: [PATCH 109/113] fix: state the constraints of annotation arguments in
 diagnostics

---
 src/bms/analyze_annotations.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze_annotations.cpp b/src/bms/analyze_annotations.cpp
index 03a0cfe..4a99615 100644
--- a/src/bms/analyze_annotations.cpp
+++ b/src/bms/analyze_annotations.cpp
@@ -85,7 +85,10 @@ struct Annotation_Parameter {
     [[nodiscard]] Annotation_Parameter_Wrong_Argument
     get_wrong_argument_info(Annotation_Parameter_Type argument_type) const
     {
-        return { .name = name, .expected = type(), .actual = argument_type };
+        return { .name = name,
+                 .expected = type(),
+                 .actual = argument_type,
+                 .value_constraints = validator.constraints };
     }
 };
 
-- 
2.43.0


From e637763a30b032ff6f976b79e718fe6ac75ce243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:03 +0000
Subject: [PATCH 110/113] fix: check jumps for targets before the first
 instruction

---
 src/bms/vm/vm.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index c9bb3f3..3967ac7 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -66,12 +66,11 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -85,14 +84,16 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump_if.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
-- 
2.43.0


From 4c489db2fd531d4c05a396aa45fdfe8da7fa8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:07 +0000
Subject: [PATCH 111/113] fix: forget the last comparison when resetting the
 virtual machine

---
 src/bms/vm/vm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From 133799549e2136ccbab3ad74c2acc5a941460909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:09 +0000
Subject: [PATCH 112/113] fix: look up symbols in the innermost scope first

---
 src/bms/symbol_table.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/bms/symbol_table.hpp b/src/bms/symbol_table.hpp
index d98de45..da688d6 100644
--- a/src/bms/symbol_table.hpp
+++ b/src/bms/symbol_table.hpp
@@ -82,15 +82,10 @@ public:
 
     Optional_Lookup_Result find(key_type symbol) const
     {
-        if (m_parent != nullptr) {
-            if (auto parent_result = m_parent->find(symbol)) {
-                return parent_result;
-            }
-        }
         if (auto iter = m_symbols.find(symbol); iter != m_symbols.end()) {
             return iter->second;
         }
-        return {};
+        return m_parent != nullptr ? m_parent->find(symbol) : Optional_Lookup_Result {};
     }
 };
 
-- 
2.43.0


From 93954dedc0d73641e0074d88e2e85cf2351e227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:20 +0000
Subject: [PATCH 113/113] fix: moved programs stay with their memory resource

---
 src/bms/ast.cpp           | 8 +++++---
 src/bms/parsing/parse.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 27f3c3f..02b1461 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -536,9 +536,11 @@ Analyzed_Program::Analyzed_Program(Analyzed_Program&& other) noexcept
 
 Analyzed_Program& Analyzed_Program::operator=(Analyzed_Program&& other) noexcept
 {
-    Implementation* old = std::exchange(m_impl, std::exchange(other.m_impl, nullptr));
-    if (old) {
-        allocator().delete_object(old);
+    // The implementation has to be freed with the memory resource that it was allocated with.
+    std::swap(m_memory, other.m_memory);
+    std::swap(m_impl, other.m_impl);
+    if (this != &other && other.m_impl) {
+        other.allocator().delete_object(std::exchange(other.m_impl, nullptr));
     }
     return *this;
 }
diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index a24143c..d676bfe 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -42,9 +42,11 @@ Parsed_Program::Parsed_Program(std::string_view source, std::pmr::memory_resourc
 
 Parsed_Program& Parsed_Program::operator=(Parsed_Program&& other) noexcept
 {
-    Implementation* old = std::exchange(m_impl, std::exchange(other.m_impl, nullptr));
-    if (old) {
-        allocator().delete_object(old);
+    // The implementation has to be freed with the memory resource that it was allocated with.
+    std::swap(m_memory, other.m_memory);
+    std::swap(m_impl, other.m_impl);
+    if (this != &other && other.m_impl) {
+        other.allocator().delete_object(std::exchange(other.m_impl, nullptr));
     }
     return *this;
 }
-- 
2.43.0

