From 2fb2529335ede1990e06a50f040acd628a6ba906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 01/56] fix: copying a Value with an unset Scalar threw instead
 of copying it

---
 src/GraphQLResponse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..f75810a 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,13 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			// Copying a Type::Scalar value which has never been set should also leave it unset.
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData { scalar ? std::make_unique<ScalarType>(*scalar) : nullptr } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 2760e7a1e4456b2e1d73ecadd7ea2923f1681693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 02/56] fix: toJSON wrote nothing at all for non-finite Float
 values, leaving invalid JSON

---
 src/JSONResponse.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..51717a7 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -10,6 +10,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include <vector>
@@ -80,7 +81,17 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 		case Type::Float:
 		{
-			writer.Double(response.get<FloatType>());
+			const auto value = response.get<FloatType>();
+
+			if (std::isfinite(value))
+			{
+				writer.Double(value);
+			}
+			else
+			{
+				// There is no JSON Number for infinity or NaN, and the Writer would leave it blank.
+				writer.Null();
+			}
 			break;
 		}
 
-- 
2.43.0


From 6844654429e98c618d10c7af3469a5a3e71a0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 03/56] fix: strings and member names with an embedded NUL were
 truncated by toJSON and parseJSON

---
 src/JSONResponse.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 51717a7..f7ba210 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -29,7 +29,8 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(),
+					static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -57,7 +58,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -189,9 +190,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -201,9 +202,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From d2f6ba4734c4fa1b653811235f0fff293ae7dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 04/56] fix: comments and strings did not end at a carriage
 return, and a BOM after the start was rejected

---
 include/graphqlservice/internal/Grammar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..dde06bc 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -65,12 +65,12 @@ struct source_character : sor<one<0x0009, 0x000A, 0x000D>, utf8::range<0x0020, 0
 };
 
 // http://spec.graphql.org/June2018/#sec-Comments
-struct comment : seq<one<'#'>, until<eolf>>
+struct comment : seq<one<'#'>, star<not_one<'\n', '\r'>>>
 {
 };
 
 // http://spec.graphql.org/June2018/#sec-Source-Text.Ignored-Tokens
-struct ignored : sor<space, one<','>, comment>
+struct ignored : sor<one<0x0009, 0x000A, 0x000D, 0x0020, ','>, comment, utf8::bom>
 {
 };
 
@@ -128,7 +128,7 @@ struct string_escape_sequence : if_must<backslash_token, string_escape_sequence_
 };
 
 struct string_quote_character
-	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<ascii::eol>, source_character>
+	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<one<0x000A, 0x000D>>, source_character>
 {
 };
 
-- 
2.43.0


From ac9fb08b050d8dc211bedb29e7de4faebb63e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 05/56] fix: Float values with both a fraction and an exponent
 were a syntax error

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index dde06bc..4cc9d85 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From eace9d7a2e3718fb03bad6b775222fb9ba7135d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 06/56] fix: true, false and null were accepted as enum values

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 4cc9d85..94c1f0c 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -242,7 +242,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From e7b90731c634d4b8c374620d4868cf535654413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 07/56] fix: ignored tokens were required where the grammar
 makes them optional

---
 include/graphqlservice/internal/Grammar.h | 35 +++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 94c1f0c..adf5c7e 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -189,8 +189,13 @@ struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit,
 {
 };
 
+// A number must not run into another digit, name, or decimal point
+struct number_end : not_at<sor<identifier_other, one<'.'>>>
+{
+};
+
 // http://spec.graphql.org/June2018/#IntValue
-struct integer_value : integer_part
+struct integer_value : seq<integer_part, number_end>
 {
 };
 
@@ -224,7 +229,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>, number_end>
 {
 };
 
@@ -278,7 +283,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -290,7 +295,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -313,7 +318,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -393,7 +398,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -416,7 +421,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -502,7 +507,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -558,7 +563,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -606,7 +611,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -631,7 +636,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -806,7 +811,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -882,7 +887,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -967,7 +972,7 @@ struct directive_definition_start
 
 struct directive_definition_content
 	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
-		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
+		  star<ignored>, on_keyword, star<ignored>, directive_locations>
 {
 };
 
@@ -995,7 +1000,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<one<'{'>, star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From 1d8da2c5cad0deb94fba81c042dfafe00c888c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 08/56] fix: ignored tokens between the directives and the
 braces of a schema extension were a syntax error

---
 include/graphqlservice/internal/Grammar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index adf5c7e..99be726 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -1007,7 +1007,8 @@ struct schema_extension_operation_type_definitions
 
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
-- 
2.43.0


From 0c7bdcae2801562c56f4c07b810071dd5c4fb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 09/56] fix: parsing nested list types took time exponential in
 the nesting depth

---
 include/graphqlservice/internal/Grammar.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 99be726..8d5d3c4 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -363,6 +363,14 @@ struct named_type : name
 struct list_type;
 struct nonnull_type;
 
+// Look ahead for the end of a type without repeating the same lookahead for the types nested in it
+struct type_lookahead
+	: sor<seq<one<'['>, star<ignored>, type_lookahead, star<ignored>,
+			  opt<one<'!'>, star<ignored>>, one<']'>>,
+		  name>
+{
+};
+
 struct list_type_content
 	: seq<star<ignored>, sor<nonnull_type, list_type, named_type>, star<ignored>, must<one<']'>>>
 {
@@ -374,7 +382,9 @@ struct list_type : if_must<one<'['>, list_type_content>
 };
 
 // http://spec.graphql.org/June2018/#NonNullType
-struct nonnull_type : seq<sor<list_type, named_type>, star<ignored>, one<'!'>>
+struct nonnull_type
+	: seq<at<type_lookahead, star<ignored>, one<'!'>>, sor<list_type, named_type>, star<ignored>,
+		  one<'!'>>
 {
 };
 
-- 
2.43.0


From 21902422a567a0d801962941417617e04e7fb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 10/56] fix: escape sequences in strings were not decoded

---
 src/SyntaxTree.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..b2dfa0a 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
@@ -152,6 +152,18 @@ struct ast_selector<float_value> : std::true_type
 template <>
 struct ast_selector<escaped_unicode> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		try
+		{
+			// Decode it now, so that an unpaired surrogate is a syntax error.
+			(void)n->unescaped_view();
+		}
+		catch (const parse_error&)
+		{
+			throw parse_error("invalid escaped unicode code point", n->begin());
+		}
+	}
 };
 
 template <>
@@ -236,6 +248,12 @@ struct ast_selector<block_quote_character> : std::true_type
 template <>
 struct ast_selector<string_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// The tree may be shared between threads later, don't leave it to the first of them to
+		// join the pieces of the string.
+		(void)n->unescaped_view();
+	}
 };
 
 template <>
-- 
2.43.0


From 22919636e917daec50e174f46169bacc4b97e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 11/56] fix: block strings kept their common indentation and
 blank first and last lines

---
 src/SyntaxTree.cpp | 71 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b2dfa0a..9296e1c 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -8,10 +8,13 @@
 
 #include <tao/pegtl/contrib/unescape.hpp>
 
+#include <algorithm>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <numeric>
 #include <tuple>
+#include <vector>
 
 using namespace std::literals;
 
@@ -43,11 +46,77 @@ void ast_node::unescaped_view(std::string_view unescaped) noexcept
 	_unescaped = std::make_unique<unescaped_t>(unescaped);
 }
 
+// http://spec.graphql.org/June2018/#BlockStringValue()
+static std::string block_string_value(std::string_view raw)
+{
+	constexpr auto whitespace = " \t"sv;
+	std::vector<std::string_view> lines;
+
+	for (;;)
+	{
+		const auto end = raw.find_first_of("\r\n"sv);
+
+		lines.push_back(raw.substr(0, end));
+
+		if (end == std::string_view::npos)
+		{
+			break;
+		}
+
+		raw.remove_prefix(end + (raw.substr(end, 2) == "\r\n"sv ? 2 : 1));
+	}
+
+	// The first line does not have any indentation in common with the others.
+	auto indent = std::string_view::npos;
+
+	for (size_t i = 1; i < lines.size(); ++i)
+	{
+		indent = (std::min)(indent, lines[i].find_first_not_of(whitespace));
+	}
+
+	for (size_t i = 1; i < lines.size(); ++i)
+	{
+		lines[i].remove_prefix((std::min)(indent, lines[i].size()));
+	}
+
+	const auto is_blank = [whitespace](std::string_view line) noexcept {
+		return line.find_first_not_of(whitespace) == std::string_view::npos;
+	};
+	const auto first = std::find_if_not(lines.cbegin(), lines.cend(), is_blank);
+	const auto last =
+		std::find_if_not(lines.crbegin(), std::make_reverse_iterator(first), is_blank).base();
+	std::string result;
+
+	for (auto line = first; line != last; ++line)
+	{
+		if (line != first)
+		{
+			result.push_back('\n');
+		}
+
+		result.append(*line);
+	}
+
+	return result;
+}
+
 std::string_view ast_node::unescaped_view() const
 {
 	if (!_unescaped)
 	{
-		if (children.size() > 1)
+		if (string_view().substr(0, 3) == R"bq(""")bq"sv)
+		{
+			std::string joined;
+
+			for (const auto& child : children)
+			{
+				joined.append(child->unescaped_view());
+			}
+
+			const_cast<ast_node*>(this)->_unescaped =
+				std::make_unique<unescaped_t>(block_string_value(joined));
+		}
+		else if (children.size() > 1)
 		{
 			std::string joined;
 
-- 
2.43.0


From ecfcab649a316c4c0b83ab489d89f7ddf32ee6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 12/56] fix: descriptions with escape sequences were cut at the
 first of them

---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..bfe0951 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -657,7 +657,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -718,7 +718,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -775,7 +775,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -831,7 +831,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -873,7 +873,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -936,7 +936,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -959,7 +959,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1008,7 +1008,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1094,7 +1094,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1182,7 +1182,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 4f53eac2e081c326e7781474db53cb6401e12040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 13/56] fix: integer literals outside of the range of Int were
 altered instead of rejected

---
 src/GraphQLService.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..9b6e839 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,7 +9,9 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace graphql::service {
 
@@ -276,7 +278,18 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto literal = intValue.string();
+	const auto value = std::strtoll(literal.c_str(), nullptr, 10);
+
+	if (value < (std::numeric_limits<response::IntType>::min)()
+		|| value > (std::numeric_limits<response::IntType>::max)())
+	{
+		// It does not fit in an Int, but it may still be the value of a Float.
+		_value = response::Value(std::atof(literal.c_str()));
+		return;
+	}
+
+	_value = response::Value(static_cast<response::IntType>(value));
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
-- 
2.43.0


From f33ea41f803d36b3c21980533c5cc16f95309301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 14/56] fix: @include was ignored on anything which also has
 @skip

---
 src/GraphQLService.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 9b6e839..9b83489 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -464,15 +464,7 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
-		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
-		}
-		else
+		if (argumentTrue == argumentFalse)
 		{
 			std::ostringstream error;
 
@@ -480,6 +472,12 @@ bool DirectiveVisitor::shouldSkip() const
 
 			throw schema_exception { { error.str() } };
 		}
+
+		// Both directives must agree to keep it.
+		if (argumentTrue == skip)
+		{
+			return true;
+		}
 	}
 
 	return false;
-- 
2.43.0


From d50e82bb48cc0f25629b26e80ad31fec487109fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 15/56] fix: a skipped field also dropped the later fields with
 the same response name

---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 9b83489..92d9721 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -863,6 +863,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -890,17 +901,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From a3e8ce561d9d3331903c7de2eafcba3221cbffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 16/56] fix: subscribing with a fragment on the subscription
 type crashed or failed

---
 src/GraphQLService.cpp | 59 ++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 92d9721..5f9a46a 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1413,10 +1413,13 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
 
+	bool matchesType(std::string_view typeName) const;
+
 	SubscriptionParams _params;
 	SubscriptionCallback _callback;
 	FragmentMap _fragments;
@@ -1455,21 +1458,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
-	for (const auto& child : selection.children)
-	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
-	}
+	visitSelection(selection);
 
 	response::Value directives(response::Type::Map);
 
@@ -1495,6 +1484,25 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	for (const auto& child : selection.children)
+	{
+		if (child->is_type<peg::field>())
+		{
+			visitField(*child);
+		}
+		else if (child->is_type<peg::fragment_spread>())
+		{
+			visitFragmentSpread(*child);
+		}
+		else if (child->is_type<peg::inline_fragment>())
+		{
+			visitInlineFragment(*child);
+		}
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1563,7 +1571,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = !matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1581,10 +1589,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		return;
 	}
 
-	for (const auto& selection : itr->second.getSelection().children)
-	{
-		visit(*selection);
-	}
+	visitSelection(itr->second.getSelection());
 }
 
 void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1609,17 +1614,21 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		});
 
 	if (typeCondition == nullptr
-		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
+		|| matchesType(typeCondition->children.front()->string_view()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
-			for (const auto& selection : child.children)
-			{
-				visit(*selection);
-			}
+			visitSelection(child);
 		});
 	}
 }
 
+bool SubscriptionDefinitionVisitor::matchesType(std::string_view typeName) const
+{
+	// The default subscription object is optional. Validation already checked that the fragments can
+	// be spread on the subscription type, so if we don't have an object all of them apply.
+	return !_subscriptionObject || _subscriptionObject->matchesType(typeName);
+}
+
 Request::Request(TypeMap&& operationTypes, const std::shared_ptr<schema::Schema>& schema)
 	: _operations(std::move(operationTypes))
 	, _validation(std::make_unique<ValidateExecutableVisitor>(schema))
-- 
2.43.0


From 79e5fbce65b368c592c1728c45bf109c87eff19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 17/56] fix: subscribe mixed up all of the operations in the
 document instead of using the requested one

---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5f9a46a..07207bc 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1407,7 +1407,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1440,11 +1439,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -2004,10 +1998,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From 4c6155e4d4916719929c7922925b747a3c10d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 18/56] fix: variable defaults were ignored by subscriptions
 and by directives on fragment definitions

---
 src/GraphQLService.cpp | 169 ++++++++++++++++++++++++-----------------
 1 file changed, 99 insertions(+), 70 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 07207bc..bd5eadf 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1231,26 +1231,34 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 {
 }
 
-// FragmentDefinitionVisitor visits the AST and collects all of the fragment
-// definitions in the document.
+// FragmentDefinitionVisitor visits the AST and collects all of the fragment definitions which are
+// reachable from an operation. The directives on the other ones may depend on variables which
+// are not defined in this operation.
 class FragmentDefinitionVisitor
 {
 public:
-	FragmentDefinitionVisitor(const response::Value& variables);
+	FragmentDefinitionVisitor(const peg::ast_node& root, const response::Value& variables);
 
 	FragmentMap getFragments();
 
-	void visit(const peg::ast_node& fragmentDefinition);
+	void visit(const peg::ast_node& selectionSet);
 
 private:
 	const response::Value& _variables;
 
+	internal::string_view_map<std::reference_wrapper<const peg::ast_node>> _definitions;
 	FragmentMap _fragments;
 };
 
-FragmentDefinitionVisitor::FragmentDefinitionVisitor(const response::Value& variables)
+FragmentDefinitionVisitor::FragmentDefinitionVisitor(
+	const peg::ast_node& root, const response::Value& variables)
 	: _variables(variables)
 {
+	peg::for_each_child<peg::fragment_definition>(root,
+		[this](const peg::ast_node& fragmentDefinition) {
+			_definitions.emplace(fragmentDefinition.children.front()->string_view(),
+				std::cref(fragmentDefinition));
+		});
 }
 
 FragmentMap FragmentDefinitionVisitor::getFragments()
@@ -1259,10 +1267,70 @@ FragmentMap FragmentDefinitionVisitor::getFragments()
 	return result;
 }
 
-void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
+void FragmentDefinitionVisitor::visit(const peg::ast_node& selectionSet)
+{
+	for (const auto& selection : selectionSet.children)
+	{
+		if (selection->is_type<peg::fragment_spread>())
+		{
+			const auto itr = _definitions.find(selection->children.front()->string_view());
+
+			if (itr != _definitions.end() && _fragments.find(itr->first) == _fragments.end())
+			{
+				const peg::ast_node& fragmentDefinition = itr->second;
+
+				_fragments.emplace(itr->first, Fragment(fragmentDefinition, _variables));
+				visit(*fragmentDefinition.children.back());
+			}
+		}
+		else
+		{
+			peg::on_first_child<peg::selection_set>(*selection, [this](const peg::ast_node& child) {
+				visit(child);
+			});
+		}
+	}
+}
+
+// Filter the variables down to the ones which are defined by this operation, and fill in the default
+// values of the ones which are missing.
+response::Value getOperationVariables(
+	const peg::ast_node& operationDefinition, const response::Value& variables)
 {
-	_fragments.emplace(fragmentDefinition.children.front()->string_view(),
-		Fragment(fragmentDefinition, _variables));
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
 }
 
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
@@ -1323,42 +1391,6 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
-
 	response::Value operationDirectives(response::Type::Map);
 
 	peg::on_first_child<peg::directives>(operationDefinition,
@@ -1703,14 +1735,6 @@ std::future<response::Value> Request::resolve(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(*query.root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findOperationDefinition(query, operationName);
 
 		if (!operationDefinition.second)
@@ -1749,11 +1773,18 @@ std::future<response::Value> Request::resolve(std::launch launch,
 		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
 		const auto operationLaunch = isMutation ? std::launch::deferred : launch;
 
+		auto operationVariables = getOperationVariables(*operationDefinition.second, variables);
+		FragmentDefinitionVisitor fragmentVisitor(*query.root, operationVariables);
+
+		fragmentVisitor.visit(*operationDefinition.second->children.back());
+
+		auto fragments = fragmentVisitor.getFragments();
+
 		OperationDefinitionVisitor operationVisitor(resolverContext,
 			operationLaunch,
 			state,
 			_operations,
-			std::move(variables),
+			std::move(operationVariables),
 			std::move(fragments));
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
@@ -1851,14 +1882,6 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findUnvalidatedOperationDefinition(root, operationName);
 
 		if (!operationDefinition.second)
@@ -1903,11 +1926,18 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 		const auto resolverContext =
 			isMutation ? ResolverContext::Mutation : ResolverContext::Query;
 
+		auto operationVariables = getOperationVariables(*operationDefinition.second, variables);
+		FragmentDefinitionVisitor fragmentVisitor(root, operationVariables);
+
+		fragmentVisitor.visit(*operationDefinition.second->children.back());
+
+		auto fragments = fragmentVisitor.getFragments();
+
 		OperationDefinitionVisitor operationVisitor(resolverContext,
 			launch,
 			state,
 			_operations,
-			std::move(variables),
+			std::move(operationVariables),
 			std::move(fragments));
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
@@ -1952,14 +1982,6 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		throw schema_exception { std::move(errors) };
 	}
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
-
-	peg::for_each_child<peg::fragment_definition>(*params.query.root,
-		[&fragmentVisitor](const peg::ast_node& child) {
-			fragmentVisitor.visit(child);
-		});
-
-	auto fragments = fragmentVisitor.getFragments();
 	auto operationDefinition = findOperationDefinition(params.query, params.operationName);
 
 	if (!operationDefinition.second)
@@ -1992,6 +2014,13 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		};
 	}
 
+	params.variables = getOperationVariables(*operationDefinition.second, params.variables);
+
+	FragmentDefinitionVisitor fragmentVisitor(*params.query.root, params.variables);
+
+	fragmentVisitor.visit(*operationDefinition.second->children.back());
+
+	auto fragments = fragmentVisitor.getFragments();
 	auto itr = _operations.find(strSubscription);
 	SubscriptionDefinitionVisitor subscriptionVisitor(std::move(params),
 		std::move(callback),
-- 
2.43.0


From d052c8224531c5af60e8e3f2a81de787e20db828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 19/56] fix: the launch policy forms of subscribe and
 unsubscribe failed without a default subscription object

---
 src/GraphQLService.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index bd5eadf..e715083 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2048,10 +2048,10 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
-				const auto& registration = spThis->_subscriptions.at(key);
+				const auto registration = spThis->_subscriptions.at(key);
 				response::Value emptyFragmentDirectives(response::Type::Map);
 				const SelectionSetParams selectionSetParams {
 					ResolverContext::NotifySubscribe,
@@ -2073,11 +2073,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
@@ -2121,11 +2121,13 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 {
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
+		const auto itrSubscription = spThis->_subscriptions.find(key);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second
+			&& itrSubscription != spThis->_subscriptions.end())
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = spThis->_subscriptions.at(key);
+			const auto registration = itrSubscription->second;
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
-- 
2.43.0


From 2061e4e11cc1462f3d9b3caf5266381b1f2b18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 20/56] fix: deliver without a directive filter skipped
 subscriptions with directives or arguments

---
 src/GraphQLService.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e715083..5db69d7 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2189,13 +2189,26 @@ void Request::deliver(const SubscriptionName& name,
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, SubscriptionArguments {}, SubscriptionArguments {}, subscriptionObject);
+	deliver(
+		launch,
+		name,
+		[](response::MapType::const_reference) noexcept {
+			return true;
+		},
+		subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const SubscriptionArguments& arguments, const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, arguments, SubscriptionArguments {}, subscriptionObject);
+	SubscriptionFilterCallback argumentsMatch =
+		[&arguments](response::MapType::const_reference required) noexcept -> bool {
+		auto itrArgument = arguments.find(required.first);
+
+		return (itrArgument != arguments.end() && itrArgument->second == required.second);
+	};
+
+	deliver(launch, name, argumentsMatch, subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
-- 
2.43.0


From 594655b7eb704f599fd5ea794a4642d13185837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 21/56] fix: errors in the root selection set were thrown from
 the response future

---
 src/GraphQLService.cpp | 82 +++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5db69d7..aadcd89 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1231,6 +1231,34 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 {
 }
 
+// Convert the result of an operation to a response document. If the operation could not be executed
+// at all, the document has no data and just the errors.
+response::Value buildResponse(std::future<ResolverResult>&& operationFuture)
+{
+	response::Value document { response::Type::Map };
+
+	try
+	{
+		auto result = operationFuture.get();
+
+		document.emplace_back(std::string { strData }, std::move(result.data));
+
+		if (!result.errors.empty())
+		{
+			document.emplace_back(std::string { strErrors },
+				buildErrorValues(std::move(result.errors)));
+		}
+	}
+	catch (schema_exception& ex)
+	{
+		document = response::Value { response::Type::Map };
+		document.emplace_back(std::string { strData }, response::Value());
+		document.emplace_back(std::string { strErrors }, ex.getErrors());
+	}
+
+	return document;
+}
+
 // FragmentDefinitionVisitor visits the AST and collects all of the fragment definitions which are
 // reachable from an operation. The directives on the other ones may depend on variables which
 // are not defined in this operation.
@@ -1789,23 +1817,7 @@ std::future<response::Value> Request::resolve(std::launch launch,
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
 
-		return std::async(
-			launch,
-			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
-				response::Value document { response::Type::Map };
-
-				document.emplace_back(std::string { strData }, std::move(result.data));
-
-				if (!result.errors.empty())
-				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
-				}
-
-				return document;
-			},
-			operationVisitor.getValue());
+		return std::async(launch, buildResponse, operationVisitor.getValue());
 	}
 	catch (schema_exception& ex)
 	{
@@ -1942,23 +1954,7 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
 
-		return std::async(
-			launch,
-			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
-				response::Value document { response::Type::Map };
-
-				document.emplace_back(std::string { strData }, std::move(result.data));
-
-				if (!result.errors.empty())
-				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
-				}
-
-				return document;
-			},
-			operationVisitor.getValue());
+		return std::async(launch, buildResponse, operationVisitor.getValue());
 	}
 	catch (schema_exception& ex)
 	{
@@ -2337,22 +2333,8 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 
 		try
 		{
-			result = std::async(
-				launch,
-				[](std::future<ResolverResult>&& operationFuture) {
-					auto result = operationFuture.get();
-					response::Value document { response::Type::Map };
-
-					document.emplace_back(std::string { strData }, std::move(result.data));
-
-					if (!result.errors.empty())
-					{
-						document.emplace_back(std::string { strErrors },
-							buildErrorValues(std::move(result.errors)));
-					}
-
-					return document;
-				},
+			result = std::async(launch,
+				buildResponse,
 				optionalOrDefaultSubscription->resolve(selectionSetParams,
 					registration->selection,
 					registration->data->fragments,
-- 
2.43.0


From 4db3ecfa8643901f5a84eb5d570e5fec1e65c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 22/56] fix: errors from futures had no location or path, and
 failing list elements were dropped

---
 include/graphqlservice/GraphQLService.h | 20 +++---
 src/GraphQLService.cpp                  | 85 ++++++++++++++-----------
 2 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..074be20 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -78,6 +78,10 @@ struct schema_error
 	error_path path;
 };
 
+// Fill in the location and path of any errors which don't have one yet.
+GRAPHQLSERVICE_EXPORT void addErrorSource(std::list<schema_error>& errors,
+	const schema_location& location, const std::optional<field_path>& path);
+
 GRAPHQLSERVICE_EXPORT response::Value buildErrorValues(std::list<schema_error>&& structuredErrors);
 
 // This exception bubbles up 1 or more error messages to the JSON results.
@@ -689,10 +693,11 @@ struct ModifiedResult
 					{
 						auto errors = scx.getStructuredErrors();
 
-						if (!errors.empty())
-						{
-							document.errors.splice(document.errors.end(), errors);
-						}
+						addErrorSource(errors,
+							wrappedParams.getLocation(),
+							wrappedParams.errorPath);
+						document.errors.splice(document.errors.end(), errors);
+						document.data.emplace_back(response::Value {});
 					}
 					catch (const std::exception& ex)
 					{
@@ -704,6 +709,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back(response::Value {});
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
@@ -738,10 +744,8 @@ private:
 			{
 				auto errors = scx.getStructuredErrors();
 
-				if (!errors.empty())
-				{
-					document.errors.splice(document.errors.end(), errors);
-				}
+				addErrorSource(errors, paramsFuture.getLocation(), paramsFuture.errorPath);
+				document.errors.splice(document.errors.end(), errors);
 			}
 			catch (const std::exception& ex)
 			{
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index aadcd89..a79728e 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -96,6 +96,23 @@ error_path buildErrorPath(const std::optional<field_path>& path)
 	return result;
 }
 
+void addErrorSource(std::list<schema_error>& errors, const schema_location& location,
+	const std::optional<field_path>& path)
+{
+	for (auto& error : errors)
+	{
+		if (error.location.line == 0)
+		{
+			error.location = location;
+		}
+
+		if (error.path.empty())
+		{
+			error.path = buildErrorPath(path);
+		}
+	}
+}
+
 response::Value buildErrorValues(std::list<schema_error>&& structuredErrors)
 {
 	response::Value errors(response::Type::List);
@@ -765,6 +782,15 @@ struct FragmentDirectives
 	response::Value inlineFragmentDirectives;
 };
 
+// The pending value of a selected field, with everything we need to report an error if it fails.
+struct SelectionValue
+{
+	std::string_view name;
+	schema_location location;
+	field_path path;
+	std::future<ResolverResult> result;
+};
+
 // SelectionVisitor visits the AST and resolves a field or fragment, unless it's skipped by
 // a directive or type condition.
 class SelectionVisitor
@@ -776,7 +802,7 @@ public:
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<SelectionValue> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -795,7 +821,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<SelectionValue> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -821,7 +847,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectionValue> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -882,22 +908,24 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
+	const auto position = field.begin();
+	const schema_location location { position.line, position.column };
+	const field_path path { _path, path_segment { alias } };
 	const auto itrResolver = _resolvers.find(name);
 
 	if (itrResolver == _resolvers.end())
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		std::ostringstream error;
 
 		error << "Unknown field name: " << name;
 
 		promise.set_exception(
 			std::make_exception_ptr(schema_exception { { schema_error { error.str(),
-				{ position.line, position.column },
+				location,
 				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, path, promise.get_future() });
 		return;
 	}
 
@@ -927,7 +955,7 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		_fragmentDirectives.back().fragmentDefinitionDirectives,
 		_fragmentDirectives.back().fragmentSpreadDirectives,
 		_fragmentDirectives.back().inlineFragmentDirectives,
-		std::make_optional(field_path { _path, path_segment { alias } }),
+		std::make_optional(path),
 		_launch,
 	};
 
@@ -942,45 +970,32 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
-		_values.push_back({ alias, std::move(result) });
+		_values.push_back({ alias, location, path, std::move(result) });
 	}
 	catch (schema_exception& scx)
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		auto messages = scx.getStructuredErrors();
 
-		for (auto& message : messages)
-		{
-			if (message.location.line == 0)
-			{
-				message.location = { position.line, position.column };
-			}
-
-			if (message.path.empty())
-			{
-				message.path = buildErrorPath(selectionSetParams.errorPath);
-			}
-		}
+		addErrorSource(messages, location, selectionSetParams.errorPath);
 
 		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, path, promise.get_future() });
 	}
 	catch (const std::exception& ex)
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		std::ostringstream message;
 
 		message << "Field error name: " << alias << " unknown error: " << ex.what();
 
 		promise.set_exception(
 			std::make_exception_ptr(schema_exception { { schema_error { message.str(),
-				{ position.line, position.column },
+				location,
 				buildErrorPath(selectionSetParams.errorPath) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, path, promise.get_future() });
 	}
 }
 
@@ -1153,18 +1168,18 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[](std::vector<SelectionValue>&& children) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.result.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1172,7 +1187,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 						message << "Ambiguous field error name: " << name;
 
-						document.errors.push_back({ message.str() });
+						document.errors.push_back(
+							{ message.str(), child.location, buildErrorPath(child.path) });
 					}
 
 					if (!value.errors.empty())
@@ -1184,12 +1200,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 				{
 					auto errors = scx.getStructuredErrors();
 
-					if (!errors.empty())
-					{
-						std::copy(errors.begin(),
-							errors.end(),
-							std::back_inserter(document.errors));
-					}
+					addErrorSource(errors, child.location, child.path);
+					document.errors.splice(document.errors.end(), errors);
 
 					document.data.emplace_back(std::string { name }, {});
 				}
@@ -1199,7 +1211,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					document.errors.push_back(
+						{ message.str(), child.location, buildErrorPath(child.path) });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From 0048c9aee7396c7a48dfdb574d1fa00f8b079cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 23/56] fix: top level mutation fields which return futures
 were not executed one after another

---
 src/GraphQLService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index a79728e..0cf2e97 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -970,6 +970,12 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
+		if (_resolverContext == ResolverContext::Mutation && !_path)
+		{
+			// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
+			result.wait();
+		}
+
 		_values.push_back({ alias, location, path, std::move(result) });
 	}
 	catch (schema_exception& scx)
-- 
2.43.0


From eca4cb02eac2401829dbc14fa9a265a398006517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 24/56] fix: concurrent requests on the same service corrupted
 each other's validation

---
 include/graphqlservice/GraphQLService.h | 1 +
 src/GraphQLService.cpp                  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 074be20..59d31b9 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -964,6 +964,7 @@ private:
 		const std::string& operationName, response::Value&& variables) const;
 
 	const TypeMap _operations;
+	mutable std::mutex _validationMutex {};
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 0cf2e97..451cc81 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1721,6 +1721,9 @@ std::list<schema_error> Request::validate(peg::ast& query) const
 
 	if (!query.validated)
 	{
+		// The validation visitor keeps state for the current document, so only use it on one thread.
+		std::lock_guard<std::mutex> lock { _validationMutex };
+
 		_validation->visit(*query.root);
 		errors = _validation->getStructuredErrors();
 		query.validated = errors.empty();
-- 
2.43.0


From b7c7221fefa1d80729d5d86433cd1ea486880f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 25/56] fix: validation accepted number literals outside of the
 range of Int and Float

---
 src/Validation.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..20c7a91 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -9,8 +9,11 @@
 #include "graphqlservice/introspection/IntrospectionSchema.h"
 
 #include <algorithm>
+#include <cmath>
+#include <cstdlib>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <stdexcept>
 
 using namespace std::literals;
@@ -162,10 +165,20 @@ void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValidateArgumentValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	response::IntType value { std::atoi(intValue.string().c_str()) };
+	const auto literal = intValue.string();
+	const auto value = std::strtoll(literal.c_str(), nullptr, 10);
 	auto position = intValue.begin();
 
-	_argumentValue.value = std::make_unique<ValidateArgumentValue>(value);
+	if (value < (std::numeric_limits<response::IntType>::min)()
+		|| value > (std::numeric_limits<response::IntType>::max)())
+	{
+		// It does not fit in an Int, but it may still be the value of a Float.
+		visitFloatValue(intValue);
+		return;
+	}
+
+	_argumentValue.value =
+		std::make_unique<ValidateArgumentValue>(static_cast<response::IntType>(value));
 	_argumentValue.position = { position.line, position.column };
 }
 
@@ -174,6 +187,16 @@ void ValidateArgumentValueVisitor::visitFloatValue(const peg::ast_node& floatVal
 	response::FloatType value { std::atof(floatValue.string().c_str()) };
 	auto position = floatValue.begin();
 
+	if (!std::isfinite(value))
+	{
+		// http://spec.graphql.org/June2018/#sec-Float
+		std::ostringstream message;
+
+		message << "Float value out of range: " << floatValue.string_view();
+
+		_errors.push_back({ message.str(), { position.line, position.column } });
+	}
+
 	_argumentValue.value = std::make_unique<ValidateArgumentValue>(value);
 	_argumentValue.position = { position.line, position.column };
 }
-- 
2.43.0


From a6e258c3dfe5b4a6ba94dd804d9856fa84924dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 26/56] fix: the variables of an unsupported operation leaked
 into the validation of other definitions

---
 src/Validation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 20c7a91..5b39fa2 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -792,6 +792,10 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From dcf13703d44d0d895b6e67dbc4073755785af31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 27/56] fix: directives without any arguments were not checked
 for required arguments

---
 src/Validation.cpp | 111 +++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 5b39fa2..6db4027 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2037,12 +2037,13 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
-		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
-				std::list<std::string_view> argumentNames;
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+		std::list<std::string_view> argumentNames;
 
+		peg::on_first_child<peg::arguments>(*directive,
+			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
+				const peg::ast_node& child) {
 				for (auto& argument : child.children)
 				{
 					auto position = argument->begin();
@@ -2067,68 +2068,68 @@ void ValidateExecutableVisitor::visitDirectives(
 					argumentLocations[argumentName] = { position.line, position.column };
 					argumentNames.push_back(argumentName);
 				}
+			});
 
-				for (auto argumentName : argumentNames)
-				{
-					auto itrArgument = itrDirective->second.arguments.find(argumentName);
+		for (auto argumentName : argumentNames)
+		{
+			auto itrArgument = itrDirective->second.arguments.find(argumentName);
 
-					if (itrArgument == itrDirective->second.arguments.end())
-					{
-						// http://spec.graphql.org/June2018/#sec-Argument-Names
-						std::ostringstream message;
+			if (itrArgument == itrDirective->second.arguments.end())
+			{
+				// http://spec.graphql.org/June2018/#sec-Argument-Names
+				std::ostringstream message;
 
-						message << "Undefined argument directive: " << directiveName
-								<< " name: " << argumentName;
+				message << "Undefined argument directive: " << directiveName
+						<< " name: " << argumentName;
 
-						_errors.push_back({ message.str(), argumentLocations[argumentName] });
-					}
-				}
+				_errors.push_back({ message.str(), argumentLocations[argumentName] });
+			}
+		}
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 46f92d8298153724c1991ae537378e69d9185fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 28/56] fix: variables in the directives of a fragment
 definition were not validated or counted as used

---
 src/Validation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 6db4027..e1ac161 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1870,6 +1870,11 @@ void ValidateExecutableVisitor::visitFragmentSpread(const peg::ast_node& fragmen
 		return;
 	}
 
+	// The directives on the fragment definition may also reference the operation variables.
+	peg::on_first_child<peg::directives>(itr->second.get(), [this](const peg::ast_node& child) {
+		visitDirectives(introspection::DirectiveLocation::FRAGMENT_DEFINITION, child);
+	});
+
 	auto outerType = std::move(_scopedType);
 
 	_fragmentStack.emplace(name);
-- 
2.43.0


From 1a7d1f65bf4b5e6fc03c95c60f234f3f9c8e8348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 29/56] fix: variables inside of custom scalar values were not
 checked or counted as used

---
 include/Validation.h |  1 +
 src/Validation.cpp   | 47 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/include/Validation.h b/include/Validation.h
index 692d2f6..5711461 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -213,6 +213,7 @@ private:
 
 	bool validateInputValue(bool hasNonNullDefaultValue, const ValidateArgumentValuePtr& argument,
 		const ValidateType& type);
+	bool validateScalarVariables(const ValidateArgumentValuePtr& argument);
 	bool validateVariableType(bool isNonNull, const ValidateType& variableType,
 		const schema_location& position, const ValidateType& inputType);
 
diff --git a/src/Validation.cpp b/src/Validation.cpp
index e1ac161..a4597f4 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1249,7 +1249,7 @@ bool ValidateExecutableVisitor::validateInputValue(
 				return false;
 			}
 
-			return true;
+			return validateScalarVariables(argument);
 		}
 
 		default:
@@ -1260,6 +1260,51 @@ bool ValidateExecutableVisitor::validateInputValue(
 	}
 }
 
+bool ValidateExecutableVisitor::validateScalarVariables(const ValidateArgumentValuePtr& argument)
+{
+	// The values inside of a custom scalar do not have a type, but any variables must be defined.
+	if (!argument.value || !_operationVariables)
+	{
+		return true;
+	}
+
+	if (std::holds_alternative<ValidateArgumentVariable>(argument.value->data))
+	{
+		const auto& variable = std::get<ValidateArgumentVariable>(argument.value->data);
+
+		if (_operationVariables->find(variable.name) == _operationVariables->end())
+		{
+			// http://spec.graphql.org/June2018/#sec-All-Variable-Uses-Defined
+			std::ostringstream message;
+
+			message << "Undefined variable name: " << variable.name;
+
+			_errors.push_back({ message.str(), argument.position });
+			return false;
+		}
+
+		_referencedVariables.emplace(variable.name);
+	}
+	else if (std::holds_alternative<ValidateArgumentList>(argument.value->data))
+	{
+		const auto& values = std::get<ValidateArgumentList>(argument.value->data).values;
+
+		return std::all_of(values.begin(), values.end(), [this](const auto& value) {
+			return validateScalarVariables(value);
+		});
+	}
+	else if (std::holds_alternative<ValidateArgumentMap>(argument.value->data))
+	{
+		const auto& values = std::get<ValidateArgumentMap>(argument.value->data).values;
+
+		return std::all_of(values.begin(), values.end(), [this](const auto& entry) {
+			return validateScalarVariables(entry.second);
+		});
+	}
+
+	return true;
+}
+
 bool ValidateExecutableVisitor::validateVariableType(bool isNonNull,
 	const ValidateType& variableType, const schema_location& position,
 	const ValidateType& inputType)
-- 
2.43.0


From 9356f7d9c152e5f29bd013f1ffda224d73f4d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 30/56] fix: null was accepted for non-null arguments and input
 fields which have a default value

---
 src/Validation.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index a4597f4..24df81c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -977,7 +977,7 @@ bool ValidateExecutableVisitor::validateInputValue(
 	if (!argument.value)
 	{
 		// The null literal matches any nullable type and does not match a non-nullable type.
-		if (kind == introspection::TypeKind::NON_NULL && !hasNonNullDefaultValue)
+		if (kind == introspection::TypeKind::NON_NULL)
 		{
 			_errors.push_back({ "Expected Non-Null value", argument.position });
 			return false;
@@ -1083,21 +1083,18 @@ bool ValidateExecutableVisitor::validateInputValue(
 					return false;
 				}
 
-				if (entry.second.value || !itrField->second.defaultValue)
+				if (!validateInputValue(itrField->second.nonNullDefaultValue,
+						entry.second,
+						itrField->second.type))
 				{
-					if (!validateInputValue(itrField->second.nonNullDefaultValue,
-							entry.second,
-							itrField->second.type))
-					{
-						// Error messages are added in the recursive call, so just bubble up the
-						// result.
-						return false;
-					}
-
-					// The recursive call may invalidate the iterator, so reacquire it.
-					itrFields = getInputTypeFields(name);
+					// Error messages are added in the recursive call, so just bubble up the
+					// result.
+					return false;
 				}
 
+				// The recursive call may invalidate the iterator, so reacquire it.
+				itrFields = getInputTypeFields(name);
+
 				subFields.emplace(entry.first);
 			}
 
@@ -1793,7 +1790,7 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
 				// The argument has a default value.
 				continue;
@@ -2159,7 +2156,7 @@ void ValidateExecutableVisitor::visitDirectives(
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
 				// The argument has a default value.
 				continue;
-- 
2.43.0


From 6586d678eed16b1716e5a3d55a42c227dbf3726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 31/56] fix: conflicting fields and arguments were missed when
 the response name was already selected

---
 include/Validation.h |  10 +++-
 src/Validation.cpp   | 111 ++++++++++++++++++++++++++++++++++++-------
 2 files changed, 102 insertions(+), 19 deletions(-)

diff --git a/include/Validation.h b/include/Validation.h
index 5711461..29dac4e 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -125,17 +125,23 @@ private:
 
 using ValidateFieldArguments = internal::string_view_map<ValidateArgumentValuePtr>;
 
+struct ValidateField;
+
+// All of the fields in a selection set by response name, including the ones from fragments.
+using ValidateSelectionFields = internal::string_view_map<std::vector<ValidateField>>;
+
 struct ValidateField
 {
 	ValidateField(ValidateType&& returnType, ValidateType&& objectType, std::string_view fieldName,
 		ValidateFieldArguments&& arguments);
 
-	bool operator==(const ValidateField& other) const;
+	bool canMerge(const ValidateField& other, bool sameParent = true) const;
 
 	ValidateType returnType;
 	ValidateType objectType;
 	std::string_view fieldName;
 	ValidateFieldArguments arguments;
+	std::shared_ptr<const ValidateSelectionFields> subFields;
 };
 
 using ValidateTypes = internal::string_view_map<ValidateType>;
@@ -255,7 +261,7 @@ private:
 	TypeFields _typeFields;
 	InputTypeFields _inputTypeFields;
 	ValidateType _scopedType;
-	internal::string_view_map<ValidateField> _selectionFields;
+	ValidateSelectionFields _selectionFields;
 };
 
 } // namespace graphql::service
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 24df81c..117cf77 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -295,11 +295,76 @@ ValidateField::ValidateField(ValidateType&& returnType, ValidateType&& objectTyp
 {
 }
 
-bool ValidateField::operator==(const ValidateField& other) const
+// Two types have the same response shape if they have the same wrappers around the same leaf type, or
+// around any two composite types.
+bool isSameResponseShape(ValidateType lhs, ValidateType rhs)
 {
-	return (returnType == other.returnType)
-		&& ((objectType && other.objectType && &objectType->get() != &other.objectType->get())
-			|| (fieldName == other.fieldName && arguments == other.arguments));
+	const auto isWrapper = [](const ValidateType& type) {
+		return type
+			&& (type->get().kind() == introspection::TypeKind::NON_NULL
+				|| type->get().kind() == introspection::TypeKind::LIST);
+	};
+	const auto isComposite = [](const ValidateType& type) {
+		return type
+			&& (type->get().kind() == introspection::TypeKind::OBJECT
+				|| type->get().kind() == introspection::TypeKind::INTERFACE
+				|| type->get().kind() == introspection::TypeKind::UNION);
+	};
+
+	while (isWrapper(lhs) && isWrapper(rhs) && lhs->get().kind() == rhs->get().kind())
+	{
+		lhs = getValidateType(lhs->get().ofType().lock());
+		rhs = getValidateType(rhs->get().ofType().lock());
+	}
+
+	return lhs == rhs || (isComposite(lhs) && isComposite(rhs));
+}
+
+bool ValidateField::canMerge(const ValidateField& other, bool sameParent) const
+{
+	if (!isSameResponseShape(returnType, other.returnType))
+	{
+		return false;
+	}
+
+	if (objectType && other.objectType && &objectType->get() != &other.objectType->get())
+	{
+		// They can never be selected on the same object, so only the shape matters.
+		sameParent = false;
+	}
+
+	if (sameParent && (fieldName != other.fieldName || !(arguments == other.arguments)))
+	{
+		return false;
+	}
+
+	if (!subFields || !other.subFields)
+	{
+		return true;
+	}
+
+	for (const auto& entry : *subFields)
+	{
+		const auto itrOther = other.subFields->find(entry.first);
+
+		if (itrOther == other.subFields->end())
+		{
+			continue;
+		}
+
+		for (const auto& subField : entry.second)
+		{
+			for (const auto& otherField : itrOther->second)
+			{
+				if (!subField.canMerge(otherField, sameParent))
+				{
+					return false;
+				}
+			}
+		}
+	}
+
+	return true;
 }
 
 ValidateVariableTypeVisitor::ValidateVariableTypeVisitor(
@@ -806,7 +871,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	visitSelection(selection);
 
-	if (_fieldCount > 1 && operationType == strSubscription)
+	if (_selectionFields.size() > 1 && operationType == strSubscription)
 	{
 		// http://spec.graphql.org/June2018/#sec-Single-root-field
 		auto position = operationDefinition.begin();
@@ -1726,16 +1791,18 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		std::move(objectType),
 		name,
 		std::move(validateArguments));
-	auto itrValidateField = _selectionFields.find(alias);
+	bool conflict = false;
+	const auto checkConflict = [this, &alias, &field, &name, &validateField, &conflict]() {
+		const auto itrSelection = _selectionFields.find(alias);
+
+		conflict = itrSelection != _selectionFields.end()
+			&& std::any_of(itrSelection->second.cbegin(),
+				itrSelection->second.cend(),
+				[&validateField](const auto& selectionField) {
+					return !selectionField.canMerge(validateField);
+				});
 
-	if (itrValidateField != _selectionFields.end())
-	{
-		if (itrValidateField->second == validateField)
-		{
-			// We already validated this field.
-			return;
-		}
-		else
+		if (conflict)
 		{
 			// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
 			auto position = field.begin();
@@ -1745,7 +1812,9 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 			_errors.push_back({ message.str(), { position.line, position.column } });
 		}
-	}
+	};
+
+	checkConflict();
 
 	auto itrField = itrType->second.find(name);
 
@@ -1814,8 +1883,6 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_selectionFields.emplace(alias, std::move(validateField));
-
 	const peg::ast_node* selection = nullptr;
 
 	peg::on_first_child<peg::selection_set>(field, [&selection](const peg::ast_node& child) {
@@ -1838,11 +1905,21 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 		innerType = std::move(_scopedType);
 		_scopedType = std::move(outerType);
+		validateField.subFields =
+			std::make_shared<const ValidateSelectionFields>(std::move(_selectionFields));
 		_selectionFields = std::move(outerFields);
 		subFieldCount = _fieldCount;
 		_fieldCount = outerFieldCount;
 	}
 
+	if (!conflict && validateField.subFields)
+	{
+		// Check again, now that we know what the sub-fields are.
+		checkConflict();
+	}
+
+	_selectionFields[alias].push_back(std::move(validateField));
+
 	if (subFieldCount == 0 && !isScalarType(innerType->get().kind()))
 	{
 		// http://spec.graphql.org/June2018/#sec-Leaf-Field-Selections
-- 
2.43.0


From 4cfe9b41d1ea9919b53fe536e52228807a70d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 32/56] fix: subscribing to a document which repeats the same
 root field failed

---
 src/GraphQLService.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 451cc81..773c059 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1503,6 +1503,7 @@ private:
 	FragmentMap _fragments;
 	const std::shared_ptr<Object>& _subscriptionObject;
 	SubscriptionName _field;
+	std::string_view _responseName;
 	response::Value _arguments;
 	response::Value _fieldDirectives;
 	std::shared_ptr<SubscriptionData> _result;
@@ -1584,9 +1585,26 @@ void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 		name = child.string_view();
 	});
 
+	std::string_view alias;
+
+	peg::on_first_child<peg::alias_name>(field, [&alias](const peg::ast_node& child) {
+		alias = child.string_view();
+	});
+
+	if (alias.empty())
+	{
+		alias = name;
+	}
+
 	// http://spec.graphql.org/June2018/#sec-Single-root-field
 	if (!_field.empty())
 	{
+		if (alias == _responseName)
+		{
+			// Validation already checked that it selects the same field with the same arguments.
+			return;
+		}
+
 		auto position = field.begin();
 		std::ostringstream error;
 
@@ -1624,6 +1642,7 @@ void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 	});
 
 	_field = std::move(name);
+	_responseName = alias;
 	_arguments = std::move(arguments);
 }
 
-- 
2.43.0


From 192eadb3ad4c384e17baa2df0d3ea08f13b83c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 33/56] fix: errors for missing arguments and values which are
 not a list did not name the argument

---
 include/graphqlservice/GraphQLService.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 59d31b9..994bdd9 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -344,6 +344,15 @@ struct ModifiedArgument
 
 			throw schema_exception(std::move(errors));
 		}
+		catch (const std::exception& ex)
+		{
+			// The argument is missing.
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: " << ex.what();
+
+			throw schema_exception({ message.str() });
+		}
 	}
 
 	// Wrap require in a try/catch block.
@@ -394,7 +403,19 @@ struct ModifiedArgument
 		typename ArgumentTraits<Type, Modifier, Other...>::type>
 	require(const std::string& name, const response::Value& arguments)
 	{
-		const auto& values = arguments[name];
+		const auto itrValues = arguments.find(name);
+
+		if (itrValues == arguments.get<response::MapType>().cend()
+			|| itrValues->second.type() != response::Type::List)
+		{
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: not a list";
+
+			throw schema_exception({ message.str() });
+		}
+
+		const auto& values = itrValues->second;
 		typename ArgumentTraits<Type, Modifier, Other...>::type result(values.size());
 		const auto& elements = values.get<response::ListType>();
 
-- 
2.43.0


From fdc0418d8ddddf61db5ecbf3b91f2467f1230c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 34/56] fix: omitted variables without a default value were
 passed as an explicit null

---
 src/GraphQLService.cpp | 49 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 773c059..1e8fd84 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -202,6 +202,10 @@ class ValueVisitor
 public:
 	ValueVisitor(const response::Value& variables);
 
+	// Variables which do not have a value or a default are the same as leaving out the argument or
+	// input field where they are used.
+	bool isOmitted(const peg::ast_node& value) const;
+
 	void visit(const peg::ast_node& value);
 
 	response::Value getValue();
@@ -233,6 +237,13 @@ response::Value ValueVisitor::getValue()
 	return result;
 }
 
+bool ValueVisitor::isOmitted(const peg::ast_node& value) const
+{
+	return value.is_type<peg::variable_value>()
+		&& _variables.find(value.string_view().substr(1))
+		== _variables.get<response::MapType>().cend();
+}
+
 void ValueVisitor::visit(const peg::ast_node& value)
 {
 	if (value.is_type<peg::variable_value>())
@@ -344,6 +355,12 @@ void ValueVisitor::visitListValue(const peg::ast_node& listValue)
 
 	for (const auto& child : listValue.children)
 	{
+		if (visitor.isOmitted(*child))
+		{
+			_value.emplace_back(response::Value {});
+			continue;
+		}
+
 		visitor.visit(*child);
 		_value.emplace_back(visitor.getValue());
 	}
@@ -358,6 +375,11 @@ void ValueVisitor::visitObjectValue(const peg::ast_node& objectValue)
 
 	for (const auto& field : objectValue.children)
 	{
+		if (visitor.isOmitted(*field->children.back()))
+		{
+			continue;
+		}
+
 		visitor.visit(*field->children.back());
 		_value.emplace_back(field->children.front()->string(), visitor.getValue());
 	}
@@ -413,6 +435,11 @@ void DirectiveVisitor::visit(const peg::ast_node& directives)
 
 				for (auto& argument : child.children)
 				{
+					if (visitor.isOmitted(*argument->children.back()))
+					{
+						continue;
+					}
+
 					visitor.visit(*argument->children.back());
 
 					directiveArguments.emplace_back(argument->children.front()->string(),
@@ -936,6 +963,11 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 
 		for (auto& argument : child.children)
 		{
+			if (visitor.isOmitted(*argument->children.back()))
+			{
+				continue;
+			}
+
 			visitor.visit(*argument->children.back());
 
 			arguments.emplace_back(argument->children.front()->string(), visitor.getValue());
@@ -1357,24 +1389,24 @@ response::Value getOperationVariables(
 				});
 
 			auto itrVar = variables.find(variableName);
-			response::Value valueVar;
 
 			if (itrVar != variables.get<response::MapType>().cend())
 			{
-				valueVar = response::Value(itrVar->second);
+				operationVariables.emplace_back(std::move(variableName),
+					response::Value(itrVar->second));
 			}
 			else
 			{
 				peg::on_first_child<peg::default_value>(variable,
-					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+					[&variables, &operationVariables, &variableName](
+						const peg::ast_node& defaultValue) {
 						ValueVisitor visitor(variables);
 
 						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
+						operationVariables.emplace_back(std::move(variableName),
+							visitor.getValue());
 					});
 			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
 		});
 
 	return operationVariables;
@@ -1635,6 +1667,11 @@ void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 
 		for (auto& argument : child.children)
 		{
+			if (visitor.isOmitted(*argument->children.back()))
+			{
+				continue;
+			}
+
 			visitor.visit(*argument->children.back());
 
 			arguments.emplace_back(argument->children.front()->string(), visitor.getValue());
-- 
2.43.0


From a9fa0fcd67339f4799d878e18416fbabe6ad624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 35/56] fix: variables which are lists of booleans did not
 compile in clients

---
 include/graphqlservice/GraphQLClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..190f190 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,7 +129,7 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
 			result.emplace_back(serialize<Other...>(std::move(value)));
 		});
 		listValue.clear();
-- 
2.43.0


From 5a51a063e664397d568c2fea5e85913c8ab26378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 36/56] fix: clients turned a response value which is not a
 list into an empty list

---
 include/graphqlservice/GraphQLClient.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 190f190..e2949f0 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -225,19 +225,21 @@ struct ModifiedResponse
 	{
 		std::vector<typename ResponseTraits<Type, Other...>::type> result;
 
-		if (response.type() == response::Type::List)
+		if (response.type() != response::Type::List)
 		{
-			auto listValue = response.release<response::ListType>();
-
-			result.reserve(listValue.size());
-			std::transform(listValue.begin(),
-				listValue.end(),
-				std::back_inserter(result),
-				[](response::Value& value) {
-					return parse<Other...>(std::move(value));
-				});
+			throw std::logic_error { "not a list" };
 		}
 
+		auto listValue = response.release<response::ListType>();
+
+		result.reserve(listValue.size());
+		std::transform(listValue.begin(),
+			listValue.end(),
+			std::back_inserter(result),
+			[](response::Value& value) {
+				return parse<Other...>(std::move(value));
+			});
+
 		return result;
 	}
 };
-- 
2.43.0


From 4843775a9472cbe9cc0f2c3ec952b9f5007a91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 37/56] fix: check and resolve the argument types of fields
 which return a built-in type

---
 src/SchemaLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index bfe0951..3247def 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -377,6 +377,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -435,8 +437,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From a03de5c3d01a15beb6acade5daeca5c1b01b4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 38/56] fix: enum values and fields marked @deprecated without
 a reason are deprecated with the default reason

---
 include/SchemaLoader.h |  1 +
 src/SchemaLoader.cpp   | 77 ++++++++++++++++--------------------------
 2 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd8169..893b5c0 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -276,6 +276,7 @@ private:
 	void visitObjectTypeExtension(const peg::ast_node& objectTypeExtension);
 	void visitDirectiveDefinition(const peg::ast_node& directiveDefinition);
 
+	static std::string_view getDeprecationReason(const peg::ast_node& deprecated);
 	static OutputFieldList getOutputFields(const peg::ast_node::children_t& fields);
 	static InputFieldList getInputFields(const peg::ast_node::children_t& fields);
 
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 3247def..5d202da 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -889,29 +889,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
-
-							peg::on_first_child<peg::arguments>(directive,
-								[&value](const peg::ast_node& arguments) {
-									peg::on_first_child<peg::argument>(arguments,
-										[&value](const peg::ast_node& argument) {
-											std::string_view argumentName;
-
-											peg::on_first_child<peg::argument_name>(argument,
-												[&argumentName](const peg::ast_node& name) {
-													argumentName = name.string_view();
-												});
-
-											if (argumentName == "reason")
-											{
-												peg::on_first_child<peg::string_value>(argument,
-													[&value](const peg::ast_node& argumentValue) {
-														value.deprecationReason =
-															argumentValue.unescaped_view();
-													});
-											}
-										});
-								});
+							value.deprecationReason = getDeprecationReason(directive);
 						}
 					});
 			});
@@ -1067,6 +1045,33 @@ std::string_view SchemaLoader::getSafeCppName(std::string_view type) noexcept
 	return (safeNames.cend() == itr) ? type : itr->second->second;
 }
 
+std::string_view SchemaLoader::getDeprecationReason(const peg::ast_node& deprecated)
+{
+	// This is the default value of the reason argument.
+	std::string_view result { "No longer supported"sv };
+
+	peg::on_first_child<peg::arguments>(deprecated, [&result](const peg::ast_node& arguments) {
+		peg::for_each_child<peg::argument>(arguments, [&result](const peg::ast_node& argument) {
+			std::string_view argumentName;
+
+			peg::on_first_child<peg::argument_name>(argument,
+				[&argumentName](const peg::ast_node& name) {
+					argumentName = name.string_view();
+				});
+
+			if (argumentName == "reason")
+			{
+				peg::on_first_child<peg::string_value>(argument,
+					[&result](const peg::ast_node& reason) {
+						result = reason.unescaped_view();
+					});
+			}
+		});
+	});
+
+	return result;
+}
+
 OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& fields)
 {
 	OutputFieldList outputFields;
@@ -1109,31 +1114,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
-
-							peg::on_first_child<peg::arguments>(directive,
-								[&deprecationReason](const peg::ast_node& arguments) {
-									peg::on_first_child<peg::argument>(arguments,
-										[&deprecationReason](const peg::ast_node& argument) {
-											std::string_view argumentName;
-
-											peg::on_first_child<peg::argument_name>(argument,
-												[&argumentName](const peg::ast_node& name) {
-													argumentName = name.string_view();
-												});
-
-											if (argumentName == "reason")
-											{
-												peg::on_first_child<peg::string_value>(argument,
-													[&deprecationReason](
-														const peg::ast_node& reason) {
-														deprecationReason = reason.unescaped_view();
-													});
-											}
-										});
-								});
-
-							field.deprecationReason = std::move(deprecationReason);
+							field.deprecationReason = getDeprecationReason(directive);
 						}
 					});
 			}
-- 
2.43.0


From 592a67f4224e6a978c6cbc8a0053c28ce7f90558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 39/56] fix: schema and type extensions apply wherever they
 appear, and fail if they extend an undefined type

---
 include/SchemaLoader.h |  5 +++
 src/SchemaLoader.cpp   | 86 +++++++++++++++++++++++++++++++++++++++---
 2 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index 893b5c0..86744c6 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -259,11 +259,16 @@ public:
 	std::string getOutputCppType(const OutputField& field) const noexcept;
 
 private:
+	static bool isExtension(const peg::ast_node& definition) noexcept;
+	[[noreturn]] static void throwUndefinedExtension(
+		std::string_view name, const peg::ast_node& extension);
+
 	void visitDefinition(const peg::ast_node& definition);
 
 	void visitSchemaDefinition(const peg::ast_node& schemaDefinition);
 	void visitSchemaExtension(const peg::ast_node& schemaExtension);
 	void visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition);
+	void visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension);
 	void visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition);
 	void visitEnumTypeExtension(const peg::ast_node& enumTypeExtension);
 	void visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 5d202da..2a28706 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -163,9 +163,21 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// An extension can appear before the definition which it extends.
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
+	for (const auto& child : _ast.root->children)
+	{
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
@@ -549,6 +561,29 @@ void SchemaLoader::reorderInputTypeDependencies()
 	}
 }
 
+bool SchemaLoader::isExtension(const peg::ast_node& definition) noexcept
+{
+	return definition.is_type<peg::schema_extension>()
+		|| definition.is_type<peg::scalar_type_extension>()
+		|| definition.is_type<peg::enum_type_extension>()
+		|| definition.is_type<peg::input_object_type_extension>()
+		|| definition.is_type<peg::union_type_extension>()
+		|| definition.is_type<peg::interface_type_extension>()
+		|| definition.is_type<peg::object_type_extension>();
+}
+
+void SchemaLoader::throwUndefinedExtension(
+	std::string_view name, const peg::ast_node& extension)
+{
+	const auto position = extension.begin();
+	std::ostringstream error;
+
+	error << "Extension of an undefined type: " << name << " line: " << position.line
+		  << " column: " << position.column;
+
+	throw std::runtime_error(error.str());
+}
+
 void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 {
 	if (definition.is_type<peg::schema_definition>())
@@ -563,6 +598,10 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	{
 		visitScalarTypeDefinition(definition);
 	}
+	else if (definition.is_type<peg::scalar_type_extension>())
+	{
+		visitScalarTypeExtension(definition);
+	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
 		visitEnumTypeDefinition(definition);
@@ -682,7 +721,11 @@ void SchemaLoader::visitObjectTypeExtension(const peg::ast_node& objectTypeExten
 
 	const auto itrType = _objectNames.find(name);
 
-	if (itrType != _objectNames.cend())
+	if (itrType == _objectNames.cend())
+	{
+		throwUndefinedExtension(name, objectTypeExtension);
+	}
+	else
 	{
 		auto& objectType = _objectTypes[itrType->second];
 
@@ -744,7 +787,11 @@ void SchemaLoader::visitInterfaceTypeExtension(const peg::ast_node& interfaceTyp
 
 	const auto itrType = _interfaceNames.find(name);
 
-	if (itrType != _interfaceNames.cend())
+	if (itrType == _interfaceNames.cend())
+	{
+		throwUndefinedExtension(name, interfaceTypeExtension);
+	}
+	else
 	{
 		auto& interfaceType = _interfaceTypes[itrType->second];
 
@@ -801,7 +848,11 @@ void SchemaLoader::visitInputObjectTypeExtension(const peg::ast_node& inputObjec
 
 	const auto itrType = _inputNames.find(name);
 
-	if (itrType != _inputNames.cend())
+	if (itrType == _inputNames.cend())
+	{
+		throwUndefinedExtension(name, inputObjectTypeExtension);
+	}
+	else
 	{
 		auto& inputType = _inputTypes[itrType->second];
 
@@ -856,7 +907,11 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 	const auto itrType = _enumNames.find(name);
 
-	if (itrType != _enumNames.cend())
+	if (itrType == _enumNames.cend())
+	{
+		throwUndefinedExtension(name, enumTypeExtension);
+	}
+	else
 	{
 		auto& enumType = _enumTypes[itrType->second];
 
@@ -924,6 +979,21 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 	_scalarTypes.push_back({ name, description });
 }
 
+void SchemaLoader::visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension)
+{
+	std::string_view name;
+
+	peg::on_first_child<peg::scalar_name>(scalarTypeExtension, [&name](const peg::ast_node& child) {
+		name = child.string_view();
+	});
+
+	// There is nothing to add, scalar extensions only have directives.
+	if (_scalarNames.find(name) == _scalarNames.cend())
+	{
+		throwUndefinedExtension(name, scalarTypeExtension);
+	}
+}
+
 void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefinition)
 {
 	std::string_view name;
@@ -962,7 +1032,11 @@ void SchemaLoader::visitUnionTypeExtension(const peg::ast_node& unionTypeExtensi
 
 	const auto itrType = _unionNames.find(name);
 
-	if (itrType != _unionNames.cend())
+	if (itrType == _unionNames.cend())
+	{
+		throwUndefinedExtension(name, unionTypeExtension);
+	}
+	else
 	{
 		auto& unionType = _unionTypes[itrType->second];
 
-- 
2.43.0


From f66a89a8c53ded435d19227fe5f749f3719f67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 40/56] fix: duplicate types, directives, members and operation
 types in a schema are errors

---
 include/SchemaLoader.h |   4 ++
 src/SchemaLoader.cpp   | 150 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 141 insertions(+), 13 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index 86744c6..25388ea 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -259,6 +259,9 @@ public:
 	std::string getOutputCppType(const OutputField& field) const noexcept;
 
 private:
+	void addType(std::string_view name, SchemaType type, const peg::ast_node& definition);
+	[[noreturn]] static void throwDuplicate(std::string_view kind, std::string_view name,
+		const std::optional<tao::graphqlpeg::position>& position);
 	static bool isExtension(const peg::ast_node& definition) noexcept;
 	[[noreturn]] static void throwUndefinedExtension(
 		std::string_view name, const peg::ast_node& extension);
@@ -286,6 +289,7 @@ private:
 	static InputFieldList getInputFields(const peg::ast_node::children_t& fields);
 
 	void validateSchema();
+	void validateUniqueNames() const;
 	void fixupOutputFieldList(OutputFieldList& fields,
 		const std::optional<std::unordered_set<std::string_view>>& interfaceFields,
 		const std::optional<std::string_view>& accessor);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 2a28706..d565afc 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -205,6 +205,8 @@ void SchemaLoader::validateSchema()
 		}
 	}
 
+	validateUniqueNames();
+
 	// Fixup all of the fieldType members.
 	for (auto& entry : _inputTypes)
 	{
@@ -367,6 +369,104 @@ void SchemaLoader::validateSchema()
 	}
 }
 
+void SchemaLoader::validateUniqueNames() const
+{
+	using unique_names = std::unordered_set<std::string_view>;
+
+	const auto validateInputFields = [](std::string_view kind, const InputFieldList& fields) {
+		unique_names names;
+
+		for (const auto& field : fields)
+		{
+			if (!names.insert(field.name).second)
+			{
+				throwDuplicate(kind, field.name, field.position);
+			}
+		}
+	};
+	const auto validateOutputFields = [&validateInputFields](const OutputFieldList& fields) {
+		unique_names names;
+
+		for (const auto& field : fields)
+		{
+			if (!names.insert(field.name).second)
+			{
+				throwDuplicate("field", field.name, field.position);
+			}
+
+			validateInputFields("argument", field.arguments);
+		}
+	};
+	const auto validateTypes = [this](std::string_view kind,
+								   std::string_view type,
+								   const std::vector<std::string_view>& types) {
+		unique_names names;
+
+		for (const auto& name : types)
+		{
+			if (!names.insert(name).second)
+			{
+				const auto itrPosition = _typePositions.find(type);
+
+				throwDuplicate(kind,
+					name,
+					itrPosition == _typePositions.cend()
+						? std::nullopt
+						: std::make_optional(itrPosition->second));
+			}
+		}
+	};
+
+	for (const auto& entry : _inputTypes)
+	{
+		validateInputFields("input field", entry.fields);
+	}
+
+	for (const auto& entry : _interfaceTypes)
+	{
+		validateOutputFields(entry.fields);
+	}
+
+	for (const auto& entry : _objectTypes)
+	{
+		validateOutputFields(entry.fields);
+		validateTypes("interface", entry.type, entry.interfaces);
+	}
+
+	for (const auto& entry : _unionTypes)
+	{
+		validateTypes("union member", entry.type, entry.options);
+	}
+
+	for (const auto& entry : _enumTypes)
+	{
+		unique_names names;
+
+		for (const auto& value : entry.values)
+		{
+			if (!names.insert(value.value).second)
+			{
+				throwDuplicate("enum value", value.value, value.position);
+			}
+		}
+	}
+
+	for (const auto& entry : _directives)
+	{
+		validateInputFields("directive argument", entry.arguments);
+	}
+
+	unique_names operations;
+
+	for (const auto& entry : _operationTypes)
+	{
+		if (!operations.insert(entry.operation).second)
+		{
+			throwDuplicate("operation type", entry.operation, std::nullopt);
+		}
+	}
+}
+
 void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 	const std::optional<std::unordered_set<std::string_view>>& interfaceFields,
 	const std::optional<std::string_view>& accessor)
@@ -561,6 +661,32 @@ void SchemaLoader::reorderInputTypeDependencies()
 	}
 }
 
+void SchemaLoader::addType(
+	std::string_view name, SchemaType type, const peg::ast_node& definition)
+{
+	if (!_schemaTypes.emplace(name, type).second)
+	{
+		throwDuplicate("type", name, definition.begin());
+	}
+
+	_typePositions.emplace(name, definition.begin());
+}
+
+void SchemaLoader::throwDuplicate(std::string_view kind, std::string_view name,
+	const std::optional<tao::graphqlpeg::position>& position)
+{
+	std::ostringstream error;
+
+	error << "Duplicate " << kind << ": " << name;
+
+	if (position)
+	{
+		error << " line: " << position->line << " column: " << position->column;
+	}
+
+	throw std::runtime_error(error.str());
+}
+
 bool SchemaLoader::isExtension(const peg::ast_node& definition) noexcept
 {
 	return definition.is_type<peg::schema_extension>()
@@ -700,8 +826,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Object;
-	_typePositions.emplace(name, objectTypeDefinition.begin());
+	addType(name, SchemaType::Object, objectTypeDefinition);
 	_objectNames[name] = _objectTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -765,8 +890,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Interface;
-	_typePositions.emplace(name, interfaceTypeDefinition.begin());
+	addType(name, SchemaType::Interface, interfaceTypeDefinition);
 	_interfaceNames[name] = _interfaceTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -826,8 +950,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Input;
-	_typePositions.emplace(name, inputObjectTypeDefinition.begin());
+	addType(name, SchemaType::Input, inputObjectTypeDefinition);
 	_inputNames[name] = _inputTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -886,8 +1009,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Enum;
-	_typePositions.emplace(name, enumTypeDefinition.begin());
+	addType(name, SchemaType::Enum, enumTypeDefinition);
 	_enumNames[name] = _enumTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -973,8 +1095,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Scalar;
-	_typePositions.emplace(name, scalarTypeDefinition.begin());
+	addType(name, SchemaType::Scalar, scalarTypeDefinition);
 	_scalarNames[name] = _scalarTypes.size();
 	_scalarTypes.push_back({ name, description });
 }
@@ -1011,8 +1132,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Union;
-	_typePositions.emplace(name, unionTypeDefinition.begin());
+	addType(name, SchemaType::Union, unionTypeDefinition);
 	_unionNames[name] = _unionTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -1080,7 +1200,11 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 			}
 		});
 
-	_directivePositions.emplace(directive.name, directiveDefinition.begin());
+	if (!_directivePositions.emplace(directive.name, directiveDefinition.begin()).second)
+	{
+		throwDuplicate("directive", directive.name, directiveDefinition.begin());
+	}
+
 	_directives.push_back(std::move(directive));
 }
 
-- 
2.43.0


From 4f4927f315fdb081bf52913f6b591ec1cff071fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 41/56] fix: unknown and invalid types of directive arguments
 are errors

---
 src/SchemaLoader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index d565afc..0f54bec 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -213,6 +213,11 @@ void SchemaLoader::validateSchema()
 		fixupInputFieldList(entry.fields);
 	}
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
-- 
2.43.0


From 004820bfc507eaf165eb54438562b908f40525bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 42/56] fix: default values of Float arguments and input fields
 were rounded to 6 digits

---
 src/SchemaGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..7baa34c 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1813,6 +1815,8 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::showpoint
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From bee5b37e561ec45209aaf2be092a62a0545b5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 43/56] fix: schemas with enum values whose names are reserved
 in C++ did not compile

---
 src/SchemaGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 7baa34c..51fa319 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -222,7 +222,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From bb2e74ee5e6db5db5da05cced50ef2033f69e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 44/56] fix: integer default values of Float arguments which do
 not fit in an Int were altered

---
 src/GeneratorLoader.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 6e1edd6..205bc49 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -6,6 +6,8 @@
 #include "graphqlservice/internal/Grammar.h"
 
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 
 namespace graphql::generator {
 
@@ -108,7 +110,19 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 
 void DefaultValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string();
+	const auto value = std::strtoll(text.c_str(), nullptr, 10);
+
+	if (value < std::numeric_limits<response::IntType>::min()
+		|| value > std::numeric_limits<response::IntType>::max())
+	{
+		// It does not fit in an Int, but it is still a valid Float.
+		_value = response::Value(std::strtod(text.c_str(), nullptr));
+	}
+	else
+	{
+		_value = response::Value(static_cast<response::IntType>(value));
+	}
 }
 
 void DefaultValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
-- 
2.43.0


From 6bb3c0d1db188f07f6d7685cb59262f5e56b31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 45/56] fix: clients declared input types after the types which
 use them in lists or as non-null fields

---
 src/RequestLoader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..b4a24a3 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -857,7 +857,13 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					auto fieldType = field->type().lock();
+
+					while (fieldType->kind() == introspection::TypeKind::NON_NULL
+						|| fieldType->kind() == introspection::TypeKind::LIST)
+					{
+						fieldType = fieldType->ofType().lock();
+					}
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From 950d2380eeaf6bd0c0f581298779718d2248ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 46/56] fix: text with raw string delimiters or control
 characters broke or changed the generated code

---
 include/GeneratorUtil.h |   4 +
 src/ClientGenerator.cpp |  12 ++-
 src/GeneratorUtil.cpp   |  45 ++++++++++
 src/SchemaGenerator.cpp | 195 +++++++++++++++++-----------------------
 4 files changed, 138 insertions(+), 118 deletions(-)

diff --git a/include/GeneratorUtil.h b/include/GeneratorUtil.h
index c061fe1..59461d6 100644
--- a/include/GeneratorUtil.h
+++ b/include/GeneratorUtil.h
@@ -42,6 +42,10 @@ private:
 	std::string_view _cppNamespace;
 };
 
+// Output text as a C++ string literal. It's a raw string literal with the delimiter unless the text
+// contains something which would not survive in one.
+std::string getStringLiteral(std::string_view delimiter, std::string_view text);
+
 // Keep track of whether we want to add a blank separator line once some additional content is about
 // to be output.
 class PendingBlankLine
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..44e6389 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -688,17 +688,21 @@ void Generator::outputGetRequestImplementation(std::ostream& sourceFile) const n
 	sourceFile << R"cpp(
 const std::string& GetRequestText() noexcept
 {
-	static const auto s_request = R"gql(
-)cpp";
+	static const auto s_request = )cpp";
 
 	std::istringstream request { std::string { _requestLoader.getRequestText() } };
+	std::ostringstream requestLines;
+
+	requestLines << std::endl;
 
 	for (std::string line; std::getline(request, line);)
 	{
-		sourceFile << R"cpp(		)cpp" << line << std::endl;
+		requestLines << R"cpp(		)cpp" << line << std::endl;
 	}
 
-	sourceFile << R"cpp(	)gql"s;
+	requestLines << R"cpp(	)cpp";
+
+	sourceFile << getStringLiteral("gql"sv, requestLines.str()) << R"cpp(s;
 
 	return s_request;
 }
diff --git a/src/GeneratorUtil.cpp b/src/GeneratorUtil.cpp
index b05acea..4eb6663 100644
--- a/src/GeneratorUtil.cpp
+++ b/src/GeneratorUtil.cpp
@@ -4,6 +4,7 @@
 #include "GeneratorUtil.h"
 
 #include <algorithm>
+#include <sstream>
 
 namespace graphql::generator {
 
@@ -116,6 +117,50 @@ bool NamespaceScope::exit() noexcept
 	return false;
 }
 
+std::string getStringLiteral(std::string_view delimiter, std::string_view text)
+{
+	std::ostringstream literal;
+	const auto terminator = ")" + std::string { delimiter } + "\"";
+	const auto unsafe = std::find_if(text.begin(), text.end(), [](char ch) noexcept {
+		const auto code = static_cast<unsigned char>(ch);
+
+		return (code < 0x20 && ch != '\n' && ch != '\t') || code == 0x7F;
+	});
+
+	if (unsafe == text.end() && text.find(terminator) == std::string_view::npos)
+	{
+		literal << R"cpp(R")cpp" << delimiter << '(' << text << terminator;
+		return literal.str();
+	}
+
+	literal << '"';
+
+	for (const auto ch : text)
+	{
+		const auto code = static_cast<unsigned char>(ch);
+
+		if (ch == '"' || ch == '\\')
+		{
+			literal << '\\' << ch;
+		}
+		else if (code < 0x20 || code == 0x7F)
+		{
+			// An octal escape sequence never has more than 3 digits.
+			literal << '\\' << static_cast<char>('0' + (code >> 6))
+					<< static_cast<char>('0' + ((code >> 3) & 7))
+					<< static_cast<char>('0' + (code & 7));
+		}
+		else
+		{
+			literal << ch;
+		}
+	}
+
+	literal << '"';
+
+	return literal.str();
+}
+
 PendingBlankLine::PendingBlankLine(std::ostream& outputFile) noexcept
 	: _outputFile(outputFile)
 {
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 51fa319..266a802 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -882,14 +882,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	schema->AddType(R"gql()cpp" << scalarType.type
 					   << R"cpp()gql"sv, schema::ScalarType::Make(R"gql()cpp" << scalarType.type
-					   << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << scalarType.description;
-			}
+					   << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md"));
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : scalarType.description)
+					   << R"cpp(sv));
 )cpp";
 		}
 	}
@@ -900,14 +897,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	auto type)cpp" << enumType.cppType
 					   << R"cpp( = schema::EnumType::Make(R"gql()cpp" << enumType.type
-					   << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << enumType.description;
-			}
+					   << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md"sv);
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : enumType.description)
+					   << R"cpp(sv);
 	schema->AddType(R"gql()cpp"
 					   << enumType.type << R"cpp()gql"sv, type)cpp" << enumType.cppType << R"cpp();
 )cpp";
@@ -920,14 +914,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	auto type)cpp" << inputType.cppType
 					   << R"cpp( = schema::InputObjectType::Make(R"gql()cpp" << inputType.type
-					   << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << inputType.description;
-			}
+					   << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md"sv);
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : inputType.description)
+					   << R"cpp(sv);
 	schema->AddType(R"gql()cpp"
 					   << inputType.type << R"cpp()gql"sv, type)cpp" << inputType.cppType
 					   << R"cpp();
@@ -941,14 +932,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	auto type)cpp" << unionType.cppType
 					   << R"cpp( = schema::UnionType::Make(R"gql()cpp" << unionType.type
-					   << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << unionType.description;
-			}
+					   << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md"sv);
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : unionType.description)
+					   << R"cpp(sv);
 	schema->AddType(R"gql()cpp"
 					   << unionType.type << R"cpp()gql"sv, type)cpp" << unionType.cppType
 					   << R"cpp();
@@ -962,14 +950,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	auto type)cpp" << interfaceType.cppType
 					   << R"cpp( = schema::InterfaceType::Make(R"gql()cpp" << interfaceType.type
-					   << R"cpp()gql"sv, R"md()cpp";
+					   << R"cpp()gql"sv, )cpp";
 
-			if (!_options.noIntrospection)
-			{
-				sourceFile << interfaceType.description;
-			}
-
-			sourceFile << R"cpp()md"sv);
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : interfaceType.description)
+					   << R"cpp(sv);
 	schema->AddType(R"gql()cpp"
 					   << interfaceType.type << R"cpp()gql"sv, type)cpp" << interfaceType.cppType
 					   << R"cpp();
@@ -983,14 +968,11 @@ Operations::Operations()cpp";
 		{
 			sourceFile << R"cpp(	auto type)cpp" << objectType.cppType
 					   << R"cpp( = schema::ObjectType::Make(R"gql()cpp" << objectType.type
-					   << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << objectType.description;
-			}
+					   << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md");
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : objectType.description)
+					   << R"cpp(sv);
 	schema->AddType(R"gql()cpp"
 					   << objectType.type << R"cpp()gql"sv, type)cpp" << objectType.cppType
 					   << R"cpp();
@@ -1023,19 +1005,17 @@ Operations::Operations()cpp";
 					sourceFile << R"cpp(		{ service::s_names)cpp" << enumType.cppType
 							   << R"cpp([static_cast<size_t>()cpp" << _loader.getSchemaNamespace()
 							   << R"cpp(::)cpp" << enumType.cppType << R"cpp(::)cpp"
-							   << enumValue.cppValue << R"cpp()], R"md()cpp";
+							   << enumValue.cppValue << R"cpp()], )cpp";
 
-					if (!_options.noIntrospection)
-					{
-						sourceFile << enumValue.description;
-					}
-
-					sourceFile << R"cpp()md"sv, )cpp";
+					sourceFile << getStringLiteral("md"sv,
+										  _options.noIntrospection ? ""sv : enumValue.description)
+							   << R"cpp(sv, )cpp";
 
 					if (enumValue.deprecationReason)
 					{
-						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *enumValue.deprecationReason << R"cpp()md"sv))cpp";
+						sourceFile << R"cpp(std::make_optional()cpp"
+						   << getStringLiteral("md"sv, *enumValue.deprecationReason)
+						   << R"cpp(sv))cpp";
 					}
 					else
 					{
@@ -1075,17 +1055,15 @@ Operations::Operations()cpp";
 
 					firstValue = false;
 					sourceFile << R"cpp(		schema::InputValue::Make(R"gql()cpp"
-							   << inputField.name << R"cpp()gql"sv, R"md()cpp";
-
-					if (!_options.noIntrospection)
-					{
-						sourceFile << inputField.description;
-					}
+							   << inputField.name << R"cpp()gql"sv, )cpp";
 
-					sourceFile << R"cpp()md"sv, )cpp"
+					sourceFile << getStringLiteral("md"sv,
+										  _options.noIntrospection ? ""sv : inputField.description)
+							   << R"cpp(sv, )cpp"
 							   << getIntrospectionType(inputField.type, inputField.modifiers)
-							   << R"cpp(, R"gql()cpp" << inputField.defaultValueString
-							   << R"cpp()gql"sv))cpp";
+							   << R"cpp(, )cpp"
+							   << getStringLiteral("gql"sv, inputField.defaultValueString)
+							   << R"cpp(sv))cpp";
 				}
 
 				sourceFile << R"cpp(
@@ -1152,19 +1130,17 @@ Operations::Operations()cpp";
 
 					firstValue = false;
 					sourceFile << R"cpp(		schema::Field::Make(R"gql()cpp"
-							   << interfaceField.name << R"cpp()gql"sv, R"md()cpp";
+							   << interfaceField.name << R"cpp()gql"sv, )cpp";
 
-					if (!_options.noIntrospection)
-					{
-						sourceFile << interfaceField.description;
-					}
-
-					sourceFile << R"cpp()md"sv, )cpp";
+					sourceFile << getStringLiteral("md"sv,
+										  _options.noIntrospection ? ""sv : interfaceField.description)
+							   << R"cpp(sv, )cpp";
 
 					if (interfaceField.deprecationReason)
 					{
-						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *interfaceField.deprecationReason << R"cpp()md"sv))cpp";
+						sourceFile << R"cpp(std::make_optional()cpp"
+						   << getStringLiteral("md"sv, *interfaceField.deprecationReason)
+						   << R"cpp(sv))cpp";
 					}
 					else
 					{
@@ -1192,17 +1168,15 @@ Operations::Operations()cpp";
 
 							firstArgument = false;
 							sourceFile << R"cpp(			schema::InputValue::Make(R"gql()cpp"
-									   << argument.name << R"cpp()gql"sv, R"md()cpp";
+									   << argument.name << R"cpp()gql"sv, )cpp";
 
-							if (!_options.noIntrospection)
-							{
-								sourceFile << argument.description;
-							}
-
-							sourceFile << R"cpp()md"sv, )cpp"
+							sourceFile << getStringLiteral("md"sv,
+												  _options.noIntrospection ? ""sv : argument.description)
+									   << R"cpp(sv, )cpp"
 									   << getIntrospectionType(argument.type, argument.modifiers)
-									   << R"cpp(, R"gql()cpp" << argument.defaultValueString
-									   << R"cpp()gql"sv))cpp";
+									   << R"cpp(, )cpp"
+							   << getStringLiteral("gql"sv, argument.defaultValueString)
+							   << R"cpp(sv))cpp";
 						}
 
 						sourceFile << R"cpp(
@@ -1245,14 +1219,11 @@ Operations::Operations()cpp";
 		for (const auto& directive : _loader.getDirectives())
 		{
 			sourceFile << R"cpp(	schema->AddDirective(schema::Directive::Make(R"gql()cpp"
-					   << directive.name << R"cpp()gql"sv, R"md()cpp";
-
-			if (!_options.noIntrospection)
-			{
-				sourceFile << directive.description;
-			}
+					   << directive.name << R"cpp()gql"sv, )cpp";
 
-			sourceFile << R"cpp()md"sv, {)cpp";
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : directive.description)
+					   << R"cpp(sv, {)cpp";
 
 			if (!directive.locations.empty())
 			{
@@ -1297,17 +1268,15 @@ Operations::Operations()cpp";
 
 					firstArgument = false;
 					sourceFile << R"cpp(		schema::InputValue::Make(R"gql()cpp"
-							   << argument.name << R"cpp()gql"sv, R"md()cpp";
-
-					if (!_options.noIntrospection)
-					{
-						sourceFile << argument.description;
-					}
+							   << argument.name << R"cpp()gql"sv, )cpp";
 
-					sourceFile << R"cpp()md"sv, )cpp"
+					sourceFile << getStringLiteral("md"sv,
+										  _options.noIntrospection ? ""sv : argument.description)
+							   << R"cpp(sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
-							   << R"cpp()gql"sv))cpp";
+							   << R"cpp(, )cpp"
+							   << getStringLiteral("gql"sv, argument.defaultValueString)
+							   << R"cpp(sv))cpp";
 				}
 
 				sourceFile << R"cpp(
@@ -1652,19 +1621,17 @@ void Generator::outputObjectIntrospection(
 
 			firstValue = false;
 			sourceFile << R"cpp(		schema::Field::Make(R"gql()cpp" << objectField.name
-					   << R"cpp()gql"sv, R"md()cpp";
+					   << R"cpp()gql"sv, )cpp";
 
-			if (!_options.noIntrospection)
-			{
-				sourceFile << objectField.description;
-			}
-
-			sourceFile << R"cpp()md"sv, )cpp";
+			sourceFile << getStringLiteral("md"sv,
+								  _options.noIntrospection ? ""sv : objectField.description)
+					   << R"cpp(sv, )cpp";
 
 			if (objectField.deprecationReason)
 			{
-				sourceFile << R"cpp(std::make_optional(R"md()cpp" << *objectField.deprecationReason
-						   << R"cpp()md"sv))cpp";
+				sourceFile << R"cpp(std::make_optional()cpp"
+						   << getStringLiteral("md"sv, *objectField.deprecationReason)
+						   << R"cpp(sv))cpp";
 			}
 			else
 			{
@@ -1691,17 +1658,15 @@ void Generator::outputObjectIntrospection(
 
 					firstArgument = false;
 					sourceFile << R"cpp(			schema::InputValue::Make(R"gql()cpp"
-							   << argument.name << R"cpp()gql"sv, R"md()cpp";
+							   << argument.name << R"cpp()gql"sv, )cpp";
 
-					if (!_options.noIntrospection)
-					{
-						sourceFile << argument.description;
-					}
-
-					sourceFile << R"cpp()md"sv, )cpp"
+					sourceFile << getStringLiteral("md"sv,
+										  _options.noIntrospection ? ""sv : argument.description)
+							   << R"cpp(sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
-							   << R"cpp()gql"sv))cpp";
+							   << R"cpp(, )cpp"
+							   << getStringLiteral("gql"sv, argument.defaultValueString)
+							   << R"cpp(sv))cpp";
 				}
 
 				sourceFile << R"cpp(
@@ -1777,8 +1742,10 @@ std::string Generator::getArgumentDefaultValue(
 		case response::Type::String:
 		{
 			argumentDefaultValue << padding
-								 << R"cpp(		entry = response::Value(std::string(R"gql()cpp"
-								 << defaultValue.get<response::StringType>() << R"cpp()gql"));
+								 << R"cpp(		entry = response::Value(std::string()cpp"
+								 << getStringLiteral("gql"sv,
+										defaultValue.get<response::StringType>())
+								 << R"cpp(sv));
 )cpp";
 			break;
 		}
-- 
2.43.0


From 815cea0841b7c38dd195de40bb0777247f3d9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 47/56] fix: values of the wrong type and null for non-null
 arguments were replaced with the default value

---
 samples/separate/QueryObject.cpp              |  9 ++--
 samples/separate/TodaySchema.cpp              | 43 ++++++++-------
 .../separate_nointrospection/QueryObject.cpp  |  9 ++--
 .../separate_nointrospection/TodaySchema.cpp  | 43 ++++++++-------
 samples/unified/TodaySchema.cpp               | 52 +++++++++----------
 .../unified_nointrospection/TodaySchema.cpp   | 52 +++++++++----------
 samples/validation/ValidationSchema.cpp       | 31 ++++++-----
 src/IntrospectionSchema.cpp                   | 26 +++++-----
 src/SchemaGenerator.cpp                       | 19 +++----
 9 files changed, 135 insertions(+), 149 deletions(-)

diff --git a/samples/separate/QueryObject.cpp b/samples/separate/QueryObject.cpp
index d756490..e11578b 100644
--- a/samples/separate/QueryObject.cpp
+++ b/samples/separate/QueryObject.cpp
@@ -132,7 +132,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 			response::Value elements(response::Type::List);
 			response::Value entry;
 
-			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"));
+			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"sv));
 			elements.emplace_back(std::move(entry));
 			return elements;
 		}();
@@ -141,10 +141,9 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments.find("ids") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 07b69b6..c8442aa 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -76,10 +76,9 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value.find("isComplete") == value.end()
+		? defaultValue
+		: value);
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -154,8 +153,8 @@ Operations::Operations(std::shared_ptr<object::Query> query, std::shared_ptr<obj
 
 void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 {
-	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"));
-	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"));
+	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"sv));
+	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"sv));
 	auto typeTaskState = schema::EnumType::Make(R"gql(TaskState)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskState)gql"sv, typeTaskState);
 	auto typeCompleteTaskInput = schema::InputObjectType::Make(R"gql(CompleteTaskInput)gql"sv, R"md()md"sv);
@@ -172,37 +171,37 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(UnionType)gql"sv, typeUnionType);
 	auto typeNode = schema::InterfaceType::Make(R"gql(Node)gql"sv, R"md(Node interface for Relay support)md"sv);
 	schema->AddType(R"gql(Node)gql"sv, typeNode);
-	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(Root Query type)md");
+	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(Root Query type)md"sv);
 	schema->AddType(R"gql(Query)gql"sv, typeQuery);
-	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md");
+	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(PageInfo)gql"sv, typePageInfo);
-	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md");
+	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentEdge)gql"sv, typeAppointmentEdge);
-	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md");
+	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentConnection)gql"sv, typeAppointmentConnection);
-	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md");
+	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskEdge)gql"sv, typeTaskEdge);
-	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md");
+	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskConnection)gql"sv, typeTaskConnection);
-	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md");
+	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderEdge)gql"sv, typeFolderEdge);
-	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md");
+	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderConnection)gql"sv, typeFolderConnection);
-	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md");
+	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(CompleteTaskPayload)gql"sv, typeCompleteTaskPayload);
-	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md");
+	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Mutation)gql"sv, typeMutation);
-	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md");
+	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Subscription)gql"sv, typeSubscription);
-	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md");
+	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Appointment)gql"sv, typeAppointment);
-	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md");
+	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Task)gql"sv, typeTask);
-	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md");
+	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Folder)gql"sv, typeFolder);
-	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md(Infinitely nestable type which can be used with nested fragments to test directive handling)md");
+	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md(Infinitely nestable type which can be used with nested fragments to test directive handling)md"sv);
 	schema->AddType(R"gql(NestedType)gql"sv, typeNestedType);
-	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md");
+	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Expensive)gql"sv, typeExpensive);
 
 	typeTaskState->AddEnumValues({
diff --git a/samples/separate_nointrospection/QueryObject.cpp b/samples/separate_nointrospection/QueryObject.cpp
index d081b8b..eb3cbaa 100644
--- a/samples/separate_nointrospection/QueryObject.cpp
+++ b/samples/separate_nointrospection/QueryObject.cpp
@@ -129,7 +129,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 			response::Value elements(response::Type::List);
 			response::Value entry;
 
-			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"));
+			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"sv));
 			elements.emplace_back(std::move(entry));
 			return elements;
 		}();
@@ -138,10 +138,9 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments.find("ids") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index a80582b..4727a4f 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -76,10 +76,9 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value.find("isComplete") == value.end()
+		? defaultValue
+		: value);
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -154,8 +153,8 @@ Operations::Operations(std::shared_ptr<object::Query> query, std::shared_ptr<obj
 
 void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 {
-	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"));
-	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"));
+	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"sv));
+	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"sv));
 	auto typeTaskState = schema::EnumType::Make(R"gql(TaskState)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskState)gql"sv, typeTaskState);
 	auto typeCompleteTaskInput = schema::InputObjectType::Make(R"gql(CompleteTaskInput)gql"sv, R"md()md"sv);
@@ -172,37 +171,37 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(UnionType)gql"sv, typeUnionType);
 	auto typeNode = schema::InterfaceType::Make(R"gql(Node)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Node)gql"sv, typeNode);
-	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md()md");
+	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Query)gql"sv, typeQuery);
-	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md");
+	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(PageInfo)gql"sv, typePageInfo);
-	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md");
+	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentEdge)gql"sv, typeAppointmentEdge);
-	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md");
+	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentConnection)gql"sv, typeAppointmentConnection);
-	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md");
+	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskEdge)gql"sv, typeTaskEdge);
-	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md");
+	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskConnection)gql"sv, typeTaskConnection);
-	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md");
+	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderEdge)gql"sv, typeFolderEdge);
-	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md");
+	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderConnection)gql"sv, typeFolderConnection);
-	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md");
+	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(CompleteTaskPayload)gql"sv, typeCompleteTaskPayload);
-	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md");
+	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Mutation)gql"sv, typeMutation);
-	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md");
+	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Subscription)gql"sv, typeSubscription);
-	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md");
+	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Appointment)gql"sv, typeAppointment);
-	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md");
+	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Task)gql"sv, typeTask);
-	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md");
+	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Folder)gql"sv, typeFolder);
-	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md()md");
+	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(NestedType)gql"sv, typeNestedType);
-	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md");
+	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Expensive)gql"sv, typeExpensive);
 
 	typeTaskState->AddEnumValues({
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c840830..1766480 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -76,10 +76,9 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value.find("isComplete") == value.end()
+		? defaultValue
+		: value);
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -255,7 +254,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 			response::Value elements(response::Type::List);
 			response::Value entry;
 
-			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"));
+			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"sv));
 			elements.emplace_back(std::move(entry));
 			return elements;
 		}();
@@ -264,10 +263,9 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments.find("ids") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
@@ -1182,8 +1180,8 @@ Operations::Operations(std::shared_ptr<object::Query> query, std::shared_ptr<obj
 
 void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 {
-	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"));
-	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"));
+	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"sv));
+	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"sv));
 	auto typeTaskState = schema::EnumType::Make(R"gql(TaskState)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskState)gql"sv, typeTaskState);
 	auto typeCompleteTaskInput = schema::InputObjectType::Make(R"gql(CompleteTaskInput)gql"sv, R"md()md"sv);
@@ -1200,37 +1198,37 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(UnionType)gql"sv, typeUnionType);
 	auto typeNode = schema::InterfaceType::Make(R"gql(Node)gql"sv, R"md(Node interface for Relay support)md"sv);
 	schema->AddType(R"gql(Node)gql"sv, typeNode);
-	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(Root Query type)md");
+	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(Root Query type)md"sv);
 	schema->AddType(R"gql(Query)gql"sv, typeQuery);
-	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md");
+	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(PageInfo)gql"sv, typePageInfo);
-	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md");
+	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentEdge)gql"sv, typeAppointmentEdge);
-	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md");
+	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentConnection)gql"sv, typeAppointmentConnection);
-	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md");
+	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskEdge)gql"sv, typeTaskEdge);
-	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md");
+	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskConnection)gql"sv, typeTaskConnection);
-	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md");
+	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderEdge)gql"sv, typeFolderEdge);
-	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md");
+	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderConnection)gql"sv, typeFolderConnection);
-	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md");
+	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(CompleteTaskPayload)gql"sv, typeCompleteTaskPayload);
-	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md");
+	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Mutation)gql"sv, typeMutation);
-	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md");
+	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Subscription)gql"sv, typeSubscription);
-	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md");
+	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Appointment)gql"sv, typeAppointment);
-	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md");
+	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Task)gql"sv, typeTask);
-	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md");
+	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Folder)gql"sv, typeFolder);
-	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md(Infinitely nestable type which can be used with nested fragments to test directive handling)md");
+	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md(Infinitely nestable type which can be used with nested fragments to test directive handling)md"sv);
 	schema->AddType(R"gql(NestedType)gql"sv, typeNestedType);
-	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md");
+	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Expensive)gql"sv, typeExpensive);
 
 	typeTaskState->AddEnumValues({
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 67d3949..9b83c5d 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -76,10 +76,9 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value.find("isComplete") == value.end()
+		? defaultValue
+		: value);
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -252,7 +251,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 			response::Value elements(response::Type::List);
 			response::Value entry;
 
-			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"));
+			entry = response::Value(std::string(R"gql(ZmFrZUFwcG9pbnRtZW50SWQ=)gql"sv));
 			elements.emplace_back(std::move(entry));
 			return elements;
 		}();
@@ -261,10 +260,9 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments.find("ids") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
@@ -1165,8 +1163,8 @@ Operations::Operations(std::shared_ptr<object::Query> query, std::shared_ptr<obj
 
 void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 {
-	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"));
-	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"));
+	schema->AddType(R"gql(ItemCursor)gql"sv, schema::ScalarType::Make(R"gql(ItemCursor)gql"sv, R"md()md"sv));
+	schema->AddType(R"gql(DateTime)gql"sv, schema::ScalarType::Make(R"gql(DateTime)gql"sv, R"md()md"sv));
 	auto typeTaskState = schema::EnumType::Make(R"gql(TaskState)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskState)gql"sv, typeTaskState);
 	auto typeCompleteTaskInput = schema::InputObjectType::Make(R"gql(CompleteTaskInput)gql"sv, R"md()md"sv);
@@ -1183,37 +1181,37 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(UnionType)gql"sv, typeUnionType);
 	auto typeNode = schema::InterfaceType::Make(R"gql(Node)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Node)gql"sv, typeNode);
-	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md()md");
+	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Query)gql"sv, typeQuery);
-	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md");
+	auto typePageInfo = schema::ObjectType::Make(R"gql(PageInfo)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(PageInfo)gql"sv, typePageInfo);
-	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md");
+	auto typeAppointmentEdge = schema::ObjectType::Make(R"gql(AppointmentEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentEdge)gql"sv, typeAppointmentEdge);
-	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md");
+	auto typeAppointmentConnection = schema::ObjectType::Make(R"gql(AppointmentConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(AppointmentConnection)gql"sv, typeAppointmentConnection);
-	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md");
+	auto typeTaskEdge = schema::ObjectType::Make(R"gql(TaskEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskEdge)gql"sv, typeTaskEdge);
-	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md");
+	auto typeTaskConnection = schema::ObjectType::Make(R"gql(TaskConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(TaskConnection)gql"sv, typeTaskConnection);
-	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md");
+	auto typeFolderEdge = schema::ObjectType::Make(R"gql(FolderEdge)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderEdge)gql"sv, typeFolderEdge);
-	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md");
+	auto typeFolderConnection = schema::ObjectType::Make(R"gql(FolderConnection)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(FolderConnection)gql"sv, typeFolderConnection);
-	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md");
+	auto typeCompleteTaskPayload = schema::ObjectType::Make(R"gql(CompleteTaskPayload)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(CompleteTaskPayload)gql"sv, typeCompleteTaskPayload);
-	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md");
+	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Mutation)gql"sv, typeMutation);
-	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md");
+	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Subscription)gql"sv, typeSubscription);
-	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md");
+	auto typeAppointment = schema::ObjectType::Make(R"gql(Appointment)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Appointment)gql"sv, typeAppointment);
-	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md");
+	auto typeTask = schema::ObjectType::Make(R"gql(Task)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Task)gql"sv, typeTask);
-	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md");
+	auto typeFolder = schema::ObjectType::Make(R"gql(Folder)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Folder)gql"sv, typeFolder);
-	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md()md");
+	auto typeNestedType = schema::ObjectType::Make(R"gql(NestedType)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(NestedType)gql"sv, typeNestedType);
-	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md");
+	auto typeExpensive = schema::ObjectType::Make(R"gql(Expensive)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Expensive)gql"sv, typeExpensive);
 
 	typeTaskState->AddEnumValues({
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index c5e4a81..fa773fd 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -327,7 +327,7 @@ service::FieldResult<response::BooleanType> Dog::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Dog::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argDogCommand = service::ModifiedArgument<DogCommand>::require("dogCommand", params.arguments);
+	auto argDogCommand = service::ModifiedArgument<validation::DogCommand>::require("dogCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argDogCommand));
@@ -521,7 +521,7 @@ service::FieldResult<response::BooleanType> Cat::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Cat::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argCatCommand = service::ModifiedArgument<CatCommand>::require("catCommand", params.arguments);
+	auto argCatCommand = service::ModifiedArgument<validation::CatCommand>::require("catCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argCatCommand));
@@ -850,10 +850,9 @@ std::future<service::ResolverResult> Arguments::resolveOptionalNonNullBooleanArg
 		return values;
 	}();
 
-	auto pairOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::find("optionalBooleanArg", params.arguments);
-	auto argOptionalBooleanArg = (pairOptionalBooleanArg.second
-		? std::move(pairOptionalBooleanArg.first)
-		: service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", defaultArguments));
+	auto argOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", params.arguments.find("optionalBooleanArg") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getOptionalNonNullBooleanArgField(service::FieldParams(std::move(params), std::move(directives)), std::move(argOptionalBooleanArg));
@@ -899,25 +898,25 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(Sentient)gql"sv, typeSentient);
 	auto typePet = schema::InterfaceType::Make(R"gql(Pet)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Pet)gql"sv, typePet);
-	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(GraphQL validation [sample](http://spec.graphql.org/June2018/#example-26a9d))md");
+	auto typeQuery = schema::ObjectType::Make(R"gql(Query)gql"sv, R"md(GraphQL validation [sample](http://spec.graphql.org/June2018/#example-26a9d))md"sv);
 	schema->AddType(R"gql(Query)gql"sv, typeQuery);
-	auto typeDog = schema::ObjectType::Make(R"gql(Dog)gql"sv, R"md()md");
+	auto typeDog = schema::ObjectType::Make(R"gql(Dog)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Dog)gql"sv, typeDog);
-	auto typeAlien = schema::ObjectType::Make(R"gql(Alien)gql"sv, R"md()md");
+	auto typeAlien = schema::ObjectType::Make(R"gql(Alien)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Alien)gql"sv, typeAlien);
-	auto typeHuman = schema::ObjectType::Make(R"gql(Human)gql"sv, R"md()md");
+	auto typeHuman = schema::ObjectType::Make(R"gql(Human)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Human)gql"sv, typeHuman);
-	auto typeCat = schema::ObjectType::Make(R"gql(Cat)gql"sv, R"md()md");
+	auto typeCat = schema::ObjectType::Make(R"gql(Cat)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(Cat)gql"sv, typeCat);
-	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md(Support for [Counter Example 94](http://spec.graphql.org/June2018/#example-77c2e))md");
+	auto typeMutation = schema::ObjectType::Make(R"gql(Mutation)gql"sv, R"md(Support for [Counter Example 94](http://spec.graphql.org/June2018/#example-77c2e))md"sv);
 	schema->AddType(R"gql(Mutation)gql"sv, typeMutation);
-	auto typeMutateDogResult = schema::ObjectType::Make(R"gql(MutateDogResult)gql"sv, R"md(Support for [Counter Example 94](http://spec.graphql.org/June2018/#example-77c2e))md");
+	auto typeMutateDogResult = schema::ObjectType::Make(R"gql(MutateDogResult)gql"sv, R"md(Support for [Counter Example 94](http://spec.graphql.org/June2018/#example-77c2e))md"sv);
 	schema->AddType(R"gql(MutateDogResult)gql"sv, typeMutateDogResult);
-	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md(Support for [Example 97](http://spec.graphql.org/June2018/#example-5bbc3) - [Counter Example 101](http://spec.graphql.org/June2018/#example-2353b))md");
+	auto typeSubscription = schema::ObjectType::Make(R"gql(Subscription)gql"sv, R"md(Support for [Example 97](http://spec.graphql.org/June2018/#example-5bbc3) - [Counter Example 101](http://spec.graphql.org/June2018/#example-2353b))md"sv);
 	schema->AddType(R"gql(Subscription)gql"sv, typeSubscription);
-	auto typeMessage = schema::ObjectType::Make(R"gql(Message)gql"sv, R"md(Support for [Example 97](http://spec.graphql.org/June2018/#example-5bbc3) - [Counter Example 101](http://spec.graphql.org/June2018/#example-2353b))md");
+	auto typeMessage = schema::ObjectType::Make(R"gql(Message)gql"sv, R"md(Support for [Example 97](http://spec.graphql.org/June2018/#example-5bbc3) - [Counter Example 101](http://spec.graphql.org/June2018/#example-2353b))md"sv);
 	schema->AddType(R"gql(Message)gql"sv, typeMessage);
-	auto typeArguments = schema::ObjectType::Make(R"gql(Arguments)gql"sv, R"md(Support for [Example 120](http://spec.graphql.org/June2018/#example-1891c))md");
+	auto typeArguments = schema::ObjectType::Make(R"gql(Arguments)gql"sv, R"md(Support for [Example 120](http://spec.graphql.org/June2018/#example-1891c))md"sv);
 	schema->AddType(R"gql(Arguments)gql"sv, typeArguments);
 
 	typeDogCommand->AddEnumValues({
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..1bcf9a5 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,10 +250,9 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments.find("includeDeprecated") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getFields(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
@@ -295,10 +294,9 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments.find("includeDeprecated") == params.arguments.end()
+		? defaultArguments
+		: params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getEnumValues(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
@@ -599,17 +597,17 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 	schema->AddType(R"gql(__TypeKind)gql"sv, typeTypeKind);
 	auto typeDirectiveLocation = schema::EnumType::Make(R"gql(__DirectiveLocation)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__DirectiveLocation)gql"sv, typeDirectiveLocation);
-	auto typeSchema = schema::ObjectType::Make(R"gql(__Schema)gql"sv, R"md()md");
+	auto typeSchema = schema::ObjectType::Make(R"gql(__Schema)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__Schema)gql"sv, typeSchema);
-	auto typeType = schema::ObjectType::Make(R"gql(__Type)gql"sv, R"md()md");
+	auto typeType = schema::ObjectType::Make(R"gql(__Type)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__Type)gql"sv, typeType);
-	auto typeField = schema::ObjectType::Make(R"gql(__Field)gql"sv, R"md()md");
+	auto typeField = schema::ObjectType::Make(R"gql(__Field)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__Field)gql"sv, typeField);
-	auto typeInputValue = schema::ObjectType::Make(R"gql(__InputValue)gql"sv, R"md()md");
+	auto typeInputValue = schema::ObjectType::Make(R"gql(__InputValue)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__InputValue)gql"sv, typeInputValue);
-	auto typeEnumValue = schema::ObjectType::Make(R"gql(__EnumValue)gql"sv, R"md()md");
+	auto typeEnumValue = schema::ObjectType::Make(R"gql(__EnumValue)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__EnumValue)gql"sv, typeEnumValue);
-	auto typeDirective = schema::ObjectType::Make(R"gql(__Directive)gql"sv, R"md()md");
+	auto typeDirective = schema::ObjectType::Make(R"gql(__Directive)gql"sv, R"md()md"sv);
 	schema->AddType(R"gql(__Directive)gql"sv, typeDirective);
 
 	typeTypeKind->AddEnumValues({
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 266a802..389cb87 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1839,18 +1839,15 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
+		// The default value only stands in for an omitted argument.
+		argumentDeclaration << R"cpp(	auto )cpp" << prefixToken << argumentName << R"cpp( = )cpp"
+							<< getArgumentAccessType(argument) << R"cpp(::require)cpp"
 							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
-	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
-		: )cpp" << getArgumentAccessType(argument)
-							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
-							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
-							<< R"cpp());
+							<< argument.name << R"cpp(", )cpp" << argumentsToken
+							<< R"cpp(.find(")cpp" << argument.name << R"cpp(") == )cpp"
+							<< argumentsToken << R"cpp(.end()
+		? )cpp" << defaultToken << R"cpp(
+		: )cpp" << argumentsToken << R"cpp();
 )cpp";
 	}
 
-- 
2.43.0


From 7dddb949ad157101237bfb2baa90c6ae38872df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 48/56] fix: accessors inherited from more than one interface
 were ambiguous without stubs

---
 include/SchemaLoader.h  |  1 +
 src/SchemaGenerator.cpp |  5 ++++-
 src/SchemaLoader.cpp    | 11 ++++++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index 25388ea..e3acdfb 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -161,6 +161,7 @@ struct OutputField
 	std::optional<tao::graphqlpeg::position> position;
 	bool interfaceField = false;
 	bool inheritedField = false;
+	bool sharedField = false; // inherited from more than one interface
 	std::string_view accessor { strGet };
 };
 
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 389cb87..1585b9c 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -467,7 +467,10 @@ protected:
 
 		for (const auto& outputField : objectType.fields)
 		{
-			if (outputField.inheritedField && (_loader.isIntrospection() || _options.noStubs))
+			// The accessors which are inherited from more than one interface are ambiguous unless the
+			// object declares them.
+			if (outputField.inheritedField && !outputField.sharedField
+				&& (_loader.isIntrospection() || _options.noStubs))
 			{
 				continue;
 			}
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 0f54bec..72c00f7 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -301,6 +301,7 @@ void SchemaLoader::validateSchema()
 	for (auto& entry : _objectTypes)
 	{
 		auto interfaceFields = std::make_optional<std::unordered_set<std::string_view>>();
+		std::unordered_set<std::string_view> sharedFields;
 		auto accessor = (mutationType == entry.type)
 			? std::make_optional<std::string_view>(strApply)
 			: std::nullopt;
@@ -313,12 +314,20 @@ void SchemaLoader::validateSchema()
 			{
 				for (const auto& field : _interfaceTypes[itr->second].fields)
 				{
-					interfaceFields->insert(field.name);
+					if (!interfaceFields->insert(field.name).second)
+					{
+						sharedFields.insert(field.name);
+					}
 				}
 			}
 		}
 
 		fixupOutputFieldList(entry.fields, interfaceFields, accessor);
+
+		for (auto& field : entry.fields)
+		{
+			field.sharedField = sharedFields.find(field.name) != sharedFields.cend();
+		}
 	}
 
 	// Validate the interfaces implemented by the object types.
-- 
2.43.0


From 4cb8562e98068719673c11bcfcb368ef164cd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 49/56] fix: variables in the default values of a schema were
 ignored instead of reported

---
 src/GeneratorLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 205bc49..dd8f96a 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -96,7 +96,7 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 	{
 		visitObjectValue(value);
 	}
-	else if (value.is_type<peg::variable>())
+	else if (value.is_type<peg::variable_value>())
 	{
 		std::ostringstream error;
 		const auto position = value.begin();
-- 
2.43.0


From 07b1472f5fd41af5bbda62fce5fbc478d4f31fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 50/56] fix: clients lost the fields which are only selected by
 a later field with the same response name

---
 include/RequestLoader.h |  3 ++-
 src/RequestLoader.cpp   | 49 ++++++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..6223fcd 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -124,12 +124,13 @@ private:
 
 		void mergeFragmentFields(ResponseFieldList&& fragmentFields) noexcept;
 
+		static void mergeField(ResponseFieldList& fields, ResponseField&& field) noexcept;
+
 		const SchemaLoader& _schemaLoader;
 		const FragmentDefinitionMap& _fragments;
 		const std::shared_ptr<schema::Schema>& _schema;
 		const RequestSchemaType& _type;
 
-		internal::string_view_set _names;
 		ResponseFieldList _fields;
 	};
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index b4a24a3..614afa2 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1028,14 +1028,6 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
-	if (!_names.emplace(alias).second)
-	{
-		// Skip fields which map to the same response name as a field we've already visited.
-		// Validation should handle merging multiple references to the same field or to
-		// compatible fields.
-		return;
-	}
-
 	ResponseField responseField;
 
 	responseField.name = alias;
@@ -1046,7 +1038,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	if (name == R"gql(__typename)gql"sv)
 	{
 		responseField.type = _schema->LookupType("String"sv);
-		_fields.push_back(std::move(responseField));
+		mergeField(_fields, std::move(responseField));
 		return;
 	}
 
@@ -1120,7 +1112,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_fields.push_back(std::move(responseField));
+	mergeField(_fields, std::move(responseField));
 }
 
 void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
@@ -1174,20 +1166,31 @@ void RequestLoader::SelectionVisitor::visitInlineFragment(const peg::ast_node& i
 void RequestLoader::SelectionVisitor::mergeFragmentFields(
 	ResponseFieldList&& fragmentFields) noexcept
 {
-	fragmentFields.erase(std::remove_if(fragmentFields.begin(),
-							 fragmentFields.end(),
-							 [this](const ResponseField& fragmentField) noexcept {
-								 return !_names.emplace(fragmentField.name).second;
-							 }),
-		fragmentFields.cend());
-
-	if (!fragmentFields.empty())
+	for (auto& fragmentField : fragmentFields)
 	{
-		_fields.reserve(_fields.size() + fragmentFields.size());
-		for (auto& fragmentField : fragmentFields)
-		{
-			_fields.push_back(std::move(fragmentField));
-		}
+		mergeField(_fields, std::move(fragmentField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::mergeField(
+	ResponseFieldList& fields, ResponseField&& field) noexcept
+{
+	const auto itr =
+		std::find_if(fields.begin(), fields.end(), [&field](const ResponseField& entry) noexcept {
+			return entry.name == field.name;
+		});
+
+	if (itr == fields.end())
+	{
+		fields.push_back(std::move(field));
+		return;
+	}
+
+	// Validation makes sure that fields which map to the same response name are compatible, but
+	// the response includes everything which any of them selects.
+	for (auto& child : field.children)
+	{
+		mergeField(itr->children, std::move(child));
 	}
 }
 
-- 
2.43.0


From 09c7bd9efeebc4f26c1cc67ef7f358152a355189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 51/56] fix: clients did not compile with variables which are
 nullable, lists or no input objects

---
 include/ClientGenerator.h |  1 +
 src/ClientGenerator.cpp   | 26 ++++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..c60de20 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -43,6 +43,7 @@ private:
 	const std::string& getFullNamespace() const noexcept;
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
+	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 44e6389..fa4284a 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -168,6 +168,21 @@ std::string Generator::getResponseFieldCppType(
 	return result;
 }
 
+std::string Generator::getVariableCppType(const RequestSchemaType& type) const noexcept
+{
+	std::ostringstream oss;
+
+	// Input object types are declared inside of Variables.
+	if (type->kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		oss << R"cpp(Variables::)cpp";
+	}
+
+	oss << _schemaLoader.getCppType(type->name());
+
+	return oss.str();
+}
+
 std::vector<std::string> Generator::Build() const noexcept
 {
 	std::vector<std::string> builtFiles;
@@ -279,7 +294,10 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << RequestLoader::getOutputCppType(
+							  _schemaLoader.getCppType(variable.type->name()),
+							  variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
@@ -544,7 +562,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
 						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << getVariableCppType(type) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -625,8 +643,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp"
+					   << getVariableCppType(variable.type) << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
-- 
2.43.0


From 37c409e3d7108834f5fccba51038def673adc3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 52/56] fix: clients used the C++ names of enum values instead
 of their names in the schema

---
 src/ClientGenerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index fa4284a..7713899 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -502,8 +502,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
-					   << R"cpp("sv,
+			sourceFile << R"cpp(	")cpp" << enumValue->name() << R"cpp("sv,
 )cpp";
 		}
 
-- 
2.43.0


From 4fc0e03d964f35e69c835505d0e05cb46e2772da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 53/56] fix: carriage returns in a request broke its client or
 changed its block strings

---
 include/ClientGenerator.h |  1 +
 src/ClientGenerator.cpp   | 26 +++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index c60de20..288b058 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -44,6 +44,7 @@ private:
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
 	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
+	std::vector<std::string_view> getRequestLines() const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 7713899..d3d8753 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -39,6 +39,7 @@
 #endif
 // clang-format on
 
+#include <algorithm>
 #include <cctype>
 #include <fstream>
 #include <iostream>
@@ -183,6 +184,24 @@ std::string Generator::getVariableCppType(const RequestSchemaType& type) const n
 	return oss.str();
 }
 
+std::vector<std::string_view> Generator::getRequestLines() const noexcept
+{
+	std::vector<std::string_view> lines;
+
+	// Any line terminator ends a line of the request, including a single carriage return.
+	for (auto request = _requestLoader.getRequestText(); !request.empty();)
+	{
+		const auto length = std::min(request.find_first_of("\r\n"sv), request.size());
+
+		lines.push_back(request.substr(0, length));
+		request.remove_prefix(length);
+		request.remove_prefix(
+			std::min<size_t>(request.substr(0, 2) == "\r\n"sv ? 2 : 1, request.size()));
+	}
+
+	return lines;
+}
+
 std::vector<std::string> Generator::Build() const noexcept
 {
 	std::vector<std::string> builtFiles;
@@ -362,9 +381,7 @@ void Generator::outputRequestComment(std::ostream& headerFile) const noexcept
 /// <code class="language-graphql">
 )cpp";
 
-	std::istringstream request { std::string { _requestLoader.getRequestText() } };
-
-	for (std::string line; std::getline(request, line);)
+	for (const auto& line : getRequestLines())
 	{
 		headerFile << R"cpp(/// )cpp" << line << std::endl;
 	}
@@ -707,12 +724,11 @@ const std::string& GetRequestText() noexcept
 {
 	static const auto s_request = )cpp";
 
-	std::istringstream request { std::string { _requestLoader.getRequestText() } };
 	std::ostringstream requestLines;
 
 	requestLines << std::endl;
 
-	for (std::string line; std::getline(request, line);)
+	for (const auto& line : getRequestLines())
 	{
 		requestLines << R"cpp(		)cpp" << line << std::endl;
 	}
-- 
2.43.0


From c87956a313d31b8af947378bdf96d4728579ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 54/56] fix: clients did not compile if a nested field has the
 name and type of the field around it

---
 include/ClientGenerator.h |  8 +++--
 src/ClientGenerator.cpp   | 66 ++++++++++++++++++++++++++++-----------
 2 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 288b058..5afb07c 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -42,15 +42,17 @@ private:
 	const std::string& getRequestNamespace() const noexcept;
 	const std::string& getFullNamespace() const noexcept;
 	std::string getResponseFieldCppType(
-		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
+		const ResponseField& responseField, std::string_view currentScope) const noexcept;
+	std::string getQualifiedResponseFieldCppType(
+		const ResponseField& responseField, std::string_view currentScope) const noexcept;
 	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::vector<std::string_view> getRequestLines() const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
 	void outputGetRequestDeclaration(std::ostream& headerFile) const noexcept;
-	bool outputResponseFieldType(std::ostream& headerFile, const ResponseField& responseField,
-		size_t indent = 0) const noexcept;
+	bool outputResponseFieldType(std::ostream& headerFile, std::string_view currentScope,
+		const ResponseField& responseField, size_t indent = 0) const noexcept;
 
 	bool outputSource() const noexcept;
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index d3d8753..29cf36f 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -140,7 +140,7 @@ const std::string& Generator::getFullNamespace() const noexcept
 }
 
 std::string Generator::getResponseFieldCppType(
-	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
+	const ResponseField& responseField, std::string_view currentScope) const noexcept
 {
 	std::string result;
 
@@ -152,13 +152,15 @@ std::string Generator::getResponseFieldCppType(
 		{
 			std::ostringstream oss;
 
-			if (!currentScope.empty())
+			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
+			result = SchemaLoader::getSafeCppName(oss.str());
+
+			// A nested struct cannot have the same name as the struct which declares it.
+			if (result == currentScope.substr(currentScope.rfind(':') + 1))
 			{
-				oss << currentScope << R"cpp(::)cpp";
+				result.append(R"cpp(_)cpp");
 			}
 
-			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
-			result = SchemaLoader::getSafeCppName(oss.str());
 			break;
 		}
 
@@ -169,6 +171,31 @@ std::string Generator::getResponseFieldCppType(
 	return result;
 }
 
+std::string Generator::getQualifiedResponseFieldCppType(
+	const ResponseField& responseField, std::string_view currentScope) const noexcept
+{
+	auto result = getResponseFieldCppType(responseField, currentScope);
+
+	switch (responseField.type->kind())
+	{
+		case introspection::TypeKind::OBJECT:
+		case introspection::TypeKind::INTERFACE:
+		case introspection::TypeKind::UNION:
+		{
+			std::ostringstream oss;
+
+			oss << currentScope << R"cpp(::)cpp" << result;
+			result = oss.str();
+			break;
+		}
+
+		default:
+			break;
+	}
+
+	return result;
+}
+
 std::string Generator::getVariableCppType(const RequestSchemaType& type) const noexcept
 {
 	std::ostringstream oss;
@@ -333,6 +360,8 @@ response::Value serializeVariables(Variables&& variables);
 
 	const auto& responseType = _requestLoader.getResponseType();
 
+	constexpr auto responseScope = R"cpp(Response)cpp"sv;
+
 	headerFile << R"cpp(struct Response
 {)cpp";
 
@@ -342,7 +371,7 @@ response::Value serializeVariables(Variables&& variables);
 	{
 		pendingSeparator.reset();
 
-		if (outputResponseFieldType(headerFile, responseField, 1))
+		if (outputResponseFieldType(headerFile, responseScope, responseField, 1))
 		{
 			pendingSeparator.add();
 		}
@@ -353,7 +382,8 @@ response::Value serializeVariables(Variables&& variables);
 		pendingSeparator.reset();
 
 		headerFile << R"cpp(	)cpp"
-				   << RequestLoader::getOutputCppType(getResponseFieldCppType(responseField),
+				   << RequestLoader::getOutputCppType(
+						  getResponseFieldCppType(responseField, responseScope),
 						  responseField.modifiers)
 				   << R"cpp( )cpp" << responseField.cppName << R"cpp( {};
 )cpp";
@@ -401,7 +431,7 @@ const peg::ast& GetRequestObject() noexcept;
 )cpp";
 }
 
-bool Generator::outputResponseFieldType(std::ostream& headerFile,
+bool Generator::outputResponseFieldType(std::ostream& headerFile, std::string_view currentScope,
 	const ResponseField& responseField, size_t indent /* = 0 */) const noexcept
 {
 	switch (responseField.type->kind())
@@ -418,11 +448,11 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 	}
 
 	const std::string indentTabs(indent, '\t');
+	const auto cppType = getResponseFieldCppType(responseField, currentScope);
 	std::unordered_set<std::string_view> fieldNames;
 	PendingBlankLine pendingSeparator { headerFile };
 
-	headerFile << indentTabs << R"cpp(struct )cpp" << getResponseFieldCppType(responseField)
-			   << R"cpp(
+	headerFile << indentTabs << R"cpp(struct )cpp" << cppType << R"cpp(
 )cpp" << indentTabs
 			   << R"cpp({)cpp";
 
@@ -437,7 +467,7 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				pendingSeparator.reset();
 
 				if (fieldNames.emplace(field.name).second
-					&& outputResponseFieldType(headerFile, field, indent + 1))
+					&& outputResponseFieldType(headerFile, cppType, field, indent + 1))
 				{
 					pendingSeparator.add();
 				}
@@ -452,7 +482,8 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				if (fieldNames.emplace(field.name).second)
 				{
 					headerFile << indentTabs << R"cpp(	)cpp"
-							   << RequestLoader::getOutputCppType(getResponseFieldCppType(field),
+							   << RequestLoader::getOutputCppType(
+									  getResponseFieldCppType(field, cppType),
 									  field.modifiers)
 							   << R"cpp( )cpp" << field.cppName << R"cpp( {};
 )cpp";
@@ -696,7 +727,7 @@ Response parseResponse(response::Value&& response)
 			{
 				result.)cpp"
 					   << responseField.cppName << R"cpp( = ModifiedResponse<)cpp"
-					   << getResponseFieldCppType(responseField, currentScope)
+					   << getQualifiedResponseFieldCppType(responseField, currentScope)
 					   << R"cpp(>::parse)cpp" << getTypeModifierList(responseField.modifiers)
 					   << R"cpp((std::move(member.second));
 				continue;
@@ -759,11 +790,7 @@ const peg::ast& GetRequestObject() noexcept
 bool Generator::outputModifiedResponseImplementation(std::ostream& sourceFile,
 	const std::string& outerScope, const ResponseField& responseField) const noexcept
 {
-	std::ostringstream oss;
-
-	oss << outerScope << R"cpp(::)cpp" << getResponseFieldCppType(responseField);
-
-	const auto cppType = oss.str();
+	const auto cppType = getQualifiedResponseFieldCppType(responseField, outerScope);
 	std::unordered_set<std::string_view> fieldNames;
 
 	switch (responseField.type->kind())
@@ -822,7 +849,8 @@ template <>
 			{
 				result.)cpp" << field.cppName
 							   << R"cpp( = ModifiedResponse<)cpp"
-							   << getResponseFieldCppType(field, cppType) << R"cpp(>::parse)cpp"
+							   << getQualifiedResponseFieldCppType(field, cppType)
+							   << R"cpp(>::parse)cpp"
 							   << getTypeModifierList(field.modifiers)
 							   << R"cpp((std::move(member.second));
 				continue;
-- 
2.43.0


From bb9e705f61da78a4e7b08cbce77f447c11e57f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:50 +0000
Subject: [PATCH 55/56] fix: an object which fails in a list takes only its own
 element with it

---
 src/GraphQLService.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1e8fd84..4ff0e9c 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -793,7 +793,15 @@ std::future<ResolverResult> ModifiedResult<Object>::convert(
 
 	std::promise<ResolverResult> promise;
 
-	promise.set_value(buildResult(std::move(result), std::move(params)));
+	try
+	{
+		promise.set_value(buildResult(std::move(result), std::move(params)));
+	}
+	catch (...)
+	{
+		// A failing object in a list should not take the rest of the list with it.
+		promise.set_exception(std::current_exception());
+	}
 
 	return promise.get_future();
 }
-- 
2.43.0


From fca23d4b00da6a84e12b964f62f9ea5e9dea5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 56/56] fix: generators report success although they could not
 write their files

---
 include/ClientGenerator.h |  2 +-
 include/SchemaGenerator.h |  4 ++--
 src/ClientGenerator.cpp   | 19 +++++++++++++------
 src/SchemaGenerator.cpp   | 36 +++++++++++++++++++++++++++++-------
 4 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 5afb07c..59c42ed 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -31,7 +31,7 @@ public:
 		SchemaOptions&& schemaOptions, RequestOptions&& requestOptions, GeneratorOptions&& options);
 
 	// Run the generator and return a list of filenames that were output.
-	std::vector<std::string> Build() const noexcept;
+	std::vector<std::string> Build() const;
 
 private:
 	std::string getHeaderDir() const noexcept;
diff --git a/include/SchemaGenerator.h b/include/SchemaGenerator.h
index 1b61728..cb8c3fe 100644
--- a/include/SchemaGenerator.h
+++ b/include/SchemaGenerator.h
@@ -32,7 +32,7 @@ public:
 	explicit Generator(std::optional<SchemaOptions>&& customSchema, GeneratorOptions&& options);
 
 	// Run the generator and return a list of filenames that were output.
-	std::vector<std::string> Build() const noexcept;
+	std::vector<std::string> Build() const;
 
 private:
 	std::string getHeaderDir() const noexcept;
@@ -62,7 +62,7 @@ private:
 	std::string getIntrospectionType(
 		std::string_view type, const TypeModifierStack& modifiers) const noexcept;
 
-	std::vector<std::string> outputSeparateFiles() const noexcept;
+	std::vector<std::string> outputSeparateFiles() const;
 
 	static const std::string s_currentDirectory;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 29cf36f..30dbe72 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -229,20 +229,27 @@ std::vector<std::string_view> Generator::getRequestLines() const noexcept
 	return lines;
 }
 
-std::vector<std::string> Generator::Build() const noexcept
+std::vector<std::string> Generator::Build() const
 {
 	std::vector<std::string> builtFiles;
 
-	if (outputHeader() && _options.verbose)
+	if (!outputHeader())
+	{
+		throw std::runtime_error("Failed to write file: " + _headerPath);
+	}
+
+	if (_options.verbose)
 	{
 		builtFiles.push_back(_headerPath);
 	}
 
-	if (outputSource())
+	if (!outputSource())
 	{
-		builtFiles.push_back(_sourcePath);
+		throw std::runtime_error("Failed to write file: " + _sourcePath);
 	}
 
+	builtFiles.push_back(_sourcePath);
+
 	return builtFiles;
 }
 
@@ -397,7 +404,7 @@ Response parseResponse(response::Value&& response);
 	pendingSeparator.add();
 	pendingSeparator.reset();
 
-	return true;
+	return !headerFile.fail();
 }
 
 void Generator::outputRequestComment(std::ostream& headerFile) const noexcept
@@ -745,7 +752,7 @@ Response parseResponse(response::Value&& response)
 
 	pendingSeparator.reset();
 
-	return true;
+	return !sourceFile.fail();
 }
 
 void Generator::outputGetRequestImplementation(std::ostream& sourceFile) const noexcept
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 1585b9c..4d4dc3e 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -112,20 +112,27 @@ std::string Generator::getSourcePath() const noexcept
 	return fullPath.string();
 }
 
-std::vector<std::string> Generator::Build() const noexcept
+std::vector<std::string> Generator::Build() const
 {
 	std::vector<std::string> builtFiles;
 
-	if (outputHeader() && _options.verbose)
+	if (!outputHeader())
+	{
+		throw std::runtime_error("Failed to write file: " + _headerPath);
+	}
+
+	if (_options.verbose)
 	{
 		builtFiles.push_back(_headerPath);
 	}
 
-	if (outputSource())
+	if (!outputSource())
 	{
-		builtFiles.push_back(_sourcePath);
+		throw std::runtime_error("Failed to write file: " + _sourcePath);
 	}
 
+	builtFiles.push_back(_sourcePath);
+
 	if (_options.separateFiles)
 	{
 		auto separateFiles = outputSeparateFiles();
@@ -439,7 +446,7 @@ GRAPHQLINTROSPECTION_EXPORT )cpp"
 )cpp";
 	}
 
-	return true;
+	return !headerFile.fail();
 }
 
 void Generator::outputObjectDeclaration(
@@ -1333,7 +1340,7 @@ Operations::Operations()cpp";
 )cpp";
 	}
 
-	return true;
+	return !sourceFile.fail();
 }
 
 void Generator::outputObjectImplementation(
@@ -2027,7 +2034,7 @@ std::string Generator::getIntrospectionType(
 	return introspectionType.str();
 }
 
-std::vector<std::string> Generator::outputSeparateFiles() const noexcept
+std::vector<std::string> Generator::outputSeparateFiles() const
 {
 	std::vector<std::string> files;
 	const fs::path headerDir(_headerDir);
@@ -2061,6 +2068,11 @@ std::vector<std::string> Generator::outputSeparateFiles() const noexcept
 )cpp";
 	}
 
+	if (objectHeaderFile.fail())
+	{
+		throw std::runtime_error("Failed to write file: " + _objectHeaderPath);
+	}
+
 	if (_options.verbose)
 	{
 		files.push_back({ _objectHeaderPath });
@@ -2094,6 +2106,11 @@ std::vector<std::string> Generator::outputSeparateFiles() const noexcept
 		outputObjectDeclaration(headerFile, objectType, isQueryType);
 		headerFile << std::endl;
 
+		if (headerFile.fail())
+		{
+			throw std::runtime_error("Failed to write file: " + headerPath);
+		}
+
 		if (_options.verbose)
 		{
 			files.push_back(std::move(headerPath));
@@ -2143,6 +2160,11 @@ using namespace std::literals;
 
 )cpp";
 
+		if (sourceFile.fail())
+		{
+			throw std::runtime_error("Failed to write file: " + sourcePath);
+		}
+
 		files.push_back(std::move(sourcePath));
 	}
 
-- 
2.43.0

