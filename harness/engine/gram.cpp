#include "gram.h"

#include <algorithm>

namespace h {

namespace {

bool nameStart(char c)
{
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
}
bool digit(char c)
{
	return c >= '0' && c <= '9';
}
bool nameChar(char c)
{
	return nameStart(c) || digit(c);
}

} // namespace

std::string blockStringValue(const std::string& raw)
{
	std::vector<std::string> lines { "" };
	for (size_t i = 0; i < raw.size(); ++i)
	{
		if (raw[i] == '\r')
		{
			if (i + 1 < raw.size() && raw[i + 1] == '\n')
				++i;
			lines.emplace_back();
		}
		else if (raw[i] == '\n')
			lines.emplace_back();
		else
			lines.back() += raw[i];
	}
	const auto indentOf = [](const std::string& line) {
		size_t n = 0;
		while (n < line.size() && (line[n] == ' ' || line[n] == '\t'))
			++n;
		return n;
	};
	size_t common = std::string::npos;
	for (size_t i = 1; i < lines.size(); ++i)
	{
		const auto indent = indentOf(lines[i]);
		if (indent < lines[i].size())
			common = std::min(common, indent);
	}
	if (common != std::string::npos)
		for (size_t i = 1; i < lines.size(); ++i)
			lines[i].erase(0, std::min(common, lines[i].size()));
	while (!lines.empty() && indentOf(lines.front()) == lines.front().size())
		lines.erase(lines.begin());
	while (!lines.empty() && indentOf(lines.back()) == lines.back().size())
		lines.pop_back();
	std::string result;
	for (size_t i = 0; i < lines.size(); ++i)
		result += (i ? "\n" : "") + lines[i];
	return result;
}

StringLiteral genStringLiteral(Src& src, bool allowBlock)
{
	StringLiteral r;
	if (allowBlock && src.coin(1, 3))
	{
		r.interesting = true;
		std::string raw;   // after replacing \"""
		std::string text;  // as written
		const size_t pieces = src.size(0, 12);
		for (size_t i = 0; i < pieces; ++i)
		{
			std::string t, v;
			switch (src.weighted({ 6, 5, 4, 2, 1, 1, 1, 1, 1 }))
			{
				case 0:
				{
					uint32_t cp = genCodePoint(src);
					if (cp < 0x20 || cp > 0xFFFF || cp == '"' || cp == '\\')
						cp = 'b';
					t = v = utf8(cp);
					break;
				}
				case 1: t = v = "\n"; break;
				case 2: t = v = std::string(src.size(1, 4), ' '); break;
				case 3: t = v = "\t"; break;
				case 4: t = v = "\r\n"; break;
				case 5: t = v = "\r"; break;
				case 6:
					t = "\\\"\"\"";
					v = "\"\"\"";
					break;
				case 7: t = v = "\\n"; break; // not an escape here
				case 8:
					t = v = src.coin() ? "\"" : "\"\"";
					break;
			}
			// Two quotes must not run into more quotes, and a backslash must not precede """.
			if (!text.empty() && (text.back() == '"' || text.back() == '\\') && (t[0] == '"' || t[0] == '\\'))
			{
				text += 'x';
				raw += 'x';
			}
			text += t;
			raw += v;
		}
		if (!text.empty() && (text.back() == '"' || text.back() == '\\'))
		{
			text += ' ';
			raw += ' ';
		}
		r.text = "\"\"\"" + text + "\"\"\"";
		r.decoded = blockStringValue(raw);
		return r;
	}
	r.text = "\"";
	const size_t pieces = src.size(0, 8);
	for (size_t i = 0; i < pieces; ++i)
	{
		switch (src.weighted({ 6, 3, 3, 1 }))
		{
			case 0:
			{
				uint32_t cp = genCodePoint(src);
				if (cp < 0x20 || cp > 0xFFFF || cp == '"' || cp == '\\')
					cp = 'b';
				r.text += utf8(cp);
				r.decoded += utf8(cp);
				break;
			}
			case 1:
			{
				static const char from[] = "\"\\/bfnrt";
				static const char to[] = "\"\\/\b\f\n\r\t";
				const auto k = src.below(8);
				r.text += std::string("\\") + from[k];
				r.decoded += to[k];
				r.interesting = true;
				break;
			}
			case 2:
			{
				uint32_t cp = genCodePoint(src);
				char buf[32];
				const bool upper = src.coin();
				if (cp > 0xFFFF)
				{
					const uint32_t c = cp - 0x10000;
					std::snprintf(buf, sizeof(buf), upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF));
				}
				else
					std::snprintf(buf, sizeof(buf), upper ? "\\u%04X" : "\\u%04x", cp);
				r.text += buf;
				r.decoded += utf8(cp);
				r.interesting = true;
				break;
			}
			case 3:
			{
				static const std::vector<std::string> plain { " ", "#", ",", "{", "}", "\t", "'", "$", "...", "%s", "\x7f" };
				const auto& p = src.pick(plain);
				r.text += p;
				r.decoded += p;
				break;
			}
		}
	}
	r.text += "\"";
	return r;
}

std::string genIntLiteral(Src& src)
{
	switch (src.weighted({ 4, 2, 1, 1 }))
	{
		case 0: return std::to_string(src.range(0, 20));
		case 1: return std::to_string(genInt32(src));
		case 2: return "-0";
		default: return src.coin() ? "2147483647" : "-2147483648";
	}
}

std::string genFloatLiteral(Src& src)
{
	std::string r = src.coin(1, 3) ? "-" : "";
	r += src.coin() ? "0" : std::to_string(src.range(1, 99999));
	const auto form = src.below(3);
	const auto digits = [&](size_t max) {
		std::string d;
		for (size_t i = 0, n = src.size(1, max); i < n; ++i)
			d += static_cast<char>('0' + src.below(10));
		return d;
	};
	if (form != 1)
		r += "." + digits(8);
	if (form != 0)
	{
		r += src.coin() ? "e" : "E";
		r += std::vector<std::string> { "", "+", "-" }[src.below(3)];
		r += digits(2);
	}
	return r;
}

namespace {

const std::vector<std::string>& names()
{
	static const std::vector<std::string> n { "a", "b", "F", "query", "mutation", "subscription",
		"fragment", "type", "schema", "scalar", "interface", "union", "enum", "input", "directive",
		"extend", "implements", "true", "false", "null", "QUERY", "FIELD", "_", "__typename", "a1",
		"onx", "nullx", "truex", "querys", "on_", "Int", "String", "ID" };
	return n;
}

struct Gen
{
	Src& src;
	std::vector<Tok> toks;
	bool schema = false; // nodes of the schema selector or of the executable one

	size_t pos() const
	{
		return toks.size();
	}
	void punct(const std::string& t)
	{
		toks.push_back({ t, Tok::Punct });
	}
	void word(const std::string& t)
	{
		toks.push_back({ t, Tok::Word });
	}
	std::string someName(bool allowOn = true)
	{
		if (src.coin(1, 3))
		{
			const auto name = genName(src);
			return name == "on" && !allowOn ? "on_" : name;
		}
		if (allowOn && src.coin(1, 30))
			return "on";
		return src.pick(names());
	}

	GNode begin(const std::string& type)
	{
		GNode n;
		n.type = type;
		n.first = pos();
		return n;
	}
	GNode& end(GNode& n)
	{
		n.last = pos();
		return n;
	}
	GNode wordNode(const std::string& type, const std::string& text)
	{
		auto n = begin(type);
		word(text);
		n.leaf = true;
		return end(n);
	}
	GNode nameNode(const std::string& type, bool allowOn = true)
	{
		return wordNode(type, someName(allowOn));
	}

	GNode stringNode(const std::string& type)
	{
		auto n = begin(type);
		auto s = genStringLiteral(src);
		toks.push_back({ s.text, Tok::Str });
		n.decoded = s.decoded;
		n.leaf = true;
		return end(n);
	}

	// variables are not excluded anywhere by the grammar
	GNode value(size_t depth)
	{
		switch (src.weighted({ 4, 3, 3, 2, 1, 2, 2, depth ? 2u : 0u, depth ? 2u : 0u }))
		{
			case 0:
			{
				auto n = begin("integer_value");
				toks.push_back({ genIntLiteral(src), Tok::Number });
				n.leaf = true;
				return end(n);
			}
			case 1: return stringNode("string_value");
			case 2:
			{
				auto n = begin("float_value");
				toks.push_back({ genFloatLiteral(src), Tok::Number });
				n.leaf = true;
				return end(n);
			}
			case 3: return src.coin() ? wordNode("true_keyword", "true") : wordNode("false_keyword", "false");
			case 4: return wordNode("null_keyword", "null");
			case 5: return enumValue();
			case 6:
			{
				auto n = begin("variable_value");
				punct("$");
				word(someName());
				glue();
				n.leaf = true;
				return end(n);
			}
			case 7:
			{
				auto n = begin("list_value");
				punct("[");
				for (size_t i = 0, c = src.size(0, 4); i < c; ++i)
					n.children.push_back(value(depth - 1));
				punct("]");
				return end(n);
			}
			default:
			{
				auto n = begin("object_value");
				punct("{");
				for (size_t i = 0, c = src.size(0, 4); i < c; ++i)
				{
					auto f = begin("object_field");
					f.children.push_back(nameNode("object_field_name"));
					punct(":");
					f.children.push_back(value(depth - 1));
					n.children.push_back(end(f));
				}
				punct("}");
				return end(n);
			}
		}
	}

	// The name of a variable follows its $ directly.
	void glue()
	{
		auto name = toks.back().text;
		toks.pop_back();
		toks.back().text += name;
		toks.back().kind = Tok::Word;
	}

	GNode enumValue()
	{
		auto n = someName();
		while (n == "true" || n == "false" || n == "null")
			n += "_";
		return wordNode("enum_value", n);
	}

	GNode arguments()
	{
		auto n = begin("arguments");
		punct("(");
		for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
		{
			auto a = begin("argument");
			a.children.push_back(nameNode("argument_name"));
			punct(":");
			a.children.push_back(value(3));
			n.children.push_back(end(a));
		}
		punct(")");
		return end(n);
	}

	GNode directives()
	{
		auto n = begin("directives");
		for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
		{
			auto d = begin("directive");
			punct("@");
			word(someName());
			glue();
			auto nm = begin("directive_name");
			nm.first = pos() - 1;
			nm.skip = 1;
			nm.leaf = true;
			d.children.push_back(end(nm));
			if (src.coin(1, 3))
				d.children.push_back(arguments());
			n.children.push_back(end(d));
		}
		return end(n);
	}
	void optDirectives(GNode& n)
	{
		if (src.coin(1, 3))
			n.children.push_back(directives());
	}

	GNode type(size_t depth)
	{
		const bool nonnull = src.coin(1, 3);
		GNode outer;
		if (nonnull)
			outer = begin("nonnull_type");
		GNode inner;
		if (depth && src.coin(1, 3))
		{
			inner = begin("list_type");
			punct("[");
			inner.children.push_back(type(depth - 1));
			punct("]");
			end(inner);
		}
		else
			inner = nameNode("named_type");
		if (!nonnull)
			return inner;
		outer.children.push_back(std::move(inner));
		punct("!");
		return end(outer);
	}

	GNode selectionSet(size_t depth)
	{
		auto n = begin("selection_set");
		punct("{");
		for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
			n.children.push_back(selection(depth));
		punct("}");
		return end(n);
	}

	GNode selection(size_t depth)
	{
		switch (src.weighted({ 6, 2, depth ? 2u : 0u }))
		{
			case 0:
			{
				auto n = begin("field");
				if (src.coin(1, 3))
				{
					n.children.push_back(nameNode("alias_name"));
					punct(":");
				}
				n.children.push_back(nameNode("field_name"));
				if (src.coin(1, 3))
					n.children.push_back(arguments());
				optDirectives(n);
				if (depth && src.coin(1, 3))
					n.children.push_back(selectionSet(depth - 1));
				return end(n);
			}
			case 1:
			{
				punct("...");
				auto n = begin("fragment_spread");
				n.afterPrevious = true;
				n.children.push_back(nameNode("fragment_name", false));
				optDirectives(n);
				return end(n);
			}
			default:
			{
				punct("...");
				auto n = begin("inline_fragment");
				n.afterPrevious = true;
				if (src.coin(2, 3))
					n.children.push_back(typeCondition());
				optDirectives(n);
				n.children.push_back(selectionSet(depth - 1));
				return end(n);
			}
		}
	}

	GNode typeCondition()
	{
		auto n = begin("type_condition");
		word("on");
		n.children.push_back(nameNode("named_type"));
		return end(n);
	}

	GNode operation(bool keyword)
	{
		auto n = begin("operation_definition");
		if (src.coin(1, 3) && !keyword)
		{
			n.children.push_back(selectionSet(3));
			return end(n);
		}
		n.children.push_back(operationType());
		if (src.coin(2, 3))
			n.children.push_back(nameNode("operation_name"));
		if (src.coin(1, 2))
		{
			punct("(");
			for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
			{
				auto v = begin("variable");
				auto vn = begin("variable_name");
				punct("$");
				word(someName());
				glue();
				vn.leaf = true;
				v.children.push_back(end(vn));
				punct(":");
				v.children.push_back(type(4));
				if (src.coin(1, 3))
				{
					auto d = begin("default_value");
					punct("=");
					d.children.push_back(value(3));
					v.children.push_back(end(d));
				}
				n.children.push_back(end(v));
			}
			punct(")");
		}
		optDirectives(n);
		n.children.push_back(selectionSet(3));
		return end(n);
	}

	GNode operationType()
	{
		static const std::vector<std::string> t { "query", "mutation", "subscription" };
		return wordNode("operation_type", src.pick(t));
	}

	GNode fragment()
	{
		auto n = begin("fragment_definition");
		word("fragment");
		n.children.push_back(nameNode("fragment_name", false));
		n.children.push_back(typeCondition());
		optDirectives(n);
		n.children.push_back(selectionSet(3));
		return end(n);
	}

	// Type system.
	void description(GNode& n)
	{
		if (src.coin(1, 4))
			n.children.push_back(stringNode("description"));
	}

	GNode inputFieldDefinition()
	{
		auto n = begin("input_field_definition");
		description(n);
		n.children.push_back(nameNode("argument_name"));
		punct(":");
		n.children.push_back(type(3));
		if (src.coin(1, 3))
		{
			auto d = begin("default_value");
			punct("=");
			d.children.push_back(value(3));
			n.children.push_back(end(d));
		}
		optDirectives(n);
		return end(n);
	}

	GNode argumentsDefinition()
	{
		auto n = begin("arguments_definition");
		punct("(");
		for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
			n.children.push_back(inputFieldDefinition());
		punct(")");
		return end(n);
	}

	GNode fieldsDefinition()
	{
		auto n = begin("fields_definition");
		punct("{");
		for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
		{
			auto f = begin("field_definition");
			description(f);
			f.children.push_back(nameNode("field_name"));
			if (src.coin(1, 3))
				f.children.push_back(argumentsDefinition());
			punct(":");
			f.children.push_back(type(3));
			optDirectives(f);
			n.children.push_back(end(f));
		}
		punct("}");
		return end(n);
	}

	void inputFields(GNode& n)
	{
		auto f = begin("input_fields_definition");
		punct("{");
		for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
			f.children.push_back(inputFieldDefinition());
		punct("}");
		n.children.push_back(end(f));
	}

	void enumValues(GNode& n)
	{
		punct("{");
		for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
		{
			auto v = begin("enum_value_definition");
			description(v);
			v.children.push_back(enumValue());
			optDirectives(v);
			n.children.push_back(end(v));
		}
		punct("}");
	}

	void unionMembers(GNode& n)
	{
		punct("=");
		if (src.coin(1, 3))
			punct("|");
		for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
		{
			if (i)
				punct("|");
			n.children.push_back(nameNode("union_type"));
		}
	}

	void implements(GNode& n)
	{
		word("implements");
		if (src.coin(1, 3))
			punct("&");
		for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
		{
			if (i)
				punct("&");
			n.children.push_back(nameNode("interface_type"));
		}
	}

	void rootOperations(GNode& n, const std::string& nodeType)
	{
		punct("{");
		for (size_t i = 0, c = src.size(1, 3); i < c; ++i)
		{
			auto r = begin(nodeType);
			r.children.push_back(operationType());
			punct(":");
			r.children.push_back(nameNode("named_type"));
			n.children.push_back(end(r));
		}
		punct("}");
	}

	GNode typeSystemDefinition()
	{
		static const std::vector<std::string> kinds { "scalar", "type", "interface", "union", "enum", "input", "schema", "directive" };
		const auto& kind = src.pick(kinds);
		const bool extend = kind != "directive" && src.coin(1, 3);
		static const std::map<std::string, std::string> stem { { "scalar", "scalar_type" }, { "type", "object_type" }, { "interface", "interface_type" }, { "union", "union_type" }, { "enum", "enum_type" }, { "input", "input_object_type" }, { "schema", "schema" }, { "directive", "directive" } };
		static const std::map<std::string, std::string> nameType { { "scalar", "scalar_name" }, { "type", "object_name" }, { "interface", "interface_name" }, { "union", "union_name" }, { "enum", "enum_name" }, { "input", "object_name" } };
		auto n = begin(stem.at(kind) + (extend ? "_extension" : "_definition"));
		if (extend)
			word("extend");
		else if (kind != "schema")
			description(n);
		word(kind);
		if (kind == "directive")
		{
			punct("@");
			word(someName());
			glue();
			auto nm = begin("directive_name");
			nm.first = pos() - 1;
			nm.skip = 1;
			nm.leaf = true;
			n.children.push_back(end(nm));
			if (src.coin(1, 3))
				n.children.push_back(argumentsDefinition());
			word("on");
			if (src.coin(1, 3))
				punct("|");
			static const std::vector<std::string> locations { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
			for (size_t i = 0, c = src.size(1, 4); i < c; ++i)
			{
				if (i)
					punct("|");
				n.children.push_back(wordNode("directive_location", src.pick(locations)));
			}
			return end(n);
		}
		if (kind != "schema")
			n.children.push_back(nameNode(nameType.at(kind)));
		// At least one part in extensions; the schema definition requires its operations.
		bool parts[3] = { kind == "type" && src.coin(1, 3), src.coin(1, 3), kind != "scalar" && src.coin(4, 5) };
		if (kind == "schema" && !extend)
			parts[2] = true;
		if (extend && !parts[0] && !parts[1] && !parts[2])
			parts[1] = true;
		if (parts[0])
			implements(n);
		if (parts[1])
			n.children.push_back(directives());
		if (parts[2])
		{
			if (kind == "type" || kind == "interface")
				n.children.push_back(fieldsDefinition());
			else if (kind == "union")
				unionMembers(n);
			else if (kind == "enum")
				enumValues(n);
			else if (kind == "input")
				inputFields(n);
			else if (kind == "schema")
				rootOperations(n, extend ? "operation_type_definition" : "root_operation_definition");
		}
		return end(n);
	}
};

} // namespace

GDoc genDocument(Src& src, DocKind kind, size_t maxDefinitions)
{
	GDoc doc;
	Gen g { src };
	g.schema = kind == DocKind::TypeSystem;
	for (size_t i = 0, c = src.size(1, maxDefinitions); i < c; ++i)
	{
		const bool typeSystem = kind == DocKind::TypeSystem || (kind == DocKind::Mixed && src.coin());
		if (typeSystem)
		{
			doc.definitions.push_back(g.typeSystemDefinition());
			doc.typeSystem = true;
		}
		else
		{
			// A shorthand would continue a type whose braces are optional.
			auto d = src.coin(1, 3) ? g.fragment() : g.operation(kind == DocKind::Mixed);
			doc.definitions.push_back(std::move(d));
			doc.executable = true;
		}
	}
	doc.tokens = std::move(g.toks);
	return doc;
}

namespace {

bool needsSeparator(const Tok& a, const Tok& b)
{
	const char last = a.text.back(), first = b.text.front();
	if (nameChar(last) && (a.kind == Tok::Word || a.kind == Tok::Number) && nameChar(first))
		return true;
	if (a.kind == Tok::Number && first == '.')
		return true;
	return a.text == "\"\"" && first == '"';
}

std::string ignoredToken(Src& src, bool allowComment)
{
	switch (src.weighted({ 5, 4, 2, 1, 1, 1, 1, allowComment ? 2u : 0u }))
	{
		case 0: return " ";
		case 1: return "\n";
		case 2: return ",";
		case 3: return "\t";
		case 4: return "\r\n";
		case 5: return "\r";
		case 6: return "\xEF\xBB\xBF";
		default:
		{
			static const std::vector<std::string> bodies { "", " comment", "\"", "\"\"\"", "{", "}", "# #", "\xC3\xA9", ",", "@a(b:1)" };
			static const std::vector<std::string> ends { "\n", "\r\n", "\r" };
			return "#" + src.pick(bodies) + src.pick(ends);
		}
	}
}

} // namespace

void render(Src& src, GDoc& doc, int mode)
{
	std::string text;
	if (mode == 2 && src.coin(1, 8))
		text += "\xEF\xBB\xBF";
	const auto gap = [&](const Tok* a, const Tok* b) {
		const bool required = a && b && needsSeparator(*a, *b);
		if (mode == 0)
		{
			if (required)
				text += ' ';
			return;
		}
		if (mode == 1)
		{
			if (a && b)
				text += ' ';
			return;
		}
		size_t n = src.weighted({ 5, 4, 2, 1 });
		if (required && n == 0)
			n = 1;
		for (size_t i = 0; i < n; ++i)
			text += ignoredToken(src, true);
	};
	for (size_t i = 0; i < doc.tokens.size(); ++i)
	{
		gap(i ? &doc.tokens[i - 1] : nullptr, &doc.tokens[i]);
		doc.tokens[i].offset = text.size();
		text += doc.tokens[i].text;
	}
	gap(doc.tokens.empty() ? nullptr : &doc.tokens.back(), nullptr);
	if (mode == 2 && src.coin(1, 8))
		text += "#end";
	doc.text = std::move(text);
}

// ---------------------------------------------------------------------------------------------
// Recogniser: a lexer and a predictive parser, with no code shared with the generator.

namespace {

struct Reject
{
	size_t at;
};

struct Lexed
{
	enum Kind
	{
		End,
		Punct,
		Name,
		Int,
		Float,
		String
	} kind;
	std::string text;
	size_t at;
	size_t end;
};

struct Recogniser
{
	const std::string& s;
	size_t p = 0;
	Lexed tok {};

	explicit Recogniser(const std::string& text)
		: s(text)
	{
		next();
	}

	bool at(size_t i, const char* what) const
	{
		return s.compare(i, std::strlen(what), what) == 0;
	}

	// Length of a well formed source character at i, or 0.
	size_t sourceChar(size_t i) const
	{
		if (i >= s.size())
			return 0;
		const auto c = static_cast<unsigned char>(s[i]);
		if (c == 9 || c == 10 || c == 13 || (c >= 0x20 && c < 0x80))
			return 1;
		const auto cont = [&](size_t k) {
			return k < s.size() && (static_cast<unsigned char>(s[k]) & 0xC0) == 0x80;
		};
		if (c >= 0xC2 && c <= 0xDF && cont(i + 1))
			return 2;
		if ((c & 0xF0) == 0xE0 && cont(i + 1) && cont(i + 2))
		{
			const unsigned cp = ((c & 15u) << 12) | ((static_cast<unsigned char>(s[i + 1]) & 63u) << 6) | (static_cast<unsigned char>(s[i + 2]) & 63u);
			if (cp >= 0x800 && !(cp >= 0xD800 && cp <= 0xDFFF))
				return 3;
		}
		return 0;
	}

	void next()
	{
		for (;;)
		{
			if (p >= s.size())
			{
				tok = { Lexed::End, "", s.size(), s.size() };
				return;
			}
			const char c = s[p];
			if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',')
				++p;
			else if (at(p, "\xEF\xBB\xBF"))
				p += 3;
			else if (c == '#')
				while (p < s.size() && s[p] != '\n' && s[p] != '\r')
					++p;
			else
				break;
		}
		const size_t b = p;
		const char c = s[p];
		if (nameStart(c))
		{
			while (p < s.size() && nameChar(s[p]))
				++p;
			tok = { Lexed::Name, s.substr(b, p - b), b, p };
			return;
		}
		if (digit(c) || c == '-')
		{
			if (c == '-')
				++p;
			if (p >= s.size() || !digit(s[p]))
				throw Reject { p };
			if (s[p] == '0')
				++p;
			else
				while (p < s.size() && digit(s[p]))
					++p;
			bool isFloat = false;
			if (p < s.size() && s[p] == '.')
			{
				isFloat = true;
				++p;
				if (p >= s.size() || !digit(s[p]))
					throw Reject { p };
				while (p < s.size() && digit(s[p]))
					++p;
			}
			if (p < s.size() && (s[p] == 'e' || s[p] == 'E'))
			{
				isFloat = true;
				++p;
				if (p < s.size() && (s[p] == '+' || s[p] == '-'))
					++p;
				if (p >= s.size() || !digit(s[p]))
					throw Reject { p };
				while (p < s.size() && digit(s[p]))
					++p;
			}
			if (p < s.size() && (nameChar(s[p]) || s[p] == '.'))
				throw Reject { p };
			tok = { isFloat ? Lexed::Float : Lexed::Int, s.substr(b, p - b), b, p };
			return;
		}
		if (at(p, "\"\"\""))
		{
			p += 3;
			for (;;)
			{
				if (at(p, "\"\"\""))
					break;
				if (at(p, "\\\"\"\""))
				{
					p += 4;
					continue;
				}
				const auto n = sourceChar(p);
				if (!n)
					throw Reject { p };
				p += n;
			}
			p += 3;
			tok = { Lexed::String, s.substr(b, p - b), b, p };
			return;
		}
		if (c == '"')
		{
			++p;
			unsigned high = 0; // pending high surrogate
			for (;;)
			{
				if (p >= s.size() || s[p] == '\n' || s[p] == '\r')
					throw Reject { p };
				if (s[p] == '\\' && p + 1 < s.size() && s[p + 1] == 'u')
				{
					unsigned cp = 0;
					for (size_t k = 0; k < 4; ++k)
					{
						if (p + 2 + k >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[p + 2 + k])))
							throw Reject { p };
						cp = cp * 16 + static_cast<unsigned>(std::stoi(std::string(1, s[p + 2 + k]), nullptr, 16));
					}
					if (high)
					{
						if (cp < 0xDC00 || cp > 0xDFFF)
							throw Reject { p };
						high = 0;
					}
					else if (cp >= 0xDC00 && cp <= 0xDFFF)
						throw Reject { p };
					else if (cp >= 0xD800 && cp <= 0xDBFF)
						high = cp;
					p += 6;
					continue;
				}
				if (high)
					throw Reject { p };
				if (s[p] == '"')
					break;
				if (s[p] == '\\')
				{
					if (p + 1 >= s.size() || !std::strchr("\"\\/bfnrt", s[p + 1]) || !s[p + 1])
						throw Reject { p };
					p += 2;
					continue;
				}
				const auto n = sourceChar(p);
				if (!n)
					throw Reject { p };
				p += n;
			}
			++p;
			tok = { Lexed::String, s.substr(b, p - b), b, p };
			return;
		}
		if (at(p, "..."))
		{
			p += 3;
			tok = { Lexed::Punct, "...", b, p };
			return;
		}
		if (std::strchr("!$():=@[]{|}&", c) && c)
		{
			++p;
			tok = { Lexed::Punct, std::string(1, c), b, p };
			return;
		}
		throw Reject { p };
	}

	[[noreturn]] void reject() const
	{
		throw Reject { tok.at };
	}
	bool isPunct(const char* t) const
	{
		return tok.kind == Lexed::Punct && tok.text == t;
	}
	bool isWord(const char* t) const
	{
		return tok.kind == Lexed::Name && tok.text == t;
	}
	bool acceptPunct(const char* t)
	{
		if (!isPunct(t))
			return false;
		next();
		return true;
	}
	bool acceptWord(const char* t)
	{
		if (!isWord(t))
			return false;
		next();
		return true;
	}
	void punct(const char* t)
	{
		if (!acceptPunct(t))
			reject();
	}
	void wordIs(const char* t)
	{
		if (!acceptWord(t))
			reject();
	}
	std::string name()
	{
		if (tok.kind != Lexed::Name)
			reject();
		auto n = tok.text;
		next();
		return n;
	}
	// This implementation wants the name of a variable directly after its $, and that of a
	// directive directly after its @ (a known finding of C11).
	bool sigilGap = false;
	bool ambiguous = false;
	void sigilName()
	{
		const auto end = tok.end;
		next();
		if (tok.at != end)
			sigilGap = true;
		name();
	}

	void value()
	{
		switch (tok.kind)
		{
			case Lexed::Int:
			case Lexed::Float:
			case Lexed::String:
			case Lexed::Name: next(); return;
			default: break;
		}
		if (isPunct("$"))
			return sigilName();
		if (acceptPunct("["))
		{
			while (!isPunct("]"))
				value();
			next();
			return;
		}
		if (acceptPunct("{"))
		{
			while (!isPunct("}"))
			{
				name();
				punct(":");
				value();
			}
			next();
			return;
		}
		reject();
	}

	void arguments()
	{
		punct("(");
		do
		{
			name();
			punct(":");
			value();
		} while (!isPunct(")"));
		next();
	}

	bool directives()
	{
		bool any = false;
		while (isPunct("@"))
		{
			any = true;
			sigilName();
			if (isPunct("("))
				arguments();
		}
		return any;
	}

	void type()
	{
		if (acceptPunct("["))
		{
			type();
			punct("]");
		}
		else
			name();
		acceptPunct("!");
	}

	void selectionSet()
	{
		punct("{");
		do
		{
			if (acceptPunct("..."))
			{
				if (isWord("on"))
				{
					next();
					name();
					directives();
					selectionSet();
				}
				else if (tok.kind == Lexed::Name)
				{
					next();
					directives();
				}
				else
				{
					directives();
					selectionSet();
				}
				continue;
			}
			name();
			if (acceptPunct(":"))
				name();
			if (isPunct("("))
				arguments();
			directives();
			if (isPunct("{"))
				selectionSet();
		} while (!isPunct("}"));
		next();
	}

	void inputValueDefinition()
	{
		if (tok.kind == Lexed::String)
			next();
		name();
		punct(":");
		type();
		if (acceptPunct("="))
			value();
		directives();
	}

	void fields()
	{
		punct("{");
		do
		{
			if (tok.kind == Lexed::String)
				next();
			name();
			if (acceptPunct("("))
			{
				do
					inputValueDefinition();
				while (!isPunct(")"));
				next();
			}
			punct(":");
			type();
			directives();
		} while (!isPunct("}"));
		next();
	}

	void rootOperations()
	{
		punct("{");
		do
		{
			operationType();
			punct(":");
			name();
		} while (!isPunct("}"));
		next();
	}

	void operationType()
	{
		if (!isWord("query") && !isWord("mutation") && !isWord("subscription"))
			reject();
		next();
	}

	void definition()
	{
		if (isPunct("{"))
			return selectionSet();
		if (isWord("query") || isWord("mutation") || isWord("subscription"))
		{
			next();
			if (tok.kind == Lexed::Name)
				next();
			if (acceptPunct("("))
			{
				do
				{
					if (!isPunct("$"))
						reject();
					sigilName();
					punct(":");
					type();
					if (acceptPunct("="))
						value();
				} while (!isPunct(")"));
				next();
			}
			directives();
			return selectionSet();
		}
		if (acceptWord("fragment"))
		{
			if (isWord("on"))
				reject();
			name();
			wordIs("on");
			name();
			directives();
			return selectionSet();
		}
		const bool extend = acceptWord("extend");
		const bool described = !extend && tok.kind == Lexed::String;
		if (described)
			next();
		if (acceptWord("schema"))
		{
			if (described)
				reject();
			const bool any = directives();
			if (extend && any && isPunct("{"))
				ambiguous = true; // or is it a query shorthand after the extension?
			if (!extend || isPunct("{") || !any)
				rootOperations();
			return;
		}
		if (!extend && acceptWord("directive"))
		{
			if (!isPunct("@"))
				reject();
			sigilName();
			if (acceptPunct("("))
			{
				do
					inputValueDefinition();
				while (!isPunct(")"));
				next();
			}
			wordIs("on");
			acceptPunct("|");
			do
			{
				static const std::set<std::string> locations { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
				if (tok.kind != Lexed::Name || !locations.count(tok.text))
					reject();
				next();
			} while (acceptPunct("|"));
			return;
		}
		if (tok.kind != Lexed::Name)
			reject();
		const auto kind = tok.text;
		if (kind != "scalar" && kind != "type" && kind != "interface" && kind != "union" && kind != "enum" && kind != "input")
			reject();
		next();
		name();
		bool parts = false;
		if (kind == "type" && acceptWord("implements"))
		{
			parts = true;
			acceptPunct("&");
			do
				name();
			while (acceptPunct("&"));
		}
		parts = directives() || parts;
		if ((kind == "type" || kind == "interface") && isPunct("{"))
		{
			fields();
			parts = true;
		}
		else if (kind == "union" && acceptPunct("="))
		{
			acceptPunct("|");
			do
				name();
			while (acceptPunct("|"));
			parts = true;
		}
		else if (kind == "enum" && acceptPunct("{"))
		{
			do
			{
				if (tok.kind == Lexed::String)
					next();
				if (isWord("true") || isWord("false") || isWord("null"))
					reject();
				name();
				directives();
			} while (!isPunct("}"));
			next();
			parts = true;
		}
		else if (kind == "input" && acceptPunct("{"))
		{
			do
				inputValueDefinition();
			while (!isPunct("}"));
			next();
			parts = true;
		}
		if (extend && !parts)
			reject();
	}

	void document()
	{
		do
			definition();
		while (tok.kind != Lexed::End);
	}
};

} // namespace

Verdict recognise(const std::string& text, size_t* errorOffset)
{
	std::optional<Recogniser> r;
	try
	{
		r.emplace(text);
		r->document();
		return r->sigilGap ? Verdict::Either : Verdict::Accept;
	}
	catch (const Reject& reject)
	{
		if (errorOffset)
			*errorOffset = reject.at;
		return r && r->ambiguous ? Verdict::Either : Verdict::Reject;
	}
}

} // namespace h
