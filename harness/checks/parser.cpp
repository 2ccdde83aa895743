// C11 grammar to tree, C12 any bytes.
#include "gram.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/Grammar.h"

#include <algorithm>
#include <fstream>

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace graphql;
using namespace h;

namespace {

using IsType = bool (*)(const peg::ast_node&);

template <typename T>
bool isType(const peg::ast_node& n)
{
	return n.is_type<T>();
}

#define NODE(name) { #name, &isType<peg::name> }
const std::vector<std::pair<const char*, IsType>> c_nodes {
	NODE(operation_type), NODE(list_value), NODE(object_field_name), NODE(object_field),
	NODE(object_value), NODE(variable_value), NODE(integer_value), NODE(float_value),
	NODE(escaped_unicode), NODE(escaped_char), NODE(string_quote_character),
	NODE(block_escape_sequence), NODE(block_quote_character), NODE(string_value),
	NODE(true_keyword), NODE(false_keyword), NODE(null_keyword), NODE(enum_value),
	NODE(field_name), NODE(argument_name), NODE(argument), NODE(arguments), NODE(directive_name),
	NODE(directive), NODE(directives), NODE(variable), NODE(scalar_name), NODE(named_type),
	NODE(list_type), NODE(nonnull_type), NODE(default_value), NODE(operation_definition),
	NODE(fragment_definition), NODE(schema_definition), NODE(scalar_type_definition),
	NODE(object_type_definition), NODE(interface_type_definition), NODE(union_type_definition),
	NODE(enum_type_definition), NODE(input_object_type_definition), NODE(directive_definition),
	NODE(schema_extension), NODE(scalar_type_extension), NODE(object_type_extension),
	NODE(interface_type_extension), NODE(union_type_extension), NODE(enum_type_extension),
	NODE(input_object_type_extension), NODE(description), NODE(object_name),
	NODE(interface_name), NODE(union_name), NODE(enum_name), NODE(root_operation_definition),
	NODE(interface_type), NODE(input_field_definition), NODE(input_fields_definition),
	NODE(arguments_definition), NODE(field_definition), NODE(fields_definition),
	NODE(union_type), NODE(enum_value_definition), NODE(directive_location),
	NODE(operation_type_definition), NODE(variable_name), NODE(alias_name), NODE(operation_name),
	NODE(fragment_name), NODE(field), NODE(fragment_spread), NODE(inline_fragment),
	NODE(selection_set), NODE(type_condition),
};

const char* typeOf(const peg::ast_node& n)
{
	for (const auto& [name, is] : c_nodes)
		if (is(n))
			return name;
	return "?";
}

bool isPiece(const std::string& type)
{
	return type == "escaped_unicode" || type == "escaped_char" || type == "string_quote_character"
		|| type == "block_escape_sequence" || type == "block_quote_character" || type == "?";
}

// Line and column (1 based, in bytes) of an offset.
std::pair<size_t, size_t> lineColumn(std::string_view text, size_t offset)
{
	size_t line = 1, start = 0;
	for (size_t i = 0; i < offset && i < text.size(); ++i)
		if (text[i] == '\n')
		{
			++line;
			start = i + 1;
		}
	return { line, offset - start + 1 };
}

struct Comparison
{
	const GDoc& doc;
	const Ctx& ctx;
	size_t nodes = 0;

	[[noreturn]] void fail(const std::string& path, const std::string& what) const
	{
		ctx.fail(cat(path, ": ", what, "\n  document: ", escape(doc.text)));
	}

	void compare(const peg::ast_node& actual, const GNode& expected, const std::string& path)
	{
		++nodes;
		const std::string type = typeOf(actual);
		if (type != expected.type)
			fail(path, cat("is ", type, " instead of ", expected.type));
		const auto& first = doc.tokens.at(expected.first);
		const auto& last = doc.tokens.at(expected.last - 1);
		const size_t lo = first.offset + expected.skip;
		const auto begin = actual.begin();
		const size_t offset = begin.byte;
		const size_t minimum = expected.afterPrevious ? doc.tokens.at(expected.first - 1).offset + 3 : lo;
		if (offset < minimum || offset > lo)
			fail(path, cat(type, " begins at byte ", offset, " instead of ", lo));
		const auto lc = lineColumn(doc.text, offset);
		// A byte order mark at the start does not count as a column.
		const size_t bom = lc.first == 1 && doc.text.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0;
		if (begin.line != lc.first || (begin.column != lc.second && begin.column + bom != lc.second))
			fail(path, cat(type, " is reported at ", begin.line, ":", begin.column, " instead of ", lc.first, ":", lc.second));
		if (expected.leaf)
		{
			const size_t end = last.offset + last.text.size();
			if (actual.string_view() != std::string_view(doc.text).substr(lo, end - lo))
				fail(path, cat(type, " reads ", escape(actual.string_view()), " instead of ", escape(doc.text.substr(lo, end - lo))));
		}
		if (type == "string_value" || type == "description")
		{
			if (actual.unescaped_view() != expected.decoded)
				fail(path, cat(type, " ", escape(actual.string_view()), " decodes to ", escape(actual.unescaped_view()), " instead of ", escape(expected.decoded)));
			return;
		}
		std::vector<const peg::ast_node*> children;
		for (const auto& child : actual.children)
		{
			children.push_back(child.get());
		}
		compare(children, expected.children, path + "/" + type);
	}

	void compare(const std::vector<const peg::ast_node*>& actual, const std::vector<GNode>& expected, const std::string& path)
	{
		for (size_t i = 0; i < std::min(actual.size(), expected.size()); ++i)
			compare(*actual[i], expected[i], cat(path, "[", i, "]"));
		if (actual.size() != expected.size())
			fail(path, cat("has ", actual.size(), " children instead of ", expected.size()));
	}

	void compareRoot(const peg::ast& tree, const std::vector<GNode>& expected)
	{
		ctx.require(tree.root != nullptr, "no tree");
		std::vector<const peg::ast_node*> children;
		for (const auto& child : tree.root->children)
			children.push_back(child.get());
		compare(children, expected, "");
	}
};

std::string scratchFile()
{
	return cat("/tmp/verif-parser-", getpid(), ".graphql");
}

peg::ast parseVia(int how, const std::string& text)
{
	switch (how)
	{
		case 0: return peg::parseString(text);
		case 1: return peg::parseSchemaString(text);
		default:
		{
			const auto path = scratchFile();
			{
				std::ofstream out(path, std::ios::binary | std::ios::trunc);
				out << text;
			}
			struct Remove
			{
				std::string path;
				~Remove()
				{
					unlink(path.c_str());
				}
			} remove { path };
			return how == 2 ? peg::parseFile(path) : peg::parseSchemaFile(path);
		}
	}
}

void run11(Src& src, Ctx& ctx)
{
	const auto kind = static_cast<DocKind>(src.weighted({ 4, 4, 1 }));
	auto doc = genDocument(src, kind, 4);
	size_t renderings = 0, nodes = 0;
	for (int mode : { 1, 0, 2 })
	{
		render(src, doc, mode);
		if (mode == 1)
			ctx.desc << escape(doc.text);
		int how = kind == DocKind::TypeSystem ? 1 : 0;
		if (mode == 2 && src.coin(1, 6))
			how += 2;
		peg::ast tree;
		try
		{
			tree = parseVia(how, doc.text);
		}
		catch (const std::exception& ex)
		{
			ctx.fail(cat("a document of the grammar is rejected: ", ex.what(), "\n  document: ", escape(doc.text)));
		}
		Comparison c { doc, ctx };
		if (kind == DocKind::Mixed)
		{
			// Executable and type system definitions keep different details, their kinds and order
			// are kept in both readings.
			ctx.require(tree.root && tree.root->children.size() == doc.definitions.size(), "wrong number of definitions in " + escape(doc.text));
			for (size_t i = 0; i < doc.definitions.size(); ++i)
				ctx.require(doc.definitions[i].type == typeOf(*tree.root->children[i]), cat("definition ", i, " is ", typeOf(*tree.root->children[i]), " in ", escape(doc.text)));
			auto second = parseVia(1, doc.text);
			ctx.require(second.root->children.size() == doc.definitions.size(), "wrong number of definitions as a schema in " + escape(doc.text));
			for (size_t i = 0; i < doc.definitions.size(); ++i)
			{
				ctx.require(doc.definitions[i].type == typeOf(*second.root->children[i]), cat("definition ", i, " is ", typeOf(*second.root->children[i]), " as a schema in ", escape(doc.text)));
				if (doc.definitions[i].type == "operation_definition" || doc.definitions[i].type == "fragment_definition")
				{
					Comparison e { doc, ctx };
					e.compare(*tree.root->children[i], doc.definitions[i], cat("[", i, "]"));
				}
			}
		}
		else
		{
			c.compareRoot(tree, doc.definitions);
			if (mode == 2)
			{
				// The recogniser agrees with the generator, so C12 can trust it.
				size_t at = 0;
				if (recognise(doc.text, &at) != Verdict::Accept)
					throw std::logic_error(cat("the reference recogniser rejects a generated document at ", at, ": ", escape(doc.text)));
			}
		}
		nodes += c.nodes;
		++renderings;
	}
	ctx.nontrivial = doc.tokens.size() >= 8 && (kind == DocKind::Mixed || nodes >= 15);
	ctx.label(kind == DocKind::Executable ? "executable" : kind == DocKind::TypeSystem ? "type system" : "mixed");
	ctx.label("nodes compared", nodes);
}

// --------------------------------------------------------------------------------------------

// The text at the end of a page that is followed by an inaccessible one (or right after one).
class Guarded
{
public:
	Guarded(std::string_view text, bool atEnd)
	{
		const size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
		const size_t body = (text.size() / page + 1) * page;
		_size = body + 2 * page;
		_base = static_cast<char*>(mmap(nullptr, _size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (_base == MAP_FAILED)
			throw std::bad_alloc();
		mprotect(_base, page, PROT_NONE);
		mprotect(_base + page + body, page, PROT_NONE);
		_text = atEnd ? _base + page + body - text.size() : _base + page;
		std::memcpy(_text, text.data(), text.size());
	}
	~Guarded()
	{
		munmap(_base, _size);
	}
	const char* data() const
	{
		return _text;
	}

private:
	char* _base;
	char* _text;
	size_t _size;
};

struct Outcome
{
	bool accepted = false;
	std::string tree; // of the accepted
	std::string error;
	size_t line = 0, column = 0, byte = 0;
};

void dump(const peg::ast_node& n, std::string& out)
{
	out += typeOf(n);
	out += cat("@", n.begin().byte, ":", n.begin().line, ":", n.begin().column, "'", n.string_view(), "'(");
	for (const auto& c : n.children)
		dump(*c, out);
	out += ")";
}

// Every node lies inside the input.
void checkRanges(const Ctx& ctx, const peg::ast_node& n, size_t size)
{
	for (const auto& c : n.children)
	{
		const auto b = c->begin().byte;
		ctx.require(b <= size && b + c->string_view().size() <= size, cat("node ", typeOf(*c), " reaches outside of the input"));
		checkRanges(ctx, *c, size);
	}
}

template <typename F>
Outcome outcome(const Ctx& ctx, const std::string& text, const char* entry, F&& parse)
{
	Outcome o;
	try
	{
		peg::ast tree = parse();
		ctx.require(tree.root != nullptr, cat(entry, ": no tree and no error"));
		o.accepted = true;
		checkRanges(ctx, *tree.root, text.size());
		for (const auto& c : tree.root->children)
			dump(*c, o.tree);
	}
	catch (const peg::parse_error& ex)
	{
		o.error = ex.what();
		ctx.require(!ex.positions().empty(), cat(entry, ": a syntax error without a position: ", ex.what()));
		const auto& p = ex.positions().front();
		o.line = p.line;
		o.column = p.column;
		o.byte = p.byte;
		ctx.require(o.byte <= text.size(), cat(entry, ": a syntax error at byte ", o.byte, " of ", text.size()));
		const auto lc = lineColumn(text, o.byte);
		const size_t bom = lc.first == 1 && text.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0;
		ctx.require(o.line == lc.first && (o.column == lc.second || o.column + bom == lc.second),
			cat(entry, ": a syntax error at byte ", o.byte, " is reported at ", o.line, ":", o.column, " instead of ", lc.first, ":", lc.second));
	}
	return o;
}

std::string mutate(Src& src, std::string text, const GDoc& doc)
{
	static const std::vector<std::string> tokens { "{", "}", "(", ")", "[", "]", ":", "=", "!", "|", "&", "@", "$", "...", "\"", "\"\"\"", "\\", "\\u", "\\uD800", "\\\"\"\"", "#", ",", " ", "\n", "\r", "\r\n", "\t", "\xEF\xBB\xBF", "on", "query", "fragment", "type", "extend", "schema", "true", "null", "0", "-", "1.5", ".", "e", "1e", "00", "\v", "\f", std::string(1, '\0'), "\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98\x80", "\xED\xA0\x80", "\xFF", "..", "-1", "a", "{a}", "\"x\"" };
	for (size_t i = 0, n = src.size(1, 4); i < n; ++i)
	{
		switch (src.weighted({ 4, 3, 3, 2, 2, 1 }))
		{
			case 0: // insert a token
				text.insert(src.below(text.size() + 1), src.pick(tokens));
				break;
			case 1: // delete a piece
				if (!text.empty())
				{
					const auto at = src.below(text.size());
					text.erase(at, src.size(1, 6));
				}
				break;
			case 2: // change a byte
				if (!text.empty())
					text[src.below(text.size())] = static_cast<char>(src.coin(1, 3) ? src.below(256) : 32 + src.below(95));
				break;
			case 3: // cut
				text.resize(src.below(text.size() + 1));
				break;
			case 4: // duplicate a piece
				if (!text.empty())
				{
					const auto at = src.below(text.size());
					text.insert(src.below(text.size() + 1), text.substr(at, src.size(1, 12)));
				}
				break;
			case 5: // swap neighbours
				if (text.size() > 1)
				{
					const auto at = src.below(text.size() - 1);
					std::swap(text[at], text[at + 1]);
				}
				break;
		}
	}
	return text;
}

// Token level: drop, repeat or replace whole tokens, so that the text stays lexically valid.
std::string mutateTokens(Src& src, const GDoc& doc)
{
	auto toks = doc.tokens;
	static const std::vector<std::string> all { "{", "}", "(", ")", "[", "]", ":", "=", "!", "|", "&", "@d", "$v", "...", "on", "query", "mutation", "fragment", "type", "interface", "union", "enum", "input", "scalar", "schema", "directive", "extend", "implements", "true", "false", "null", "name", "1", "1.5", "\"s\"", "\"\"\"b\"\"\"", "FIELD" };
	for (size_t i = 0, n = src.size(1, 3); i < n && !toks.empty(); ++i)
	{
		const auto at = src.below(toks.size());
		switch (src.below(5))
		{
			case 0: toks.erase(toks.begin() + static_cast<ptrdiff_t>(at)); break;
			case 1: toks.insert(toks.begin() + static_cast<ptrdiff_t>(at), toks[at]); break;
			case 2: toks[at].text = src.pick(all); break;
			case 3: toks.insert(toks.begin() + static_cast<ptrdiff_t>(at), Tok { src.pick(all) }); break;
			case 4: std::swap(toks[at], toks[src.below(toks.size())]); break;
		}
	}
	std::string text;
	for (const auto& t : toks)
		text += t.text + " ";
	return text;
}

std::string soup(Src& src)
{
	static const std::vector<std::string> pieces { "{", "}", "(", ")", "a", "b", ":", " ", "[", "]", "\"", "...", "on", "$a", "@d", "query", "type", "1", "-1.5e3", "!", "=", "|", "enum", "extend", "schema", "\n", "#", "\"\"\"", "\\", "input", "true" };
	std::string text;
	for (size_t i = 0, n = src.size(0, 30); i < n; ++i)
		if (src.coin(1, 10))
			text += static_cast<char>(src.below(256));
		else
			text += src.pick(pieces) + (src.coin() ? " " : "");
	return text;
}

void check12(Ctx& ctx, Src* src, const std::string& text)
{
	size_t at = 0;
	const auto verdict = recognise(text, &at);
	const auto executable = outcome(ctx, text, "parseString", [&] { return peg::parseString(text); });
	const auto schema = outcome(ctx, text, "parseSchemaString", [&] { return peg::parseSchemaString(text); });
	ctx.require(executable.accepted == schema.accepted, cat("parseString ", executable.accepted ? "accepts" : "rejects", " but parseSchemaString ", schema.accepted ? "accepts" : "rejects", ": ", escape(text)));
	if (verdict != Verdict::Either)
	{
		ctx.require(executable.accepted == (verdict == Verdict::Accept),
			executable.accepted ? cat("accepted, but not in the grammar from byte ", at, " on: ", escape(text)) : cat("rejected (", executable.error, "), but in the grammar: ", escape(text)));
	}
	// The same text with nothing readable around it.
	for (bool end : { true, false })
	{
		Guarded guarded(text, end);
		const auto literal = outcome(ctx, text, "operator\"\"_graphql", [&] { return operator""_graphql(guarded.data(), text.size()); });
		ctx.require(literal.accepted == executable.accepted && literal.tree == executable.tree && literal.error == executable.error, "the literal operator and parseString disagree: " + escape(text));
	}
	if (src && src->coin(1, 16) && !text.empty())
	{
		for (int how : { 2, 3 })
		{
			const auto& expected = how == 2 ? executable : schema;
			const auto file = outcome(ctx, text, how == 2 ? "parseFile" : "parseSchemaFile", [&] { return parseVia(how, text); });
			ctx.require(file.accepted == expected.accepted && file.tree == expected.tree && file.byte == expected.byte, "reading from a file and from memory disagree: " + escape(text));
		}
		ctx.label("via files");
	}
	ctx.label(verdict == Verdict::Accept ? "in the grammar" : verdict == Verdict::Reject ? "not in the grammar" : "either");
	if (verdict == Verdict::Reject && !executable.accepted)
	{
		ctx.label(executable.byte + 12 >= at && executable.byte <= at + 12 ? "error near the reference's" : "error elsewhere");
	}
	ctx.nontrivial = text.size() >= 8 && at >= 3;
}

void run12(Src& src, Ctx& ctx)
{
	std::string text;
	switch (src.weighted({ 5, 5, 2, 2 }))
	{
		case 0:
		{
			auto doc = genDocument(src, static_cast<DocKind>(src.below(3)), 2);
			render(src, doc, static_cast<int>(src.below(3)));
			text = mutate(src, doc.text, doc);
			break;
		}
		case 1:
		{
			auto doc = genDocument(src, static_cast<DocKind>(src.below(3)), 2);
			text = mutateTokens(src, doc);
			break;
		}
		case 2: text = soup(src); break;
		case 3:
		{
			auto doc = genDocument(src, static_cast<DocKind>(src.below(3)), 3);
			render(src, doc, static_cast<int>(src.below(3)));
			text = doc.text;
			break;
		}
	}
	ctx.desc << escape(text);
	check12(ctx, &src, text);
}

// Runs in a child with a bounded stack and time: true when it ended normally.
template <typename F>
bool survives(F&& f)
{
	const auto pid = fork();
	if (pid == 0)
	{
		rlimit core { 0, 0 };
		setrlimit(RLIMIT_CORE, &core);
		alarm(30);
		try
		{
			f();
		}
		catch (const std::exception&)
		{
		}
		_exit(0);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

std::string nested(const std::string& open, const std::string& inner, const std::string& close, size_t n)
{
	std::string s;
	for (size_t i = 0; i < n; ++i)
		s += open;
	s += inner;
	for (size_t i = 0; i < n; ++i)
		s += close;
	return s;
}

struct Register
{
	Register()
	{
		Property p11;
		p11.id = "C11";
		p11.rule = "at least 8 tokens and 15 compared nodes (mixed documents: 8 tokens)";
		p11.run = run11;
		p11.quickCases = 60000;
		p11.thoroughCases = 1000000;
		p11.assumptions = { "SourceCharacter ends at U+FFFF as in the June 2018 grammar the library names", "columns count bytes" };
		p11.known.push_back({ "sigil-gap", "{a(b:$ c)} and {a @ b} are in the grammar but rejected (ignored tokens after $ and @)", [] {
								 try
								 {
									 peg::parseString("{a(b:$ c)}");
									 peg::parseString("{a @ b}");
									 return false;
								 }
								 catch (const std::exception&)
								 {
									 return true;
								 }
							 } });
		add(std::move(p11));

		Property p12;
		p12.id = "C12";
		p12.rule = "at least 8 bytes, the reference recogniser gets past byte 2 or accepts";
		p12.run = run12;
		p12.quickCases = 120000;
		p12.thoroughCases = 3000000;
		p12.hangSeconds = 60;
		for (const auto& [name, text] : std::vector<std::pair<std::string, std::string>> {
				 { "empty input", "" },
				 { "nested list type", "query($a:" + nested("[", "Int", "]", 60) + "){a}" },
				 { "nested non-null list type", "query($a:" + nested("[", "Int", "!]", 60) + "){a}" },
				 { "unclosed list type", "query($a:" + nested("[", "Int", "", 60) + "){a}" },
				 { "nested lists", "{a(b:" + nested("[", "1", "]", 100) + ")}" },
				 { "nested objects", "{a(b:" + nested("{c:", "1", "}", 100) + ")}" },
				 { "nested selections", nested("{a", "", "}", 100) },
				 { "nested inline fragments", "{" + nested("...{", "a", "}", 100) + "}" },
				 { "many open brackets", nested("[", "", "", 100) },
				 { "only ignored tokens", " ,\n\xEF\xBB\xBF#c\r\n" },
				 { "comment at the end", "{a}#c" },
				 { "NUL", std::string("{a\0}", 4) },
			 })
		{
			p12.directed.push_back({ name, [text = text](Ctx& ctx) {
										ctx.desc << escape(text);
										check12(ctx, nullptr, text);
										ctx.nontrivial = true;
									} });
		}
		p12.known.push_back({ "deep-nesting", "parseString overflows the stack on a list value nested 200000 deep", [] {
								 return !survives([] {
									 peg::parseString("{a(b:" + nested("[", "1", "]", 200000) + ")}");
								 });
							 } });
		add(std::move(p12));
	}
} g_register;

} // namespace
