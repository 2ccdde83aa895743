#include "sdl.h"

#include <algorithm>

namespace h {

std::string safeName(const std::string& name)
{
	std::string r;
	for (char c : name)
		if (!(c == '_' && !r.empty() && r.back() == '_'))
			r += c;
	if (r.size() > 1 && r[0] == '_' && r[1] >= 'A' && r[1] <= 'Z')
		r.erase(0, 1);
	return r;
}

std::string upperFirst(std::string name)
{
	if (!name.empty() && name[0] >= 'a' && name[0] <= 'z')
		name[0] = static_cast<char>(name[0] - 'a' + 'A');
	return name;
}

// ---------------------------------------------------------------- names

namespace {

struct Renamer
{
	Src& src;
	std::map<std::string, std::string> types, members;

	// The stem keeps the name distinct: everything else only changes its shape.
	std::string shape(const std::string& stem, bool memberName)
	{
		switch (src.weighted({ 12, 2, 2, 2, 2, 1, 1, 1 }))
		{
			case 1: return stem.substr(0, 1) + "_" + stem.substr(1);
			case 2: return stem + "_";
			case 3: return stem.substr(0, 1) + "__" + stem.substr(1); // reserved in C++
			case 4: return "_" + upperFirst(stem); // reserved in C++
			case 5: return upperFirst(stem) + "LongerNameWhichGoesOn";
			case 6: return stem + "__2__x";
			case 7: return memberName ? "_" + stem : stem;
			default: return stem;
		}
	}
	std::string member(const std::string& name)
	{
		auto& r = members[name];
		if (r.empty())
			r = shape(name, true);
		return r;
	}
	void value(Val& v, const MSchema& m, const TypeRef& type)
	{
		if (v.kind == Val::List)
		{
			for (auto& e : v.list)
				value(e, m, type.lists.empty() ? type : type.element());
			return;
		}
		const auto* t = m.type(type.name);
		if (v.kind == Val::Enum && t && t->kind == Kind::Enum)
		{
			v.text = member(v.text);
			v.value = JV::enumeration(v.text);
		}
		if (v.kind == Val::Object && t && t->kind == Kind::Input)
			for (auto& [n, e] : v.fields)
			{
				for (const auto& in : t->inputs)
					if (in.name == n)
						value(e, m, in.type);
				n = member(n);
			}
	}
};

} // namespace

void renameSchema(Src& src, MSchema& m)
{
	Renamer r { src, {}, {} };
	const MSchema before = m;
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& n = m.types[i].name;
		const bool root = n == "Query" || n == "Mutation" || n == "Subscription";
		r.types[n] = root ? n : r.shape(n, false);
	}
	const auto type = [&](std::string& n) {
		const auto itr = r.types.find(n);
		if (itr != r.types.end())
			n = itr->second;
	};
	const auto inputs = [&](std::vector<InputDef>& defs, bool directive) {
		for (auto& d : defs)
		{
			if (d.def)
				r.value(*d.def, before, d.type);
			type(d.type.name);
			(void)directive;
			d.name = r.member(d.name);
		}
	};
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		auto& t = m.types[i];
		type(t.name);
		for (auto& f : t.fields)
		{
			type(f.type.name);
			f.name = r.member(f.name);
			inputs(f.args, false);
		}
		for (auto& n : t.interfaces)
			type(n);
		for (auto& n : t.members)
			type(n);
		for (auto& v : t.values)
			v.name = r.member(v.name);
		inputs(t.inputs, false);
	}
	for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
		inputs(m.directives[i].args, true);
	for (auto* n : { &m.query, &m.mutation, &m.subscription })
		if (!n->empty())
			type(*n);
}

// ---------------------------------------------------------------- texts

namespace {

std::string quoted(const std::string& text)
{
	std::string r = "\"";
	for (size_t i = 0; i < text.size(); ++i)
	{
		const auto c = static_cast<unsigned char>(text[i]);
		if (c >= 0xf0)
		{
			// The grammar's source characters end at U+FFFF: a surrogate pair stands for the others.
			const auto part = [&](size_t n) { return static_cast<uint32_t>(static_cast<unsigned char>(text[i + n]) & 0x3f); };
			const uint32_t v = ((c & 7u) << 18 | part(1) << 12 | part(2) << 6 | part(3)) - 0x10000;
			char pair[16];
			std::snprintf(pair, sizeof(pair), "\\u%04x\\u%04x", 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff));
			r += pair;
			i += 3;
			continue;
		}
		if (c == '"' || c == '\\')
			r += std::string("\\") + static_cast<char>(c);
		else if (c == '\n')
			r += "\\n";
		else if (c < 0x20 || c == 0x7f)
		{
			char buf[8];
			std::snprintf(buf, sizeof(buf), "\\u%04x", c);
			r += buf;
		}
		else
			r += static_cast<char>(c);
	}
	return r + "\"";
}

struct Writer
{
	Src& src;
	const MSchema& m;
	const SdlOptions& o;
	size_t extensions = 0;

	bool choose(unsigned num, unsigned den)
	{
		return src.coin(num, den);
	}
	std::string gap()
	{
		if (!o.layout)
			return " ";
		switch (src.weighted({ 20, 2, 1, 1, 1 }))
		{
			case 1: return "\n";
			case 2: return " # comment } ] ) \"\n";
			case 3: return "\t, ";
			case 4: return "\r\n";
			default: return " ";
		}
	}
	std::string text(const std::string& d)
	{
		if (o.layout && choose(1, 3))
		{
			// As a block string when it means the same that way.
			auto raw = d;
			for (size_t i = raw.find("\"\"\""); i != std::string::npos; i = raw.find("\"\"\"", i + 4))
				raw.insert(i, "\\");
			const bool odd = raw.empty() || raw.back() == '"' || raw.back() == '\\';
			if (!odd && blockStringValue(raw) == d && std::all_of(d.begin(), d.end(), [](unsigned char c) { return (c >= 0x20 && c < 0xf0) || c == '\n' || c == '\t'; }))
				return "\"\"\"" + raw + "\"\"\"";
		}
		return quoted(d);
	}
	std::string description(const std::string& d)
	{
		return d.empty() ? "" : text(d) + gap();
	}
	std::string deprecated(const std::optional<std::string>& d)
	{
		if (!d)
			return "";
		if (*d == "No longer supported" && choose(1, 2))
			return gap() + "@deprecated";
		return gap() + "@deprecated(" + "reason:" + gap() + text(*d) + ")";
	}
	// Directives of the schema which may be here; they change nothing.
	std::string applied(const char* location, bool some = false)
	{
		std::string r;
		if (!o.layout)
			return r;
		for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
		{
			const auto& d = m.directives[i];
			if (!d.allows(location) || (!(some && r.empty()) && !choose(1, 3)))
				continue;
			r += gap() + "@" + d.name;
			std::string args;
			for (const auto& a : d.args)
				if (a.required() || choose(1, 2))
					args += (args.empty() ? "" : "," + gap()) + a.name + ":" + gap() + genLiteral(src, m, a.type).render();
			if (!args.empty())
				r += "(" + args + ")";
		}
		return r;
	}
	std::string input(const InputDef& d, const char* location)
	{
		auto r = description(d.description) + d.name + ":" + gap() + d.type.text();
		if (d.def)
			r += gap() + "=" + gap() + d.def->render();
		return r + applied(location);
	}
	std::string args(const std::vector<InputDef>& defs)
	{
		if (defs.empty())
			return "";
		std::string r = "(";
		for (size_t i = 0; i < defs.size(); ++i)
			r += (i ? "," + gap() : "") + input(defs[i], "ARGUMENT_DEFINITION");
		return r + ")";
	}
	std::string around(const char* location, const std::optional<std::string>& reason)
	{
		const auto others = applied(location);
		return choose(1, 2) ? others + deprecated(reason) : deprecated(reason) + others;
	}
	std::string field(const FieldDef& f)
	{
		return description(f.description) + f.name + args(f.args) + ":" + gap() + f.type.text() + around("FIELD_DEFINITION", f.deprecated);
	}
	std::string value(const EnumDef& v)
	{
		return description(v.description) + v.name + around("ENUM_VALUE", v.deprecated);
	}
	// Where the members of n parts end: the first part is the definition.
	std::vector<size_t> cut(size_t n, bool emptyFirst)
	{
		std::vector<size_t> ends;
		if (o.extend && n > 0)
			for (size_t i = emptyFirst ? 0 : 1; i < n && ends.size() < 3; ++i)
				if (choose(1, 4))
					ends.push_back(i);
		ends.push_back(n);
		return ends;
	}
	std::string body(const std::vector<std::string>& members, size_t from, size_t to)
	{
		if (from == to)
			return "";
		std::string r = gap() + "{\n";
		for (size_t i = from; i < to; ++i)
			r += "  " + members[i] + (o.layout && choose(1, 5) ? ",\n" : "\n");
		return r + "}";
	}
	void type(const TypeDef& t, std::vector<std::string>& out)
	{
		std::vector<std::string> members;
		const char *keyword = "", *location = "";
		switch (t.kind)
		{
			case Kind::Scalar:
				out.push_back(description(t.description) + "scalar" + gap() + t.name + applied("SCALAR"));
				extendOnly("scalar", t.name, "SCALAR", out);
				return;
			case Kind::Enum:
				keyword = "enum";
				location = "ENUM";
				for (const auto& v : t.values)
					members.push_back(value(v));
				break;
			case Kind::Input:
				keyword = "input";
				location = "INPUT_OBJECT";
				for (const auto& i : t.inputs)
					members.push_back(input(i, "INPUT_FIELD_DEFINITION"));
				break;
			case Kind::Union:
				keyword = "union";
				location = "UNION";
				members = t.members;
				break;
			case Kind::Object:
			case Kind::Interface:
				keyword = t.kind == Kind::Object ? "type" : "interface";
				location = t.kind == Kind::Object ? "OBJECT" : "INTERFACE";
				for (const auto& f : t.fields)
					members.push_back(field(f));
				break;
		}
		const auto ends = cut(members.size(), t.kind == Kind::Object && !t.interfaces.empty() && choose(1, 4));
		const auto interfaceEnds = cut(t.interfaces.size(), true);
		size_t from = 0, interfaceFrom = 0;
		std::vector<std::string> parts;
		for (size_t i = 0; i < std::max(ends.size(), interfaceEnds.size()); ++i)
		{
			const size_t to = i < ends.size() ? ends[i] : members.size();
			const size_t interfaceTo = i < interfaceEnds.size() ? interfaceEnds[i] : t.interfaces.size();
			if (i && from == to && interfaceFrom == interfaceTo)
				continue;
			std::string r = i ? "extend" + gap() : description(t.description);
			r += keyword + gap() + t.name;
			if (t.kind == Kind::Union)
			{
				r += applied(location) + gap() + "=" + gap();
				if (choose(1, 4))
					r += "|" + gap();
				for (size_t k = from; k < to; ++k)
					r += (k > from ? gap() + "|" + gap() : "") + members[k];
			}
			else
			{
				if (interfaceFrom < interfaceTo)
				{
					r += gap() + "implements" + gap();
					if (choose(1, 5))
						r += "&" + gap();
					for (size_t k = interfaceFrom; k < interfaceTo; ++k)
						r += (k > interfaceFrom ? gap() + "&" + gap() : "") + t.interfaces[k];
				}
				r += applied(location) + body(members, from, to);
			}
			parts.push_back(r);
			from = to;
			interfaceFrom = interfaceTo;
			extensions += i > 0;
		}
		for (auto& p : parts)
			out.push_back(std::move(p));
		extendOnly(keyword, t.name, location, out);
	}
	// An extension which only adds directives.
	void extendOnly(const char* keyword, const std::string& name, const char* location, std::vector<std::string>& out)
	{
		if (!o.extend || !choose(1, 4))
			return;
		const auto directives = applied(location, true);
		if (directives.empty())
			return;
		out.push_back("extend" + gap() + keyword + gap() + name + directives);
		++extensions;
	}
};

} // namespace

std::string sdlVariant(Src& src, const MSchema& m, const SdlOptions& options, size_t* extensions)
{
	Writer w { src, m, options };
	std::vector<std::vector<std::string>> groups; // extensions of a type stay in order
	const bool defaults = m.query == "Query" && (m.mutation.empty() || m.mutation == "Mutation") && (m.subscription.empty() || m.subscription == "Subscription");
	if (options.schema || !(defaults && src.coin()))
	{
		std::vector<std::string> ops { "query: " + m.query };
		if (!m.mutation.empty())
			ops.push_back("mutation: " + m.mutation);
		if (!m.subscription.empty())
			ops.push_back("subscription:" + w.gap() + m.subscription);
		const auto ends = w.cut(ops.size(), false);
		size_t from = 0;
		groups.emplace_back();
		for (size_t i = 0; i < ends.size(); ++i)
		{
			if (i && from == ends[i])
				continue;
			groups.back().push_back((i ? "extend schema" : "schema") + w.applied("SCHEMA") + w.body(ops, from, ends[i]));
			w.extensions += i > 0;
			from = ends[i];
		}
	}
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		groups.emplace_back();
		w.type(m.types[i], groups.back());
	}
	for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
	{
		const auto& d = m.directives[i];
		auto r = w.description(d.description) + "directive" + w.gap() + "@" + d.name + w.args(d.args) + w.gap() + "on" + w.gap();
		if (src.coin(1, 4))
			r += "|" + w.gap();
		for (size_t k = 0; k < d.locations.size(); ++k)
			r += (k ? w.gap() + "|" + w.gap() : "") + d.locations[k];
		groups.push_back({ r });
	}
	// The first part of a group is its definition; where the parts go is free, but extensions of one
	// definition keep their order.
	std::vector<std::pair<uint64_t, std::string>> placed;
	for (auto& g : groups)
	{
		std::vector<uint64_t> keys;
		const uint64_t base = options.reorder ? 0 : (placed.size() + 1) * 1000;
		for (size_t i = 0; i < g.size(); ++i)
			keys.push_back(options.reorder ? src.below(1000) : base + i);
		std::sort(keys.begin() + 1, keys.end()); // extensions may come before what they extend
		if (!options.reorder)
			std::sort(keys.begin(), keys.end());
		for (size_t i = 0; i < g.size(); ++i)
			placed.emplace_back(keys[i], std::move(g[i]));
	}
	std::stable_sort(placed.begin(), placed.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
	std::string r;
	for (const auto& [k, text] : placed)
		r += text + "\n" + (options.layout && src.coin(1, 4) ? "# between\n" : "\n");
	if (extensions)
		*extensions = w.extensions;
	return r;
}

// ---------------------------------------------------------------- broken texts

std::string sdlBroken(Src& src, const MSchema& original, std::string& rule)
{
	MSchema m = original;
	SdlOptions o;
	o.layout = src.coin(1, 3);
	std::string extra; // a definition at the beginning or the end
	const auto types = [&](std::initializer_list<Kind> kinds) {
		std::vector<TypeDef*> r;
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
			for (auto k : kinds)
				if (m.types[i].kind == k)
					r.push_back(&m.types[i]);
		return r;
	};
	const auto inputs = [&] {
		std::vector<InputDef*> r;
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
		{
			for (auto& f : m.types[i].fields)
				for (auto& a : f.args)
					r.push_back(&a);
			for (auto& f : m.types[i].inputs)
				r.push_back(&f);
		}
		for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
			for (auto& a : m.directives[i].args)
				r.push_back(&a);
		return r;
	};
	const auto fields = [&] {
		std::vector<FieldDef*> r;
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
			for (auto& f : m.types[i].fields)
				r.push_back(&f);
		return r;
	};
	const auto pick = [&](auto& v) { return v[src.below(v.size())]; };
	const auto nameOf = [&](std::initializer_list<Kind> kinds) -> std::string {
		const auto v = types(kinds);
		return v.empty() ? "" : v[src.below(v.size())]->name;
	};
	const auto finish = [&] {
		auto text = sdlVariant(src, m, o);
		return extra.empty() ? text : src.coin() ? extra + "\n" + text : text + extra + "\n";
	};
	for (int tries = 0; tries < 30; ++tries)
	{
		m = original;
		extra.clear();
		switch (src.below(27))
		{
			case 0:
			{
				auto f = fields();
				pick(f)->type.name = "Missing";
				rule = "field of an unknown type";
				return finish();
			}
			case 1:
			{
				auto f = inputs();
				if (f.empty())
					continue;
				auto* i = pick(f);
				i->type.name = "Missing";
				i->def.reset();
				rule = "argument or input field of an unknown type";
				return finish();
			}
			case 2:
			{
				auto u = types({ Kind::Union });
				if (u.empty())
					continue;
				auto* t = pick(u);
				t->members[src.below(t->members.size())] = "Missing";
				rule = "unknown member of a union";
				return finish();
			}
			case 3:
			{
				auto u = types({ Kind::Object });
				auto* t = pick(u);
				if (t->interfaces.empty())
					t->interfaces.push_back("Missing");
				else
					t->interfaces[src.below(t->interfaces.size())] = "Missing";
				rule = "unknown interface";
				return finish();
			}
			case 4:
			{
				const auto n = nameOf({ Kind::Input });
				if (n.empty())
					continue;
				auto f = fields();
				pick(f)->type.name = n;
				rule = "field whose type is an input type";
				return finish();
			}
			case 5:
			{
				auto f = inputs();
				if (f.empty())
					continue;
				auto* i = pick(f);
				i->type.name = nameOf({ Kind::Object, Kind::Interface, Kind::Union });
				i->def.reset();
				rule = "argument or input field of an output type";
				return finish();
			}
			case 6:
			{
				auto u = types({ Kind::Union });
				const auto n = nameOf({ Kind::Scalar, Kind::Enum, Kind::Interface, Kind::Input, Kind::Union });
				if (u.empty() || n.empty())
					continue;
				auto* t = pick(u);
				t->members[src.below(t->members.size())] = n;
				rule = "member of a union which is not an object type";
				return finish();
			}
			case 7:
			{
				auto u = types({ Kind::Object });
				auto* t = pick(u);
				t->interfaces.push_back(nameOf({ Kind::Scalar, Kind::Enum, Kind::Object, Kind::Input, Kind::Union }));
				rule = "implements something which is not an interface";
				return finish();
			}
			case 8:
			{
				auto u = types({ Kind::Scalar, Kind::Enum, Kind::Input, Kind::Union, Kind::Interface, Kind::Object });
				const auto* t = pick(u);
				TypeDef again = *t;
				if (src.coin())
				{
					TypeDef other;
					other.kind = src.coin() ? Kind::Scalar : Kind::Enum;
					other.name = again.name;
					other.values.push_back({ "SOME", "", std::nullopt });
					again = other;
				}
				m.types.push_back(again);
				rule = "type which is defined twice";
				return finish();
			}
			case 9:
			{
				auto& root = src.coin() || m.mutation.empty() ? m.query : m.mutation;
				root = src.coin() ? "Missing" : nameOf({ Kind::Enum, Kind::Input, Kind::Interface, Kind::Union, Kind::Scalar });
				if (root.empty())
					continue;
				rule = "operation type which is unknown or no object type";
				return finish();
			}
			case 10:
			{
				if (m.mutation.empty())
					continue;
				o.extend = false;
				auto text = sdlVariant(src, m, o);
				// All of the definitions, and a schema without a query.
				for (auto& t : m.types)
					if (t.name == "Query")
						return "";
				m.query.clear();
				std::string without;
				const auto at = text.find("schema");
				const auto end = text.find('}', at);
				without = text.substr(0, at) + "schema { mutation: " + m.mutation + " }" + text.substr(end + 1);
				if (at == std::string::npos || (at && text[at - 1] != '\n'))
					continue;
				rule = "schema without a query type";
				return without;
			}
			case 11:
			{
				static const std::vector<std::string> nothing { "extend type Missing { f: Int }", "extend interface Missing { f: Int }", "extend input Missing { f: Int }", "extend enum Missing { VALUE }", "extend type Missing implements Other", "extend scalar Missing @deprecated" };
				extra = src.pick(nothing);
				const auto n = nameOf({ Kind::Object });
				if (src.coin(1, 5))
					extra = "extend union Missing = " + n;
				rule = "extension of a type which is not defined";
				return finish();
			}
			case 12:
			{
				struct Ext
				{
					Kind kind;
					const char* before;
					const char* after;
				};
				static const std::vector<Ext> exts { { Kind::Object, "extend type ", " { more: Int }" }, { Kind::Interface, "extend interface ", " { more: Int }" }, { Kind::Input, "extend input ", " { more: Int }" }, { Kind::Enum, "extend enum ", " { MORE }" }, { Kind::Scalar, "extend scalar ", " @deprecated" } };
				const auto& e = src.pick(exts);
				auto u = types({ Kind::Scalar, Kind::Enum, Kind::Input, Kind::Union, Kind::Interface, Kind::Object });
				const auto* t = pick(u);
				if (t->kind == e.kind)
					continue;
				extra = cat(e.before, t->name, e.after);
				rule = "extension of another kind of type";
				return finish();
			}
			case 13:
			{
				static const std::vector<std::string> builtins { "scalar Int", "type String { f: Int }", "enum Boolean { YES NO }", "input ID { f: Int }", "scalar Float", "interface String { f: Int }" };
				extra = src.pick(builtins);
				rule = "built-in type defined again";
				return finish();
			}
			case 14:
			{
				static const std::vector<std::string> executable { "query Q { __typename }", "{ __typename }", "fragment F on Query { __typename }", "mutation M { __typename }", "subscription { a }" };
				extra = src.pick(executable);
				rule = "executable definition";
				return finish();
			}
			case 15:
			{
				auto f = inputs();
				if (f.empty())
					continue;
				auto* i = pick(f);
				i->type = i->type.withOuter(true);
				i->def = Val::null();
				rule = "null as the default of a non-null type";
				return finish();
			}
			case 16:
			{
				if (m.directives.size() == m.builtinDirectives)
					continue;
				m.directives.push_back(m.directives[m.builtinDirectives + src.below(m.directives.size() - m.builtinDirectives)]);
				rule = "directive which is defined twice";
				return finish();
			}
			case 17:
			{
				auto u = types({ Kind::Object, Kind::Interface });
				auto* t = pick(u);
				auto f = t->fields[src.below(t->fields.size())];
				if (src.coin())
					f.type = TypeRef { {}, false, "Int" };
				t->fields.insert(t->fields.begin() + static_cast<long>(src.below(t->fields.size() + 1)), f);
				rule = "field which is defined twice";
				return finish();
			}
			case 18:
			{
				auto u = types({ Kind::Enum });
				auto* t = pick(u);
				t->values.push_back(t->values[src.below(t->values.size())]);
				rule = "enum value which is defined twice";
				return finish();
			}
			case 19:
			{
				auto u = types({ Kind::Input });
				if (u.empty())
					continue;
				auto* t = pick(u);
				t->inputs.push_back(t->inputs[src.below(t->inputs.size())]);
				rule = "input field which is defined twice";
				return finish();
			}
			case 20:
			{
				std::vector<FieldDef*> with;
				for (auto* f : fields())
					if (!f->args.empty())
						with.push_back(f);
				if (with.empty())
					continue;
				auto* f = pick(with);
				f->args.push_back(f->args[src.below(f->args.size())]);
				rule = "argument which is defined twice";
				return finish();
			}
			case 21:
			{
				auto text = sdlVariant(src, m, o);
				const auto n = 1 + src.below(text.size() - 1);
				text = text.substr(0, n);
				if (recognise(text) != Verdict::Reject)
					continue;
				rule = "text which is cut off";
				return text;
			}
			case 22:
			{
				auto text = sdlVariant(src, m, o);
				static const std::vector<std::string> pieces { "}", "{", "!", ":", "=", "@", "\"", "type", ")", "&", "$x", "..." };
				text.insert(src.below(text.size()), src.pick(pieces));
				if (recognise(text) != Verdict::Reject)
					continue;
				rule = "text with a syntax error";
				return text;
			}
			case 23:
			{
				auto u = types({ Kind::Union });
				if (u.empty())
					continue;
				auto* t = pick(u);
				t->members.push_back(t->members[src.below(t->members.size())]);
				rule = "member which a union includes twice";
				return finish();
			}
			case 24:
			{
				std::vector<TypeDef*> with;
				for (auto* t : types({ Kind::Object }))
					if (!t->interfaces.empty())
						with.push_back(t);
				if (with.empty())
					continue;
				auto* t = pick(with);
				t->interfaces.push_back(t->interfaces[src.below(t->interfaces.size())]);
				rule = "interface which is implemented twice";
				return finish();
			}
			case 25:
			{
				// Another type for an operation which has one.
				o.schema = true;
				extra = cat(src.coin() ? "extend schema { query: " : "schema { query: ", nameOf({ Kind::Object }), " }");
				rule = "operation with two types";
				return finish();
			}
			default:
			{
				auto f = inputs();
				if (f.empty())
					continue;
				auto* i = pick(f);
				i->type.lists.clear();
				i->type.name = src.coin() ? "Int" : "String";
				i->def = Val::var("v");
				rule = "variable in a default value";
				return finish();
			}
		}
	}
	rule.clear();
	return "";
}

} // namespace h
