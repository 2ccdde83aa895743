#include "model.h"

#include "graphqlservice/introspection/Introspection.h"

#include <algorithm>

using namespace graphql;

namespace h {

std::string TypeRef::text() const
{
	std::string r;
	for (size_t i = 0; i < lists.size(); ++i)
		r += "[";
	r += name;
	if (nonNull)
		r += "!";
	for (size_t i = lists.size(); i-- > 0;)
		r += lists[i] ? "]!" : "]";
	return r;
}

bool Val::hasVar() const
{
	if (kind == Var)
		return true;
	for (const auto& v : list)
		if (v.hasVar())
			return true;
	for (const auto& [n, v] : fields)
		if (v.hasVar())
			return true;
	return false;
}

std::string Val::render() const
{
	switch (kind)
	{
		case Null: return "null";
		case Var: return "$" + text;
		case List:
		{
			std::string r = "[";
			for (size_t i = 0; i < list.size(); ++i)
				r += (i ? ", " : "") + list[i].render();
			return r + "]";
		}
		case Object:
		{
			std::string r = "{";
			for (size_t i = 0; i < fields.size(); ++i)
				r += (i ? ", " : "") + fields[i].first + ": " + fields[i].second.render();
			return r + "}";
		}
		default: return text;
	}
}

const TypeDef* MSchema::type(std::string_view name) const
{
	for (const auto& t : types)
		if (t.name == name)
			return &t;
	return nullptr;
}

TypeDef* MSchema::type(std::string_view name)
{
	for (auto& t : types)
		if (t.name == name)
			return &t;
	return nullptr;
}

const DirectiveDef* MSchema::directive(std::string_view name) const
{
	for (const auto& d : directives)
		if (d.name == name)
			return &d;
	return nullptr;
}

std::vector<std::string> MSchema::possible(const std::string& name) const
{
	const auto* t = type(name);
	if (!t)
		return {};
	switch (t->kind)
	{
		case Kind::Object: return { name };
		case Kind::Union: return t->members;
		case Kind::Interface:
		{
			std::vector<std::string> r;
			for (const auto& o : types)
				if (o.kind == Kind::Object && std::find(o.interfaces.begin(), o.interfaces.end(), name) != o.interfaces.end())
					r.push_back(o.name);
			return r;
		}
		default: return {};
	}
}

bool MSchema::overlaps(const std::string& a, const std::string& b) const
{
	const auto pa = possible(a), pb = possible(b);
	for (const auto& x : pa)
		if (std::find(pb.begin(), pb.end(), x) != pb.end())
			return true;
	return false;
}

bool MSchema::is(const std::string& object, const std::string& type) const
{
	const auto p = possible(type);
	return std::find(p.begin(), p.end(), object) != p.end();
}

const FieldDef* MSchema::field(const std::string& typeName, std::string_view name) const
{
	static const FieldDef c_typename = [] {
		FieldDef f;
		f.name = "__typename";
		f.type = { {}, true, "String" };
		return f;
	}();
	static const FieldDef c_schema = [] {
		FieldDef f;
		f.name = "__schema";
		f.type = { {}, true, "__Schema" };
		return f;
	}();
	static const FieldDef c_type = [] {
		FieldDef f;
		f.name = "__type";
		f.type = { {}, false, "__Type" };
		InputDef a;
		a.name = "name";
		a.type = { {}, true, "String" };
		f.args.push_back(a);
		return f;
	}();
	const auto* t = type(typeName);
	if (!t || !t->composite())
		return nullptr;
	if (name == "__typename")
		return &c_typename;
	if (typeName == query && !noIntrospection)
	{
		if (name == "__schema")
			return &c_schema;
		if (name == "__type")
			return &c_type;
	}
	return t->field(name);
}

bool MSchema::leaf(const std::string& name) const
{
	const auto* t = type(name);
	return t && (t->kind == Kind::Scalar || t->kind == Kind::Enum);
}

bool MSchema::composite(const std::string& name) const
{
	const auto* t = type(name);
	return t && t->composite();
}

namespace {

std::string quoteSdl(const std::string& text)
{
	std::string r = "\"";
	for (unsigned char c : text)
	{
		if (c == '"' || c == '\\')
			r += std::string("\\") + static_cast<char>(c);
		else if (c == '\n')
			r += "\\n";
		else if (c < 0x20)
		{
			char buf[8];
			std::snprintf(buf, sizeof(buf), "\\u%04x", c);
			r += buf;
		}
		else
			r += static_cast<char>(c);
	}
	return r + "\"";
}

std::string sdlDescription(const std::string& d, const char* indent)
{
	return d.empty() ? "" : indent + quoteSdl(d) + "\n";
}

std::string sdlInputs(const std::vector<InputDef>& inputs, const char* open, const char* close, const char* sep)
{
	if (inputs.empty())
		return "";
	std::string r = open;
	for (size_t i = 0; i < inputs.size(); ++i)
	{
		if (i)
			r += sep;
		if (!inputs[i].description.empty())
			r += quoteSdl(inputs[i].description) + " ";
		r += inputs[i].name + ": " + inputs[i].type.text();
		if (inputs[i].def)
			r += " = " + inputs[i].def->render();
	}
	return r + close;
}

std::string sdlDeprecated(const std::optional<std::string>& d)
{
	return d ? " @deprecated(reason: " + quoteSdl(*d) + ")" : "";
}

} // namespace

std::string MSchema::sdl() const
{
	std::string r = "schema {\n  query: " + query + "\n";
	if (!mutation.empty())
		r += "  mutation: " + mutation + "\n";
	if (!subscription.empty())
		r += "  subscription: " + subscription + "\n";
	r += "}\n";
	for (size_t i = builtinTypes; i < types.size(); ++i)
	{
		const auto& t = types[i];
		r += sdlDescription(t.description, "");
		switch (t.kind)
		{
			case Kind::Scalar: r += "scalar " + t.name + "\n"; break;
			case Kind::Enum:
				r += "enum " + t.name + " {\n";
				for (const auto& v : t.values)
					r += sdlDescription(v.description, "  ") + "  " + v.name + sdlDeprecated(v.deprecated) + "\n";
				r += "}\n";
				break;
			case Kind::Input: r += "input " + t.name + sdlInputs(t.inputs, " {\n  ", "\n}\n", "\n  "); break;
			case Kind::Union:
				r += "union " + t.name + " =";
				for (size_t k = 0; k < t.members.size(); ++k)
					r += (k ? " | " : " ") + t.members[k];
				r += "\n";
				break;
			case Kind::Object:
			case Kind::Interface:
				r += (t.kind == Kind::Object ? "type " : "interface ") + t.name;
				for (size_t k = 0; k < t.interfaces.size(); ++k)
					r += (k ? " & " : " implements ") + t.interfaces[k];
				r += " {\n";
				for (const auto& f : t.fields)
					r += sdlDescription(f.description, "  ") + "  " + f.name + sdlInputs(f.args, "(", ")", ", ") + ": " + f.type.text() + sdlDeprecated(f.deprecated) + "\n";
				r += "}\n";
				break;
		}
	}
	for (size_t i = builtinDirectives; i < directives.size(); ++i)
	{
		const auto& d = directives[i];
		r += sdlDescription(d.description, "") + "directive @" + d.name + sdlInputs(d.args, "(", ")", ", ") + " on ";
		for (size_t k = 0; k < d.locations.size(); ++k)
			r += (k ? " | " : "") + d.locations[k];
		r += "\n";
	}
	return r;
}

namespace {

const std::vector<std::string> c_executableLocations { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" };
const std::vector<std::string> c_allLocations { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };

FieldDef mkField(const std::string& name, const TypeRef& type, bool includeDeprecated = false)
{
	FieldDef f;
	f.name = name;
	f.type = type;
	if (includeDeprecated)
	{
		InputDef a;
		a.name = "includeDeprecated";
		a.type = { {}, false, "Boolean" };
		a.def = Val::boolean(false);
		f.args.push_back(a);
	}
	return f;
}

} // namespace

void addBuiltins(MSchema& m)
{
	const auto scalar = [&](const char* name) {
		TypeDef t;
		t.name = name;
		t.description = "Built-in type";
		m.types.push_back(t);
	};
	for (auto n : { "Boolean", "Float", "ID", "Int", "String" })
		scalar(n);
	if (m.noIntrospection)
	{
		// The types are there all the same.
	}
	const auto enumeration = [&](const char* name, const std::vector<std::string>& values) {
		TypeDef t;
		t.kind = Kind::Enum;
		t.name = name;
		for (const auto& v : values)
			t.values.push_back({ v, "", std::nullopt });
		m.types.push_back(t);
	};
	enumeration("__TypeKind", { "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL" });
	enumeration("__DirectiveLocation", c_allLocations);
	const auto object = [&](const char* name, std::vector<FieldDef> fields) {
		TypeDef t;
		t.kind = Kind::Object;
		t.name = name;
		t.fields = std::move(fields);
		m.types.push_back(t);
	};
	const auto opt = [](const char* n) {
		return TypeRef { {}, false, n };
	};
	const auto req = [](const char* n) {
		return TypeRef { {}, true, n };
	};
	const auto reqList = [](const char* n) {
		return TypeRef { { true }, true, n };
	};
	const auto optList = [](const char* n) {
		return TypeRef { { false }, true, n };
	};
	object("__Schema", { mkField("types", reqList("__Type")), mkField("queryType", req("__Type")), mkField("mutationType", opt("__Type")), mkField("subscriptionType", opt("__Type")), mkField("directives", reqList("__Directive")) });
	object("__Type", { mkField("kind", req("__TypeKind")), mkField("name", opt("String")), mkField("description", opt("String")), mkField("fields", optList("__Field"), true), mkField("interfaces", optList("__Type")), mkField("possibleTypes", optList("__Type")), mkField("enumValues", optList("__EnumValue"), true), mkField("inputFields", optList("__InputValue")), mkField("ofType", opt("__Type")) });
	object("__Field", { mkField("name", req("String")), mkField("description", opt("String")), mkField("args", reqList("__InputValue")), mkField("type", req("__Type")), mkField("isDeprecated", req("Boolean")), mkField("deprecationReason", opt("String")) });
	object("__InputValue", { mkField("name", req("String")), mkField("description", opt("String")), mkField("type", req("__Type")), mkField("defaultValue", opt("String")) });
	object("__EnumValue", { mkField("name", req("String")), mkField("description", opt("String")), mkField("isDeprecated", req("Boolean")), mkField("deprecationReason", opt("String")) });
	object("__Directive", { mkField("name", req("String")), mkField("description", opt("String")), mkField("locations", reqList("__DirectiveLocation")), mkField("args", reqList("__InputValue")) });
	m.builtinTypes = m.types.size();
	for (auto n : { "skip", "include" })
	{
		DirectiveDef d;
		d.name = n;
		d.locations = { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" };
		InputDef a;
		a.name = "if";
		a.type = { {}, true, "Boolean" };
		d.args.push_back(a);
		m.directives.push_back(d);
	}
	DirectiveDef d;
	d.name = "deprecated";
	d.locations = { "FIELD_DEFINITION", "ENUM_VALUE" };
	InputDef a;
	a.name = "reason";
	a.type = { {}, false, "String" };
	a.def = Val::string("No longer supported");
	d.args.push_back(a);
	m.directives.push_back(d);
	m.builtinDirectives = m.directives.size();
}

namespace {

std::string genDescription(Src& src, const SchemaOptions& o)
{
	if (!o.descriptions || !src.coin(1, 3))
		return "";
	if (!o.hostileText)
	{
		static const std::vector<std::string> plain { "text", "Some description", "two\nlines", "with \"quotes\" and \\ backslash", "gr\xC3\xBC\xC3\x9F", "100%" };
		return src.pick(plain);
	}
	auto t = genText(src, 12);
	if (t.find(")md\"") != std::string::npos)
		t = "md";
	return t;
}

std::optional<std::string> genDeprecated(Src& src, const SchemaOptions& o)
{
	if (!o.descriptions || !src.coin(1, 4))
		return std::nullopt;
	auto d = genDescription(src, o);
	return d.empty() && src.coin() ? "gone" : d;
}

TypeRef genTypeRef(Src& src, const std::string& name, unsigned listWeight = 30)
{
	TypeRef t;
	t.name = name;
	const auto depth = src.weighted({ 100 - listWeight, listWeight - listWeight / 4, listWeight / 4 });
	for (size_t i = 0; i < depth; ++i)
		t.lists.push_back(src.coin(1, 3));
	t.nonNull = src.coin(2, 5);
	return t;
}

// Defaults of input fields leave out recursive fields: a default which contains itself has no value.
thread_local bool t_noRecursion = false;
thread_local bool t_moreNulls = false;

InputDef genInput(Src& src, const MSchema& m, const std::string& name, const std::string& typeName, const SchemaOptions& o, bool forceOptional = false)
{
	InputDef d;
	d.name = name;
	d.type = genTypeRef(src, typeName, o.richDefaults ? 45 : 25);
	if (forceOptional)
		d.type = d.type.withOuter(false);
	t_moreNulls = o.richDefaults;
	if (src.coin(o.richDefaults ? 2 : 1, 4))
		d.def = genLiteral(src, m, d.type);
	t_moreNulls = false;
	d.description = genDescription(src, o);
	return d;
}

} // namespace

Val genLiteral(Src& src, const MSchema& m, const TypeRef& type, const VarFn& vars, size_t depth, bool hasDefault)
{
	if (vars)
		if (auto v = vars(type, hasDefault))
			return *v;
	if (!type.outerNonNull() && src.coin(1, t_moreNulls && depth ? 3 : 7))
		return Val::null();
	if (!type.lists.empty())
	{
		Val v;
		v.kind = Val::List;
		const size_t n = src.size(0, depth > 2 ? 1 : t_moreNulls ? 4 : 3);
		for (size_t i = 0; i < n; ++i)
			v.list.push_back(genLiteral(src, m, type.element(), vars, depth + 1));
		return v;
	}
	const auto* t = m.type(type.name);
	if (t && t->kind == Kind::Enum)
		return Val::enumeration(t->values[src.below(t->values.size())].name);
	if (t && t->kind == Kind::Input)
	{
		Val v;
		v.kind = Val::Object;
		std::vector<size_t> order;
		for (size_t i = 0; i < t->inputs.size(); ++i)
			order.push_back(i);
		if (src.coin(1, 3))
			std::reverse(order.begin(), order.end());
		for (auto i : order)
		{
			const auto& in = t->inputs[i];
			// Recursion only ever goes through optional fields.
			const bool include = in.required() || (depth < 4 && !(t_noRecursion && in.name[0] == 'r') && src.coin(3, 5));
			if (include)
				v.fields.emplace_back(in.name, genLiteral(src, m, in.type, vars, depth + 1, in.def && in.def->kind != Val::Null));
		}
		return v;
	}
	if (type.name == "Int")
	{
		Val v = Val::integer(genInt32(src));
		if (src.coin(1, 20))
		{
			v.text = "-0";
			v.value = JV::integer(0);
		}
		return v;
	}
	if (type.name == "Float")
	{
		if (src.coin(1, 3))
		{
			if (!src.coin(1, 4))
				return Val::integer(genInt32(src));
			// Too large for an Int.
			std::string digits = src.coin() ? "-" : "";
			digits += static_cast<char>('3' + src.below(7));
			for (size_t i = 0, n = 9 + src.below(16); i < n; ++i)
				digits += static_cast<char>('0' + src.below(10));
			return Val::real(digits);
		}
		return Val::real(genFloatLiteral(src));
	}
	if (type.name == "Boolean")
		return Val::boolean(src.coin());
	if (type.name == "ID")
	{
		std::string bytes;
		for (size_t i = 0, n = src.size(0, 6); i < n; ++i)
			bytes += static_cast<char>(src.below(256));
		static const char* alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		std::string text;
		for (size_t i = 0; i < bytes.size(); i += 3)
		{
			uint32_t w = 0;
			const size_t n = std::min<size_t>(3, bytes.size() - i);
			for (size_t k = 0; k < 3; ++k)
				w = (w << 8) | (k < n ? static_cast<unsigned char>(bytes[i + k]) : 0);
			for (size_t k = 0; k < 4; ++k)
				text += k <= n ? alphabet[(w >> (18 - 6 * k)) & 63] : '=';
		}
		return Val::string(text);
	}
	if (type.name == "String")
	{
		const auto s = genStringLiteral(src);
		Val v;
		v.kind = Val::String;
		v.text = s.text;
		v.value = JV::string(s.decoded);
		return v;
	}
	// Custom scalar: anything goes.
	switch (src.below(depth > 3 ? 5 : 7))
	{
		case 0: return Val::integer(genInt32(src));
		case 1: return Val::boolean(src.coin());
		case 2: return Val::string("scalar");
		case 3: return Val::real(genFloatLiteral(src));
		case 4: return Val::enumeration(src.coin() ? "ANY" : "e_1");
		case 5:
		{
			Val v;
			v.kind = Val::List;
			for (size_t i = 0, n = src.size(0, 3); i < n; ++i)
				v.list.push_back(genLiteral(src, m, TypeRef { {}, false, type.name }, vars, depth + 1));
			return v;
		}
		default:
		{
			Val v;
			v.kind = Val::Object;
			for (size_t i = 0, n = src.size(0, 3); i < n; ++i)
				v.fields.emplace_back(cat("k", i), genLiteral(src, m, TypeRef { {}, false, type.name }, vars, depth + 1));
			return v;
		}
	}
}

MSchema genSchema(Src& src, const SchemaOptions& o)
{
	MSchema m;
	m.noIntrospection = o.introspection && src.coin(1, 10);
	addBuiltins(m);
	std::vector<std::string> leaves { "Int", "String", "Boolean", "Float", "ID" };
	std::vector<std::string> inputLeaves = leaves;
	std::vector<TypeDef> defs;
	const size_t scalars = src.size(0, 2);
	for (size_t i = 0; i < scalars; ++i)
	{
		TypeDef t;
		t.name = cat("Sc", i);
		t.description = genDescription(src, o);
		leaves.push_back(t.name);
		inputLeaves.push_back(t.name);
		m.types.push_back(t);
	}
	const size_t enums = src.size(1, 3);
	for (size_t i = 0; i < enums; ++i)
	{
		TypeDef t;
		t.kind = Kind::Enum;
		t.name = cat("En", i);
		t.description = genDescription(src, o);
		static const std::vector<std::string> pool { "RED", "Green", "blue", "NEW", "value_4", "A", "on", "type", "_x", "query" };
		const size_t n = src.size(1, 5);
		const size_t start = src.below(pool.size());
		for (size_t k = 0; k < n; ++k)
			t.values.push_back({ pool[(start + k) % pool.size()], genDescription(src, o), genDeprecated(src, o) });
		leaves.push_back(t.name);
		inputLeaves.push_back(t.name);
		m.types.push_back(t);
	}
	// Input objects: fields may refer to earlier ones in any way, to itself and later ones only
	// through nullable fields or lists.
	const size_t inputs = src.size(0, o.manyInputs ? 5 : o.deepInputs ? 3 : 1);
	const size_t firstInput = m.types.size();
	for (size_t i = 0; i < inputs; ++i)
	{
		TypeDef t;
		t.kind = Kind::Input;
		t.name = cat("In", i);
		t.description = genDescription(src, o);
		const size_t n = src.size(1, 4);
		for (size_t k = 0; k < n; ++k)
		{
			const auto pickKind = o.manyInputs ? src.weighted({ 4, 4, 1 }) : src.weighted({ 6, 2, 1 });
			if (pickKind == 1 && i > 0)
			{
				t_noRecursion = true;
				t.inputs.push_back(genInput(src, m, cat("i", k), cat("In", src.below(i)), o));
				t_noRecursion = false;
			}
			else if (pickKind == 2 && o.deepInputs)
			{
				InputDef d;
				d.name = cat("r", k);
				d.type = genTypeRef(src, cat("In", src.below(inputs)), 40);
				d.type = d.type.withOuter(false);
				t.inputs.push_back(d);
			}
			else
			{
				t_noRecursion = true;
				t.inputs.push_back(genInput(src, m, cat("v", k), src.pick(inputLeaves), o));
				t_noRecursion = false;
			}
		}
		m.types.push_back(t);
		inputLeaves.push_back(t.name);
	}
	if (o.acyclicInputs)
	{
		std::set<std::string> seen;
		const std::function<bool(const std::string&, const std::string&)> reaches = [&](const std::string& from, const std::string& to) {
			if (from == to)
				return true;
			if (!seen.insert(from).second)
				return false;
			const auto* t = m.type(from);
			if (t)
				for (const auto& in : t->inputs)
					if (in.type.name.substr(0, 2) == "In" && in.type.name != "Int" && reaches(in.type.name, to))
						return true;
			return false;
		};
		for (size_t i = firstInput; i < m.types.size(); ++i)
		{
			auto kept = std::move(m.types[i].inputs);
			m.types[i].inputs.clear();
			for (auto& in : kept)
			{
				seen.clear();
				if (in.name[0] != 'r' || !reaches(in.type.name, m.types[i].name))
					m.types[i].inputs.push_back(std::move(in));
			}
			if (m.types[i].inputs.empty())
			{
				InputDef d;
				d.name = "v9";
				d.type = { {}, false, "Int" };
				m.types[i].inputs.push_back(d);
			}
		}
	}
	// Composite type names first, the fields refer to all of them.
	const size_t interfaces = src.size(0, 2), objects = src.size(1, o.maxObjects), unions = src.size(0, 2);
	std::vector<std::string> composites;
	for (size_t i = 0; i < objects; ++i)
		composites.push_back(cat("Ob", i));
	for (size_t i = 0; i < interfaces; ++i)
		composites.push_back(cat("If", i));
	for (size_t i = 0; i < unions; ++i)
		composites.push_back(cat("Un", i));
	// Field templates: a field name means the same everywhere.
	std::vector<FieldDef> templates;
	const size_t leafFields = src.size(3, 9), compFields = src.size(1, 5);
	for (size_t i = 0; i < leafFields + compFields; ++i)
	{
		FieldDef f;
		const bool comp = i >= leafFields;
		f.name = comp ? cat("c", i - leafFields) : cat("f", i);
		f.type = genTypeRef(src, comp ? src.pick(composites) : src.pick(leaves));
		f.description = genDescription(src, o);
		f.deprecated = genDeprecated(src, o);
		const size_t args = src.weighted({ 5, 3, 2, 1 });
		for (size_t k = 0; k < args; ++k)
			f.args.push_back(genInput(src, m, cat("a", k), src.pick(inputLeaves), o));
		templates.push_back(f);
	}
	const auto pickFields = [&](size_t lo, size_t hi) {
		std::vector<FieldDef> r;
		const size_t n = src.size(lo, hi);
		for (size_t k = 0; k < n; ++k)
		{
			const auto& f = templates[src.below(templates.size())];
			bool dup = false;
			for (const auto& e : r)
				dup = dup || e.name == f.name;
			if (!dup)
				r.push_back(f);
		}
		return r;
	};
	std::vector<TypeDef> ifs, obs, uns;
	for (size_t i = 0; i < interfaces; ++i)
	{
		TypeDef t;
		t.kind = Kind::Interface;
		t.name = cat("If", i);
		t.description = genDescription(src, o);
		t.fields = pickFields(1, 3);
		ifs.push_back(t);
	}
	for (size_t i = 0; i < objects; ++i)
	{
		TypeDef t;
		t.kind = Kind::Object;
		t.name = cat("Ob", i);
		t.description = genDescription(src, o);
		t.fields = pickFields(1, 6);
		for (size_t k = 0; k < interfaces; ++k)
			// Every interface has an implementer
			if (src.coin() || k % objects == i)
			{
				t.interfaces.push_back(ifs[k].name);
				for (const auto& f : ifs[k].fields)
					if (!t.field(f.name))
						t.fields.push_back(f);
			}
		obs.push_back(t);
	}
	for (size_t i = 0; i < unions; ++i)
	{
		TypeDef t;
		t.kind = Kind::Union;
		t.name = cat("Un", i);
		t.description = genDescription(src, o);
		for (size_t k = 0; k < objects; ++k)
			if (src.coin() || k % objects == i % objects)
				t.members.push_back(obs[k].name);
		uns.push_back(t);
	}
	const bool plainRoots = src.coin();
	const auto root = [&](const char* plain, const char* other) {
		TypeDef t;
		t.kind = Kind::Object;
		t.name = plainRoots ? plain : other;
		t.description = genDescription(src, o);
		t.fields = pickFields(2, 7);
		// Make sure there is a way into the graph.
		bool comp = false;
		for (const auto& f : t.fields)
			comp = comp || f.name[0] == 'c';
		if (!comp)
			t.fields.push_back(templates[leafFields + src.below(compFields)]);
		return t;
	};
	const auto query = root("Query", "TheQuery");
	m.query = query.name;
	std::vector<TypeDef> order;
	for (auto& t : ifs)
		order.push_back(t);
	for (auto& t : uns)
		order.push_back(t);
	order.push_back(query);
	for (auto& t : obs)
		order.push_back(t);
	if (o.mutation && (o.needMutation || src.coin(3, 4)))
	{
		order.push_back(root("Mutation", "TheMutation"));
		m.mutation = order.back().name;
	}
	if (o.subscription && (o.needSubscription || src.coin(3, 4)))
	{
		order.push_back(root("Subscription", "TheSubscription"));
		m.subscription = order.back().name;
	}
	// Declaration order is free.
	for (size_t i = order.size(); i > 1; --i)
		if (src.coin(1, 4))
			std::swap(order[i - 1], order[src.below(i)]);
	for (auto& t : order)
		m.types.push_back(t);
	const size_t directives = src.size(0, o.bigDirectives ? 5 : 2);
	for (size_t i = 0; i < directives; ++i)
	{
		DirectiveDef d;
		d.name = cat("d", i);
		d.description = genDescription(src, o);
		const bool everywhere = src.coin();
		for (const auto& l : c_executableLocations)
			if (everywhere || src.coin())
				d.locations.push_back(l);
		if (d.locations.empty() || src.coin(1, 4))
			d.locations.push_back(c_allLocations[7 + src.below(11)]);
		const size_t args = src.weighted({ 2, 4, 2 });
		for (size_t k = 0; k < args; ++k)
			d.args.push_back(genInput(src, m, cat("x", k), src.pick(inputLeaves), o));
		m.directives.push_back(d);
	}
	return m;
}

std::shared_ptr<BuiltSchema> buildSchema(const MSchema& model)
{
	auto built = std::make_shared<BuiltSchema>();
	built->model = std::make_shared<MSchema>(model);
	const auto& m = *built->model;
	auto s = std::make_shared<schema::Schema>(m.noIntrospection);
	built->schema = s;
	introspection::AddTypesToSchema(s);
	const auto keep = [&](const std::string& text) -> std::string_view {
		built->strings.push_back(text);
		return built->strings.back();
	};
	const auto reason = [&](const std::optional<std::string>& d) -> std::optional<std::string_view> {
		return d ? std::make_optional(keep(*d)) : std::nullopt;
	};
	std::map<std::string, std::shared_ptr<schema::ObjectType>> objects;
	std::map<std::string, std::shared_ptr<schema::InterfaceType>> interfaces;
	std::map<std::string, std::shared_ptr<schema::UnionType>> unions;
	std::map<std::string, std::shared_ptr<schema::EnumType>> enums;
	std::map<std::string, std::shared_ptr<schema::InputObjectType>> inputs;
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& t = m.types[i];
		const auto name = keep(t.name), desc = keep(t.description);
		switch (t.kind)
		{
			case Kind::Scalar: s->AddType(name, schema::ScalarType::Make(name, desc)); break;
			case Kind::Enum: s->AddType(name, enums[t.name] = schema::EnumType::Make(name, desc)); break;
			case Kind::Input: s->AddType(name, inputs[t.name] = schema::InputObjectType::Make(name, desc)); break;
			case Kind::Union: s->AddType(name, unions[t.name] = schema::UnionType::Make(name, desc)); break;
			case Kind::Interface: s->AddType(name, interfaces[t.name] = schema::InterfaceType::Make(name, desc)); break;
			case Kind::Object: s->AddType(name, objects[t.name] = schema::ObjectType::Make(name, desc)); break;
		}
	}
	std::function<std::shared_ptr<const schema::BaseType>(const TypeRef&)> ref = [&](const TypeRef& t) -> std::shared_ptr<const schema::BaseType> {
		std::shared_ptr<const schema::BaseType> r = t.lists.empty() ? s->LookupType(t.name) : s->WrapType(introspection::TypeKind::LIST, ref(t.element()));
		return t.outerNonNull() ? s->WrapType(introspection::TypeKind::NON_NULL, r) : r;
	};
	const auto args = [&](const std::vector<InputDef>& defs) {
		std::vector<std::shared_ptr<const schema::InputValue>> r;
		for (const auto& d : defs)
			r.push_back(schema::InputValue::Make(keep(d.name), keep(d.description), ref(d.type), keep(d.defText())));
		return r;
	};
	const auto fields = [&](const std::vector<FieldDef>& defs) {
		std::vector<std::shared_ptr<const schema::Field>> r;
		for (const auto& f : defs)
			r.push_back(schema::Field::Make(keep(f.name), keep(f.description), reason(f.deprecated), ref(f.type), args(f.args)));
		return r;
	};
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& t = m.types[i];
		switch (t.kind)
		{
			case Kind::Scalar: break;
			case Kind::Enum:
			{
				std::vector<schema::EnumValueType> values;
				for (const auto& v : t.values)
					values.push_back({ keep(v.name), keep(v.description), reason(v.deprecated) });
				enums[t.name]->AddEnumValues(std::move(values));
				break;
			}
			case Kind::Input: inputs[t.name]->AddInputValues(args(t.inputs)); break;
			case Kind::Union:
			{
				std::vector<std::weak_ptr<const schema::BaseType>> members;
				for (const auto& n : t.members)
					members.push_back(s->LookupType(n));
				unions[t.name]->AddPossibleTypes(std::move(members));
				break;
			}
			case Kind::Interface: interfaces[t.name]->AddFields(fields(t.fields)); break;
			case Kind::Object:
			{
				std::vector<std::shared_ptr<const schema::InterfaceType>> ifs;
				for (const auto& n : t.interfaces)
					ifs.push_back(interfaces[n]);
				if (!ifs.empty())
					objects[t.name]->AddInterfaces(std::move(ifs));
				objects[t.name]->AddFields(fields(t.fields));
				break;
			}
		}
	}
	static const std::map<std::string, introspection::DirectiveLocation> locations = [] {
		std::map<std::string, introspection::DirectiveLocation> r;
		using L = introspection::DirectiveLocation;
		const L all[] = { L::QUERY, L::MUTATION, L::SUBSCRIPTION, L::FIELD, L::FRAGMENT_DEFINITION, L::FRAGMENT_SPREAD, L::INLINE_FRAGMENT, L::SCHEMA, L::SCALAR, L::OBJECT, L::FIELD_DEFINITION, L::ARGUMENT_DEFINITION, L::INTERFACE, L::UNION, L::ENUM, L::ENUM_VALUE, L::INPUT_OBJECT, L::INPUT_FIELD_DEFINITION };
		for (size_t i = 0; i < 18; ++i)
			r[c_allLocations[i]] = all[i];
		return r;
	}();
	for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
	{
		const auto& d = m.directives[i];
		std::vector<introspection::DirectiveLocation> ls;
		for (const auto& l : d.locations)
			ls.push_back(locations.at(l));
		s->AddDirective(schema::Directive::Make(keep(d.name), keep(d.description), std::move(ls), args(d.args)));
	}
	s->AddQueryType(objects[m.query]);
	if (!m.mutation.empty())
		s->AddMutationType(objects[m.mutation]);
	if (!m.subscription.empty())
		s->AddSubscriptionType(objects[m.subscription]);
	return built;
}

} // namespace h
