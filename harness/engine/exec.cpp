#include "exec.h"
#include "dyn.h"

#include "graphqlservice/introspection/Introspection.h"

#include <algorithm>

namespace h {

namespace svc = graphql::service;
namespace resp = graphql::response;

// ---------------------------------------------------------------- delivery of results

Completer::Completer(uint64_t seed)
	: _shared(std::make_shared<Shared>())
{
	_shared->state = seed;
	_thread = std::thread([shared = _shared] { loop(*shared); });
}

Completer::~Completer()
{
	{
		std::lock_guard lock(_shared->mutex);
		_shared->done = true;
	}
	_shared->wake.notify_all();
	if (_thread.get_id() == std::this_thread::get_id())
		_thread.detach();
	else
		_thread.join();
}

void Completer::add(std::function<void()>&& complete)
{
	{
		std::lock_guard lock(_shared->mutex);
		_shared->pending.push_back(std::move(complete));
	}
	_shared->wake.notify_all();
}

void Completer::loop(Shared& s)
{
	for (;;)
	{
		std::function<void()> next;
		{
			std::unique_lock lock(s.mutex);
			s.wake.wait(lock, [&s] { return s.done || !s.pending.empty(); });
			if (s.pending.empty())
				return;
			s.state = mix(s.state);
			if (s.state & 1)
			{
				// Let some more gather, so that there is an order to choose.
				lock.unlock();
				for (unsigned i = 0; i < (s.state >> 8) % 8; ++i)
					std::this_thread::yield();
				lock.lock();
			}
			const auto i = (s.state >> 16) % s.pending.size();
			next = std::move(s.pending[i]);
			s.pending.erase(s.pending.begin() + static_cast<long>(i));
		}
		next();
	}
}

void raise(const Outcome& o)
{
	if (o.kind == Outcome::Schema || o.kind == Outcome::Late)
	{
		if (o.messages.empty() || hashBytes(o.messages[0]) % 2)
			throw svc::schema_exception { std::vector<std::string> { o.messages } };
		std::list<svc::schema_error> errors;
		for (const auto& message : o.messages)
			errors.push_back({ message });
		throw svc::schema_exception { std::move(errors) };
	}
	throw std::runtime_error { o.messages.at(0) };
}

// ---------------------------------------------------------------- data

World::World(std::shared_ptr<BuiltSchema> b, uint64_t s, const WorldOptions& o)
	: built(std::move(b))
	, m(*built->model)
	, seed(s)
	, options(o)
{
	if (options.promised)
		completer = std::make_unique<Completer>(seed);
}

void World::reset()
{
	std::lock_guard lock(mutex);
	calls.clear();
	events.clear();
	hooks.clear();
	hookErrors.clear();
}

namespace {

uint64_t fieldHash(uint64_t seed, const std::string& type, uint64_t id, const FieldDef& field, const JV& args)
{
	return mix(hashBytes(cat(type, "\x1f", field.name, "\x1f", show(args)), mix(seed ^ mix(id))));
}

} // namespace

Datum World::element(uint64_t hash, const TypeRef& type, size_t depth) const
{
	Datum d;
	if (!type.outerNonNull() && mix(hash ^ 0x11) % 100 < options.nullRate)
		return d;
	if (!type.lists.empty())
	{
		d.kind = Datum::List;
		const size_t most = depth >= options.maxList ? 1 : options.maxList - depth;
		const size_t n = mix(hash ^ 0x22) % (most + 1);
		for (size_t i = 0; i < n; ++i)
			d.list.push_back(element(mix(hash + i + 1), type.element(), depth + (type.lists.size() > 1 ? 1 : 0)));
		return d;
	}
	const auto* t = m.type(type.name);
	if (t && t->composite())
	{
		const auto possible = m.possible(type.name);
		if (possible.empty())
			return d;
		d.kind = Datum::Object;
		d.type = possible[mix(hash ^ 0x33) % possible.size()];
		d.id = mix(hash ^ 0x44);
		d.depth = depth + 1;
		return d;
	}
	d.kind = Datum::Leaf;
	Src src(mix(hash ^ 0x55));
	if (t && t->kind == Kind::Enum)
	{
		d.leaf = JV::enumeration(t->values[src.below(t->values.size())].name);
		if (mix(hash ^ 0x66) % 100 < options.poisonRate)
		{
			d.kind = Datum::Poison;
			d.message = cat("poison ", hash % 10000);
		}
	}
	else if (type.name == "Int")
		d.leaf = JV::integer(genInt32(src));
	else if (type.name == "Float")
		d.leaf = JV::real(genDouble(src));
	else if (type.name == "Boolean")
		d.leaf = JV::boolean(src.coin());
	else if (type.name == "String")
		d.leaf = JV::string(genText(src, 5));
	else if (type.name == "ID")
	{
		std::string bytes;
		for (size_t i = 0, n = src.below(6); i < n; ++i)
			bytes += static_cast<char>(src.below(256));
		// The bytes, as opposed to the text which encodes them.
		d.leaf.kind = JV::Scalar;
		d.leaf.list.push_back(JV::string(bytes));
	}
	else
	{
		d.leaf = genInputValue(src, m, TypeRef { {}, true, type.name });
	}
	return d;
}

Datum World::datum(const std::string& type, uint64_t id, size_t depth, const FieldDef& field, const JV& args) const
{
	return element(fieldHash(seed, type, id, field, args), field.type, depth);
}

Outcome World::outcome(const std::string& type, uint64_t id, const FieldDef& field, const JV& args) const
{
	const auto hash = fieldHash(mix(seed ^ 0x77), type, id, field, args);
	Outcome o;
	if (mix(hash ^ 1) % 100 < options.faultRate)
	{
		o.kind = static_cast<Outcome::Kind>(1 + mix(hash ^ 2) % 4);
		o.messages.push_back(cat("fault ", hash % 100000, mix(hash ^ 9) % 5 == 0 ? " \"quoted\" \\ \n\xC3\xA9" : ""));
		if ((o.kind == Outcome::Schema || o.kind == Outcome::Late) && mix(hash ^ 3) % 4 == 0)
			o.messages.push_back(cat("second ", hash % 100000));
	}
	if (mix(hash ^ 4) % 100 < options.futureRate)
	{
		std::vector<Mode> modes { Mode::Deferred, Mode::Ready };
		if (options.promised)
			modes.push_back(Mode::Promised);
		if (options.async)
			modes.push_back(Mode::Async);
		o.mode = modes[mix(hash ^ 5) % modes.size()];
		o.yields = mix(hash ^ 6) % 20;
	}
	if ((o.kind == Outcome::Late || o.kind == Outcome::LateStandard) && o.mode == Mode::Value)
		o.mode = mix(hash ^ 7) % 2 ? Mode::Deferred : Mode::Ready;
	return o;
}

Outcome World::refusal(const std::string& type, uint64_t id, bool root) const
{
	const auto hash = mix(hashBytes(type, mix(seed ^ 0x99) + id));
	Outcome o;
	if (mix(hash ^ 1) % 100 < options.hookRate)
	{
		o.kind = root || mix(hash ^ 2) % 2 ? Outcome::Schema : Outcome::Standard;
		o.messages.push_back(cat("refused ", hash % 100000));
		if (o.kind == Outcome::Schema && mix(hash ^ 3) % 4 == 0)
			o.messages.push_back(cat("second refusal ", hash % 100000));
	}
	return o;
}

// ---------------------------------------------------------------- objects

std::string pathText(const std::vector<JV>& path)
{
	std::string r;
	for (const auto& p : path)
		r += p.kind == JV::Int ? cat("[", p.i, "]") : cat("/", p.s);
	return r;
}

std::string pathText(const svc::error_path& path)
{
	std::string r;
	for (const auto& p : path)
		r += std::holds_alternative<size_t>(p) ? cat("[", std::get<size_t>(p), "]") : cat("/", std::get<std::string_view>(p));
	return r;
}

svc::TypeNames DynObject::names(const World& world, const std::string& type)
{
	svc::TypeNames r;
	for (const auto& t : world.m.types)
		if (world.m.is(type, t.name))
			r.emplace(std::string_view { t.name });
	return r;
}

svc::ResolverMap DynObject::resolvers(const std::shared_ptr<World>& world, const std::string& type)
{
	svc::ResolverMap r;
	const auto* def = world->m.type(type);
	for (const auto& f : def->fields)
		r.emplace(std::string_view { f.name }, [this, &f](Params&& params) { return resolveField(f, std::move(params)); });
	r.emplace(std::string_view { "__typename" }, [def](Params&& params) {
		return svc::ModifiedResult<resp::StringType>::convert(resp::StringType { def->name }, std::move(params));
	});
	if (type == world->m.query && world->options.introspection && !world->m.noIntrospection)
	{
		// As in the generated code of a query type.
		auto schema = world->built->schema;
		r.emplace(std::string_view { "__schema" }, [schema](Params&& params) {
			return svc::ModifiedResult<svc::Object>::convert(std::static_pointer_cast<svc::Object>(std::make_shared<graphql::introspection::Schema>(schema)), std::move(params));
		});
		r.emplace(std::string_view { "__type" }, [schema](Params&& params) {
			auto name = svc::ModifiedArgument<resp::StringType>::require("name", params.arguments);
			const auto& type = schema->LookupType(name);
			std::shared_ptr<graphql::introspection::object::Type> result;
			if (type)
				result = std::make_shared<graphql::introspection::Type>(type);
			return svc::ModifiedResult<graphql::introspection::object::Type>::convert<svc::TypeModifier::Nullable>(std::move(result), std::move(params));
		});
	}
	return r;
}

DynObject::DynObject(std::shared_ptr<World> world, const std::string& type, uint64_t id, size_t depth)
	: svc::Object(names(*world, type), resolvers(world, type))
	, _world(world)
	, _type(type)
	, _id(id)
	, _depth(depth)
{
}

Result DynObject::resolveField(const FieldDef& field, Params&& params) const
{
	Call c;
	c.path = pathText(svc::buildErrorPath(params.errorPath));
	c.type = _type;
	c.field = field.name;
	c.response = params.fieldName;
	c.id = _id;
	c.args = fromValue(params.arguments);
	c.operation = fromValue(params.operationDirectives);
	c.definition = fromValue(params.fragmentDefinitionDirectives);
	c.spread = fromValue(params.fragmentSpreadDirectives);
	c.inlined = fromValue(params.inlineFragmentDirectives);
	c.dirs = fromValue(params.fieldDirectives);
	c.context = static_cast<int>(params.resolverContext);
	c.state = params.state.get();
	c.launchAsync = params.launch == std::launch::async;
	const auto args = c.args;
	const bool mutation = params.resolverContext == svc::ResolverContext::Mutation;
	const auto path = c.path;
	std::exception_ptr failed;
	if (_world->options.typed)
	{
		try
		{
			std::string error;
			c.typed = extractAll(_world->m, field, params.arguments, error);
		}
		catch (...)
		{
			failed = std::current_exception();
		}
	}
	{
		std::lock_guard lock(_world->mutex);
		if (mutation)
			_world->events.push_back("begin " + path);
		_world->calls.push_back(std::move(c));
	}
	if (failed)
		std::rethrow_exception(failed);
	Delivery d { _world, _world->outcome(_type, _id, field, args), _world->datum(_type, _id, _depth, field, args), {} };
	if (mutation)
		d.finished = [world = _world, path] {
			std::lock_guard lock(world->mutex);
			world->events.push_back("end " + path);
		};
	const auto& t = field.type;
	if (t.name == "Int")
		return convertInt(t, std::move(d), std::move(params));
	if (t.name == "Float")
		return convertFloat(t, std::move(d), std::move(params));
	if (t.name == "String")
		return convertString(t, std::move(d), std::move(params));
	if (t.name == "Boolean")
		return convertBool(t, std::move(d), std::move(params));
	if (t.name == "ID")
		return convertId(t, std::move(d), std::move(params));
	const auto* def = _world->m.type(t.name);
	switch (def->kind)
	{
		case Kind::Enum: return convertEnum(t, std::move(d), std::move(params));
		case Kind::Scalar: return convertScalar(t, std::move(d), std::move(params));
		case Kind::Object: return convertDerived(t, std::move(d), std::move(params));
		default: return convertObject(t, std::move(d), std::move(params));
	}
}

void DynObject::beginSelectionSet(const svc::SelectionSetParams& params) const
{
	const auto refusal = _world->refusal(_type, _id, !params.errorPath);
	if (refusal.kind == Outcome::Schema)
	{
		auto messages = refusal.messages;
		throw svc::schema_exception { std::move(messages) };
	}
	if (refusal.kind == Outcome::Standard)
		throw std::runtime_error(refusal.messages.at(0));
	std::lock_guard lock(_world->mutex);
	const auto path = pathText(svc::buildErrorPath(params.errorPath));
	auto& h = _world->hooks[path];
	++h.first;
	if (h.second)
		_world->hookErrors.push_back("begin after end at " + path);
	(void)fromValue(params.operationDirectives);
}

void DynObject::endSelectionSet(const svc::SelectionSetParams& params) const
{
	std::lock_guard lock(_world->mutex);
	++_world->hooks[pathText(svc::buildErrorPath(params.errorPath))].second;
}

std::shared_ptr<svc::Object> makeObject(const std::shared_ptr<World>& world, const std::string& type, uint64_t id, size_t depth)
{
	return std::make_shared<DynObject>(world, type, id, depth);
}

std::shared_ptr<TestService> makeService(const std::shared_ptr<World>& world, bool subscriptionObject)
{
	svc::TypeMap ops;
	const auto& m = world->m;
	ops.emplace(std::string_view { "query" }, makeObject(world, m.query, 0, 0));
	if (!m.mutation.empty())
		ops.emplace(std::string_view { "mutation" }, makeObject(world, m.mutation, 0, 0));
	if (!m.subscription.empty())
		ops.emplace(std::string_view { "subscription" }, subscriptionObject ? makeObject(world, m.subscription, 0, 0) : nullptr);
	return std::make_shared<TestService>(std::move(ops), world->built->schema);
}

// ---------------------------------------------------------------- reference executor

namespace {

// What an object of the introspection schema stands for.
struct Node
{
	TypeRef ref; // __Type
	const FieldDef* field = nullptr;
	const InputDef* input = nullptr;
	const EnumDef* value = nullptr;
	const DirectiveDef* directive = nullptr;
};

// A fragment which the document does not define.
struct Unknown
{
	std::string name;
	Pos pos;
};

struct FragmentDirs
{
	JV definition = JV::makeMap(), spread = JV::makeMap(), inlined = JV::makeMap();
};

JV inherit(JV inner, const JV& outer)
{
	for (const auto& [n, v] : outer.map)
		if (!inner.find(n))
			inner.map.emplace_back(n, v);
	return inner;
}

struct Executor
{
	const World& w;
	const MSchema& m;
	const Doc& doc;
	const JV vars;
	JV operation;
	int context;
	Expected out;
	std::vector<Node> nodes;

	struct Obj
	{
		std::string type;
		uint64_t id = 0;
		size_t depth = 0;
		bool meta() const
		{
			return type.substr(0, 2) == "__";
		}
	};

	void error(std::vector<std::string> anyOf, bool exact, const Sel& s, const std::vector<JV>& path)
	{
		ExpectedError e;
		e.anyOf = std::move(anyOf);
		e.exact = exact;
		e.line = s.pos.line;
		e.column = s.pos.column;
		e.path = path;
		out.errors.push_back(std::move(e));
	}

	JV object(const Obj& o, const std::vector<Sel>& sels, const std::vector<JV>& path)
	{
		JV r = JV::makeMap();
		if (!o.meta())
			out.objects.insert(pathText(path));
		collect(o, sels, path, {}, r);
		return r;
	}

	void collect(const Obj& o, const std::vector<Sel>& sels, const std::vector<JV>& path, const FragmentDirs& dirs, JV& r)
	{
		for (const auto& s : sels)
		{
			if (skipped(s.dirs, vars))
				continue;
			if (s.kind == Sel::Field)
			{
				if (!r.find(s.response()))
				{
					auto p = path;
					p.push_back(JV::string(s.response()));
					JV v = field(o, s, p, dirs);
					r.map.emplace_back(s.response(), std::move(v));
				}
				continue;
			}
			const Frag* f = s.kind == Sel::Spread ? doc.frag(s.name) : nullptr;
			if (s.kind == Sel::Spread && !f)
				throw Unknown { s.name, s.pos };
			const auto& cond = f ? f->cond : s.cond;
			if (!cond.empty() && !(o.meta() ? o.type == cond : m.is(o.type, cond)))
				continue;
			FragmentDirs inner = dirs;
			if (f)
			{
				inner.definition = inherit(evaluateDirs(f->dirs, vars), dirs.definition);
				inner.spread = inherit(evaluateDirs(s.dirs, vars), dirs.spread);
			}
			else
				inner.inlined = inherit(evaluateDirs(s.dirs, vars), dirs.inlined);
			collect(o, f ? f->sels : s.sub, path, inner, r);
		}
	}

	JV field(const Obj& o, const Sel& s, const std::vector<JV>& path, const FragmentDirs& dirs)
	{
		++out.fields;
		if (s.name == "__typename")
		{
			if (!s.sub.empty())
			{
				error({ "" }, false, s, path);
				out.errors.back().orLater = true;
				return JV::null();
			}
			return JV::string(o.type);
		}
		const JV args = evaluateArgs(s.args, vars);
		if (o.meta())
			return complete(meta(o, s.name, args), s, path);
		if (s.name == "__schema" || s.name == "__type")
		{
			Datum d;
			if (s.name == "__schema")
			{
				d.kind = Datum::Object;
				d.type = "__Schema";
			}
			else
			{
				const auto* n = args.find("name");
				if (!n || n->kind != JV::String || !m.type(n->s))
				{
					error({ "" }, false, s, path);
					return JV::null();
				}
				d = typeNode(TypeRef { {}, false, n->s });
			}
			return complete(d, s, path);
		}
		const auto* def = m.type(o.type)->field(s.name);
		if (!def)
		{
			auto outer = path;
			outer.pop_back();
			error({ s.name }, false, s, outer);
			out.errors.back().orBelow = s.response();
			return JV::null();
		}
		Call c;
		c.path = pathText(path);
		c.type = o.type;
		c.field = s.name;
		c.response = s.response();
		c.id = o.id;
		c.args = args;
		c.operation = operation;
		c.definition = dirs.definition;
		c.spread = dirs.spread;
		c.inlined = dirs.inlined;
		c.dirs = evaluateDirs(s.dirs, vars);
		c.context = context;
		std::string bad;
		if (w.options.typed)
			c.typed = expectAll(m, *def, args, bad);
		if (!bad.empty())
			c.typed.clear();
		JV key = args;
		if (w.options.byTyped)
		{
			c.args = JV::makeMap();
			key = JV::makeMap();
			for (const auto& [n, v] : c.typed)
				key.map.emplace_back(n, v);
		}
		if (bad.empty() || !w.options.byTyped) // generated code does not get to the accessor
			out.calls[c.path] = c;
		if (!bad.empty())
		{
			error({ bad }, false, s, path);
			return JV::null();
		}
		const auto o2 = w.outcome(o.type, o.id, *def, key);
		if (o2.kind != Outcome::Ok)
		{
			const bool exact = o2.kind == Outcome::Schema || o2.kind == Outcome::Late;
			for (const auto& message : o2.messages)
				error({ message }, exact, s, path);
			return JV::null();
		}
		const auto value = w.datum(o.type, o.id, o.depth, *def, key);
		const auto* fieldType = m.type(def->type.name);
		if ((fieldType && fieldType->composite()) == s.sub.empty())
		{
			// A selection set where there can not be one, or none where there has to be one.
			error({ "" }, false, s, path);
			out.errors.back().optional = value.kind == Datum::Null;
			out.errors.back().orLater = true; // at the selection set which does not belong there
			return JV::null();
		}
		return complete(value, s, path);
	}

	JV complete(const Datum& d, const Sel& s, const std::vector<JV>& path)
	{
		switch (d.kind)
		{
			case Datum::Null: return JV::null();
			case Datum::Poison: error({ d.message }, false, s, path); return JV::null();
			case Datum::Object:
			{
				const Obj o { d.type, d.id, d.depth };
				const auto refusal = o.meta() ? Outcome {} : w.refusal(o.type, o.id, false);
				if (refusal.kind != Outcome::Ok)
				{
					for (const auto& message : refusal.messages)
						error({ message }, refusal.kind == Outcome::Schema, s, path);
					return JV::null();
				}
				const auto before = out.errors.size();
				try
				{
					return object(o, s.sub, path);
				}
				catch (const Unknown& u)
				{
					// What the object has reported goes with it, or not.
					for (auto i = before; i < out.errors.size(); ++i)
						out.errors[i].optional = true;
					ExpectedError e;
					e.anyOf = { u.name };
					e.exact = false;
					e.line = u.pos.line;
					e.column = u.pos.column;
					e.path = path;
					e.orLater = true; // within the spread
					out.errors.push_back(std::move(e));
					return JV::null();
				}
			}
			case Datum::List:
			{
				JV r = JV::makeList();
				for (size_t i = 0; i < d.list.size(); ++i)
				{
					auto p = path;
					p.push_back(JV::integer(static_cast<int64_t>(i)));
					r.list.push_back(complete(d.list[i], s, p));
				}
				return r;
			}
			default: return d.leaf.kind == JV::Scalar ? JV::string(encodeBase64(d.leaf.list.at(0).s)) : d.leaf;
		}
	}

	// ------------------------------------------------------------ introspection

	static Datum leaf(JV v)
	{
		Datum d;
		d.kind = v.isNull() ? Datum::Null : Datum::Leaf;
		d.leaf = std::move(v);
		return d;
	}
	static Datum text(const std::string& s)
	{
		return leaf(s.empty() ? JV::null() : JV::string(s));
	}
	Datum node(const char* type, Node n)
	{
		Datum d;
		d.kind = Datum::Object;
		d.type = type;
		d.id = nodes.size();
		nodes.push_back(std::move(n));
		return d;
	}
	Datum typeNode(const TypeRef& ref)
	{
		Node n;
		n.ref = ref;
		return node("__Type", n);
	}
	Datum named(const std::string& name)
	{
		return name.empty() ? Datum {} : typeNode(TypeRef { {}, false, name });
	}
	static Datum list()
	{
		Datum d;
		d.kind = Datum::List;
		return d;
	}
	Datum inputs(const std::vector<InputDef>& defs)
	{
		auto d = list();
		for (const auto& i : defs)
		{
			Node n;
			n.input = &i;
			d.list.push_back(node("__InputValue", n));
		}
		return d;
	}
	static bool deprecatedToo(const JV& args)
	{
		const auto* v = args.find("includeDeprecated");
		return v && v->kind == JV::Bool && v->b;
	}

	Datum meta(const Obj& o, const std::string& name, const JV& args)
	{
		if (o.type == "__Schema")
		{
			if (name == "types")
			{
				auto d = list();
				for (const auto& t : m.types)
					d.list.push_back(named(t.name));
				return d;
			}
			if (name == "queryType")
				return named(m.query);
			if (name == "mutationType")
				return named(m.mutation);
			if (name == "subscriptionType")
				return named(m.subscription);
			auto d = list(); // directives
			for (const auto& x : m.directives)
			{
				Node n;
				n.directive = &x;
				d.list.push_back(node("__Directive", n));
			}
			return d;
		}
		const Node n = nodes.at(o.id);
		if (o.type == "__Type")
		{
			const bool nonNull = n.ref.outerNonNull();
			const bool wrapped = nonNull || !n.ref.lists.empty();
			const auto* t = wrapped ? nullptr : m.type(n.ref.name);
			if (name == "kind")
			{
				if (nonNull)
					return leaf(JV::enumeration("NON_NULL"));
				if (wrapped)
					return leaf(JV::enumeration("LIST"));
				static const char* kinds[] = { "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT" };
				return leaf(JV::enumeration(kinds[static_cast<int>(t->kind)]));
			}
			if (name == "ofType")
				return !wrapped ? Datum {} : typeNode(nonNull ? n.ref.nullable() : n.ref.element());
			if (!t)
				return {};
			if (name == "name")
				return text(t->name);
			if (name == "description")
				return text(t->description);
			if (name == "fields" && (t->kind == Kind::Object || t->kind == Kind::Interface))
			{
				auto d = list();
				for (const auto& f : t->fields)
					if (!f.deprecated || deprecatedToo(args))
					{
						Node x;
						x.field = &f;
						d.list.push_back(node("__Field", x));
					}
				return d;
			}
			if (name == "interfaces" && t->kind == Kind::Object)
			{
				auto d = list();
				for (const auto& i : t->interfaces)
					d.list.push_back(named(i));
				return d;
			}
			if (name == "possibleTypes" && (t->kind == Kind::Interface || t->kind == Kind::Union))
			{
				auto d = list();
				for (const auto& i : m.possible(t->name))
					d.list.push_back(named(i));
				return d;
			}
			if (name == "enumValues" && t->kind == Kind::Enum)
			{
				auto d = list();
				for (const auto& v : t->values)
					if (!v.deprecated || deprecatedToo(args))
					{
						Node x;
						x.value = &v;
						d.list.push_back(node("__EnumValue", x));
					}
				return d;
			}
			if (name == "inputFields" && t->kind == Kind::Input)
				return inputs(t->inputs);
			return {};
		}
		if (o.type == "__Directive")
		{
			if (name == "name")
				return text(n.directive->name);
			if (name == "description")
				return text(n.directive->description);
			if (name == "args")
				return inputs(n.directive->args);
			auto d = list();
			for (const auto& l : n.directive->locations)
				d.list.push_back(leaf(JV::enumeration(l)));
			return d;
		}
		if (o.type == "__InputValue")
		{
			if (name == "name")
				return text(n.input->name);
			if (name == "description")
				return text(n.input->description);
			if (name == "type")
				return typeNode(n.input->type);
			return text(n.input->defText());
		}
		const auto& deprecated = n.field ? n.field->deprecated : n.value->deprecated;
		if (name == "name")
			return text(n.field ? n.field->name : n.value->name);
		if (name == "description")
			return text(n.field ? n.field->description : n.value->description);
		if (name == "isDeprecated")
			return leaf(JV::boolean(deprecated.has_value()));
		if (name == "deprecationReason")
			return leaf(deprecated ? JV::string(*deprecated) : JV::null());
		if (name == "args")
			return inputs(n.field->args);
		return typeNode(n.field->type);
	}
};


} // namespace

Expected expectOperation(const World& world, const Doc& doc, const Op& op, const JV& variables, const std::string& rootType, uint64_t rootId, int context)
{
	Executor e { world, world.m, doc, operationVariables(op, variables), JV::makeMap(), context, {}, {} };
	e.operation = evaluateDirs(op.dirs, e.vars);
	const auto refusal = world.refusal(rootType, rootId, true);
	if (refusal.kind != Outcome::Ok)
	{
		for (const auto& message : refusal.messages)
		{
			ExpectedError error;
			error.anyOf = { message };
			error.located = false;
			e.out.errors.push_back(std::move(error));
		}
		return std::move(e.out);
	}
	try
	{
		e.out.data = e.object({ rootType, rootId, 0 }, op.sels, {});
	}
	catch (const Unknown& u)
	{
		ExpectedError error;
		error.anyOf = { u.name };
		error.exact = false;
		error.line = u.pos.line;
		error.column = u.pos.column;
		error.orNoPath = true;
		error.orLater = true;
		for (auto& x : e.out.errors)
			x.optional = true;
		e.out.errors.push_back(error);
	}
	return std::move(e.out);
}

// ---------------------------------------------------------------- comparison

std::string ExpectedError::show() const
{
	if (!located)
		return cat("= ", escape(anyOf.at(0)), " without a path");
	std::string r = cat(exact ? "= " : "~ ", escape(anyOf.at(0)), " at ", line, ":", column, " path ", pathText(path));
	return r;
}

std::string Call::show() const
{
	return cat(path, " = ", type, "#", id % 10000, ".", field, h::show(args), " as ", response, "\n   operation ", h::show(operation), " definition ", h::show(definition), " spread ", h::show(spread), " inline ", h::show(inlined), " field ", h::show(dirs), " context ", context);
}

namespace {

// First difference between two values.
std::string differ(const JV& got, const JV& want, const std::string& path)
{
	if (equal(got, want))
		return "";
	if (got.kind == JV::Map && want.kind == JV::Map)
	{
		for (size_t i = 0; i < std::max(got.map.size(), want.map.size()); ++i)
		{
			if (i >= got.map.size())
				return cat("missing ", path, "/", want.map[i].first);
			if (i >= want.map.size())
				return cat("additional ", path, "/", got.map[i].first);
			if (got.map[i].first != want.map[i].first)
				return cat("at ", path, " member ", i, " is ", got.map[i].first, ", expected ", want.map[i].first);
			auto d = differ(got.map[i].second, want.map[i].second, path + "/" + want.map[i].first);
			if (!d.empty())
				return d;
		}
	}
	if (got.kind == JV::List && want.kind == JV::List && got.list.size() == want.list.size())
		for (size_t i = 0; i < got.list.size(); ++i)
		{
			auto d = differ(got.list[i], want.list[i], cat(path, "[", i, "]"));
			if (!d.empty())
				return d;
		}
	return cat("at ", path, " is ", show(got), ", expected ", show(want));
}

bool errorMatches(const JV& got, const ExpectedError& want)
{
	const auto* message = got.find("message");
	const auto* locations = got.find("locations");
	const auto* path = got.find("path");
	if (!want.located)
		return message && message->kind == JV::String && message->s == want.anyOf.at(0) && !path;
	const auto none = JV::makeList();
	if (!path && want.orNoPath)
		path = &none;
	if (!message || message->kind != JV::String || !locations || locations->kind != JV::List || locations->list.size() != 1 || !path || path->kind != JV::List)
		return false;
	bool ok = false;
	for (const auto& a : want.anyOf)
		ok = ok || (want.exact ? message->s == a : message->s.find(a) != std::string::npos);
	if (!ok)
		return false;
	const auto* line = locations->list[0].find("line");
	const auto* column = locations->list[0].find("column");
	if (!line || !column)
		return false;
	const auto at = std::make_pair(line->i, column->i), wanted = std::make_pair(static_cast<int64_t>(want.line), static_cast<int64_t>(want.column));
	if (want.orLater ? at < wanted : at != wanted)
		return false;
	if (path->list.size() != want.path.size() && !(!want.orBelow.empty() && path->list.size() == want.path.size() + 1 && equal(path->list.back(), JV::string(want.orBelow))))
		return false;
	for (size_t i = 0; i < want.path.size(); ++i)
		if (!equal(path->list[i], want.path[i]))
			return false;
	return true;
}

} // namespace

std::string compareResponse(const JV& response, const Expected& expected)
{
	if (response.kind != JV::Map)
		return "the response is not a map";
	for (const auto& [n, v] : response.map)
		if (n != "data" && n != "errors")
			return "unexpected member " + n;
	const auto* data = response.find("data");
	if (!data)
		return "no data";
	auto d = differ(*data, expected.data, "data");
	if (!d.empty())
		return d;
	const auto* errors = response.find("errors");
	if (!errors)
		for (const auto& x : expected.errors)
			if (!x.optional)
				return cat("no errors, expected ", x.show());
	if (errors && expected.errors.empty())
		return cat("unexpected errors ", show(*errors));
	if (errors)
	{
		if (errors->kind != JV::List)
			return "errors is not a list";
		auto want = expected.errors;
		for (const auto& e : errors->list)
		{
			// Prefer exact matches, so that the general ones remain for the others.
			size_t best = want.size();
			for (size_t i = 0; i < want.size(); ++i)
				if (errorMatches(e, want[i]) && (best == want.size() || want[i].exact || want[i].anyOf[0].size() > want[best].anyOf[0].size()))
					best = i;
			if (best == want.size())
			{
				std::string all;
				for (const auto& x : want)
					all += "\n    " + x.show();
				return cat("unexpected error ", show(e), ", remaining expected ones are", all);
			}
			want.erase(want.begin() + static_cast<long>(best));
		}
		for (const auto& x : want)
			if (!x.optional)
				return cat("missing error ", x.show());
	}
	return "";
}

std::string compareCallList(const std::vector<Call>& calls, const Expected& expected, const void* state)
{
	std::map<std::string, size_t> seen;
	for (const auto& c : calls)
	{
		const auto itr = expected.calls.find(c.path);
		if (itr == expected.calls.end())
			return cat("unexpected call ", c.show());
		if (++seen[c.path] > 1)
			return cat("called twice: ", c.show());
		const auto& want = itr->second;
		const auto problem = [&](const char* what) {
			return cat(what, " differ: got ", c.show(), "\n  expected ", want.show());
		};
		if (c.type != want.type || c.id != want.id || c.field != want.field || c.response != want.response)
			return problem("objects or fields");
		if (!equal(c.args, want.args))
			return problem("arguments");
		if (!equalUnordered(c.operation, want.operation))
			return problem("operation directives");
		if (!equalUnordered(c.definition, want.definition))
			return problem("fragment definition directives");
		if (!equalUnordered(c.spread, want.spread))
			return problem("fragment spread directives");
		if (!equalUnordered(c.inlined, want.inlined))
			return problem("inline fragment directives");
		if (!equalUnordered(c.dirs, want.dirs))
			return problem("field directives");
		if (c.context != want.context)
			return problem("contexts");
		if (c.state != state)
			return problem("request states");
		if (c.typed.size() != want.typed.size())
			return problem("numbers of typed arguments");
		for (size_t i = 0; i < c.typed.size(); ++i)
			if (c.typed[i].first != want.typed[i].first || !equal(c.typed[i].second, want.typed[i].second))
				return cat("argument ", c.typed[i].first, " at ", c.path, " is ", show(c.typed[i].second), ", expected ", show(want.typed[i].second));
	}
	for (const auto& [p, c] : expected.calls)
		if (!seen.count(p))
			return cat("not called: ", c.show());
	return "";
}

std::string compareCalls(const World& world, const Expected& expected, const void* state, bool hooks)
{
	auto problem = compareCallList(world.calls, expected, state);
	if (!problem.empty())
		return problem;
	if (hooks)
	{
		if (!world.hookErrors.empty())
			return world.hookErrors[0];
		for (const auto& [p, n] : world.hooks)
			if (!expected.objects.count(p) || n.first != 1 || n.second != 1)
				return cat("selection set hooks at '", p, "' ran ", n.first, " and ", n.second, " times");
		for (const auto& p : expected.objects)
			if (!world.hooks.count(p))
				return cat("no selection set hooks at '", p, "'");
	}
	return "";
}

} // namespace h
