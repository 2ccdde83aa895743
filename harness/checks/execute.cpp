// C01 data, C02 failures, C04 arguments, C05 directives, C23 operation selection.
#include "exec.h"
#include "graphqlservice/internal/SyntaxTree.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>

using namespace graphql;
using namespace h;

namespace {

struct State : service::RequestState
{
};

struct Case
{
	std::shared_ptr<World> world;
	Doc doc;
	size_t op = 0;
	JV variables = JV::makeMap();
	bool unvalidated = false;
	bool async = false;

	const Op& operation() const
	{
		return doc.ops[op];
	}
};

void describe(Ctx& ctx, const Case& c)
{
	ctx.desc << "document:\n" << c.doc.text << "\noperation '" << c.operation().name << "' variables " << show(c.variables) << "\nseed " << c.world->seed << " faults " << c.world->options.faultRate << " nulls " << c.world->options.nullRate << " futures " << c.world->options.futureRate
			 << (c.async ? " async" : "") << (c.unvalidated ? " unvalidated" : "") << "\nschema:\n"
			 << c.world->m.sdl() << "\n";
}

Case generate(Src& src, const SchemaOptions& so, const DocOptions& docOptions, const WorldOptions& wo, bool subscriptions = false)
{
	Case c;
	auto schema = genSchema(src, so);
	c.doc = genDoc(src, schema, docOptions);
	render(src, c.doc, src.coin(1, 3) ? 1 : 0);
	std::vector<size_t> usable;
	for (size_t i = 0; i < c.doc.ops.size(); ++i)
		if (subscriptions || c.doc.ops[i].kind != "subscription")
			usable.push_back(i);
	if (usable.empty())
	{
		c.op = c.doc.ops.size();
		return c;
	}
	c.op = src.pick(usable);
	c.variables = genVariables(src, schema, c.operation());
	c.world = std::make_shared<World>(buildSchema(schema), src.below(1u << 30), wo);
	return c;
}

JV execute(const Case& c, TestService& service, const std::shared_ptr<State>& state)
{
	auto ast = peg::parseString(c.doc.text);
	const auto launch = c.async ? std::launch::async : std::launch::deferred;
	const std::string name = c.operation().name;
	if (c.unvalidated)
		return fromValue(service.resolve(launch, state, *ast.root, name, toValue(c.variables)).get());
	return fromValue((c.async ? service.resolve(launch, state, ast, name, toValue(c.variables)) : service.resolve(state, ast, name, toValue(c.variables))).get());
}

const std::string& rootOf(const MSchema& m, const Op& op)
{
	return op.kind == "mutation" ? m.mutation : op.kind == "subscription" ? m.subscription : m.query;
}

int contextOf(const Op& op)
{
	return static_cast<int>(op.kind == "mutation" ? service::ResolverContext::Mutation : service::ResolverContext::Query);
}

void features(const Doc& doc, const std::vector<Sel>& sels, Ctx& ctx, size_t& interesting)
{
	for (const auto& s : sels)
	{
		if (s.kind == Sel::Spread)
			ctx.label("fragment spreads"), ++interesting;
		if (s.kind == Sel::Inline)
			ctx.label("inline fragments"), ++interesting;
		if (!s.alias.empty())
			ctx.label("aliases");
		if (!s.args.empty())
			ctx.label("fields with arguments"), ++interesting;
		for (const auto& d : s.dirs)
			ctx.label(d.name == "skip" || d.name == "include" ? "skip and include" : "custom directives"), ++interesting;
		features(doc, s.sub, ctx, interesting);
	}
}

void runC01(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.nullRate = static_cast<unsigned>(src.below(4)) * 10;
	wo.futureRate = src.coin(1, 3) ? 40 : 0;
	wo.maxList = 1 + src.below(4);
	DocOptions doc;
	doc.fragmentWeight = 2 + static_cast<unsigned>(src.below(4));
	doc.maxDepth = 2 + src.below(4);
	auto c = generate(src, {}, doc, wo);
	if (c.op >= c.doc.ops.size())
	{
		ctx.discarded = true;
		return;
	}
	c.unvalidated = src.coin(1, 6);
	c.async = src.coin(1, 5);
	describe(ctx, c);
	auto service = makeService(c.world);
	auto state = std::make_shared<State>();
	const auto expected = expectOperation(*c.world, c.doc, c.operation(), c.variables, rootOf(c.world->m, c.operation()), 0, contextOf(c.operation()));
	const auto response = execute(c, *service, state);
	const auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	size_t interesting = 0;
	features(c.doc, c.operation().sels, ctx, interesting);
	ctx.label("fields", expected.fields);
	ctx.nontrivial = expected.fields >= 4 && interesting > 0;
}

void runC02(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.nullRate = static_cast<unsigned>(src.below(3)) * 10;
	wo.faultRate = 5 + static_cast<unsigned>(src.below(5)) * 10;
	wo.poisonRate = static_cast<unsigned>(src.below(4)) * 15;
	wo.hookRate = src.coin(1, 4) ? 10 + static_cast<unsigned>(src.below(3)) * 10 : 0;
	wo.futureRate = static_cast<unsigned>(src.below(3)) * 40;
	wo.promised = src.coin(1, 4);
	wo.async = src.coin(1, 4);
	wo.maxList = 1 + src.below(4);
	DocOptions doc;
	doc.introspection = src.coin(1, 4);
	auto c = generate(src, {}, doc, wo);
	if (c.op >= c.doc.ops.size())
	{
		ctx.discarded = true;
		return;
	}
	c.unvalidated = src.coin(1, 8);
	c.async = src.coin(1, 3);
	describe(ctx, c);
	{
		// Outside of a request, an error says what its first message says.
		const auto a = cat("first \"", src.below(1000), "\"\n"), b = cat("second ", src.below(1000));
		service::schema_exception ex { std::vector<std::string> { a, b } };
		ctx.require(ex.what() == a, cat("what() is ", ex.what(), " instead of ", a));
		const auto values = fromValue(ex.getErrors());
		ctx.require(values.kind == JV::List && values.list.size() == 2 && show(values.list[0]) == show(JV::makeMap({ { "message", JV::string(a) } })) && show(values.list[1]) == show(JV::makeMap({ { "message", JV::string(b) } })), "an exception with two messages has the errors " + show(values));
	}
	auto service = makeService(c.world);
	const auto expected = expectOperation(*c.world, c.doc, c.operation(), c.variables, rootOf(c.world->m, c.operation()), 0, contextOf(c.operation()));
	const auto response = execute(c, *service, std::make_shared<State>());
	const auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	ctx.label("errors", expected.errors.size());
	size_t deep = 0, indexed = 0;
	for (const auto& e : expected.errors)
	{
		deep += e.path.size() > 1;
		for (const auto& p : e.path)
			indexed += p.kind == JV::Int;
	}
	ctx.label("errors below the root", deep);
	ctx.label("list indexes in error paths", indexed);
	ctx.label(expected.errors.empty() ? "without errors" : "with errors");
	ctx.nontrivial = !expected.errors.empty() && expected.fields > expected.errors.size();
}

void runC05(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.nullRate = 5;
	wo.futureRate = src.coin(1, 3) ? 50 : 0;
	SchemaOptions so;
	so.bigDirectives = true;
	DocOptions doc;
	doc.fragmentWeight = 5;
	doc.introspection = false;
	auto c = generate(src, so, doc, wo, true);
	if (c.op >= c.doc.ops.size())
	{
		ctx.discarded = true;
		return;
	}
	c.async = src.coin(1, 6);
	describe(ctx, c);
	auto service = makeService(c.world);
	auto state = std::make_shared<State>();
	Expected expected;
	const auto expect = [&](uint64_t id, service::ResolverContext context) {
		expected = expectOperation(*c.world, c.doc, c.operation(), c.variables, rootOf(c.world->m, c.operation()), id, static_cast<int>(context));
	};
	const auto check = [&](const std::string& where) {
		const auto problem = compareCalls(*c.world, expected, state.get(), true);
		ctx.require(problem.empty(), where + problem);
	};
	if (c.operation().kind == "subscription")
	{
		// The accessors are called for the registration, for each of the events, and for the removal.
		ctx.label("subscriptions");
		const auto launch = c.async ? std::launch::async : std::launch::deferred;
		// These two raise the errors of the accessor, so that they only compare without any.
		expect(0, service::ResolverContext::NotifySubscribe);
		if (!expected.errors.empty())
		{
			ctx.discarded = true;
			return;
		}
		const auto key = service->subscribe(launch, service::SubscriptionParams { state, peg::parseString(c.doc.text), std::string { c.operation().name }, toValue(c.variables) }, [](std::future<response::Value> f) { (void)f.get(); }).get();
		check("subscribing: ");
		for (size_t i = 0, n = 1 + src.below(2); i < n; ++i)
		{
			c.world->reset();
			const uint64_t id = src.below(100);
			expect(id, service::ResolverContext::Subscription);
			for (const auto& f : c.world->m.type(c.world->m.subscription)->fields)
				service->deliver(launch, f.name, [](response::MapType::const_reference) { return true; }, makeObject(c.world, c.world->m.subscription, id, 0));
			check(cat("event ", i, ": "));
		}
		c.world->reset();
		expect(0, service::ResolverContext::NotifyUnsubscribe);
		service->unsubscribe(launch, key).get();
		check("unsubscribing: ");
	}
	else
	{
		expect(0, static_cast<service::ResolverContext>(contextOf(c.operation())));
		(void)execute(c, *service, state);
		check("");
	}
	size_t seen = 0;
	for (const auto& [p, call] : expected.calls)
	{
		const bool d = !call.definition.map.empty(), s = !call.spread.map.empty(), i = !call.inlined.map.empty();
		if (!call.operation.map.empty())
			ctx.label("calls with operation directives"), ++seen;
		if (d)
			ctx.label("calls with fragment definition directives"), ++seen;
		if (s)
			ctx.label("calls with fragment spread directives"), ++seen;
		if (i)
			ctx.label("calls with inline fragment directives"), ++seen;
		if (!call.dirs.map.empty())
			ctx.label("calls with field directives"), ++seen;
		if (call.spread.map.size() > 1 || call.definition.map.size() > 1 || call.inlined.map.size() > 1)
			ctx.label("calls with several directives at one location");
	}
	ctx.label("calls", expected.calls.size());
	ctx.nontrivial = seen > 0 && expected.calls.size() > 1;
}

// ---------------------------------------------------------------- C04

JV genAny(Src& src, size_t depth)
{
	switch (src.below(depth > 2 ? 6 : 9))
	{
		case 0: return JV::null();
		case 1: return JV::integer(genInt32(src));
		case 2: return JV::real(genDouble(src));
		case 3: return JV::boolean(src.coin());
		case 4:
		{
			auto text = genText(src, 4);
			// Superfluous padding of identifiers is not specified.
			std::replace(text.begin(), text.end(), '=', '-');
			return JV::string(text);
		}
		case 5:
		{
			static const std::vector<std::string> texts { "RED", "AAAA", "AA==", "QQ", "A", "AAB=", "A===", "AB", "AAA", "AA A", "AA-_", "blue" };
			auto s = JV::string(src.pick(texts));
			if (src.coin())
				s.fromJson = true;
			return s;
		}
		case 6: return JV::enumeration(src.coin() ? "RED" : "UNKNOWN_VALUE");
		case 7:
		{
			JV r = JV::makeList();
			for (size_t i = 0, n = src.below(3); i < n; ++i)
				r.list.push_back(genAny(src, depth + 1));
			return r;
		}
		default:
		{
			JV r = JV::makeMap();
			for (size_t i = 0, n = src.below(3); i < n; ++i)
				r.set(cat(src.coin() ? "v" : "i", i), genAny(src, depth + 1));
			return r;
		}
	}
}

// Changes one place of the value.
void disturb(Src& src, JV& v)
{
	JV* at = &v;
	while (src.coin(2, 3))
	{
		if (at->kind == JV::List && !at->list.empty())
			at = &at->list[src.below(at->list.size())];
		else if (at->kind == JV::Map && !at->map.empty())
			at = &at->map[src.below(at->map.size())].second;
		else
			break;
	}
	switch (src.below(6))
	{
		case 0: *at = JV::null(); break;
		case 1:
			if (at->kind == JV::Map && !at->map.empty())
			{
				at->map.erase(at->map.begin() + static_cast<long>(src.below(at->map.size())));
				break;
			}
			*at = genAny(src, 0);
			break;
		case 2: *at = JV::makeList({ *at }); break;
		case 3:
			if (at->kind == JV::List && at->list.size() == 1)
			{
				JV inner = at->list[0];
				*at = inner;
				break;
			}
			*at = genAny(src, 0);
			break;
		case 4:
			if (at->kind == JV::Map)
			{
				at->set("unknown_member", genAny(src, 1));
				break;
			}
			if (at->kind == JV::Int)
			{
				*at = JV::real(static_cast<double>(at->i));
				break;
			}
			*at = genAny(src, 0);
			break;
		default: *at = genAny(src, 0);
	}
}

bool hasWord(const std::string& text, const std::string& word)
{
	for (size_t i = text.find(word); i != std::string::npos; i = text.find(word, i + 1))
	{
		const auto letter = [&](size_t k) { return k < text.size() && (std::isalnum(static_cast<unsigned char>(text[k])) || text[k] == '_'); };
		if (!(i && letter(i - 1)) && !letter(i + word.size()))
			return true;
	}
	return false;
}

// ModifiedArgument directly on argument maps.
void argumentsDirect(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.introspection = false;
	const auto m = genSchema(src, so);
	std::vector<const InputDef*> defs;
	for (const auto& t : m.types)
	{
		if (t.name.substr(0, 2) == "__")
			continue;
		for (const auto& f : t.fields)
			for (const auto& a : f.args)
				defs.push_back(&a);
		for (const auto& i : t.inputs)
			defs.push_back(&i);
	}
	if (defs.empty())
	{
		ctx.discarded = true;
		return;
	}
	const auto& def = *defs[src.below(defs.size())];
	JV arguments = JV::makeMap();
	if (src.coin(1, 5))
		arguments.set("other", genAny(src, 0));
	const auto form = src.weighted({ 5, 5, 3, 1 });
	if (form != 3)
	{
		JV v = form == 2 ? genAny(src, 0) : genInputValue(src, m, def.type);
		if (form == 1)
			disturb(src, v);
		arguments.set(def.name, v);
	}
	if (src.coin(1, 5))
		arguments.set("another", genAny(src, 0));
	ctx.desc << "type " << def.type.text() << " name " << def.name << " arguments " << show(arguments) << "\nschema:\n" << m.sdl();
	const auto want = expectTyped(m, def.type, arguments.find(def.name));
	const auto value = toValue(arguments);
	ctx.label(want ? "accepted" : "rejected");
	ctx.nontrivial = form != 3 && !(want && want->isNull());
	const auto before = fromValue(value);
	std::string error;
	std::optional<JV> got;
	try
	{
		got = extractTyped(m, def.type, def.name, value);
	}
	catch (service::schema_exception& ex)
	{
		const auto errors = ex.getStructuredErrors();
		ctx.require(!errors.empty(), "the exception holds no errors");
		error = errors.front().message;
		ctx.require(hasWord(error, def.name), "the error does not name the argument: " + error);
	}
	if (want)
	{
		ctx.require(got.has_value(), cat("rejected: ", error, ", expected ", show(*want)));
		ctx.require(equal(*got, *want), cat("extracted ", show(*got), ", expected ", show(*want)));
	}
	else
		ctx.require(!got, got ? cat("accepted as ", show(*got)) : "");
	const auto found = findTyped(m, def.type, def.name, value);
	ctx.require(found.second == want.has_value(), cat("find reports ", found.second ? "presence" : "absence"));
	if (want)
		ctx.require(equal(found.first, *want), cat("found ", show(found.first), ", expected ", show(*want)));
	ctx.require(equal(fromValue(value), before), "the arguments were changed");
}

void runC04(Src& src, Ctx& ctx)
{
	if (src.coin())
		return argumentsDirect(src, ctx);
	WorldOptions wo;
	wo.typed = true;
	wo.nullRate = 5;
	DocOptions doc;
	doc.introspection = false;
	doc.maxDepth = 3;
	doc.fragmentWeight = 1;
	auto c = generate(src, {}, doc, wo);
	if (c.op >= c.doc.ops.size())
	{
		ctx.discarded = true;
		return;
	}
	if (src.coin())
		for (const auto& v : c.operation().vars)
		{
			// @skip and @include need their Boolean.
			if (v.type.name == "Boolean" || src.coin(2, 3))
				continue;
			if (auto* p = c.variables.find(v.name))
				disturb(src, *p);
			else
				c.variables.set(v.name, genAny(src, 0));
			ctx.label("disturbed variables");
		}
	describe(ctx, c);
	auto service = makeService(c.world);
	auto state = std::make_shared<State>();
	const auto expected = expectOperation(*c.world, c.doc, c.operation(), c.variables, rootOf(c.world->m, c.operation()), 0, contextOf(c.operation()));
	const auto response = execute(c, *service, state);
	auto problem = compareCalls(*c.world, expected, state.get(), false);
	ctx.require(problem.empty(), problem);
	problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	size_t args = 0;
	for (const auto& [p, call] : expected.calls)
		args += call.typed.size();
	ctx.label("arguments", args);
	ctx.label("rejected calls", expected.errors.size());
	ctx.nontrivial = args + expected.errors.size() > 0;
}

// ---------------------------------------------------------------- C23

void runC23(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	auto schema = genSchema(src, so);
	DocOptions options;
	options.maxOps = 5;
	options.budget = 12;
	options.maxDepth = 2;
	options.introspection = false;
	auto doc = genDoc(src, schema, options);
	render(src, doc, src.coin(1, 3) ? 1 : 0);
	WorldOptions wo;
	auto world = std::make_shared<World>(buildSchema(schema), src.below(1u << 30), wo);
	auto service = makeService(world);
	std::string name;
	const Op* op = nullptr;
	const auto how = src.weighted({ 6, 2, 2 });
	if (how == 0)
	{
		op = &doc.ops[src.below(doc.ops.size())];
		name = op->name;
	}
	else if (how == 1)
	{
		// Unknown: near misses of the known names.
		name = doc.ops[src.below(doc.ops.size())].name;
		switch (src.below(4))
		{
			case 0: name += "_"; break;
			case 1: name = name.substr(0, name.size() / 2); break;
			case 2: name = doc.frags.empty() ? "query" : doc.frags[0].name; break;
			default: name = " " + name;
		}
		op = doc.op(name);
		if (name.empty())
		{
			ctx.discarded = true;
			return;
		}
	}
	else
	{
		if (doc.ops.size() != 1)
		{
			ctx.discarded = true;
			return;
		}
		op = &doc.ops[0];
	}
	// Variables of every operation, so that mixing them up shows.
	JV variables = JV::makeMap();
	for (const auto& o : doc.ops)
	{
		const auto vars = genVariables(src, schema, o);
		if (&o == op)
			for (const auto& [n, v] : vars.map)
				variables.set(n, v);
		else if (src.coin(1, 3))
			for (const auto& [n, v] : vars.map)
				if (!variables.find(n) && !(op && std::any_of(op->vars.begin(), op->vars.end(), [&n = n](const VarDef& d) { return d.name == n; })))
					variables.set(n, v);
	}
	const bool viaSubscribe = src.coin(1, 4);
	// The overloads with a launch policy, and the deprecated ones which take the root of a tree.
	const auto how2 = src.weighted({ 3, 1, 1, 1, 1 });
	const bool byRoot = how2 == 3 || how2 == 4;
	const auto launch = how2 == 2 || how2 == 4 ? std::launch::async : std::launch::deferred;
	ctx.desc << "document:\n" << doc.text << "\noperation '" << name << "' variables " << show(variables) << (viaSubscribe ? " subscribe" : "") << (byRoot ? " by root" : "") << (launch == std::launch::async ? " async" : "") << "\nschema:\n" << schema.sdl();
	ctx.nontrivial = doc.ops.size() > 1;
	auto ast = peg::parseString(doc.text);
	const auto found = service->findOperationDefinition(ast, name);
	if (!op)
		ctx.require(found.second == nullptr, "found an operation of an unknown name");
	else
	{
		ctx.require(found.second != nullptr, "did not find the operation");
		ctx.require(found.first == op->kind, cat("found kind ", found.first, ", expected ", op->kind));
		const auto position = found.second->begin();
		ctx.require(position.line == op->pos.line && position.column == op->pos.column, cat("found the operation at ", position.line, ":", position.column, ", expected ", op->pos.line, ":", op->pos.column));
	}
	const auto foundByRoot = service->findOperationDefinition(*ast.root, name);
	ctx.require(foundByRoot.second == found.second && foundByRoot.first == found.first, cat("searching from the root found kind '", foundByRoot.first, "' instead of '", found.first, "'"));
	auto state = std::make_shared<State>();
	if (viaSubscribe)
	{
		ctx.label("subscribe");
		size_t delivered = 0;
		std::optional<service::SubscriptionKey> key;
		std::string error;
		try
		{
			auto callback = [&](std::future<response::Value> f) {
				++delivered;
				(void)f.get();
			};
			service::SubscriptionParams params { state, std::move(ast), name, toValue(variables) };
			// The launch policy forms tell the default subscription object.
			key = how2 ? service->subscribe(launch, std::move(params), callback).get() : service->subscribe(std::move(params), callback);
		}
		catch (service::schema_exception& ex)
		{
			const auto errors = ex.getStructuredErrors();
			ctx.require(!errors.empty() && !errors.front().message.empty(), "rejected without a message");
			error = errors.front().message;
		}
		const bool valid = op && op->kind == "subscription";
		ctx.require(valid == key.has_value(), valid ? "subscribing failed: " + error : "subscribed to something which is not a subscription");
		for (const auto& call : world->calls)
			ctx.require(valid && how2 && call.context == static_cast<int>(service::ResolverContext::NotifySubscribe), "subscribing called a resolver: " + call.show());
		world->reset();
		std::string field;
		const MSchema& m = schema;
		if (!m.subscription.empty())
			for (const auto& f : m.type(m.subscription)->fields)
				service->deliver(f.name, [](response::MapType::const_reference) { return true; }, makeObject(world, m.subscription, 5, 0));
		ctx.require(delivered == (valid ? 1 : 0), cat("delivered ", delivered, " events"));
		if (valid)
		{
			const auto expected = expectOperation(*world, doc, *op, variables, schema.subscription, 5, static_cast<int>(service::ResolverContext::Subscription));
			const auto problem = compareCalls(*world, expected, state.get(), false);
			ctx.require(problem.empty(), problem);
		}
		return;
	}
	const auto response = fromValue(
		(how2 == 0       ? service->resolve(state, ast, name, toValue(variables))
				: how2 < 3 ? service->resolve(launch, state, ast, name, toValue(variables))
				: launch == std::launch::deferred ? service->resolve(state, *ast.root, name, toValue(variables))
												  : service->resolve(launch, state, *ast.root, name, toValue(variables)))
			.get());
	if (op && op->kind != "subscription")
	{
		ctx.label("executed");
		const auto expected = expectOperation(*world, doc, *op, variables, rootOf(schema, *op), 0, contextOf(*op));
		auto problem = compareResponse(response, expected);
		ctx.require(problem.empty(), problem);
		problem = compareCalls(*world, expected, state.get(), true);
		ctx.require(problem.empty(), problem);
		return;
	}
	ctx.label(op ? "subscription sent as a query" : "unknown operation");
	const auto* data = response.find("data");
	const auto* errors = response.find("errors");
	ctx.require(!data || data->isNull(), "data for a request which can not be executed: " + show(response));
	ctx.require(errors && errors->kind == JV::List && !errors->list.empty(), "no errors for a request which can not be executed: " + show(response));
	ctx.require(world->calls.empty(), "a resolver was called");
}

// ---------------------------------------------------------------- C24

struct Place
{
	std::vector<Sel>* sels;
	const TypeDef* type; // of the objects, may be abstract
};

void places(const MSchema& m, std::vector<Sel>& sels, const std::string& type, std::vector<Place>& out)
{
	out.push_back({ &sels, m.type(type) });
	for (auto& s : sels)
	{
		if (s.kind == Sel::Inline)
			places(m, s.sub, s.cond.empty() ? type : s.cond, out);
		else if (s.kind == Sel::Field && !s.sub.empty())
			places(m, s.sub, m.type(type)->field(s.name)->type.name, out);
	}
}

void runC24(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.nullRate = static_cast<unsigned>(src.below(3)) * 10;
	wo.futureRate = src.coin(1, 2) ? 40 : 0;
	wo.promised = src.coin(1, 6);
	wo.async = src.coin(1, 6);
	wo.maxList = 1 + src.below(3);
	DocOptions doc;
	doc.introspection = false;
	auto c = generate(src, {}, doc, wo);
	if (c.op >= c.doc.ops.size())
	{
		ctx.discarded = true;
		return;
	}
	const auto& m = c.world->m;
	std::vector<Place> all;
	for (auto& o : c.doc.ops)
		if (&o == &c.doc.ops[c.op])
			places(m, o.sels, rootOf(m, o), all);
	for (auto& f : c.doc.frags)
		places(m, f.sels, f.cond, all);
	// From the inside out, so that the places stay where they are until they are used.
	std::reverse(all.begin(), all.end());
	const auto rate = 1 + src.below(4);
	size_t edits = 0;
	for (const auto& p : all)
	{
		auto& sels = *p.sels;
		if (!src.coin(rate, 8))
			continue;
		const auto at = [&] { return sels.begin() + static_cast<long>(src.below(sels.size() + 1)); };
		const auto fresh = cat("zz", edits);
		switch (src.below(4))
		{
			case 0:
			{
				Sel s;
				s.name = fresh;
				if (src.coin(1, 3))
					s.alias = fresh + "a";
				if (src.coin(1, 4))
				{
					Sel t;
					t.name = src.coin() ? "__typename" : "zzInner";
					s.sub.push_back(t);
				}
				sels.insert(at(), s);
				ctx.label("unknown fields"), ++edits;
				break;
			}
			case 1:
			{
				if (!src.coin())
					break;
				Sel s;
				s.kind = Sel::Spread;
				s.name = fresh;
				sels.insert(at(), s);
				ctx.label("unknown fragments"), ++edits;
				break;
			}
			default:
			{
				std::vector<Sel*> fields;
				for (auto& s : sels)
					if (s.kind == Sel::Field && s.name.compare(0, 2, "zz") != 0)
					{
						const auto* f = p.type->field(s.name);
						const auto* t = f ? m.type(f->type.name) : nullptr;
						// Enums are converted by generated code, which takes no notice.
						if (s.name == "__typename" || (f && f->type.lists.empty() && !(t && t->kind == Kind::Enum)))
							fields.push_back(&s);
					}
				if (fields.empty())
					break;
				auto& s = *src.pick(fields);
				if (s.sub.empty())
				{
					Sel t;
					t.name = src.coin() ? "__typename" : "zzInner";
					s.sub.push_back(t);
					ctx.label("selections of leaves"), ++edits;
				}
				else
				{
					s.sub.clear();
					ctx.label("objects without selections"), ++edits;
				}
			}
		}
	}
	render(src, c.doc, src.coin(1, 3) ? 1 : 0);
	c.async = src.coin(1, 3);
	c.unvalidated = src.coin();
	describe(ctx, c);
	const auto expected = expectOperation(*c.world, c.doc, c.operation(), c.variables, rootOf(m, c.operation()), 0, contextOf(c.operation()));
	auto service = makeService(c.world);
	auto ast = peg::parseString(c.doc.text);
	const auto launch = c.async ? std::launch::async : std::launch::deferred;
	const auto state = std::make_shared<State>();
	ast.validated = true;
	const auto response = fromValue((c.unvalidated ? service->resolve(launch, state, *ast.root, c.operation().name, toValue(c.variables)) : service->resolve(launch, state, ast, c.operation().name, toValue(c.variables))).get());
	const auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	size_t required = 0;
	for (const auto& e : expected.errors)
		required += !e.optional;
	ctx.label("errors", required);
	ctx.nontrivial = required > 0 && expected.fields > required;
}

// The directives and locations the design documents as limitations stay out of the generators.
const std::vector<std::string> c_assumptions {
	"composite fields have unique response names within a selection set (the library resolves the first of several and does not merge their sub-selections: known finding)",
	"null is delivered in place for non-null composite fields (the library leaves null propagation to the client)",
};

bool compositesNotMerged()
{
	MSchema m;
	addBuiltins(m);
	const auto object = [&m](const char* name, std::vector<FieldDef> fields) {
		TypeDef t;
		t.kind = Kind::Object;
		t.name = name;
		t.fields = std::move(fields);
		m.types.push_back(t);
	};
	object("Query", { FieldDef { "c", TypeRef { {}, true, "O" } } });
	object("O", { FieldDef { "x", TypeRef { {}, true, "Int" } }, FieldDef { "y", TypeRef { {}, true, "Int" } } });
	m.query = "Query";
	WorldOptions wo;
	wo.nullRate = 0;
	auto world = std::make_shared<World>(buildSchema(m), 1, wo);
	auto ast = peg::parseString("{a:c{x} a:c{y}}");
	const auto response = fromValue(makeService(world)->resolve(std::make_shared<State>(), ast, "", response::Value(response::Type::Map)).get());
	const auto* data = response.find("data");
	const auto* a = data ? data->find("a") : nullptr;
	return a && a->kind == JV::Map && a->find("x") && !a->find("y");
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C01";
		p.rule = "at least 4 fields resolved and a fragment, argument or directive in the operation";
		p.run = runC01;
		p.quickCases = 10000;
		p.thoroughCases = 250000;
		p.assumptions = c_assumptions;
		p.known.push_back({ "composite-merge", "{a:c{x} a:c{y}} resolves only the sub-selection of the first of several composite fields with the same response name", compositesNotMerged });
		add(std::move(p));

		p = {};
		p.id = "C02";
		p.rule = "at least one error, and fewer errors than fields";
		p.run = runC02;
		p.quickCases = 12000;
		p.thoroughCases = 250000;
		p.assumptions = c_assumptions;
		add(std::move(p));

		p = {};
		p.id = "C04";
		p.rule = "an argument is present and not just a null which is accepted";
		p.run = runC04;
		p.quickCases = 24000;
		p.thoroughCases = 300000;
		add(std::move(p));

		p = {};
		p.id = "C05";
		p.rule = "several calls, one of them enclosed by a directive";
		p.run = runC05;
		p.quickCases = 6000;
		p.thoroughCases = 250000;
		add(std::move(p));

		p = {};
		p.id = "C23";
		p.rule = "the document has several operations";
		p.run = runC23;
		p.quickCases = 16000;
		p.thoroughCases = 250000;
		add(std::move(p));

		p = {};
		p.id = "C24";
		p.rule = "a misfit is reported, and more fields are resolved than errors reported";
		p.run = runC24;
		p.quickCases = 12000;
		p.thoroughCases = 250000;
		p.assumptions = c_assumptions;
		add(std::move(p));
	}
} s_register;

} // namespace
