// C18: services generated from a schema text behave as the schema says. The generated code of
// several schemas and its implementations (checks/../engine/emit.cpp) are linked into this program.
#include "gen.h"
#include "introspection.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>

using namespace h;
using namespace graphql;

namespace {

struct State : service::RequestState
{
};

struct Loaded
{
	GenInput input;
	std::shared_ptr<BuiltSchema> built;
};

const Loaded& load(const GenCase& c)
{
	static std::map<uint64_t, Loaded> cache;
	auto& l = cache[c.seed];
	if (!l.built)
	{
		l.input = genInput(c.seed);
		l.built = buildSchema(l.input.model);
	}
	return l;
}

// The order of types and their members is no part of the property.
void byName(JV& v)
{
	for (auto& e : v.list)
		byName(e);
	for (auto& [n, e] : v.map)
		byName(e);
	const auto name = [](const JV& e) { return e.find("name") && e.find("name")->kind == JV::String; };
	if (v.kind == JV::List && std::all_of(v.list.begin(), v.list.end(), name))
		std::stable_sort(v.list.begin(), v.list.end(), [](const JV& a, const JV& b) { return a.find("name")->s < b.find("name")->s; });
}

struct Case
{
	const Loaded* l = nullptr;
	std::shared_ptr<World> world;
	GenService service;
};

Case open(Src& src, Ctx& ctx, const WorldOptions& wo)
{
	const auto& all = genCases();
	const auto& g = all.at(src.below(all.size()));
	Case c;
	c.l = &load(g);
	c.world = std::make_shared<World>(c.l->built, src.below(1u << 30), wo);
	c.service = g.make(c.world);
	ctx.desc << "schema " << g.seed << " flags";
	for (const auto& f : c.l->input.flags)
		ctx.desc << " " << f;
	ctx.desc << " data " << c.world->seed << "\n";
	return c;
}

void showSchema(Ctx& ctx, const Case& c)
{
	ctx.desc << "schema text:\n" << c.l->input.sdl << "\n";
}

JV send(service::Request& service, const Doc& doc, const Op& op, const JV& variables, std::launch launch, const std::shared_ptr<State>& state)
{
	auto ast = peg::parseString(doc.text);
	return fromValue(service.resolve(launch, state, ast, op.name, toValue(variables)).get());
}

void requests(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.typed = true;
	wo.byTyped = true;
	wo.nullRate = static_cast<unsigned>(src.below(3)) * 10;
	wo.faultRate = src.coin(1, 3) ? 10 : 0;
	wo.futureRate = src.coin(1, 3) ? 40 : 0;
	wo.maxList = 1 + src.below(3);
	auto c = open(src, ctx, wo);
	const auto& m = c.l->input.model;
	DocOptions options;
	options.introspection = false;
	options.only = m.mutation.empty() || src.coin() ? "query" : "mutation";
	options.maxOps = 1 + src.below(2);
	auto doc = genDoc(src, m, options);
	render(src, doc, src.coin(1, 4) ? 1 : 0);
	const auto& op = doc.ops[src.below(doc.ops.size())];
	const auto variables = genVariables(src, m, op);
	const bool async = src.coin(1, 6);
	ctx.desc << "document:\n" << doc.text << "\noperation '" << op.name << "' variables " << show(variables) << (async ? " async" : "") << "\n";
	showSchema(ctx, c);
	const auto state = std::make_shared<State>();
	const bool mutation = op.kind == "mutation";
	const auto expected = expectOperation(*c.world, doc, op, variables, mutation ? m.mutation : m.query, 0, static_cast<int>(mutation ? service::ResolverContext::Mutation : service::ResolverContext::Query));
	const auto response = send(*c.service.request, doc, op, variables, async ? std::launch::async : std::launch::deferred, state);
	auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	problem = compareCallList(c.world->calls, expected, state.get());
	ctx.require(problem.empty(), problem);
	size_t args = 0;
	for (const auto& call : c.world->calls)
		args += call.typed.size();
	ctx.label(op.kind == "mutation" ? "mutations" : "queries");
	ctx.label("calls", c.world->calls.size());
	ctx.label("arguments", args);
	ctx.label("errors", expected.errors.size());
	ctx.nontrivial = expected.fields >= 4 && args > 0;
}

void introspection(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.typed = true;
	wo.byTyped = true;
	auto c = open(src, ctx, wo);
	const auto& m = c.l->input.model;
	auto visible = m;
	visible.noIntrospection = false;
	auto doc = fullQuery(src, visible, src.coin());
	render(src, doc, 0);
	const auto& op = doc.ops[0];
	const auto variables = genVariables(src, m, op);
	ctx.desc << "document:\n" << doc.text << "\nvariables " << show(variables) << "\n";
	showSchema(ctx, c);
	auto response = send(*c.service.request, doc, op, variables, std::launch::deferred, std::make_shared<State>());
	ctx.require(c.world->calls.empty(), "introspection calls a resolver of the schema");
	ctx.nontrivial = true;
	if (m.noIntrospection)
	{
		const auto* data = response.find("data");
		const auto* errors = response.find("errors");
		ctx.require((!data || data->isNull()) && errors && errors->kind == JV::List && !errors->list.empty(), "introspection is not refused: " + show(response));
		ctx.label("introspection refused");
		return;
	}
	auto expected = expectOperation(*c.world, doc, op, variables, m.query, 0, static_cast<int>(service::ResolverContext::Query));
	byName(response);
	byName(expected.data);
	const auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	ctx.label("introspection");
}

void subscription(Src& src, Ctx& ctx)
{
	WorldOptions wo;
	wo.typed = true;
	wo.byTyped = true;
	wo.nullRate = 10;
	auto c = open(src, ctx, wo);
	const auto& m = c.l->input.model;
	if (m.subscription.empty())
	{
		ctx.discarded = true;
		return;
	}
	DocOptions options;
	options.introspection = false;
	options.only = "subscription";
	options.maxOps = 1;
	auto doc = genDoc(src, m, options);
	render(src, doc, 0);
	const auto& op = doc.ops[0];
	const auto variables = genVariables(src, m, op);
	ctx.desc << "document:\n" << doc.text << "\nvariables " << show(variables) << "\n";
	showSchema(ctx, c);
	const auto state = std::make_shared<State>();
	std::vector<JV> received;
	const auto key = c.service.request->subscribe(service::SubscriptionParams { state, peg::parseString(doc.text), std::string { op.name }, toValue(variables) }, [&received](std::future<response::Value> f) {
		received.push_back(fromValue(f.get()));
	});
	c.world->reset();
	const uint64_t id = src.coin() ? 1 + src.below(100) : 0;
	const auto object = id ? c.world->objects(c.world, m.subscription, id, 0) : nullptr;
	const auto expected = expectOperation(*c.world, doc, op, variables, m.subscription, id, static_cast<int>(service::ResolverContext::Subscription));
	std::set<std::string> fields;
	for (const auto& f : m.type(m.subscription)->fields)
		c.service.request->deliver(f.name, object);
	// A subscription without a field left is never delivered.
	ctx.require(received.size() <= 1 && (received.size() == 1 || expected.data.map.empty()), cat(received.size(), " events are received"));
	if (received.empty())
		return;
	auto problem = compareResponse(received[0], expected);
	ctx.require(problem.empty(), problem);
	problem = compareCallList(c.world->calls, expected, state.get());
	ctx.require(problem.empty(), problem);
	c.service.request->unsubscribe(key);
	for (const auto& f : m.type(m.subscription)->fields)
		c.service.request->deliver(f.name, object);
	ctx.require(received.size() == 1, "an event is received after unsubscribe");
	ctx.label("subscriptions");
	ctx.nontrivial = expected.fields >= 3;
}

void run(Src& src, Ctx& ctx)
{
	switch (src.weighted({ 8, 1, 2 }))
	{
		case 1: introspection(src, ctx); break;
		case 2: subscription(src, ctx); break;
		default: requests(src, ctx); break;
	}
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C18";
		p.rule = "at least four fields and an argument resolved, an introspection of the whole schema, or an event with at least three fields";
		p.run = run;
		p.quickCases = 60000;
		p.thoroughCases = 40000; // per batch of schemas
		p.assumptions = { "input types are not recursive (schemagen refuses them)", "the order of types and members in introspection is open" };
		add(std::move(p));
	}
} s_register;

} // namespace
