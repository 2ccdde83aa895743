// C17: introspection describes the schema exactly.
#include "exec.h"
#include "introspection.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>

using namespace h;
using namespace graphql;

namespace {

struct State : service::RequestState
{
};

JV send(TestService& service, const Doc& doc, const Op& op, const JV& variables, std::launch launch)
{
	auto ast = peg::parseString(doc.text);
	return fromValue(service.resolve(launch, std::make_shared<State>(), ast, op.name, toValue(variables)).get());
}

void refused(Src& src, Ctx& ctx)
{
	// The same schema without introspection.
	SchemaOptions so;
	so.introspection = false;
	so.descriptions = true;
	auto schema = genSchema(src, so);
	DocOptions options;
	options.only = "query";
	options.introspectionOnly = true;
	options.maxOps = 1;
	auto doc = src.coin() ? fullQuery(src, schema, src.coin()) : genDoc(src, schema, options);
	render(src, doc, 0);
	auto hidden = schema;
	hidden.noIntrospection = true;
	WorldOptions wo;
	auto world = std::make_shared<World>(buildSchema(hidden), src.below(1000), wo);
	auto service = makeService(world);
	ctx.desc << "without introspection:\n" << doc.text << "\nschema:\n" << schema.sdl();
	ctx.label("refused");
	ctx.nontrivial = true;
	const auto& op = doc.ops[0];
	auto ast = peg::parseString(doc.text);
	ctx.require(!service->validate(ast).empty(), "the document is valid for a service without introspection");
	const auto response = send(*service, doc, op, genVariables(src, schema, op), std::launch::deferred);
	const auto* data = response.find("data");
	const auto* errors = response.find("errors");
	ctx.require((!data || data->isNull()) && errors && errors->kind == JV::List && !errors->list.empty(), "the document is not refused: " + show(response));
	// The type name is still there.
	Doc names;
	Op o;
	o.sels = { field("__typename") };
	o.sels[0].alias = "n";
	const auto* root = hidden.type(hidden.query);
	for (const auto& f : root->fields)
		if (hidden.composite(f.type.name) && std::none_of(f.args.begin(), f.args.end(), [](const InputDef& a) { return a.required(); }))
			o.sels.push_back(field(f.name, { field("__typename") }));
	names.ops = { o };
	names.order = { 0 };
	render(src, names, 0);
	ctx.desc << names.text;
	const auto got = send(*service, names, o, JV::makeMap(), std::launch::deferred);
	const auto problem = compareResponse(got, expectOperation(*world, names, names.ops[0], JV::makeMap(), hidden.query, 0, static_cast<int>(service::ResolverContext::Query)));
	ctx.require(problem.empty(), problem);
}

void run(Src& src, Ctx& ctx)
{
	const auto how = src.weighted({ 4, 4, 2, 1 });
	if (how == 3)
	{
		refused(src, ctx);
		return;
	}
	SchemaOptions so;
	so.descriptions = true;
	so.introspection = false;
	so.maxObjects = 4;
	auto schema = genSchema(src, so);
	Doc doc;
	if (how == 0)
	{
		DocOptions options;
		options.only = "query";
		options.introspectionOnly = true;
		options.maxOps = 2;
		options.maxDepth = 3 + src.below(4);
		options.budget = 40;
		doc = genDoc(src, schema, options);
		ctx.label("random selections");
	}
	else
	{
		doc = fullQuery(src, schema, how == 2);
		ctx.label(how == 1 ? "whole schemas" : "every type by name");
	}
	render(src, doc, src.coin(1, 4) ? 1 : 0);
	const auto& op = doc.ops[src.below(doc.ops.size())];
	const auto variables = genVariables(src, schema, op);
	WorldOptions wo;
	auto world = std::make_shared<World>(buildSchema(schema), src.below(1000), wo);
	auto service = makeService(world);
	const bool async = src.coin(1, 6);
	ctx.desc << "document:\n" << doc.text << "\noperation '" << op.name << "' variables " << show(variables) << (async ? " async" : "") << "\nschema:\n" << schema.sdl();
	const auto response = send(*service, doc, op, variables, async ? std::launch::async : std::launch::deferred);
	const auto expected = expectOperation(*world, doc, op, variables, schema.query, 0, static_cast<int>(service::ResolverContext::Query));
	ctx.nontrivial = expected.fields >= 10;
	ctx.label("fields", expected.fields);
	const auto problem = compareResponse(response, expected);
	ctx.require(problem.empty(), problem);
	ctx.require(world->calls.empty(), "introspection calls a resolver of the schema");
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C17";
		p.rule = "at least ten introspection fields resolved, or a refusal without introspection";
		p.run = run;
		p.quickCases = 1500;
		p.thoroughCases = 100000;
		p.assumptions = { "an unknown type name gives null and an error entry" };
		add(std::move(p));
	}
} s_register;

} // namespace
