// C06 valid documents are accepted, C07 broken ones are rejected, C08 history does not matter.
#include "exec.h"
#include "mutate.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/SyntaxTree.h"

#include <algorithm>

using namespace graphql;
using namespace h;

namespace {

struct State : service::RequestState
{
};

std::string showErrors(const std::list<service::schema_error>& errors)
{
	std::string r;
	for (const auto& e : errors)
		r += cat("  ", e.message, " (", e.location.line, ":", e.location.column, ") ", pathText(e.path), "\n");
	return r;
}

bool inside(const std::string& text, size_t line, size_t column)
{
	size_t l = 1, start = 0;
	while (l < line)
	{
		const auto nl = text.find('\n', start);
		if (nl == std::string::npos)
			return false;
		start = nl + 1;
		++l;
	}
	if (line == 0 || column == 0)
		return false;
	auto end = text.find('\n', start);
	if (end == std::string::npos)
		end = text.size();
	return start + column - 1 <= end;
}

const std::string& rootOf(const MSchema& m, const Op& op)
{
	return op.kind == "mutation" ? m.mutation : op.kind == "subscription" ? m.subscription : m.query;
}

// ---------------------------------------------------------------- C06

void runC06(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.introspection = !src.coin(1, 8);
	const auto schema = genSchema(src, so);
	DocOptions options;
	options.dupComposites = src.coin();
	options.maxOps = 1 + src.below(5);
	options.maxDepth = 2 + src.below(5);
	options.budget = 10 + src.below(50);
	options.fragmentWeight = 1 + static_cast<unsigned>(src.below(8));
	auto doc = genDoc(src, schema, options);
	render(src, doc, src.coin(1, 3) ? 1 : 0);
	const auto& op = doc.ops[src.below(doc.ops.size())];
	const auto variables = genVariables(src, schema, op);
	WorldOptions wo;
	wo.nullRate = 5;
	auto world = std::make_shared<World>(buildSchema(schema), src.below(1u << 30), wo);
	ctx.desc << "document:\n" << doc.text << "\noperation '" << op.name << "' variables " << show(variables) << "\nschema:\n" << schema.sdl();
	auto service = makeService(world);
	auto ast = peg::parseString(doc.text);
	const auto errors = service->validate(ast);
	ctx.require(errors.empty(), "a valid document was rejected:\n" + showErrors(errors));
	size_t fields = 0;
	if (op.kind != "subscription")
	{
		const auto response = fromValue(service->resolve(std::make_shared<State>(), ast, op.name, toValue(variables)).get());
		ctx.require(!response.find("errors"), "executing a valid document gave errors: " + show(response));
		const auto* data = response.find("data");
		ctx.require(data && data->kind == JV::Map, "executing a valid document gave no data: " + show(response));
		fields = data->map.size();
		ctx.label("executed");
	}
	else
	{
		try
		{
			(void)service->subscribe(service::SubscriptionParams { std::make_shared<State>(), std::move(ast), op.name, toValue(variables) }, [](std::future<response::Value>) {});
		}
		catch (const service::schema_exception& ex)
		{
			ctx.fail(cat("subscribing to a valid document failed: ", ex.what()));
		}
		++fields;
		ctx.label("subscribed");
	}
	ctx.label("operations", doc.ops.size());
	ctx.label("fragments", doc.frags.size());
	for (const auto& o : doc.ops)
		ctx.label("variables", o.vars.size());
	ctx.nontrivial = fields > 0 && (doc.frags.size() + doc.ops.size() > 1 || !op.vars.empty());
}

// ---------------------------------------------------------------- C07

void checkRejected(Ctx& ctx, TestService& service, World& world, const Doc& doc, const std::string& operation, const JV& variables, bool viaSubscribe)
{
	auto ast = peg::parseString(doc.text);
	const auto errors = service.validate(ast);
	ctx.require(!errors.empty(), "validation accepts the document");
	for (const auto& e : errors)
	{
		ctx.require(!e.message.empty(), "an error without a message");
		ctx.require(inside(doc.text, e.location.line, e.location.column), cat("the error does not point into the document: ", e.message, " (", e.location.line, ":", e.location.column, ")"));
	}
	if (viaSubscribe)
	{
		bool thrown = false;
		std::list<service::schema_error> raised;
		try
		{
			(void)service.subscribe(service::SubscriptionParams { std::make_shared<State>(), std::move(ast), std::string { operation }, toValue(variables) }, [](std::future<response::Value>) {});
		}
		catch (service::schema_exception& ex)
		{
			thrown = true;
			raised = ex.getStructuredErrors();
		}
		ctx.require(thrown, "subscribing to it succeeds");
		ctx.require(showErrors(raised) == showErrors(errors), "subscribing reports other errors:\n" + showErrors(raised) + "than validating:\n" + showErrors(errors));
	}
	else
	{
		const auto response = fromValue(service.resolve(std::make_shared<State>(), ast, operation, toValue(variables)).get());
		const auto* data = response.find("data");
		ctx.require(!data || data->isNull(), "a rejected document gave data: " + show(response));
		const auto* list = response.find("errors");
		ctx.require(list && list->kind == JV::List && list->list.size() == errors.size(), "the response does not report the errors of the validation: " + show(response));
		auto it = errors.begin();
		for (const auto& e : list->list)
		{
			const auto* message = e.find("message");
			ctx.require(message && message->s == it->message, "the response reports another message: " + show(response));
			const auto* locations = e.find("locations");
			ctx.require(locations && locations->kind == JV::List && locations->list.size() == 1, "the response reports no location: " + show(response));
			const auto* line = locations->list[0].find("line");
			const auto* column = locations->list[0].find("column");
			ctx.require(line && column && static_cast<size_t>(line->i) == it->location.line && static_cast<size_t>(column->i) == it->location.column, "the response reports another location: " + show(response));
			++it;
		}
	}
	ctx.require(world.calls.empty(), "a resolver was called");
}

void runC07(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.introspection = !src.coin(1, 8);
	const auto schema = genSchema(src, so);
	DocOptions options;
	options.maxOps = 1 + src.below(3);
	options.budget = 5 + src.below(25);
	options.fragmentWeight = 1 + static_cast<unsigned>(src.below(6));
	options.dupComposites = src.coin(1, 4);
	auto doc = genDoc(src, schema, options);
	const auto original = doc;
	std::optional<std::string> rule;
	static const auto rules = ruleNames();
	const auto first = src.below(rules.size());
	rule = breakRule(src, schema, doc, rules[first]);
	for (int i = 0; !rule && i < 5; ++i)
		rule = breakRule(src, schema, doc);
	if (!rule)
	{
		ctx.discarded = true;
		return;
	}
	std::string also;
	if (src.coin(1, 10))
	{
		// Only edits which cannot undo the first one.
		static const std::vector<std::string> additions { "unused fragment", "unused variable", "type system definition" };
		const auto& second = src.pick(additions);
		if (breakRule(src, schema, doc, second))
			also = " and " + second;
	}
	render(src, doc, src.coin(1, 4) ? 1 : 0);
	const auto& op = doc.ops[src.below(doc.ops.size())];
	WorldOptions wo;
	auto world = std::make_shared<World>(buildSchema(schema), src.below(1u << 30), wo);
	const auto variables = genVariables(src, schema, original.ops[src.below(original.ops.size())]);
	const bool viaSubscribe = op.kind == "subscription" || src.coin(1, 8);
	ctx.desc << "rule: " << *rule << also << "\ndocument:\n" << doc.text << "\noperation '" << op.name << "'\nschema:\n" << schema.sdl();
	auto service = makeService(world);
	checkRejected(ctx, *service, *world, doc, op.name, variables, viaSubscribe);
	ctx.label("broken: " + *rule);
	ctx.nontrivial = true;
}

// ---------------------------------------------------------------- C08

void runC08(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.introspection = !src.coin(1, 8);
	const auto schema = genSchema(src, so);
	auto world = std::make_shared<World>(buildSchema(schema), src.below(1u << 30), WorldOptions {});
	auto service = makeService(world);
	struct Entry
	{
		Doc doc;
		std::string rule;
		peg::ast ast;
		JV variables;
	};
	std::vector<Entry> entries;
	const size_t docs = 1 + src.below(4);
	for (size_t i = 0; i < docs; ++i)
	{
		DocOptions options;
		options.maxOps = 1 + src.below(3);
		options.budget = 3 + src.below(12);
		options.maxDepth = 3;
		Entry e;
		e.doc = genDoc(src, schema, options);
		e.variables = genVariables(src, schema, e.doc.ops[0]);
		if (src.coin(2, 3))
			for (int k = 0; k < 4 && e.rule.empty(); ++k)
				if (auto rule = breakRule(src, schema, e.doc))
					e.rule = *rule;
		render(src, e.doc, 0);
		e.ast = peg::parseString(e.doc.text);
		ctx.desc << "document " << i << (e.rule.empty() ? "" : " (" + e.rule + ")") << ":\n" << e.doc.text << "\n";
		entries.push_back(std::move(e));
	}
	size_t invalid = 0, repeated = 0;
	std::set<size_t> used;
	const size_t steps = 2 + src.below(7);
	for (size_t step = 0; step < steps; ++step)
	{
		const auto which = src.below(entries.size());
		auto& e = entries[which];
		const auto how = src.weighted({ 5, 4, 1, 2 });
		const bool reparse = src.coin();
		auto ast = reparse ? peg::parseString(e.doc.text) : e.ast;
		invalid += !e.rule.empty();
		repeated += !used.insert(which).second;
		// The same on a service which never saw anything else.
		auto freshWorld = std::make_shared<World>(buildSchema(schema), world->seed, WorldOptions {});
		auto fresh = makeService(freshWorld);
		auto freshAst = peg::parseString(e.doc.text);
		const auto& op = e.doc.ops[src.below(e.doc.ops.size())];
		ctx.desc << "step " << step << ": " << (how == 0 ? "validate" : how == 1 ? "resolve" : how == 2 ? "find" : "subscribe") << " document " << which << (reparse ? " parsed again" : "") << " operation '" << op.name << "'\n";
		const auto where = cat("step ", step, ": ");
		if (how == 0)
		{
			const auto got = showErrors(service->validate(ast));
			const auto want = showErrors(fresh->validate(freshAst));
			ctx.require(got == want, where + "validation gives\n" + got + "on a fresh service\n" + want);
			ctx.require(e.rule.empty() == want.empty(), where + "verdict of the fresh service");
		}
		else if (how == 1)
		{
			world->reset();
			const auto got = fromValue(service->resolve(std::make_shared<State>(), ast, op.name, toValue(e.variables)).get());
			const auto want = fromValue(fresh->resolve(std::make_shared<State>(), freshAst, op.name, toValue(e.variables)).get());
			ctx.require(equal(got, want), where + "response " + show(got) + "\non a fresh service " + show(want));
			ctx.require(world->calls.size() == freshWorld->calls.size(), where + "other resolvers were called");
		}
		else if (how == 2)
		{
			const auto find = [&](TestService& s, peg::ast& a) {
				try
				{
					const auto found = s.findOperationDefinition(a, op.name);
					return found.second ? cat(found.first, " ", found.second->begin().line, ":", found.second->begin().column) : "nothing";
				}
				catch (service::schema_exception& ex)
				{
					return showErrors(ex.getStructuredErrors());
				}
			};
			const auto got = find(*service, ast);
			const auto want = find(*fresh, freshAst);
			ctx.require(got == want, where + "finding the operation gives\n" + got + "\non a fresh service\n" + want);
		}
		else
		{
			const auto subscribe = [&](TestService& s, peg::ast a) {
				try
				{
					const auto key = s.subscribe(service::SubscriptionParams { std::make_shared<State>(), std::move(a), std::string { op.name }, toValue(e.variables) }, [](std::future<response::Value>) {});
					s.unsubscribe(key);
					return std::string { "subscribed" };
				}
				catch (service::schema_exception& ex)
				{
					return showErrors(ex.getStructuredErrors());
				}
			};
			const auto got = subscribe(*service, ast);
			const auto want = subscribe(*fresh, freshAst);
			ctx.require(got == want, where + "subscribing gives\n" + got + "on a fresh service\n" + want);
		}
	}
	ctx.desc << "schema:\n" << schema.sdl();
	ctx.label("steps", steps);
	ctx.label("steps with invalid documents", invalid);
	ctx.label("steps which repeat a document", repeated);
	ctx.nontrivial = steps > 2 && invalid > 0 && repeated > 0;
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C06";
		p.rule = "the operation selects something and the document has variables, fragments or several operations";
		p.run = runC06;
		p.quickCases = 14000;
		p.thoroughCases = 300000;
		p.assumptions = { "single values for list types and integers for ID are not generated (the library asks for a list and a string)" };
		add(std::move(p));

		p = {};
		p.id = "C07";
		p.rule = "a rule-breaking edit applied";
		p.run = runC07;
		p.quickCases = 20000;
		p.thoroughCases = 400000;
		add(std::move(p));

		p = {};
		p.id = "C08";
		p.rule = "at least three steps, one of them with an invalid document and one which repeats a document";
		p.run = runC08;
		p.quickCases = 2500;
		p.thoroughCases = 150000;
		add(std::move(p));
	}
} s_register;

} // namespace
