// C21: texts which mean the same schema generate the same service, texts which break a rule fail.
// The generator (its main function, with its options) runs in this process.
#include "rungen.h"
#include "gentext.h"
#include "sdl.h"

int schemagenMain(int argc, char** argv);

using namespace h;

namespace {

std::vector<std::string> options(const GenInput& g)
{
	std::vector<std::string> args { "--schema", "schema.graphql", "--prefix", "Made", "--namespace", g.ns };
	args.insert(args.end(), g.flags.begin(), g.flags.end());
	return args;
}

void sameService(Src& src, Ctx& ctx)
{
	auto g = genInput(src, SdlOptions { false, false, false, false }, src.coin(1, 4) ? "made::inner" : "made");
	SdlOptions o;
	o.layout = src.coin();
	size_t extensions = 0;
	auto m = g.model;
	const auto variant = sdlVariant(src, m, o, &extensions);
	ctx.desc << "flags";
	for (const auto& f : g.flags)
		ctx.desc << " " << f;
	ctx.desc << "\nschema text:\n" << g.sdl << "\nas:\n" << variant << "\n";
	const auto first = generate(schemagenMain, { { "schema.graphql", g.sdl } }, options(g));
	ctx.require(first.exit == 0, cat("schemagen refuses a valid schema (exit ", first.exit, "): ", first.messages));
	const auto second = generate(schemagenMain, { { "schema.graphql", variant } }, options(g));
	ctx.require(second.exit == 0, cat("schemagen refuses another text of the same schema (exit ", second.exit, "): ", second.messages));
	ctx.require(!first.files.empty(), "schemagen writes nothing");
	sameFiles(ctx, first, second, "the other text");
	ctx.label("equal services");
	ctx.label("extensions", extensions);
	ctx.nontrivial = extensions > 0 && g.model.types.size() > g.model.builtinTypes + 3;
}

void brokenText(Src& src, Ctx& ctx)
{
	auto g = genInput(src, SdlOptions { false, false, false, false }, "made");
	std::string rule;
	const auto text = sdlBroken(src, g.model, rule);
	if (text.empty())
	{
		ctx.discarded = true;
		return;
	}
	ctx.desc << "broken rule: " << rule << "\nschema text:\n" << text << "\n";
	const auto r = generate(schemagenMain, { { "schema.graphql", text } }, options(g));
	ctx.require(r.exit != 0, cat("schemagen accepts a ", rule, ": ", r.messages));
	ctx.require(r.files.empty(), cat("schemagen fails but writes ", r.files.empty() ? "" : r.files.begin()->first, " for a ", rule));
	ctx.label("broken: " + rule);
	ctx.nontrivial = true;
}

void commandLine(Src& src, Ctx& ctx)
{
	const auto g = genInput(src, SdlOptions { false, false, false, false }, src.coin(1, 4) ? "made::inner" : "made");
	CommandLine c { { { "schema", 's', "schema.graphql" }, { "prefix", 'p', src.coin(1, 3) ? "m" : "Made" }, { "namespace", 'n', g.ns } }, {} };
	for (const auto& f : g.flags)
		c.flags.push_back({ f });
	commandLines(src, ctx, schemagenMain, { { "schema.graphql", g.sdl } }, c);
}

void run(Src& src, Ctx& ctx)
{
	if (src.coin(1, 6))
		commandLine(src, ctx);
	else if (src.coin())
		brokenText(src, ctx);
	else
		sameService(src, ctx);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C21";
		p.rule = "a schema of more than three types with at least one extension, generated twice; or a text which breaks a named rule";
		p.run = run;
		p.quickCases = 8000;
		p.thoroughCases = 60000;
		p.assumptions = { "input types are not recursive (schemagen refuses them)", "services are the same when the same lines are generated in any order, list separators aside" };
		add(std::move(p));
	}
} s_register;

} // namespace
