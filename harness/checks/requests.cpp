// C19, the part which needs no compiler: which requests the client generator accepts, and that its
// output depends on what they mean. The generator (its main function) runs in this process.
#include "rungen.h"

#include "genclient.h"
#include "gentext.h"
#include "mutate.h"

int clientgenMain(int argc, char** argv);

using namespace h;

namespace {

std::vector<std::string> options(Src* src, const ClientInput& c)
{
	std::vector<std::string> args;
	if (src && src->coin(1, 3))
		args = { "schema.graphql", "request.graphql", "Made", c.schema.ns };
	else if (src && src->coin())
		args = { "-s", "schema.graphql", "-r", "request.graphql", "-p", "Made", "-n", c.schema.ns };
	else
		args = { "--schema", "schema.graphql", "--request", "request.graphql", "--prefix", "Made", "--namespace", c.schema.ns };
	for (const auto& f : c.flags)
		args.push_back(src && f == "--operation" && src->coin() ? "-o" : f);
	if (src && src->coin(1, 3))
		args.push_back(src->coin() ? "-v" : "--verbose");
	return args;
}

// Drops the text of the request, which is there to be the same.
void dropText(Output& o)
{
	for (auto& [name, text] : o.files)
	{
		const auto a = text.find("GetRequestText()"), b = text.rfind("GetRequestObject()");
		if (a != std::string::npos && b != std::string::npos && a < b)
			text.erase(a, b - a);
		std::istringstream in(text);
		std::string rest;
		for (std::string l; std::getline(in, l);)
			if (l.compare(0, 4, "/// ") != 0)
				rest += l + "\n";
		text = rest;
	}
}

void sameClient(Src& src, Ctx& ctx)
{
	auto c = genClient(src, "made", false);
	const auto& m = c.schema.model;
	auto other = c.doc;
	// The definitions in another order, in another layout.
	for (size_t i = other.frags.size(); i > 1; --i)
		std::swap(other.frags[i - 1], other.frags[src.below(i)]);
	render(src, other, 1);
	SdlOptions o;
	o.layout = src.coin();
	size_t extensions = 0;
	auto copy = m;
	const auto variant = src.coin() ? c.schema.sdl : sdlVariant(src, copy, o, &extensions);
	const auto args = options(nullptr, c), otherArgs = options(&src, c);
	ctx.desc << "arguments";
	for (const auto& a : args)
		ctx.desc << " " << a;
	ctx.desc << "\nor";
	for (const auto& a : otherArgs)
		ctx.desc << " " << a;
	ctx.desc << "\nrequest:\n" << c.doc.text << "\nor:\n" << other.text << "\nschema text:\n" << c.schema.sdl << "\nor:\n" << variant << "\n";
	auto first = generate(clientgenMain, { { "schema.graphql", c.schema.sdl }, { "request.graphql", c.doc.text } }, args);
	ctx.require(first.exit == 0, cat("clientgen refuses a valid request (exit ", first.exit, "): ", first.messages));
	auto second = generate(clientgenMain, { { "schema.graphql", variant }, { "request.graphql", other.text } }, otherArgs);
	ctx.require(second.exit == 0, cat("clientgen refuses another text of a valid request (exit ", second.exit, "): ", second.messages));
	ctx.require(first.files.size() == 2 && first.files.count("MadeClient.h") && first.files.count("MadeClient.cpp"), "clientgen does not write MadeClient.h and MadeClient.cpp");
	dropText(first);
	dropText(second);
	sameFiles(ctx, first, second, "the other text");
	ctx.label("equal clients");
	ctx.nontrivial = c.doc.text.size() > 100;
}

void brokenRequest(Src& src, Ctx& ctx)
{
	auto c = genClient(src, "made", false);
	const auto& m = c.schema.model;
	std::string rule;
	std::vector<std::string> args = options(&src, c);
	if (src.coin(1, 8))
	{
		rule = "unknown operation";
		args.erase(std::remove_if(args.begin(), args.end(), [](const auto& a) { return a == "-o" || a == "--operation"; }), args.end());
		for (const auto& op : c.doc.ops)
			args.erase(std::remove(args.begin(), args.end(), op.name), args.end());
		args.insert(args.end(), { "--operation", "NoSuchOperation" });
	}
	else if (src.coin(1, 10))
	{
		rule = "grammar";
		render(src, c.doc, 0); // without comments
		c.doc.text.insert(c.doc.text.size() - src.below(2), src.coin() ? " } " : " { ");
	}
	else
	{
		const auto broken = breakRule(src, m, c.doc);
		if (!broken)
		{
			ctx.discarded = true;
			return;
		}
		rule = *broken;
		render(src, c.doc, src.coin() ? 1 : 0);
	}
	ctx.desc << "broken rule: " << rule << "\nrequest:\n" << c.doc.text << "\nschema text:\n" << c.schema.sdl << "\n";
	const auto r = generate(clientgenMain, { { "schema.graphql", c.schema.sdl }, { "request.graphql", c.doc.text } }, args);
	ctx.require(r.exit != 0, cat("clientgen accepts a request which breaks ", rule, ": ", r.messages));
	ctx.require(r.files.empty(), cat("clientgen fails but writes ", r.files.empty() ? "" : r.files.begin()->first, " for a request which breaks ", rule));
	ctx.label("broken: " + rule);
	ctx.nontrivial = true;
}

void commandLine(Src& src, Ctx& ctx)
{
	const auto g = genClient(src, "made", false);
	CommandLine c { { { "schema", 's', "schema.graphql" }, { "request", 'r', "request.graphql" }, { "prefix", 'p', src.coin(1, 3) ? "m" : "Made" }, { "namespace", 'n', g.schema.ns } }, {} };
	for (size_t i = 0; i < g.flags.size(); ++i)
	{
		if (g.flags[i] == "--operation")
		{
			c.flags.push_back({ g.flags[i], g.flags.at(i + 1) });
			++i;
		}
		else
			c.flags.push_back({ g.flags[i] });
	}
	commandLines(src, ctx, clientgenMain, { { "schema.graphql", g.schema.sdl }, { "request.graphql", g.doc.text } }, c);
}

void run(Src& src, Ctx& ctx)
{
	if (src.coin(1, 6))
		commandLine(src, ctx);
	else if (src.coin())
		brokenRequest(src, ctx);
	else
		sameClient(src, ctx);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C19";
		p.rule = "a request of more than 100 characters generated twice, a request which breaks a named rule, a response with at least four fields, a non-empty set of variables, or the text of a request";
		p.run = run;
		p.quickCases = 1200;
		p.thoroughCases = 30000;
		add(std::move(p));
	}
} s_register;

} // namespace
