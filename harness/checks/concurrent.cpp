// C03: responses do not depend on launch policies, kinds of futures or concurrent requests.
// Built with ThreadSanitizer. Failing resolvers are left to C02 (the reference counts of exceptions
// live in a library which ThreadSanitizer does not see).
#include "exec.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>
#include <atomic>

using namespace h;
using namespace graphql;

extern "C" const char* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:report_thread_leaks=0:detect_deadlocks=0";
}

namespace {

struct State : service::RequestState
{
};

const std::string& rootOf(const MSchema& m, const Op& op)
{
	return op.kind == "mutation" ? m.mutation : op.kind == "subscription" ? m.subscription : m.query;
}

service::ResolverContext contextOf(const Op& op)
{
	return op.kind == "mutation" ? service::ResolverContext::Mutation : service::ResolverContext::Query;
}

enum class Launch
{
	None,
	Deferred,
	Async
};

const char* const c_launches[] = { "no policy", "deferred", "async" };

struct Kinds
{
	unsigned futureRate = 0;
	bool promised = false, async = false;
};

std::string show(const Kinds& k)
{
	return cat(k.futureRate, "% futures", k.promised ? ", promised" : "", k.async ? ", async" : "");
}

Kinds genKinds(Src& src)
{
	static const unsigned rates[] = { 0, 30, 70, 100 };
	Kinds k;
	k.futureRate = rates[src.below(4)];
	k.promised = src.coin(1, 3);
	k.async = src.coin(1, 2);
	return k;
}

std::shared_ptr<World> worldFor(const std::shared_ptr<BuiltSchema>& built, uint64_t seed, const Kinds& k)
{
	WorldOptions wo;
	wo.futureRate = k.futureRate;
	wo.promised = k.promised;
	wo.async = k.async;
	return std::make_shared<World>(built, seed, wo);
}

JV resolve(TestService& service, const std::shared_ptr<State>& state, peg::ast& ast, const Op& op, const JV& variables, Launch launch)
{
	if (launch == Launch::None)
		return fromValue(service.resolve(state, ast, op.name, toValue(variables)).get());
	return fromValue(service.resolve(launch == Launch::Async ? std::launch::async : std::launch::deferred, state, ast, op.name, toValue(variables)).get());
}

// The fields of a mutation begin and end one after another, in the order of the document.
std::string serial(const std::vector<std::string>& events, const Expected& expected)
{
	std::vector<std::string> order;
	for (const auto& [n, v] : expected.data.map)
		order.push_back(n);
	const auto rootName = [](const std::string& event) {
		const auto path = event.substr(event.find(' ') + 2);
		return path.substr(0, path.find_first_of("/["));
	};
	size_t at = 0;
	std::string current;
	std::set<std::string> done;
	bool ended = true;
	for (const auto& e : events)
	{
		const auto name = rootName(e);
		const bool top = e.substr(e.find(' ') + 2) == name;
		if (name != current)
		{
			if (!ended)
				return cat("'", e, "' happens before '", current, "' has ended");
			if (!done.insert(name).second)
				return cat("'", e, "' happens after the fields behind it have started");
			while (at < order.size() && order[at] != name)
				++at;
			if (at == order.size())
				return cat("'", name, "' is out of order");
			current = name;
			if (!top || e.substr(0, 6) != "begin ")
				return cat("'", e, "' is the first event of its field");
			ended = false;
			continue;
		}
		if (top && e.substr(0, 4) == "end ")
			ended = true;
	}
	if (!ended)
		return cat("'", current, "' does not end");
	return "";
}

// ---------------------------------------------------------------- one request, many ways

void policies(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.needMutation = true;
	so.maxObjects = 3;
	auto schema = genSchema(src, so);
	DocOptions options;
	options.subscriptionRoots = false;
	options.only = src.coin() ? "mutation" : "";
	options.maxOps = 2;
	options.budget = 14;
	options.maxDepth = 3;
	options.introspection = src.coin(1, 5);
	auto doc = genDoc(src, schema, options);
	render(src, doc, 0);
	const auto& op = doc.ops[src.below(doc.ops.size())];
	const auto variables = genVariables(src, schema, op);
	const auto seed = src.below(1u << 30);
	auto built = buildSchema(schema);
	const bool mutation = op.kind == "mutation";
	const size_t variants = 2 + src.below(4);
	ctx.desc << "one request\ndocument:\n" << doc.text << "\noperation '" << op.name << "' variables " << h::show(variables) << " seed " << seed << "\n";
	std::vector<std::pair<Kinds, Launch>> ways;
	for (size_t i = 0; i < variants; ++i)
	{
		ways.emplace_back(genKinds(src), static_cast<Launch>(src.below(3)));
		ctx.desc << "  " << show(ways.back().first) << ", " << c_launches[static_cast<int>(ways.back().second)] << "\n";
	}
	ctx.desc << "schema:\n" << schema.sdl();
	std::optional<JV> first;
	for (const auto& [kinds, launch] : ways)
	{
		auto world = worldFor(built, seed, kinds);
		auto service = makeService(world);
		auto state = std::make_shared<State>();
		auto ast = peg::parseString(doc.text);
		const auto response = resolve(*service, state, ast, op, variables, launch);
		const auto expected = expectOperation(*world, doc, op, variables, rootOf(schema, op), 0, static_cast<int>(contextOf(op)));
		const auto where = cat("with ", show(kinds), " and ", c_launches[static_cast<int>(launch)], ": ");
		auto problem = compareResponse(response, expected);
		ctx.require(problem.empty(), where + problem);
		std::lock_guard lock(world->mutex);
		problem = compareCalls(*world, expected, state.get(), true);
		ctx.require(problem.empty(), where + problem);
		if (mutation)
		{
			problem = serial(world->events, expected);
			ctx.require(problem.empty(), where + problem);
			ctx.label("mutations");
			if (expected.data.map.size() > 1 && kinds.futureRate)
				ctx.label("mutations of several fields with futures");
		}
		if (!first)
			first = response;
		else
			ctx.require(equal(*first, response), where + "another response:\n" + h::show(response) + "\nthan before:\n" + h::show(*first));
		ctx.label(cat("policy ", c_launches[static_cast<int>(launch)]));
		ctx.nontrivial = ctx.nontrivial || (expected.calls.size() > 2 && kinds.futureRate);
	}
}

// ---------------------------------------------------------------- many requests at once

void concurrent(Src& src, Ctx& ctx)
{
	SchemaOptions so;
	so.needMutation = src.coin();
	so.needSubscription = true;
	so.maxObjects = 3;
	auto schema = genSchema(src, so);
	const auto seed = src.below(1u << 30);
	const auto kinds = genKinds(src);
	auto world = worldFor(buildSchema(schema), seed, kinds);
	auto service = makeService(world);
	ctx.desc << "concurrent requests, " << show(kinds) << "\n";

	struct Document
	{
		Doc doc;
		peg::ast shared; // validated beforehand
	};
	std::vector<std::unique_ptr<Document>> docs;
	const size_t docCount = 1 + src.below(3);
	for (size_t i = 0; i < docCount; ++i)
	{
		auto d = std::make_unique<Document>();
		DocOptions options;
		options.subscriptionRoots = false;
		options.maxOps = 2;
		options.budget = 10;
		options.maxDepth = 3;
		options.introspection = src.coin(1, 4);
		d->doc = genDoc(src, schema, options);
		render(src, d->doc, 0);
		d->shared = peg::parseString(d->doc.text);
		const auto errors = service->validate(d->shared);
		ctx.require(errors.empty(), "a valid document is rejected");
		ctx.desc << "document " << i << ":\n" << d->doc.text << "\n";
		docs.push_back(std::move(d));
	}
	struct Job
	{
		enum Kind
		{
			Own,	// parses and validates its own tree
			Shared, // a tree which other threads use as well
			Root,	// the same without validation
			Deliver
		} kind
			= Own;
		Document* document = nullptr;
		const Op* op = nullptr;
		JV variables;
		Launch launch = Launch::None;
		std::shared_ptr<State> state;
		JV response;
		std::string problem;
	};
	// A subscription, so that events can be delivered at the same time.
	Doc subscription;
	{
		DocOptions options;
		options.only = "subscription";
		options.maxOps = 1;
		options.budget = 6;
		options.maxDepth = 2;
		options.introspection = false;
		subscription = genDoc(src, schema, options);
		render(src, subscription, 0);
	}
	struct Event
	{
		std::mutex mutex;
		std::vector<JV> received;
	} events;
	const auto subVariables = genVariables(src, schema, subscription.ops[0]);
	auto subState = std::make_shared<State>();
	(void)service->subscribe(service::SubscriptionParams { subState, peg::parseString(subscription.text), std::string { subscription.ops[0].name }, toValue(subVariables) }, [&events](std::future<response::Value> f) {
		auto v = fromValue(f.get());
		std::lock_guard lock(events.mutex);
		events.received.push_back(std::move(v));
	});
	std::vector<std::vector<Job>> threads;
	const size_t threadCount = 2 + src.below(3);
	size_t deliveries = 0;
	for (size_t t = 0; t < threadCount; ++t)
	{
		std::vector<Job> jobs;
		const size_t n = 1 + src.below(3);
		for (size_t i = 0; i < n; ++i)
		{
			Job j;
			j.kind = static_cast<Job::Kind>(src.weighted({ 4, 3, 2, 1 }));
			if (j.kind == Job::Deliver && ++deliveries > 1)
				j.kind = Job::Own;
			j.document = docs[src.below(docs.size())].get();
			j.op = &j.document->doc.ops[src.below(j.document->doc.ops.size())];
			j.variables = genVariables(src, schema, *j.op);
			j.launch = static_cast<Launch>(src.below(3));
			j.state = std::make_shared<State>();
			static const char* const kindNames[] = { "own", "shared", "unvalidated", "deliver" };
			ctx.desc << "thread " << t << ": " << kindNames[j.kind] << " '" << j.op->name << "' " << h::show(j.variables) << " " << c_launches[static_cast<int>(j.launch)] << "\n";
			jobs.push_back(std::move(j));
		}
		threads.push_back(std::move(jobs));
	}
	ctx.desc << "schema:\n" << schema.sdl();
	const auto object = makeObject(world, schema.subscription, 5, 0);
	std::atomic<size_t> ready { 0 };
	std::vector<std::thread> running;
	for (auto& jobs : threads)
		running.emplace_back([&jobs, &ready, &service, &schema, &object, threadCount] {
			++ready;
			while (ready.load() < threadCount)
				std::this_thread::yield();
			for (auto& j : jobs)
			{
				try
				{
					const auto launch = j.launch == Launch::Async ? std::launch::async : std::launch::deferred;
					switch (j.kind)
					{
						case Job::Own:
						{
							auto ast = peg::parseString(j.document->doc.text);
							j.response = resolve(*service, j.state, ast, *j.op, j.variables, j.launch);
							break;
						}
						case Job::Shared:
							j.response = resolve(*service, j.state, j.document->shared, *j.op, j.variables, j.launch);
							break;
						case Job::Root:
							j.response = fromValue(service->resolve(launch, j.state, *j.document->shared.root, j.op->name, toValue(j.variables)).get());
							break;
						case Job::Deliver:
							for (const auto& f : schema.type(schema.subscription)->fields)
								service->deliver(launch, f.name, object);
							break;
					}
				}
				catch (const std::exception& ex)
				{
					j.problem = cat("throws ", ex.what());
				}
			}
		});
	for (auto& t : running)
		t.join();
	std::lock_guard lock(world->mutex);
	std::map<const void*, std::vector<Call>> calls;
	for (const auto& c : world->calls)
		calls[c.state].push_back(c);
	size_t requests = 0;
	for (size_t t = 0; t < threads.size(); ++t)
		for (auto& j : threads[t])
		{
			++requests;
			const auto where = cat("thread ", t, " '", j.op->name, "': ");
			ctx.require(j.problem.empty(), where + j.problem);
			if (j.kind == Job::Deliver)
				continue;
			const auto expected = expectOperation(*world, j.document->doc, *j.op, j.variables, rootOf(schema, *j.op), 0, static_cast<int>(contextOf(*j.op)));
			auto problem = compareResponse(j.response, expected);
			ctx.require(problem.empty(), where + problem);
			problem = compareCallList(calls[j.state.get()], expected, j.state.get());
			ctx.require(problem.empty(), where + problem);
			calls.erase(j.state.get());
			ctx.nontrivial = ctx.nontrivial || expected.calls.size() > 2;
		}
	if (deliveries)
	{
		const auto expected = expectOperation(*world, subscription, subscription.ops[0], subVariables, schema.subscription, 5, static_cast<int>(service::ResolverContext::Subscription));
		ctx.require(events.received.size() == 1, cat(events.received.size(), " events were received"));
		auto problem = compareResponse(events.received[0], expected);
		ctx.require(problem.empty(), "event: " + problem);
		problem = compareCallList(calls[subState.get()], expected, subState.get());
		ctx.require(problem.empty(), "event: " + problem);
		calls.erase(subState.get());
		ctx.label("concurrent deliveries");
	}
	ctx.require(calls.empty(), "resolvers are called for an unknown request");
	ctx.label("concurrent requests", requests);
}

void run(Src& src, Ctx& ctx)
{
	if (src.coin())
		concurrent(src, ctx);
	else
		policies(src, ctx);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C03";
		p.rule = "an operation with at least three accessor calls and futures, or concurrent requests with at least three calls";
		p.run = run;
		p.quickCases = 3000;
		p.thoroughCases = 150000;
		p.threaded = true;
		p.assumptions = { "schedules are the ones the operating system and the completing thread produce; data races are reported by ThreadSanitizer",
			"subscribing and unsubscribing are not called concurrently (the registry is not thread-safe by design)",
			"resolvers do not fail here (C02 covers failures under the same policies)" };
		add(std::move(p));
	}
} s_register;

} // namespace
