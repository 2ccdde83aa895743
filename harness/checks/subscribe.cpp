// C09, C10: subscriptions.
#include "exec.h"
#include "mutate.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>

using namespace h;
using namespace graphql;

namespace {

struct State : service::RequestState
{
};

struct Source
{
	Doc doc;
};

struct Sub
{
	size_t source = 0;
	const Op* op = nullptr;
	JV supplied;
	std::shared_ptr<State> state;
	std::string field;
	JV args, dirs;
	bool selfRemoving = false;
	bool live = false;
	size_t registeredAt = 0;
	std::optional<service::SubscriptionKey> key;
	std::vector<JV> received;
	std::string problem;
};

// The root field of a subscription, through its fragments.
const Sel* rootField(const Doc& doc, const std::vector<Sel>& sels, const JV& vars)
{
	for (const auto& s : sels)
	{
		if (skipped(s.dirs, vars))
			continue;
		if (s.kind == Sel::Field)
			return &s;
		const auto* inner = s.kind == Sel::Spread ? rootField(doc, doc.frag(s.name)->sels, vars) : rootField(doc, s.sub, vars);
		if (inner)
			return inner;
	}
	return nullptr;
}

enum class Launch
{
	None,
	Deferred,
	Async
};

const char* const c_launches[] = { "", "deferred ", "async " };

std::launch policy(Launch l)
{
	return l == Launch::Async ? std::launch::async : std::launch::deferred;
}

Launch genLaunch(Src& src, unsigned async)
{
	return static_cast<Launch>(src.weighted({ 6, 3, async }));
}

// A delivery: which subscriptions satisfy its filter.
struct Filter
{
	enum Kind
	{
		None,
		Arguments,
		ArgumentsDirectives,
		Callback,
		Callbacks
	} kind
		= None;
	JV args = JV::makeMap(), dirs = JV::makeMap();
	uint64_t salt = 0;
	unsigned rate = 0;

	static bool covers(const JV& filter, const JV& required)
	{
		for (const auto& [n, v] : required.map)
		{
			const auto* f = filter.find(n);
			if (!f || !equal(*f, v))
				return false;
		}
		return true;
	}
	bool accepts(const std::string& name, const JV& value, uint64_t which) const
	{
		return mix(hashBytes(cat(name, "=", h::show(value)), salt + which)) % 100 < rate;
	}
	bool matches(const Sub& s) const
	{
		if (kind == Arguments || kind == ArgumentsDirectives)
		{
			if (!covers(args, s.args))
				return false;
			return kind == Arguments || covers(dirs, s.dirs);
		}
		if (kind == Callback || kind == Callbacks)
		{
			for (const auto& [n, v] : s.args.map)
				if (!accepts(n, v, 0))
					return false;
			if (kind == Callbacks)
				for (const auto& [n, v] : s.dirs.map)
					if (!accepts(n, v, 1))
						return false;
		}
		return true;
	}
	std::string show() const
	{
		switch (kind)
		{
			case None:
				return "no filter";
			case Arguments:
				return "arguments " + h::show(args);
			case ArgumentsDirectives:
				return "arguments " + h::show(args) + " directives " + h::show(dirs);
			case Callback:
				return cat("callback ", rate);
			default:
				return cat("callbacks ", rate);
		}
	}
};

struct Setup
{
	MSchema schema;
	std::vector<Source> sources;
	std::shared_ptr<World> world;
	std::shared_ptr<TestService> service;
	bool defaultObject = true;
	std::vector<std::unique_ptr<Sub>> subs;
	std::mutex mutex; // of what the callbacks record
	std::vector<size_t> order;
	size_t registrations = 0;

	void newSub(Src& src)
	{
		auto sub = std::make_unique<Sub>();
		sub->source = src.below(sources.size());
		const auto& doc = sources[sub->source].doc;
		std::vector<const Op*> ops;
		for (const auto& o : doc.ops)
			if (o.kind == "subscription")
				ops.push_back(&o);
		sub->op = src.pick(ops);
		sub->supplied = genVariables(src, schema, *sub->op);
		const auto vars = operationVariables(*sub->op, sub->supplied);
		sub->state = std::make_shared<State>();
		sub->args = JV::makeMap();
		sub->dirs = JV::makeMap();
		if (const auto* f = rootField(doc, sub->op->sels, vars))
		{
			sub->field = f->name;
			sub->args = evaluateArgs(f->args, vars);
			sub->dirs = evaluateDirs(f->dirs, vars);
		}
		subs.push_back(std::move(sub));
	}

	service::SubscriptionParams params(const Sub& s) const
	{
		return { s.state, peg::parseString(sources[s.source].doc.text), std::string { s.op->name }, toValue(s.supplied) };
	}

	service::SubscriptionCallback callback(size_t index)
	{
		return [this, index](std::future<response::Value> f) {
			auto& s = *subs[index];
			JV got;
			std::string problem;
			try
			{
				got = fromValue(f.get());
			}
			catch (const std::exception& ex)
			{
				problem = cat("the event future throws ", ex.what());
			}
			{
				std::lock_guard lock(mutex);
				order.push_back(index);
				s.received.push_back(std::move(got));
				if (s.problem.empty())
					s.problem = problem;
			}
			if (s.selfRemoving && s.key)
				service->unsubscribe(*s.key);
		};
	}

	std::vector<Call> callsOf(const Sub& s)
	{
		std::vector<Call> r;
		for (const auto& c : world->calls)
			if (c.state == s.state.get())
				r.push_back(c);
		return r;
	}

	Expected expect(const Sub& s, uint64_t id, service::ResolverContext context) const
	{
		return expectOperation(*world, sources[s.source].doc, *s.op, s.supplied, schema.subscription, id, static_cast<int>(context));
	}

	void reset()
	{
		world->reset();
		order.clear();
	}

	// The resolvers which ran are the ones of these subscriptions in this context.
	void checkCalls(Ctx& ctx, const std::string& where, const std::vector<size_t>& which, uint64_t id, service::ResolverContext context)
	{
		size_t total = 0;
		for (const auto i : which)
		{
			const auto calls = callsOf(*subs[i]);
			total += calls.size();
			const auto problem = compareCallList(calls, expect(*subs[i], id, context), subs[i]->state.get());
			ctx.require(problem.empty(), cat(where, "subscription ", i, ": ", problem));
		}
		ctx.require(total == world->calls.size(), cat(where, world->calls.size() - total, " calls for other subscriptions, one of them ", world->calls.empty() ? "" : world->calls.back().show()));
	}

	void distinctKeys(Ctx& ctx, const std::string& where)
	{
		std::map<service::SubscriptionKey, size_t> keys;
		for (size_t i = 0; i < subs.size(); ++i)
			if (subs[i]->live)
			{
				const auto [itr, fresh] = keys.emplace(*subs[i]->key, i);
				ctx.require(fresh, cat(where, "subscriptions ", i, " and ", itr->second, " share key ", *subs[i]->key));
			}
	}
};

void deliver(Src& src, Ctx& ctx, Setup& s, size_t step, const std::string& field, const Filter& filter, Launch launch, bool checkResponses)
{
	const bool own = !s.defaultObject || src.coin();
	const uint64_t id = own ? 1 + src.below(1000) : 0;
	const bool without = !s.defaultObject && src.coin(1, 10); // there is no object at all
	const auto object = own && !without ? makeObject(s.world, s.schema.subscription, id, 0) : nullptr;
	ctx.desc << "step " << step << ": deliver " << (without ? "(without an object) " : "")<< c_launches[static_cast<int>(launch)] << field << " " << filter.show() << (own ? cat(" object ", id) : std::string {}) << "\n";
	const std::string where = cat("step ", step, " (deliver ", field, "): ");
	std::vector<size_t> expected;
	std::vector<size_t> byRegistration;
	for (size_t i = 0; i < s.subs.size(); ++i)
		if (s.subs[i]->live)
			byRegistration.push_back(i);
	std::sort(byRegistration.begin(), byRegistration.end(), [&s](size_t a, size_t b) { return s.subs[a]->registeredAt < s.subs[b]->registeredAt; });
	std::vector<size_t> already;
	for (const auto& sub : s.subs)
		already.push_back(sub->received.size());
	for (const auto i : byRegistration)
		if (!without && s.subs[i]->field == field && filter.matches(*s.subs[i]))
			expected.push_back(i);
	if (launch == Launch::Async)
		for (const auto i : expected)
			s.subs[i]->selfRemoving = false;
	service::SubscriptionArguments args, dirs;
	for (const auto& [n, v] : filter.args.map)
		args.emplace(std::string_view { n }, toValue(v));
	for (const auto& [n, v] : filter.dirs.map)
		dirs.emplace(std::string_view { n }, toValue(v));
	const auto apply = [&](uint64_t which) {
		return service::SubscriptionFilterCallback { [&filter, which](response::MapType::const_reference r) {
			return filter.accepts(std::string { r.first }, fromValue(r.second), which);
		} };
	};
	s.reset();
	const auto& service = *s.service;
	bool refused = false;
	try
	{
		if (launch == Launch::None)
			switch (filter.kind)
			{
				case Filter::None: service.deliver(field, object); break;
				case Filter::Arguments: service.deliver(field, args, object); break;
				case Filter::ArgumentsDirectives: service.deliver(field, args, dirs, object); break;
				case Filter::Callback: service.deliver(field, apply(0), object); break;
				case Filter::Callbacks: service.deliver(field, apply(0), apply(1), object); break;
			}
		else
			switch (filter.kind)
			{
				case Filter::None: service.deliver(policy(launch), field, object); break;
				case Filter::Arguments: service.deliver(policy(launch), field, args, object); break;
				case Filter::ArgumentsDirectives: service.deliver(policy(launch), field, args, dirs, object); break;
				case Filter::Callback: service.deliver(policy(launch), field, apply(0), object); break;
				case Filter::Callbacks: service.deliver(policy(launch), field, apply(0), apply(1), object); break;
			}
	}
	catch (const std::invalid_argument& ex)
	{
		ctx.require(without, cat(where, "delivery fails: ", ex.what()));
		refused = true;
	}
	ctx.require(refused == without, cat(where, "delivery without an object is not refused"));
	if (without)
		ctx.label("deliveries without an object");
	for (size_t i = 0; i < s.subs.size(); ++i)
	{
		const auto& sub = *s.subs[i];
		const size_t n = sub.received.size() - already[i];
		const bool wanted = std::find(expected.begin(), expected.end(), i) != expected.end();
		if (wanted)
			ctx.require(n == 1, cat(where, "subscription ", i, " received ", n, " events"));
		else
			ctx.require(n == 0, cat(where, "subscription ", i, " received an event which is not for it", sub.live ? "" : " and is not registered"));
		ctx.require(sub.problem.empty(), cat(where, "subscription ", i, ": ", sub.problem));
	}
	if (launch != Launch::Async)
		ctx.require(s.order == expected, cat(where, "not in the order of registration"));
	for (const auto i : expected)
	{
		auto& sub = *s.subs[i];
		if (checkResponses)
		{
			const auto problem = compareResponse(sub.received.back(), s.expect(sub, id, service::ResolverContext::Subscription));
			ctx.require(problem.empty(), cat(where, "subscription ", i, ": ", problem, "\n", show(sub.received.back())));
		}
		if (sub.selfRemoving)
			sub.live = false;
	}
	s.checkCalls(ctx, where, expected, id, service::ResolverContext::Subscription);
	ctx.label("deliveries");
	ctx.label("events", expected.size());
	if (!byRegistration.empty() && expected.size() < byRegistration.size())
		ctx.label("deliveries which leave somebody out");
}

// ---------------------------------------------------------------- C09

Filter genFilter(Src& src, const Setup& s, const std::string& field)
{
	Filter f;
	f.kind = static_cast<Filter::Kind>(src.below(5));
	f.salt = src.below(1000);
	f.rate = src.coin() ? 50 : 80;
	std::vector<const Sub*> candidates;
	for (const auto& sub : s.subs)
		if (sub->live && sub->field == field)
			candidates.push_back(sub.get());
	if (!candidates.empty())
	{
		const auto* sub = src.pick(candidates);
		f.args = sub->args;
		f.dirs = sub->dirs;
	}
	const auto disturb = [&src](JV& map) {
		switch (src.weighted({ 6, 1, 1, 1 }))
		{
			case 1:
				if (!map.map.empty())
					map.map.erase(map.map.begin() + static_cast<long>(src.below(map.map.size())));
				break;
			case 2:
				map.set(cat("other", src.below(3)), JV::integer(1));
				break;
			case 3:
				if (!map.map.empty())
				{
					auto& v = map.map[src.below(map.map.size())].second;
					v = v.isNull() ? JV::integer(7) : v.kind == JV::Bool ? JV::boolean(!v.b)
						: v.kind == JV::String							 ? JV::string(v.s + "x")
																		 : JV::null();
				}
				break;
			default:
				break;
		}
	};
	disturb(f.args);
	disturb(f.dirs);
	return f;
}

void prepare(Src& src, Ctx& ctx, Setup& s, size_t docs, const DocOptions& base, const WorldOptions& wo)
{
	SchemaOptions so;
	so.needSubscription = true;
	so.maxObjects = 3;
	s.schema = genSchema(src, so);
	for (size_t i = 0; i < docs; ++i)
	{
		Source source;
		DocOptions options = base;
		options.maxOps = 1 + src.below(base.maxOps);
		source.doc = genDoc(src, s.schema, options);
		if (std::none_of(source.doc.ops.begin(), source.doc.ops.end(), [](const Op& o) { return o.kind == "subscription"; }))
		{
			options.only = "subscription";
			source.doc = genDoc(src, s.schema, options);
		}
		render(src, source.doc, src.coin(1, 4) ? 1 : 0);
		ctx.desc << "document " << i << ":\n" << source.doc.text << "\n";
		s.sources.push_back(std::move(source));
	}
	s.defaultObject = !src.coin(1, 4);
	s.world = std::make_shared<World>(buildSchema(s.schema), src.below(1u << 30), wo);
	s.service = makeService(s.world, s.defaultObject);
	ctx.desc << "schema:\n" << s.schema.sdl() << (s.defaultObject ? "" : "no default subscription object\n") << "seed " << s.world->seed << "\n";
}

void describe(Ctx& ctx, size_t step, const char* what, Launch launch, const Sub& s, size_t index)
{
	ctx.desc << "step " << step << ": " << what << " " << c_launches[static_cast<int>(launch)] << "subscription " << index << " document " << s.source << " operation '" << s.op->name << "' variables " << show(s.supplied) << " field " << s.field << " arguments " << show(s.args)
			 << " directives " << show(s.dirs) << (s.selfRemoving ? " removes itself" : "") << "\n";
}

// A service whose schema has no subscriptions refuses them, and events.
void unsupported(Src& src, Ctx& ctx)
{
	Setup s;
	s.schema = genSchema(src, {});
	if (!s.schema.subscription.empty())
	{
		ctx.discarded = true;
		return;
	}
	s.world = std::make_shared<World>(buildSchema(s.schema), 0, WorldOptions {});
	s.service = makeService(s.world);
	const auto launch = genLaunch(src, 1);
	ctx.desc << "schema:\n" << s.schema.sdl() << c_launches[static_cast<int>(launch)] << "\n";
	size_t events = 0;
	bool thrown = false;
	try
	{
		service::SubscriptionParams params { std::make_shared<State>(), peg::parseString("subscription { a }"), {}, response::Value(response::Type::Map) };
		const auto callback = [&events](std::future<response::Value>) { ++events; };
		if (launch == Launch::None)
			(void)s.service->subscribe(std::move(params), callback);
		else
			(void)s.service->subscribe(policy(launch), std::move(params), callback).get();
	}
	catch (service::schema_exception&)
	{
		thrown = true;
	}
	ctx.require(thrown, "a service without subscriptions accepts one");
	thrown = false;
	try
	{
		s.service->deliver("a", src.coin() ? makeObject(s.world, s.schema.query, 1, 0) : nullptr);
	}
	catch (const std::logic_error&)
	{
		thrown = true;
	}
	ctx.require(thrown, "a service without subscriptions delivers events");
	s.service->unsubscribe(src.below(3));
	ctx.require(events == 0, "an event is received");
	ctx.label("services without subscriptions");
}

void runC09(Src& src, Ctx& ctx)
{
	if (src.coin(1, 40))
	{
		unsupported(src, ctx);
		return;
	}
	Setup s;
	DocOptions options;
	options.only = "subscription";
	options.maxOps = 2;
	options.budget = 4;
	options.maxDepth = 2;
	options.fragmentWeight = 1;
	WorldOptions wo;
	wo.futureRate = src.coin(1, 3) ? 30 : 0;
	wo.async = src.coin(1, 4);
	prepare(src, ctx, s, 1 + src.below(3), options, wo);
	const auto& fields = s.schema.type(s.schema.subscription)->fields;
	const size_t steps = 3 + src.below(12);
	struct Pending
	{
		std::future<service::SubscriptionKey> future;
		size_t sub;
	};
	std::vector<Pending> pending;
	std::vector<service::SubscriptionKey> removed;
	s.subs.reserve(64);
	const auto registered = [&](size_t step, size_t i, service::SubscriptionKey key, bool notified) {
		auto& sub = *s.subs[i];
		sub.key = key;
		sub.live = true;
		sub.registeredAt = ++s.registrations;
		const std::string where = cat("step ", step, " (subscribe ", i, "): ");
		s.distinctKeys(ctx, where);
		if (notified && s.defaultObject)
			s.checkCalls(ctx, where, { i }, 0, service::ResolverContext::NotifySubscribe);
		else
			ctx.require(s.world->calls.empty(), where + "a resolver was called");
		ctx.require(s.order.empty(), where + "an event was delivered");
		ctx.label("subscriptions");
	};
	for (size_t step = 0; step < steps; ++step)
	{
		switch (src.weighted({ 5, 5, 3, 1 }))
		{
			case 0:
			{
				s.newSub(src);
				const size_t i = s.subs.size() - 1;
				auto& sub = *s.subs[i];
				sub.selfRemoving = src.coin(1, 8);
				const auto launch = genLaunch(src, 1);
				describe(ctx, step, "subscribe", launch, sub, i);
				s.reset();
				if (launch == Launch::None)
				{
					const auto key = s.service->subscribe(s.params(sub), s.callback(i));
					registered(step, i, key, false);
				}
				else
				{
					auto future = s.service->subscribe(policy(launch), s.params(sub), s.callback(i));
					if (launch == Launch::Deferred && src.coin())
					{
						ctx.desc << "  (its future is used later)\n";
						ctx.require(s.world->calls.empty(), "a deferred subscription calls resolvers before its future is used");
						pending.push_back({ std::move(future), i });
						break;
					}
					const auto key = future.get();
					registered(step, i, key, true);
				}
				break;
			}
			case 1:
			{
				std::string field = src.coin(1, 8) ? std::string("unknown") : src.pick(fields).name;
				std::vector<const Sub*> live;
				for (const auto& sub : s.subs)
					if (sub->live)
						live.push_back(sub.get());
				if (!live.empty() && src.coin(3, 4))
					field = src.pick(live)->field;
				deliver(src, ctx, s, step, field, genFilter(src, s, field), genLaunch(src, 1), false);
				break;
			}
			case 2:
			{
				// Remove a live subscription, or an unknown key.
				std::vector<size_t> live;
				for (size_t i = 0; i < s.subs.size(); ++i)
					if (s.subs[i]->live)
						live.push_back(i);
				const auto launch = genLaunch(src, 1);
				s.reset();
				std::optional<size_t> target;
				service::SubscriptionKey key = 1000 + src.below(3);
				if (!live.empty() && !src.coin(1, 5))
				{
					target = src.pick(live);
					key = *s.subs[*target]->key;
				}
				else if (!removed.empty() && src.coin())
				{
					key = src.pick(removed);
					for (const auto i : live)
						if (*s.subs[i]->key == key)
							target = i;
				}
				ctx.desc << "step " << step << ": unsubscribe " << c_launches[static_cast<int>(launch)] << key << (target ? cat(" subscription ", *target) : std::string(" unknown")) << "\n";
				const std::string where = cat("step ", step, " (unsubscribe): ");
				if (launch == Launch::None)
					s.service->unsubscribe(key);
				else
					s.service->unsubscribe(policy(launch), key).get();
				if (target)
				{
					s.subs[*target]->live = false;
					removed.push_back(key);
				}
				if (target && launch != Launch::None && s.defaultObject)
					s.checkCalls(ctx, where, { *target }, 0, service::ResolverContext::NotifyUnsubscribe);
				else
					ctx.require(s.world->calls.empty(), where + "a resolver was called");
				ctx.require(s.order.empty(), where + "an event was delivered");
				ctx.label(target ? "removals" : "removals of unknown keys");
				break;
			}
			default:
			{
				if (pending.empty())
					break;
				const auto which = src.below(pending.size());
				auto p = std::move(pending[which]);
				pending.erase(pending.begin() + static_cast<long>(which));
				ctx.desc << "step " << step << ": use the future of subscription " << p.sub << "\n";
				s.reset();
				const auto key = p.future.get();
				registered(step, p.sub, key, true);
				break;
			}
		}
	}
	// Everybody who is left, and nobody else.
	for (const auto& f : fields)
		deliver(src, ctx, s, steps, f.name, Filter {}, Launch::None, false);
	ctx.nontrivial = s.subs.size() > 1;
}

// ---------------------------------------------------------------- C10

void runC10(Src& src, Ctx& ctx)
{
	Setup s;
	DocOptions options;
	options.maxOps = 3;
	options.budget = 12 + src.below(10);
	options.only = src.coin() ? "subscription" : "";
	WorldOptions wo;
	wo.faultRate = src.coin() ? 12 : 0;
	wo.poisonRate = wo.faultRate;
	wo.futureRate = src.coin() ? 40 : 0;
	wo.promised = src.coin(1, 4);
	wo.async = src.coin(1, 4);
	wo.hookRate = src.coin(1, 4) ? 20 : 0;
	prepare(src, ctx, s, 1 + src.below(2), options, wo);
	s.subs.reserve(16);
	const size_t count = src.size(1, 4);
	for (size_t i = 0; i < count; ++i)
	{
		if (src.coin(1, 4))
		{
			// A subscription which can not be accepted.
			Doc doc = s.sources[src.below(s.sources.size())].doc;
			std::string name = doc.ops[0].name;
			for (const auto& o : doc.ops)
				if (o.kind == "subscription")
					name = o.name;
			std::string what;
			switch (src.below(3))
			{
				case 0:
				{
					const auto rule = breakRule(src, s.schema, doc);
					if (!rule)
						continue;
					what = "breaks: " + *rule;
					render(src, doc, 0);
					break;
				}
				case 1:
					name = "NoSuchOperation";
					what = "unknown operation";
					break;
				default:
				{
					const Op* other = nullptr;
					for (const auto& o : doc.ops)
						if (o.kind != "subscription")
							other = &o;
					if (!other)
						continue;
					name = other->name;
					what = "not a subscription";
					break;
				}
			}
			const auto launch = genLaunch(src, 1);
			ctx.desc << "rejected " << c_launches[static_cast<int>(launch)] << "(" << what << ") operation '" << name << "':\n" << doc.text << "\n";
			bool thrown = false;
			size_t events = 0;
			s.reset();
			try
			{
				service::SubscriptionParams params { std::make_shared<State>(), peg::parseString(doc.text), std::string { name }, response::Value(response::Type::Map) };
				const auto callback = [&events](std::future<response::Value>) { ++events; };
				if (launch == Launch::None)
					(void)s.service->subscribe(std::move(params), callback);
				else
					(void)s.service->subscribe(policy(launch), std::move(params), callback).get();
			}
			catch (service::schema_exception& ex)
			{
				const auto errors = ex.getStructuredErrors();
				ctx.require(!errors.empty() && !errors.front().message.empty(), "rejected without a message");
				thrown = true;
			}
			ctx.require(thrown, "a subscription which " + what + " is accepted");
			ctx.require(s.world->calls.empty(), "a rejected subscription calls resolvers");
			const auto object = makeObject(s.world, s.schema.subscription, 3, 0);
			const auto before = s.order.size();
			std::vector<size_t> received;
			for (const auto& sub : s.subs)
				received.push_back(sub->received.size());
			for (const auto& f : s.schema.type(s.schema.subscription)->fields)
				s.service->deliver(f.name, object);
			ctx.require(events == 0, "a rejected subscription receives events");
			size_t live = 0;
			for (const auto& sub : s.subs)
				live += sub->live ? 1 : 0;
			ctx.require(s.order.size() - before == live, "the others do not receive their events after a rejected subscription");
			ctx.label("rejected");
			continue;
		}
		s.newSub(src);
		const size_t k = s.subs.size() - 1;
		auto& sub = *s.subs[k];
		const auto launch = genLaunch(src, 1);
		describe(ctx, i, "subscribe", launch, sub, k);
		// The subscription object may refuse it when it is told about it.
		const auto refusal = launch == Launch::None || !s.defaultObject ? Outcome {} : s.world->refusal(s.schema.subscription, 0, true);
		try
		{
			if (launch == Launch::None)
				sub.key = s.service->subscribe(s.params(sub), s.callback(k));
			else
				sub.key = s.service->subscribe(policy(launch), s.params(sub), s.callback(k)).get();
			ctx.require(refusal.kind == Outcome::Ok, "a subscription is accepted although the subscription object failed");
		}
		catch (service::schema_exception& ex)
		{
			const auto errors = ex.getStructuredErrors();
			ctx.require(refusal.kind != Outcome::Ok, "subscribing to a valid document fails: " + (errors.empty() ? std::string {} : errors.front().message));
			ctx.require(errors.size() == refusal.messages.size() && errors.front().message == refusal.messages[0], "subscribing fails with another error than the one of the subscription object: " + (errors.empty() ? std::string {} : errors.front().message));
			ctx.label("refused by the subscription object");
			continue;
		}
		catch (const std::exception& ex)
		{
			ctx.fail(cat("subscribing to a valid document fails: ", ex.what()));
		}
		sub.live = true;
		sub.registeredAt = ++s.registrations;
	}
	if (s.subs.empty())
	{
		ctx.discarded = true;
		return;
	}
	const size_t deliveries = 1 + src.below(4);
	for (size_t i = 0; i < deliveries; ++i)
	{
		const auto& sub = *src.pick(s.subs);
		if (i > 0 && sub.live && src.coin(1, 4))
		{
			s.service->unsubscribe(*sub.key);
			const_cast<Sub&>(sub).live = false;
			ctx.desc << "unsubscribe " << *sub.key << "\n";
		}
		deliver(src, ctx, s, i, sub.field, Filter {}, genLaunch(src, 3), true);
	}
	for (const auto& sub : s.subs)
	{
		size_t fields = s.expect(*sub, 1, service::ResolverContext::Subscription).fields;
		ctx.nontrivial = ctx.nontrivial || (fields > 2 && !sub->received.empty());
		for (const auto& r : sub->received)
			if (r.find("errors"))
				ctx.label("events with errors");
	}
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C09";
		p.rule = "a history with at least two subscriptions";
		p.run = runC09;
		p.quickCases = 16000;
		p.thoroughCases = 300000;
		p.threaded = true;
		p.assumptions = { "calls are made one at a time (the registry is documented as not being thread-safe); only the launch policies run in threads" };
		add(std::move(p));

		p = {};
		p.id = "C10";
		p.rule = "an event with at least three fields was delivered";
		p.run = runC10;
		p.quickCases = 6000;
		p.thoroughCases = 250000;
		p.threaded = true;
		add(std::move(p));
	}
} s_register;

} // namespace
