// A service over an arbitrary schema whose data is a pure function of a seed, and an independent
// reference executor for the same data.
#pragma once

#include "query.h"

#include "graphqlservice/GraphQLService.h"

#include <condition_variable>
#include <list>
#include <mutex>
#include <thread>

namespace h {

// A value of the data graph.
struct Datum
{
	enum Kind
	{
		Null,
		Leaf,
		Poison, // a leaf which fails while it is converted to a response value
		Object,
		List
	} kind
		= Null;
	JV leaf;
	std::string message; // of poison
	std::string type;	 // concrete type of objects
	uint64_t id = 0;
	size_t depth = 0;
	std::vector<Datum> list;
};

// How a resolver delivers its result.
enum class Mode
{
	Value,
	Deferred,
	Async,
	Ready,	 // a future which is ready
	Promised // completed by another thread, in random order
};

struct Outcome
{
	enum Kind
	{
		Ok,
		Schema,	  // throws a schema_exception with these messages
		Standard, // throws something else
		Late,	  // schema_exception inside of the future
		LateStandard
	} kind
		= Ok;
	std::vector<std::string> messages;
	Mode mode = Mode::Value;
	unsigned yields = 0;
};

struct Call
{
	std::string path, type, field, response;
	uint64_t id = 0;
	JV args, operation, definition, spread, inlined, dirs;
	std::vector<std::pair<std::string, JV>> typed; // C04: extracted arguments, errors as enum "!"
	int context = 0;
	const void* state = nullptr;
	bool launchAsync = false;
	std::string show() const;
};

struct WorldOptions
{
	unsigned nullRate = 10;	  // per cent
	unsigned faultRate = 0;	  // per cent of resolvers
	unsigned poisonRate = 0;  // per cent of enum values
	unsigned hookRate = 0;	  // per cent of the objects refuse their selection sets (beginSelectionSet throws)
	unsigned futureRate = 0;  // per cent of resolvers
	bool promised = false;	  // futures may be completed by the completer thread
	bool async = false;		  // futures may run in their own thread
	bool typed = false;		  // extract the arguments the way generated code does
	bool byTyped = false;	  // data depends on the extracted arguments: all that generated code hands out
	bool introspection = true;
	size_t maxList = 3;
	bool staticCalls = true;
};

// Completes promises in another thread, in random order.
class Completer
{
public:
	explicit Completer(uint64_t seed);
	~Completer();
	void add(std::function<void()>&& complete);

private:
	// Shared with the thread, which may be the one which drops the last reference to the world.
	struct Shared
	{
		std::mutex mutex;
		std::condition_variable wake;
		std::vector<std::function<void()>> pending;
		bool done = false;
		uint64_t state = 0;
	};
	static void loop(Shared& shared);
	std::shared_ptr<Shared> _shared;
	std::thread _thread;
};

struct World
{
	std::shared_ptr<BuiltSchema> built;
	const MSchema& m;
	uint64_t seed = 0;
	WorldOptions options;
	std::unique_ptr<Completer> completer;
	// Generated services make their objects here.
	std::shared_ptr<graphql::service::Object> (*objects)(const std::shared_ptr<World>&, const std::string& type, uint64_t id, size_t depth) = nullptr;

	std::mutex mutex;
	std::vector<Call> calls;
	std::vector<std::string> events;	  // mutation roots: begin and end, in order
	std::map<std::string, std::pair<int, int>> hooks; // path to begin and end counts
	std::vector<std::string> hookErrors;

	World(std::shared_ptr<BuiltSchema> b, uint64_t seed, const WorldOptions& options = {});
	void reset();

	// The value of a field, and how it is delivered.
	Datum datum(const std::string& type, uint64_t id, size_t depth, const FieldDef& field, const JV& args) const;
	Outcome outcome(const std::string& type, uint64_t id, const FieldDef& field, const JV& args) const;
	Datum element(uint64_t hash, const TypeRef& type, size_t depth) const;
	// How an object refuses its selection sets, Ok when it does not.
	Outcome refusal(const std::string& type, uint64_t id, bool root) const;
};

struct ExpectedError
{
	std::vector<std::string> anyOf; // text
	bool exact = true;
	bool located = true; // it has a location and a path
	bool optional = false; // it may be missing
	std::string orBelow;   // the path may also have this in the end
	bool orNoPath = false; // it may have no path
	bool orLater = false;  // at the location or after it
	size_t line = 0, column = 0;
	std::vector<JV> path;
	std::string show() const;
};

struct Expected
{
	JV data;
	std::vector<ExpectedError> errors;
	std::map<std::string, Call> calls; // by path
	std::set<std::string> objects;	   // paths of the objects which have selection sets
	size_t fields = 0;
};

// What executing the operation prescribes.
Expected expectOperation(const World& world, const Doc& doc, const Op& op, const JV& variables, const std::string& rootType, uint64_t rootId, int context);

std::shared_ptr<graphql::service::Object> makeObject(const std::shared_ptr<World>& world, const std::string& type, uint64_t id, size_t depth);

class TestService : public graphql::service::Request
{
public:
	TestService(graphql::service::TypeMap&& operations, const std::shared_ptr<graphql::schema::Schema>& schema)
		: graphql::service::Request(std::move(operations), schema)
	{
	}
};
std::shared_ptr<TestService> makeService(const std::shared_ptr<World>& world, bool subscriptionObject = true);

// Compares a response document with what is expected. Empty when it matches.
std::string compareResponse(const JV& response, const Expected& expected);
std::string compareCallList(const std::vector<Call>& calls, const Expected& expected, const void* state);
std::string compareCalls(const World& world, const Expected& expected, const void* state, bool hooks);
std::string pathText(const std::vector<JV>& path);
std::string pathText(const graphql::service::error_path& path);

// conv_*.cpp
using Result = std::future<graphql::service::ResolverResult>;
using Params = graphql::service::ResolverParams;
struct Delivery
{
	std::shared_ptr<World> world;
	Outcome outcome;
	Datum datum;
	std::function<void()> finished; // when the value is handed out
};
Result convertInt(const TypeRef&, Delivery&&, Params&&);
Result convertFloat(const TypeRef&, Delivery&&, Params&&);
Result convertString(const TypeRef&, Delivery&&, Params&&);
Result convertBool(const TypeRef&, Delivery&&, Params&&);
Result convertId(const TypeRef&, Delivery&&, Params&&);
Result convertScalar(const TypeRef&, Delivery&&, Params&&);
Result convertEnum(const TypeRef&, Delivery&&, Params&&);
Result convertObject(const TypeRef&, Delivery&&, Params&&);
Result convertDerived(const TypeRef&, Delivery&&, Params&&);

// args.cpp: typed extraction through ModifiedArgument, errors escape as exceptions.
JV extractTyped(const MSchema& m, const TypeRef& type, const std::string& name, const graphql::response::Value& arguments);
// The non-throwing lookup: the value and whether it was found.
std::pair<JV, bool> findTyped(const MSchema& m, const TypeRef& type, const std::string& name, const graphql::response::Value& arguments);
// What extraction has to give: a value, or nothing when it has to fail.
std::optional<JV> expectTyped(const MSchema& m, const TypeRef& type, const JV* value);
// As generated accessors do it, defaults included; enum "!" for an error.
std::vector<std::pair<std::string, JV>> extractAll(const MSchema& m, const FieldDef& field, const graphql::response::Value& arguments, std::string& error);
std::vector<std::pair<std::string, JV>> expectAll(const MSchema& m, const FieldDef& field, const JV& arguments, std::string& badArgument);
bool decodeBase64(const std::string& text, std::string& bytes);
std::string encodeBase64(const std::string& bytes);

} // namespace h
