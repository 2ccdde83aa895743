#include "gen.h"

namespace h {

std::vector<GenCase>& genCases()
{
	static std::vector<GenCase> cases;
	return cases;
}

Answer enter(const WorldPtr& world, const char* type, uint64_t id, size_t depth, const char* field, const graphql::service::FieldParams& params, std::vector<std::pair<std::string, JV>>&& typed)
{
	Call c;
	const auto path = graphql::service::buildErrorPath(params.errorPath);
	c.path = pathText(path);
	c.type = type;
	c.field = field;
	for (const auto& p : path)
		if (std::holds_alternative<std::string_view>(p))
			c.response = std::string { std::get<std::string_view>(p) };
	c.id = id;
	c.args = JV::makeMap();
	c.operation = fromValue(params.operationDirectives);
	c.definition = fromValue(params.fragmentDefinitionDirectives);
	c.spread = fromValue(params.fragmentSpreadDirectives);
	c.inlined = fromValue(params.inlineFragmentDirectives);
	c.dirs = fromValue(params.fieldDirectives);
	c.context = static_cast<int>(params.resolverContext);
	c.state = params.state.get();
	c.launchAsync = params.launch == std::launch::async;
	JV key = JV::makeMap();
	for (const auto& [n, v] : typed)
		key.map.emplace_back(n, v);
	c.typed = std::move(typed);
	{
		std::lock_guard lock(world->mutex);
		world->calls.push_back(std::move(c));
	}
	const auto& def = *world->m.type(type)->field(field);
	return { world, world->outcome(type, id, def, key), world->datum(type, id, depth, def, key) };
}

} // namespace h
