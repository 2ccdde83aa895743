#pragma once

#include "exec.h"

namespace h {

class DynObject : public graphql::service::Object
{
public:
	DynObject(std::shared_ptr<World> world, const std::string& type, uint64_t id, size_t depth);

protected:
	void beginSelectionSet(const graphql::service::SelectionSetParams& params) const override;
	void endSelectionSet(const graphql::service::SelectionSetParams& params) const override;

private:
	static graphql::service::TypeNames names(const World& world, const std::string& type);
	graphql::service::ResolverMap resolvers(const std::shared_ptr<World>& world, const std::string& type);
	Result resolveField(const FieldDef& field, Params&& params) const;

	std::shared_ptr<World> _world;
	std::string _type;
	uint64_t _id;
	size_t _depth;
};

} // namespace h
