#include "conv.h"
namespace h {
struct DynEnum
{
	std::string name;
	std::string poison;
};
} // namespace h
namespace graphql::service {
// As the specializations which schemagen writes, except for the table of names.
template <>
std::future<ResolverResult> ModifiedResult<h::DynEnum>::convert(FieldResult<h::DynEnum>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](h::DynEnum&& value, const ResolverParams&) {
		if (!value.poison.empty())
			throw std::runtime_error(value.poison);
		response::Value r(response::Type::EnumValue);
		r.set<response::StringType>(std::string { value.name });
		return r;
	});
}
} // namespace graphql::service
namespace h {
template <>
struct Leaf<DynEnum>
{
	static DynEnum get(const Delivery&, const Datum& v)
	{
		return DynEnum { v.leaf.s, v.kind == Datum::Poison ? v.message : "" };
	}
};
Result convertEnum(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<DynEnum>(t, std::move(d), std::move(p));
}
} // namespace h
