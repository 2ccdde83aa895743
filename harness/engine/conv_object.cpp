#include "conv.h"
namespace h {
template <>
struct Leaf<svc::Object>
{
	static std::shared_ptr<svc::Object> get(const Delivery& d, const Datum& v)
	{
		return v.kind == Datum::Object ? makeObject(d.world, v.type, v.id, v.depth) : nullptr;
	}
};
// Interfaces and unions.
Result convertObject(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<svc::Object>(t, std::move(d), std::move(p));
}
} // namespace h
