#include "conv.h"
#include "dyn.h"
namespace h {
template <>
struct Leaf<DynObject>
{
	static std::shared_ptr<DynObject> get(const Delivery& d, const Datum& v)
	{
		return v.kind == Datum::Object ? std::static_pointer_cast<DynObject>(makeObject(d.world, v.type, v.id, v.depth)) : nullptr;
	}
};
// Object types, through a subclass of service::Object as in generated code.
Result convertDerived(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<DynObject>(t, std::move(d), std::move(p));
}
} // namespace h
