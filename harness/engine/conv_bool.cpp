#include "conv.h"
namespace h {
template <>
struct Leaf<bool>
{
	static bool get(const Delivery&, const Datum& v)
	{
		return v.leaf.b;
	}
};
Result convertBool(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::BooleanType>(t, std::move(d), std::move(p));
}
} // namespace h
