#include "conv.h"
namespace h {
template <>
struct Leaf<resp::Value>
{
	static resp::Value get(const Delivery&, const Datum& v)
	{
		return toValue(v.leaf);
	}
};
Result convertScalar(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::Value>(t, std::move(d), std::move(p));
}
} // namespace h
