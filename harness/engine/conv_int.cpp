#include "conv.h"
namespace h {
template <>
struct Leaf<int>
{
	static int get(const Delivery&, const Datum& v)
	{
		return static_cast<int>(v.leaf.i);
	}
};
Result convertInt(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::IntType>(t, std::move(d), std::move(p));
}
} // namespace h
