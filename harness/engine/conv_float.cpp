#include "conv.h"
namespace h {
template <>
struct Leaf<double>
{
	static double get(const Delivery&, const Datum& v)
	{
		return v.leaf.f;
	}
};
Result convertFloat(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::FloatType>(t, std::move(d), std::move(p));
}
} // namespace h
