#include "conv.h"
namespace h {
template <>
struct Leaf<std::string>
{
	static std::string get(const Delivery&, const Datum& v)
	{
		return v.leaf.s;
	}
};
Result convertString(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::StringType>(t, std::move(d), std::move(p));
}
} // namespace h
