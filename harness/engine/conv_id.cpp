#include "conv.h"
namespace h {
template <>
struct Leaf<resp::IdType>
{
	static resp::IdType get(const Delivery&, const Datum& v)
	{
		const auto& s = v.leaf.list.at(0).s;
		return resp::IdType { s.begin(), s.end() };
	}
};
Result convertId(const TypeRef& t, Delivery&& d, Params&& p)
{
	return dispatch<resp::IdType>(t, std::move(d), std::move(p));
}
} // namespace h
