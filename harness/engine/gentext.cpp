#include "gentext.h"

#include <limits>

namespace h {

uint32_t genCodePoint(Src& src)
{
	switch (src.weighted({ 60, 8, 8, 8, 6, 4, 3, 3 }))
	{
		case 0:
			return 'a' + static_cast<uint32_t>(src.below(26));
		case 1:
			return 0x20 + static_cast<uint32_t>(src.below(0x5F)); // printable ASCII
		case 2:
			return src.pick(std::vector<uint32_t> { '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', '#', ',' });
		case 3:
			return 0x80 + static_cast<uint32_t>(src.below(0x780));
		case 4:
		{
			auto c = 0x800 + static_cast<uint32_t>(src.below(0xF800));
			return c >= 0xD800 && c <= 0xDFFF ? c - 0x1000 : c;
		}
		case 5:
			return 0x10000 + static_cast<uint32_t>(src.below(0x100000));
		case 6:
			return static_cast<uint32_t>(src.below(0x20)); // control characters, NUL
		default:
			return src.pick(std::vector<uint32_t> { 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x2028 });
	}
}

std::string genText(Src& src, size_t maxCodePoints)
{
	std::string out;
	for (size_t n = src.size(0, maxCodePoints); n > 0; --n)
	{
		out += utf8(genCodePoint(src));
	}
	return out;
}

std::string genName(Src& src)
{
	static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
	static const std::string rest = first + "0123456789";
	std::string out(1, first[src.below(first.size())]);
	for (size_t n = src.size(0, 7); n > 0; --n)
	{
		out += rest[src.below(rest.size())];
	}
	return out;
}

int32_t genInt32(Src& src)
{
	switch (src.weighted({ 6, 2, 2, 1 }))
	{
		case 0:
			return static_cast<int32_t>(src.range(0, 20)) * (src.coin(1, 4) ? -1 : 1);
		case 1:
			return static_cast<int32_t>(src.range(-100000, 100000));
		case 2:
			return static_cast<int32_t>(static_cast<uint32_t>(src.below(1ull << 32)));
		default:
			return src.pick(std::vector<int32_t> { 0, -1, std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max() - 1, 65535, 65536 });
	}
}

double genDouble(Src& src)
{
	switch (src.weighted({ 5, 3, 3, 2 }))
	{
		case 0:
			return static_cast<double>(genInt32(src)) / 4.0;
		case 1:
			return static_cast<double>(src.range(-1000000, 1000000)) / 1000.0;
		case 2:
		{
			const uint64_t bits = src.bits();
			double d = 0;
			std::memcpy(&d, &bits, sizeof(d));
			return std::isfinite(d) ? d : 1.5;
		}
		default:
			return src.pick(std::vector<double> { 0.0, -0.0, 1e22, 1e-7, 123456789012345680.0, 0.1, 1.0 / 3.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4503599627370497.5, 3000000000.0 });
	}
}

} // namespace h
