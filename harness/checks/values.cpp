// C14 value containers, C15 JSON, C16 Base64, C22 sorted containers.
#include "gentext.h"

#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/internal/Base64.h"
#include "graphqlservice/internal/SortedMap.h"

#include <limits>
#include <list>

using namespace graphql;
using namespace h;

namespace {

// ---------------------------------------------------------------------------------------------
// C14

struct Slot14
{
	response::Value real;
	JV model;
};

bool sameModel(const JV& a, const JV& b)
{
	if (a.kind != b.kind)
		return false;
	if (a.kind == JV::String && a.fromJson != b.fromJson)
		return false;
	if (a.kind == JV::List || a.kind == JV::Scalar)
	{
		if (a.list.size() != b.list.size())
			return false;
		for (size_t i = 0; i < a.list.size(); ++i)
			if (!sameModel(a.list[i], b.list[i]))
				return false;
		return true;
	}
	if (a.kind == JV::Map)
	{
		if (a.map.size() != b.map.size())
			return false;
		for (size_t i = 0; i < a.map.size(); ++i)
			if (a.map[i].first != b.map[i].first || !sameModel(a.map[i].second, b.map[i].second))
				return false;
		return true;
	}
	return equal(a, b);
}

const std::vector<std::string>& keyPool()
{
	static const std::vector<std::string> keys = [] {
		std::vector<std::string> k { "a", "b", "", "aa", "ab", "A", "b\0c", "zz", "a\0", "\xC3\xA9" };
		k[6] = std::string("b\0c", 3);
		k[8] = std::string("a\0", 2);
		for (char c = 'a'; c <= 'z'; ++c)
			k.push_back(std::string("k") + c);
		for (int i = 0; i < 30; ++i)
			k.push_back(std::to_string(i));
		return k;
	}();
	return keys;
}

// Everything that can be observed about one value.
void observe14(const Ctx& ctx, const response::Value& real, const JV& model, const std::string& where)
{
	const auto seen = fromValue(real);
	if (!sameModel(seen, model))
	{
		ctx.fail(cat(where, ": holds ", show(seen), " (from_json ", seen.fromJson, ") but should hold ", show(model), " (from_json ", model.fromJson, ")"));
	}
	if (model.kind == JV::Map)
	{
		ctx.require(real.size() == model.map.size(), where + ": size");
		for (size_t i = 0; i < model.map.size(); ++i)
		{
			const auto& name = model.map[i].first;
			const auto itr = real.find(name);
			ctx.require(itr != real.end(), cat(where, ": member ", escape(name), " not found"));
			ctx.require(itr - real.begin() == static_cast<ptrdiff_t>(i), cat(where, ": member ", escape(name), " found at the wrong position"));
			ctx.require(&real[name] == &itr->second, where + ": operator[] differs from find");
			observe14(ctx, itr->second, model.map[i].second, where + "." + escape(name));
		}
		for (const auto& name : keyPool())
		{
			if (!model.find(name))
			{
				ctx.require(real.find(name) == real.end(), cat(where, ": absent member ", escape(name), " found"));
			}
		}
	}
	else if (model.kind == JV::List)
	{
		ctx.require(real.size() == model.list.size(), where + ": size");
		for (size_t i = 0; i < model.list.size(); ++i)
			observe14(ctx, real[i], model.list[i], cat(where, "[", i, "]"));
	}
	ctx.require(real.maybe_enum() == (model.kind == JV::Enum || (model.kind == JV::String && model.fromJson)), where + ": maybe_enum");
}

template <typename F>
bool throws(F&& f)
{
	try
	{
		f();
	}
	catch (const std::exception&)
	{
		return true;
	}
	return false;
}

constexpr response::Type c_types[] = { response::Type::Null, response::Type::Boolean,
	response::Type::Int, response::Type::Float, response::Type::String, response::Type::EnumValue,
	response::Type::List, response::Type::Map, response::Type::Scalar };

JV defaultModel(response::Type type)
{
	JV m;
	switch (type)
	{
		case response::Type::Null: break;
		case response::Type::Boolean: m.kind = JV::Bool; break;
		case response::Type::Int: m.kind = JV::Int; break;
		case response::Type::Float: m.kind = JV::Float; break;
		case response::Type::String: m.kind = JV::String; break;
		case response::Type::EnumValue: m.kind = JV::Enum; break;
		case response::Type::List: m.kind = JV::List; break;
		case response::Type::Map: m.kind = JV::Map; break;
		case response::Type::Scalar: m.kind = JV::Scalar; break;
	}
	return m;
}

response::Type typeOf(const JV& m)
{
	switch (m.kind)
	{
		case JV::Null: return response::Type::Null;
		case JV::Bool: return response::Type::Boolean;
		case JV::Int: return response::Type::Int;
		case JV::Float: return response::Type::Float;
		case JV::String: return response::Type::String;
		case JV::Enum: return response::Type::EnumValue;
		case JV::List: return response::Type::List;
		case JV::Map: return response::Type::Map;
		case JV::Scalar: return response::Type::Scalar;
	}
	return response::Type::Null;
}

size_t weight(const JV& m)
{
	size_t n = 1;
	for (const auto& e : m.list)
		n += weight(e);
	for (const auto& e : m.map)
		n += weight(e.second);
	return n;
}

std::string encode64(const std::vector<uint8_t>& bytes)
{
	static const char* alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string out;
	uint32_t acc = 0;
	int bits = 0;
	for (auto b : bytes)
	{
		acc = (acc << 8) | b;
		bits += 8;
		while (bits >= 6)
		{
			bits -= 6;
			out += alphabet[(acc >> bits) & 63];
		}
	}
	if (bits > 0)
		out += alphabet[(acc << (6 - bits)) & 63];
	while (out.size() % 4)
		out += '=';
	return out;
}

enum class Verdict
{
	Accept,
	Reject,
	Either
};

// Canonical Base64 must decode (padding may be missing), anything that carries a character outside
// the alphabet, padding in the middle, non-zero trailing bits or an impossible length must not.
Verdict decode64(std::string_view text, std::vector<uint8_t>& out)
{
	out.clear();
	size_t pads = 0;
	size_t n = text.size();
	while (n > 0 && text[n - 1] == '=')
	{
		--n;
		++pads;
	}
	uint32_t acc = 0;
	int bits = 0;
	for (size_t i = 0; i < n; ++i)
	{
		const char c = text[i];
		int v = -1;
		if (c >= 'A' && c <= 'Z') v = c - 'A';
		else if (c >= 'a' && c <= 'z') v = c - 'a' + 26;
		else if (c >= '0' && c <= '9') v = c - '0' + 52;
		else if (c == '+') v = 62;
		else if (c == '/') v = 63;
		if (v < 0)
			return Verdict::Reject;
		acc = (acc << 6) | static_cast<uint32_t>(v);
		bits += 6;
		if (bits >= 8)
		{
			bits -= 8;
			out.push_back(static_cast<uint8_t>(acc >> bits));
		}
		acc &= 0xFFF;
	}
	if (n % 4 == 1)
		return Verdict::Reject;
	if (bits > 0 && (acc & ((1u << bits) - 1)) != 0)
		return Verdict::Reject;
	const size_t expected = n % 4 == 0 ? 0 : 4 - n % 4;
	if (pads > 2)
		return Verdict::Reject;
	if (pads > expected)
		return Verdict::Either;
	return Verdict::Accept;
}

std::vector<uint8_t> genBytes(Src& src, size_t limit)
{
	std::vector<uint8_t> bytes(src.size(0, limit));
	for (auto& b : bytes)
		b = static_cast<uint8_t>(src.below(256));
	return bytes;
}

void run14(Src& src, Ctx& ctx)
{
	const size_t slots = 3 + src.below(3);
	std::vector<Slot14> pool(slots);
	const size_t steps = src.size(1, 70);
	bool sawMapWithMany = false, sawDuplicate = false, sawWrongKind = false, sawCopy = false, sawMove = false;
	auto say = [&](const std::string& line) {
		ctx.desc << line << "\n";
	};
	for (size_t step = 0; step < steps; ++step)
	{
		const size_t a = src.below(slots);
		const size_t b = src.below(slots);
		auto& A = pool[a];
		auto& B = pool[b];
		const auto where = cat("step ", step);
		const bool isMap = A.model.kind == JV::Map;
		const bool isList = A.model.kind == JV::List;
		switch (src.weighted({ 6, 4, 3, 3, 12, 5, 3, 3, 2, 6, 6, 5, 2, 3, 1, 2 }))
		{
			case 0:
			{
				const auto type = src.pick(std::vector<response::Type>(std::begin(c_types), std::end(c_types)));
				say(cat("v", a, " = Value(type ", int(type), ")"));
				A.real = response::Value(type);
				A.model = defaultModel(type);
				break;
			}
			case 1:
			{
				switch (src.below(6))
				{
					case 0:
					{
						auto s = genText(src, 6);
						say(cat("v", a, " = \"", escape(s), "\""));
						A.real = response::Value(std::string(s));
						A.model = JV::string(s);
						break;
					}
					case 1:
					{
						auto n = genInt32(src);
						say(cat("v", a, " = ", n));
						A.real = response::Value(n);
						A.model = JV::integer(n);
						break;
					}
					case 2:
					{
						auto d = genDouble(src);
						say(cat("v", a, " = ", formatDouble(d)));
						A.real = response::Value(d);
						A.model = JV::real(d);
						break;
					}
					case 3:
					{
						const bool v = src.coin();
						say(cat("v", a, " = ", v));
						A.real = response::Value(v);
						A.model = JV::boolean(v);
						break;
					}
					case 4:
					{
						auto id = genBytes(src, 8);
						say(cat("v", a, " = id of ", id.size(), " bytes"));
						A.real = response::Value(id);
						A.model = JV::string(encode64(id));
						break;
					}
					default:
						say(cat("v", a, " = \"literal\""));
						A.real = response::Value("literal");
						A.model = JV::string("literal");
						break;
				}
				break;
			}
			case 2: // copy
			{
				say(cat("v", a, " = copy of v", b));
				if (weight(B.model) > 400)
					break;
				const auto before = B.model;
				response::Value copy(B.real);
				A.real = std::move(copy);
				A.model = before;
				sawCopy = sawCopy || weight(before) > 2;
				break;
			}
			case 3: // move
			{
				if (src.coin(1, 8))
				{
					say(cat("v", a, " = move(v", a, ")"));
					auto& self = A.real;
					A.real = std::move(self);
					break;
				}
				say(cat("v", a, " = move(v", b, ")"));
				if (a == b)
					break;
				if (src.coin())
				{
					response::Value tmp(std::move(B.real));
					A.real = std::move(tmp);
				}
				else
				{
					A.real = std::move(B.real);
				}
				A.model = B.model;
				B.real = response::Value();
				B.model = JV::null();
				sawMove = sawMove || weight(A.model) > 2;
				break;
			}
			case 4: // insert member
			{
				const auto name = src.pick(keyPool());
				if (!isMap)
				{
					if (!src.coin(1, 6))
					{
						A.real = response::Value(response::Type::Map);
						A.model = defaultModel(response::Type::Map);
						say(cat("v", a, " = {}"));
					}
					else
					{
						say(cat("v", a, ".emplace_back(name) on a non-map"));
						ctx.require(throws([&] { A.real.emplace_back(std::string(name), response::Value()); }), where + ": member insert into a non-map did not raise");
						sawWrongKind = true;
						break;
					}
				}
				// several inserts at once so that larger maps are common
				const size_t count = src.coin(1, 4) ? 1 + src.below(12) : 1;
				for (size_t k = 0; k < count; ++k)
				{
					const auto key = k == 0 ? name : src.pick(keyPool());
					say(cat("v", a, ".emplace_back(\"", escape(key), "\", ", k == 0 && a != b ? cat("move(v", b, ")") : cat(step), ")"));
					const bool fresh = A.model.find(key) == nullptr;
					bool inserted = false;
					if (k == 0 && a != b && weight(B.model) < 60)
					{
						auto moved = B.model;
						inserted = A.real.emplace_back(std::string(key), std::move(B.real));
						if (fresh)
							A.model.map.emplace_back(key, moved);
						B.real = response::Value();
						B.model = JV::null();
					}
					else
					{
						inserted = A.real.emplace_back(std::string(key), response::Value(int(step * 100 + k)));
						if (fresh)
							A.model.map.emplace_back(key, JV::integer(int(step * 100 + k)));
					}
					sawDuplicate = sawDuplicate || !fresh;
					ctx.require(inserted == fresh, cat(where, ": inserting ", fresh ? "a new" : "an existing", " name returned ", inserted));
				}
				sawMapWithMany = sawMapWithMany || A.model.map.size() >= 4;
				break;
			}
			case 5: // append element
			{
				if (!isList && src.coin(5, 6))
				{
					A.real = response::Value(response::Type::List);
					A.model = defaultModel(response::Type::List);
					say(cat("v", a, " = []"));
				}
				else if (!isList)
				{
					say(cat("v", a, ".emplace_back(element) on a non-list"));
					ctx.require(throws([&] { A.real.emplace_back(response::Value()); }), where + ": element insert into a non-list did not raise");
					sawWrongKind = true;
					break;
				}
				if (a != b && weight(B.model) < 60)
				{
					say(cat("v", a, ".emplace_back(move(v", b, "))"));
					auto moved = B.model;
					A.real.emplace_back(std::move(B.real));
					A.model.list.push_back(moved);
					B.real = response::Value();
					B.model = JV::null();
				}
				else
				{
					say(cat("v", a, ".emplace_back(", step, ")"));
					A.real.emplace_back(response::Value(int(step)));
					A.model.list.push_back(JV::integer(int(step)));
				}
				break;
			}
			case 6: // lookup
			{
				const auto name = src.pick(keyPool());
				say(cat("v", a, "[\"", escape(name), "\"]"));
				const bool has = isMap && A.model.find(name);
				if (!isMap)
				{
					sawWrongKind = true;
					ctx.require(throws([&] { (void)A.real.find(name); }), where + ": find on a non-map did not raise");
					ctx.require(throws([&] { (void)A.real.begin(); }), where + ": begin on a non-map did not raise");
					ctx.require(throws([&] { (void)A.real.end(); }), where + ": end on a non-map did not raise");
				}
				ctx.require(throws([&] { (void)A.real[name]; }) == !has, where + ": member access");
				break;
			}
			case 7: // index
			{
				const size_t index = src.below(6);
				say(cat("v", a, "[", index, "]"));
				const bool has = isList && index < A.model.list.size();
				ctx.require(throws([&] { (void)A.real[index]; }) == !has, where + ": element access");
				break;
			}
			case 8: // reserve, size
			{
				say(cat("v", a, ".reserve/size"));
				const auto n = src.below(50);
				ctx.require(throws([&] { A.real.reserve(n); }) == !(isMap || isList), where + ": reserve");
				ctx.require(throws([&] { (void)A.real.size(); }) == !(isMap || isList), where + ": size");
				break;
			}
			case 9: // set
			{
				switch (src.below(6))
				{
					case 0:
					{
						auto s = genText(src, 5);
						say(cat("v", a, ".set string \"", escape(s), "\""));
						const bool ok = A.model.kind == JV::String || A.model.kind == JV::Enum;
						ctx.require(throws([&] { A.real.set<response::StringType>(std::string(s)); }) == !ok, where + ": set string");
						if (ok)
							A.model.s = s;
						sawWrongKind = sawWrongKind || !ok;
						break;
					}
					case 1:
					{
						const bool v = src.coin();
						say(cat("v", a, ".set bool ", v));
						const bool ok = A.model.kind == JV::Bool;
						ctx.require(throws([&] { A.real.set<response::BooleanType>(v); }) == !ok, where + ": set bool");
						if (ok)
							A.model.b = v;
						break;
					}
					case 2:
					{
						const int v = genInt32(src);
						say(cat("v", a, ".set int ", v));
						const bool ok = A.model.kind == JV::Int || A.model.kind == JV::Float;
						ctx.require(throws([&] { A.real.set<response::IntType>(v); }) == !ok, where + ": set int");
						if (A.model.kind == JV::Int)
							A.model.i = v;
						else if (ok)
							A.model.f = v;
						break;
					}
					case 3:
					{
						const double v = genDouble(src);
						say(cat("v", a, ".set float ", formatDouble(v)));
						const bool ok = A.model.kind == JV::Float;
						ctx.require(throws([&] { A.real.set<response::FloatType>(v); }) == !ok, where + ": set float");
						if (ok)
							A.model.f = v;
						break;
					}
					case 4:
					{
						if (a == b || weight(B.model) > 60)
							break;
						say(cat("v", a, ".set scalar move(v", b, ")"));
						const bool ok = A.model.kind == JV::Scalar;
						ctx.require(throws([&] { A.real.set<response::ScalarType>(std::move(B.real)); }) == !ok, where + ": set scalar");
						if (ok)
						{
							A.model.list = { B.model };
							B.real = response::Value();
							B.model = JV::null();
						}
						break;
					}
					default:
					{
						auto id = genBytes(src, 7);
						say(cat("v", a, ".set id of ", id.size(), " bytes"));
						const bool ok = A.model.kind == JV::String;
						ctx.require(throws([&] { A.real.set<response::IdType>(id); }) == !ok, where + ": set id");
						if (ok)
							A.model.s = encode64(id);
						break;
					}
				}
				break;
			}
			case 10: // get
			{
				say(cat("v", a, ".get as everything"));
				const auto& m = A.model;
				const auto& r = A.real;
				bool bad = throws([&] { ctx.require(r.get<response::StringType>() == m.s, where + ": get string"); });
				ctx.require(bad == !(m.kind == JV::String || m.kind == JV::Enum), where + ": get string kind");
				bad = throws([&] { ctx.require(r.get<response::BooleanType>() == m.b, where + ": get bool"); });
				ctx.require(bad == (m.kind != JV::Bool), where + ": get bool kind");
				bad = throws([&] { ctx.require(r.get<response::IntType>() == m.i, where + ": get int"); });
				ctx.require(bad == (m.kind != JV::Int), where + ": get int kind");
				bad = throws([&] {
					const double d = r.get<response::FloatType>();
					ctx.require(m.kind == JV::Int ? d == static_cast<double>(m.i) : sameDouble(d, m.f), where + ": get float");
				});
				ctx.require(bad == !(m.kind == JV::Float || m.kind == JV::Int), where + ": get float kind");
				bad = throws([&] { (void)r.get<response::MapType>(); });
				ctx.require(bad == (m.kind != JV::Map), where + ": get map kind");
				bad = throws([&] { (void)r.get<response::ListType>(); });
				ctx.require(bad == (m.kind != JV::List), where + ": get list kind");
				bad = throws([&] { (void)r.get<response::ScalarType>(); });
				ctx.require(bad == !(m.kind == JV::Scalar && !m.list.empty()), where + ": get scalar kind");
				std::vector<uint8_t> bytes;
				const auto verdict = m.kind == JV::String ? decode64(m.s, bytes) : Verdict::Reject;
				bad = throws([&] {
					const auto id = r.get<response::IdType>();
					ctx.require(id == bytes, where + ": get id");
				});
				if (verdict != Verdict::Either)
					ctx.require(bad == (verdict == Verdict::Reject), where + ": get id kind");
				break;
			}
			case 11: // release
			{
				switch (src.below(5))
				{
					case 0:
					{
						say(cat("v", a, ".release map"));
						std::optional<response::MapType> out;
						const bool bad = throws([&] { out = A.real.release<response::MapType>(); });
						ctx.require(bad == !isMap, where + ": release map kind");
						if (isMap)
						{
							ctx.require(out->size() == A.model.map.size(), where + ": released map size");
							for (size_t i = 0; i < out->size(); ++i)
							{
								ctx.require((*out)[i].first == A.model.map[i].first, where + ": released map names");
								observe14(ctx, (*out)[i].second, A.model.map[i].second, where + ": released map");
							}
							A.model.map.clear();
						}
						break;
					}
					case 1:
					{
						say(cat("v", a, ".release list"));
						std::optional<response::ListType> out;
						const bool bad = throws([&] { out = A.real.release<response::ListType>(); });
						ctx.require(bad == !isList, where + ": release list kind");
						if (isList)
						{
							ctx.require(out->size() == A.model.list.size(), where + ": released list size");
							for (size_t i = 0; i < out->size(); ++i)
								observe14(ctx, (*out)[i], A.model.list[i], where + ": released list");
							A.model.list.clear();
						}
						break;
					}
					case 2:
					{
						say(cat("v", a, ".release string"));
						const bool ok = A.model.kind == JV::String || A.model.kind == JV::Enum;
						std::string out;
						const bool bad = throws([&] { out = A.real.release<response::StringType>(); });
						ctx.require(bad == !ok, where + ": release string kind");
						if (ok)
						{
							ctx.require(out == A.model.s, where + ": released string");
							A.real = response::Value();
							A.model = JV::null();
						}
						break;
					}
					case 3:
					{
						say(cat("v", a, ".release scalar"));
						const bool ok = A.model.kind == JV::Scalar && !A.model.list.empty();
						response::Value out;
						const bool bad = throws([&] { out = A.real.release<response::ScalarType>(); });
						ctx.require(bad == !ok, where + ": release scalar kind");
						if (ok)
						{
							observe14(ctx, out, A.model.list[0], where + ": released scalar");
							A.model.list.clear();
						}
						break;
					}
					default:
					{
						if (A.model.kind == JV::String)
						{
							std::vector<uint8_t> bytes;
							if (decode64(A.model.s, bytes) != Verdict::Accept)
								break;
							say(cat("v", a, ".release id"));
							ctx.require(A.real.release<response::IdType>() == bytes, where + ": released id");
							A.real = response::Value();
							A.model = JV::null();
						}
						else
						{
							say(cat("v", a, ".release id on a non-string"));
							ctx.require(throws([&] { (void)A.real.release<response::IdType>(); }), where + ": release id kind");
						}
						break;
					}
				}
				break;
			}
			case 12:
				say(cat("v", a, ".from_json()"));
				A.real.from_json();
				if (A.model.kind == JV::String)
					A.model.fromJson = true;
				break;
			case 13:
			{
				say(cat("v", a, " == v", b));
				const bool eq = A.real == B.real;
				ctx.require((A.real != B.real) == !eq, where + ": == and != agree");
				ctx.require((B.real == A.real) == eq, where + ": == is symmetric");
				std::function<bool(const JV&)> nan = [&](const JV& v) -> bool {
					if (v.kind == JV::Float && (std::isnan(v.f) || v.f == 0))
						return true;
					for (const auto& e : v.list)
						if (nan(e))
							return true;
					for (const auto& e : v.map)
						if (nan(e.second))
							return true;
					return false;
				};
				if (sameModel(A.model, B.model))
					ctx.require(eq || nan(A.model), where + ": equal values compare unequal");
				else if (!equal(A.model, B.model))
					ctx.require(!eq || nan(A.model), where + ": different values compare equal");
				break;
			}
			case 14: // copy of part
				if (isMap && !A.model.map.empty() && a != b)
				{
					const auto i = src.below(A.model.map.size());
					say(cat("v", b, " = copy of member ", i, " of v", a));
					B.real = response::Value((A.real.begin() + i)->second);
					B.model = A.model.map[i].second;
				}
				break;
			default: // a copy compares equal to its source and survives changes of it
			{
				if (weight(A.model) > 200)
					break;
				say(cat("copy of v", a, " compared"));
				response::Value copy(A.real);
				observe14(ctx, copy, A.model, where + ": copy");
				if (isMap)
				{
					copy.emplace_back("only in the copy", response::Value(1));
					ctx.require(A.real.find("only in the copy") == A.real.end(), where + ": copy shares state");
				}
				else if (isList)
				{
					copy.emplace_back(response::Value(1));
				}
				break;
			}
		}
		for (size_t i = 0; i < slots; ++i)
			if (i == a || i == b || step + 1 == steps || step % 8 == 7)
				observe14(ctx, pool[i].real, pool[i].model, cat(where, " v", i));
	}
	if (sawMapWithMany)
		ctx.label("map with 4 or more members");
	if (sawDuplicate)
		ctx.label("insert of an existing name");
	if (sawWrongKind)
		ctx.label("wrong-kind access");
	if (sawCopy)
		ctx.label("copy of a compound value");
	if (sawMove)
		ctx.label("move of a compound value");
	ctx.nontrivial = (sawMapWithMany || sawCopy || sawMove) && steps >= 5;
}

// ---------------------------------------------------------------------------------------------
// C15

JV genValue15(Src& src, int depth, bool oddFloats)
{
	switch (src.weighted({ 2, 2, 4, 4, 6, 2, depth > 0 ? 5u : 0u, depth > 0 ? 6u : 0u, depth > 0 ? 1u : 0u }))
	{
		case 0: return JV::null();
		case 1: return JV::boolean(src.coin());
		case 2: return JV::integer(genInt32(src));
		case 3:
			if (oddFloats && src.coin(1, 12))
				return JV::real(src.pick(std::vector<double> { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() }));
			return JV::real(genDouble(src));
		case 4: return JV::string(genText(src, 12));
		case 5: return JV::enumeration(genName(src));
		case 6:
		{
			auto r = JV::makeList();
			for (size_t n = src.size(0, 6); n > 0; --n)
				r.list.push_back(genValue15(src, depth - 1, oddFloats));
			return r;
		}
		case 7:
		{
			auto r = JV::makeMap();
			for (size_t n = src.size(0, 7); n > 0; --n)
			{
				const auto name = src.coin(1, 3) ? genText(src, 6) : genName(src);
				if (!r.find(name))
					r.map.emplace_back(name, genValue15(src, depth - 1, oddFloats));
			}
			return r;
		}
		default:
		{
			JV r;
			r.kind = JV::Scalar;
			r.list.push_back(genValue15(src, depth - 1, oddFloats));
			return r;
		}
	}
}

// What JSON can express of a value.
JV jsonOf(const JV& v)
{
	switch (v.kind)
	{
		case JV::Enum: return JV::string(v.s);
		case JV::Float: return std::isfinite(v.f) ? v : JV::null();
		case JV::Scalar: return v.list.empty() ? JV::null() : jsonOf(v.list[0]);
		case JV::List:
		{
			auto r = JV::makeList();
			for (const auto& e : v.list)
				r.list.push_back(jsonOf(e));
			return r;
		}
		case JV::Map:
		{
			auto r = JV::makeMap();
			for (const auto& e : v.map)
				r.map.emplace_back(e.first, jsonOf(e.second));
			return r;
		}
		default: return v;
	}
}

void requireMaybeEnum(const Ctx& ctx, const response::Value& v)
{
	if (v.type() == response::Type::String)
		ctx.require(v.maybe_enum(), "a string read from JSON may stand for an enum value");
	if (v.type() == response::Type::List)
		for (size_t i = 0; i < v.size(); ++i)
			requireMaybeEnum(ctx, v[i]);
	if (v.type() == response::Type::Map)
		for (const auto& e : v)
		{
			ctx.require(v.find(e.first) != v.end(), "member read from JSON cannot be looked up");
			requireMaybeEnum(ctx, e.second);
		}
}

std::string ws15(Src& src)
{
	std::string out;
	for (size_t n = src.coin(1, 4) ? src.below(3) : 0; n > 0; --n)
		out += src.pick(std::vector<std::string> { " ", "\n", "\t", "\r", "  " });
	return out;
}

std::string jsonText15(Src& src, const std::string& s)
{
	// every character in one of its JSON spellings
	std::string out = "\"";
	for (size_t i = 0; i < s.size();)
	{
		const unsigned char c = s[i];
		size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		uint32_t cp = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 7;
		for (size_t k = 1; k < n; ++k)
			cp = (cp << 6) | (s[i + k] & 0x3F);
		char buf[16];
		const char* shortForm = nullptr;
		switch (cp)
		{
			case '"': shortForm = "\\\""; break;
			case '\\': shortForm = "\\\\"; break;
			case '/': shortForm = "\\/"; break;
			case '\b': shortForm = "\\b"; break;
			case '\f': shortForm = "\\f"; break;
			case '\n': shortForm = "\\n"; break;
			case '\r': shortForm = "\\r"; break;
			case '\t': shortForm = "\\t"; break;
		}
		const bool mustEscape = cp < 0x20 || cp == '"' || cp == '\\';
		if (shortForm && (mustEscape ? src.coin(2, 3) : src.coin(1, 4)))
			out += shortForm;
		else if (mustEscape || src.coin(1, 8))
		{
			const char* f = src.coin() ? "\\u%04x" : "\\u%04X";
			if (cp >= 0x10000)
			{
				std::snprintf(buf, sizeof(buf), f, 0xD800 + ((cp - 0x10000) >> 10));
				out += buf;
				std::snprintf(buf, sizeof(buf), f, 0xDC00 + ((cp - 0x10000) & 0x3FF));
				out += buf;
			}
			else
			{
				std::snprintf(buf, sizeof(buf), f, cp);
				out += buf;
			}
		}
		else
			out += s.substr(i, n);
		i += n;
	}
	return out + "\"";
}

std::string genJson15(Src& src, int depth)
{
	switch (src.weighted({ 2, 2, 4, 5, 6, depth > 0 ? 5u : 0u, depth > 0 ? 6u : 0u }))
	{
		case 0: return "null";
		case 1: return src.coin() ? "true" : "false";
		case 2: return std::to_string(genInt32(src));
		case 3:
		{
			std::string n = src.coin(1, 4) ? "-" : "";
			n += src.coin(1, 4) ? "0" : std::to_string(1 + src.below(src.coin(1, 6) ? 1000000000000000000ull : 999));
			const auto form = src.below(3);
			if (form != 1)
			{
				n += ".";
				for (size_t k = 1 + src.size(0, 18); k > 0; --k)
					n += char('0' + src.below(10));
			}
			if (form != 0)
			{
				n += src.coin() ? "e" : "E";
				n += src.pick(std::vector<std::string> { "", "+", "-" });
				n += std::to_string(src.below(src.coin(1, 6) ? 280 : 12));
			}
			return n;
		}
		case 4: return jsonText15(src, genText(src, 12));
		case 5:
		{
			std::string out = "[" + ws15(src);
			for (size_t n = src.size(0, 6), i = 0; i < n; ++i)
				out += (i ? "," + ws15(src) : "") + genJson15(src, depth - 1) + ws15(src);
			return out + "]";
		}
		default:
		{
			std::string out = "{" + ws15(src);
			std::set<std::string> used;
			bool first = true;
			for (size_t n = src.size(0, 6); n > 0; --n)
			{
				const auto name = src.coin(1, 3) ? genText(src, 6) : genName(src);
				if (!used.insert(name).second)
					continue;
				out += (first ? "" : "," + ws15(src)) + jsonText15(src, name) + ws15(src) + ":" + ws15(src) + genJson15(src, depth - 1) + ws15(src);
				first = false;
			}
			return out + "}";
		}
	}
}

size_t depthOf(const JV& v)
{
	size_t d = 0;
	for (const auto& e : v.list)
		d = std::max(d, depthOf(e));
	for (const auto& e : v.map)
		d = std::max(d, depthOf(e.second));
	return d + 1;
}

// Reading a double may be off by a few units in the last place: recorded in known_findings.txt, so
// the search looks for anything beyond it.
struct Tolerance
{
	Tolerance()
	{
		g_ulps = 3;
	}
	~Tolerance()
	{
		g_ulps = 0;
	}
};

void value15(Ctx& ctx, const JV& model)
{
	const auto expected = jsonOf(model);
	const auto text = response::toJSON(toValue(model));
	JV seen;
	std::string error;
	if (!readJson(text, seen, error))
		ctx.fail(cat("serialised text is not valid JSON (", error, "): ", escape(text)));
	if (!equal(seen, expected))
		ctx.fail(cat("serialised text denotes another value: ", escape(text), " should denote ", show(expected)));
	const Tolerance tolerance;
	const auto back = response::parseJSON(text);
	const auto backModel = fromValue(back);
	if (!equal(backModel, expected))
		ctx.fail(cat("parsing the serialised text ", escape(text), " gives ", show(backModel), " instead of ", show(expected)));
	requireMaybeEnum(ctx, back);
}

void text15(Ctx& ctx, const std::string& text)
{
	JV expected;
	std::string error;
	if (!readJson(text, expected, error))
		throw std::logic_error("generator made invalid JSON: " + error + " " + text);
	const Tolerance tolerance;
	auto parsed = response::parseJSON(text);
	const auto seen = fromValue(parsed);
	if (!equal(seen, expected))
		ctx.fail(cat("parsing ", escape(text), " gives ", show(seen), " instead of ", show(expected)));
	requireMaybeEnum(ctx, parsed);
	const auto again = response::toJSON(std::move(parsed));
	JV seenAgain;
	if (!readJson(again, seenAgain, error))
		ctx.fail(cat("re-serialised text is not valid JSON (", error, "): ", escape(again)));
	if (!equal(seenAgain, expected))
		ctx.fail(cat("re-serialising ", escape(text), " gives ", escape(again)));
}

void run15(Src& src, Ctx& ctx)
{
	const int depth = src.coin(1, 10) ? 8 : 4;
	switch (src.weighted({ 5, 5, 1 }))
	{
		case 0:
		{
			auto model = genValue15(src, depth, true);
			for (size_t n = src.coin(3, 4) ? 1 + src.below(4) : 0; n > 0; --n)
			{
				auto outer = src.coin() ? JV::makeList() : JV::makeMap();
				auto other = genValue15(src, 1, true);
				if (outer.kind == JV::List)
					outer.list = { model, other };
				else
					outer.map = { { "inner", model }, { genName(src) + "_", other } };
				model = std::move(outer);
			}
			ctx.desc << "value " << show(model);
			ctx.label("value to text");
			value15(ctx, model);
			ctx.nontrivial = model.kind == JV::List || model.kind == JV::Map;
			if (depthOf(model) > 3)
				ctx.label("nesting deeper than 3");
			break;
		}
		case 1:
		{
			const auto text = ws15(src) + (src.coin(3, 4) ? "[" + genJson15(src, depth) + "," + ws15(src) + "{\"k\":" + genJson15(src, depth) + "}]" : genJson15(src, depth)) + ws15(src);
			ctx.desc << "text " << escape(text);
			ctx.label("text to value");
			text15(ctx, text);
			ctx.nontrivial = text.find_first_of("[{") != std::string::npos;
			if (text.find("\\u") != std::string::npos)
				ctx.label("unicode escapes");
			break;
		}
		default:
		{
			// integers that do not fit are refused, never altered
			const int64_t excess = static_cast<int64_t>(src.below(src.coin() ? 1000 : (1ull << 62)));
			const bool negative = src.coin();
			const auto number = negative ? std::to_string(int64_t(std::numeric_limits<int32_t>::min()) - 1 - excess)
				: src.coin(1, 6)		 ? std::to_string(uint64_t(1) << 63)
										 : std::to_string(int64_t(std::numeric_limits<int32_t>::max()) + 1 + excess);
			const auto text = src.coin() ? number : "{\"a\": [1, " + number + "]}";
			ctx.desc << "out of range " << text;
			ctx.label("integer out of range");
			ctx.require(throws([&] { (void)response::parseJSON(text); }), "an integer outside 32 bits was accepted: " + text);
			ctx.nontrivial = true;
			break;
		}
	}
}

// ---------------------------------------------------------------------------------------------
// C16

void bytes16(Ctx& ctx, const std::vector<uint8_t>& bytes)
{
	const auto expected = encode64(bytes);
	const auto text = internal::Base64::toBase64(bytes);
	ctx.require(text == expected, cat("encoded as ", text, " instead of ", expected));
	ctx.require(internal::Base64::fromBase64(text) == bytes, "decoding " + text + " does not give the bytes back");
	response::Value v(bytes);
	ctx.require(v.type() == response::Type::String && v.get<response::StringType>() == expected, "id value holds another text");
	ctx.require(v.get<response::IdType>() == bytes, "id value gives other bytes");
	response::Value w(response::Type::String);
	w.set<response::IdType>(bytes);
	ctx.require(w == v, "setting an id differs from constructing it");
	ctx.require(response::Value(w).get<response::IdType>() == bytes, "copied id value gives other bytes");
	ctx.require(w.release<response::IdType>() == bytes, "released id differs");
	const auto json = response::toJSON(response::Value(v));
	ctx.require(json == "\"" + expected + "\"", "id serialised as " + json);
	ctx.require(response::parseJSON(json).get<response::IdType>() == bytes, "id lost through JSON");
}

void text16(Ctx& ctx, const std::string& text)
{
	std::vector<uint8_t> expected;
	const auto verdict = decode64(text, expected);
	bool accepted = false;
	std::vector<uint8_t> seen;
	try
	{
		seen = internal::Base64::fromBase64(text);
		accepted = true;
	}
	catch (const std::logic_error&)
	{
	}
	if (verdict == Verdict::Accept)
		ctx.require(accepted, "canonical text rejected: " + escape(text));
	if (verdict == Verdict::Reject)
		ctx.require(!accepted, "malformed text accepted: " + escape(text));
	if (accepted && verdict != Verdict::Reject)
		ctx.require(seen == expected, "decoded to other bytes: " + escape(text));
	response::Value v { std::string(text) };
	bool viaValue = false;
	try
	{
		ctx.require(v.get<response::IdType>() == seen, "value decodes to other bytes: " + escape(text));
		viaValue = true;
	}
	catch (const std::logic_error&)
	{
	}
	ctx.require(viaValue == accepted, "value and codec disagree on " + escape(text));
	ctx.label(verdict == Verdict::Accept ? "well-formed text" : verdict == Verdict::Reject ? "malformed text"
																						 : "excess padding");
}

void run16(Src& src, Ctx& ctx)
{
	const auto bytes = genBytes(src, src.coin(1, 10) ? 400 : 24);
	if (src.coin(2, 5))
	{
		ctx.desc << "bytes " << encode64(bytes);
		ctx.label(cat("bytes, length mod 3 = ", bytes.size() % 3));
		bytes16(ctx, bytes);
		ctx.nontrivial = !bytes.empty();
		return;
	}
	auto text = encode64(bytes);
	if (src.coin(1, 6))
	{
		text.clear();
		static const std::string alphabet = "ABab01+/=-_ \n";
		for (size_t n = src.size(0, 12); n > 0; --n)
			text += alphabet[src.below(alphabet.size())];
	}
	else
	{
		for (size_t n = src.below(4); n > 0; --n)
		{
			const size_t at = text.empty() ? 0 : src.below(text.size());
			switch (src.below(5))
			{
				case 0:
					if (!text.empty())
						text.erase(at, 1);
					break;
				case 1:
					text.insert(at, 1, char(src.below(256)));
					break;
				case 2:
					if (!text.empty())
						text[at] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_."[src.below(68)];
					break;
				case 3:
					while (!text.empty() && text.back() == '=')
						text.pop_back();
					break;
				default:
					text += '=';
					break;
			}
		}
	}
	ctx.desc << "text " << escape(text);
	ctx.nontrivial = text.size() >= 2;
	text16(ctx, text);
}

void tables16(Ctx& ctx)
{
	static const std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (int c = 0; c < 256; ++c)
	{
		const auto at = alphabet.find(static_cast<char>(c));
		const auto v = internal::Base64::fromBase64(static_cast<char>(c));
		ctx.require(at == std::string::npos ? v > 63 : v == at, cat("character ", c, " decodes to ", int(v)));
	}
	for (unsigned i = 0; i < 256; ++i)
	{
		const char c = internal::Base64::toBase64(static_cast<std::uint8_t>(i));
		ctx.require(i < 64 ? c == alphabet[i] : c == '=', cat("value ", i, " encodes to ", int(c)));
	}
	// every 1 and 2 byte sequence, every 4 character tail over a small alphabet
	for (int a = 0; a < 256; ++a)
	{
		bytes16(ctx, { static_cast<uint8_t>(a) });
		for (int b = 0; b < 256; ++b)
		{
			const std::vector<uint8_t> two { static_cast<uint8_t>(a), static_cast<uint8_t>(b) };
			const auto text = internal::Base64::toBase64(two);
			ctx.require(text == encode64(two) && internal::Base64::fromBase64(text) == two, cat("two bytes ", a, " ", b));
		}
	}
	static const std::string small = "AQw/=\n";
	for (char a : small)
		for (char b : small)
		{
			text16(ctx, { a, b });
			for (char c : small)
			{
				text16(ctx, { a, b, c });
				for (char d : small)
				{
					text16(ctx, { a, b, c, d });
					for (char e : small)
						text16(ctx, { a, b, c, d, e });
				}
			}
		}
}

// ---------------------------------------------------------------------------------------------
// C22

struct LengthFirst
{
	bool operator()(const std::string& a, const std::string& b) const
	{
		return a.size() == b.size() ? a < b : a.size() < b.size();
	}
};

template <typename Real, typename Model, typename MakeKey>
void sameMap(const Ctx& ctx, const Real& real, const Model& model, MakeKey&& makeKey, const std::string& where)
{
	ctx.require(real.size() == model.size(), cat(where, ": size ", real.size(), " instead of ", model.size()));
	ctx.require(real.empty() == model.empty(), where + ": empty");
	auto m = model.begin();
	for (auto itr = real.begin(); itr != real.end(); ++itr, ++m)
		ctx.require(itr->first == m->first && itr->second == m->second, where + ": iteration order or content");
	auto rm = model.rbegin();
	for (auto itr = real.rbegin(); itr != real.rend(); ++itr, ++rm)
		ctx.require(itr->first == rm->first && itr->second == rm->second, where + ": reverse iteration");
}

// RealMap: sorted_map<RK, std::string, ...>; ModelMap: std::map<MK, std::string, ...>
template <typename RealMap, typename ModelMap, typename Key, typename View>
void drive22Map(Src& src, Ctx& ctx, const std::vector<Key>& keys, View&& view)
{
	RealMap real;
	ModelMap model;
	bool sawErase = false, sawDuplicate = false, sawInit = false;
	size_t biggest = 0;
	if (src.coin(1, 3))
	{
		// initial content
		const auto a = src.below(keys.size()), b = (a + 1 + src.below(keys.size() - 1)) % keys.size();
		auto c = src.below(keys.size());
		if (c == a || c == b)
		{
			real = RealMap { { view(keys[a]), "init-a" }, { view(keys[b]), "init-b" } };
		}
		else
		{
			real = RealMap { { view(keys[a]), "init-a" }, { view(keys[b]), "init-b" }, { view(keys[c]), "init-c" } };
			model[keys[c]] = "init-c";
		}
		model[keys[a]] = "init-a";
		model[keys[b]] = "init-b";
		sawInit = true;
		ctx.desc << "initial " << keys[a] << " " << keys[b] << "\n";
	}
	sameMap(ctx, real, model, view, "initial");
	const size_t steps = src.size(1, 60);
	for (size_t step = 0; step < steps; ++step)
	{
		const auto& key = src.pick(keys);
		const auto where = cat("step ", step);
		const auto value = cat("v", step);
		switch (src.weighted({ 10, 5, 4, 3, 4, 2, 2, 1, 1 }))
		{
			case 0:
			{
				ctx.desc << "emplace " << key << "\n";
				const auto [itr, inserted] = real.emplace(view(key), value);
				const auto [mitr, minserted] = model.emplace(key, value);
				ctx.require(inserted == minserted, where + ": emplace result");
				ctx.require(itr->first == mitr->first && itr->second == mitr->second, where + ": emplace position");
				ctx.require(itr - real.begin() == std::distance(model.begin(), mitr), where + ": emplace offset");
				sawDuplicate = sawDuplicate || !inserted;
				break;
			}
			case 1:
			{
				ctx.desc << "find " << key << "\n";
				const auto k = view(key);
				const auto itr = real.find(k);
				const auto mitr = model.find(key);
				ctx.require((itr == real.end()) == (mitr == model.end()), where + ": find");
				if (mitr != model.end())
					ctx.require(itr->second == mitr->second && itr->first == mitr->first, where + ": found value");
				const auto itr2 = real.find(key); // through the converting overload
				ctx.require(itr == itr2, where + ": find overloads differ");
				break;
			}
			case 2:
			{
				ctx.desc << "[] " << key << "\n";
				auto& r = real[view(key)];
				auto& m = model[key];
				ctx.require(r == m, where + ": indexed value");
				if (src.coin())
				{
					r = value;
					m = value;
				}
				break;
			}
			case 3:
			{
				ctx.desc << "at " << key << "\n";
				const auto mitr = model.find(key);
				try
				{
					auto& r = real.at(view(key));
					ctx.require(mitr != model.end(), where + ": at found an absent key");
					ctx.require(r == mitr->second, where + ": at value");
				}
				catch (const std::out_of_range&)
				{
					ctx.require(mitr == model.end(), where + ": at missed a present key");
				}
				break;
			}
			case 4:
			{
				ctx.desc << "erase " << key << "\n";
				const auto mitr = model.find(key);
				const auto k = view(key);
				const auto next = src.coin() ? real.erase(k) : real.erase(view(key));
				if (mitr == model.end())
					ctx.require(next == real.end(), where + ": erase of an absent key");
				else
				{
					const auto mnext = model.erase(mitr);
					sawErase = true;
					ctx.require(next - real.begin() == std::distance(model.begin(), mnext), where + ": erase result");
				}
				break;
			}
			case 5:
				if (!model.empty())
				{
					const auto at = src.below(model.size());
					ctx.desc << "erase at " << at << "\n";
					const auto next = real.erase(real.begin() + at);
					auto m = model.begin();
					std::advance(m, at);
					const auto mnext = model.erase(m);
					sawErase = true;
					ctx.require(next - real.begin() == std::distance(model.begin(), mnext), where + ": erase position result");
				}
				break;
			case 6:
			{
				ctx.desc << "copy and compare\n";
				RealMap copy = real;
				ctx.require(copy == real, where + ": copy differs");
				copy[view(key)] = "changed";
				ctx.require(model.count(key) && model[key] == "changed" ? copy == real : !(copy == real), where + ": equality");
				break;
			}
			case 7:
			{
				const auto n = src.below(100);
				real.reserve(n);
				ctx.require(real.capacity() >= n, where + ": reserve");
				break;
			}
			default:
				ctx.desc << "clear\n";
				real.clear();
				model.clear();
				break;
		}
		biggest = std::max(biggest, model.size());
		sameMap(ctx, real, model, view, where);
	}
	if (sawErase)
		ctx.label("erase of a present key");
	if (sawDuplicate)
		ctx.label("insert of a present key");
	if (sawInit)
		ctx.label("initial content");
	if (biggest >= 5)
		ctx.label("5 or more entries");
	ctx.nontrivial = biggest >= 3;
}

template <typename RealSet, typename ModelSet, typename Key, typename View>
void drive22Set(Src& src, Ctx& ctx, const std::vector<Key>& keys, View&& view)
{
	RealSet real;
	ModelSet model;
	size_t biggest = 0;
	if (src.coin(1, 3))
	{
		const auto a = src.below(keys.size()), b = (a + 1 + src.below(keys.size() - 1)) % keys.size();
		real = RealSet { view(keys[a]), view(keys[b]) };
		model = { keys[a], keys[b] };
		ctx.desc << "initial " << keys[a] << " " << keys[b] << "\n";
	}
	const size_t steps = src.size(1, 60);
	for (size_t step = 0; step < steps; ++step)
	{
		const auto& key = src.pick(keys);
		const auto where = cat("set step ", step);
		switch (src.weighted({ 10, 5, 4, 2, 1, 1 }))
		{
			case 0:
			{
				ctx.desc << "emplace " << key << "\n";
				const auto [itr, inserted] = real.emplace(view(key));
				const auto [mitr, minserted] = model.emplace(key);
				ctx.require(inserted == minserted && *itr == *mitr, where + ": emplace");
				ctx.require(itr - real.begin() == std::distance(model.begin(), mitr), where + ": emplace offset");
				break;
			}
			case 1:
			{
				ctx.desc << "find " << key << "\n";
				const auto k = view(key);
				const auto itr = real.find(k);
				const auto mitr = model.find(key);
				ctx.require((itr == real.end()) == (mitr == model.end()), where + ": find");
				if (itr != real.end())
					ctx.require(*itr == *mitr, where + ": found another key");
				ctx.require(real.find(key) == itr, where + ": find overloads differ");
				break;
			}
			case 2:
			{
				ctx.desc << "erase " << key << "\n";
				const auto mitr = model.find(key);
				const auto k = view(key);
				const auto next = src.coin() ? real.erase(k) : real.erase(view(key));
				if (mitr == model.end())
					ctx.require(next == real.end(), where + ": erase of an absent key");
				else
				{
					const auto mnext = model.erase(mitr);
					ctx.require(next - real.begin() == std::distance(model.begin(), mnext), where + ": erase result");
				}
				break;
			}
			case 3:
				if (!model.empty())
				{
					const auto at = src.below(model.size());
					ctx.desc << "erase at " << at << "\n";
					const auto next = real.erase(real.begin() + at);
					auto m = model.begin();
					std::advance(m, at);
					const auto mnext = model.erase(m);
					ctx.require(next - real.begin() == std::distance(model.begin(), mnext), where + ": erase position result");
				}
				break;
			case 4:
			{
				RealSet copy = real;
				ctx.require(copy == real, where + ": copy differs");
				break;
			}
			default:
				ctx.desc << "clear\n";
				real.clear();
				model.clear();
				break;
		}
		biggest = std::max(biggest, model.size());
		ctx.require(real.size() == model.size() && real.empty() == model.empty(), where + ": size");
		auto m = model.begin();
		for (auto itr = real.begin(); itr != real.end(); ++itr, ++m)
			ctx.require(*itr == *m, where + ": iteration order");
		auto rm = model.rbegin();
		for (auto itr = real.rbegin(); itr != real.rend(); ++itr, ++rm)
			ctx.require(*itr == *rm, where + ": reverse iteration");
	}
	if (biggest >= 5)
		ctx.label("5 or more entries");
	ctx.nontrivial = biggest >= 3;
}

void run22(Src& src, Ctx& ctx)
{
	static const std::vector<std::string> names { "a", "b", "c", "", "aa", "ab", "ba", "abc", "abd", "B", "Z", "zzz", "A", "aaa", "_", "query", "mutation", "subscription", "\xC3\xA9", "1" };
	static const std::vector<size_t> numbers { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 1000, ~size_t(0) };
	auto asView = [](const std::string& s) {
		return std::string_view(s);
	};
	auto same = [](const auto& k) {
		return k;
	};
	switch (src.below(6))
	{
		case 0:
			ctx.desc << "map of views, shorter first\n";
			ctx.label("map of views, shorter first");
			drive22Map<internal::string_view_map<std::string>, std::map<std::string, std::string, LengthFirst>>(src, ctx, names, asView);
			break;
		case 1:
			ctx.desc << "map of numbers\n";
			ctx.label("map of numbers");
			drive22Map<internal::sorted_map<size_t, std::string>, std::map<size_t, std::string>>(src, ctx, numbers, same);
			break;
		case 2:
			ctx.desc << "map of strings\n";
			ctx.label("map of strings");
			drive22Map<internal::sorted_map<std::string, std::string>, std::map<std::string, std::string>>(src, ctx, names, same);
			break;
		case 3:
			ctx.desc << "set of views, shorter first\n";
			ctx.label("set of views, shorter first");
			drive22Set<internal::string_view_set, std::set<std::string, LengthFirst>>(src, ctx, names, asView);
			break;
		case 4:
			ctx.desc << "set of numbers\n";
			ctx.label("set of numbers");
			drive22Set<internal::sorted_set<size_t>, std::set<size_t>>(src, ctx, numbers, same);
			break;
		default:
			ctx.desc << "set of strings\n";
			ctx.label("set of strings");
			drive22Set<internal::sorted_set<std::string>, std::set<std::string>>(src, ctx, names, same);
			break;
	}
}

struct Register
{
	Register()
	{
		{
			Property p;
			p.id = "C14";
			p.run = run14;
			p.quickCases = 16000;
			p.thoroughCases = 200000;
			p.rule = "random operation sequences (1..70 steps) over 3..5 value slots against a model; after every step every slot is compared in kind, content, order and lookups. Non-trivial: 5 or more steps and a map with 4+ members or a copy/move of a compound value.";
			p.assumptions = { "the content of a moved-from or string-released value is unspecified and not compared" };
			p.directed.push_back({ "copy-null-scalar", [](Ctx& ctx) {
									  response::Value v(response::Type::Scalar);
									  response::Value c(v);
									  ctx.require(c.type() == response::Type::Scalar && c == v, "copy of an unset scalar");
								  } });
			add(std::move(p));
		}
		{
			Property p;
			p.id = "C15";
			p.run = run15;
			p.quickCases = 200000;
			p.thoroughCases = 4000000;
			p.rule = "random values (nesting up to 8, all kinds, all Unicode incl. NUL and controls, NaN/Inf) serialised and read by an independent JSON reader and parsed back; random JSON texts with random spellings parsed, compared with the independent reader and re-serialised; integers outside 32 bits must raise. Non-trivial: contains a list or map, or an out-of-range integer.";
			p.assumptions = { "strings are valid UTF-8", "member names within one JSON object are distinct" };
			p.directed.push_back({ "nul-and-nan", [](Ctx& ctx) {
									  auto m = JV::makeMap();
									  m.map.emplace_back(std::string("a\0b", 3), JV::string(std::string("x\0y", 3)));
									  m.map.emplace_back("nan", JV::real(std::nan("")));
									  m.map.emplace_back("f", JV::real(123456789012345.67));
									  value15(ctx, m);
									  text15(ctx, "{\"k\\u0000l\": \"p\\u0000q\", \"d\": 0.5, \"e\": 9007199254740993e-3}");
								  } });
			p.known.push_back({ "float-rounding", "parseJSON(\"736.8917283426e-30\") is not the nearest double (off by a unit in the last place)", [] {
								   return response::parseJSON("736.8917283426e-30").get<response::FloatType>() != 736.8917283426e-30;
							   } });
			add(std::move(p));
		}
		{
			Property p;
			p.id = "C16";
			p.run = run16;
			p.quickCases = 300000;
			p.thoroughCases = 6000000;
			p.rule = "random byte sequences (0..400 bytes) through codec, values and JSON; random and edited encodings classified by an independent decoder; plus the full character tables, all 1 and 2 byte inputs and all strings up to 5 characters over a 6 character alphabet. Non-trivial: at least one byte, or a text of 2 or more characters.";
			p.assumptions = { "missing padding is accepted and superfluous padding may be either accepted or rejected" };
			p.directed.push_back({ "tables", tables16 });
			add(std::move(p));
		}
		{
			Property p;
			p.id = "C22";
			p.run = run22;
			p.quickCases = 120000;
			p.thoroughCases = 2000000;
			p.rule = "random operation sequences (1..60 steps) on the map and set containers with number, string and shorter-first string_view keys against std::map/std::set; membership, values, forward and reverse order, returned positions and sizes compared after every step. Non-trivial: 3 or more entries at once.";
			p.assumptions = { "initial content has distinct keys" };
			add(std::move(p));
		}
	}
} registration;

} // namespace
