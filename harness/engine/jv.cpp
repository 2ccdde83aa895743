#include "jv.h"

namespace h {

using namespace graphql;

thread_local uint64_t g_ulps = 0;

std::string utf8(uint32_t cp)
{
	std::string out;
	if (cp < 0x80)
		out += char(cp);
	else if (cp < 0x800)
	{
		out += char(0xC0 | (cp >> 6));
		out += char(0x80 | (cp & 0x3F));
	}
	else if (cp < 0x10000)
	{
		out += char(0xE0 | (cp >> 12));
		out += char(0x80 | ((cp >> 6) & 0x3F));
		out += char(0x80 | (cp & 0x3F));
	}
	else
	{
		out += char(0xF0 | (cp >> 18));
		out += char(0x80 | ((cp >> 12) & 0x3F));
		out += char(0x80 | ((cp >> 6) & 0x3F));
		out += char(0x80 | (cp & 0x3F));
	}
	return out;
}

bool validUtf8(std::string_view text)
{
	for (size_t i = 0; i < text.size();)
	{
		const unsigned char c = text[i];
		size_t n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : 9;
		if (n == 9 || i + n >= text.size() + (n == 0))
			return false;
		uint32_t cp = n == 0 ? c : n == 1 ? c & 0x1F : n == 2 ? c & 0x0F : c & 0x07;
		for (size_t k = 1; k <= n; ++k)
		{
			if ((static_cast<unsigned char>(text[i + k]) & 0xC0) != 0x80)
				return false;
			cp = (cp << 6) | (text[i + k] & 0x3F);
		}
		if ((n == 1 && cp < 0x80) || (n == 2 && cp < 0x800) || (n == 3 && cp < 0x10000)
			|| cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF))
			return false;
		i += n + 1;
	}
	return true;
}

std::string formatDouble(double d)
{
	char buf[64];
	std::snprintf(buf, sizeof(buf), "%.17g", d);
	std::string s = buf;
	if (s.find_first_of(".eEni") == std::string::npos)
		s += ".0";
	return s;
}

std::string show(const JV& v)
{
	switch (v.kind)
	{
		case JV::Null:
			return "null";
		case JV::Bool:
			return v.b ? "true" : "false";
		case JV::Int:
			return std::to_string(v.i);
		case JV::Float:
			return formatDouble(v.f);
		case JV::String:
			return "\"" + escape(v.s) + "\"";
		case JV::Enum:
			return v.s.empty() ? "<empty enum>" : escape(v.s);
		case JV::Scalar:
			return v.list.empty() ? "<scalar>" : "<scalar " + show(v.list[0]) + ">";
		case JV::List:
		{
			std::string s = "[";
			for (size_t i = 0; i < v.list.size(); ++i)
				s += (i ? ", " : "") + show(v.list[i]);
			return s + "]";
		}
		case JV::Map:
		{
			std::string s = "{";
			for (size_t i = 0; i < v.map.size(); ++i)
				s += (i ? ", \"" : "\"") + escape(v.map[i].first) + "\": " + show(v.map[i].second);
			return s + "}";
		}
	}
	return "?";
}

static void writeJsonString(std::string& out, const std::string& s)
{
	out += '"';
	for (unsigned char c : s)
	{
		char buf[8];
		if (c == '"' || c == '\\')
		{
			out += '\\';
			out += char(c);
		}
		else if (c < 0x20)
		{
			std::snprintf(buf, sizeof(buf), "\\u%04X", c);
			out += buf;
		}
		else
			out += char(c);
	}
	out += '"';
}

static void writeJsonTo(std::string& out, const JV& v)
{
	switch (v.kind)
	{
		case JV::Null:
			out += "null";
			break;
		case JV::Bool:
			out += v.b ? "true" : "false";
			break;
		case JV::Int:
			out += std::to_string(v.i);
			break;
		case JV::Float:
			out += std::isfinite(v.f) ? formatDouble(v.f) : "null";
			break;
		case JV::String:
		case JV::Enum:
			writeJsonString(out, v.s);
			break;
		case JV::Scalar:
			if (v.list.empty())
				out += "null";
			else
				writeJsonTo(out, v.list[0]);
			break;
		case JV::List:
			out += '[';
			for (size_t i = 0; i < v.list.size(); ++i)
			{
				if (i)
					out += ',';
				writeJsonTo(out, v.list[i]);
			}
			out += ']';
			break;
		case JV::Map:
			out += '{';
			for (size_t i = 0; i < v.map.size(); ++i)
			{
				if (i)
					out += ',';
				writeJsonString(out, v.map[i].first);
				out += ':';
				writeJsonTo(out, v.map[i].second);
			}
			out += '}';
			break;
	}
}

std::string writeJson(const JV& v)
{
	std::string out;
	writeJsonTo(out, v);
	return out;
}

namespace {

struct Reader
{
	std::string_view t;
	size_t p = 0;
	std::string error;

	void ws()
	{
		while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
			++p;
	}
	bool err(const char* what)
	{
		error = cat(what, " at offset ", p);
		return false;
	}
	bool lit(std::string_view w)
	{
		if (t.substr(p, w.size()) == w)
		{
			p += w.size();
			return true;
		}
		return err("bad literal");
	}
	bool hex4(uint32_t& out)
	{
		out = 0;
		if (p + 4 > t.size())
			return err("short \\u");
		for (int k = 0; k < 4; ++k)
		{
			char c = t[p++];
			out <<= 4;
			if (c >= '0' && c <= '9')
				out += c - '0';
			else if (c >= 'a' && c <= 'f')
				out += c - 'a' + 10;
			else if (c >= 'A' && c <= 'F')
				out += c - 'A' + 10;
			else
				return err("bad \\u digit");
		}
		return true;
	}
	bool str(std::string& out)
	{
		if (p >= t.size() || t[p] != '"')
			return err("expected string");
		++p;
		while (true)
		{
			if (p >= t.size())
				return err("unterminated string");
			unsigned char c = t[p++];
			if (c == '"')
				return true;
			if (c < 0x20)
				return err("control character in string");
			if (c != '\\')
			{
				out += char(c);
				continue;
			}
			if (p >= t.size())
				return err("unterminated escape");
			c = t[p++];
			switch (c)
			{
				case '"':
				case '\\':
				case '/':
					out += char(c);
					break;
				case 'b':
					out += '\b';
					break;
				case 'f':
					out += '\f';
					break;
				case 'n':
					out += '\n';
					break;
				case 'r':
					out += '\r';
					break;
				case 't':
					out += '\t';
					break;
				case 'u':
				{
					uint32_t u = 0;
					if (!hex4(u))
						return false;
					if (u >= 0xD800 && u < 0xDC00)
					{
						uint32_t lo = 0;
						if (p + 2 > t.size() || t[p] != '\\' || t[p + 1] != 'u')
							return err("lone surrogate");
						p += 2;
						if (!hex4(lo))
							return false;
						if (lo < 0xDC00 || lo > 0xDFFF)
							return err("bad low surrogate");
						u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
					}
					else if (u >= 0xDC00 && u <= 0xDFFF)
						return err("lone surrogate");
					out += utf8(u);
					break;
				}
				default:
					return err("bad escape");
			}
		}
	}
	bool num(JV& out)
	{
		const size_t start = p;
		bool real = false;
		auto digit = [&] {
			return p < t.size() && t[p] >= '0' && t[p] <= '9';
		};
		if (p < t.size() && t[p] == '-')
			++p;
		if (!digit())
			return err("bad number");
		if (t[p] == '0')
			++p;
		else
			while (digit())
				++p;
		if (p < t.size() && t[p] == '.')
		{
			real = true;
			++p;
			if (!digit())
				return err("bad fraction");
			while (digit())
				++p;
		}
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
		{
			real = true;
			++p;
			if (p < t.size() && (t[p] == '+' || t[p] == '-'))
				++p;
			if (!digit())
				return err("bad exponent");
			while (digit())
				++p;
		}
		const std::string text(t.substr(start, p - start));
		out = real ? JV::real(std::strtod(text.c_str(), nullptr))
				   : JV::integer(std::strtoll(text.c_str(), nullptr, 10));
		return true;
	}
	bool value(JV& out, int depth)
	{
		if (depth > 2000)
			return err("too deep");
		ws();
		if (p >= t.size())
			return err("expected value");
		switch (t[p])
		{
			case '{':
			{
				out = JV::makeMap();
				++p;
				ws();
				if (p < t.size() && t[p] == '}')
				{
					++p;
					return true;
				}
				while (true)
				{
					ws();
					std::string name;
					if (!str(name))
						return false;
					ws();
					if (p >= t.size() || t[p] != ':')
						return err("expected :");
					++p;
					JV v;
					if (!value(v, depth + 1))
						return false;
					if (out.find(name))
						return err("duplicate member");
					out.map.emplace_back(name, v);
					ws();
					if (p < t.size() && t[p] == ',')
					{
						++p;
						continue;
					}
					if (p < t.size() && t[p] == '}')
					{
						++p;
						return true;
					}
					return err("expected , or }");
				}
			}
			case '[':
			{
				out = JV::makeList();
				++p;
				ws();
				if (p < t.size() && t[p] == ']')
				{
					++p;
					return true;
				}
				while (true)
				{
					JV v;
					if (!value(v, depth + 1))
						return false;
					out.list.push_back(v);
					ws();
					if (p < t.size() && t[p] == ',')
					{
						++p;
						continue;
					}
					if (p < t.size() && t[p] == ']')
					{
						++p;
						return true;
					}
					return err("expected , or ]");
				}
			}
			case '"':
				out = JV::string("");
				return str(out.s);
			case 't':
				out = JV::boolean(true);
				return lit("true");
			case 'f':
				out = JV::boolean(false);
				return lit("false");
			case 'n':
				out = JV::null();
				return lit("null");
			default:
				return num(out);
		}
	}
};

} // namespace

bool readJson(std::string_view text, JV& out, std::string& error)
{
	Reader r { text };
	if (!r.value(out, 0))
	{
		error = r.error;
		return false;
	}
	r.ws();
	if (r.p != text.size())
	{
		error = cat("trailing text at offset ", r.p);
		return false;
	}
	return true;
}

JV fromValue(const response::Value& value)
{
	switch (value.type())
	{
		case response::Type::Map:
		{
			JV r = JV::makeMap();
			for (const auto& entry : value)
				r.map.emplace_back(entry.first, fromValue(entry.second));
			return r;
		}
		case response::Type::List:
		{
			JV r = JV::makeList();
			for (size_t i = 0; i < value.size(); ++i)
				r.list.push_back(fromValue(value[i]));
			return r;
		}
		case response::Type::String:
		{
			auto r = JV::string(value.get<response::StringType>());
			r.fromJson = value.maybe_enum();
			return r;
		}
		case response::Type::Null:
			return JV::null();
		case response::Type::Boolean:
			return JV::boolean(value.get<response::BooleanType>());
		case response::Type::Int:
			return JV::integer(value.get<response::IntType>());
		case response::Type::Float:
			return JV::real(value.get<response::FloatType>());
		case response::Type::EnumValue:
			return JV::enumeration(value.get<response::StringType>());
		case response::Type::Scalar:
		{
			JV r;
			r.kind = JV::Scalar;
			try
			{
				r.list.push_back(fromValue(value.get<response::ScalarType>()));
			}
			catch (const std::logic_error&)
			{
			}
			return r;
		}
	}
	return {};
}

response::Value toValue(const JV& v)
{
	switch (v.kind)
	{
		case JV::Null:
			return response::Value();
		case JV::Bool:
			return response::Value(v.b);
		case JV::Int:
			return response::Value(static_cast<response::IntType>(v.i));
		case JV::Float:
			return response::Value(v.f);
		case JV::String:
		{
			response::Value r(std::string(v.s));
			if (v.fromJson)
				return response::Value(r.from_json());
			return r;
		}
		case JV::Enum:
		{
			response::Value r(response::Type::EnumValue);
			r.set<response::StringType>(std::string(v.s));
			return r;
		}
		case JV::List:
		{
			response::Value r(response::Type::List);
			for (const auto& e : v.list)
				r.emplace_back(toValue(e));
			return r;
		}
		case JV::Map:
		{
			response::Value r(response::Type::Map);
			for (const auto& e : v.map)
				r.emplace_back(std::string(e.first), toValue(e.second));
			return r;
		}
		case JV::Scalar:
		{
			response::Value r(response::Type::Scalar);
			if (!v.list.empty())
				r.set<response::ScalarType>(toValue(v.list[0]));
			return r;
		}
	}
	return response::Value();
}

} // namespace h
