#include "introspection.h"

namespace h {

Sel field(const std::string& name, std::vector<Sel> sub)
{
	Sel s;
	s.name = name;
	s.sub = std::move(sub);
	return s;
}

Sel spread(const std::string& name)
{
	Sel s;
	s.kind = Sel::Spread;
	s.name = name;
	return s;
}

Doc fullQuery(Src& src, const MSchema& m, bool everyType)
{
	Doc doc;
	Op op;
	op.name = src.coin() ? "Introspect" : "";
	const auto deprecated = [&](Sel s) {
		switch (src.below(5))
		{
			case 0:
				break;
			case 1:
				s.args.emplace_back("includeDeprecated", Val::boolean(false));
				break;
			case 2:
			{
				s.args.emplace_back("includeDeprecated", Val::var("d"));
				if (op.vars.empty())
				{
					VarDef v;
					v.name = "d";
					v.type = TypeRef { {}, false, "Boolean" };
					if (src.coin())
						v.def = Val::boolean(src.coin());
					op.vars.push_back(v);
				}
				break;
			}
			default:
				s.args.emplace_back("includeDeprecated", Val::boolean(true));
				break;
		}
		return s;
	};
	const auto shuffle = [&src](std::vector<Sel> sels) {
		for (size_t i = sels.size(); i > 1; --i)
			if (src.coin(1, 3))
				std::swap(sels[i - 1], sels[src.below(i)]);
		return sels;
	};
	Frag ref;
	ref.name = "Ref";
	ref.cond = "__Type";
	ref.sels = { field("kind"), field("name") };
	for (int i = 0; i < 6; ++i)
	{
		std::vector<Sel> next { field("kind"), field("name") };
		if (i)
			next = ref.sels;
		std::vector<Sel> level { field("kind"), field("name"), field("ofType", next) };
		ref.sels = level;
	}
	Frag input;
	input.name = "Input";
	input.cond = "__InputValue";
	input.sels = shuffle({ field("name"), field("description"), field("type", { spread("Ref") }), field("defaultValue"), field("__typename") });
	Frag full;
	full.name = "Full";
	full.cond = "__Type";
	full.sels = shuffle({ field("kind"),
		field("name"),
		field("description"),
		deprecated(field("fields",
			shuffle({ field("name"), field("description"), field("args", { spread("Input") }), field("type", { spread("Ref") }), field("isDeprecated"), field("deprecationReason") }))),
		field("inputFields", { spread("Input") }),
		field("interfaces", { spread("Ref") }),
		deprecated(field("enumValues", shuffle({ field("name"), field("description"), field("isDeprecated"), field("deprecationReason") }))),
		field("possibleTypes", { spread("Ref") }),
		field("ofType", { spread("Ref") }),
		field("__typename") });
	doc.frags = { ref, input, full };
	if (everyType)
	{
		std::vector<std::string> names;
		for (const auto& t : m.types)
			names.push_back(t.name);
		for (const auto& unknown : { "Unknown", "query", "__Unknown", "", "int", "String!", "[Int]" })
			if (!m.type(unknown) && src.coin(1, 3))
				names.push_back(unknown);
		size_t i = 0;
		for (const auto& n : names)
		{
			Sel s = field("__type", { spread("Full") });
			s.alias = cat("t", i++);
			s.args.emplace_back("name", Val::string(n));
			op.sels.push_back(s);
		}
	}
	else
	{
		op.sels = { field("__schema",
			shuffle({ field("types", { spread("Full") }),
				field("queryType", { spread("Full") }),
				field("mutationType", { field("name"), field("kind") }),
				field("subscriptionType", { field("name"), field("kind") }),
				field("directives",
					shuffle({ field("name"), field("description"), field("locations"), field("args", { spread("Input") }) })) })) };
	}
	doc.ops = { op };
	doc.order = { 0, 1, 2, 3 };
	return doc;
}

} // namespace h
