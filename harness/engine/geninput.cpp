#include "gen.h"
#include "sdl.h"

namespace h {

GenInput genInput(uint64_t seed)
{
	Src src(mix(seed));
	return genInput(src, SdlOptions {}, cat("gen", seed));
}

GenInput genInput(Src& src, const SdlOptions& layout, const std::string& ns)
{
	GenInput g;
	SchemaOptions so;
	so.descriptions = true;
	so.introspection = false;
	so.acyclicInputs = true;
	so.richDefaults = true;
	so.manyInputs = src.coin();
	so.maxObjects = 3;
	g.model = genSchema(src, so);
	for (auto& t : g.model.types)
	{
		for (auto& f : t.fields)
			if (f.deprecated && src.coin(1, 3))
				f.deprecated = "No longer supported";
		for (auto& v : t.values)
			if (v.deprecated && src.coin(1, 3))
				v.deprecated = "No longer supported";
	}
	// A field means the same wherever an interface brings it in.
	for (auto& t : g.model.types)
		if (t.kind == Kind::Interface)
			for (auto& o : g.model.types)
				if (g.model.is(o.name, t.name) && o.kind == Kind::Object)
					for (auto& f : o.fields)
						if (const auto* from = t.field(f.name))
							f.deprecated = from->deprecated;
	renameSchema(src, g.model);
	g.sdl = sdlVariant(src, g.model, layout);
	g.ns = ns;
	if (src.coin(1, 4))
		g.ns += src.coin() ? "::inner" : "::a::b";
	if (src.coin())
		g.flags.push_back("--separate-files");
	if (src.coin())
		g.flags.push_back("--no-stubs");
	if (src.coin(1, 5))
	{
		g.flags.push_back("--no-introspection");
		g.model.noIntrospection = true;
	}
	return g;
}

} // namespace h
