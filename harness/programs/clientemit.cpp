// clientemit DIR SEED...: writes what the client generator reads and what runs its output, per seed.
#include "genclient.h"

#include <fstream>

using namespace h;

int main(int argc, char** argv)
{
	const std::string dir = argv[1];
	for (int i = 2; i < argc; ++i)
	{
		const auto seed = std::stoull(argv[i]);
		const auto c = genClient(seed);
		const auto base = dir + "/" + argv[i];
		std::ofstream(base + ".graphql", std::ios::binary) << c.schema.sdl;
		std::ofstream(base + ".request", std::ios::binary) << c.doc.text;
		std::ofstream flags(base + ".flags");
		flags << c.schema.ns << "\n";
		for (const auto& f : c.flags)
			flags << f << "\n";
		std::ofstream(base + ".impl.cpp", std::ios::binary) << emitClient(c, cat("C", seed, "Client.h"), seed);
	}
	return 0;
}
