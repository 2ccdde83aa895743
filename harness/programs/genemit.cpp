// genemit DIR SEED...: writes what the generator reads and what implements its output, per seed.
#include "emit.h"

#include <fstream>
#include <iostream>

using namespace h;

int main(int argc, char** argv)
{
	const std::string dir = argv[1];
	for (int i = 2; i < argc; ++i)
	{
		const auto seed = std::stoull(argv[i]);
		const auto g = genInput(seed);
		const auto base = dir + "/" + argv[i];
		std::ofstream(base + ".graphql", std::ios::binary) << g.sdl;
		std::ofstream flags(base + ".flags");
		flags << g.ns << "\n";
		for (const auto& f : g.flags)
			flags << f << "\n";
		std::ofstream(base + ".impl.cpp", std::ios::binary) << emitService(g, cat("S", seed), cat("s", seed), seed);
	}
	return 0;
}
