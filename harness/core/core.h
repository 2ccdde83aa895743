// Property-based testing core: recorded choice sequences, forked workers, shrinking, evidence.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>

namespace h {

// Thrown by an oracle when the property does not hold for this case.
struct Failure
{
	std::string message;
};

uint64_t hashBytes(std::string_view bytes, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t mix(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}

// Source of every random decision of a case. In search mode the draws come from a seeded
// generator and are recorded; in replay mode they come from a recorded sequence (0 past its end).
class Src
{
public:
	explicit Src(uint64_t seed)
		: _state(seed)
	{
	}

	explicit Src(std::vector<uint64_t> replay)
		: _replay(std::move(replay))
		, _replaying(true)
	{
	}

	// Uniform in [0, n). Smaller is simpler.
	uint64_t below(uint64_t n);

	// Uniform in [lo, hi], lo is simplest.
	int64_t range(int64_t lo, int64_t hi)
	{
		return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
	}

	// True with probability num/den, false is simplest.
	bool coin(unsigned num = 1, unsigned den = 2)
	{
		return below(den) >= den - num;
	}

	// Index with the given weights, index 0 is simplest.
	size_t weighted(std::initializer_list<unsigned> weights);
	size_t weighted(const std::vector<unsigned>& weights);

	// Small size in [lo, hi], biased towards the low end.
	size_t size(size_t lo, size_t hi);

	template <typename T>
	const T& pick(const std::vector<T>& from)
	{
		return from.at(below(from.size()));
	}

	uint64_t bits()
	{
		return (below(1ull << 32) << 32) | below(1ull << 32);
	}

	const std::vector<uint64_t>& record() const
	{
		return _record;
	}

private:
	uint64_t _state = 0;
	std::vector<uint64_t> _replay;
	bool _replaying = false;
	size_t _pos = 0;
	std::vector<uint64_t> _record;
};

// What a case reports about itself.
struct Ctx
{
	std::ostringstream desc; // human readable description of the case
	bool nontrivial = false;
	bool discarded = false;
	uint64_t key = 0; // identity for counting distinct cases (hash of desc when 0)
	std::map<std::string, uint64_t> labels;
	bool verbose = false;
	bool thorough = false;

	void label(const std::string& name, uint64_t n = 1)
	{
		labels[name] += n;
	}

	[[noreturn]] void fail(const std::string& message) const
	{
		throw Failure { message };
	}

	void require(bool ok, const std::string& message) const
	{
		if (!ok)
		{
			fail(message);
		}
	}
};

struct Directed
{
	std::string name;
	std::function<void(Ctx&)> run;
};

// A genuine defect which is recorded instead of repaired: still reports whether it is still there.
struct Known
{
	std::string name;
	std::string what;
	std::function<bool()> stillFails;
};

struct Property
{
	std::string id;
	std::string rule;
	std::function<void(Src&, Ctx&)> run;
	uint64_t quickCases = 1000;
	uint64_t thoroughCases = 20000;
	std::vector<Directed> directed;
	std::vector<Known> known;
	std::vector<std::string> assumptions;
	bool threaded = false;	   // failures may depend on scheduling
	unsigned workers = 8;	   // forked processes
	unsigned hangSeconds = 90; // no case takes this long on any plausible machine
};

void add(Property&& property);
int mainImpl(int argc, char** argv);

std::string escape(std::string_view text); // C-like escaping for messages
std::string jsonString(std::string_view text);

template <typename... Args>
std::string cat(const Args&... args)
{
	std::ostringstream out;
	(out << ... << args);
	return out.str();
}

} // namespace h
