#include "core.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace h {

using namespace std::literals;
using Clock = std::chrono::steady_clock;

uint64_t hashBytes(std::string_view bytes, uint64_t seed)
{
	uint64_t x = seed ^ 0xcbf29ce484222325ull;
	for (unsigned char c : bytes)
	{
		x = (x ^ c) * 0x100000001b3ull;
	}
	return mix(x ^ bytes.size());
}

uint64_t Src::below(uint64_t n)
{
	uint64_t value = 0;
	if (n > 1)
	{
		if (_replaying)
		{
			value = (_pos < _replay.size() ? _replay[_pos] : 0) % n;
			++_pos;
		}
		else
		{
			_state += 0x9E3779B97F4A7C15ull;
			value = mix(_state) % n;
		}
		_record.push_back(value);
	}
	return value;
}

size_t Src::weighted(std::initializer_list<unsigned> weights)
{
	return weighted(std::vector<unsigned>(weights));
}

size_t Src::weighted(const std::vector<unsigned>& weights)
{
	uint64_t total = 0;
	for (auto w : weights)
	{
		total += w;
	}
	auto v = below(total);
	for (size_t i = 0; i < weights.size(); ++i)
	{
		if (v < weights[i])
		{
			return i;
		}
		v -= weights[i];
	}
	return 0;
}

size_t Src::size(size_t lo, size_t hi)
{
	if (hi <= lo)
	{
		return lo;
	}
	const auto span = hi - lo + 1;
	// min of two draws biases to the low end but keeps the high end reachable
	const auto a = below(span);
	const auto b = coin(1, 3) ? below(span) : a;
	return lo + static_cast<size_t>(std::min(a, b));
}

std::string escape(std::string_view text)
{
	std::ostringstream out;
	for (unsigned char c : text)
	{
		if (c == '\n')
			out << "\\n";
		else if (c == '\t')
			out << "\\t";
		else if (c == '\r')
			out << "\\r";
		else if (c == '\\')
			out << "\\\\";
		else if (c == '"')
			out << "\\\"";
		else if (c < 0x20 || c >= 0x7f)
		{
			char buf[8];
			std::snprintf(buf, sizeof(buf), "\\x%02x", c);
			out << buf;
		}
		else
			out << c;
	}
	return out.str();
}

std::string jsonString(std::string_view text)
{
	// Text is reported readably; bytes outside ASCII are escaped in C style.
	std::string out = "\"";
	for (unsigned char c : text)
	{
		char buf[12];
		if (c == '"')
			out += "\\\"";
		else if (c == '\\')
			out += "\\\\";
		else if (c == '\n')
			out += "\\n";
		else if (c == '\t')
			out += "\\t";
		else if (c < 0x20)
		{
			std::snprintf(buf, sizeof(buf), "\\u%04x", c);
			out += buf;
		}
		else if (c >= 0x7f)
		{
			std::snprintf(buf, sizeof(buf), "\\\\x%02x", c);
			out += buf;
		}
		else
			out += static_cast<char>(c);
	}
	return out + "\"";
}

namespace {

std::vector<Property>& registry()
{
	static std::vector<Property> properties;
	return properties;
}

constexpr size_t c_messageSize = 16384;

// Shared with a worker process.
struct Slot
{
	std::atomic<uint64_t> current; // case index + 1, 0 when idle/finished
	std::atomic<int64_t> startedMs;
	std::atomic<uint64_t> evaluated;
	std::atomic<uint64_t> discarded;
	std::atomic<int> done; // 1 finished normally, 2 failure recorded
	uint64_t failedCase;
	char message[c_messageSize];
};

struct Outcome
{
	enum Kind
	{
		Pass,
		Fail,
		Crash,
		Hang,
		Killed // by the environment
	} kind
		= Pass;
	std::string message;
	std::string description;
	std::vector<uint64_t> record;
};

int64_t nowMs()
{
	return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now().time_since_epoch())
		.count();
}

template <typename T>
T* shared(size_t count = 1)
{
	void* memory = ::mmap(nullptr,
		sizeof(T) * count,
		PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS,
		-1,
		0);
	if (memory == MAP_FAILED)
	{
		std::perror("mmap");
		std::exit(2);
	}
	return static_cast<T*>(memory);
}

struct Options
{
	std::string prop;
	bool thorough = false;
	uint64_t seed = 1;
	uint64_t cases = 0;
	unsigned jobs = 0;
	std::string evidence;
	std::string replayDir = ".";
	std::string replayFile;
	std::string knownFile;
	std::string scratch;
	uint64_t budgetSeconds = 420;
	std::optional<uint64_t> only;
};

Options g_options;

uint64_t caseSeed(const std::string& id, uint64_t index)
{
	return mix(hashBytes(id, mix(g_options.seed)) ^ mix(index * 2654435761u + 17));
}

// One case in this process. Returns false with a message when the property fails.
bool runOne(const Property& property, Src& src, Ctx& ctx, std::string& message)
{
	ctx.thorough = g_options.thorough;
	try
	{
		property.run(src, ctx);
	}
	catch (const Failure& f)
	{
		message = f.message;
		return false;
	}
	catch (const std::exception& ex)
	{
		message = cat("unexpected exception escaped: ", ex.what());
		return false;
	}
	return true;
}

bool runDirected(const Directed& directed, Ctx& ctx, std::string& message)
{
	ctx.thorough = g_options.thorough;
	try
	{
		directed.run(ctx);
	}
	catch (const Failure& f)
	{
		message = f.message;
		return false;
	}
	catch (const std::exception& ex)
	{
		message = cat("unexpected exception escaped: ", ex.what());
		return false;
	}
	return true;
}

void silence(const std::string& errPath)
{
	int fd = ::open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd >= 0)
	{
		::dup2(fd, 2);
		::dup2(fd, 1);
		::close(fd);
	}
}

std::string readFile(const std::string& path, size_t limit = 1 << 20)
{
	std::ifstream in(path, std::ios::binary);
	std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	if (text.size() > limit)
	{
		text.resize(limit);
	}
	return text;
}

std::string crashSummary(const std::string& log, int status)
{
	std::string what;
	if (WIFSIGNALED(status))
	{
		what = cat("process died on signal ", WTERMSIG(status));
	}
	else
	{
		what = cat("process exited with status ", WEXITSTATUS(status));
	}
	for (auto needle : { "SUMMARY:"sv, "runtime error:"sv, "terminate called"sv, "what():"sv, "ERROR: "sv, "WARNING: ThreadSanitizer"sv })
	{
		auto pos = log.find(needle);
		if (pos != std::string::npos)
		{
			auto begin = log.rfind('\n', pos);
			begin = begin == std::string::npos ? 0 : begin + 1;
			auto end = log.find('\n', pos);
			what += cat("; ", log.substr(begin, std::min<size_t>(end - begin, 300)));
			if (needle == "ERROR: "sv || needle == "WARNING: ThreadSanitizer"sv)
			{
				// the first frames that belong to the code under test
				size_t count = 0;
				for (size_t p = end; p != std::string::npos && count < 6;)
				{
					auto q = log.find("    #", p);
					if (q == std::string::npos)
						break;
					auto e = log.find('\n', q);
					auto line = log.substr(q, e - q);
					if (line.find("graphql") != std::string::npos)
					{
						what += cat(" |", line.substr(0, 200));
						++count;
					}
					p = e;
				}
			}
		}
	}
	return what;
}

// Run body in a child, with a timeout. The child fills in outcome through a file.
Outcome isolate(const std::function<bool(Ctx&, std::string&, std::vector<uint64_t>&)>& body,
	unsigned hangSeconds)
{
	const std::string base = cat(g_options.scratch, "/iso.", ::getpid());
	const std::string outPath = base + ".out";
	const std::string errPath = base + ".err";
	std::remove(outPath.c_str());
	std::cout.flush();
	const pid_t pid = ::fork();
	if (pid == 0)
	{
		::prctl(PR_SET_PDEATHSIG, SIGKILL);
		silence(errPath);
		Ctx ctx;
		std::string message;
		std::vector<uint64_t> record;
		const bool ok = body(ctx, message, record);
		std::ofstream out(outPath, std::ios::binary);
		out << (ok ? "P" : "F") << "\n" << record.size() << "\n";
		for (auto v : record)
		{
			out << v << "\n";
		}
		const auto d = ctx.desc.str();
		out << message.size() << "\n" << message << "\n" << d.size() << "\n" << d;
		out.close();
		::_exit(0);
	}
	int status = 0;
	const auto start = nowMs();
	Outcome outcome;
	for (int spin = 0;; ++spin)
	{
		const auto r = ::waitpid(pid, &status, WNOHANG);
		if (r == pid)
		{
			break;
		}
		if (nowMs() - start > int64_t(hangSeconds) * 1000)
		{
			::kill(pid, SIGKILL);
			::waitpid(pid, &status, 0);
			outcome.kind = Outcome::Hang;
			outcome.message = cat("no answer within ", hangSeconds, " s");
			return outcome;
		}
		::usleep(spin < 200 ? 200 : 2000);
	}
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
	{
		std::ifstream in(outPath, std::ios::binary);
		std::string kind;
		size_t n = 0;
		std::getline(in, kind);
		in >> n;
		for (size_t i = 0; i < n; ++i)
		{
			uint64_t v = 0;
			in >> v;
			outcome.record.push_back(v);
		}
		size_t len = 0;
		in >> len;
		in.get();
		outcome.message.resize(len);
		in.read(outcome.message.data(), len);
		in >> len;
		in.get();
		outcome.description.resize(len);
		in.read(outcome.description.data(), len);
		outcome.kind = kind == "P" ? Outcome::Pass : Outcome::Fail;
		return outcome;
	}
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
	{
		outcome.kind = Outcome::Killed;
		return outcome;
	}
	outcome.kind = Outcome::Crash;
	outcome.message = crashSummary(readFile(errPath), status);
	return outcome;
}

Outcome isolateChoices(const Property& property, const std::vector<uint64_t>& choices)
{
	return isolate(
		[&](Ctx& ctx, std::string& message, std::vector<uint64_t>& record) {
			Src src(choices);
			const bool ok = runOne(property, src, ctx, message);
			record = src.record();
			return ok;
		},
		property.hangSeconds);
}

bool failed(const Outcome& o)
{
	return o.kind == Outcome::Fail || o.kind == Outcome::Crash || o.kind == Outcome::Hang;
}

// Delta debugging on the choice sequence.
std::vector<uint64_t> shrink(const Property& property, std::vector<uint64_t> best, Outcome& last)
{
	const auto deadline = nowMs() + 45000;
	const auto kind = last.kind;
	uint64_t attempts = 0;
	auto attempt = [&](const std::vector<uint64_t>& candidate) {
		if (nowMs() > deadline || attempts > 4000)
		{
			return false;
		}
		++attempts;
		auto o = isolateChoices(property, candidate);
		if (o.kind != kind)
		{
			return false;
		}
		auto canonical = o.kind == Outcome::Fail ? o.record : candidate;
		if (canonical.size() > candidate.size())
		{
			canonical = candidate;
		}
		best = std::move(canonical);
		last = std::move(o);
		return true;
	};
	if (kind == Outcome::Hang)
	{
		return best; // too expensive to minimise
	}
	bool progress = true;
	while (progress && nowMs() < deadline && attempts <= 4000)
	{
		progress = false;
		// delete chunks
		for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2)
		{
			for (size_t at = 0; at + chunk <= best.size();)
			{
				auto candidate = best;
				candidate.erase(candidate.begin() + at, candidate.begin() + at + chunk);
				if (attempt(candidate))
				{
					progress = true;
				}
				else
				{
					at += chunk;
				}
				if (nowMs() > deadline || attempts > 4000)
					return best;
			}
		}
		// zero chunks
		for (size_t chunk = std::max<size_t>(1, best.size() / 4); chunk >= 1; chunk /= 2)
		{
			for (size_t at = 0; at + chunk <= best.size(); at += chunk)
			{
				auto candidate = best;
				bool changed = false;
				for (size_t i = at; i < at + chunk; ++i)
				{
					changed = changed || candidate[i] != 0;
					candidate[i] = 0;
				}
				if (changed && attempt(candidate))
				{
					progress = true;
				}
				if (nowMs() > deadline || attempts > 4000)
					return best;
			}
		}
		// decrease values
		for (size_t i = 0; i < best.size(); ++i)
		{
			uint64_t lo = 0;
			while (i < best.size() && lo < best[i])
			{
				const auto mid = lo + (best[i] - lo) / 2;
				auto candidate = best;
				candidate[i] = mid;
				if (attempt(candidate))
				{
					progress = true;
				}
				else
				{
					lo = mid + 1;
				}
				if (nowMs() > deadline || attempts > 4000)
					return best;
			}
		}
		// decrement a length and delete what follows it
		for (size_t i = 0; i + 1 < best.size(); ++i)
		{
			if (best[i] == 0)
				continue;
			for (size_t n = 1; n <= 8 && i + 1 + n <= best.size(); ++n)
			{
				auto candidate = best;
				--candidate[i];
				candidate.erase(candidate.begin() + i + 1, candidate.begin() + i + 1 + n);
				if (attempt(candidate))
				{
					progress = true;
					break;
				}
				if (nowMs() > deadline || attempts > 4000)
					return best;
			}
		}
	}
	return best;
}

void report(const Property& property, const std::string& kind, const std::string& directed,
	const std::vector<uint64_t>& choices, const Outcome& outcome, uint64_t index)
{
	::mkdir(g_options.replayDir.c_str(), 0755);
	uint64_t id = hashBytes(directed);
	for (auto c : choices)
	{
		id = mix(id ^ c);
	}
	char name[64];
	std::snprintf(name, sizeof(name), "/%s-%016llx.json", property.id.c_str(), (unsigned long long)id);
	const std::string path = g_options.replayDir + name;
	std::ofstream out(path);
	out << "{\"property\": " << jsonString(property.id) << ",\n \"seed\": " << g_options.seed
		<< ",\n \"case\": " << index << ",\n \"kind\": " << jsonString(kind)
		<< ",\n \"directed\": " << jsonString(directed) << ",\n \"choices\": [";
	for (size_t i = 0; i < choices.size(); ++i)
	{
		out << (i ? "," : "") << choices[i];
	}
	out << "],\n \"message\": " << jsonString(outcome.message)
		<< ",\n \"description\": " << jsonString(outcome.description) << "}\n";
	out.close();
	std::cout << "FAILURE property=" << property.id << " " << outcome.message << "\n";
	if (!outcome.description.empty())
	{
		std::cout << outcome.description.substr(0, 6000) << "\n";
	}
	std::cout << "VIOLATION property=" << property.id << " replay=" << path << std::endl;
}

struct Totals
{
	uint64_t evaluated = 0;
	uint64_t discarded = 0;
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
};

[[noreturn]] void worker(const Property& property, Slot& slot, unsigned index, unsigned workers,
	uint64_t cases, int64_t deadline)
{
	::prctl(PR_SET_PDEATHSIG, SIGKILL);
	const std::string base = cat(g_options.scratch, "/w", index);
	silence(base + ".err");
	std::map<std::string, uint64_t> labels;
	std::vector<uint64_t> keys;
	std::vector<std::string> samples;
	for (uint64_t i = index; i < cases; i += workers)
	{
		if (nowMs() > deadline)
		{
			labels["(stopped by time budget)"] += 1;
			break;
		}
		slot.startedMs = nowMs();
		slot.current = i + 1;
		Src src(caseSeed(property.id, i));
		Ctx ctx;
		std::string message;
		const bool ok = runOne(property, src, ctx, message);
		if (!ok)
		{
			slot.failedCase = i;
			std::strncpy(slot.message, message.c_str(), c_messageSize - 1);
			slot.done = 2;
			::_exit(0);
		}
		slot.current = 0;
		slot.evaluated.fetch_add(1);
		if (ctx.discarded)
		{
			slot.discarded.fetch_add(1);
		}
		for (const auto& [name, n] : ctx.labels)
		{
			labels[name] += n;
		}
		if (ctx.nontrivial)
		{
			const auto text = ctx.desc.str();
			keys.push_back(ctx.key ? ctx.key : hashBytes(text));
			if (samples.size() < 2 && index < 3 && i >= workers * 3)
			{
				samples.push_back(text.substr(0, 1500));
			}
		}
	}
	{
		std::ofstream out(base + ".labels", std::ios::binary);
		for (const auto& [name, n] : labels)
		{
			out << n << " " << name << "\n";
		}
	}
	{
		std::ofstream out(base + ".keys", std::ios::binary);
		out.write(reinterpret_cast<const char*>(keys.data()), keys.size() * sizeof(uint64_t));
	}
	{
		std::ofstream out(base + ".samples", std::ios::binary);
		for (const auto& s : samples)
		{
			out << s.size() << "\n" << s;
		}
	}
	slot.current = 0;
	slot.done = 1;
	// Leave through exit so that leak checking and coverage still see a normal end.
	std::_Exit(0);
}

std::vector<std::string> knownNames(const std::string& id)
{
	// known_findings.txt lines: "known: property=<id> <name> ..." / "fixed: ..."
	std::vector<std::string> names;
	std::ifstream in(g_options.knownFile);
	std::string line;
	const auto prefix = cat("known: property=", id, " ");
	while (std::getline(in, line))
	{
		if (line.compare(0, prefix.size(), prefix) == 0)
		{
			auto rest = line.substr(prefix.size());
			names.push_back(rest.substr(0, rest.find(' ')));
		}
	}
	return names;
}

void writeEvidence(const Property& property, const Totals& totals, double wall, size_t directed,
	int violations)
{
	if (g_options.evidence.empty())
	{
		return;
	}
	std::ofstream out(g_options.evidence);
	out << "{\"property\": " << jsonString(property.id) << ", \"tier\": \""
		<< (g_options.thorough ? "thorough" : "quick") << "\", \"seed\": " << g_options.seed
		<< ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": "
		<< totals.evaluated + directed << ", \"distinct_nontrivial\": " << totals.distinct.size()
		<< ",\n  \"directed_cases\": " << directed << ", \"discarded\": " << totals.discarded
		<< ",\n  \"rule\": " << jsonString(property.rule) << ",\n  \"classes\": {";
	bool first = true;
	for (const auto& [name, n] : totals.labels)
	{
		out << (first ? "" : ", ") << jsonString(name) << ": " << n;
		first = false;
	}
	out << "},\n  \"samples\": [";
	first = true;
	for (const auto& s : totals.samples)
	{
		out << (first ? "" : ",\n   ") << jsonString(s);
		first = false;
	}
	out << "]},\n \"assumptions\": [";
	first = true;
	for (const auto& s : property.assumptions)
	{
		out << (first ? "" : ", ") << jsonString(s);
		first = false;
	}
	out << "],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
}

int runProperty(const Property& property)
{
	const auto start = nowMs();
	Totals totals;
	const unsigned workers = g_options.jobs ? g_options.jobs : property.workers;
	const uint64_t cases = g_options.cases ? g_options.cases
		: g_options.thorough			   ? property.thoroughCases
										   : property.quickCases;

	// Recorded defects: listed ones are announced, unlisted ones are violations.
	const auto listed = knownNames(property.id);
	size_t directedRun = 0;
	for (const auto& known : property.known)
	{
		const bool isListed = std::find(listed.begin(), listed.end(), known.name) != listed.end();
		bool fails = false;
		auto outcome = isolate(
			[&](Ctx&, std::string&, std::vector<uint64_t>&) {
				return !known.stillFails();
			},
			property.hangSeconds);
		++directedRun;
		fails = failed(outcome);
		if (fails && isListed)
		{
			std::cout << "KNOWN-FINDING: property=" << property.id << " " << known.name << ": "
					  << known.what << "\n";
		}
		else if (fails)
		{
			outcome.message = known.what + " " + outcome.message;
			report(property, "directed", "known:" + known.name, {}, outcome, 0);
			writeEvidence(property, totals, (nowMs() - start) / 1000.0, directedRun, 1);
			return 1;
		}
		else
		{
			std::cout << "note: recorded finding no longer occurs: " << known.name << "\n";
		}
	}

	for (const auto& directed : property.directed)
	{
		auto body = [&](Ctx& ctx, std::string& message, std::vector<uint64_t>&) {
			return runDirected(directed, ctx, message);
		};
		auto outcome = isolate(body, property.hangSeconds);
		++directedRun;
		if (failed(outcome))
		{
			unsigned again = 0;
			for (int i = 0; i < 3; ++i)
			{
				auto o = isolate(body, property.hangSeconds);
				again += failed(o);
			}
			if (again == 3 || (again > 0 && outcome.kind != Outcome::Hang))
			{
				report(property, "directed", directed.name, {}, outcome, 0);
				writeEvidence(property, totals, (nowMs() - start) / 1000.0, directedRun, 1);
				return 1;
			}
			std::cout << "note: directed case " << directed.name << " failed once and did not reproduce: "
					  << outcome.message << "\n";
		}
	}

	std::cout.flush();
	Slot* slots = shared<Slot>(workers);
	std::vector<pid_t> pids(workers);
	const auto deadline = start + int64_t(g_options.budgetSeconds) * 1000;
	for (unsigned w = 0; w < workers; ++w)
	{
		pids[w] = ::fork();
		if (pids[w] == 0)
		{
			worker(property, slots[w], w, workers, cases, deadline);
		}
	}

	struct Suspect
	{
		uint64_t index;
		Outcome::Kind kind;
		std::string message;
	};
	std::vector<Suspect> suspects;
	unsigned alive = workers;
	bool killedByEnvironment = false;
	while (alive > 0)
	{
		for (unsigned w = 0; w < workers; ++w)
		{
			if (pids[w] == 0)
			{
				continue;
			}
			int status = 0;
			const auto r = ::waitpid(pids[w], &status, WNOHANG);
			if (r == pids[w])
			{
				pids[w] = 0;
				--alive;
				if (slots[w].done == 2)
				{
					suspects.push_back({ slots[w].failedCase, Outcome::Fail, slots[w].message });
				}
				else if (slots[w].done != 1)
				{
					if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
					{
						killedByEnvironment = true;
					}
					else if (slots[w].current > 0)
					{
						suspects.push_back({ slots[w].current - 1,
							Outcome::Crash,
							crashSummary(readFile(cat(g_options.scratch, "/w", w, ".err")), status) });
					}
				}
				continue;
			}
			if (slots[w].current > 0
				&& nowMs() - slots[w].startedMs > int64_t(property.hangSeconds) * 1000)
			{
				const uint64_t index = slots[w].current - 1;
				::kill(pids[w], SIGKILL);
				::waitpid(pids[w], &status, 0);
				pids[w] = 0;
				--alive;
				suspects.push_back({ index, Outcome::Hang, "no answer" });
			}
		}
		if (!suspects.empty())
		{
			break;
		}
		::usleep(5000);
	}
	if (!suspects.empty())
	{
		// let the others finish their current case, then stop them
		for (unsigned w = 0; w < workers; ++w)
		{
			if (pids[w] != 0)
			{
				::kill(pids[w], SIGKILL);
				int status = 0;
				::waitpid(pids[w], &status, 0);
			}
		}
	}

	for (unsigned w = 0; w < workers; ++w)
	{
		const std::string base = cat(g_options.scratch, "/w", w);
		totals.evaluated += slots[w].evaluated;
		totals.discarded += slots[w].discarded;
		std::ifstream labels(base + ".labels");
		std::string line;
		while (std::getline(labels, line))
		{
			const auto space = line.find(' ');
			totals.labels[line.substr(space + 1)] += std::stoull(line.substr(0, space));
		}
		const auto keys = readFile(base + ".keys", size_t(1) << 31);
		for (size_t i = 0; i + 8 <= keys.size(); i += 8)
		{
			uint64_t k = 0;
			std::memcpy(&k, keys.data() + i, 8);
			totals.distinct.insert(k);
		}
		std::ifstream samples(base + ".samples", std::ios::binary);
		size_t len = 0;
		while (samples >> len)
		{
			samples.get();
			std::string s(len, 0);
			samples.read(s.data(), len);
			if (totals.samples.size() < 5)
			{
				totals.samples.push_back(s);
			}
		}
	}

	std::sort(suspects.begin(), suspects.end(), [](const auto& a, const auto& b) {
		return a.index < b.index;
	});
	for (const auto& suspect : suspects)
	{
		// Reproduce from the seed in a fresh process, then minimise.
		unsigned again = 0;
		Outcome seen;
		const unsigned tries = property.threaded ? 12 : 3;
		for (unsigned i = 0; i < tries && again < 3; ++i)
		{
			auto o = isolate(
				[&](Ctx& ctx, std::string& message, std::vector<uint64_t>& record) {
					Src src(caseSeed(property.id, suspect.index));
					const bool ok = runOne(property, src, ctx, message);
					record = src.record();
					return ok;
				},
				property.hangSeconds);
			if (failed(o))
			{
				++again;
				if (seen.message.empty())
				{
					seen = o;
				}
			}
		}
		const bool confirmed = again == 3
			|| (suspect.kind != Outcome::Hang && (again > 0 || suspect.kind == Outcome::Fail))
			|| suspect.message.find("SUMMARY: ") != std::string::npos; // what a sanitizer saw did happen
		if (!confirmed)
		{
			std::cout << "note: case " << suspect.index
					  << " failed once and did not reproduce: " << suspect.message << "\n";
			continue;
		}
		std::vector<uint64_t> choices;
		if (again == 0)
		{
			seen.kind = suspect.kind;
			seen.message = suspect.message + " (schedule dependent)";
		}
		if (seen.record.empty())
		{
			// a crash loses the record: draw it again with the same generator, without the oracle
			Src src(caseSeed(property.id, suspect.index));
			for (int i = 0; i < 6000; ++i)
			{
				src.below(~0ull);
			}
			choices = src.record();
			auto o = isolateChoices(property, choices);
			if (o.kind != seen.kind)
			{
				choices.clear();
			}
		}
		else
		{
			choices = seen.record;
		}
		if (!choices.empty() && again == 3 && !property.threaded)
		{
			choices = shrink(property, choices, seen);
		}
		else if (!choices.empty() && again == 3 && property.threaded)
		{
			choices = shrink(property, choices, seen);
		}
		report(property,
			choices.empty() ? "seeded" : "choices",
			"",
			choices,
			seen,
			suspect.index);
		totals.samples.push_back(seen.description.substr(0, 1500));
		writeEvidence(property, totals, (nowMs() - start) / 1000.0, directedRun, 1);
		return 1;
	}
	if (killedByEnvironment && totals.evaluated == 0)
	{
		std::cout << "note: workers were ended by the environment\n";
	}

	const double wall = (nowMs() - start) / 1000.0;
	writeEvidence(property, totals, wall, directedRun, 0);
	std::cout << "OK property=" << property.id << " evaluations=" << totals.evaluated
			  << " directed=" << directedRun << " distinct_nontrivial=" << totals.distinct.size()
			  << " discarded=" << totals.discarded << " wall=" << wall << "\n";
	for (const auto& [name, n] : totals.labels)
	{
		std::cout << "   " << n << "  " << name << "\n";
	}
	return 0;
}

int replay(const Property& property)
{
	const auto text = readFile(g_options.replayFile);
	auto field = [&](const std::string& name) -> std::string {
		auto pos = text.find("\"" + name + "\": \"");
		if (pos == std::string::npos)
			return {};
		pos += name.size() + 5;
		return text.substr(pos, text.find('"', pos) - pos);
	};
	const auto kind = field("kind");
	Outcome outcome;
	if (kind == "directed")
	{
		const auto name = field("directed");
		for (const auto& directed : property.directed)
		{
			if (directed.name == name)
			{
				outcome = isolate(
					[&](Ctx& ctx, std::string& message, std::vector<uint64_t>&) {
						return runDirected(directed, ctx, message);
					},
					property.hangSeconds);
			}
		}
		for (const auto& known : property.known)
		{
			if ("known:" + known.name == name)
			{
				outcome = isolate(
					[&](Ctx&, std::string& message, std::vector<uint64_t>&) {
						message = known.what;
						return !known.stillFails();
					},
					property.hangSeconds);
			}
		}
	}
	else if (kind == "seeded")
	{
		auto number = [&](const std::string& name) {
			auto pos = text.find("\"" + name + "\": ");
			return std::strtoull(text.c_str() + pos + name.size() + 4, nullptr, 10);
		};
		g_options.seed = number("seed");
		const auto index = number("case");
		outcome = isolate(
			[&](Ctx& ctx, std::string& message, std::vector<uint64_t>& record) {
				Src src(caseSeed(property.id, index));
				const bool ok = runOne(property, src, ctx, message);
				record = src.record();
				return ok;
			},
			property.hangSeconds);
	}
	else
	{
		std::vector<uint64_t> choices;
		auto pos = text.find("\"choices\": [");
		const char* p = text.c_str() + pos + 12;
		while (*p && *p != ']')
		{
			char* end = nullptr;
			choices.push_back(std::strtoull(p, &end, 10));
			p = *end == ',' ? end + 1 : end;
			if (end == p && *p != ']')
				break;
		}
		outcome = isolateChoices(property, choices);
	}
	std::cout << outcome.description << "\n";
	if (failed(outcome))
	{
		std::cout << "FAILS: " << outcome.message << "\n";
		return 1;
	}
	std::cout << "passes\n";
	return 0;
}

} // namespace

void add(Property&& property)
{
	registry().push_back(std::move(property));
}

int mainImpl(int argc, char** argv)
{
	for (int i = 1; i + 1 < argc + 1; ++i)
	{
		const std::string arg = argv[i];
		auto value = [&]() -> std::string {
			return i + 1 < argc ? argv[++i] : "";
		};
		if (arg == "--prop")
			g_options.prop = value();
		else if (arg == "--tier")
			g_options.thorough = value() == "thorough";
		else if (arg == "--seed")
			g_options.seed = std::stoull(value());
		else if (arg == "--cases")
			g_options.cases = std::stoull(value());
		else if (arg == "--jobs")
			g_options.jobs = std::stoul(value());
		else if (arg == "--evidence")
			g_options.evidence = value();
		else if (arg == "--replays")
			g_options.replayDir = value();
		else if (arg == "--replay")
			g_options.replayFile = value();
		else if (arg == "--known")
			g_options.knownFile = value();
		else if (arg == "--budget")
			g_options.budgetSeconds = std::stoull(value());
		else if (arg == "--only")
			g_options.only = std::stoull(value());
	}
	char scratch[] = "/tmp/verif-pbt-XXXXXX";
	if (!::mkdtemp(scratch))
	{
		std::perror("mkdtemp");
		return 2;
	}
	g_options.scratch = scratch;
	int rc = 2;
	bool found = false;
	for (const auto& property : registry())
	{
		if (property.id == g_options.prop)
		{
			found = true;
			if (g_options.only)
			{
				Src src(caseSeed(property.id, *g_options.only));
				Ctx ctx;
				ctx.verbose = true;
				std::string message;
				const bool ok = runOne(property, src, ctx, message);
				std::cout << ctx.desc.str() << "\n" << (ok ? "passes" : "FAILS: " + message) << "\n";
				rc = ok ? 0 : 1;
			}
			else
			{
				rc = g_options.replayFile.empty() ? runProperty(property) : replay(property);
			}
		}
	}
	if (!found)
	{
		std::cout << "unknown property " << g_options.prop << "\n";
	}
	const std::string cleanup = cat("rm -rf -- '", scratch, "'");
	if (std::system(cleanup.c_str()) != 0)
	{
		std::cout << "note: could not remove " << scratch << "\n";
	}
	return rc;
}

} // namespace h

__attribute__((weak)) int main(int argc, char** argv)
{
	return h::mainImpl(argc, argv);
}

// Leaks are not part of any property here and the forked shrinker would pay for the scan.
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=98";
}
