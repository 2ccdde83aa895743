// Runs the main function of a generator in this process, on files of its own.
#pragma once

#include "core.h"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

namespace h {

namespace fs = std::filesystem;

// A directory of this process, which goes away with it.
struct Scratch
{
	fs::path path;
	Scratch()
	{
		std::string name = (fs::temp_directory_path() / "verif-sdl-XXXXXX").string();
		if (!::mkdtemp(name.data()))
			throw std::runtime_error("no scratch directory");
		path = name;
	}
	~Scratch()
	{
		std::error_code e;
		fs::remove_all(path, e);
	}
};

struct Output
{
	int exit = 0;
	std::string messages;
	std::map<std::string, std::string> files;
	std::vector<std::string> misplaced; // files in the wrong directory
	std::set<std::string> listed;		// files named in the messages
};

// Where the files go.
enum class Place
{
	Together,	// one directory for all of them
	Apart,		// one for sources, one for headers
	Current,	// no directories: the current one
	HeadersOnly, // a directory for headers, the current one for sources
	Missing		// a directory which does not exist
};

// Runs the main function of a generator. A file name among the arguments stands for the input.
inline Output generate(int (*generator)(int, char**), const std::map<std::string, std::string>& inputs, std::vector<std::string> args, Place place = Place::Together, bool joined = false)
{
	Scratch scratch;
	const auto directory = [&scratch](const char* name) {
		fs::create_directory(scratch.path / name);
		return scratch.path / name;
	};
	for (const auto& [name, text] : inputs)
	{
		std::ofstream out(scratch.path / name, std::ios::binary);
		out << text;
	}
	const auto sources = directory("out"), headers = place == Place::Apart || place == Place::HeadersOnly ? directory("headers") : sources;
	for (auto& a : args)
		for (const auto& [name, text] : inputs)
			if (a.size() >= name.size() && a.compare(a.size() - name.size(), name.size(), name) == 0)
				a.replace(a.size() - name.size(), name.size(), (scratch.path / name).string());
	args.insert(args.begin(), "generator");
	const auto add = [&args, joined](const char* option, const fs::path& value) {
		if (joined)
			args.push_back(cat(option, "=", value.string()));
		else
			args.insert(args.end(), { option, value.string() });
	};
	if (place == Place::Together || place == Place::Apart || place == Place::Missing)
		add("--source-dir", place == Place::Missing ? scratch.path / "missing" : sources);
	if (place != Place::Current)
		add("--header-dir", headers);
	std::vector<char*> argv;
	for (auto& a : args)
		argv.push_back(a.data());
	argv.push_back(nullptr);
	std::ostringstream messages;
	auto* const out = std::cout.rdbuf(messages.rdbuf());
	auto* const err = std::cerr.rdbuf(messages.rdbuf());
	const auto current = fs::current_path();
	if (place == Place::Current || place == Place::HeadersOnly)
		fs::current_path(sources);
	Output r;
	try
	{
		r.exit = generator(static_cast<int>(args.size()), argv.data());
	}
	catch (const std::exception& e)
	{
		r.exit = 134; // what leaving main this way comes to
		messages << "leaves main with an exception: " << e.what();
	}
	std::cout.rdbuf(out);
	std::cerr.rdbuf(err);
	fs::current_path(current);
	r.messages = messages.str();
	for (const auto& f : fs::recursive_directory_iterator(scratch.path))
		if (f.is_regular_file() && !(f.path().parent_path() == scratch.path && inputs.count(f.path().filename().string())))
		{
			std::ifstream in(f.path(), std::ios::binary);
			std::ostringstream all;
			all << in.rdbuf();
			const auto name = f.path().filename().string();
			const bool header = f.path().extension() == ".h";
			if (f.path().parent_path() != (header ? headers : sources) || r.files.count(name))
				r.misplaced.push_back(f.path().string());
			r.files[name] = all.str();
		}
	std::istringstream in(r.messages);
	for (std::string l; std::getline(in, l);)
	{
		const fs::path path = l;
		const auto full = path.is_absolute() ? path : sources / path;
		r.listed.insert(fs::exists(full) && full.has_filename() ? path.filename().string() : l);
	}
	return r;
}

// A command line: options which may be given by position, in this order, and flags.
struct CommandLine
{
	struct Option
	{
		std::string name;
		char letter;
		std::string value;
	};
	std::vector<Option> options;
	std::vector<std::vector<std::string>> flags;
};

// One of the spellings of a command line.
inline std::vector<std::string> spell(Src& src, const CommandLine& c)
{
	std::vector<std::vector<std::string>> parts;
	const size_t positional = src.coin(1, 3) ? c.options.size() : src.below(c.options.size() + 1);
	std::vector<std::string> named;
	for (size_t i = positional; i < c.options.size(); ++i)
	{
		const auto& o = c.options[i];
		switch (src.below(4))
		{
			case 0: parts.push_back({ "--" + o.name, o.value }); break;
			case 1: parts.push_back({ "--" + o.name + "=" + o.value }); break;
			case 2: parts.push_back({ std::string("-") + o.letter, o.value }); break;
			default: parts.push_back({ std::string("-") + o.letter + o.value }); break;
		}
	}
	for (const auto& f : c.flags)
		parts.push_back(f);
	for (size_t i = parts.size(); i > 1; --i)
		std::swap(parts[i - 1], parts[src.below(i)]);
	// The ones by position keep their order, wherever they are.
	size_t at = 0;
	for (size_t i = 0; i < positional; ++i)
	{
		at += src.below(parts.size() - at + 1);
		parts.insert(parts.begin() + static_cast<long>(at++), { c.options[i].value });
	}
	std::vector<std::string> r;
	for (const auto& p : parts)
		r.insert(r.end(), p.begin(), p.end());
	return r;
}

// The lines of a file regardless of their order, and of what separates them in lists.
inline std::vector<std::string> lines(const std::string& text)
{
	std::vector<std::string> r;
	std::istringstream in(text);
	for (std::string l; std::getline(in, l);)
	{
		while (!l.empty() && (l.back() == ',' || l.back() == ' ' || l.back() == '\t' || l.back() == '\r'))
			l.pop_back();
		if (!l.empty())
			r.push_back(l);
	}
	std::sort(r.begin(), r.end());
	return r;
}

// Fails unless both generate the same lines.
inline void sameFiles(const Ctx& ctx, const Output& first, const Output& second, const std::string& other)
{
	for (const auto& [name, text] : first.files)
		ctx.require(second.files.count(name) == 1, cat(other, " does not generate ", name));
	for (const auto& [name, text] : second.files)
	{
		ctx.require(first.files.count(name) == 1, cat("only ", other, " generates ", name));
		const auto a = lines(first.files.at(name)), b = lines(text);
		if (a == b)
			continue;
		std::vector<std::string> lost, more;
		std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(lost));
		std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(more));
		std::string what = cat(other, " generates another ", name, ":");
		for (size_t i = 0; i < std::min<size_t>(lost.size(), 5); ++i)
			what += "\n- " + lost[i];
		for (size_t i = 0; i < std::min<size_t>(more.size(), 5); ++i)
			what += "\n+ " + more[i];
		ctx.fail(what);
	}
}

// The same output for every spelling of a command line, in the right places; failure for bad ones.
inline void commandLines(Src& src, Ctx& ctx, int (*generator)(int, char**), const std::map<std::string, std::string>& inputs, const CommandLine& c)
{
	const auto show = [&ctx](const char* what, const std::vector<std::string>& args) {
		ctx.desc << what;
		for (const auto& a : args)
			ctx.desc << " " << a;
		ctx.desc << "\n";
	};
	std::vector<std::string> plain;
	for (const auto& o : c.options)
		plain.insert(plain.end(), { "--" + o.name, o.value });
	for (const auto& f : c.flags)
		plain.insert(plain.end(), f.begin(), f.end());
	const auto first = generate(generator, inputs, plain);
	ctx.require(first.exit == 0, cat("the generator fails (exit ", first.exit, "): ", first.messages));
	ctx.nontrivial = true;
	if (src.coin(1, 3))
	{
		// Something which can not work.
		auto bad = c;
		auto place = Place::Together;
		std::string what;
		switch (src.below(4))
		{
			case 0:
			{
				const auto i = src.below(bad.options.size());
				what = "no " + bad.options[i].name;
				bad.options.erase(bad.options.begin() + static_cast<long>(i));
				break;
			}
			case 1:
				what = "an unknown option";
				bad.flags.push_back({ "--no-such-option" });
				break;
			case 2:
				what = "an input file which does not exist";
				bad.options[src.below(inputs.size())].value = "/nonexistent/input.graphql";
				break;
			default:
				what = "an output directory which does not exist";
				place = Place::Missing;
				break;
		}
		std::vector<std::string> args;
		for (const auto& o : bad.options)
			args.push_back(cat("--", o.name, "=", o.value));
		for (const auto& f : bad.flags)
			args.insert(args.end(), f.begin(), f.end());
		show("bad arguments", args);
		const auto r = generate(generator, inputs, args, place);
		ctx.require(r.exit != 0, cat("the generator succeeds with ", what, ": ", r.messages));
		ctx.require(!r.messages.empty(), cat("the generator fails without a message for ", what));
		if (place != Place::Missing)
			ctx.require(r.files.empty(), cat("the generator writes files with ", what));
		ctx.label("bad command lines: " + what);
		return;
	}
	auto other = c;
	const bool verbose = src.coin();
	if (verbose)
		other.flags.push_back({ src.coin() ? "-v" : "--verbose" });
	const auto* const question = src.coin(1, 12) ? src.coin() ? "--version" : src.coin() ? "--help" : "-?" : nullptr;
	if (question)
		other.flags.push_back({ question });
	const auto args = spell(src, other);
	const auto place = static_cast<Place>(src.below(4));
	static const char* const places[] = { "one directory", "two directories", "the current directory", "a directory for headers" };
	show("arguments", plain);
	show("or", args);
	ctx.desc << places[static_cast<int>(place)] << "\n";
	const auto second = generate(generator, inputs, args, place, src.coin());
	ctx.require(second.exit == 0, cat("the generator fails (exit ", second.exit, "): ", second.messages));
	ctx.require(first.misplaced.empty() && second.misplaced.empty(), cat("a file in the wrong place: ", (first.misplaced.empty() ? second : first).misplaced.size() ? (first.misplaced.empty() ? second : first).misplaced[0] : ""));
	ctx.label("command lines");
	if (question)
	{
		ctx.require(second.files.empty(), cat("files are written with ", question));
		ctx.require(!second.messages.empty(), cat("nothing is said with ", question));
		return;
	}
	sameFiles(ctx, first, second, "the other command line");
	const auto listed = [&ctx](const Output& o, bool headers) {
		std::set<std::string> want;
		for (const auto& [name, text] : o.files)
			if (headers || name.substr(name.size() - 2) != ".h")
				want.insert(name);
		for (const auto& n : want)
			ctx.require(o.listed.count(n) == 1, cat(n, " is written but not listed"));
		for (const auto& n : o.listed)
			ctx.require(want.count(n) == 1, cat(n, " is listed but not ", o.files.count(n) ? "asked for" : "written"));
	};
	listed(first, false);
	listed(second, verbose);
}

} // namespace h
