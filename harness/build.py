#!/usr/bin/env python3
"""Builds the check binaries from /repo's working tree plus /verif/harness.

Objects are cached under /verif/build by the hash of their preprocessed source and flags, so a
check recompiles exactly what a change of /repo affects. Nothing is written in /repo.
"""
import concurrent.futures, fcntl, hashlib, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
BASE = ["-std=gnu++17", "-I" + REPO + "/include", "-I" + HERE + "/core", "-I" + HERE + "/engine", "-I" + REPO + "/src",
        "-DUSE_STD_FILESYSTEM", "-w", "-fno-omit-frame-pointer", "-pthread"]
MODES = {
    # -O1 keeps the parser's 2 GB template expansion under 90 s
    "plain": ["-O1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
SRC = REPO + "/src/"
CORE = [HERE + "/core/core.cpp"]
RESPONSE = [SRC + "GraphQLResponse.cpp", SRC + "Base64.cpp"]
JSON = [SRC + "JSONResponse.cpp"]
PARSER = [SRC + "SyntaxTree.cpp"]
SERVICE = [SRC + f for f in ("GraphQLService.cpp", "Validation.cpp", "Schema.cpp", "Introspection.cpp", "IntrospectionSchema.cpp")]
CLIENT = [SRC + "GraphQLClient.cpp"]
GENERATORS = [SRC + f for f in ("GeneratorLoader.cpp", "GeneratorUtil.cpp", "SchemaLoader.cpp")]


def checks(*names):
    return [HERE + "/checks/" + n + ".cpp" for n in names]


def engine(*names):
    return [HERE + "/engine/" + n + ".cpp" for n in names]


ENGINE = engine("jv", "gentext", "gram", "model", "query", "exec", "args", "conv_int", "conv_float", "conv_string", "conv_bool",
                "conv_id", "conv_scalar", "conv_enum", "conv_object", "conv_derived")


# What the checks of generated code are linked with.
GENERATED = {
    "C18": CORE + ENGINE + engine("gen", "geninput", "sdl", "introspection") + checks("generated") + RESPONSE + PARSER + SERVICE,
    "C19": CORE + ENGINE + engine("gen", "geninput", "sdl", "genclient", "tree") + checks("clients") + RESPONSE + JSON + PARSER + SERVICE + CLIENT,
}
# name -> (mode, sources, libraries)
BINARIES = {
    "parser": ("plain", CORE + engine("jv", "gentext", "gram") + checks("parser") + RESPONSE + PARSER, []),
    "execute": ("asan", CORE + ENGINE + checks("execute") + RESPONSE + PARSER + SERVICE, []),
    "validate": ("asan", CORE + ENGINE + engine("mutate") + checks("validate") + RESPONSE + PARSER + SERVICE, []),
    "literals": ("asan", CORE + ENGINE + checks("literals") + RESPONSE + PARSER + SERVICE, []),
    "subscribe": ("asan", CORE + ENGINE + engine("mutate") + checks("subscribe") + RESPONSE + PARSER + SERVICE, []),
    "introspect": ("asan", CORE + ENGINE + engine("introspection") + checks("introspect") + RESPONSE + PARSER + SERVICE, []),
    "concurrent": ("tsan", CORE + ENGINE + checks("concurrent") + RESPONSE + PARSER + SERVICE, []),
    "client": ("asan", CORE + engine("jv", "gentext") + checks("client") + RESPONSE + JSON + CLIENT, []),
    "schemagen": ("plain", [SRC + "SchemaGenerator.cpp"] + GENERATORS + RESPONSE + PARSER + SERVICE, ["-lboost_program_options"]),
    "sdl": ("asan", CORE + engine("jv", "gentext", "gram", "model", "query", "sdl", "geninput") + checks("sdl") + [HERE + "/programs/schemagen_main.cpp"] + GENERATORS + RESPONSE + PARSER + SERVICE, ["-lboost_program_options"]),
    "requests": ("asan", CORE + ENGINE + engine("mutate", "sdl", "gen", "geninput", "genclient", "tree") + checks("requests") + [HERE + "/programs/clientgen_main.cpp", SRC + "RequestLoader.cpp"] + GENERATORS + RESPONSE + JSON + PARSER + SERVICE + CLIENT, ["-lboost_program_options"]),
    "clientgen": ("plain", [SRC + f for f in ("ClientGenerator.cpp", "RequestLoader.cpp")] + GENERATORS + RESPONSE + PARSER + SERVICE, ["-lboost_program_options"]),
    "genemit": ("plain", CORE + engine("jv", "gentext", "gram", "model", "query", "sdl", "geninput", "emit") + [HERE + "/programs/genemit.cpp"] + RESPONSE + PARSER + SERVICE, []),
    "clientemit": ("plain", CORE + ENGINE + engine("gen", "geninput", "sdl", "genclient", "tree") + [HERE + "/programs/clientemit.cpp"] + RESPONSE + JSON + PARSER + SERVICE + CLIENT, []),
    "values": ("asan", CORE + engine("jv", "gentext") + checks("values") + RESPONSE + JSON, []),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def mode_for(source, mode):
    # The parser takes minutes and gigabytes with sanitizers: it is always built plain, except
    # when asked for explicitly (thorough tier of the parser checks).
    if source.endswith("SyntaxTree.cpp") and mode in ("asan", "tsan") and not os.environ.get("VERIF_SANITIZE_PARSER"):
        return "plain"
    return mode


def object_for(source, mode):
    flags = BASE + MODES[mode_for(source, mode)]
    pp = run([CXX, "-E", "-P"] + flags + [source])
    if pp.returncode != 0:
        raise BuildError("cannot preprocess %s:\n%s" % (source, pp.stderr.decode(errors="replace")[-4000:]))
    key = hashlib.sha256(b"\0".join([CXX.encode(), " ".join(flags).replace(REPO, "@").encode(), os.path.basename(source).encode(), pp.stdout])).hexdigest()[:32]
    out = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(source)[:-4], key))
    return out, flags


def compile_one(item):
    source, mode = item
    out, flags = object_for(source, mode)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d-%d.tmp.o" % (os.getpid(), threading.get_ident())
        t = time.time()
        r = run([CXX] + flags + ["-c", source, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("cannot compile %s:\n%s" % (source, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, out)
        if os.environ.get("VERIF_VERBOSE"):
            print("  compiled %s [%s] in %.1f s" % (os.path.basename(source), mode, time.time() - t), flush=True)
    return out


def compile_all(items):
    # Two items may come down to the same object: each one is compiled once.
    wanted = list(dict.fromkeys(items))
    work = list(dict.fromkeys((s, mode_for(s, m)) for s, m in wanted))
    work.sort(key=lambda i: 0 if i[0].endswith("SyntaxTree.cpp") else 1)
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        objects = dict(zip(work, ex.map(compile_one, work)))
    return {(s, m): objects[(s, mode_for(s, m))] for s, m in wanted}


def compile_generated(source, includes):
    """Generated code. Returns the object or raises BuildError."""
    flags = ["-std=gnu++17", "-O0", "-w", "-pthread", "-DUSE_STD_FILESYSTEM"] + ["-I" + i for i in includes + [REPO + "/include", HERE + "/core", HERE + "/engine"]]
    pp = run([CXX, "-E", "-P"] + flags + [source])
    if pp.returncode != 0:
        raise BuildError("cannot preprocess %s:\n%s" % (source, pp.stderr.decode(errors="replace")[:4000]))
    key = hashlib.sha256(pp.stdout + b"g++ -O0").hexdigest()[:32]
    out = os.path.join(BUILD, "gen", "%s-%s.o" % (os.path.basename(source)[:-4], key))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d-%d.tmp.o" % (os.getpid(), threading.get_ident())
        r = run([CXX] + flags + ["-c", source, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("cannot compile %s:\n%s" % (source, r.stderr.decode(errors="replace")[:4000]))
        os.replace(tmp, out)
    return out


def check_syntax(source, includes):
    """Generated code. Returns what is wrong with it."""
    r = run([CXX, "-std=gnu++17", "-w", "-fsyntax-only", "-pthread", "-DUSE_STD_FILESYSTEM"] + ["-I" + i for i in includes + [REPO + "/include"]] + [source])
    return r.stderr.decode(errors="replace")[:4000] if r.returncode else ""


def link_generated(name, objects):
    sources = GENERATED[name]
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        objs = compile_all([(s, "plain") for s in sources])
    inputs = [objs[(s, "plain")] for s in sources] + sorted(objects)
    key = hashlib.sha256(" ".join(inputs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = run([CXX, "-pthread"] + inputs + ["-o", tmp])
        if r.returncode != 0:
            raise BuildError("cannot link %s:\n%s" % (name, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, out)
    return out


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        items = []
        for n in names:
            mode, sources, libs = BINARIES[n]
            items += [(s, mode) for s in sources]
        objs = compile_all(items)
        result = {}
        for n in names:
            mode, sources, libs = BINARIES[n]
            inputs = [objs[(s, mode)] for s in sources]
            key = hashlib.sha256(" ".join(inputs + libs + MODES[mode]).encode()).hexdigest()[:24]
            out = os.path.join(BUILD, "bin", "%s-%s" % (n, key))
            if not os.path.exists(out):
                os.makedirs(os.path.dirname(out), exist_ok=True)
                tmp = out + ".tmp"
                r = run([CXX] + MODES[mode] + ["-pthread"] + inputs + libs + ["-o", tmp])
                if r.returncode != 0:
                    raise BuildError("cannot link %s:\n%s" % (n, r.stderr.decode(errors="replace")[-4000:]))
                os.replace(tmp, out)
            result[n] = out
        return result


def prune(keep_days=2):
    """Old objects of earlier trees only cost disk space."""
    for sub in ("obj", "bin", "gen"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        files = sorted(((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d)), reverse=True)
        for _, f in files[400:]:
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass


if __name__ == "__main__":
    names = sys.argv[1:] or list(BINARIES)
    os.environ.setdefault("VERIF_VERBOSE", "1")
    t = time.time()
    try:
        for n, p in build(names).items():
            print(n, p)
    except BuildError as e:
        print(e)
        sys.exit(1)
    print("built in %.1f s" % (time.time() - t))
