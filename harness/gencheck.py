"""C18 and C19: services generated from schema texts, clients generated from requests.

Schemas (and requests) are drawn from the seed; schemagen or clientgen (built from /repo's sources)
generates each of them with random options, the result is compiled with an implementation of every
accessor (or an adapter to every member), and all of them are linked into one program which searches
for requests, variables and responses whose result differs from the reference.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
QUICK, THOROUGH, BATCH = {"C18": 48, "C19": 48}, {"C18": 240, "C19": 240}, {"C18": 24, "C19": 24}
# Inputs of which only the generated headers are compiled, all of them at once.
HEADERS = {"quick": 300, "thorough": 600}
GENERATOR = {"C18": "schemagen", "C19": "clientgen"}
EMITTER = {"C18": "genemit", "C19": "clientemit"}
# The part which needs no compiler.
DIRECT = {"C19": "requests"}


class Broken(Exception):
    """The generator refuses a valid schema or its output does not compile."""

    def __init__(self, stage, schema, message, text):
        Exception.__init__(self, message)
        self.stage, self.schema, self.message, self.text = stage, schema, message, text


def generate(prop, generator, base, seed):
    """Runs the generator once. Returns its directory and source files."""
    flags = open(base + ".flags").read().split("\n")
    ns, flags = flags[0], [f for f in flags[1:] if f]
    out = base + ".out"
    os.makedirs(out)
    cmd = [generator, "--schema", base + ".graphql", "--prefix", "%s%d" % ("S" if prop == "C18" else "C", seed), "--namespace", ns,
           "--source-dir", out, "--header-dir", out] + flags
    if prop == "C19":
        cmd += ["--request", base + ".request"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    text = open(base + ".graphql", errors="replace").read()
    if prop == "C19":
        text = open(base + ".request", errors="replace").read() + "\n" + text
    if r.returncode != 0:
        raise Broken("generate", seed, "%s %s refuses a valid input (exit %d): %s" % (GENERATOR[prop], " ".join(flags), r.returncode, r.stdout.decode(errors="replace")), text)
    files = sorted(f for f in os.listdir(out) if f.endswith(".cpp"))
    if not files:
        raise Broken("generate", seed, "the generator writes no source file", text)
    return out, [os.path.join(out, f) for f in files], text


def binary_for(prop, seeds, work):
    tools = build.build([GENERATOR[prop], EMITTER[prop]])
    subprocess.run([tools[EMITTER[prop]], work] + [str(s) for s in seeds], check=True)
    jobs = []
    for s in seeds:
        base = os.path.join(work, str(s))
        out, files, text = generate(prop, tools[GENERATOR[prop]], base, s)
        # Each generated file has to compile on its own.
        jobs += [(s, f, out, text) for f in files + [base + ".impl.cpp"]]

    def one(job):
        s, f, out, text = job
        try:
            return build.compile_generated(f, [out])
        except build.BuildError as e:
            return Broken("compile", s, "the generated code does not compile: %s" % e, text)
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        objects = list(ex.map(one, jobs))
    for o in objects:
        if isinstance(o, Broken):
            raise o
    try:
        return build.link_generated(prop, objects)
    except build.BuildError as e:
        if "cannot link" in str(e):
            raise Broken("link", seeds[0], "the generated code does not link: %s" % e, "")
        raise


def check_headers(prop, seeds, work):
    """The headers generated from many more inputs have to compile. Raises Broken."""
    tools = build.build([GENERATOR[prop], EMITTER[prop]])
    subprocess.run([tools[EMITTER[prop]], work] + [str(s) for s in seeds], check=True)

    def one(s):
        out, _, text = generate(prop, tools[GENERATOR[prop]], os.path.join(work, str(s)), s)
        return s, [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".h")], text
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        made = list(ex.map(one, seeds))

    def compiles(name, some):
        source = os.path.join(work, name + ".cpp")
        with open(source, "w") as f:
            f.write("".join('#include "%s"\n' % h for _, hs, _ in some for h in hs))
        return build.check_syntax(source, sorted({os.path.dirname(h) for _, hs, _ in some for h in hs}))
    groups = [made[i::8] for i in range(8)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        problems = list(ex.map(lambda i: compiles("headers%d" % i, groups[i]), range(8)))
        for group, problem in zip(groups, problems):
            if problem:
                # The first input whose headers do not compile alone.
                for m, alone in zip(group, ex.map(lambda m: compiles("header-%d" % m[0], [m]), group)):
                    if alone:
                        raise Broken("compile", m[0], "the generated headers do not compile: %s" % alone, m[2])
    return len(made)


def report(prop, e, seed):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, e.stage, e.schema))
    json.dump({"property": prop, "seed": seed, "stage": e.stage, "schemas": [e.schema], "message": e.message[:6000], "description": e.text}, open(path, "w"), indent=1)
    print("FAILURE property=%s input %d\n%s\ninput:\n%s" % (prop, e.schema, e.message[:6000], e.text[:6000]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def merge(into, e):
    if into is None:
        return e
    for k, v in e["coverage"].items():
        have = into["coverage"].get(k)
        if isinstance(v, int) and not isinstance(v, bool):
            into["coverage"][k] = (have or 0) + v
        elif isinstance(v, dict):
            for n, x in v.items():
                if isinstance(x, int):
                    have[n] = have.get(n, 0) + x
                else:
                    have[n] = x
    into["wall_s"] += e["wall_s"]
    return into


def seeds_for(prop, tier, seed):
    n = QUICK[prop] if tier == "quick" else THOROUGH[prop]
    first = (seed % 1000003) * 1000 + (0 if tier == "quick" else 100)
    return [first + i for i in range(n)]


def main(prop, tier, seed, evidence, replay, cases=None):
    start = time.time()
    extra, batches, direct = [], [], DIRECT.get(prop)
    if replay:
        r = json.load(open(replay))
        if "choices" in r:
            extra = ["--replay", replay]
        if "schemas" in r:
            batches, direct = [r["schemas"]], None
        seed = r.get("seed", seed)
    else:
        all_seeds = seeds_for(prop, tier, seed)
        batches = [all_seeds[i:i + BATCH[prop]] for i in range(0, len(all_seeds), BATCH[prop])]
    total, code = None, 0

    def search(binary, part, more):
        """Runs a program of cases. Returns its exit code and output."""
        nonlocal total
        cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--replays", os.path.join(VERIF, "replays"),
               "--known", os.path.join(VERIF, "known_findings.txt"), "--evidence", part, "--budget", "240" if tier == "quick" else "900"] + more
        if cases:
            cmd += ["--cases", cases]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if os.path.exists(part):
            total = merge(total, json.load(open(part)))
            os.remove(part)
        return r.returncode, r.stdout

    if direct:
        try:
            binary = build.build([direct])[direct]
        except build.BuildError as e:
            print(str(e)[-3000:])
            print("NO ANSWER: the check could not be built from this tree")
            return 2
        code, _ = search(binary, evidence + ".part", extra)
        if replay:
            return code
    headers = 0
    if code == 0 and not replay:
        work = tempfile.mkdtemp(prefix="gen-", dir=build.BUILD if os.path.isdir(build.BUILD) else None)
        try:
            first = all_seeds[0] - all_seeds[0] % 1000 + 400
            headers = check_headers(prop, [first + i for i in range(HEADERS[tier]) if (first + i) % 24], work)
            print("headers of %d inputs compile, %.1f s" % (headers, time.time() - start), flush=True)
        except Broken as e:
            report(prop, e, seed)
            code = 1
        except build.BuildError as e:
            print(str(e)[-3000:])
            print("NO ANSWER: the check could not be built from this tree")
            return 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
    for batch in batches if code == 0 else []:
        work = tempfile.mkdtemp(prefix="gen-", dir=build.BUILD if os.path.isdir(build.BUILD) else None)
        try:
            try:
                binary = binary_for(prop, batch, work)
            except Broken as e:
                report(prop, e, seed)
                code = 1
                break
            except build.BuildError as e:
                print(str(e)[-3000:])
                print("NO ANSWER: the check could not be built from this tree")
                return 2
            if replay and not extra:
                print("replay: the generator and the compiler accept the schema now")
                return 0
            print("built %d inputs in %.1f s" % (len(batch), time.time() - start), flush=True)
            code, out = search(binary, os.path.join(work, "evidence.json"), extra)
            for m in re.finditer(r"^VIOLATION property=\S+ replay=(\S+)", out, re.M):
                if not replay:
                    d = json.load(open(m.group(1)))
                    d["schemas"] = batch
                    json.dump(d, open(m.group(1), "w"), indent=1)
            if code != 0:
                break
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if replay:
        return code
    if total is None:
        total = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                 "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the generator or the compiler failed before any request", "samples": []}}
    total["coverage"]["generated_headers_compiled"] = headers
    total["coverage"]["generated_inputs"] = sum(len(b) for b in batches)
    total["wall_s"] = round(time.time() - start, 2)
    json.dump(total, open(evidence, "w"), indent=1)
    return code


if __name__ == "__main__":
    # What the quick checks of this tree will need, built in advance.
    for p in GENERATOR:
        work = tempfile.mkdtemp(prefix="gen-", dir=build.BUILD)
        try:
            binary_for(p, seeds_for(p, "quick", int(os.environ.get("VERIF_SEED") or 1)), work)
        except (Broken, build.BuildError) as e:
            print(p, str(e)[:500])
        finally:
            shutil.rmtree(work, ignore_errors=True)
