#!/usr/bin/env python3
"""mutants.py --files a.cpp,b.h [--n N] [--seed S] [--slots K] [--checks P,..]: mutation testing of the checks.

Makes small random edits (operators, conditions, constants, dropped statements) in scratch copies of
/repo and runs the checks which concern the file until one of them reports a violation. Survivors are
printed with their diff, for a person to decide whether they are equivalent or a gap. Developer tool.
"""
import argparse, concurrent.futures, os, random, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXEC = ["C01", "C02", "C04", "C05", "C10", "C09", "C23", "C08", "C06", "C13", "C07", "C17", "C03"]
CHECKS = {
    "GraphQLService.cpp": EXEC, "GraphQLService.h": EXEC,
    "Validation.cpp": ["C07", "C06", "C08", "C13", "C19"], "Validation.h": ["C07", "C06", "C08", "C13"],
    "GraphQLResponse.cpp": ["C14", "C15", "C16", "C04", "C01", "C20"], "GraphQLResponse.h": ["C14", "C15", "C16", "C04", "C01", "C20"],
    "JSONResponse.cpp": ["C15", "C16"], "Base64.cpp": ["C16"], "SortedMap.h": ["C22"],
    "GraphQLClient.cpp": ["C20", "C19"], "GraphQLClient.h": ["C20", "C19"],
    "Schema.cpp": ["C17", "C18", "C07"], "Introspection.cpp": ["C17", "C18"], "IntrospectionSchema.cpp": ["C17", "C06", "C18"],
    "SchemaLoader.cpp": ["C21", "C18", "C19"], "SchemaGenerator.cpp": ["C21", "C18"], "GeneratorLoader.cpp": ["C21", "C18", "C19"], "GeneratorUtil.cpp": ["C21", "C18", "C19"],
    "RequestLoader.cpp": ["C19"], "ClientGenerator.cpp": ["C19"],
    "SyntaxTree.cpp": ["C12", "C11", "C13"], "Grammar.h": ["C12", "C11", "C13"], "SyntaxTree.h": ["C12", "C11", "C13", "C01"],
}
SWAPS = [(" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
         ("true", "false"), ("false", "true"), ("front()", "back()"), ("back()", "front()"), ("begin()", "end()"), ("continue;", "break;"), ("+ 1", "+ 2"), ("- 1", "- 2"),
         ("insert(", "count("), ("(!", "("), ("std::launch::deferred", "std::launch::async"), ("first", "second"), ("++", "--")]


def candidates(text):
    for i, line in enumerate(text.split("\n")):
        code = line.split("//")[0]
        s = code.strip()
        if not s or s.startswith(("#", "*", "/*", "using", "namespace", "template", "static_assert", "struct", "class", "GRAPHQL")):
            continue
        quoted = [(m.start(), m.end()) for m in re.finditer(r'R"\w*\(.*?\)\w*"|"(?:[^"\\]|\\.)*"', code)]
        inside = lambda p: any(a <= p < b for a, b in quoted)
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if inside(m.start()) or (a.isalpha() and re.search(r"\w", code[m.start() - 1:m.start()] + code[m.end():m.end() + 1])):
                    continue
                yield i, code[:m.start()] + b + code[m.end():]
        m = re.match(r"^(\s*(?:else )?if \()(.*)\)\s*$", code)
        if m and ";" not in m.group(2):
            yield i, m.group(1) + "!(" + m.group(2) + "))"
            yield i, m.group(1) + "(" + m.group(2) + ") && false)"
            yield i, m.group(1) + "(" + m.group(2) + ") || true)"
        if re.match(r"^\s*[\w_.>\-:()*+]+(\(.*\)| = .*|\+\+)?;\s*$", code) and not s.startswith(("return", "throw", "const", "auto", "break", "continue", "}", "case", "default", "delete")):
            yield i, re.match(r"^\s*", code).group(0) + ";"
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            if not inside(m.start()):
                yield i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", required=True)
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--slots", type=int, default=3)
    ap.add_argument("--checks")
    ap.add_argument("--lines", help="a-b: only these lines")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    work = []
    for name in a.files.split(","):
        path = subprocess.run(["git", "-C", "/repo", "ls-files", "src/" + name, "include/" + name, "include/graphqlservice/" + name, "include/graphqlservice/internal/" + name], capture_output=True, text=True).stdout.split()[0]
        text = open("/repo/" + path).read()
        found = sorted(set(candidates(text)))
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            found = [c for c in found if lo <= c[0] + 1 <= hi]
        rng.shuffle(found)
        work += [(path, i, new) for i, new in found[:a.n]]
    base = tempfile.mkdtemp(prefix="mutants-", dir="/tmp")
    slots = []
    for k in range(a.slots):
        slot = os.path.join(base, str(k))
        os.makedirs(slot + "/build")
        os.makedirs(slot + "/repo")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s/repo" % slot, shell=True, check=True)
        for sub in ("obj", "gen"):
            subprocess.run(["cp", "-al", os.path.join(VERIF, "build", sub), slot + "/build/" + sub], check=True)
        slots.append(slot)
    import queue
    free = queue.Queue()
    for s in slots:
        free.put(s)

    def one(item):
        path, i, new = item
        slot = free.get()
        try:
            full = slot + "/repo/" + path
            text = open("/repo/" + path).read().split("\n")
            old = text[i]
            text[i] = new
            open(full, "w").write("\n".join(text))
            what = "%s:%d\n  - %s\n  + %s" % (path, i + 1, old.strip(), new.strip())
            env = dict(os.environ, VERIF_REPO=slot + "/repo", VERIF_BUILD=slot + "/build", VERIF_SEED="1", VERIF_TIER="quick")
            ran = []
            for p in (a.checks.split(",") if a.checks else CHECKS[os.path.basename(path)]):
                r = subprocess.run([sys.executable, VERIF + "/check.py", p, "--evidence-dir", slot + "/ev"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    return "CAUGHT by %s: %s" % (p, what)
                if r.returncode == 2 and "NO ANSWER" in r.stdout:
                    return "NOBUILD %s (%s)" % (what, p)
                if r.returncode:
                    return "BROKEN CHECK %s exit %d: %s\n%s" % (p, r.returncode, what, r.stdout[-800:])
                ran.append(p)
            return "SURVIVED %s: %s" % (",".join(ran), what)
        finally:
            shutil.copyfile("/repo/" + path, slot + "/repo/" + path)
            free.put(slot)

    with concurrent.futures.ThreadPoolExecutor(a.slots) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, w) for w in work]):
            print(f.result(), flush=True)
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
