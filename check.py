#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds what the property's check needs from /repo's working tree, runs it, rewrites
evidence/<property>.json. Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
"""
import argparse, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build  # noqa: E402

NATIVE = {
    "C14": "values", "C15": "values", "C16": "values", "C22": "values",
    "C11": "parser", "C12": "parser",
    "C01": "execute", "C02": "execute", "C04": "execute", "C05": "execute", "C23": "execute", "C24": "execute",
    "C06": "validate", "C07": "validate", "C08": "validate", "C13": "literals", "C20": "client", "C03": "concurrent", "C17": "introspect", "C09": "subscribe", "C10": "subscribe", "C21": "sdl",
}
PYTHON = {"C18": "gencheck", "C19": "gencheck"}


def no_answer(message):
    """The tree does not compile into a check: nothing was decided."""
    print(message[-3000:])
    print("NO ANSWER: the check could not be built from this tree")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    ap.add_argument("--cases")
    ap.add_argument("--only")
    ap.add_argument("--evidence-dir", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args()
    try:
        seed = abs(int(a.seed))
    except ValueError:
        seed = sum(map(ord, a.seed))
    os.makedirs(a.evidence_dir, exist_ok=True)
    evidence = os.path.join(a.evidence_dir, a.prop + ".json")
    start = time.time()
    if a.prop in PYTHON:
        mod = __import__(PYTHON[a.prop])
        return mod.main(a.prop, a.tier, seed, evidence, a.replay, a.cases)
    name = NATIVE[a.prop]
    try:
        binary = build.build([name])[name]
    except build.BuildError as e:
        return no_answer(str(e))
    built = time.time() - start
    print("built in %.1f s" % built, flush=True)
    cmd = [binary, "--prop", a.prop, "--tier", a.tier, "--seed", str(seed),
           "--replays", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"),
           "--evidence", evidence, "--budget", "300" if a.tier == "quick" else "3000"]
    if a.replay:
        cmd += ["--replay", a.replay]
    if a.cases:
        cmd += ["--cases", a.cases]
    if a.only:
        cmd += ["--only", a.only]
    return subprocess.run(cmd).returncode


if __name__ == "__main__":
    sys.exit(main())
