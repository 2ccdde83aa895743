#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed checks below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("differential property testing against an independent reference executor over random schemas, data graphs and valid documents", "generated schemas (up to 5 objects, 2 interfaces, 2 unions), documents of about 30 fields; composite fields with equal response names are a recorded finding"),
 "C02": ("fault-injection property testing against a reference executor", "failures of every kind at generated places; the reference predicts data, messages, locations and paths"),
 "C03": ("differential property testing across launch policies, kinds of futures and concurrent requests, under ThreadSanitizer", "the schedules which the system and a randomly ordered completing thread produce; no enumeration of schedules"),
 "C04": ("differential property testing of argument extraction against a reference coercion", "generated argument types with up to two list levels, fitting and disturbed values, directly and through requests"),
 "C05": ("differential property testing of the directives seen by every accessor against a reference collection", "generated documents with nested fragments and custom directives"),
 "C06": ("property testing with documents which are valid by construction", "generated schemas and documents with all executable features; validated and executed or subscribed"),
 "C07": ("rule-breaking mutation of valid documents: 37 kinds of edits, each invalid by construction", "one edit (sometimes two) at a generated place of generated documents"),
 "C08": ("stateful differential testing: every step of a history compared with a fresh service", "histories of up to 8 steps over up to 4 valid or broken documents"),
 "C23": ("property testing against a reference selection of the operation", "generated documents with up to five operations, known and unknown names, resolve and subscribe"),
 "C24": ("differential property testing of unvalidated requests with injected misfits against a reference executor", "unknown fields and fragments, selections on scalars and objects without them at generated places; enums with selections are left out, their conversion is generated code"),
 "C09": ("model-based stateful property testing of the subscription registry", "histories of up to 14 subscribe, unsubscribe and deliver calls with every overload and launch policy, calls made one at a time"),
 "C10": ("differential property testing of delivered events against the reference executor, with injected failures", "up to four subscriptions and four deliveries per case; rejected subscriptions by rule-breaking edits"),
 "C17": ("differential property testing of introspection against a reference introspection of generated schemas", "whole schemas, every type by name, random selections over the introspection types; services without introspection"),
 "C11": ("grammar-based generation against an independently built expected tree, with metamorphic re-rendering of ignored tokens", "documents of bounded size from a full-grammar generator; exploration"),
 "C12": ("mutation fuzzing against an independent recogniser, guard pages around the input", "byte strings, mutated and truncated documents; inputs the recogniser cannot decide only check for termination and located errors"),
 "C13": ("differential property testing of literals, variables and default values against a reference value", "generated values of every input type written as literal, variable, variable default, argument default and input field default"),
 "C14": ("model-based stateful property testing (random operation sequences, ASan+UBSan)", "every observable of every slot compared with a model after each step of generated histories; exploration, no proof of absence"),
 "C15": ("round-trip and differential property testing against an independent JSON reader (ASan+UBSan)", "generated values and texts; floats compared within 3 units in the last place on input because of a recorded finding"),
 "C16": ("differential property testing against an independent codec plus small exhaustive tables", "generated byte strings and encodings; superfluous padding is left unspecified"),
 "C18": ("differential property testing of services which the generator makes of generated schema texts, compiled with generated implementations, against a reference executor and introspection", "6 schemas with their options per quick run (48 thorough), drawn by the seed, 20000 requests; input types are not recursive"),
 "C19": ("differential property testing of clients which the generator makes of generated requests, compiled with generated adapters; metamorphic and rule-breaking requests for the generator alone", "12 clients per quick run (96 thorough), drawn by the seed, 20000 responses and variables; 1200 requests for the generator"),
 "C21": ("metamorphic and rule-breaking property testing of schema texts, the generator running in process under ASan+UBSan", "generated schemas and their permutations, layouts and splits into extensions; 40 kinds of broken texts; equality of the generated lines"),
 "C20": ("round-trip and differential property testing of serialize/parse over all type modifiers, plus generated service responses", "generated values of 15 modifier chains (up to three list levels) over six base types; generated responses with errors, as values and through JSON"),
 "C22": ("model-based stateful property testing against std::map/std::set (ASan+UBSan)", "generated operation histories over small key pools"),
}
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOT = {}
m = {"version": 1, "setup_cmd": "python3 harness/build.py && python3 harness/gencheck.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "check not built yet")})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
