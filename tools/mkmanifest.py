#!/usr/bin/env python3
"""Writes MANIFEST.json and checks it (and the evidence, if present) against the schemas."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded stream fragmentation, reused targets and mixed logs, checked against the saved structure",
 "C02": "seeded end-of-data, read errors, stream exceptions and allocation failures during loads; crash cuts of a log of structures",
 "C03": "seeded device-full, write errors, stream exceptions and allocation failures during saves",
 "C04": "seeded operation histories with allocation failures and chosen prior memory, against vector models",
 "C05": "seeded operation histories with allocation failures and a step budget, against a map model",
 "C06": "seeded operation histories with allocation failures, against a vector model",
 "C07": "seeded insertion histories with allocation failures and throwing callbacks, against a map model",
 "C08": "seeded push/pop histories with allocation failures, against a multiset model",
 "C09": "adversarial prior memory contents chosen by the simulated allocator, against a vector model",
 "C10": "comparison failures injected at every kind of point, conservation and order oracle",
 "C11": "seeded preemptive schedules of reader tasks over one shared structure, against definitions",
 "C12": "seeded preemptive schedules of reader tasks over one shared structure, against the source list",
 "C13": "seeded preemptive schedules of reader tasks over one shared dictionary, against the key set",
 "C14": "seeded preemptive schedules of reader tasks over one shared searcher, against a naive search",
 "C15": "seeded preemptive schedules of writer tasks on distinct but related objects, each against its solo run",
 "C16": "allocation failures injected into every builder, all-or-nothing, leak and rebuild oracle",
}
NOTE = {
 "C01": "Sampled images, fragmentations, targets; all 33 serialisable structure kinds. Trusts libstdc++ iostreams above the simulated streambuf.",
 "C02": "Sampled cut points, error points and failing allocations, small images get every cut point over the batch; memory bound checked is 2x the image + 64 KiB for the largest single request.",
 "C03": "Sampled capacities, error points and failing allocations; the prefix is compared byte for byte with a fault-free image.",
 "C04": "Sampled histories; values fit the element width; after a failed copy assignment only destruction and reassignment are promised.",
 "C05": "Sampled histories of the compact hash table including growth; step budget per operation.",
 "C06": "Sampled histories of the fixed and growable array; failing write may hold old or new value.",
 "C07": "Sampled histories of trie insertions and walks, with failures inside.",
 "C08": "Sampled histories, smallest-first and largest-first heaps.",
 "C09": "Prior contents are zero, ones, random, pointer-like, index-like and replayed earlier contents; sampled.",
 "C10": "Sampled ranges, orders and throw points; comparison bound is 4 n (log2 n + 1) + 8.",
 "C11": "Sequentially consistent interleavings at instrumented accesses; portable and native instruction builds; sampled contents and schedules.",
 "C12": "Sequentially consistent interleavings at instrumented accesses; sampled lists, layer widths and schedules.",
 "C13": "Sequentially consistent interleavings at instrumented accesses; sampled key sets and probes (all near misses of small sets).",
 "C14": "Sequentially consistent interleavings at instrumented accesses; sampled texts biased to repetitive and small-alphabet ones.",
 "C15": "Sequentially consistent interleavings at instrumented accesses; conflicting accesses between tasks are also reported; sampled.",
 "C16": "Sampled inputs and failing allocation indices, single, lasting and windowed failures; leaks measured by the simulated allocator.",
}
NA = {
 "C17": "Pure functions of one machine word: no schedule, clock, I/O, allocation or other fault can influence them, so simulation has nothing to decide; running inputs through them would be plain input generation. (They are exercised indirectly, in portable and native builds, by C04, C11 and C12.)",
 "C18": "Pure arithmetic on the key with no schedule, fault or state; deciding it means reasoning over all keys, not simulating executions. (The table that uses it is simulated in C05.)",
 "C19": "An optimisation result that is a pure function of the input list; no fault or interleaving changes it. (That every split stores the list faithfully is C12, that building survives memory exhaustion is C16.)",
 "C20": "A statement about sizes and running time; the simulator's clock counts steps and says nothing about performance, and the accounting is a pure function.",
}
checks = [dict(property=p, quick_cmd="python3 tools/check.py %s" % p, thorough_cmd="python3 tools/check.py %s --tier thorough" % p,
               technique=T + TECH[p], level="exploration", level_note=NOTE[p]) for p in TECH]
m = dict(version=1, setup_cmd="python3 tools/check.py --build-all", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="No hooks were needed in /repo: the seams are the allocator (linker wrap), the streams (std::streambuf), the callbacks, and compiler instrumentation for scheduling points. One seed (VERIF_SEED) decides a run; replay with: python3 tools/check.py --replay FILE")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert sorted(ids) == sorted(list(TECH) + list(NA)), ids
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/EVIDENCE.schema.json"))
    for p in TECH:
        f = os.path.join(V, "evidence", p + ".json")
        if os.path.exists(f): jsonschema.validate(json.load(open(f)), s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    print("valid")
except ImportError: print("written (jsonschema not available here)")
