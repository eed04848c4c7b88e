#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that long text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})
EV = "libCacheSim/cache/eviction/"
GOLD = ("The existing tests replay one fixed trace through each policy and compare aggregate miss counts with "
        "recorded numbers; ")

prop("C01", "A cache never holds more bytes than its capacity",
     "After every request (get) of any request history, the bytes a cache reports as occupied are at most its configured size, "
     "for every eviction algorithm that the simulator offers.",
     ["histories", "inputs", "configurations"],
     "all request histories over few objects with arbitrary sizes, for every eviction algorithm and several capacities",
     GOLD + "no test looks at occupancy after a request, and capacity violations need particular size/eviction combinations.",
     ["libCacheSim/cache/cache.c", EV],
     [("evict until the new object fits", "cache_get_base and each policy's own get")],
     [("occupied_byte", "bytes charged for cached objects", "cache_t")],
     ["get", "get_occupied_byte"])
prop("C02", "Reported object count and bytes match the objects actually cached",
     "After any history of requests, lookups and removals, the reported number of objects equals the number of objects that a lookup "
     "finds, and the reported occupied bytes equal the sum of the sizes those objects had when they were cached (plus the constant per-object overhead "
     "when metadata is charged).",
     ["histories", "inputs", "configurations"],
     "all histories of get/find/remove over few objects with arbitrary sizes, for every eviction algorithm",
     GOLD + "counts are never compared with what is findable.",
     ["libCacheSim/cache/cache.c", EV],
     [("insert/evict/remove bookkeeping", "cache_insert_base, cache_evict_base, cache_remove_obj_base")],
     [("n_obj/occupied_byte", "object and byte counters", "cache_t")], ["get_n_obj", "get_occupied_byte", "find"])
prop("C03", "A request is a hit exactly when the object was cached",
     "A request reports a hit if and only if a lookup made immediately before it finds the object. An object becomes cached only by being "
     "requested, and while all objects have the same size a hit evicts nothing (an offline oracle policy may drop the requested object itself at its last access).",
     ["histories", "inputs", "configurations"],
     "all request histories over few objects with arbitrary ids and sizes, every eviction algorithm",
     GOLD + "a wrong hit on one history can leave the aggregate counts unchanged, and lookups are never compared with hits.",
     ["libCacheSim/cache/cache.c", EV], [("lookup before insert", "cache_get_base")], [], ["get", "find"])
prop("C04", "Removing an object removes that object and nothing else",
     "Removing an object returns true if and only if the object was cached; afterwards it is not found, every other object's presence is unchanged, and the reported "
     "count and bytes drop by exactly that object. The cache then keeps serving further requests, removals and evictions correctly.",
     ["histories", "inputs", "configurations"],
     "all histories mixing get and remove, every eviction algorithm",
     "No test calls remove at all.",
     ["libCacheSim/cache/cache.c", EV], [("unlink from policy structures and hash table", "<Algo>_remove, cache_remove_obj_base")],
     [], ["remove", "find", "get_n_obj", "get_occupied_byte"])
json.dump
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    import importlib.util, sys
    extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, "exec"))
    P.sort(key=lambda p: p["id"])
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
