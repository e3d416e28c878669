#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: prose from here, per-property data from properties.jsonl and lib/registry.py, the catch table from tools/catches.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS
O = {
"C01":"sign-magnitude reference integers of 32-bit digits written for the check (schoolbook multiplication, shift-and-subtract division), in refnum.h",
"C02":"per-bit evaluation on byte arrays; every word behind the last one used is compared with its old value",
"C03":"linear scan over single bits",
"C04":"bit-loop definitions, 128-bit arithmetic for roundings",
"C05":"byte-wise composition and reversal, 128-bit arithmetic for double words",
"C06":"128-bit arithmetic and the limits of the type",
"C07":"schoolbook matrices in row-major arrays modulo the element type",
"C08":"a plain growing byte sequence, the exact number of bytes held by a tracking allocator, ASan on exact-size blocks",
"C09":"a plain queue of numbered elements", "C10":"a list of records", "C11":"a bounded queue that drops its oldest; exhaustive definition of the circular counters",
"C12":"plain sequences of member numbers and a walk over all links in both directions", "C13":"a stably sorted sequence",
"C14":"insertion sort (stable), multiset of tagged elements, linear search",
"C15":"sorted sequence plus structural validation: colours, black height, parent links, augmented maximum, cached first",
"C16":"scan over all intervals plus subtree summaries", "C17":"multiset plus structural validation",
"C18":"an array of key/value pairs sorted by key; leak accounting by the tracking allocator",
"C19":"multiset plus a walk over every level in both directions", "C20":"sorted array of allocated indices with address and content of each element",
"C21":"multiset of nodes; tracking allocator", "C22":"set of nodes with the bucket computed by the caller's function", "C23":"set of bit positions marked by the same hash functions",
"C24":"model of elements, tags, states, references and pending changes (cache_model.h)", "C25":"the same model extended by the order of release and the use counts",
"C26":"list of blocks with their contents and the gaps between them", "C27":"list of blocks", "C28":"sequence of resources, each of which is destroyed by its release",
"C29":"a twin object with the same history that never runs out of memory, or a value model",
"C30":"bit-stream encoder from RFC 4648", "C31":"base-85 definition per group", "C32":"independent MD5, SHA-1 and SHA-2 of the whole message", "C33":"bit-wise polynomial division",
"C34":"textbook RC4", "C35":"lookup3, PJW, golden-ratio multiplication and LFSR113 from their published definitions", "C36":"naive scan",
"C37":"the recurrence with memoisation over suffixes in 64 bits", "C38":"character scan", "C39":"the complete text computed by the C library with an ample buffer", "C40":"definitions written out; table of the C locale for bytes below 128",
"C41":"interpreter of the machine description producing the exact list of actions", "C42":"list of subscribers in the chain's actual order of equal priorities",
"C43":"sequential model in which another thread's write is placed at every compare-and-exchange; exact totals for real threads", "C44":"model in 128-bit integers with the time as an input",
"C45":"text assembled from the definition, then cut", "C46":"stack, with another thread's action placed at every compare-and-exchange; multiset for real threads", "C47":"counters per site, binding and scope",
"C49":"the platform's limits and widths, plain comparison and shifting, the address of the structure",
"C53":"counts of comparisons, hashes, allocations and bytes, against the stated orders of growth with a factor of two or more to spare",
"C54":"the same bytes and the same answers before and after, and a write-protected copy of the memory: a store faults, a second reader under ThreadSanitizer shows a race",
"C55":"the sanitizers' verdict on every step of the generated histories, and the verdicts of the other properties' models compared between builds (a case that fails in every build alike is not counted here)",
"C52":"the bytes of the whole structure before the misuse, and the messages that reached the default log",
"C51":"the observations of the same script on an object set up in another way (metamorphic)",
"C50":"the digest the same program has when it runs alone (metamorphic); the data-race detector",
"C48":"prediction of which operation of which table is reached with what arguments; block contents",
}
O.update(json.load(open(os.path.join(V, "tools/oracles_extra.json"))) if os.path.exists(os.path.join(V, "tools/oracles_extra.json")) else {})
H = open(os.path.join(V, "tools/design_head.md")).read(); T = open(os.path.join(V, "tools/design_tail.md")).read()
out = [H.rstrip(), "", "## Properties and how each is decided", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in CHECKS: continue
    c = CHECKS[i]
    out += ["### %s %s" % (i, p["title"]), "", "*Cases.* %s" % c["rule"], "", "*Oracle.* %s." % O[i][0:1].upper().__add__(O[i][1:]), "",
            "*Bounds and cost.* Quick: %d cases per full-share configuration (%s), a few seconds on 8 cores. Thorough: %d cases, %s. *Beyond the tests:* %s" %
            (c["quick"], ", ".join(c.get("configs", ["asan"])), c.get("thorough", c["quick"] * 12), "then %d s of coverage-guided search over the same harness" % c.get("fuzz_secs", 150) if c["src"] else "over all generators, which share a few minutes in the quick tier", p["why_tests_cant"]), ""]
cp = os.path.join(V, "tools/catches.json")
out.append(T.rstrip())
if os.path.exists(cp):
    out += ["", "## Planted bugs and what catches them", "", "Planted from the property text and the code, each confirmed to build, to pass the 105 tests and to fail its demonstration.", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    cat = json.load(open(cp))
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        mp = os.path.join(V, "seeded", b, "meta.json")
        if os.path.exists(mp):
            m = json.load(open(mp)); out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), cat.get(b, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
