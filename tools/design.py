#!/usr/bin/env python3
"""Rewrites the parts of DESIGN.md between its markers from checks.py, meta.py, tools/catch.txt
and the known-findings file (run: python3 tools/design.py)."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
from checks import CHECKS
from meta import PROPS

# How the oracle of each check works and what makes the workload reach what tests do not.
HOW = {
"P01": "A value is generated as a plain model tree first (gen.hpp), then built with the library's constructors, serialized, copied to an allocation of exactly the encoded size, decoded and compared node by node with the *model*, never with another product of the library. The same value is packed several times back to back and decoded in sequence, the cursor being compared after each. Generation aims at header boundaries (15/16, 31/32, 255/256, 65535/65536), at the packer's block size and at deep spines.",
"P02": "An encoder written from the MessagePack specification (not from the code) gives the bytes for the model; they must equal those of every packing entry point. In the other direction the model is encoded with randomly chosen wider, still legal headers and decoded.",
"P03": "The independent encoder's length is compared with every size function and with the two-pass size of whole trees. Each direct pack function is run with capacities from zero to more than enough, at random offsets, in allocations of exactly that capacity; a write outside is an ASan report or a broken canary, and a failed write must leave offset, buffer pointer and bytes behind the end as they were. A record, which has no encoding, is put anywhere into a tree: sizing, serializing and packing must all refuse.",
"P04": "Inputs live in allocations of exactly their size, so reading one byte too far is a report. Every entry point that takes packed bytes runs on each. After success the cursor must be inside the input; size, skip and decode must agree; after failure the ledger must be level. Inputs are exhaustive up to two bytes (three in the thorough tier), then encodings mutated, truncated at every position, and headers announcing impossible counts. Values damaged behind 0-600 levels of nesting cross the depth at which skipping and comparing stop recursing. Nesting of 300000 is run in a child process on its own stack.",
"P05": "A reference order over model values, written from the documented ordering, is compared with `as_val_cmp` and with packed comparison in both directions, with shortest and alternate encodings and with trailing bytes after them. After equal comparison both cursors must stand behind the value. Pools hold near-equal variants (one bit, one element, one key changed) so that the deciding position varies.",
"P06": "An iterative parser of MessagePack gives kind, extent and content of every element; each accessor (skip, peek type, is-ext, sizes, element counts, direct scalars, as_unpack_val) is asked about each element, in the right and in wrong types, and must answer as the parser does and leave the cursor as documented.",
"P07": "Threads take, use and drop references of one object with delays at each atomic operation. Observers: the destroy hook (exactly once, after all others' last writes, which are plain writes so that a missing edge is a TSan race), the count, the ledger, and ASan for use after free. TSan does not model fences; `runtime.cpp` gives acquire/release fences their edges.",
"P08": "Because the harness holds a reference to every element, counts stay readable: after each operation count = 1 + occurrences in live containers. Over-release, leak and double insertion all show as a wrong count at once, without waiting for a crash.",
"P09": "After each operation the whole list is compared with a std::vector model; an operation may be refused only where the model says so, and must then change nothing. Lists made from a growable list must themselves grow.",
"P10": "The model is a dictionary ordered by the reference order of P05. Large maps are filled ascending, descending, interleaved and clustered so that the deferred-insert table is created, hit, replaced into, removed from and merged at every fill.",
"P11": "A reader written for the text form walks text and model together. A second construction of an equal value (other insertion order, other capacity, other string ownership) must give the same text and hash. Containers are sized so that their text passes each length around the internal block sizes.",
"P12": "Buffers are allocated at exactly their capacity. Index and length are drawn around size and capacity and around 2^32 so that sums wrap. Variable length integers are compared with a reference coder.",
"P13": "Ideal deque; item bytes are position-dependent patterns. The long runs move the queue's offsets past the point where they are folded back, at every fill, which takes 2^30 pushes and is therefore done in the optimised build.",
"P14": "Threads record invocation and response of each operation around a global event counter; a search (with memoisation on the exact state) looks for a sequential order explaining all results. Waiters blocked without time limit must return once an item is there; timed waits must neither return early without an item nor, by a generous margin, late. Spurious wakeups and delays are injected at the condition variable itself, in some cases as a storm: every 0.3 ms for the whole wait, which a wait that starts its time anew never survives. Now and then two producers leave more than 65536 elements behind: size, order and delivery of that backlog must be exact.",
"P15": "Ideal sequence; every visiting operation has a visitor that records what it is shown and decides by its own plan. Every order of size, capacity and offset up to 9 is reached, and offsets near 2^32.",
"P16": "As P14 for cf_queue with its sixteen operations, including selective pops and deletes.",
"P17": "Each task counts its own runs and verifies its argument, a gauge holds the largest number running at once, `/proc/self/task` is the census of threads. Tasks submit tasks while the pool is being closed. Several threads may close the pool at once.",
"P18": "Every buffer obtained is stamped over headroom and capacity and verified until returned, so two owners of one buffer see each other's stamps. The idle set is modelled; ledger = idle + held after each call.",
"P19": "std::string model. The builder's buffer is lent by the harness at exactly its capacity. Appends aim at the last free bytes. Texts beyond 2^31 and 2^32 characters are driven in the optimised build with a small memory window mapped repeatedly.",
"P20": "Reference conversions; source and target at exact sizes, target prefilled, everything outside the result must be unchanged.",
"P21": "OpenSSL encodes, an independent table decodes and validates. Single damaged characters, wrong padding, wrong lengths; refused input must leave the target untouched.",
"P22": "OpenSSL for SHA-1 and RIPEMD-160; FNV, Jenkins, Murmur3 and wyhash re-implemented from their publications and anchored on published vectors. Split points include all offsets around 55/56/63/64.",
"P23": "libcrypt's bcrypt. Threads hash at once to show independence of static state. Prompts read from a pipe in a child.",
"P24": "Certificates are built with OpenSSL from names derived from the asked one; an independent matcher decides. The allocations of OpenSSL are counted as well: asking must retain nothing. In a quarter of the cases a log callback formats every message.",
"P25": "Guarded plain data (TSan sees a missing edge as a race; in the native build torn or older versions are seen directly), holder counters, monitors whose waiters are woken without notification, monitors destroyed and freed by the waiter as soon as it returns, and conservation of all atomic operations of every width.",
"P26": "Guard bytes; per-position, per-symbol and per-bit variation over repetitions; all 64-bit draws of all threads differ; seeding sources that fail or run dry. In a child process the generator behind the pool stops delivering in between: what is handed out meanwhile stays unrepeated, a refusal leaves no lock held (the next call would wait for ever), and requests are met again afterwards.",
"P27": "Reference sequence, walked in both directions after each operation; removed elements are freed. On a locked list each thread must see its own insertions until removed.",
"P28": "Reference array, items of position-dependent bytes. One vector larger than 4 GB.",
"P29": "The clock is substituted, so each reading is known exactly; deadlines compared with 128-bit arithmetic.",
"P30": "For each operation the number of allocations is counted, then the operation is repeated with the n-th allocation failing (and with all from the n-th on), for each n. The outcome must be the model before or after; the operation must succeed afterwards; the ledger must be level. Lock and condition initialisation is failed in the same way.",
"P31": "Hooks are recorders generated by a template for every slot, so a call that reaches another slot or changes an argument is seen. Objects are laid over filled memory so that an uninitialised member shows.",
"P32": "See the technique line; every conversion is asked of every kind of value and of none.",
"P33": "See the technique line; directories are made in a scratch directory that the check removes before it judges.",
}

def props():
    out = []
    for p in PROPS:
        i = p["id"]
        if i not in CHECKS: continue
        c = CHECKS[i]
        v = ", ".join("`%s` (%s%s)" % (x["harness"], x["build"], "" if x.get("shards", 8) == 8 else ", %d shards" % x["shards"]) for x in c["variants"])
        out += ["### %s %s" % (i, p["title"]), "",
            "*Decided by* %s. Harness %s." % (c["technique"], v), "",
            "*Workload* %s." % c["rule"], "",
            "*Oracle* %s %s" % (c["note"], HOW[i]), "",
            "*Beyond the tests:* %s." % p["why_tests_cant"].rstrip("."), ""]
        if c["assumptions"]: out += ["*Assumed:* %s." % "; ".join(c["assumptions"]), ""]
    return "\n".join(out)

def catches():
    f = os.path.join(ROOT, "tools", "catch.txt")
    out = ["| planted change | property | caught by | observation |", "|---|---|---|---|"]
    lines = open(f).read().splitlines()
    late = {l.split()[1] for l in lines if l.startswith("#missed")}
    for l in lines:
        if not l or l.startswith("#"): continue
        a = l.split("\t")
        out.append("| %s | %s | %s%s | %s |" % (a[0], a[1], a[2], " (missed at first)" if a[0] in late else "", a[3] if len(a) > 3 else ""))
    return "\n".join(out) + "\n"

def findings():
    k, f = [], []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"(known|fixed): property=(\S+) (\S+) (.*)", l)
        if m: (k if m[1] == "known" else f).append(m.groups())
    out = ["Open (%d), printed as KNOWN-FINDING:" % len(k), ""]
    out += ["* %s `%s` %s" % (b, c.replace("key=", ""), d) for a, b, c, d in k]
    out += ["", "Repaired in /repo (%d), each a commit of its own:" % len(f), ""]
    out += ["* %s %s %s" % (b, c, d) for a, b, c, d in f]
    return "\n".join(out) + "\n"

def main():
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    for name, fn in (("properties", props), ("findings", findings), ("catches", catches)):
        a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + fn() + s[j:]
    open(path, "w").write(s)

if __name__ == "__main__":
    main()
