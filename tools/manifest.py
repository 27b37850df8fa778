#!/usr/bin/env python3
"""Source of MANIFEST.json: `python3 tools/manifest.py > MANIFEST.json`."""
import json
MODEL = "runtime monitoring: online comparison of the real classes with an executable reference model over generated call histories"
N = {
 "C01": (MODEL + " (all set and map classes)", "every key type and value type, hostile keys (colliding, extreme, NaN, null), capacities and load factors; each call and periodic full comparisons against a java.util model"),
 "C02": (MODEL + " with an entry table", "entries compared after every call with a table of live, reserved and released entries"),
 "C03": (MODEL + " (maps)", "values by key and by entry compared by identity or bits after every call"),
 "C04": ("runtime monitoring: traversal monitor (exactly-once delivery, fail-fast and removal protocol) over generated histories", "every traversal form, with removals, changes and resets in between, reused iterators included"),
 "C05": (MODEL + " with entry states live/reserved/free", "every kind of by-entry call on every entry state"),
 "C06": (MODEL + ", one model per copy, both continued after copying", "copies between instances of all sizes, functions and reservations, then diverging histories"),
 "C07": (MODEL + " keyed by the configured equality", "modular, constant, negative, extreme and case-insensitive functions, set and exchanged at any moment allowed"),
 "C08": (MODEL + " with an independent comparator", "least key and drained order compared with a sorted model for every key type and comparator"),
 "C09": (MODEL + " with an entry table", "entries, keys and values of all live and released entries after every call"),
 "C10": (MODEL + " across comparator and key changes", "comparators and keys changed at random moments, drained order compared"),
 "C11": (MODEL + " (ArrayDeque)", "all element types, wrap-around and growth at every offset"),
 "C12": (MODEL + " (one ArrayDeque per list)", "all element types, iterators in both directions, reused iterators, odd list ids"),
 "C13": ("runtime monitoring: heap-graph measurement (array slots reachable) during long churn histories", "bound: 32 x (peak content / load factor + initial capacity) + 512 slots; entries handed out compared with the peak exactly"),
 "C14": (MODEL + " (ArrayList)", "all element types, ensureSize and clear in between"),
 "C15": (MODEL + " (cell map)", "all element types, chunk sizes and initial sizes, sparse and dense indexes, refused indexes"),
 "C16": (MODEL + " (cell map)", "all element types, chunk sizes, field counts, refused rows and fields"),
 "C17": (MODEL + " (set of pairs)", "one-to-many and many-to-many, removal by key, entry and reservation"),
 "C18": (MODEL + " (pairs by side)", "every navigation form from both sides after changes, unknown keys included"),
 "C19": ("runtime monitoring: tagged pairs, recorded comparator calls and a conservation oracle over adversarial sorts", "all 90 type pairs, structured and adversarial inputs (built against the running sort), failing and inconsistent comparators, small stacks"),
 "C20": ("runtime monitoring: results and arguments compared with an oracle of java.util.Arrays", "all array classes and operations, component types, ranges and boundary lengths"),
 "C21": ("runtime monitoring: order axioms, predicates and equality evaluated on generated and exhaustive value sets", "all pairs and triples of byte/boolean samples, special values of every type; oracle: JDK comparisons and BigInteger/BigDecimal"),
 "C22": ("runtime monitoring: byte-level monitor of encoders against ByteBuffer", "both byte orders, every position incl. array ends, exhaustive for 1 and 2 byte types"),
 "C23": ("runtime monitoring: conversions compared with the JDK's", "every argument class and null, special values, exhaustive dates of years 0-9999 in the thorough tier and all seconds of the day"),
 "C24": ("runtime monitoring: exhaustive and sampled comparison with arithmetic oracles", "exhaustive byte pairs and (thorough) short pairs, boundary and sampled ints"),
 "C25": ("runtime monitoring: recorded concurrent call histories with injected scheduling points, checked offline for uniqueness and real-time order", "several threads, scripted and real clocks, instrumented bytecode with scheduling points before every access"),
 "C26": ("runtime monitoring with fault injection: scripted clocks, recorded histories checked for duplicates and order", "clocks that jump back, stall, fail while being read and recover, sequentially and concurrently"),
 "C27": ("runtime monitoring: ids decoded and compared with the recorded clock readings", "every node id, sequence rollovers, epochs and clocks at the limits"),
 "C28": ("runtime monitoring: one model per instance under interleaved, nested and multi-threaded use with injected scheduling points", "instances of all kinds in turns, inside each other's callbacks, on threads, and concurrent readers of one instance"),
 "C29": ("runtime monitoring: object-graph walk (reachability) compared with the live objects of the model", "a new object per argument; graph searched after every few calls"),
 "C30": ("runtime monitoring: boundary requests under a hang watchdog, content compared afterwards", "sizes, indexes and keys over the int range, structures filled to their largest capacity; memory exhaustion is set aside"),
 "C31": ("runtime monitoring: lock-step comparison of a cleared instance with a new one", "cleared at random moments, continued call by call together with a twin"),
 "C32": ("runtime monitoring with fault injection: failing arguments and callbacks, complete state comparison afterwards", "every refused call kind and callbacks failing at a chosen invocation"),
 "C33": (MODEL + " of the slots without a live element", "defaults observed at released, cleared and never-used entries, changed at every allowed moment"),
 "C34": ("runtime monitoring: the library is run as a module and every public member linked and every kind of instance driven, against the models, from another module", "all public classes and members, 3000 groups of instances of all kinds"),
 "C35": ("runtime monitoring: the library's classes are instrumented to count calls, branches, array accesses and elements copied, and the count per operation at growing sizes is compared with that at size 64", "sizes 64 to 20000 (some to a million, thorough to 100000), ordinary key shapes"),
 "C36": ("runtime monitoring: the library's classes are instrumented to count the objects and arrays they create, over repeated cycles of every operation; the objects reachable from full instances are counted", "every class and every primitive function, sizes to 1000, cycles of all operations; objects made inside JDK calls count only for well-known ones"),
 "C37": ("runtime monitoring: an application composed of all kinds of collections by their entries is compared, step by step, with plain JDK maps", "8000 applications of 300 steps (thorough 400000) over all key and value types"),
}
checks = []
for id, (tech, note) in sorted(N.items()):
    checks.append(dict(property=id, quick_cmd="./run " + id, thorough_cmd="VERIF_TIER=thorough ./run " + id,
        technique=tech, level="exploration",
        level_note=note + ". Held on the executions observed; trusts the model in harness/vf and the JDK."))
print(json.dumps(dict(version=1, setup_cmd="./run --build", checks=checks, not_applicable=[],
    notes="No hooks in /repo: everything is observed through the public API, recorded callbacks, bytecode"
          " instrumentation made at load time (harness/vf/Yields.java) and reflection (harness/vf/Walk.java)."),
    indent=1))
