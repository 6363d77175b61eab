#!/usr/bin/env python3
"""writes rules.json and MANIFEST.json (run by hand after editing)"""
import json
# property: (scale quick, scale thorough, technique, rule, note)
C = "reference-model monitor on the real code"
P = {
"C01": (40, 600, C+": cells read back after construction", "Cells (all sequences of small types, every depth x background x one deviating level, random) -> slice/array/default/zeroed construction -> checked, unchecked and iterator reads, every iterator adaptor law, also on an iterator already advanced. Non-trivial: some cell is not zero.", ""),
"C02": (1, 8, C+": writes against a cell-vector twin, refused accesses caught", "Cells x level x new cell through the checked and the unchecked setter, histories of 2..60 writes, accesses at 20+ levels beyond the depth per index. Non-trivial: the write changes a cell, or the level does not exist.", ""),
"C03": (20, 300, C+": to_grid_index against bitwise recomputation", "Cells x ordering; expected coordinates recomputed bit by bit. Non-trivial: some cell is not zero.", ""),
"C04": (30, 400, C+": from_grid_index against bitwise recomputation and round trip", "Every depth of every type x ordering x coordinates (zero, all ones, junk above the depth, every single bit and its complement per axis, random), over-capacity depths. Non-trivial: a coordinate has a bit below the depth.", ""),
"C05": (12, 150, C+": order of cell vectors, sorting and tree-set invariants", "All pairs of short sequences, pairs sharing each prefix length with adversarial tails, neighbours, random pairs; sorting/BTreeSet/binary-search/range on lists. Non-trivial: the two cell sequences differ.", ""),
"C06": (8, 100, "monitor comparing every construction route (equality, hash, order, hash set) against the cell model", "Per cell sequence all routes to it (constructors, overwritten noise, navigation, inversion, grid under each ordering, conversion chains, raw), plus mixed-operation histories. Non-trivial: not the root.", ""),
"C07": (4, 50, C+": prefixes", "Cells x generations (all small, boundary, wrap-around values) / parent chains / with_depth; the result is compared with a freshly built prefix and then used further. Non-trivial: depth above zero.", ""),
"C08": (1, 10, C+": appended cells and the way back", "Cells x extension lengths around the remaining capacity and around 256, list and cell-by-cell, then ancestor back. Non-trivial: the result is not the root.", ""),
"C09": (8, 100, C+": all conversion pairs and chains", "Cells x every conversion between fixed, static and dynamic of one width, results compared with freshly built ones and converted on; refusals at every depth beyond the capacity. Non-trivial: some cell is not zero.", ""),
"C10": (4, 60, C+": acceptance boundary and error payload", "Every operation that takes or produces a depth, at every depth 0..capacity+70, around 256, 65536 and wrap-around values. Non-trivial: within two levels of the capacity or beyond.", ""),
"C11": (20, 300, C+": names recomputed from cells", "Cells x naming. Non-trivial: not the root.", ""),
"C12": (10, 120, C+": reversed cells, involution, later behaviour", "Cells -> inverted (twice) -> compared with freshly built and used further. Non-trivial: not a palindrome.", ""),
"C13": (2, 30, "exhaustive monitor of cells, orderings and the number conversion", "Numbers 0..69999, around every power of two, random; all pairs of cells; all ordering x cell combinations. Non-trivial: all but equal-cell pairs.", ""),
"C14": (60, 1000, C+": bit ranges of integers against 128-bit arithmetic", "Integer width x value x every range. Non-trivial: non-empty range.", ""),
"C15": (40, 600, C+": bit ranges of byte vectors against per-bit arrays", "Vector bytes x ranges (all ranges of short vectors) x values shorter, equal and longer than the range. Non-trivial: non-empty range.", ""),
"C16": (20, 300, C+": conversions against arithmetic and std byte decoding", "All width pairs x values, byte slices of every length 0..40 in both byte orders. Non-trivial: a value with bits beyond the target or a slice not of the target's length.", ""),
"C17": (6, 60, "exhaustive monitor of the spreading helpers (random above 2^21 for the 32-bit one)", "Every input of the 8- and 16-bit helpers, all 2^21 low parts of the 32-bit helper, random high parts. Non-trivial: input not zero.", ""),
"C18": (80, 1500, C+": smallest multiple recomputed with remainder arithmetic", "All u8 pairs; other widths around multiples, powers of two and the top of the range, where the aligned value is representable. Non-trivial: the number is not a multiple already.", ""),
"C19": (20, 150, "Miri and AddressSanitizer over every operation within its contract, plus model monitors", "Random index pairs, byte vectors and integers on which every public operation is called within its contract (safe operations also with arguments they must refuse), interpreted by Miri and run with AddressSanitizer, debug assertions and overflow checks. Non-trivial: index of depth above zero / non-empty vector.", ""),
"C20": (20, 150, "digest comparison of recorded observations: checked vs release build, 32-bit x86 (native), s390x under Miri", "The same seeded workload in every configuration, each case folded into a digest of everything observable; digests compared. Non-trivial: index of depth above zero / non-empty vector.", ""),
"C21": (12, 120, "purity monitors, concurrent readers against sequential results, ThreadSanitizer", "Per index: every observation repeated in other orders, after unrelated work and from several threads at once, compared with the first; Send/Sync probed. Non-trivial: all cases.", ""),
"C22": (12, 100, C+": deep dynamic indices", "Dynamic indices of depth 65..65537 (all around powers of two and three-bit byte boundaries) through all operations. Non-trivial: all cases.", ""),
"C23": (8, 100, C+": raw bits decoded by shifting, junk bits varied", "Raw integers (each single bit, random, junk-bit variants) x depth x type. Non-trivial: raw value not zero.", ""),
"C24": (12, 200, C+": displayed text and comparisons recomputed", "Slices of 0..200 and a few of up to 4097 indices and a related slice, all namings, Display/Debug/comparisons, failing sinks. Non-trivial: not empty.", ""),
"C25": (20, 300, C+": relations between tree and grid operations", "Child/ancestor grid relations and order of interleaved coordinates under every ordering, whole grids of small depths. Non-trivial: not the root / different indices.", ""),
"C26": (4, 40, "counting allocator, size and Copy probes on the real types", "Per pair of cell sequences every operation of the bounded types with the thread's heap requests counted (none allowed), and of the dynamic types with live bytes before, held and after; histories of 40 operations; depths to 20000. Non-trivial: not the root.", ""),
"C27": (1, 8, C+": the tasks of C01-C12 and C23-C25 over harness-written integers, storages and index types", "The workloads of C01-C12, C23-C25 (thinned) over integers of 24, 40, 96, 120 and 248 bits, storages that keep cells one by one last first, and index types that implement only the required trait methods. Non-trivial: as in those properties.", ""),
"C28": (6, 150, C+": each level's bits and all other bits recomputed", "Storage-type helpers over 8 dimensions (1 to 8 axes, 6 of them harness-written) and about 40 pairs of storage integer and wider containers each (built-in integers, harness-written integers of 24 to 320 bits, byte vectors of 1 to 300 bytes): every level read, every level written with least, greatest and random cell, write histories through a harness-written storage; default trait methods of indices over 1, 2, 4, 5 and 7 axes. Non-trivial: at least one level.", ""),
}
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("/verif/properties.jsonl")}
json.dump({k: {"quick": v[0], "thorough": v[1], "rule": v[3]} for k, v in P.items()}, open("/verif/rules.json", "w"), indent=1)
GEN = ("Holds on every execution observed (counts in the evidence file), in a build with debug assertions and overflow checks and in a release build; "
       "trusts the reference model in the harness. Exhaustive only where the rule says so; other inputs are sampled.")
SP = {
"C19": "No report from Miri (small workload), AddressSanitizer (large workload) or the models on the executions observed. Miri sees a few hundred index cases per run.",
"C20": "Equal digests between profiles and with a natively run 32-bit x86 build (large workload), and with an interpreted 64-bit big-endian machine (small workload; thorough adds 32-bit big-endian and 32-bit little-endian). Values both can represent. Where 32-bit programs cannot be built or run, the 32-bit machine is interpreted.",
"C21": "No interference in the interleavings the scheduler produced (count in the evidence), no report from ThreadSanitizer on them.",
}
json.dump({
 "version": 1,
 "setup_cmd": "python3 setup.py",
 "checks": [{"property": k, "quick_cmd": "python3 check.py " + k + " --tier quick", "thorough_cmd": "python3 check.py " + k + " --tier thorough",
   "evidence_file": "evidence/%s.json" % k, "technique": v[2], "level": "exploration", "level_note": SP.get(k, GEN)} for k, v in P.items()],
 "not_applicable": [],
 "notes": "No hooks: everything the properties speak about is public. /repo carries only fix: commits (known-findings.txt).",
}, open("/verif/MANIFEST.json", "w"), indent=1)
