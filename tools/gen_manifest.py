#!/usr/bin/env python3
"""Writes MANIFEST.json. A property without a check is listed under not_applicable."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
T = {
 "B01": ("stateful model-based property testing (operation histories vs. a plain list of points)", "Histories of up to a few dozen operations over random layouts and all buffer kinds, compared with a reference list after every step; in builds with and without debug/overflow assertions."),
 "B02": ("differential property testing between buffer kinds in lockstep", "Every append route and pair of buffer/slice kinds, and lockstep histories on interleaved and columnar buffers, compared with a reference list."),
 "B03": ("stateful model-based property testing of nested slices, plus near-miss refusal search", "Nested slices of all buffer kinds through all accessors against a reference list window; out-of-range accesses must be refused and leave memory outside of the slice alone."),
 "B04": ("model-based property testing of typed views and iterator step sequences", "Nine derived point types; iterators driven by random next/nth/skip/step_by/take/fold steps against a list cursor; writes and sorting compared with the reference list."),
 "B05": ("model-based property testing of attribute views with a reference numeric cast", "All primitive types as attribute and requested type; iterators driven by random steps; all other attributes compared after every write."),
 "B06": ("stateful model-based property testing of the attribute pusher", "Random push orders, counts, repetitions and abandoned pushes against a reference table."),
 "B07": ("property testing against a reference filter/collect, with lying size hints", "Random predicates, destinations and iterators with wrong size hints against Vec filter/collect."),
 "B08": ("near-miss generation: every access that does not fit must be refused (panic/Err) and leave data unchanged", "Off-by-one to overflowing indices and ranges, same-name-other-type attributes, near-miss layouts, mismatched appends; both build profiles."),
 "C01": ("property testing of all type pairs against a reference numeric cast, with canaries around unaligned memory", "All 16x16 (and byte-array/custom) type pairs; values biased towards type extremes, NaN, infinities; unaligned source and target with canary bytes."),
 "C02": ("model-based property testing of layout conversion over random layout pairs", "Random layout pairs, all buffer kinds on both sides, against a per-attribute reference conversion."),
 "C03": ("model-based property testing of range conversion and custom mapping sequences", "Random mapping sequences with transformations, ranges in and out of bounds, all buffer kinds, against a per-attribute reference."),
 "C04": ("property testing against the reference conversion and differentially against the buffer converter", "Random layout pairs and point bytes; unmapped target bytes must stay."),
 "U01": ("stateful model-based property testing of untyped points", "Random get/set histories, typed and raw, including near-miss accesses, against a reference point."),
 "L01": ("stateful property testing of layout construction against a reference C layout algorithm", "Random sequences of attribute additions with and without packing over explicit starting members, against an independent implementation of the repr(C)/repr(packed(N)) rules."),
 "L02": ("program generation: random struct definitions compiled with the derive macro, layout compared with the compiler's own offsets", "Each run generates some hundred struct definitions (and definitions that must be rejected), compiles them and compares the derived layout with size_of/offset_of."),
 "L03": ("property testing of layout queries and serde round trips against a reference list of members", "Random layouts and near-miss queries against a list of members; JSON round trip."),
 "M01": ("property testing against bit-by-bit/arithmetic definitions", "Boundary-biased integers of every width, against the defining equations."),
 "M02": ("property testing of box laws against brute-force definitions", "Boxes over a small integer grid (so that touching, nested and degenerate configurations are common) and random dyadic floats."),
 "A01": ("property testing against brute-force minimum/maximum", "Random layouts, buffer kinds and values against a fold over the points."),
 "A02": ("property testing against an exact reference implementation on dyadic coordinates", "Random clouds with dyadic coordinates (all arithmetic exact) and random attribute sets against an independent reference implementation."),
 "A03": ("property testing with an exact integer-geometry validity predicate", "Random integer-grid point sets, including degenerate ones, checked with exact integer arithmetic."),
 "A04": ("property testing with a validity predicate over the returned model and inliers, and forced-model clouds", "Random integer-grid clouds, thresholds and iteration counts; the returned model is read from its Debug text and inliers are recomputed."),
 "A05": ("property testing against a reference covariance/Jacobi eigen solver and metamorphic relations", "Random clouds with well separated eigenvalues, any orientation; planes in general position; brute-force nearest neighbours."),
 "I01": ("property testing against a reference text format, writer/reader round trips and fault injection", "Random formats, layouts, buffer kinds and texts (delimiters, line ends, number notations); malformed lines; destinations that accept few bytes at a time or run full. pasture-io is built from /repo on stand-ins for the crates missing offline."),
 "I02": ("property testing against an independent encoder and decoder of the format, with fault injection", "Random layouts, buffers and histories of write/flush/set_rtc_center/read/seek; files built by the check itself; corrupted and cut files; short-writing and full destinations; random tables and tile sets."),
 "I03": ("property testing against an independent encoder and decoder of the format, with fault injection", "Random headers (all point formats, VLRs, EVLRs, extra bytes, padding), layouts, buffers and histories of write/flush/read/seek; files built and taken apart by the check itself; corrupted and cut files; short-writing and full destinations. pasture-io is built from /repo on stand-ins for the las and laz crates, which are missing offline."),
 "I04": ("property testing against an independent encoding of the LAS 1.4 VLRs, formats and layouts, and round trips", "Random headers, extra bytes entries, VLR bytes (with junk in reserved fields, cut, too long, of other kinds), layouts, formats, points and paths. pasture-io is built from /repo on stand-ins for the las and laz crates."),
 "T01": ("property testing of the built tool as a process against independently written files", "Random LAS, LAZ and 3D Tiles files of every format with 0 to 40 points, and with one to two million points (more than one chunk); cut and unknown files, wrong arguments. The tool is built from /repo on the stand-ins for the las and laz crates."),
 "A06": ("differential property testing against a direct PROJ call and round trips", "Random clouds, layouts and pairs of reference systems."),
}
CLAIMED = sorted(l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip())
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [],
     "notes": "All checks are property-based tests of the harness in /verif/harness, which check.sh rebuilds from /repo's working tree. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough", "technique": t, "level": "exploration",
            "level_note": n + " Search, not proof: it trusts the reference model, the generators' reach and the toolchain."})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check for this property is not built yet."})
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
