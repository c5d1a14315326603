#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
T = {
 "C02": ("property-based round-trip testing of builder-generated packets", "Round trip, size, Remaining Length and vectored/contiguous agreement on every generated packet, both identifier widths, all small-string configurations, and the largest packets the format allows."),
 "C03": ("differential property-based testing against an independent reference codec", "Byte-for-byte agreement with a codec written from the OASIS texts; trusts that codec (spec.rs)."),
 "C04": ("exhaustive short inputs plus structure-aware fuzzing of every parser with a canonicity oracle", "No panic and canonical acceptance on every generated byte string; memory safety rests on Rust's checks plus UTF-8 validity of exposed strings."),
 "C18": ("exhaustive enumeration of the placement table plus random property lists against an independent table", "The finite table is enumerated completely on both the builder and the parser path."),
 "C20": ("exhaustive short operation sequences plus stateful property-based testing against a set model", "All sequences of 6 operations on 3 values, random long sequences on eight integer types, on full and nearly full ranges; representation checked through public interval counts and draining."),
}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_conn.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                   "technique": T[k][0], "level": "exploration", "level_note": T[k][1]})
allp = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
na = [{"property": p, "reason": "check under construction"} for p in allp if p not in T]
json.dump({"version": 1, "setup_cmd": "./check.sh setup",
           "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
