#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MEM = ("Seeded random search, no proof: random grammars (real combinators behind boxed parsers), inputs and delivery schedules; the buffer "
       "moves and its old storage is overwritten between calls. Oracles: the same real parser on the whole input and an independent reference "
       "model of the combinators. Trusts the reference model and the generator's rule that repeated elements consume input.")
DEC = ("Seeded random search, no proof: the real decode macros, Decoder and BufReader over a scripted byte source (short reads, Pending, spurious "
       "wake-ups, errors, end of input); futures are polled by hand, so no runtime decides anything. Oracles: one-shot parse by the real parser, "
       "the reference model and a byte ledger of the source. Trusts the scripted source and the reference model.")
NOTES = {
 "C12": "Seeded random search, no proof: the real BufReader (std, tokio 0.2/0.3/1) under random operation histories over a scripted source and sink; the oracle is a byte ledger. Trusts the scripted source.",
 "C14": DEC + " FramedRead of tokio-util is real code too. One known finding (end of input inside a frame) is listed and not reported.",
 "C15": MEM + " Positions come from an independent line/column model. One known finding (position of a resumed conversion error) is listed.",
 "C17": "Seeded random search, no proof: buffered::Stream of random size over read-once sources against an in-memory slice with unlimited look-back. Trusts that slice stream model.",
 "C18": "Seeded random search, no proof: read::Stream over a reader that is interrupted or fails, against a slice that rejects at the same byte. Two known findings are listed.",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
NA = {}
for p in props:
    i = p["id"]
    if i in NA:
        continue
    note = NOTES.get(i) or (DEC if i in ("C09", "C10", "C11", "C13", "C16") else MEM)
    checks.append(dict(property=i, quick_cmd="./run.sh check %s quick" % i, thorough_cmd="./run.sh check %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection: seeded search over grammars, schedules and faults, checked against a reference model",
        level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./run.sh build", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: every seam the simulation needs is public (byte sources are arguments, futures are polled by hand, the caller owns the buffer). See DESIGN.md.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
