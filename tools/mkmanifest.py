#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
claimed = {
 "P01": ("seeded client histories against an executable reference table", "sampled histories; trusts the reference table in sim/hist.go and Go's runtime"),
 "P02": ("invalid calls injected into seeded histories of several clients; every table, set and nested table compared before and after", "sampled histories; the list of invalid calls is the world's own"),
 "P03": ("seeded rearrangement histories against a reference table, cells read by name after every step", "sampled histories; trusts the reference model"),
 "P04": ("seeded registry histories of several clients against a reference registry", "sampled histories; trusts the reference registry"),
 "P05": ("clients that save, crash with an empty memory and load again over a simulated disk with interrupted and short transfers; loaded tables compared with what was saved", "sampled histories; the disk's system calls are simulated over real scratch files"),
 "P06": ("the same clients over a disk that fails: errors, full disk, short and interrupted transfers at seeded system calls; outcome compared with the bytes on the disk", "sampled fault plans at the system call boundary"),
 "P07": ("crashes during a save at seeded bytes, lost, doubled, flipped and spliced blocks, single lines replaced by invalid ones, cuts between rows, then loading", "sampled damage; the list of invalid lines is the world's own"),
 "P08": ("clients that edit tables and exchange them as JSON over a simulated network (lost, duplicated, reordered messages, restarts); received tables compared with the sender's at sending", "sampled histories and schedules"),
 "P09": ("clients that edit tables and exchange them as YAML over a simulated network (lost, duplicated, reordered messages, restarts); received tables compared with the sender's at sending", "sampled histories and schedules"),
 "P10": ("clients that edit tables and exchange them as gob over a simulated network (lost, duplicated, reordered messages, restarts); received tables compared with the sender's at sending and used on side by side with a hand-made twin", "sampled histories and schedules"),
 "P11": ("messages damaged in transit (bytes, structure, parts, foreign senders) in seeded orders with good ones; an error or sound tables that can be sent on, and good messages still decode exactly", "sampled damage; the kinds of damage are the world's own"),
 "P12": ("clients on goroutines of their own, switched by a seeded scheduler at statements of the library, race detector on; every result compared with the client's solo run", "sampled schedules and scripts; switches at statement boundaries, races inside a statement by the race detector"),
 "P13": ("reader goroutines over shared tables, switched by a seeded scheduler at statements of the library, race detector on; every result compared with the reader's solo run", "sampled schedules and scripts; switches at statement boundaries, races inside a statement by the race detector"),
 "P14": ("seeded histories of clients that take snapshots and edit either side, every document compared with its own model after each step", "sampled histories; trusts the reference model"),
 "P17": ("nested structures built by seeded edits (circular ones too) and walked with failing and re-entrant visitors, against a reference graph", "sampled structures; trusts the reference graph"),
 "P15": ("seeded sort/search histories against a reference order and a linear scan", "sampled histories; trusts the reference comparison"),
 "P16": ("replicas exchanging facts over a simulated network (drop, duplicate, reorder) checked against a reference merge, convergence after heal", "sampled schedules; trusts the reference merge"),
 "P18": ("simulated random source, clock jumps and process restarts; row multiset and repeatability checked", "sampled schedules; the clock and the runtime's random source are simulated"),
 "P19": ("a simulated writer of standard input (chunks, delays, short and interrupted reads, read errors, never closing) in simulated time, callers with seeded timeouts, race detector on, against a reference of which input each call must get and when", "sampled schedules; the read system call on descriptor 0 and the clock are simulated"),
 "P20": ("replicas applying the same log with injected divergence, compared pairwise against observed contents", "sampled histories; trusts the reference comparison"),
 "P21": ("clients that edit tables and send them as CSV over a simulated network (lost, duplicated, reordered); every text received is read by an independent RFC 4180 reader and by encoding/csv and compared with the sender's table at sending", "sampled histories; trusts the reference model and the two CSV readers"),
 "P24": ("a seeded foreign writer of JSON and YAML (key order, layout, quoting, notations) between clients that edit; one odd cell or structure injected into every second message; accepted messages compared with what they say by exact arithmetic", "sampled messages and histories; the freedoms of style and the odd cells are the world's own"),
 "P23": ("a seeded foreign writer of text (layout, comments, line ends, spellings) between clients that edit, save, crash and load over a simulated disk with interrupted and short transfers; loaded tables compared with what was written", "sampled texts and histories; the freedoms of layout and spelling are the world's own"),
}
exec(open(os.path.join(here, "tools", "claims_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims_more.py")) else None
na = {
 "P22": "Source generation is a pure function of the column list, and the property is about compiling its output: no nondeterminism or fault is involved, so there is nothing to simulate.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = claimed[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": T + t, "level": "exploration", "level_note": n})
    else:
        nas.append({"property": i, "reason": na.get(i, "Not claimed yet: the simulated world for it is not built.")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks are committed in /repo: every seam (runtime random source, system calls, clock, scheduling points) goes in at build time through `go build -overlay`; see DESIGN.md.", "source_commits": []},
 "checks": checks, "not_applicable": nas,
 "notes": "KNOWN_FINDINGS.txt lists findings and fixes. `bash check.sh replay FILE` replays a violation exactly."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
