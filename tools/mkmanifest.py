#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "TLA+ specification checked by TLC; its behaviours replayed on the code, and recorded runs of the code judged by it"
TRUST = ("Exhaustive within the stated bounds for the model and for the code on the same inputs; seeded random beyond them. "
         "Trusts TLC, the executor's projection of the API's answers, and that the machine of the specification means what the property says (its independent definitions are checked against it as invariants). ")
NOTES = {
 "P01": "Every sequence of up to 5 (thorough 6) conditional, definition and text lines; random programs beyond.",
 "P02": "Every 3 (thorough 4) definitions from a pool of 16 with each of 10 uses; random programs beyond.",
 "P03": "Every 3-line root, 2-line and 1-line included files over pools of operations (thorough: 4-line root); random file trees beyond.",
 "P04": "Every text of up to 5 (thorough 6) characters over 8 delicate ones; random programs with comments, strings, non-ASCII text beyond.",
 "B01": "Every history of up to 3 operations from a pool of 22, then written three ways; random histories with short reads and writes of the medium, arbitrary bytes near archives, files around the parallel-hash threshold.",
 "B02": "As B01, with second histories that end in the same content; in the specification every cut and extension of every archive is rejected.",
 "S01": "Every combination of signing key, checking key, archive alteration, version and signature alteration over small pools (hashes and RSA symbolic); random archives and alterations beyond, with real 512 to 1024 bit keys.",
 "S02": "The same family with keys and signatures passed through their files; random keys, labels, truncations and damaged files.",
 "C01": "Every tree of up to three classes with up to two entries each over a pool of entry kinds, every array and value shape over small pools (thorough: larger); random trees, deep and large, with bodies and strings of delicate sizes beyond. Bytes are decoded by the specification.",
 "C02": "Every tree of declarations over small pools of names and cases; random trees beyond.",
 "C03": "Every entry, array and value text assembled from small pools of pieces, well-formed and with one malformation; random texts and damage beyond.",
 "L01": "Every pair of lints over minimum severity, default, enablement and every override; groups and batches; random sets of lints and overrides written as project files beyond.",
 "J01": "Every extends graph of up to four presets with options over a small pool, walk and independent definition by the chain; random projects beyond.",
 "J02": "Every history of up to 4 (thorough 5) edits, requests and invalidations over a pool of configurations and version files; random ones beyond, with and without a git repository.",
 "J03": "Every choice of up to two (thorough three) options and of places for lints and launch presets; random project files and malformed ones beyond.",
 "J04": "Every text of up to 5 pieces over digits, dots, dashes and limits; every pair and triple from a pool; random texts beyond.",
 "J05": "Every text of up to 5 pieces over a pool of delicate pieces; random texts beyond.",
 "W01": "Every arrangement of up to 2 (thorough 3) files of a pool of 7 with 6 sets of prefixes and 2 stacks of layers, 32 requests each; every history of up to 2 (thorough 3) writes and reads over 3 stacks; random workspaces beyond (up to 4 layers, nested prefixes, relative paths, mixed case). Resolution in the A3 P drive is left out (it needs an installed game).",
 "W02": "Every arrangement of up to 3 (thorough 4) directories of 6 with 5 kinds of prefix file each; random projects with configurations beyond.",
 "T01": "Every table of a few keys, notes and nested containers (thorough: more shapes, 2-step histories of sorting, writing, reading); random tables with noise in their layout, escapes, CDATA, comments, errors; five or fewer to a lint run.",
 "T02": "Every table of a few keys and nested containers; random tables of all 24 languages beyond.",
 "F01": "Every stream of up to 3 instructions in every way of writing them (thorough: more field boundaries), altered, cut and given other rooms; random instruction streams; data up to 110 kB with repetitions at all field boundaries. Buffers end at (or begin after) unmapped pages.",
 "F02": "Every model of up to 3 (thorough 4) elements, all truncations of it in the model, altered files against the code; random models up to 3 levels of detail beyond; writers that fail after any number of bytes.",
 "F03": "Every container of up to 2 mip maps and 1 (thorough 2) tags in every layout; random containers, damaged ones; pictures of random blocks in the three formats up to 16x16; random images up to 13x13 and sizes at the limits of the format.",
 "F04": "Two models of up to 3 references to a pool of 10 paths over 8 workspaces, all interleavings of the two checks in the model; each replayed in sequence or in two threads; up to 6 random models beyond. The A3 P drive is left out.",
 "E01": "Every history of up to 3 steps over a project of two addons, with about 30 edits that put something in the way of packing; random projects (up to 3 addons, all kinds of files) with 3 commands each beyond. Binarization (needs an installed tool) and git hashes are left out.",
 "E02": "Every choice of authority, folder, prefix, version, signing, archiving, optional mod folders and signature version, released with every option (thorough: twice); random projects beyond.",
 "E03": "Every history of 3 (thorough 4) steps over 8 commands and 7 edits; random projects and histories beyond.",
 "E04": "Every history of 3 steps over 4 commands and 23 scripts in the 4 phases; random scripts in random projects beyond.",
 "P05": "Every 3-line root with every 2-line include over pools of pragmas and uses (thorough: 4-line root); random programs beyond.",
}
TODO = "not built yet"

props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTES[i] + " " + TRUST,
        })
    else:
        na.append({"property": i, "reason": TODO})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo were needed: the executors (harness/, harness-sqf/) use the crates' public API and, for the command line, the hemtt crate's entry point."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
