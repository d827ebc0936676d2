#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HOOKS = ["6877b6f"]
C = {
"C01": ("model-based random operation histories against a reference model of the directory and file contents", "exploration",
        "random histories of up to 30 operations on generated start images of all eight geometries, shrunk on failure; not exhaustive"),
"C02": ("random histories; invariant recomputed from the raw image bytes by an independent parser after every step", "exploration",
        "ownership, map and counts recomputed from the raw bytes after every operation of generated histories"),
"C03": ("random histories; differential: the running session against a fresh session on the image after every step", "exploration",
        "every operation of a generated history is followed by a comparison of two sessions"),
"C04": ("random histories biased to failing requests; expected error and unchanged state from the reference model", "exploration",
        "full disks, full directories and refused requests are generated on purpose"),
"C05": ("generated prior contents, names and ids; independent image of a blank disk as oracle", "exploration",
        "random contents and histories before formatting, all geometries"),
"C06": ("exhaustive enumeration of all locations plus generated reads and writes against an offset model; generated sizes and names", "exploration",
        "all 65536 location values for all eight geometries are enumerated; contents, sizes and names are random"),
"C07": ("generated availability maps and allocate/free sequences against an independent encoder of the drives' formats", "exploration",
        "random maps and sequences on all disk types"),
"C08": ("generated availability maps; differential against an independent implementation of the documented allocation algorithms", "exploration",
        "random fragmented maps, all start locations per map; whole files laid out and compared block by block"),
"C09": ("generated directory slots with arbitrary bytes; independent decoder and byte-exact frame condition for rewrites", "exploration",
        "random 30-byte entries in chains of any length; every attribute byte enumerated"),
"C10": ("generated images with injected inconsistencies; independent validator as oracle", "exploration",
        "combinations of up to six injected inconsistencies, multiset comparison of the reports"),
"C11": ("structure-aware and random fuzzing of images; panic, step-budget and memory oracle", "exploration",
        "random, mutated and structurally damaged images with all operations; termination by a budget on sector accesses"),
"C12": ("random request sequences on read-only handles; byte-identity and view-identity oracle", "exploration",
        "random sequences of read and write requests, all image types"),
"C13": ("generated relative files and injected side-sector inconsistencies; independent reader as oracle", "exploration",
        "all record lengths, up to six side sectors, single inconsistencies"),
"C14": ("generated GEOS files and info blocks; independent reader and byte round trip", "exploration",
        "random record structures, info blocks and metadata"),
"C15": ("generated GEOS files; independent decoder of the Convert format, random buffer sizes", "exploration",
        "streams are decoded back and compared with the generated file"),
"C16": ("metamorphic: random divisions into reads, writes, flushes and re-opens against doing it at once", "exploration",
        "random divisions biased to block boundaries"),
"C17": ("random interleavings of open readers, writers and directory operations against a reference model", "exploration",
        "random schedules of up to 40 steps over several handles"),
"C18": ("exhaustive enumeration of all codes and all Unicode characters, random strings; independent character table", "exploration",
        "single characters exhaustive, strings and padding random"),
"C19": ("generated sprites; independent renderer and inverse", "exploration",
        "every single pixel plus random bitmaps"),
"C20": ("generated header blocks and field changes; byte-exact model of the header", "exploration",
        "random headers, random changes, all disk types"),
"C21": ("generated images and files; independent dumper, faulty writers", "exploration",
        "random contents; output written in pieces and cut off"),
"C22": ("random cdisk command scripts run as real processes; differential against the library and an independent model of the raw image", "exploration",
        "scripts of up to eight commands in a scratch directory; texts computed from the raw bytes"),
"C23": ("generated chain shapes, good and bad; independent chain walker", "exploration",
        "random placements and all kinds of bad ends"),
"C24": ("random histories with a simulated stop before every sector write of the last operations; recovery invariant on each snapshot", "fault_enumeration",
        "all stop points of each generated operation are enumerated; histories are random"),
"C25": ("metamorphic: generated pairs of images, one written over parts of the other, initialize() against a fresh open; handles held over the change; unformatted disks", "exploration",
        "random images, parts and follow-up operations"),
"C26": ("random histories with a byte-by-byte frame condition on the image before and after every operation", "exploration",
        "histories up to 14 operations, plus crowded disks and refused requests"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "--cfg cbm_verif", "enable": "harness/.cargo/config.toml passes --cfg cbm_verif when the harness builds /repo's crate as a path dependency", "source_commits": HOOKS},
 "checks": [],
 "not_applicable": [],
 "notes": "Every check rebuilds the library and cdisk from /repo's working tree (cargo, offline), runs the property's corpus of once-failing cases, then the generated cases. VERIF_SEED and VERIF_TIER are honoured; replay a failure with `bash run.sh replay FILE`.",
}
for p in props:
    t, level, note = C[p]
    m["checks"].append({"property": p, "quick_cmd": "bash run.sh check " + p, "thorough_cmd": "VERIF_TIER=thorough bash run.sh check " + p,
                        "technique": "property-based testing: " + t, "level": level, "level_note": note})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
