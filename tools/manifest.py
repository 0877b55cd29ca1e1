#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
TECH = {
 "C01": "property-based testing: generated images encoded by the real encoder, decoded by an independent LJPEG decoder and the project's own",
 "C02": "property-based testing: streams from an independent LJPEG encoder with generated tables/layouts, decoded by the real decoder and compared sample by sample",
 "C03": "property-based testing: generated raw images through DngWriter, read back by an independent DNG reader and by the project's decoder (round trip)",
 "C04": "property-based testing: generated rendering metadata through DngWriter, judged per photosite by an independent DNG reader and the project's decoder (round trip)",
 "C05": "property-based testing: generated EXIF/GPS sources through metadata extraction and DNG writing, compared tag by tag with an independent parser (round trip)",
 "C06": "property-based testing and fault injection: generated originals embedded/extracted, with generated damage to the stored block",
 "C07": "property-based testing: generated directory trees, writer against an independent strict parser and reader against an independent builder",
 "C08": "property-based testing: foreign DNG layouts from an independent builder, decoded by the project and compared with the stored samples",
 "C09": "property-based testing: independent packers for each bit layout, unpacked by the real code (inverse oracle), with truncation faults",
 "C10": "property-based testing: independent encoders / reference decoders for each vendor codec, differential against the real decoders",
 "C11": "structure-aware mutation fuzzing of generated files for every container, with crash/hang/memory monitoring in a child process",
 "C12": "property-based testing: generated raw images developed step by step against a scalar reference model",
 "C13": "property-based testing: generated mosaics and regions against reference interpolation and metamorphic relations",
 "C14": "property-based testing: generated matrices, colours and samples against f64 reference mathematics",
 "C15": "property-based testing: generated sizes, rectangles and patterns against coordinate-wise definitions and inverse pairs",
 "C16": "stateful property-based testing of the real CLI: generated directory trees and options against a model of the expected tree",
 "C17": "stateful property-based testing of the real CLI: generated DNGs (hostile names, damage) and destinations against a model of the expected tree",
 "C18": "property-based testing of the real CLI: generated component files and options against a model of the outputs",
 "C19": "model-based fuzzing of command sequences over a real socket, with a sentinel tree outside the root as the oracle",
 "C20": "model-based testing of generated command histories over real sockets against an in-memory file store",
 "C21": "property-based testing: generated inputs decoded, developed and converted under different thread counts and orders, outputs compared (metamorphic)",
 "C22": "property-based testing: whole synthetic vendor files from an independent writer (17 containers and files of bare samples), decoded and compared with what was recorded",
 "C23": "property-based testing: generated pictures embedded in synthetic raw and DNG files, decoder previews and the pictures of converted files compared with them",
 "C24": "property-based testing of the real CLI: generated vendor, DNG and damaged files analyzed with every output option, standard output compared with what was put into the file",
}
NOTE = "exploration by generated inputs: evidence for the cases run, not a proof; counts and class distribution are in the evidence file"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/src/bin/{i.lower()}.rs"):
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick /verif/check {i}", "thorough_cmd": f"VERIF_TIER=thorough /verif/check {i}",
            "technique": TECH[i], "level": "exploration", "level_note": NOTE, "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/verif/setup.sh",
     "hooks": {"guard": "none needed", "enable": "none: the checks use public items, whole files, the CLI and sockets only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds from /repo's working tree (content hash decides). VERIF_SEED selects another exploration; ./check ID --replay FILE re-runs one case."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
