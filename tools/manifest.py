#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table of checks below"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import check
T = "property-based testing: "
NOTE = {
 "C01": (T + "random datasets written by an independent writer, round-trip against the model", "exploration", ""),
 "C02": (T + "random physical layouts, model and metamorphic (two layouts of one dataset) oracles", "exploration", ""),
 "C03": (T + "generated RLE command streams against a reference decoder, all commands enumerated at the row's borders", "exploration", ""),
 "C04": (T + "generated RDC item streams against a reference decoder, all items enumerated at the row's borders", "exploration", "One recorded defect (known_findings.json) is compared exactly with its recorded outcome."),
 "C05": (T + "random headers round-trip, all encoding codes enumerated", "exploration", "One recorded defect (known_findings.json) is compared exactly with its recorded outcome."),
 "C06": (T + "random schemas and text pools round-trip against the model", "exploration", ""),
 "C07": (T + "generated numeric values against an independent calendar oracle, every calendar day enumerated", "exploration", ""),
 "C08": (T + "stateful, random call histories against a cursor model", "exploration", ""),
 "C09": (T + "random filters and schemas against a reference selection, values compared cell by cell", "exploration", ""),
 "C10": (T + "stateful, counting and throwing sinks, sources and filters against the notification protocol", "fault_enumeration", ""),
 "C11": (T + "files cut at generated offsets against the prefix bounds given by the model", "fault_enumeration", ""),
 "C12": (T + "fault-injecting and monitoring data sources against the model", "fault_enumeration", ""),
 "C13": ("mutation-based and coverage-guided fuzzing (libFuzzer) under sanitizers, differential between two memory fills", "exploration", ""),
 "C14": (T + "round-trip of generated datasets through the CSV sinks and an independent RFC 4180 parser", "exploration", ""),
 "C15": (T + "generated datasets, text output against a reference formatter", "exploration", ""),
 "C16": (T + "generated command lines and files run through the built program, against the model", "exploration", ""),
 "C17": (T + "generated datasets and call histories through the Python extension against the model", "exploration", ""),
 "C18": (T + "generated datasets and call histories through the R package against the model", "exploration", ""),
 "C19": (T + "stateful, interleaved and threaded readers against independent cursor models, ThreadSanitizer", "exploration", "Schedules are those the operating system and ThreadSanitizer produce, not enumerated."),
 "C20": (T + "every allocation of generated histories made to fail, allocation balance and peak memory as oracles", "fault_enumeration", ""),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        t, lv, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": lv,
                       "level_note": "Holds on every generated case of the run (counts in the evidence); no claim beyond them. Trusts the independent writer, models and oracles in /verif/harness." + (" " + n if n else "")})
        assert lv == check.PROPS[i].get("level", "exploration"), i
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check uses public interfaces of /repo, built from its working tree into /verif/build."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
