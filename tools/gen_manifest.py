#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
checks_src = open(f"{here}/harness/src/checks/mod.rs").read()
have = re.findall(r'\("(C\d\d)"', checks_src)

T = {
 "C01": ("offline checker: independent ZIP parser over recorded archives of generated entry sets", "exploration"),
 "C02": ("offline checker: strict ZIP64 structure parser plus forward-only stream parser over recorded archives", "exploration"),
 "C03": ("online size monitor over builder/reader histories, byte counting, model of entry-map edits", "exploration"),
 "C04": ("online byte monitor against the reference archive over random histories, exhaustive position grids on small archives", "exploration"),
 "C05": ("trace comparison of delivered streams under scheduled pending results, short reads and buffer sizes; enumerated pending masks", "exploration"),
 "C06": ("online position monitor (model of position) over histories with faults, pending polls and impossible seeks", "exploration"),
 "C07": ("online checksum monitor over histories, offline CRC oracle, rebuild from cached checksums", "exploration"),
 "C08": ("online monitor of wrong declarations: prefix/error oracle over schedules, retries and seeks", "exploration"),
 "C09": ("fault injection at every source operation with an error/recovery monitor", "fault_enumeration"),
 "C10": ("monitored procedural archives beyond the 32/16 bit limits: parser over a seeking reader, effort counters on sources", "exploration"),
 "C11": ("reference model of builder admission run beside the real builder, state comparison after each call", "exploration"),
 "C12": ("model of the metadata setters against attributes parsed from the archive", "exploration"),
 "C13": ("independent calendar model against timestamps parsed from the archive, panic monitor", "exploration"),
 "C14": ("event log of instrumented sources checked against a specification of necessary accesses", "exploration"),
 "C15": ("allocation monitor (counting global allocator) while driving large procedural archives", "exploration"),
 "C16": ("per-handle models over clone/take histories, clone or take at every poll", "exploration"),
 "C17": ("online monitor of wakers, polls and source protocol with manual polling", "exploration"),
 "C18": ("generated directory trees archived by the real code, compared with an independent lstat walk", "exploration"),
 "C19": ("file modifications injected between polls of real file archives; error-or-consistent oracle", "exploration"),
 "C20": ("HTTP responses of the real responder compared with an independent model of range semantics, schedules injected", "exploration"),
 "C21": ("hand-back channel and body monitors under aborts, source faults and wrong declarations", "exploration"),
 "C22": ("online block monitor of byte streams against the reference archive over histories", "exploration"),
 "C23": ("panic/overflow/hang monitors under hostile API use; ThreadSanitizer, AddressSanitizer and Miri runs", "exploration"),
}
NOTE = ("Decided by monitors watching generated executions of the real code; holds for the executions observed "
        "(counts, distinct cases and samples in the evidence file), not for all. Cases are a pure function of VERIF_SEED.")
checks = []
for p in props:
    if p in have:
        t, l = T[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "technique": "runtime monitoring: " + t, "level": l, "level_note": NOTE})
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in have]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none (no hooks were needed: the monitors observe the crate through its public API and instrumented sources)",
               "enable": "nothing to enable; the checks build /repo with its own cargo features", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
