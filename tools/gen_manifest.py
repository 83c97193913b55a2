"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from mp import checks  # noqa
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
MODEL = ("The real templates of /repo are instantiated and run under "
         "ASan+UBSan; each logged outcome is judged by a reference model "
         "written from the documentation. ")
NOTE = {
 "*": ("Exploration: no violation on the workload reported in the evidence "
       "file (thousands of distinct executions per run, seeded by VERIF_SEED)."
       " Trusts g++ 13 / clang 18, Boost.MPL, the reification layer "
       "(cpp/reify.hpp) and the reference model; says nothing about inputs "
       "that were not generated."),
}
TECH = {
 "C01": "runtime monitor: spies and position probes in random parsers, event log judged by a conservation oracle; ASan+UBSan",
 "C02": "runtime monitor: full 256-character sweeps of real parsers and predicates against an oracle table; ASan+UBSan",
 "C03": "runtime monitor: event log of generated sequencing parsers against a reference model; ASan+UBSan",
 "C04": "runtime monitor: event log of generated choice parsers against a reference model; ASan+UBSan",
 "C05": "runtime monitor: event log of generated folds over free terms against a reference model; ASan+UBSan",
 "C06": "runtime monitor: event log of generated reject-incomplete folds against a reference model; ASan+UBSan",
 "C07": "runtime monitor: event log of generated transformer stacks against a reference model; ASan+UBSan",
 "C08": "runtime monitor: number workload (boundaries, random, every digit) against exact arithmetic; ASan+UBSan",
 "C09": "runtime monitor: random position histories and all comparison pairs against a total-order oracle; ASan+UBSan",
 "C10": "runtime monitor: random operation histories on string against a list oracle, c_str under ASan+UBSan",
 "C11": "runtime monitor: literals of swept lengths, contents and limits against the bytes written; over-limit compile observation; ASan+UBSan",
 "C12": "runtime monitor: random EBNF grammars and texts against an independent EBNF interpreter; ASan+UBSan",
 "C13": "runtime monitor: process-level observation of programs and compiler diagnostics against the reference model",
 "C14": "runtime monitor: run-time texts of error values against documented texts; ASan+UBSan",
 "C15": "runtime monitor: differential execution of the same program over configurations, header orders and translation units; ASan+UBSan",
 "C17": "runtime monitor: generated recursive parser systems against a reference model, ill-formed traps in unreached places; ASan+UBSan",
 "C18": "runtime monitor: the generator run with swept settings, programs with the generated headers observed against the literals; ASan+UBSan",
 "C19": "runtime monitor: evaluated parsers against a reference model, identity of evaluated values; ASan+UBSan",
 "C16": "runtime monitor: lazy/curried spellings of each metafunction against the eager value, laziness traps; ASan+UBSan",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --selftest",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: the monitors use the public interface only. "
          "Seven fix commits in /repo (350f7ac, 5fe622b, 39ab644, a0d1aea, "
          "3252c33, 7f2c394, 34f5e81). See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append(dict(
            property=i, quick_cmd="python3 check.py %s" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH[i],
            level="exploration",
            level_note=NOTE.get(i, NOTE["*"])))
    else:
        m["not_applicable"].append(dict(property=i,
                                        reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
