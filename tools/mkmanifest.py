#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the list below
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "abstract interpretation of the type-checked source with a hash-consed value graph; equivalence to a specification graph by structural equality or polynomial identity testing"
L = {
 'C01': (TV, "every listed element is required to reach a canonical-range obligation; shapes enumerated, values symbolic"),
 'C02': (TV, "gadgets interpreted down to gnark's builder; hint outputs are unconstrained symbols that the emitted constraints must determine"),
 'C03': (TV.replace("equivalence to", "integer interval analysis on the same graph, next to equivalence with"), "interval analysis of every unreduced intermediate against the reduction that consumes it"),
 'C04': (TV, "all three kinds of range checker and both settings of the environment variable are enumerated; widths enumerated"),
 'C05': (TV, "all operands symbolic; exponents and lengths enumerated"),
 'C06': (TV, "challenges compared with those of a specification transcript over the same symbols"),
 'C07': (TV, "histories enumerated by length and kind; states symbolic"),
 'C08': (TV, "values symbolic; tree heights, counts and oracle shapes enumerated"),
 'C09': (TV, "values symbolic; FRI shapes enumerated"),
 'C10': (TV, "values symbolic; shapes enumerated"),
 'C11': (TV, "values symbolic; parameters of every gate enumerated"),
 'C12': (TV, "identifiers enumerated from a grammar; both map orders; filter values symbolic"),
 'C13': (TV, "states symbolic; input lengths enumerated"),
 'C14': (TV, "every listed dimension is moved off its consistent value in both directions; abort must be reached in the abstract build"),
 'C15': (TV, "document contents symbolic; document shapes and faults of the library calls enumerated"),
 'C16': ("abstract interpretation with lock-set tracking of every access to shared state; identity of chips per builder", "creation orders enumerated; lock sets are checked on every access on every interpreted path"),
 'C17': ("may-alias/ownership check: the model of MulAcc overwrites its first operand, and any later read of the overwritten value is reported", "on every configuration interpreted for the other properties"),
 'C18': ("abstract interpretation with enumeration of the outcome of every fallible call before the file is created", "every single fault position"),
 'C19': (TV, "whole verifier circuit against the specification verifier; values symbolic, shapes enumerated"),
 'C20': ("abstract interpretation of every hint function on symbolic canonical inputs; its outputs compared with the values the constraints force", "inputs symbolic; all uses of hints by the gadgets"),
 'C21': ("abstract interpretation under permuted map orders and repeated builds; equality of the emitted constraint sequences; sources of non-determinism are refused", "two builds per configuration under different map orders"),
 'C22': ("abstract interpretation of the main package with the proving library replaced by a provenance model; enumeration of flags and of the failing library call", "every combination of the flags; every single fault position"),
}
OTHER = {'C16','C17','C18','C21','C22'}
skip = set()
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
     "notes": "One analyzer (/verif/analyzer) decides all properties from /repo's current source on every run; specifications are in /verif/spec. See DESIGN.md."}
for p, (t, n) in L.items():
    if p in skip: continue
    m["checks"].append({"property": p, "quick_cmd": f"bash /verif/check.sh {p}", "thorough_cmd": f"bash /verif/check.sh {p} thorough",
      "technique": t, "level": "other" if p in OTHER else "translation_validation", "level_note": n})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
