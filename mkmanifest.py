#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when checks change)."""
import json
ex="explicit enumeration of a bounded operand space on the real code against a reference model"
T={
"C12":"explicit-state reachability to a fixpoint and exhaustive bounded operation sequences on the real objects, lock-step with a reference model",
"C13":"exhaustive enumeration of refused calls on the real code; complete post-state and error compared with the model",
"C14":"exhaustive bounded enumeration of calls and short histories under a guard-page allocator with leak accounting",
"C15":"exhaustive bounded enumeration of calls under an allocation-counting monitor",
"C16":"exhaustive enumeration of bounded strings and number shapes in every radix against a positional-notation model",
"C17":"exhaustive enumeration of bounded values; text compared with the model and read back",
"C18":"exhaustive enumeration of values, of all torn-write prefixes and of single-field damages of the stored forms",
"C19":"exhaustive enumeration of the generator's answers over a word alphabet (scripted environment)",
"C21":"exhaustive enumeration of copy histories on source and target objects against a reference model",
"C22":"exhaustive enumeration of build configurations times a bounded operand space against one reference model",
"C23":"systematic enumeration of preemption points: the other thread runs between every two machine instructions of a call (controlled scheduler by single-stepping); writes to shared memory are looked for in every call of a bounded space, and calls that make any are run under all two-switch schedules",
"C24":"exhaustive enumeration of fault points of sinks, stores, sources and generators (scripted environment)",
}
NOTE="Every configuration inside the bounds listed in the evidence file is executed on the real code and compared in result and complete post-state with an independent model; nothing is sampled. Values, widths and depths outside the bounds are not covered. Trusts the compiler, std, serde, rand, smallvec and the harness's model."
N={
"C14":" Guard pages catch every access beyond an allocation's end or after free (within a quarantine) at 8-byte granularity; aliasing rules of Rust are not judged.",
"C15":" Judges only the allocation promises the documentation makes for all inputs.",
"C23":" Preemptions are explored at instruction granularity with the preempting call running to completion, with two switches for calls that write memory others can see; weak-memory reorderings are not modelled.",
"C22":" Target architecture is fixed to x86-64 Linux.",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"bash check.sh --build","checks":[
 {"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough",
  "technique":"model checking: "+T.get(p,ex),"level":"model_checking","level_note":NOTE+N.get(p,"")} for p in props],
 "not_applicable":[],
 "notes":"No hooks in /repo: everything is observed through the public interface. Commits in /repo are fix: commits only (known-findings.txt)."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
