#!/usr/bin/env python3
# Writes MANIFEST.json (committed); run by hand after changing the list.
import json
T = {
"C01": ("grammar-directed and byte/token fuzzing with crash, overflow and hang detection in isolated worker processes", "No panic, abort, stack or arithmetic overflow, runaway allocation or non-termination (40 CPU s on one case) on any generated text: token and character soups, mutants and truncations of valid files, deep/long/large files, all short byte and statement sequences. Builds: overflow checks on, release, and instrumented."),
"C02": ("grammar-directed and byte/token fuzzing with crash, overflow and hang detection in isolated worker processes", "As C01, for MTL texts."),
"C03": ("model-based property testing: generated valid files against the model they were rendered from, plus an independent reference reader", "Bit-for-bit comparison of every number with the generator's own value; assumes std's f64 parser is correctly rounded."),
"C04": ("model-based property testing of index resolution (absolute and relative, several objects) with an independent reference reader", "Every index of every element is compared with the entry the generator meant, for all mixes of absolute and relative notation in interleaved data."),
"C05": ("model-based property testing of the element decomposition, n from 1 to large sizes", "The element list is compared in full with the model's decomposition."),
"C06": ("fault-injection property testing: one bad reference placed anywhere in a valid file, against a reference reader's verdict", "Every injected fault must be rejected with an admissible error kind on the right line; ambiguous notations are excluded by construction."),
"C07": ("stateful model-based property testing of statement histories (group state)", "Group membership of every element after every generated and every enumerated short statement history."),
"C08": ("stateful model-based property testing of statement histories (smoothing state)", "Smoothing value of every element after every generated and every enumerated short statement history."),
"C09": ("stateful model-based property testing of statement histories (material state)", "Partition into geometries after every generated and every enumerated short statement history."),
"C10": ("stateful model-based property testing of object boundaries and libraries", "Objects, names, contents and libraries of every generated history compared in full with the model."),
"C11": ("metamorphic property testing: one statement list in two layouts", "Both layouts must give the same result and, for valid files, the model's; line ends, blanks, comments and Unicode content are drawn at every gap."),
"C12": ("fault-injection property testing against an independent reference reader (verdict, line, kind)", "Verdict, physical line and admissible error kinds compared for every generated text the reference reader is sure about."),
"C13": ("model-based property testing of material files", "Every attribute of every material compared bit for bit with the model. One known finding (Tf) is listed in known_findings.txt."),
"C14": ("fault-injection property testing against an independent reference reader (verdict, printed line)", "Verdict and printed line compared for every generated text the reference reader is sure about."),
"C15": ("round-trip property testing: print, reassemble, parse", "Objects rebuilt from their printed parts must parse back equal, bit for bit; printed forms are also compared with independently formatted text."),
"C16": ("property testing of printed summaries against independently computed summaries", "The summary is read back by its labels and compared with counts and entries of the object printed; whitespace is free."),
"C17": ("invariant checking over results of accepted soups, mutants and valid files", "Structural invariants of every accepted result, whatever the text."),
"C18": ("property testing of lookups on constructed and parsed objects against a direct definition", "get_vtn_triple and has_same_type_as on generated objects and indices up to usize::MAX."),
"C19": ("history and concurrency property testing: repeated, interleaved and multi-threaded parses against a fresh parse", "Same result for the same text after any generated history of other parses, in parallel threads, by any entry point. Thread schedules are sampled, not enumerated."),
"C20": ("metamorphic property testing: concatenation and prefixes", "Concatenated files compared with the separately parsed parts; prefix data compared with the data before appending."),
"C21": ("property testing of comparison, ordering and clones: constructed pairs that are equal or differ in one generated place, against a field-by-field comparison", "Every pair must compare equal exactly when its fields are; the difference is placed at any field and position."),
"C22": ("metamorphic cost testing: a generated text and the same with its repeated parts 64 times as long; allocator counts and thread CPU time compared", "Memory is counted exactly; time is the least of several runs of the large text against the largest of the small one, and a factor of 8 above proportional counts as broken, so only superlinear growth that dominates at half a megabyte is seen."),
"C23": ("metamorphic property testing: independent neighbouring statements exchanged", "A file and a reordering of it must give the same result in every field; which statements are independent is decided on the abstract statements."),
"C24": ("metamorphic property testing: injective renaming of all names", "A file and a renamed one must give the same result up to the renaming; names are drawn from tag-like words, numbers, Unicode, words of the source and coincidences between kinds."),
"C25": ("metamorphic property testing: text after the reported line removed or replaced", "The error of every generated rejected text must stay the same; the text before the reported line must be accepted."),
}
checks = []
for i in sorted(T):
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": t + ("; random generation" if i == "C22" else "; random, exhaustive-small and coverage-guided generation"), "level": "exploration",
        "level_note": n + " Held on everything explored; not a proof. Trusts the reference semantics in harness/src."})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": [],
     "notes": "One harness crate (no dependencies but /repo's crate), built in three profiles by every check (debug-like with overflow checks; release; instrumented for coverage-guided search). bash replay.sh FILE repeats a reported failure. No hooks in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
