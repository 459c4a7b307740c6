#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": ("round-trip monitor over generated programs with a reference model as oracle", "Explores generated programs; dumps each, parses the text back and compares every entity with the model."),
 "C02": ("differential monitor of the parser against an independently emitted model", "Explores generated programs in several spellings of the same text."),
 "C03": ("mutation workload against an independent reference front end as oracle", "Explores generated programs with one rule broken; an independent reader of the language says which rule, the real front end has to refuse."),
 "C04": ("crash and termination monitor over hostile bytes, split reads and deep nesting, in child processes", "Explores byte strings; workers are watched for panics, signals and lack of progress."),
 "C05": ("well-formedness monitor over everything the front end returns", "Explores mutated and valid texts; every returned program is checked against the IR rules and the user sets are recomputed."),
 "C19": ("trace monitor of the diagnostics stream against an independent front end", "Explores broken texts, from files and memory; parses everything written to stderr."),
 "C20": ("differential monitor: the default build against the build without diagnostics", "Explores valid and broken texts through two builds of the library."),
 "C07": ("shadow-state monitor over random edit histories (recount of uses)", "Explores edit histories; recorded users are compared with a recount over the current data during and after each history."),
 "C08": ("shadow-state monitor over random layout histories (plain lists)", "Explores layout edits; order, both directions, parents and entry are compared after every step."),
 "C09": ("reference typing of random builder requests, with whole-state comparison", "Explores valid and ill-typed requests; outcome and complete resulting state are compared after every step."),
 "C22": ("shadow-state monitor over random histories of the function and global tables", "Explores histories on two programs side by side; tables are compared after every step."),
 "C06": ("LLVM verifier and differential interpretation of the generated module against the model program", "Explores generated programs; the LLVM text is parsed, verified and executed by an independent interpreter on generated inputs and compared with execution of the model; samples go through opt-18 and lli-18."),
 "C10": ("algebraic monitor of type identity, size and spelling against structural equality", "Explores sets of types with near relatives on one to four threads; all pairs are compared."),
 "C11": ("monitor matching every name mention in both outputs with the entity it must denote", "Explores programs whose names are look-alikes of generated ones; uniqueness, constancy and faithfulness are judged per scope."),
 "C12": ("C walker under AddressSanitizer over the raw form, compared with the model program", "Explores generated programs; everything reachable is read through the published header by C code, also after the programs are gone."),
 "C13": ("round trip through raw programs laid out by a C client under AddressSanitizer, with injected faults", "Explores valid raw programs of the library and of a client, and copies broken in one place of seven kinds."),
 "C14": ("trace monitor over scripts of a C client process under AddressSanitizer, with heap and descriptor accounting", "Explores call sequences, buffer sizes and I/O targets; every code, pointer, length and text reported is judged."),
 "C15": ("fault injection into readers and writers with an undisturbed run as oracle", "Explores positions and kinds of read and write faults, at every byte of small outputs; received bytes, results and later use of the generator are compared."),
 "C16": ("differential monitor of concurrent and interleaved runs against runs alone, with a log of all handles", "Explores job sets on two to eight threads and interleaved drivers; results, diagnostics and all handles issued are compared."),
 "C17": ("offline checker over the recorded log of pass applications", "Explores pass lists that add, remove, inspect and change functions; the log is replayed on a model."),
 "C18": ("byte comparison of repeated dumps across generators, threads and processes", "Explores generated programs, dumped repeatedly and constructed again elsewhere."),
 "C23": ("Miri (Tree Borrows, data races, leaks) and AddressSanitizer with an allocation-counting allocator over random client sessions", "Explores sessions of C and Rust clients; small ones under Miri, larger ones natively under AddressSanitizer, where what is not given back is counted."),
 "C24": ("monitor comparing tokens, trees and spans with an independent tokenizer", "Explores generated texts in random layouts; trees of pairs of texts differing in layout or in one token are compared."),
 "C25": ("recording visitor with an online checker of the names in force", "Explores random request orders over generated programs under default and custom naming schemes, several runs per generator."),
 "C26": ("monitor reading all components of every value before and after writing one", "Explores every value of generated programs, each component written by itself."),
 "C21": ("monitor of value equality against hash-consed structure over all pairs", "Explores twins and near twins of values in programs built through the interface."),
}
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough", "technique": t, "level": "exploration", "level_note": n} for i, (t, n) in sorted(TECH.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through public interfaces, streams and processes. VERIF_SEED and VERIF_TIER select seed and depth."}
json.dump(m, open(out, "w"), indent=1)
