#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json

PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note,
         level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files,
                              "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": observe, "hook_needed": None}})
    CHECKS.append({"property": id, "quick_cmd": "./check.sh %s" % id,
                   "thorough_cmd": "./check.sh %s thorough" % id,
                   "technique": technique, "level": level, "level_note": note})


B = "src/builder.rs"
prop("C10", "A cached build reaches the verdict of a build from scratch",
     "Whatever edits, removals and earlier builds came before, a verification of a project reports good, "
     "warning or error exactly as the current sources alone determine, naming the theorems that are not proved. "
     "Neither saved certificates nor the recorded state of earlier builds, whichever flags those builds used, "
     "can turn a false, unproved or broken module into a good one, nor a provable one into a failing one.",
     ["histories", "inputs", "configurations"],
     "all sequences of source edits, module removals and builds (whole project or one target, verify or check, "
     "with or without hash checking, forced, fail-fast, serial or parallel) over projects with import graphs of every shape",
     "Tests build a handful of fixed projects once or twice; no test runs histories of edits and differently flagged builds.",
     [B, "src/build_cache.rs", "src/project.rs", "src/manifest.rs"],
     [("skipping unchanged modules by content hash of module and dependencies", "src/builder.rs, src/build_cache.rs"),
      ("loading errors of targets and of their imports", B)],
     ["build status, events and per-module results", "searches performed"],
     "TLA+ build-system model (TLC); enumerated and random histories replayed on the real builder and trace-checked",
     "All two-module histories of bounded length plus random three-module histories are replayed and every build is compared with the specification.")
prop("C11", "A build saves exactly the certificates and state that it established",
     "After a verification that saves, the certificates of every module that was built are those its goals now use, "
     "and a module is recorded as verified only if its current text and all its dependencies were verified as they are now. "
     "A build that fails, is limited to some targets, or only checks never records as verified what it did not verify, "
     "and never loses the certificates of modules it did not build.",
     ["histories", "configurations"],
     "all sequences of edits and builds with every combination of targets and flags",
     "Tests look at the saved files after one or two builds of one project.",
     ["src/build_cache.rs", "src/manifest.rs", "src/certificate.rs", B],
     [("merging new certificates and manifest entries with old ones", "src/build_cache.rs"),
      ("dropping entries of modules that were not verified", "src/manifest.rs")],
     ["certs directories and manifest.json after each build"],
     "TLA+ build-system model (TLC); histories replayed on the real builder, saved files trace-checked",
     "The saved files after every build of every replayed history are compared with the specification.")
prop("C12", "An interrupted or failed save never leaves a state that is trusted wrongly",
     "If the process dies or the disk refuses a write at any point while a build saves its results, every certificate file "
     "and manifest left behind is a complete one, old or new, and no module counts as verified with certificates that were not saved. "
     "The next build then reports what a build from scratch reports, and saves a complete state again.",
     ["crash_points", "fault_sequences", "histories"],
     "every crash point between two file-system operations (also inside a write) of every build of the histories, and every failing operation",
     "No test interrupts a save or makes a write fail.",
     ["src/manifest.rs", "src/build_cache.rs", "src/certificate.rs", "src/project.rs"],
     [("writing to a temporary file and renaming", "src/manifest.rs"), ("order of manifest and certificate writes", "src/build_cache.rs")],
     ["files after a crash", "result of the following build"],
     "TLA+ model of the save with crashes (TLC); every crash/failure point injected into the real process, then trace-checked",
     "Every mutating file-system call of the real save is a crash point, a torn write and a failing call.",
     level="fault_enumeration")
prop("C13", "Checking certificates neither searches, writes nor forgives",
     "A check reports good exactly when every goal of the checked modules is proved by its saved certificate against the current sources. "
     "It never searches for a proof and never changes a file, and a missing, stale, broken or (when strict) superfluous certificate is reported.",
     ["histories", "configurations"],
     "all sequences of edits, verifications and checks, strict or not, of one target or all",
     "Tests check one hand-made certificate file at a time.",
     [B, "src/certificate.rs", "src/verifier.rs"],
     [("check mode of goal verification", B), ("strict check for unused certificates", B)],
     ["status, events and metrics of a check", "files before and after"],
     "TLA+ build-system model (TLC); histories replayed on the real builder and trace-checked",
     "Every check in the replayed histories is compared with the specification.")
prop("C14", "A build on several threads gives the result of a build on one thread",
     "For any number of threads and any scheduling, a build reports the same status, the same events per module in the same order, "
     "the same counts and leaves the same files as a build on one thread. Its progress never goes backwards and ends complete.",
     ["schedules", "histories", "configurations"],
     "all thread counts and schedules, over histories of edits and builds of projects with parallel import graphs",
     "Tests run the parallel build of one project on an idle machine.",
     [B, "src/project.rs"],
     [("bounded work pipeline with ordered merge", B), ("parallel module loader", "src/project.rs")],
     ["build events, results, metrics and files"],
     "TLA+ model of the worker pipeline (TLC); model-generated histories run serially and with 2-8 jittered threads, compared and trace-checked",
     "The pipeline model is checked for every schedule; the real builds are compared under injected scheduling delays.")
prop("C30", "The server's project changes are atomic and stop exactly the outdated builds",
     "Changes to the language server's project happen one at a time, and never while anybody is looking at it. "
     "A change made on condition that nothing else has changed takes effect exactly if that is so, and its caller is told. "
     "A build is told to stop when, and only when, the project has changed since it started or is about to.",
     ["schedules"],
     "all interleavings of concurrent saves, closes, build tasks and readers",
     "The language-server tests send one notification at a time and wait.",
     ["src/server/project_manager.rs", "src/server.rs"],
     [("epoch check and cancellation token under the project lock", "src/server/project_manager.rs")],
     ["results of changes, views and their cancellation tokens"],
     "TLA+ model of the coroutines (TLC, safety and liveness); schedules forced on the real manager at every suspension point, runs trace-checked",
     "All interleavings of bounded operations in the model; thousands of model schedules are forced on the real code.")
prop("C31", "The server's copy of an open document is the editor's document",
     "After any sequence of open, ranged edit, full replacement, save and close notifications, the language server's text for a document "
     "equals the text in the editor. Every line it reports as unchanged is the line of the last saved text that it names, in order, "
     "and positions are translated to the nearest unchanged line at or above.",
     ["histories", "inputs"],
     "all sequences of document notifications, with any mix of line endings and characters inside and outside the basic plane",
     "The unit tests of the document class apply a few hand-written edits to ASCII text with LF endings.",
     ["src/server/live_document.rs", "src/server.rs"],
     [("LiveDocument::change / save / get_env_line", "src/server/live_document.rs"), ("did_open / did_change / did_save / did_close", "src/server.rs")],
     ["documents table of the language server"],
     "TLA+ model checked by TLC; behaviours replayed through the language server",
     "Every step of thousands of specification behaviours is compared with the server's document state.")

prop("C32", "The editor ends up showing the problems of the saved sources, and no others",
     "Whenever the language server has come to rest after any series of saves and closes, however quickly they followed each other, it says that it is done, and "
     "for every module that a save affected it shows what is wrong with it as it is now: an error if it does not parse, a warning for every theorem that does not hold "
     "and for no other. What an earlier version was told is gone, and modules that no save affected show nothing. (Next to modules that do not load, theorems may be unproved and unreported.)",
     ["histories", "schedules"],
     "all series of saves, simultaneous saves, and closes over projects of modules that import each other, at every pace relative to the server's background tasks",
     "The server's tests save one or two files and wait; what is lost needs a save or close that arrives while a task for an earlier one is at a particular point.",
     ["src/server.rs", "src/server/project_manager.rs", "src/project.rs"],
     [("build tasks of the server: update, reload, reset, report, finish, record", "src/server.rs"), ("BuildInfo", "src/server.rs"),
      ("reload_dependent_targets_by_path", "src/project.rs")],
     ["published diagnostics and their versions", "progress and selection responses"],
     "TLA+ model of the server's tasks (TLC, with a liveness check and four broken variants); histories generated from a TLA+ specification of what is shown at rest are played to the real server",
     "Every rest of over a thousand histories is compared with the specification; schedules are those that occur, varied by pace and simultaneous notifications.")

prop("C01", "Only theorems that follow are reported verified",
     "Whenever a verification reports a theorem as proved, the theorem is true in every interpretation of the module's types, constants and "
     "axioms that makes the axioms, definitions and earlier accepted statements visible to it true. In particular types may be empty unless something is known to inhabit them, and "
     "functions may be arbitrary unless something is stated about them.",
     ["inputs", "configurations"],
     "all modules: any declarations, definitions, chosen values, axioms and theorems with nested quantifiers, connectives, conditionals, matches, equality and function variables",
     "A test poses a statement somebody thought of; soundness is about every statement, and an unsound step shows only on the rare false statement it proves.",
     ["src/prover", "src/processor.rs", "src/kernel/checker.rs", "src/kernel/clausifier.rs", "src/elaborator/lowering.rs"],
     [("lowering and normalization of facts and negated goals", "src/elaborator/lowering.rs, src/kernel/clausifier.rs"), ("inference rules", "src/prover/active_set.rs"),
      ("certificate checking of every proof found", "src/certificate_trace.rs, src/kernel/checker.rs")],
     ["verification events: which theorems are reported verified"],
     "TLA+ semantics of the language over finite models (TLC); problems generated with their truth value are posed to the real verifier",
     "Thousands of goals with known truth, near misses of the axioms, are posed; one reported verified though false in a model is a violation.")
prop("C03", "A proof that was found is accepted whenever it is checked again",
     "Every certificate saved by a verification is accepted by a later check of the same sources in a new process, and by a later verification "
     "without any search, whatever the number of threads and however the project was loaded.",
     ["inputs", "configurations"],
     "all statements for which a proof is found, and all shapes their proofs take: witnesses, instances, equality, extensionality, boolean reductions, conditionals",
     "Tests write certificates for chosen theorems; proofs found by search take far more shapes.",
     ["src/certificate.rs", "src/certificate_trace.rs", "src/code_generator.rs", "src/builder.rs"],
     [("writing a proof as a trace of claims in source syntax", "src/certificate_trace.rs, src/code_generator.rs"), ("reading and checking it", "src/certificate_trace.rs")],
     ["certificate files", "status of the check build", "searches performed"],
     "TLA+ generator of reasoning problems with declarations (TLC); proofs found are saved, carried to a new project and re-checked",
     "Thousands of proofs over generated problems are re-checked from the saved files alone.")
prop("C02", "No certificate makes a false statement verified",
     "Whatever a certificate file says, a theorem is verified from it only if the theorem follows from what is visible to it: steps that claim "
     "something that was not stated or does not follow, cite premises that do not support them, name the wrong rule, define witnesses that need not exist, "
     "or belong to another theorem never make a false statement pass.",
     ["inputs"],
     "all certificates for all statements that are false in some model of what is visible: any steps, rules, premises, instances, witnesses and their order",
     "Tests try a few hand-broken certificates; the checker is the trusted kernel and must reject every wrong one.",
     ["src/kernel/checker.rs", "src/certificate_trace.rs", "src/certificate.rs", "src/processor.rs"],
     [("validation of each step against its rule and premises", "src/certificate_trace.rs"), ("concrete clause checking by equality closure", "src/kernel/checker.rs")],
     ["verification events: which theorems are reported verified from a given certificate file"],
     "TLA+ semantics of the language over finite models (TLC); adversarial certificates for statements false in the model are posed to the real checker",
     "Many thousands of made-up and altered certificates for false statements; accepting one is a violation.")

prop("C40", "A goal may use exactly what is visible to it",
     "A statement is proved from the imported theorems and axioms, the statements before it in its own and the enclosing blocks, and the assumptions of those blocks, and from nothing else: "
     "not from later statements, from the inside of other blocks except what they export, from the theorem being proved, from the other branch of a conditional, or from lemmas and "
     "block facts of other modules. What is among the visible facts is found (unless it takes a choice among existentials inside a disjunction). A closed block exports its last statement, for all its arguments, for some values of the constants it chose, under its condition.",
     ["inputs"],
     "all nestings of theorems with proofs, forall-, if-, else- and match-blocks, chosen and named values, citations, lemmas and imports",
     "Scoping mistakes show only on false statements in particular positions; tests hold a few positions each.",
     ["src/elaborator/block.rs", "src/elaborator/environment", "src/elaborator/node.rs", "src/elaborator/lowering.rs", "src/processor.rs", "src/builder.rs"],
     [("facts visible to a goal", "src/elaborator/node.rs, src/processor.rs"), ("what a closed block exports", "src/elaborator/block.rs, src/elaborator/environment/add_statement/blocks.rs"),
      ("what a module exports", "src/elaborator/lowering.rs, src/project.rs")],
     ["verification events: which statements are reported verified"],
     "TLA+ model of scopes over all two-element interpretations (TLC); generated modules are verified by the real code",
     "Thousands of goals in generated nestings, each with the exact set of interpretations of what is visible to it; imports of two modules.")

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    with open("MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash harness/setup.sh", "checks": CHECKS,
                   "not_applicable": NA}, f, indent=1)
        f.write("\n")
