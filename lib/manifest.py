#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties the machinery claims."""
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation: planned sink and field faults, oracle = handwritten impl",
    "C02": "deterministic simulation of layered multi-task programs with fault propagation, history oracle",
    "C03": "deterministic simulation of layered programs, reference model of data requests, resolved captures",
    "C04": "deterministic simulation: seeded scheduler over concurrent observers, each compared with its run alone",
    "C05": "deterministic simulation with task crashes, drop ledger (conservation) oracle",
    "C06": "deterministic simulation with a counting and a refusing allocator",
    "C07": "deterministic simulation of compiler sessions: seeded threads, hash seeds, histories and crashes around the real macro",
    "C08": "deterministic simulation of the build script: simulated environment, compiler processes and faults",
    "C09": "deterministic simulation of the build script: crash at any operation, restart, concurrent instances",
    "C10": "deterministic simulation of build histories: real build script under a model of cargo and of a caching wrapper",
    "C11": "deterministic simulation: observations before, during and after injected failures compared",
    "C12": "deterministic simulation: layer and wrapped error run under one fault plan, compared write by write",
}
WORLD = ("Seeded search, not exhaustive: about 600 generated error types per quick run (std, no_std and syn-full builds), expanded by the real compiler from /repo's tree and run under the simulator. "
         "Trusts the handwritten twins next to each generated type, the simulator (crates/simcore, crates/rt) and nightly-2025-05-01.")
BUILD = ("Seeded search, not exhaustive. The real build.rs, compiled unmodified, runs as a process of its own; a preloaded library asks the simulator before every file-system and process call whether it goes on, fails or is killed. "
         "Compilers are simulated (what the real probe.rs makes of a compiler is recorded from the installed ones at the start of every check) and, in a second binary, the installed ones")
NOTE = {p: WORLD for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C11", "C12")}
NOTE["C07"] = ("Seeded search, not exhaustive: the real macro code runs in one process (hook cfg thiserror_sim) under a scheduler that decides threads, hash seeds, allocation-point preemption, "
               "interruptions and histories, and inside real rustc processes under several hash seeds. Trusts proc-macro2's fallback to represent the compiler's token streams.")
NOTE["C08"] = BUILD + "; there acceptance is settled by compiling the crate itself. Trusts the simulated compilers' rules for bootstrap settings, flags and wrappers."
NOTE["C09"] = BUILD + ". Trusts that a crash takes the started compiler along."
NOTE["C10"] = BUILD.replace("the installed ones", "the installed cargo builds the histories") + ". Trusts the model of cargo's rerun rules and of a caching wrapper in the first binary."
PURE = ("Pure function of the input program: no schedule, clock, fault, I/O or history takes part, so there is nothing for a simulator to decide; covering it would be plain input generation or "
        "compile-fail testing, which is another family of technique. ")
NA = {
    "C20": PURE + "Accept/reject decisions are made from the tokens of one item only.",
    "C21": PURE + "Bounds are settled when rustc type-checks one expansion.",
    "C22": PURE + "Termination of a parser on arbitrary tokens is a fuzzing or proof target; the simulation of C07 does run invalid items, but only to disturb the expansion of others.",
    "C23": PURE + "Lints and name resolution are decided per crate by rustc.",
    "C24": PURE + "A two-configuration comparison of a parser. The worlds of C01 are also built with syn's full parser on, but the property as stated is about parsing alone.",
    "C25": PURE + "A property of type signatures.",
}


def main():
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if "thiserror_sim" in c]
    m = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "hooks": {"guard": "cfg thiserror_sim (rustc --cfg thiserror_sim; never set by cargo or by any feature)",
                  "enable": "crates/expandsim compiles /repo/impl/src/lib.rs by path as an ordinary library with RUSTFLAGS='--cfg thiserror_sim'; every other simulation uses /repo unmodified",
                  "source_commits": hooks},
        "checks": [{"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                    "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]} for p in sorted(props.PROPS)],
        "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
        "notes": "`./check --replay FILE` re-executes a replay file. Design, oracles, bounds and the catch matrix are in DESIGN.md.",
    }
    claimed = {json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()}
    for p in sorted(claimed - set(props.PROPS) - set(NA)):
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
