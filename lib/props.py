"""Per property: which simulation binaries, how many runs, what they are."""
from targets import Build, Expand, World

WORLD_ASSUME = [
    "The derived code is compiled by nightly-2025-05-01, the toolchain of the repository's own test suite.",
    "The generated programs are a seeded sample of the programs a user can write; what each must do is stated by handwritten impls generated alongside and independent of the derive.",
    "Tasks run one at a time and change over only at yield points: sink writes, field formatting, source()/provide() of wrapped errors, hand-offs. Derived code contains no other synchronisation point.",
]
WORLD_REAL = ["derive(Error) of /repo, expanded by the real compiler", "runtime support in /repo/src (AsDynError, AsDisplay, Var, ThiserrorProvide)", "generated Display, Error, From and provide code", "core::fmt, std::error and std::backtrace"]
WORLD_STUB = ["caller's sink (fmt::Write with planned failures)", "field values and their formatters (Probe, Tok, ...)", "devices that raise the root faults", "task scheduler, clock and channels between tasks", "global allocator (counting/refusing; System underneath)"]


def worlds(quick, thorough):
    """Shards as (variant, how many)."""
    def make(seed, tier):
        plan, size = (quick, 70) if tier == "quick" else (thorough, 110)
        out, shard = [], 0
        for variant, n in plan:
            for _ in range(n):
                out.append(World(seed, shard, variant, size))
                shard += 1
        return out
    return make


SHARDS = worlds([("std", 7), ("synfull", 3), ("nostd", 2)], [("std", 16), ("synfull", 4), ("nostd", 4)])
SHARDS_STD = worlds([("std", 6), ("synfull", 2)], [("std", 14), ("synfull", 4)])


def w(relevant, rule, states, quick, thorough, targets=SHARDS, envs=({"RUST_LIB_BACKTRACE": "0"},), real=(), stub=(), assume=()):
    return {
        "targets": targets, "relevant": relevant, "rule": rule, "states": states, "envs": [dict(e) for e in envs],
        "quick": dict(runs=quick[0], secs=quick[1], selftest=quick[2]), "thorough": dict(runs=thorough[0], secs=thorough[1], selftest=thorough[2]),
        "real": WORLD_REAL + list(real), "stub": WORLD_STUB + list(stub), "assumptions": WORLD_ASSUME + list(assume),
    }


PROPS = {
    "C01": w("DG", "A generated error value is formatted cleanly and under planned sink and field faults, and compared with a handwritten impl.",
             "(type and variant, format spec, fault plan kind and position)", (400_000, 25, 3000), (20_000_000, 500, 20000)),
    "C02": w("GXS", "A fault is raised by a device, travels through generated layers under retries, deadlines, hand-offs, loss and sharing, or a value is built/converted directly; its source chain is walked.",
             "(stack, layer, path of variants taken) and (sequence of node types walked)", (60_000, 25, 2000), (3_000_000, 500, 8000)),
    "C03": w("GXS", "As C02; at every node Backtrace and other data are requested, and fresh captures are resolved to the conversion that must have made them, with capture switched on and off.",
             "(type and variant or stack path, what was provided, number of acceptable answers)", (25_000, 25, 1000), (1_200_000, 500, 4000),
             targets=SHARDS_STD, envs=({"RUST_LIB_BACKTRACE": "1"}, {"RUST_LIB_BACKTRACE": "0", "RUST_BACKTRACE": "full"}, {"RUST_BACKTRACE": "1"}, {})),
    "C04": w("DGX", "2-5 observers, now and then up to 20, format, walk and query 1-2 shared values, each with its own faults, preempted at every write; each must see what it sees alone.",
             "(type and variant, fault plan kind and position)", (60_000, 25, 2000), (2_500_000, 500, 8000)),
    "C05": w("DGXS", "1-3 tasks build, convert, observe, share, hand over and discard values while tasks crash at crash points; a ledger accounts for every token.",
             "(number of tokens of a run) and stack paths", (60_000, 25, 2000), (3_000_000, 500, 8000)),
    "C06": w("DGX", "A conversion, formatting into a fixed buffer, or chain walk and request is made while allocations are counted or all refused.",
             "(type and variant, format spec, chain length)", (400_000, 20, 3000), (20_000_000, 300, 20000)),
    "C11": w("DGX", "Values are observed, then observed faultily (errors and panics at planned points, also on other tasks), then again; everything must be as before.",
             "(type and variant, fault plan kind and position)", (60_000, 25, 2000), (2_500_000, 500, 8000)),
    "C12": w("GX", "A transparent layer and the error it wraps are observed under one fault plan and compared write by write.",
             "(type and variant, format spec, fault plan kind and position)", (300_000, 20, 3000), (20_000_000, 300, 20000)),
}


EXPAND = {
    "targets": lambda seed, tier: [Expand("inproc", seed, 300 if tier == "quick" else 1500), Expand("session", seed, 300 if tier == "quick" else 1500)],
    "relevant": "", "envs": [{}],
    "rule": "A run is one compiler session: items are expanded on several threads or in one real rustc process, among others, repeatedly, with expansions interrupted, under a hash seed, memory layout, clock and environment of its own; "
            "every output is compared token by token with what a fresh session gave for the same item.",
    "states": "(item, position of an interruption) and (item, hash seed)",
    "quick": dict(runs=60_000, secs=35, selftest=300, units={"expand-inproc": (50_000, 0.9, 300), "expand-session": (320, 1.1, 24)}),
    "thorough": dict(runs=3_000_000, secs=900, selftest=2000, units={"expand-inproc": (3_000_000, 0.9, 2000), "expand-session": (30_000, 1.1, 100)}),
    "real": ["impl/src of /repo: as a library under the simulator (cfg thiserror_sim), and as a macro inside real rustc processes", "syn, quote", "proc-macro2 (fallback in one process, compiler-backed in rustc)", "std locks, hash maps, thread locals"],
    "stub": ["in one process: getrandom, getenv, clock_gettime, getpid, futex waits, memory allocator, thread scheduling", "for rustc: getrandom, clock_gettime, time, getpid (preloaded)"],
    "assumptions": ["proc-macro2's fallback represents the compiler's token streams in the in-process runs.", "Threads change over at allocations and lock waits inside an expansion.",
                    "In rustc runs, thread scheduling within the compiler is not decided by the simulator (its macro expansion is sequential)."],
}
PROPS["C07"] = EXPAND

BUILD_ASSUME = [
    "The simulated compilers follow the rules of RUSTC_BOOTSTRAP, -Zallow-features, targets and wrappers as written in crates/buildsim/src/model.rs; what the real probe.rs makes of a compiler is recorded from the installed ones at the start of every check.",
    "A crash ends the build script together with the compiler it has started.",
    "The build script is compiled by nightly-2025-05-01.",
]
BUILD_REAL = ["build.rs of /repo, compiled unmodified with and without the feature std, as a process of its own", "build/probe.rs", "std, libc and kernel file-system and process calls of the build script"]
BUILD_STUB = ["which calls of the build script fail, where it is killed, and whose turn it is (preloaded library asks the simulator before every file-system and process call)", "compilers and wrappers (fake mode)", "environment variables"]


def b(rule, states, modes, units, thorough, real=(), stub=(), assume=()):
    return {
        "targets": lambda seed, tier: [Build(m) for m in modes], "relevant": "", "envs": [{}], "rule": rule, "states": states,
        "quick": dict(runs=10, secs=30, selftest=10, units=units), "thorough": dict(runs=10, secs=800, selftest=10, units=thorough),
        "real": BUILD_REAL + list(real), "stub": BUILD_STUB + list(stub), "assumptions": BUILD_ASSUME + list(assume),
    }


PROPS["C08"] = b(
    "One detection in a drawn environment (compiler, channel, bootstrap setting, flags, target, wrappers, missing variables) with failing, killed or incomprehensible compilers and failing calls; decision and exit status are compared with whether the crate itself would be accepted there. "
    "In the real binary the compilers are the installed ones and acceptance is settled by compiling the crate.",
    "settings drawn", ["fake", "real"], {"build-fake": (60_000, 0.8, 400), "build-real": (2_500, 0.8, 30)}, {"build-fake": (3_000_000, 1, 4000), "build-real": (100_000, 1, 100)},
    real=["five installed compilers (real mode)"])
PROPS["C09"] = b(
    "1-3 detections in output directories of their own are interleaved call by call; each is killed, or meets failures, up to three times, and is then run undisturbed: it must decide as in a clean directory, leave nothing, and nobody may write outside its OUT_DIR.",
    "(crash position, calls made)", ["fake", "real"], {"build-fake": (20_000, 0.9, 150), "build-real": (1_200, 0.7, 16)}, {"build-fake": (1_000_000, 1, 1500), "build-real": (50_000, 1, 60)},
    real=["installed compilers (real mode)"])
PROPS["C10"] = b(
    "A history of 2-8 builds in one target directory with changes of bootstrap setting, compiler, flags, features, target, probe and caching wrapper between them; at every build the decision in effect must be that of a fresh detection. In the cargo binary the histories are built by the installed cargo.",
    "(bootstrap setting, compiler, wrapper, why the script ran, decision)", ["fake", "cargo"], {"build-fake": (20_000, 0.8, 100), "build-cargo": (400, 0.9, 3)}, {"build-fake": (1_000_000, 1, 1000), "build-cargo": (20_000, 1, 10)},
    real=["installed cargo and compilers (cargo mode)"], stub=["cargo's rules for running a build script again, and a caching wrapper that keys on compiler, arguments, source and the variables its dependency information names (fake mode)"])


def target_by_header(header):
    kind, rest = (header + " ").split(" ", 1)
    return {"world": World, "expand": Expand, "build": Build}[kind].parse(rest)
