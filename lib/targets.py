"""Simulation binaries: how each is generated and built from /repo's tree."""
import contextlib
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
NIGHTLY = "nightly-2025-05-01"
BUILD_SECS = 400


class HarnessError(Exception):
    """No verdict is possible."""


class Rejected(Exception):
    """The derive refused a program it is known to accept."""

    def __init__(self, subject, detail):
        super().__init__(f"{subject}: {detail}")
        self.subject, self.detail = subject, detail


def clean_env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUST", "CARGO_", "CARGO_BUILD", "THISERROR")) and k not in ("RUSTUP_HOME", "CARGO_HOME"):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN=NIGHTLY, LANG="C.UTF-8", HOME=e.get("HOME", "/root"))
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(extra)
    return e


@contextlib.contextmanager
def locked(name):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def run(cmd, cwd, env, secs):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", f"timed out after {secs} s"


def cargo_build(crate, target, env, secs=BUILD_SECS, args=()):
    """-> (status, [(file, line, message)], text)"""
    lock = os.path.join(VERIF, "gen", "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(crate, "Cargo.lock")):
        shutil.copy(lock, os.path.join(crate, "Cargo.lock"))
    rc, out, err = run(["cargo", "build", "--offline", "--quiet", "--message-format=json", "--target-dir", target, *args], crate, env, secs)
    errors = []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        d = m["message"]
        if d.get("level") != "error":
            continue
        pkg = m.get("target", {}).get("name", "")
        spans = d.get("spans", [])

        def outer(s):
            while s.get("expansion") and s["expansion"].get("span"):
                s = s["expansion"]["span"]
            return s
        lines = [(outer(s)["file_name"], outer(s)["line_start"]) for s in spans if s.get("is_primary")] or [(outer(s)["file_name"], outer(s)["line_start"]) for s in spans]
        errors.append((pkg, lines[0] if lines else None, (d.get("rendered") or d.get("message", ""))[:1500], d.get("message", "")))
    return rc, errors, err


def cached_repo_build_ok(env, feature_args):
    """Does /repo's own library build? (to tell a broken tree from a rejected program)"""
    rc, _, err = run(["cargo", "build", "--offline", "--quiet", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", os.path.join(TARGET, "repo"), *feature_args], VERIF, env, BUILD_SECS)
    return rc == 0, err


class World:
    kind = "world"

    def __init__(self, seed, shard, variant, size, skip=()):
        self.seed, self.shard, self.variant, self.size, self.skip = int(seed), int(shard), variant, int(size), list(skip)
        self.rejected = {}

    def header(self):
        return f"world seed={self.seed} shard={self.shard} variant={self.variant} size={self.size} skip={','.join(self.skip)}"

    @staticmethod
    def parse(text):
        d = dict(x.split("=", 1) for x in text.split())
        return World(d["seed"], d["shard"], d["variant"], d["size"], [x for x in d["skip"].split(",") if x])

    def describe(self):
        return f"{self.variant}/{self.seed}.{self.shard}"

    def _compile(self, crate, tgt, env):
        cmd = [sys.executable, os.path.join(VERIF, "gen", "gen.py"), "--seed", str(self.seed), "--shard", str(self.shard), "--size", str(self.size),
               "--variant", self.variant, "--out", crate, "--repo", REPO, "--skip", ",".join(self.skip)]
        rc, _, err = run(cmd, VERIF, env, 120)
        if rc != 0:
            raise HarnessError("world generator failed: " + err[-800:])
        return cargo_build(crate, tgt, env)

    def _owners(self, crate, errors):
        src = open(os.path.join(crate, "src", "main.rs"), encoding="utf-8").read().split("\n")
        found = {}
        for pkg, at, rendered, msg in errors:
            if pkg != "world" or not at or not at[0].endswith("main.rs"):
                continue
            for k in range(min(at[1], len(src)) - 1, -1, -1):
                m = re.match(r"pub mod (\w+) \{", src[k])
                if m:
                    n = m.group(1).upper()
                    n = re.match(r"S\d+", n).group(0) if n.startswith("S") else n
                    found.setdefault(n, rendered)
                    break
        return found

    def build(self, rundir, tolerate=True):
        """Build; types the derive refuses are left out and listed in self.rejected."""
        slot = f"{self.variant}{self.shard}"
        env = clean_env()
        with locked("w" + slot):
            crate, tgt = os.path.join(TARGET, "worlds", slot), os.path.join(TARGET, "build", slot)
            os.makedirs(crate, exist_ok=True)
            for _ in range(6):
                rc, errors, err = self._compile(crate, tgt, env)
                if rc == 0:
                    out = os.path.join(rundir, f"world-{slot}")
                    shutil.copy(os.path.join(tgt, "debug", "world"), out)
                    self.bin = out
                    return
                ok, why = cached_repo_build_ok(env, ["--no-default-features"] if self.variant == "nostd" else [])
                if not ok:
                    raise HarnessError("the tree in /repo does not build: " + why[-600:])
                if rc is None:
                    raise Rejected("compilation", f"expanding the generated programs did not finish within {BUILD_SECS} s")
                own = self._owners(crate, errors)
                if not own or not tolerate:
                    text = next((r for _, _, r, _ in errors), err[-1200:])
                    if own:
                        n = sorted(own)[0]
                        raise Rejected(n, own[n])
                    if any(p == "world" for p, _, _, _ in errors) or "panicked" in err or "SIG" in err:
                        raise Rejected("compilation", text)
                    raise HarnessError("world does not build: " + text)
                for n, r in own.items():
                    self.rejected.setdefault(n, r)
                self.skip = sorted(set(self.skip) | set(own))
            raise Rejected(sorted(self.rejected)[0], self.rejected[sorted(self.rejected)[0]])


class Crate:
    """A fixed harness crate under /verif/crates that includes sources of /repo."""

    def __init__(self, kind, name, rustflags="", toolchain=NIGHTLY):
        self.kind, self.name, self.rustflags, self.toolchain = kind, name, rustflags, toolchain
        self.rejected = {}

    def header(self):
        return self.kind

    def describe(self):
        return self.name

    def build(self, rundir, tolerate=True):
        env = clean_env(RUSTUP_TOOLCHAIN=self.toolchain, VERIF_REPO=REPO)
        if self.rustflags:
            env["RUSTFLAGS"] = self.rustflags
        crate, tgt = os.path.join(VERIF, "crates", self.name), os.path.join(TARGET, "build", self.name)
        with locked(self.name):
            rc, errors, err = cargo_build(crate, tgt, env)
            if rc != 0:
                text = next((r for _, _, r, _ in errors), err[-1500:])
                raise HarnessError(f"{self.name} does not build: {text}")
            self.bin = os.path.join(rundir, self.name)
            shutil.copy(os.path.join(tgt, "debug", self.name), self.bin)


class Expand:
    """The macro inside a simulated compiler session (crates/expandsim)."""

    kind = "expand"

    def __init__(self, mode, seed, count=300):
        self.mode, self.seed, self.count = mode, int(seed), int(count)
        self.rejected = {}

    def header(self):
        return f"expand mode={self.mode} seed={self.seed} count={self.count}"

    @staticmethod
    def parse(text):
        d = dict(x.split("=", 1) for x in text.split())
        return Expand(d["mode"], d["seed"], d["count"])

    def describe(self):
        return f"expand-{self.mode}"

    def build(self, rundir, tolerate=True):
        corpus = os.path.join(rundir, f"items-{self.mode}.txt")
        rc, _, err = run([sys.executable, os.path.join(VERIF, "gen", "items.py"), "--seed", str(self.seed), "--count", str(self.count), "--out", corpus], VERIF, clean_env(), 60)
        if rc != 0:
            raise HarnessError("item generator failed: " + err[-500:])
        crates, tgt = os.path.join(VERIF, "crates"), os.path.join(TARGET, "build", "expandsim")
        with locked("expandsim"):
            rc, errors, err = cargo_build(os.path.join(crates, "expandsim"), tgt, clean_env(RUSTFLAGS="--cfg thiserror_sim"))
            if rc != 0:
                raise HarnessError("expandsim does not build: " + next((r for _, _, r, _ in errors), err[-1200:]))
            self.bin = os.path.join(rundir, "expandsim-" + self.mode)
            shutil.copy(os.path.join(tgt, "debug", "expandsim"), self.bin)
        self.extra_env = {"SIM_MODE": self.mode, "SIM_CORPUS": corpus}
        if self.mode == "session":
            # always a fresh directory: it must hold one libthiserror only
            libs, shim = os.path.join(rundir, "hostlib"), os.path.join(rundir, "shim.so")
            with locked("hostlib"):
                tgt = os.path.join(TARGET, "build", "hostlib")
                shutil.rmtree(os.path.join(tgt, "debug", "deps"), ignore_errors=True)
                rc, errors, err = cargo_build(os.path.join(crates, "hostlib"), tgt, clean_env())
                if rc != 0:
                    raise HarnessError("/repo does not build: " + next((r for _, _, r, _ in errors), err[-1200:]))
                shutil.rmtree(libs, ignore_errors=True)
                shutil.copytree(os.path.join(tgt, "debug", "deps"), libs)
            rc, _, err = run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(crates, "expandsim", "src", "shim.c")], VERIF, clean_env(), 60)
            if rc != 0:
                raise HarnessError("shim: " + err[-500:])
            rc, out, err = run(["rustc", "--print", "sysroot"], VERIF, clean_env(), 60)
            if rc != 0:
                raise HarnessError("rustc: " + err[-500:])
            self.extra_env.update(SIM_LIBS=libs, SIM_SHIM=shim, SIM_RUSTC=os.path.join(out.strip(), "bin", "rustc"))


class Build:
    """The build script of /repo under the simulator (crates/buildsim)."""

    kind = "build"

    def __init__(self, mode):
        self.mode = mode
        self.rejected = {}

    def header(self):
        return f"build mode={self.mode}"

    @staticmethod
    def parse(text):
        return Build(dict(x.split("=", 1) for x in text.split())["mode"])

    def describe(self):
        return f"build-{self.mode}"

    def build(self, rundir, tolerate=True):
        crate, tgt = os.path.join(VERIF, "crates", "buildsim"), os.path.join(TARGET, "build", "buildsim")
        # scripts, shim and compiler stand-in are short to make: always from the current tree
        d = os.path.join(rundir, f"bs-{self.mode}")
        os.makedirs(d, exist_ok=True)
        with locked("buildsim"):
            rc, errors, err = cargo_build(crate, tgt, clean_env())
            if rc != 0:
                raise HarnessError("buildsim does not build: " + next((r for _, _, r, _ in errors), err[-1200:]))
            self.bin = os.path.join(rundir, "buildsim-" + self.mode)
            shutil.copy(os.path.join(tgt, "debug", "buildsim"), self.bin)
        f = lambda n: os.path.join(d, n)

        def make(cmd, what):
            rc, _, err = run(cmd, d, clean_env(), 120)
            if rc != 0:
                raise HarnessError(f"{what}: {err[-1000:]}")
        make(["gcc", "-O1", "-shared", "-fPIC", "-o", f("shim.so"), os.path.join(crate, "src", "shim.c"), "-ldl"], "shim")
        make(["gcc", "-O2", "-static", "-o", f("fake"), os.path.join(crate, "src", "fakerustc.c")], "compiler stand-in")
        for n, cfg in (("std", ["--cfg", 'feature="std"']), ("nostd", [])):
            make(["rustc", "--edition=2021", "--cap-lints=allow", os.path.join(REPO, "build.rs"), "-o", f(n), *cfg], "build.rs does not compile")
        rustcs = toolchains()
        self.extra_env = {"SIM_MODE": self.mode, "SIM_REPO": REPO, "SIM_SCRIPT_STD": f("std"), "SIM_SCRIPT_NOSTD": f("nostd"), "SIM_SHIM": f("shim.so"), "SIM_FAKE": f("fake"),
                          "SIM_PROFILE": self._profile(rustcs, d), "SIM_TOOLCHAINS": "\n".join(rustcs), "SIM_CARGO": os.path.join(os.path.dirname(rustcs[-1]), "cargo")}

    @staticmethod
    def _profile(rustcs, d):
        """What real compilers make of the probe: (compiles with the feature, is refused without it, environment variables it depends on)."""
        probe = os.path.join(REPO, "build", "probe.rs")
        out = os.path.join(d, "profile")
        os.makedirs(out, exist_ok=True)

        def ok(rustc, **env):
            cmd = [rustc, "--edition=2018", "--crate-name=thiserror", "--crate-type=lib", "--cap-lints=allow", "--emit=dep-info,metadata", "--out-dir", out, probe]
            rc, _, _ = run(cmd, REPO, clean_env(**env), 60)
            return rc == 0
        night = [r for r in rustcs if "nightly" in r]
        stable = [r for r in rustcs if "nightly" not in r]
        gated = not any(ok(r) for r in stable)
        sound = all(ok(r, RUSTC_BOOTSTRAP="1") for r in night + stable)
        deps = []
        try:
            for l in open(os.path.join(out, "thiserror.d"), encoding="utf-8"):
                m = re.match(r"# env-dep:([A-Za-z0-9_]+)", l)
                if m:
                    deps.append(m.group(1))
        except OSError:
            pass
        return ",".join([str(int(sound)), str(int(gated))] + sorted(set(deps)))


def toolchains():
    """The compilers installed here, oldest name first."""
    base = os.path.join(os.environ.get("RUSTUP_HOME") or os.path.expanduser("~/.rustup"), "toolchains")
    found = sorted(os.path.join(base, t, "bin", "rustc") for t in os.listdir(base))
    return [r for r in found if os.path.exists(r)]
