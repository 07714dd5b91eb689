"""Search, determinism self-test, minimisation, replay files and evidence."""
import collections
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import props
from targets import HarnessError, NIGHTLY, Rejected, VERIF, World, clean_env

WORKERS = max(1, min(8, os.cpu_count() or 1))
ABORTS = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP, signal.SIGFPE}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Fail:
    def __init__(self, unit, js, start=0, stride=1):
        self.unit = unit  # (target, env)
        self.cls, self.subject, self.detail = js["class"], js["subject"], js["detail"]
        self.seed, self.index = js.get("run_seed"), js.get("index", -1)
        self.choices = js.get("choices") or []
        self.trace = js.get("trace") or []
        self.digest = js.get("digest", "")
        self.start, self.stride = start, stride

    def key(self):
        return (self.cls, self.subject)


class Unit:
    """One binary in one environment."""

    def __init__(self, target, env):
        self.target, self.env = target, env

    def full_env(self, rundir):
        return clean_env(**dict(self.env, SIM_SCRATCH=rundir, SIM_KNOWN=getattr(self, "known", ""), **getattr(self.target, "extra_env", {})))

    def name(self):
        e = ",".join(f"{k}={v}" for k, v in sorted(self.env.items()))
        return self.target.describe() + (f"[{e}]" if e else "")


def parse_out(out):
    stats = fail = harness = None
    for line in out.splitlines():
        if line.startswith("STATS "):
            stats = json.loads(line[6:])
        elif line.startswith("FAIL "):
            fail = json.loads(line[5:])
        elif line.startswith("HARNESS"):
            harness = line
    return stats, fail, harness


def text_of(b):
    return b.decode("utf-8", "replace")


class Session:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.PROPS[prop] if prop else None
        self.rundir = os.path.join(VERIF, "target", f"run.{os.getpid()}")
        os.makedirs(self.rundir, exist_ok=True)
        self.n = 0

    def close(self):
        shutil.rmtree(self.rundir, ignore_errors=True)

    def temp(self, suffix):
        self.n += 1
        return os.path.join(self.rundir, f"t{self.n}.{suffix}")

    # ---------------------------------------------------------------- replays
    def replay(self, unit, lines, verbose=False, secs=60):
        """Execute `run` lines in a fresh process -> Fail or None (raises HarnessError)."""
        f = self.temp("replay")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        scratch = self.temp("d")
        os.makedirs(scratch)
        cmd = [unit.target.bin, "--prop", self.prop, "--replay", f] + (["--verbose"] if verbose else [])
        try:
            p = subprocess.run(cmd, env=unit.full_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=secs)
            rc, out = p.returncode, text_of(p.stdout)
        except subprocess.TimeoutExpired:
            rc, out = None, ""
        finally:
            os.unlink(f)
            shutil.rmtree(scratch, ignore_errors=True)
        self.last_out = out
        if rc == 0:
            return None
        if rc is None:
            return Fail(unit, {"class": "stall", "subject": "run", "detail": f"no end within {secs} s of real time"})
        if rc < 0 and -rc in ABORTS:
            return Fail(unit, {"class": "abort", "subject": "process", "detail": f"the process was ended by {signal.Signals(-rc).name}"})
        _, fail, harness = parse_out(out)
        if rc == 10 and fail:
            return Fail(unit, fail)
        raise HarnessError(f"replay in {unit.name()} ended with status {rc}: {harness or out[-400:]}")

    # ----------------------------------------------------------------- search
    def worker(self, unit, start, stride, count, cap, base, extra=()):
        at, sets = self.temp("at"), self.temp("sets")
        scratch = self.temp("d")
        os.makedirs(scratch)
        cmd = [unit.target.bin, "--prop", self.prop, "--seed", str(base), "--start", str(start), "--stride", str(stride), "--count", str(count),
               "--max-secs", str(cap), "--at", at, "--sets", sets, *extra]
        with self.procs_lock:
            if self.stop:
                return None
            p = subprocess.Popen(cmd, env=unit.full_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=cap + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            raise HarnessError(f"worker on {unit.name()} did not end")
        finally:
            with self.procs_lock:
                self.procs.discard(p)
            shutil.rmtree(scratch, ignore_errors=True)
        out = text_of(out)
        rc = p.returncode
        if rc == 0:
            stats, _, _ = parse_out(out)
            data = open(sets, "rb").read()
            os.unlink(sets)
            return ("stats", unit, stats, data)
        if rc == -signal.SIGTERM and self.stop:
            return None
        if rc < 0 and -rc in ABORTS:
            rs, idx = open(at).read().split()
            f = Fail(unit, {"class": "abort", "subject": "process", "detail": f"the process was ended by {signal.Signals(-rc).name}", "run_seed": int(rs), "index": int(idx)}, start, stride)
            return ("fail", unit, f, None)
        _, fail, harness = parse_out(out)
        if rc == 10 and fail:
            return ("fail", unit, Fail(unit, fail, start, stride), None)
        raise HarnessError(f"worker on {unit.name()} ended with status {rc}: {harness or out[-400:]}")

    def base_of(self, unit):
        h = hashlib.sha256(f"{self.seed}/{unit.name()}".encode()).digest()
        return int.from_bytes(h[:7], "big")

    def search(self, units, count, cap, special):
        """count runs per unit, spread over the workers; at most cap seconds in all.
        special: target description -> (count, share of the cap, runs of the self-test)"""
        self.procs, self.procs_lock, self.stop = set(), threading.Lock(), False
        per = max(1, -(-WORKERS // len(units)))
        share = min(1.0, WORKERS / (per * len(units)))
        jobs = []
        for u in units:
            for k in range(per):
                n, part, _ = special.get(u.target.describe(), (count, 1, 0))
                jobs.append((u, k, per, max(1, n // per), max(2, int(cap * share * part)), self.base_of(u)))
        agg = collections.Counter()
        counters = collections.Counter()
        samples, sets = [], {b"I": set(), b"S": set(), b"N": set()}
        fails = []
        per_unit = collections.Counter()
        with ThreadPoolExecutor(WORKERS) as ex:
            futs = [ex.submit(self.worker, *j) for j in jobs]
            err = None
            for f in futs:
                try:
                    r = f.result()
                except HarnessError as e:
                    err = err or e
                    continue
                if r is None:
                    continue
                if r[0] == "fail":
                    fails.append(r[2])
                    if not self.stop:
                        # give the others a moment, then end them
                        self.stop = True
                        time.sleep(0.5)
                        with self.procs_lock:
                            for p in self.procs:
                                p.terminate()
                    continue
                _, unit, st, data = r
                per_unit[unit.name()] += st["runs"]
                for k in ("runs", "sim_time", "steps", "switches", "choices"):
                    agg[k] += st[k]
                agg["cpu"] += st["wall"]
                counters.update(st["counters"])
                if len(samples) < 6 and st["samples"]:
                    samples.append(f"{unit.name()}: {st['samples'][len(samples) % len(st['samples'])]}")
                for i in range(0, len(data), 9):
                    s = sets[data[i:i + 1]]
                    if len(s) < 2_000_000:
                        s.add((unit.name(), data[i + 1:i + 9]))
            if err and not fails:
                raise err
        return fails, agg, counters, samples, {k: len(v) for k, v in sets.items()}, per_unit

    def self_test(self, units, runs, special):
        """The same runs in other processes, in another order: every digest must agree."""
        compared = 0
        for u in units:
            base = self.base_of(u)
            n = special[u.target.describe()][2] if u.target.describe() in special else runs
            files = [self.temp("dig") for _ in range(3)]
            plans = [(0, 1, n, files[0]), (0, 2, n // 2, files[1]), (1, 2, n // 2, files[2])]
            self.procs, self.procs_lock, self.stop = set(), threading.Lock(), False
            with ThreadPoolExecutor(3) as ex:
                rs = list(ex.map(lambda p: self.worker(u, p[0], p[1], p[2], 60, base, ("--digests", p[3])), plans))
            for r in rs:
                if r and r[0] == "fail":
                    return compared, r[2], None
            a = dict(l.split(" ", 1) for l in open(files[0]))
            for f in files[1:]:
                for l in open(f):
                    i, d = l.split(" ", 1)
                    if i in a:
                        compared += 1
                        if a[i] != d:
                            return compared, None, (u, int(i))
        return compared, None, None

    # ----------------------------------------------------------- minimisation
    def minimise(self, fail):
        """-> (replay lines, Fail as reproduced) or None."""
        u = fail.unit
        t0 = time.time()
        # the first violation is what the verdict needs: it gets most of the time
        self.minimised = getattr(self, "minimised", 0) + 1
        budget = (20 if self.tier == "quick" else 90) / (1 if self.minimised == 1 else 4)

        def same(f):
            return f is not None and f.cls == fail.cls and (f.subject == fail.subject or fail.cls in ("abort", "stall"))

        if fail.cls == "abort":
            lines = [f"run seed {fail.seed}"]
            if same(self.replay(u, lines)):
                return lines, fail
        else:
            ch = [c[2] for c in fail.choices]
            enc = lambda c: ["run choices " + ",".join(map(str, c))]
            r = self.replay(u, enc(ch))
            if same(r):
                cur, best = ch, r

                def attempt(c):
                    nonlocal cur, best
                    r = self.replay(u, enc(c))
                    if same(r):
                        # what was really consumed
                        got = [x[2] for x in r.choices]
                        cur, best = (got if len(got) <= len(c) and len(got) > 0 else c), r
                        while cur and cur[-1] == 0:
                            cur = cur[:-1]
                        return True
                    return False

                if fail.cls != "stall":
                    progress = True
                    while progress and time.time() - t0 < budget:
                        progress = False
                        size = max(1, len(cur) // 2)
                        while size >= 1 and time.time() - t0 < budget:
                            k = 0
                            while k < len(cur) and time.time() - t0 < budget:
                                if attempt(cur[:k] + cur[k + size:]):
                                    progress = True
                                    continue
                                if any(cur[k:k + size]) and attempt(cur[:k] + [0] * len(cur[k:k + size]) + cur[k + size:]):
                                    progress = True
                                k += size
                            size //= 2
                        for k in range(len(cur)):
                            if time.time() - t0 > budget or k >= len(cur):
                                break
                            for v in (1, cur[k] // 2):
                                if 0 < v < cur[k] and attempt(cur[:k] + [v] + cur[k + 1:]):
                                    progress = True
                                    break
                    # a final, exact confirmation
                r = self.replay(u, enc(cur), verbose=True)
                if same(r):
                    return enc(cur), r
        # it needs what earlier runs of that process left behind
        if fail.index is not None and fail.index >= 0:
            base = self.base_of(u)
            seeds = self.seeds(u, fail, base)
            lines = [f"run seed {s}" for s in seeds]
            lo = len(lines)
            r = self.replay(u, lines, secs=300)
            if same(r):
                # shortest suffix, then drop chunks
                pre, last = lines[:-1], lines[-1]
                size = max(1, len(pre) // 2)
                t1 = time.time()
                while size >= 1 and time.time() - t1 < budget:
                    k = 0
                    while k < len(pre) and time.time() - t1 < budget:
                        cand = pre[:k] + pre[k + size:]
                        if time.time() - t1 > budget:
                            break
                        if same(self.replay(u, cand + [last], secs=300)):
                            pre = cand
                        else:
                            k += size
                    size //= 2
                r = self.replay(u, pre + [last], verbose=True, secs=300)
                if same(r):
                    return pre + [last], r
        return None

    def seeds(self, u, fail, base):
        out = []
        p = subprocess.run([u.target.bin, "--prop", self.prop, "--seed", str(base), "--start", str(fail.start), "--stride", str(fail.stride),
                            "--count", str((fail.index - fail.start) // fail.stride + 1), "--list-seeds"],
                           env=u.full_env(self.rundir), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        for l in text_of(p.stdout).splitlines():
            if l.startswith("SEED "):
                out.append(l[5:])
        return out

    def write_replay(self, fail, lines, repro, mode="run"):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        head = ["# replay of a simulated run of dtolnay/thiserror; `check --replay THIS` executes it",
                f"property {self.prop}", f"target {fail.unit.target.header()}"]
        for k, v in sorted(fail.unit.env.items()):
            head.append(f"env {k}={v}")
        head += [f"mode {mode}", f"class {repro.cls}", "subject " + repro.subject.replace("\n", " "), f"digest {repro.digest}"]
        body = list(lines)
        tail = ["# found with VERIF_SEED=%s in run seed %s" % (self.seed, fail.seed), "# " + repro.detail.replace("\n", "\n# ")]
        if repro.choices:
            tail.append("# choices: " + " ".join(f"{c[0]}={c[2]}/{c[1]}" for c in repro.choices))
        tail += ["# trace: " + t.replace("\n", "\\n") for t in repro.trace[-200:]]
        text = "\n".join(head + body + tail) + "\n"
        h = hashlib.sha256(text.encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{repro.cls}-{h}.replay")
        with open(path, "w") as f:
            f.write(text)
        return path

    def report(self, fail, lines, repro, mode="run"):
        path = self.write_replay(fail, lines, repro, mode)
        log(f"{self.prop}: {repro.cls} in {repro.subject}\n  {repro.detail}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return path

    def confirm(self, fail):
        """Reproduce, minimise, report -> replay path, or None for a stall caused by a slow machine."""
        m = self.minimise(fail)
        if m is None:
            if fail.cls == "stall":
                log("a stall did not reproduce; ignored")
                return None
            if fail.cls == "abort":
                raise HarnessError(f"{fail.detail} in run seed {fail.seed} of {fail.unit.name()}, which did not happen again")
            log("note: the violation did not reproduce in a fresh process")
            return self.report(fail, [f"run seed {fail.seed}"], fail)
        return self.report(fail, *m)


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + prop + " "):
                d = l.split(" ", 2)[2]
                out.append(d)
    return out


# ------------------------------------------------------------------------- check
def check(prop, tier, seed):
    t0 = time.time()
    s = Session(prop, tier, seed)
    try:
        return run_check(s, t0)
    except HarnessError as e:
        log(f"{prop}: no verdict: {e}")
        return 3
    finally:
        s.close()


def run_check(s, t0):
    prop, tier = s.prop, s.tier
    cfg = s.spec[tier]
    targets = s.spec["targets"](s.seed, tier)
    rejected = []

    def build(t):
        try:
            t.build(s.rundir)
            for n, why in t.rejected.items():
                rejected.append((t, n, why))
            return t
        except Rejected as r:
            rejected.append((t, r.subject, r.detail))
            return None
    with ThreadPoolExecutor(WORKERS) as ex:
        built = [t for t in ex.map(build, targets) if t]
    t_build = time.time() - t0
    log(f"{prop}: built {len(built)} simulation binaries in {t_build:.0f} s")
    units = [Unit(t, e) for t in built for e in s.spec.get("envs", [{}])]
    violations = []
    fails, agg, counters, samples, sets, per_unit = [], collections.Counter(), collections.Counter(), [], {b"I": 0, b"S": 0, b"N": 0}, {}
    t1 = time.time()
    compared = 0
    known = known_findings(prop)
    for u in units:
        u.known = "\n".join(known)
    if units:
        fails, agg, counters, samples, sets, per_unit = s.search(units, cfg["runs"], cfg["secs"], cfg.get("units", {}))
        t_search = time.time() - t1
        seen = set()
        fails.sort(key=lambda f: (f.unit.name(), f.index))
        for f in fails:
            if f.key() in seen or len(violations) >= 3:
                continue
            seen.add(f.key())
            path = s.confirm(f)
            if path:
                violations.append({"class": f.cls, "subject": f.subject, "detail": f.detail[:500], "replay": path})
        if not violations:
            compared, f, mismatch = s.self_test(units[:: max(1, len(units) // 4)], cfg["selftest"], cfg.get("units", {}))
            if f is not None:
                path = s.confirm(f)
                if path:
                    violations.append({"class": f.cls, "subject": f.subject, "detail": f.detail[:500], "replay": path})
            elif mismatch:
                u, i = mismatch
                if prop in ("C04", "C07", "C09", "C11"):
                    f = Fail(u, {"class": "history-dependent", "subject": "run", "detail": f"run {i} behaves differently when other runs precede it in its process", "index": i})
                    path = s.report(f, [f"base {s.base_of(u)}", f"index {i}"], f, mode="compare")
                    violations.append({"class": f.cls, "subject": f.subject, "detail": f.detail, "replay": path})
                else:
                    raise HarnessError(f"run {i} of {u.name()} is not reproducible")
    else:
        t_search = 0
    if not violations:
        for t, n, why in rejected:
            if n == "compilation" or n[0] in s.spec.get("relevant", ""):
                t.skip = [x for x in getattr(t, "skip", []) if x not in t.rejected]
                f = Fail(Unit(t, {}), {"class": "derive-rejected", "subject": n, "detail": "a program within the documented use of the derive is no longer accepted:\n" + why[:1500]})
                path = s.report(f, [], f, mode="compile")
                violations.append({"class": f.cls, "subject": n, "detail": why[:500], "replay": path})
                break
    # evidence
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    known_hit = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("known:")}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault:", "known:"))}
    hours = max(t_search, 1e-6) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": s.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": sets[b"N"],
            "rule": s.spec["rule"] + " One evaluation is one simulated run, decided by one seed. Non-trivial: at least one fault really fired or at least one context switch happened; distinct: by digest of the event log, choices and outcome of the run (at most 300000 kept per worker process).",
            "samples": samples or ["no run finished: " + "; ".join(v["class"] for v in violations)],
            "simulated_runs_per_hour": int(agg["runs"] / hours),
            "seeds_per_hour": int(agg["runs"] / hours),
            "simulated_time_ticks": agg["sim_time"],
            "scheduler_steps": agg["steps"],
            "context_switches": agg["switches"],
            "random_choices": agg["choices"],
            "faults_injected": faults,
            "workload_counters": other,
            "distinct_interleavings": sets[b"I"],
            "distinct_interleavings_measure": "hash of the sequence of (task chosen, yield point) of a run",
            "distinct_states": sets[b"S"],
            "distinct_states_measure": s.spec["states"],
            "runs_per_binary": dict(per_unit),
            "determinism_self_test": f"{compared} runs repeated in other processes, in another order; digests of event log, choices and schedule compared" if not violations else "not run: violation found first",
            "real_components": s.spec["real"],
            "stub_components": s.spec["stub"],
            "binaries": [t.header() for t in built],
            "rejected_programs": [f"{t.describe()} {n}" for t, n, _ in rejected],
            "build_s": round(t_build, 1),
        },
        "assumptions": s.spec["assumptions"],
        "violations": violations,
        "wall_s": round(wall, 1),
    }
    if known_hit:
        ev["coverage"]["known_findings_hit"] = known_hit
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    log(f"{prop}: {agg['runs']} runs in {t_search:.0f} s, {sets[b'I']} interleavings, {sets[b'S']} states, {sum(faults.values())} faults, {len(violations)} violations, {wall:.0f} s in all")
    return 1 if violations else 0


# ------------------------------------------------------------------------ replay
def replay_file(path):
    h = {"env": {}}
    lines, extra = [], {}
    for l in open(path, encoding="utf-8"):
        l = l.rstrip("\n")
        if l.startswith("run "):
            lines.append(l)
        elif l.startswith("#") or not l.strip():
            continue
        else:
            k, v = l.split(" ", 1)
            if k == "env":
                a, b = v.split("=", 1)
                h["env"][a] = b
            else:
                h[k] = v
    prop = h["property"]
    s = Session(prop, "quick", 1)
    try:
        t = props.target_by_header(h["target"])
        mode = h.get("mode", "run")
        try:
            t.build(s.rundir, tolerate=mode == "compile")
        except Rejected as r:
            if mode == "compile":
                log(str(r))
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            raise HarnessError(str(r))
        if mode == "compile":
            if h["subject"] in t.rejected:
                log(t.rejected[h["subject"]])
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("not reproduced: the program is accepted")
            return 0
        u = Unit(t, h["env"])
        u.known = "\n".join(known_findings(prop))
        if mode == "compare":
            i, base = int(h["index"]), int(h["base"])
            s.procs, s.procs_lock, s.stop = set(), threading.Lock(), False
            a, b = s.temp("a"), s.temp("b")
            s.worker(u, 0, 1, i + 1, 300, base, ("--digests", a))
            s.worker(u, i % 2, 2, i // 2 + 1, 300, base, ("--digests", b))
            da, db = (dict(l.split(" ", 1) for l in open(f)) for f in (a, b))
            if da.get(str(i)) != db.get(str(i)):
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("not reproduced")
            return 0
        r = s.replay(u, lines, verbose=True, secs=300)
        if r is None:
            print("not reproduced")
            return 0
        r2 = s.replay(u, lines, verbose=True, secs=300)
        for x in r.trace:
            log("  " + x)
        log(f"{r.cls} in {r.subject}: {r.detail}")
        if r2 is None or (r2.cls, r2.subject, r2.digest) != (r.cls, r.subject, r.digest):
            log("warning: a second replay ended differently")
        if (r.cls, r.subject) != (h["class"], h["subject"]):
            log(f"note: recorded as {h['class']} in {h['subject']}")
        elif h.get("digest") and h["digest"] != r.digest:
            log("note: same violation, the event log differs from the recorded one")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except HarnessError as e:
        log(f"no verdict: {e}")
        return 3
    finally:
        s.close()


def main(argv):
    if argv and argv[0] == "--replay":
        return replay_file(argv[1])
    if argv and argv[0] == "--setup":
        return setup()
    if not argv or argv[0] not in props.PROPS:
        log(__doc__, "\nproperties:", " ".join(props.PROPS))
        return 2
    get = lambda k, d: argv[argv.index(k) + 1] if k in argv else d
    tier = get("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(get("--seed", os.environ.get("VERIF_SEED") or "1"))
    return check(argv[0], tier if tier in ("quick", "thorough") else "quick", seed)


def setup():
    """Build the framework once (every check rebuilds what it needs itself)."""
    s = Session(None, "quick", 1)
    try:
        for t in [World(1, 0, "std", 2)]:
            t.build(s.rundir)
    except (HarnessError, Rejected) as e:
        log(str(e))
        return 1
    finally:
        s.close()
    return 0
