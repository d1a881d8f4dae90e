#!/usr/bin/env python3
"""Runs the simulation campaign of one property, or replays a recorded failure.

  check.py ID              campaign (VERIF_SEED, VERIF_TIER)
  check.py --build         only build the simulator
  check.py --replay FILE   execute a replay file: exit 1 if the failure occurs again
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
FINDINGS = os.path.join(ROOT, "known_findings.txt")

# runs of the quick tier; the thorough tier multiplies them
RUNS = {"C01": 220000, "C02": 100000, "C03": 100000, "C04": 360000, "C05": 500000, "C06": 400000, "C07": 440000,
        "C08": 400000, "C09": 200000, "C10": 500000, "C11": 500000, "C12": 320000, "C13": 340000, "C14": 400000}
THOROUGH = 10
# runs of short-lived processes
EACH = [2, 8, 32, 128]

FAULTS = {
    "alloc_fail": "an allocation of the code under test fails",
    "device_fail": "one access to the user-supplied storage fails",
    "bad_sector": "a region of the user-supplied storage fails permanently",
    "sink_fail": "the formatting sink fails or takes only part of the data",
    "strategy_panic": "the user-supplied search strategy panics",
    "strategy_lie": "the user-supplied search strategy returns a wrong answer",
    "sink_panic": "the formatting sink panics",
    "nested_use": "user-supplied code itself uses the library in the middle of an operation",
    "range_panic": "the user-supplied range object panics",
    "rejected_op": "an operation that has to be refused",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def simd():
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return " ssse3 " in flags and " sse4_1 " in flags


def build():
    """Builds both configurations from the current working tree of /repo."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bins = {}
        for name, args in (("dev", []), ("rel", ["--release"])):
            target = os.path.join(TARGET, name)
            # the code under test is always compiled again
            for d in glob.glob(target + "/*/.fingerprint/succinct_neo-*"):
                shutil.rmtree(d, ignore_errors=True)
            flags = "-Cunsafe-allow-abi-mismatch=sanitizer"
            if name == "rel" and simd():
                flags += " -Ctarget-feature=+ssse3,+sse4.1"
            env = dict(os.environ, RUSTC_BOOTSTRAP="1", RUSTC_WRAPPER=os.path.join(ROOT, "bin/rustc-wrap.sh"),
                       RUSTFLAGS=flags, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
            env.pop("CARGO_ENCODED_RUSTFLAGS", None)
            r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + args, cwd=os.path.join(ROOT, "sim"), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                log(r.stdout)
                log("the simulator does not build")
                sys.exit(2)
            built = os.path.join(target, "release" if args else "debug", "sim")
            # a private copy: another check may rebuild while this one runs
            bins[name] = built
        return bins


def private(bins, tmp):
    out = {}
    for k, b in bins.items():
        out[k] = os.path.join(tmp, "sim-" + k)
        shutil.copy2(b, out[k])
    return out


def findings():
    known = set()
    try:
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\w+) site=([\w-]+)", l)
            if m:
                known.add((m.group(1), m.group(2)))
    except OSError:
        pass
    return known


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except OSError:
        return [0]


def sig_class(rc):
    try:
        return "crash-" + signal.Signals(-rc).name
    except ValueError:
        return f"crash-{rc}"


class Result:
    def __init__(self, cls=None, msg="", hash_="", known=()):
        self.cls, self.msg, self.hash, self.known = cls, msg, hash_, known


def one(binary, path, sched=None, timeout=60):
    """Executes one plan in a fresh process."""
    cmd = [binary, "replay", path] + ([sched] if sched else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return Result("hang", f"no end within {timeout} s of real time")
    res = Result()
    for l in r.stdout.splitlines():
        w = l.split(" ", 2)
        if w[0] == "VIOL":
            res.cls, res.msg = w[1], w[2]
        elif w[0] == "HASH":
            res.hash = w[1]
        elif w[0] == "KNOWN":
            res.known = res.known + ((w[1], w[2]),)
    if res.cls is None and r.returncode != 0:
        if r.returncode == 70:
            log(r.stderr)
            raise SystemExit(2)
        res.cls = sig_class(r.returncode) if r.returncode < 0 else f"exit-{r.returncode}"
        tail = [l for l in r.stderr.splitlines() if l.strip()][-3:]
        res.msg = "the process died while executing the plan: " + " | ".join(tail)
    return res


def split_plan(text):
    head, ops, faults, sw, cfg = [], [], [], [], []
    has = False
    for l in text.splitlines():
        if l.startswith("op "):
            ops.append(l)
        elif l.startswith("fault "):
            faults.append(l)
        elif l.startswith("sw "):
            sw.append(l)
            has = True
        elif l == "schedule":
            has = True
        elif l.startswith("cfg "):
            cfg.append(l)
        elif l.strip():
            head.append(l)
    return head, cfg, ops, faults, (sw if has else None)


def join_plan(head, cfg, ops, faults, sw):
    out = head + cfg + ops + faults
    if sw is not None:
        out = out + ["schedule"] + sw
    return "\n".join(out) + "\n"


class Minimiser:
    def __init__(self, binary, tmp, cls, known, seconds):
        self.binary, self.tmp, self.cls, self.known = binary, tmp, cls, known
        self.end = time.time() + seconds
        self.tries = 0

    def fails(self, parts):
        self.tries += 1
        path = os.path.join(self.tmp, "try.txt")
        with open(path, "w") as f:
            f.write(join_plan(*parts))
        r = one(self.binary, path, timeout=30)
        if self.known:
            return any(k == self.known for k, _ in r.known)
        return r.cls == self.cls

    def ddmin(self, parts, i):
        """Removes lines of section i while the same failure remains."""
        n = 2
        while time.time() < self.end:
            lines = parts[i]
            if not lines:
                break
            size = max(1, len(lines) // n)
            done = False
            for s in range(0, len(lines), size):
                if time.time() > self.end:
                    return parts
                cand = parts[:i] + [lines[:s] + lines[s + size:]] + parts[i + 1:]
                if self.fails(cand):
                    parts = cand
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(lines), n * 2)
        return parts

    def shrink_numbers(self, parts):
        """Tries smaller sizes in the configuration."""
        for k, l in enumerate(list(parts[1])):
            w = l.split()
            if w[1] in ("seed", "period", "weight", "op_switch", "budget", "actors"):
                continue
            v = int(w[2])
            for c in sorted({0, 1, v // 16, v // 4, v // 2, v - 1}):
                if not 0 <= c < v or time.time() > self.end:
                    continue
                cfg = list(parts[1])
                cfg[k] = f"cfg {w[1]} {c}"
                cand = [parts[0], cfg] + parts[2:]
                if self.fails(cand):
                    parts = cand
                    break
        return parts

    def run(self, text):
        parts = list(split_plan(text))
        for _ in range(3):
            before = join_plan(*parts)
            for i in (2, 3, 4):
                if parts[i]:
                    parts = self.ddmin(parts, i)
            parts = self.shrink_numbers(parts)
            if join_plan(*parts) == before:
                break
        return join_plan(*parts)


def record(prop, seed, build_name, binary, index, tmp, expect, known=None, start=None, stride=None, seconds=60):
    """Turns a failing run into a replay file. Returns (path, class, message)."""
    plan = subprocess.run([binary, "plan", prop, str(seed), str(index)], stdout=subprocess.PIPE, text=True).stdout
    path = os.path.join(tmp, "plan.txt")
    open(path, "w").write(plan)
    sched = os.path.join(tmp, "sched.txt")
    r = one(binary, path, sched)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    out = os.path.join(ROOT, "replays", f"{prop}-{seed}-{index}-{build_name}.txt")

    def hit(r):
        return any(k == known for k, _ in r.known) if known else r.cls is not None

    if hit(r):
        cls = r.cls
        text = plan
        if cls != "hang" and os.path.exists(sched):
            full = plan + "schedule\n" + open(sched).read()
            open(path, "w").write(full)
            r2 = one(binary, path)
            if (known and hit(r2)) or (not known and r2.cls == cls):
                text = full
        small = Minimiser(binary, tmp, cls, known, seconds).run(text) if cls != "hang" else text
        open(path, "w").write(small)
        r3 = one(binary, path)
        again = one(binary, path)
        msg = next((m for k, m in r3.known if k == known), "") if known else r3.msg
        with open(out, "w") as f:
            f.write(f"# property {prop}: {known or r3.cls}: {msg}\n# event hash {r3.hash}; repeated in a second process: "
                    f"{'identical' if r3.hash == again.hash else 'different'}\n")
            f.write(f"# replay: python3 bin/check.py --replay {os.path.relpath(out, ROOT)}\n")
            f.write(f"build {build_name}\nexpect {known or r3.cls}\n{small}")
        return out, known or r3.cls or cls, msg or r.msg
    # the failure needs what earlier runs of the process left behind: replay them too
    first = start if start is not None else index
    total = (index - first) // (stride or 1) + 1

    def batch(n):
        s = index - (n - 1) * (stride or 1)
        d = os.path.join(tmp, "batch")
        os.makedirs(d, exist_ok=True)
        try:
            r = subprocess.run([binary, "run", prop, str(seed), str(s), str(n), str(stride or 1), str(cpus()[0]), "3600", d],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return True
        return r.returncode != 0 or "VIOL" in r.stdout

    n = 1
    while n < total and not batch(n):
        n = min(total, n * 4)
    s = index - (n - 1) * (stride or 1)
    with open(out, "w") as f:
        f.write(f"# property {prop}: {expect}\n# needs the state left behind by earlier runs of the same process\n")
        f.write(f"build {build_name}\nexpect {expect}\nbatch {prop} {seed} {s} {n} {stride or 1}\n")
    return out, expect, "(reproduces only together with the runs before it)"


def replay(path):
    text = open(path).read()
    bins = build()
    name = re.search(r"^build (\w+)", text, re.M).group(1)
    expect = re.search(r"^expect (\S+)", text, re.M).group(1)
    prop = None
    with tempfile.TemporaryDirectory() as tmp:
        b = re.search(r"^batch (\w+) (\d+) (\d+) (\d+) (\d+)", text, re.M)
        if b:
            prop = b.group(1)
            r = subprocess.run([bins[name], "run"] + list(b.groups()) + [str(cpus()[0]), "3600", tmp], stdout=subprocess.PIPE, text=True)
            hit = r.returncode != 0 or "VIOL" in r.stdout
            print(r.stdout)
        else:
            prop = re.search(r"^prop (\w+)", text, re.M).group(1)
            r = one(bins[name], path)
            hit = r.cls == expect or any(k == expect for k, _ in r.known)
            print(r.cls, r.msg, r.known, r.hash)
    if hit:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def campaign(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7FFFFFFFFFFFFFFF
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        return campaign_in(prop, seed, tier, t0, tmp)


def campaign_in(prop, seed, tier, t0, tmp):
    bins = private(build(), tmp)
    built = time.time()
    total = RUNS[prop] * (THOROUGH if tier == "thorough" else 1)
    limit = 420 if tier == "quick" else 5400
    cs = cpus()
    per = max(1, len(cs) // 2)
    stride = 2 * per
    jobs = []

    # half of the runs in processes that live long, half in short-lived ones: what the code under test keeps in statics stays for the
    # following runs of a process, and that can make a failure possible or prevent it
    half = total // 2 // stride
    for k in range(2 * stride):
        d = os.path.join(tmp, f"w{k}")
        os.makedirs(d)
        jobs.append({"k": k % stride + k // stride * half * stride, "each": 0 if k < stride else EACH[k // 2 % len(EACH)], "name": "dev" if k % 2 == 0 else "rel",
                     "dir": d, "p": None, "seen": None, "at": time.time(), "stalls": []})

    def empty(j):
        for f in ("stats", "hashes"):
            open(os.path.join(j["dir"], f), "w").close()

    for j in jobs:
        empty(j)
    waiting = list(jobs)
    free = list(cs)
    running = []
    bad = None
    while (waiting or running) and bad is None:
        while waiting and len(running) < max(1, len(cs)):
            j = waiting.pop(0)
            left = max(0, limit - int(time.time() - built))
            j["cpu"] = free.pop(0)
            j["cmd"] = [bins[j["name"]], "run", prop, str(seed), str(j["k"]), str(half), str(stride), str(j["cpu"]), str(left), j["dir"], str(j["each"])]
            empty(j)
            with open(os.path.join(j["dir"], "out"), "w") as out:
                j["p"] = subprocess.Popen(j["cmd"], stdout=out, stderr=subprocess.STDOUT)
            j["at"] = time.time()
            running.append(j)
        time.sleep(0.02)
        for j in list(running):
            rc = j["p"].poll()
            try:
                pr = open(os.path.join(j["dir"], "progress")).read()
            except OSError:
                pr = ""
            if pr != j["seen"]:
                j["seen"], j["at"] = pr, time.time()
            if rc is None:
                if time.time() - j["at"] > 120:
                    j["p"].kill()
                    j["p"].wait()
                    # everything is deterministic: a real hang comes back at the same run
                    if pr in j["stalls"]:
                        bad = (j, int(pr or j["k"]), "hang", "no progress within 120 s of real time")
                        break
                    j["stalls"].append(pr)
                    running.remove(j)
                    free.append(j["cpu"])
                    waiting.append(j)
                continue
            running.remove(j)
            free.append(j["cpu"])
            if rc == -signal.SIGKILL:
                # not the program's doing: the machine ran out of memory, or somebody stopped it
                j["stalls"].append("killed")
                waiting.append(j)
            if len(j["stalls"]) > 3 or j["stalls"].count("killed") > 1:
                log("the simulator is stopped again and again")
                for x in running:
                    x["p"].kill()
                return 2
            if rc == -signal.SIGKILL:
                continue
            out = open(os.path.join(j["dir"], "out")).read()
            if rc == 70 or rc == 101:
                log(out)
                log("the simulator itself failed")
                for x in running:
                    x["p"].kill()
                return 2
            m = re.search(r"^VIOL (\S+) (.*)$", out, re.M)
            if m or rc != 0:
                cls, msg = (m.group(1), m.group(2)) if m else (sig_class(rc), out.strip()[-300:])
                bad = (j, int(pr or j["k"]), cls, msg)
                break
    for j in running:
        j["p"].kill()
    for j in running:
        j["p"].wait()
    searched = time.time() - built
    known_listed = findings()
    sums, counts, points, kinds, actors, known = {}, {}, {}, {}, {}, {}
    hashes, scheds, seeds = set(), set(), set()
    for j in jobs:
        for line in open(os.path.join(j["dir"], "stats")):
            if not line.endswith("\n"):
                continue  # its process was stopped
            s = json.loads(line)
            for k in ("runs", "nontrivial", "ops", "planned_faults", "switches", "preemptions", "steps", "sim_us"):
                sums[k] = sums.get(k, 0) + s[k]
            for src, dst in (("counts", counts), ("points", points), ("kinds", kinds), ("actors", actors)):
                for k, v in s[src].items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in s["known"].items():
                e = known.setdefault(k, {"runs": 0, "first": None})
                e["runs"] += v
                i, m = s["known_first"][k]
                if e["first"] is None or i < e["first"][0]:
                    e["first"] = (i, m, j["name"], j)
        for l in open(os.path.join(j["dir"], "hashes")):
            h, sc, sd, busy = l.split()
            seeds.add(sd)
            if busy == "1":
                hashes.add(h)
                scheds.add(sc)
    violation = None
    if bad:
        j, index, cls, msg = bad
        log(f"run {index} ({j['name']}): {cls}: {msg}")
        # the first run of the process that failed
        first = j["k"] if not j["each"] else index - (index - j["k"]) // stride % j["each"] * stride
        path, cls, msg = record(prop, seed, j["name"], bins[j["name"]], index, tmp, cls, start=first, stride=stride)
        violation = (path, cls, msg)
    quiet = []
    for k, e in sorted(known.items()):
        if (prop, k) in known_listed:
            quiet.append((k, e))
        elif violation is None:
            i, m, name, j = e["first"]
            path, cls, msg = record(prop, seed, name, bins[name], i, tmp, k, known=k)
            violation = (path, cls, msg)
    det = {"runs_compared": 0, "identical": True}
    if violation is None:
        for name in ("dev", "rel"):
            k = 0 if name == "dev" else 1
            cmd = [bins[name], "hashes", prop, str(seed), str(k), "40", "2", str(cs[0])]
            a = subprocess.run(cmd, stdout=subprocess.PIPE, text=True).stdout
            b = subprocess.run(cmd[:-1] + [str(cs[-1])], stdout=subprocess.PIPE, text=True).stdout
            det["runs_compared"] += len(a.splitlines())
            if a != b or not a:
                det["identical"] = False
                log("warning: two executions of the same seeds differ")
    samples = []
    for i in range(2):
        r = subprocess.run([bins["dev"], "plan", prop, str(seed), str(i)], stdout=subprocess.PIPE, text=True)
        samples.append({"run": i, "plan": r.stdout.splitlines()[:40]})
    wall = time.time() - t0
    rate = sums.get("runs", 0) / max(searched, 0.001) * 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sums.get("runs", 0),
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated execution: a plan (structures, operations per thread, faults) and a schedule, all "
                    "derived from the seed and the run index. It is non-trivial if the structure is not empty and at least one thread was "
                    "preempted inside or before an operation; two are distinct if the hashes over the whole sequence of memory accesses, "
                    "switches, faults and results differ.",
            "samples": samples,
            "runs_per_hour": round(rate), "seeds_per_hour": round(len(seeds) / max(searched, 0.001) * 3600),
            "distinct_seeds": len(seeds),
            "nontrivial_runs": sums.get("nontrivial", 0),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": "hash over the sequence of (thread, operation, access number, next thread) of all switches",
            "simulated_seconds": round(sums.get("sim_us", 0) / 1e6, 3),
            "simulated_time_rule": "one microsecond per scheduling point",
            "operations": sums.get("ops", 0), "operations_by_kind": kinds,
            "scheduling_points": points, "switches": sums.get("switches", 0), "preemptions": sums.get("preemptions", 0),
            "threads_per_run": actors,
            "faults_injected": {k: counts.get(k, 0) for k in FAULTS if k in counts}, "faults_meaning": {k: v for k, v in FAULTS.items() if k in counts},
            "other_counts": {k: v for k, v in counts.items() if k not in FAULTS},
            "real_components": ["succinct_neo, compiled from /repo's working tree with every memory access instrumented, in a checked "
                                "(debug assertions, overflow checks) and an optimised build" + (" with SSE4.1" if simd() else ""),
                                "std collections, formatting and unwinding"],
            "simulated_components": ["thread scheduler", "allocator", "locks, clock, randomness and thread creation seen by the library",
                                     "user-supplied parts (storage, sink, strategy, range) where the property needs them"],
            "determinism_check": det,
            "known_findings_seen": {k: e["runs"] for k, e in quiet},
        },
        "assumptions": ["Threads interleave at memory accesses. In a quarter of the runs atomic loads may return an older value that the "
                        "memory model allows; other weak orders are covered in so far as unsynchronised conflicting accesses are reported as data races."],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, e in quiet:
        print(f"KNOWN-FINDING: property={prop} {k}: {e['first'][1]} (first in run {e['first'][0]}, {e['runs']} runs)")
    if violation:
        print(f"{violation[1]}: {violation[2]}")
        print(f"VIOLATION property={prop} replay={violation[0]}")
        return 1
    print(f"held: {sums.get('runs', 0)} runs, {len(hashes)} distinct, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--build"]:
        build()
        sys.exit(0)
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(replay(sys.argv[2]))
    sys.exit(campaign(sys.argv[1]))
