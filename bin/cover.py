#!/usr/bin/env python3
"""Simulates the coverage command (property C15): the real command, stand-ins for the programs it starts, failing
and crashing file-system and process calls.

  cover.py                 campaign (VERIF_SEED, VERIF_TIER)
  cover.py --replay FILE   execute a replay file: exit 1 if the failure occurs again

Everything happens in a scratch directory, as an unprivileged user that can write nowhere else.
"""
import concurrent.futures, fcntl, hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"
PROP = "C15"
NOBODY = 65534

FORMATS = {None: ("cobertura", "xml"), "xml": ("cobertura", "xml"), "cobertura": ("cobertura", "xml"), "lcov": ("lcov", "lcov"),
           "json": ("covdir", "json"), "covdir": ("covdir", "json"), "LCOV": ("lcov", "lcov"), "Json": ("covdir", "json"),
           "bogus": ("cobertura", "xml")}
ERRNO = {"mkdir": [5, 13, 28, 30], "unlink": [5, 13, 30], "unlinkat": [5, 13, 30], "opendir": [5, 13, 24], "readdir": [5],
         "open": [5, 13, 28], "write": [5, 28, 32], "spawn": [2, 11, 12, 13], "fork": [11, 12], "rmdir": [5], "rename": [5], "remove": [5]}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(scratch):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock-cover"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        target = os.path.join(TARGET, "xtask")
        for base, dirs, _ in os.walk(os.path.join(target, "debug", ".fingerprint")):
            for d in dirs:
                if d.startswith("xtask-"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            break
        env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER")}
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "xtask/Cargo.toml"),
                            "--target-dir", target], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout, "the coverage command does not build")
            sys.exit(2)
        b = os.path.join(scratch, "bin")
        os.makedirs(b)
        shutil.copy2(os.path.join(target, "debug", "xtask"), os.path.join(b, "xtask"))
    src = os.path.join(ROOT, "sim", "cover")
    for cmd in (["-shared", "-fPIC", "-o", b + "/shim.so", src + "/shim.c", "-ldl"], ["-o", b + "/stub", src + "/stub.c"]):
        r = subprocess.run(["cc", "-O1"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout)
            sys.exit(2)
    for n in ("cargo", "grcov", "grcov-other"):
        shutil.copy2(b + "/stub", os.path.join(b, n))
    for n in os.listdir(b):
        os.chmod(os.path.join(b, n), 0o755)
    os.chmod(b, 0o755)


def plan_tree(rnd):
    """Files that are there before the command starts."""
    files = {"Cargo.toml": "[workspace]", "succinct_neo/src/lib.rs": "lib", "succinct_neo/Cargo.toml": "[package]", "README.md": "x"}
    decoys = ["notes.profraw.bak", "data/a.profdata", "profraw", "succinct_neo/profraw/keep.txt", "data/x.profraw2", "xprofraw",
              "target/debug/deps/libx.rlib", "coverage/notes.txt", "succinct_neo/lcov.info", "data/deep/er/file.raw", "default.prof",
              "coverage.xml", "data/tests.xml", "data/B.PROFRAW", ".hidden/keep", "data/x.profraw~", "data/profraw.d/a.txt", "x.profraw.gz",
              "data/ü.profräw"]
    for d in rnd.sample(decoys, rnd.randint(0, len(decoys))):
        files[d] = "decoy " + d
    stale = ["old.profraw", "succinct_neo/cargo-test-1-2.profraw", "data/deep/er/x.profraw", "target/debug/y.profraw", ".cache/h.profraw",
             "data/.h.profraw", "data/with space.profraw", "data/[a].profraw", "data/{b}*?.profraw", "data/ä€.profraw", "data/-f.profraw", ".profraw",
             "data/a.b.profraw", "data/$(x).profraw", "data/d.profraw.d/e.profraw", "coverage/c.profraw", "xtask/t.profraw", "data/1/2/3/4/5/6/7/8/9/z.profraw"]
    for d in rnd.sample(stale, rnd.choice([0, 1, 2, 3, 3, 6])):
        files[d] = "stale " + d
    if rnd.random() < 0.02:
        for i in range(rnd.choice([40, 130])):
            files[f"data/many/{i}.profraw"] = "stale"
    for d, t in rnd.sample([("data/l.profraw", "-> ../README.md"), ("out.profraw", "-> ../outside/a.profraw"),
                            ("data/k", "-> ../old.profraw")], rnd.choice([0, 0, 0, 1, 2])):
        files[d] = t
    return files


def gen(rnd):
    p = {"cmd": rnd.choice(["cover"] * 7 + ["test_instr", "cover_only", "cover_only", "clean", "clean", "nothing"]), "fmt": rnd.choice(list(FORMATS)),
         "other_grcov": rnd.random() < 0.2, "files": plan_tree(rnd), "profiles": rnd.choice([0, 1, 2, 3, 5, 8]),
         "cargo": "ok", "cargo_at": 0, "version": "ok", "report": "ok", "calls": [], "missing": [], "blocked": False, "old_report": rnd.random() < 0.3, "again": rnd.random() < 0.1}
    if p["cmd"] == "nothing":
        p["fmt"] = None
    for _ in range(rnd.choice([0, 1, 1, 1, 2, 2, 3])):
        k = rnd.randrange(10)
        if k == 0:
            p["cargo"], p["cargo_at"] = rnd.choice(["fail", "fail101", "sig", "term", "killparent"]), rnd.randint(0, p["profiles"])
        elif k == 1:
            p["version"] = rnd.choice(["fail", "sig", "killparent"])
        elif k == 2:
            p["report"] = rnd.choice(["fail", "partial", "sig", "term", "killparent"])
        elif k == 3:
            p["missing"] = sorted(set(p["missing"] + [rnd.choice(["cargo", "grcov"])]))
        elif k == 4:
            p["blocked"] = True
        else:
            p["calls"].append([rnd.randrange(1, 1000), rnd.choice(["before", "after", "errno", "errno"]), rnd.randrange(100)])
    return p


def base_plans():
    """Scenarios whose single faults and crash points are all enumerated."""
    out = []
    rnd = random.Random(7)
    for cmd, fmt, prof in (("cover", None, 2), ("cover", "lcov", 1), ("cover_only", "json", 0), ("clean", None, 0), ("test_instr", None, 2)):
        p = {"cmd": cmd, "fmt": fmt, "other_grcov": False, "files": plan_tree(rnd), "profiles": prof, "cargo": "ok", "cargo_at": 0, "version": "ok",
             "report": "ok", "calls": [], "missing": [], "blocked": False, "old_report": cmd == "cover_only"}
        p["files"]["data/z.profraw"] = "stale"
        p["files"]["data/z.profdata"] = "decoy"
        out.append(p)
    return out


class Run:
    pass


def prepare(p, scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d)
    tree = os.path.join(d, "tree")
    for sub in (tree, os.path.join(d, "outside")):
        os.makedirs(sub)
    for f, t in p["files"].items():
        path = os.path.join(tree, f)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if t.startswith("-> "):
            os.symlink(t[3:], path)
        else:
            open(path, "w").write(t)
    if p["old_report"]:
        os.makedirs(os.path.join(tree, "coverage"), exist_ok=True)
        open(os.path.join(tree, "coverage", "tests." + FORMATS[p["fmt"]][1]), "w").write("old")
    if p["blocked"] and not os.path.exists(os.path.join(tree, "coverage")):
        open(os.path.join(tree, "coverage"), "w").write("in the way")
    open(os.path.join(d, "outside", "a.profraw"), "w").write("not ours")
    own = (NOBODY, NOBODY) if os.geteuid() == 0 else (-1, -1)
    for base, dirs, files in os.walk(d):
        os.chown(base, *own)
        for f in files:
            os.lchown(os.path.join(base, f), *own)
    return d


def snapshot(d):
    s = {}
    for base, dirs, files in os.walk(d):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(base, x))]:
            path = os.path.join(base, f)
            if os.path.islink(path):
                s[os.path.relpath(path, d)] = "link " + os.readlink(path)
            else:
                s[os.path.relpath(path, d)] = open(path, errors="replace").read()
    return s


def start(p, d, scratch, faults, number):
    logf = os.path.join(scratch, "log", os.path.basename(d) + f".{number}")
    open(logf, "w").close()
    os.chmod(logf, 0o666)
    path = os.path.join(scratch, "bin")
    if p["missing"] and faults is not None:
        path = os.path.join(scratch, "bin-" + "-".join(p["missing"]))
        if p["cmd"] and not os.path.isdir(path):
            os.makedirs(path, exist_ok=True)
            for n in ("cargo", "grcov", "grcov-other"):
                if n.split("-")[0] not in p["missing"] and not os.path.exists(os.path.join(path, n)):
                    try:
                        os.symlink(os.path.join(scratch, "bin", n), os.path.join(path, n))
                    except FileExistsError:
                        pass
    env = {"PATH": path, "HOME": d, "SIM_LOG": logf, "LD_PRELOAD": os.path.join(scratch, "bin", "shim.so"),
           "SIM_CARGO": f"{p['profiles']}:{p['cargo']}:{p['cargo_at']}" if faults is not None else f"{p['profiles']}:ok:0",
           "SIM_GRCOV": f"{p['version']}:{p['report']}" if faults is not None else "ok:ok",
           "SIM_FAULTS": ",".join(f"{n}:{w}" for n, w in (faults or []))}
    if p["other_grcov"]:
        env["GRCOV"] = os.path.join(path, "grcov-other")
    cmd = [os.path.join(scratch, "bin", "xtask")]
    if p["cmd"] != "nothing":
        cmd.append(p["cmd"])
        if p["fmt"]:
            cmd.append(p["fmt"])
    kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.geteuid() == 0 else {}
    r = Run()
    r.before = snapshot(d)
    try:
        q = subprocess.Popen(cmd, cwd=os.path.join(d, "tree"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True, **kw)
        try:
            r.status = q.wait(timeout=60)
            r.hang = False
        except subprocess.TimeoutExpired:
            r.hang = True
            os.killpg(q.pid, 9)
            r.status = q.wait()
    except OSError as e:
        log("cannot start the command", e)
        sys.exit(2)
    r.after = snapshot(d)
    r.no_directory = not os.path.isdir(os.path.join(d, "tree", "coverage"))
    r.log = open(logf).read().splitlines()
    return r


def in_tree(path):
    """A logged path relative to the directory of the history."""
    if path.startswith("/") and "/tree/" in path:
        path = path.split("/tree/", 1)[1]
    return os.path.normpath("tree/" + path) if not path.startswith("/") else path


def judge(p, r, faulty):
    """Returns (class, message) of the first broken rule, or None."""
    cmd = p["cmd"]
    if r.hang:
        return "hang", "the command does not end"
    seen, removed, wrote, emitted = set(), [], set(), 0
    tests_ok = report_ok = False
    report_begun = tests_failed = tests_begun = False
    report_fmt = report_out = None
    step_failed = False
    for l in r.log:
        w = l.split(" ", 3)
        if l == "cargo begin":
            tests_begun, tests_ok = True, False
        elif l == "cargo ok":
            tests_ok = True
        elif w[0] == "profile":
            emitted += 1
        elif w[0] == "stub":
            step_failed = True
        elif w[0] == "grcov" and w[1] == "begin":
            if step_failed:
                return "later-step-started", "the report generator was started although a step before had failed"
            if cmd == "cover" and not tests_ok:
                return "report-without-tests", "the report generator was started although the tests had not passed"
            report_begun, report_ok, seen = True, False, set()
            report_fmt, report_out = w[2], w[3]
        elif l == "grcov ok":
            report_ok = True
        elif w[0] == "sees":
            seen.add(in_tree(l[5:]))
        elif w[0] == "wrote":
            wrote.add(in_tree(l[6:]))
        elif w[0] == "call" and w[2] in ("unlink", "unlinkat", "remove", "rename", "rmdir"):
            f = w[3].removesuffix(" fails")
            removed.append(f)
            if cmd == "cover" and f.endswith(".profraw") and not report_ok:
                return "removed-early", f"{f} was removed before a report had been produced"
            if cmd in ("test_instr", "cover_only", "nothing") and f.endswith(".profraw"):
                return "removed-early", f"{f} was removed by {cmd}"
    for f, t in r.before.items():
        if f not in r.after:
            if not (f.startswith("tree/") and f.endswith(".profraw")):
                return "foreign-file-removed", f
            if cmd == "cover" and f not in seen:
                return "removed-unreported", f"{f} is gone but was not there for the report"
            if cmd == "cover" and not report_ok or cmd in ("test_instr", "cover_only", "nothing"):
                return "removed-early", f
        elif r.after[f] != t and f not in wrote:
            return "foreign-file-changed", f
    for f in r.after:
        if f not in r.before and f not in wrote:
            return "unexpected-file", f
    if report_begun and cmd == "cover" and tests_ok and len([f for f in seen if f in wrote]) < emitted:
        return "profiles-lost", f"{emitted} profiles were written, the report saw {sorted(seen)}"
    # whether a link, or a file with nothing before the ending, is a raw profile is open: it may stay
    left = [f for f, t in r.after.items() if f.startswith("tree/") and f.endswith(".profraw") and not f.endswith("/.profraw")
            and not t.startswith("-> ")]
    if step_failed and r.status == 0:
        return "false-success", "success although a program had failed"
    if r.no_directory and report_begun and any(l.startswith("stub-error") for l in r.log):
        return "later-step-started", "the report generator was started although there is no directory for the report"
    if r.status == 0:
        want = {"cover": (1, 1, 1), "test_instr": (1, 0, 0), "cover_only": (0, 1, 0), "clean": (0, 0, 1), "nothing": (0, 0, 0)}[cmd]
        if want[0] and not tests_ok:
            return "false-success", "success although the tests did not pass"
        if want[1]:
            fmt, ext = FORMATS[p["fmt"]]
            if not report_ok:
                return "false-success", "success although no report was produced"
            got = r.after.get(f"tree/coverage/tests.{ext}")
            if got != f"<complete {fmt} report>":
                return "wrong-report", f"coverage/tests.{ext} contains {got!r}, wanted a {fmt} report ({report_fmt} {report_out})"
        if want[2] and left:
            return "false-success", f"success although raw profiles remain: {left}"
    elif not faulty:
        return "false-failure", f"exit status {r.status} although nothing failed"
    return None


def fired(r):
    """Faults that really happened."""
    out = []
    for l in r.log:
        w = l.split()
        if w[0] == "call" and w[-1] == "fails":
            out.append("failing " + w[2])
        elif w[0] == "crash":
            out.append("crash " + w[2] + " a call")
        elif w[0] == "stub":
            out.append("program: " + w[1])
    return out


def resolve(p, calls):
    """Turns relative fault positions into call numbers and errnos; calls = names of the fault-free execution."""
    out = []
    for pos, what, pick in p["calls"]:
        if not calls:
            continue
        n = pos if p.get("absolute") else (pos - 1) % len(calls) + 1
        name = calls[n - 1] if n <= len(calls) else "mkdir"
        if what == "errno":
            e = ERRNO.get(name)
            if not e:
                continue
            what = str(e[pick % len(e)])
        out.append((n, what))
    return out


def execute(p, scratch, name):
    """One simulated history: the command with the faults of the plan, then again without."""
    calls = []
    if p["calls"]:
        q = dict(p, calls=[])
        d = prepare(p, scratch, name + "d")
        r = start(q, d, scratch, [], 0)
        calls = [l.split()[2] for l in r.log if l.startswith("call ")]
        shutil.rmtree(d)
    faults = resolve(p, calls)
    d = prepare(p, scratch, name)
    res = {"log": [], "fired": [], "steps": 0}
    try:
        r = start(p, d, scratch, faults, 1)
        happened = fired(r)
        if p["missing"]:
            happened.append("program missing")
        blocked = os.path.isfile(os.path.join(d, "tree", "coverage"))
        if blocked:
            happened.append("report directory blocked")
        res["fired"] = happened
        res["log"] = r.log + [f"status {r.status}"]
        res["steps"] = len(r.log)
        bad = judge(p, r, bool(happened))
        if bad is None and (happened or p.get("again")):
            if blocked:
                os.remove(os.path.join(d, "tree", "coverage"))
            r2 = start(p, d, scratch, None, 2)
            res["log"] = res["log"] + ["again"] + r2.log + [f"status {r2.status}"]
            res["steps"] += len(r2.log)
            bad = judge(p, r2, False)
            if bad:
                bad = ("after-failure-" + bad[0], "second run: " + bad[1])
        res["bad"] = bad
        res["hash"] = hashlib.sha256("\n".join(res["log"]).replace(scratch, "").encode()).hexdigest()[:16]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for n in (0, 1, 2):
            for s in ("", "d"):
                f = os.path.join(scratch, "log", f"{name}{s}.{n}")
                if os.path.exists(f):
                    os.remove(f)


def minimise(p, cls, scratch):
    def fails(q):
        r = execute(q, scratch, "min")
        return r["bad"] and r["bad"][0] == cls

    end = time.time() + 60
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for i in range(len(p["calls"])):
            cands.append(dict(p, calls=p["calls"][:i] + p["calls"][i + 1:]))
        for k, v in (("cargo", "ok"), ("version", "ok"), ("report", "ok"), ("missing", []), ("blocked", False), ("old_report", False),
                     ("other_grcov", False), ("fmt", None), ("profiles", 0), ("profiles", 1)):
            if p[k] != v and not (k == "profiles" and p[k] < v):
                cands.append(dict(p, **{k: v}))
        for f in p["files"]:
            cands.append(dict(p, files={g: t for g, t in p["files"].items() if g != f}))
        for c in cands:
            if not os.path.dirname(next((f for f in c["files"] if f.startswith("succinct_neo/")), "")):
                continue
            if fails(c):
                p = c
                changed = True
                break
    return p


JOBS = {}


def job(i):
    if time.time() > JOBS["limit"]:
        return None
    r = execute(JOBS["plans"][i], JOBS["scratch"], f"r{i}")
    if r["bad"] and "hang" in r["bad"][0]:
        # a command that really does not end does not end the second time either
        r = execute(JOBS["plans"][i], JOBS["scratch"], f"r{i}")
    return r


def setup_scratch():
    scratch = tempfile.mkdtemp(prefix="verif-cover-")
    os.chmod(scratch, 0o755)
    os.makedirs(os.path.join(scratch, "log"))
    return scratch


def replay(path):
    scratch = setup_scratch()
    try:
        build(scratch)
        rec = json.load(open(path))
        r = execute(rec["plan"], scratch, "replay")
        print(r["bad"], r["hash"])
        if r["bad"] and r["bad"][0] == rec["class"]:
            print(f"VIOLATION property={PROP} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(scratch)


def campaign():
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7FFFFFFFFFFFFFFF
    tier = os.environ.get("VERIF_TIER", "quick")
    scratch = setup_scratch()
    try:
        return campaign_in(seed, tier if tier in ("quick", "thorough") else "quick", t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def campaign_in(seed, tier, t0, scratch):
    build(scratch)
    built = time.time()
    plans, enumerated = [], 0
    for b in base_plans():
        plans.append(b)
        d = prepare(b, scratch, "dry")
        r = start(b, d, scratch, [], 0)
        shutil.rmtree(d)
        calls = [l.split()[2] for l in r.log if l.startswith("call ")]
        for n, name in enumerate(calls, 1):
            for what in ["before", "after"] + ["errno"] * len(ERRNO.get(name, [])):
                plans.append(dict(b, calls=[[n, what, sum(1 for q in plans if q["calls"] and q["calls"][0][0] == n)]], absolute=True))
        for k, vs in (("cargo", ["fail", "fail101", "sig", "term", "killparent"]), ("version", ["fail", "sig", "killparent"]),
                      ("report", ["fail", "partial", "sig", "term", "killparent"]), ("missing", [["cargo"], ["grcov"]]), ("blocked", [True])):
            for v in vs:
                for at in range(b["profiles"] + 1) if k == "cargo" else [0]:
                    plans.append(dict(b, **{k: v, "cargo_at": at}))
    enumerated = len(plans)
    total = enumerated + (9000 if tier == "quick" else 60000)
    plans += [gen(random.Random(f"{seed}-{i}")) for i in range(total - enumerated)]
    limit = built + (400 if tier == "quick" else 5400)
    hashes, kinds, steps, done, active, bad, by_cmd, samples = set(), {}, 0, 0, 0, None, {}, []
    JOBS.update(plans=plans, scratch=scratch, limit=limit)
    fork = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(max_workers=max(1, len(os.sched_getaffinity(0))), mp_context=fork) as ex:
        pos = 0
        while pos < len(plans) and bad is None and time.time() < limit:
            chunk = range(pos, min(pos + 400, len(plans)))
            for i, r in zip(chunk, ex.map(job, chunk, chunksize=5)):
                if r is None:
                    continue
                done += 1
                steps += r["steps"]
                by_cmd[plans[i]["cmd"]] = by_cmd.get(plans[i]["cmd"], 0) + 1
                if r["fired"]:
                    active += 1
                    hashes.add(r["hash"])
                for k in r["fired"]:
                    kinds[k] = kinds.get(k, 0) + 1
                if i in (1, enumerated - 1) or i == enumerated + 3:
                    samples.append({"run": i, "plan": {k: v for k, v in plans[i].items() if k != "files"}, "events": [l.replace(scratch, "") for l in r["log"][:25]]})
                if r["bad"] and bad is None:
                    bad = (i, r)
            pos = chunk.stop
    searched = time.time() - built
    out = None
    det = {"runs_compared": 0, "identical": True}
    if bad:
        i, r = bad
        log(f"run {i}: {r['bad']}")
        again = execute(plans[i], scratch, "again")
        p = plans[i]
        if again["bad"] and again["bad"][0] == r["bad"][0]:
            p = minimise(p, r["bad"][0], scratch)
        final = execute(p, scratch, "final")
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        out = os.path.join(ROOT, "replays", f"{PROP}-{seed}-{i}.json")
        json.dump({"property": PROP, "class": r["bad"][0], "message": r["bad"][1], "replay_with": "python3 bin/cover.py --replay " + os.path.relpath(out, ROOT),
                   "hash": final["hash"], "plan": p, "events": [l.replace(scratch, "") for l in final["log"]]}, open(out, "w"), indent=1)
    else:
        for i in range(0, len(plans), max(1, len(plans) // 40)):
            a, b = execute(plans[i], scratch, "one"), execute(plans[i], scratch, "two")
            det["runs_compared"] += 1
            # directory names differ between the two executions and are the only difference allowed
            if [l.replace("/one", "") for l in a["log"]] != [l.replace("/two", "") for l in b["log"]]:
                det["identical"] = False
                log("warning: two executions of plan", i, "differ")
    rate = done / max(searched, 0.001) * 3600
    wall = time.time() - t0
    ev = {"property": PROP, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": done, "distinct_nontrivial": len(hashes),
              "rule": "One evaluation is one history: the command with the faults of a plan and, if a fault happened, once more without. It is non-trivial "
                      "if at least one fault happened; two are distinct if their event logs (calls, programs started, files, exit status) differ.",
              "samples": samples[:3], "runs_per_hour": round(rate), "seeds_per_hour": round(max(0, done - enumerated) / max(searched, 0.001) * 3600), "runs_with_fault": active,
              "single_faults_enumerated": min(enumerated, done), "combinations_sampled": max(0, done - enumerated),
              "simulated_seconds": 0, "simulated_time_rule": "the command has no time-dependent behaviour; progress is counted in events",
              "events": steps, "faults_injected": kinds, "runs_by_command": by_cmd,
              "distinct_states_measure": "hash of the event log",
              "real_components": ["xtask from /repo's working tree with its libraries", "the kernel's file system and process handling"],
              "simulated_components": ["test runner and report generator (stand-ins)", "failures and crashes of file-system, output and process calls (preloaded)"],
              "determinism_check": det},
          "assumptions": ["Failing stat calls are not injected: the libraries used treat a file that cannot be inspected as absent.",
                          "The stand-ins behave like the real programs as far as exit status and files are concerned."],
          "wall_s": round(wall, 2), "violations": 1 if bad else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", PROP + ".json"), "w"), indent=1)
    if bad:
        print(": ".join(bad[1]["bad"]))
        print(f"VIOLATION property={PROP} replay={out}")
        return 1
    print(f"held: {done} runs, {len(hashes)} distinct, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(replay(sys.argv[2]))
    sys.exit(campaign())
