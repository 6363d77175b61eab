#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Builds the monitor harness (/verif/harness) against /repo's working tree, runs the property's monitored workload
and decides. Exit 0: held on everything observed. Exit 1 with `VIOLATION property=<id> replay=<path>`: broken.
Exit 2: no answer (build failure, out of memory, out of time)."""
import concurrent.futures as cf
import json, os, re, resource, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, "work")
HOST = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"
T0 = time.time()


try:
    RULES = json.load(open(os.path.join(ROOT, "rules.json")))
except OSError:
    RULES = {}


class NoAnswer(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------------------------------------- running things
def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "MIRIFLAGS", "MON_CASES"):
            del e[k]
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def limit_mem():
    # address space, so that a runaway allocation ends in this process and not in the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, extra_env=None, mem=False):
    """returns (rc or None on timeout, stdout, stderr)"""
    os.makedirs(env(extra_env)["CARGO_TARGET_DIR"], exist_ok=True)
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True,
                         preexec_fn=limit_mem if mem else None)
    try:
        o, e = p.communicate(timeout=max(5, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def budget(total):
    return total - (time.time() - T0)


class Run:
    """one execution of the harness in one configuration"""

    def __init__(self, label, cmd, rc, out, err):
        self.label, self.cmd, self.rc, self.out, self.err = label, cmd, rc, out, err
        self.result = None
        for l in out.splitlines():
            if l.startswith("RESULT "):
                self.result = json.loads(l[7:])

    def last_case(self):
        last = None
        for l in self.out.splitlines():
            if l.startswith("CASE "):
                last = l
        return parse_case(last) if last else None


def parse_case(l):
    m = re.match(r'CASE (\d+) ("(?:[^"\\]|\\.)*") ("(?:[^"\\]|\\.)*")', l)
    return {"index": int(m.group(1)), "task": json.loads(m.group(2)), "case": json.loads(m.group(3))} if m else None


def build(features, profile, cfg=""):
    """builds the harness, returns the binary's path. cfg: '' or 'asan'"""
    cmd = ["cargo"]
    e = {}
    sub = ""
    if cfg == "asan":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Zsanitizer=address"
    if cfg == "msan":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg nojunk"
    if cfg == "tsan":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
    if cfg == "cpu":
        e["RUSTFLAGS"] = "-Ctarget-cpu=native"
    host = HOST
    if cfg == "i686":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Clinker=%s -Clinker-flavor=gcc -Crelocation-model=static" % os.path.join(HARNESS, "i686", "ld32.sh")
        host = I686
    cmd += ["build", "--offline", "-q", "--bin", "mon", "--features", features]
    cmd += ["--profile", profile]
    if cfg in ("tsan", "msan", "i686"):
        cmd += ["-Zbuild-std"]
    td = TARGET
    if cfg:
        # a target directory per configuration: cargo locks the directory while it builds
        td = os.path.join(TARGET, cfg)
        cmd += ["--target", host]
        sub = host
    elif profile == "release":
        td = os.path.join(TARGET, "rel")
    e["CARGO_TARGET_DIR"] = td
    rc, o, err = sh(cmd, budget(840), e)
    if rc != 0:
        raise NoAnswer("the harness did not build (%s %s): rc=%s\n%s" % (profile, cfg, rc, err[-3000:]))
    log("built", profile, cfg, features)
    p = {"dev": "debug"}.get(profile, profile)
    return os.path.join(td, sub, p, "mon")


def native(label, binary, args, timeout, extra_env=None, mem=True):
    cmd = [binary] + args
    rc, o, e = sh(cmd, timeout, extra_env, mem=mem)
    log("ran", label, "rc=%s" % rc)
    return Run(label, cmd, rc, o, e)


FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


def sanitizer_report(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|error: Undefined Behavior: [^\n]*"
                  r"|ERROR: LeakSanitizer: [^\n]*|error: memory leaked[^\n]*|error: the evaluated program [^\n]*"
                  r"|error: abnormal termination[^\n]*|error: deadlock[^\n]*)", err)
    return m.group(1) if m else None


def assess(run, viol, retrace=None):
    """collects what the run reports as violations"""
    r = run.result
    if r:
        for h in r["harness_errors"]:
            if "(/repo/src/" in h or "/repo/src/" in h:
                viol.append({"config": run.label, "task": h.split(":")[0], "case": "setting up the workload", "what": h})
            else:
                raise NoAnswer("harness error in %s: %s" % (run.label, h))
        for v in r["violations"]:
            viol.append(dict(v, config=run.label))
    rep = sanitizer_report(run.err)
    if rep:
        c = run.last_case()
        if c is None and retrace:
            c = retrace(run)
        c = c or {"task": "?", "case": "?"}
        viol.append({"config": run.label, "task": c["task"], "case": c["case"],
                     "what": rep + " | " + " ".join(re.findall(r"/repo/src/[\w/.]+:\d+(?::\d+)?", run.err)[:4])})
        return
    if r and run.rc == 0:
        return
    if run.rc is None:
        c = run.last_case()
        raise NoAnswer("%s did not finish in time (last case: %s)" % (run.label, c))
    if run.rc == 3 and "HANG " in run.out:
        c = (retrace and retrace(run)) or {"task": run.out.split("HANG ")[1].splitlines()[0], "case": "?"}
        viol.append({"config": run.label, "task": c["task"], "case": c["case"], "what": "the case does not come to an end"})
        return
    if run.rc is not None and run.rc < 0 and -run.rc in FATAL:
        c = (retrace and retrace(run)) or run.last_case() or {"task": "?", "case": "?"}
        viol.append({"config": run.label, "task": c["task"], "case": c["case"],
                     "what": "the process died with %s: %s" % (signal.Signals(-run.rc).name, run.err[-300:])})
        return
    raise NoAnswer("%s ended with rc=%s and no result\n%s" % (run.label, run.rc, run.err[-2000:]))


def tracer(binary, args, prop, env=None, mem=True):
    """reruns a crashed or hanging workload single threaded to name the case"""
    def f(run):
        os.makedirs(WORK, exist_ok=True)
        t = os.path.join(WORK, "trace.%s.%d" % (prop, os.getpid()))
        try:
            a = list(args)
            if run.rc == 3:
                task = json.loads(run.out.split("HANG ")[1].splitlines()[0])
                a += ["--only", task]
            # the violation stands without it: the search for its case has a small budget
            r = native("trace of " + run.label, binary, a + ["--threads", "1", "--trace", t],
                       max(1, min(60 if run.rc == 3 else 100, budget(700))), env, mem=mem)
            if r.result is None:
                s = open(t, errors="replace").read().split("\0")[0].strip().split("\t")
                if len(s) >= 3:
                    return {"task": s[0], "index": int(s[1]), "case": s[2]}
        except Exception as ex:  # the crash stands, only its witness is missing
            log("no witness:", ex)
        finally:
            if os.path.exists(t):
                os.unlink(t)
        return None
    return f


# ----------------------------------------------------------------------------------------------------- strategies
def size(prop, tier, share=1):
    return ["--tier", tier, "--scale", str(max(1, int(RULES[prop][tier] * share)))]


def plain(prop, tier, seed, runs, viol):
    """native monitors, in a checked build (debug assertions and overflow checks on) and in a release build"""
    low = prop.lower()
    with cf.ThreadPoolExecutor(2) as ex:
        bins = list(ex.map(lambda p: build(low, p), ["checked", "release"]))
    for i, b in enumerate(bins):
        # the random part of the release run is seeded differently: more inputs
        args = [low] + size(prop, tier) + ["--seed", str(seed + 7919 * i)]
        label = ["checked", "release"][i]
        r = native(label, b, args, budget(840))
        runs.append(r)
        assess(r, viol, tracer(b, args, prop))


def miri(prop, what, features, seed, runs, viol, target=None, shards=8, timeout=600, flags="", threads="1", digests=False):
    """runs the small workload in the interpreter, sharded; returns {task: digest}"""
    td = os.path.join(TARGET, "miri-" + (target or "host"))
    e = {"CARGO_TARGET_DIR": td, "MON_CASES": "1",
         "MIRIFLAGS": "-Zmiri-env-forward=MON_CASES " + flags}
    if target:
        e["MIRI_SYSROOT"] = os.path.join(TARGET, "sysroot-" + target)
        rc, o, err = sh(["cargo", "+nightly", "miri", "setup", "--target", target], budget(840), e)
        if rc != 0:
            raise NoAnswer("no interpreter sysroot for %s: %s" % (target, err[-2000:]))
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "mon", "--features", features]
    if target:
        base += ["--target", target]
    base += ["--", what, "--tier", "miri", "--seed", str(seed), "--threads", threads, "--digests"]
    # build once (lists nothing, runs nothing), so that the shards do not wait for each other
    rc, o, err = sh(base + ["--only", "nothing"], min(timeout, budget(840)), e)
    if rc != 0:
        raise NoAnswer("the harness did not build for the interpreter (%s): rc=%s\n%s" % (target, rc, err[-3000:]))
    log("built for miri", target or HOST)

    def one(i):
        cmd = base + ["--shard", "%d/%d" % (i, shards)]
        rc, o, err = sh(cmd, min(timeout, budget(860)), e)
        return Run("miri %s shard %d/%d" % (target or HOST, i, shards), cmd, rc, o, err)

    dig = {}
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            runs.append(r)
            assess(r, viol)
            for d in (r.result or {}).get("digests", []):
                dig[d["task"]] = (d["digest"], r)
    log("ran miri", what, target or HOST)
    return dig


def c19(prop, tier, seed, runs, viol):
    with cf.ThreadPoolExecutor(3) as ex:
        fa = ex.submit(build, "smoke", "checked", "asan")
        fm = ex.submit(build, "smoke", "checked", "msan")
        fr = ex.submit(build, "smoke", "release")
        for f, label, share, e in ((fa, "asan", 0.7, {"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=0"}),
                                   (fr, "release", 1, None), (fm, "msan", 0.25, None)):
            b = f.result()
            args = ["smoke"] + size(prop, tier, share) + ["--seed", str(seed)]
            r = native(label, b, args, budget(500), e, mem=label == "release")
            runs.append(r)
            assess(r, viol, tracer(b, args, prop, e, mem=label == "release"))
    if viol:
        return
    n = 1 if tier == "quick" else 6
    for k in range(n):
        if budget(840) < 120 and k:
            break
        miri(prop, "smoke", "smoke", seed + k, runs, viol, flags="" if k % 2 == 0 else "-Zmiri-tree-borrows")
        if viol:
            return


def observations(run_cmd, task, e=None, timeout=300):
    """per case: description and observed digests, for one task"""
    rc, o, err = sh(run_cmd + ["--only", task, "--shard", "0/1"], timeout, dict(e or {}, MON_CASES="1"))
    cases, cur = [], None
    for l in o.splitlines():
        if l.startswith("CASE "):
            cur = {"c": parse_case(l), "o": []}
            cases.append(cur)
        elif l.startswith("OBS ") and cases:
            i, v = l.split()[1:3]
            for c in cases[-1:]:
                c["o"].append(v)
    return cases


def native32(features, profile="checked"):
    """the harness for 32-bit x86, or None where the sandbox cannot build or run 32-bit programs"""
    try:
        b = build(features, profile, "i686")
        rc, o, err = sh([b, "portable", "--only", "nothing"], 60)
        if rc == 0 and "RESULT " in o:
            return b
        log("32-bit programs do not run here: rc=%s %s" % (rc, err[-300:]))
    except NoAnswer as ex:
        log("32-bit programs cannot be built here:", str(ex)[-600:])
    except OSError as ex:
        log("32-bit programs do not run here:", ex)
    return None


def c20(prop, tier, seed, runs, viol):
    targets = [("s390x-unknown-linux-gnu", "64-bit big-endian")]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, "smoke", "checked")
        fr = ex.submit(build, "smoke", "release")
        fc = ex.submit(build, "smoke", "release", "cpu")
        f32 = ex.submit(native32, "smoke")
        fb, fr, fc, f32 = fb.result(), fr.result(), fc.result(), f32.result()
    more = []
    if tier == "thorough":
        more.append(("unoptimised", build("smoke", "dev")))
        if f32:
            more.append(("32-bit release", native32("smoke", "release")))
        targets += [("aarch64-unknown-linux-gnu", "64-bit ARM")]
    if tier == "thorough":
        targets += [("powerpc-unknown-linux-gnu", "32-bit big-endian")]
    if tier == "thorough" or not f32:
        targets += [(I686, "32-bit little-endian")]
    ndig = {"n": 0}

    def compare(a, b):
        (la, da), (lb, db) = a, b
        for t in sorted(da):
            ndig["n"] += 1
            if t not in db:
                if " deep " in t and "interpreted" in lb:
                    continue  # left out of the interpreted workload
                raise NoAnswer("task %s is missing from %s" % (t, lb))
            if da[t][0] == db[t][0]:
                continue
            ra, rb = da[t][1], db[t][1]
            case, what = "?", "different results"
            try:
                oa, ob = observations(ra.cmd, t, ra.env), observations(rb.cmd, t, rb.env)
                for x, y in zip(oa, ob):
                    if x["o"] != y["o"] and x["c"]["case"] == y["c"]["case"]:
                        case = x["c"]["case"]
                        what = "observed %s on %s and %s on %s" % (x["o"], la, y["o"], lb)
                        break
            except Exception as ex:
                log("no witness:", ex)
            viol.append({"config": la + " / " + lb, "task": t, "case": case, "what": what})

    def digests(label, b, args):
        r = native(label, b, args, budget(800))
        r.env = {}
        runs.append(r)
        assess(r, viol, tracer(b, args, prop))
        return {d["task"]: (d["digest"], r) for d in (r.result or {}).get("digests", [])}

    # profiles: the large workload
    for k in range(1 if tier == "quick" else 4):
        args = ["smoke"] + size(prop, tier) + ["--seed", str(seed + k), "--digests"]
        dc = digests("checked", fb, args)
        compare(("checked", dc), ("release", digests("release", fr, args)))
        if not viol:
            # the instruction set of this processor
            compare(("checked", dc), ("release for this processor", digests("this processor", fc, args)))
        if f32 and not viol:
            # a 32-bit machine at native speed: everything against the models, what both can represent by digests
            digests("32-bit", f32, args)
            args = ["portable"] + args[1:]
            compare(("checked portable", digests("checked portable", fb, args)), ("32-bit portable", digests("32-bit portable", f32, args)))
        if viol:
            return {"digest_comparisons": ndig["n"]}
    # platforms: the small workload
    for k in range(1 if tier == "quick" else 5):
        if k and budget(840) < 200:
            break
        args = ["portable", "--tier", "miri", "--seed", str(seed + k), "--digests"]
        ref = ("checked build", digests("checked portable", fb, args))
        compare(ref, ("release build", digests("release portable", fr, args)))
        for label, b in more:
            if b:
                compare(ref, (label + " build", digests(label + " portable", b, args)))

        def plat(t):
            rs, vs = [], []
            d = miri(prop, "portable", "smoke", seed + k, rs, vs, target=t[0], shards=max(2, 8 // len(targets)),
                     timeout=700)
            for r in rs:
                r.env = {"CARGO_TARGET_DIR": os.path.join(TARGET, "miri-" + t[0]),
                         "MIRIFLAGS": "-Zmiri-env-forward=MON_CASES",
                         "MIRI_SYSROOT": os.path.join(TARGET, "sysroot-" + t[0])}
            return t, d, rs, vs
        with cf.ThreadPoolExecutor(len(targets)) as ex:
            for t, d, rs, vs in ex.map(plat, targets):
                runs.extend(rs)
                viol.extend(vs)
                if not vs:
                    compare(ref, (t[1] + " (" + t[0] + ", interpreted)", d))
        if viol:
            break
    return {"digest_comparisons": ndig["n"], "platforms": [t[0] for t in targets] + [HOST + " checked", HOST + " release", HOST + " release, target-cpu=native"]
            + [m[0] for m in more] + ([I686 + " native"] if f32 else [])}


def c21(prop, tier, seed, runs, viol):
    with cf.ThreadPoolExecutor(3) as ex:
        ft = ex.submit(build, "c21", "checked", "tsan")
        plain(prop, tier, seed, runs, viol)
        ft = ft.result()
    if viol:
        return
    args = ["c21"] + size(prop, tier, 0.3) + ["--seed", str(seed + 31)]
    e = {"TSAN_OPTIONS": "halt_on_error=1:report_signal_unsafe=0"}
    r = native("tsan", ft, args, budget(840), e, mem=False)
    runs.append(r)
    assess(r, viol, tracer(ft, args, prop, e, mem=False))


# ------------------------------------------------------------------------------------------------------- verdict


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            # finding: property=C00 task=<json string> case=<json string> <what fails>
            m = re.match(r'finding: property=(\w+) task=("(?:[^"\\]|\\.)*") case=("(?:[^"\\]|\\.)*") (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), json.loads(m.group(3)), m.group(4)))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0].upper()
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER") or "quick"
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED") or 1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evp):
        os.unlink(evp)
    runs, viol, extra = [], [], {}
    why = None
    try:
        extra = {"C19": c19, "C20": c20, "C21": c21}.get(prop, plain)(prop, tier, seed, runs, viol) or {}
    except NoAnswer as ex:
        why = str(ex)
    kn = known(prop)
    new, seen, hit = [], set(), set()
    for v in viol:
        k = next((k for k in kn if k[0] == v["task"] and k[1] == v["case"]), None)
        if k:
            hit.add(k)
            continue
        key = (v["task"], v["case"], v["what"])
        if key not in seen:
            seen.add(key)
            new.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    res = [r for r in runs if r.result]
    events, samples = {}, []
    for r in res:
        for k, n in r.result["events"].items():
            events[k] = max(events.get(k, 0), n) if k == "deepest_index_levels" else events.get(k, 0) + n
    for r in res[:3]:
        samples += r.result["samples"][:6 if r is res[0] else 2]
    per = []
    groups = {}
    for r in res:
        g = re.sub(r" shard \d+/\d+", "", r.label)
        x = groups.setdefault(g, {"configuration": g, "processes": 0, "tasks": 0, "evaluations": 0, "distinct_nontrivial": 0})
        x["processes"] += 1
        x["tasks"] += r.result["tasks"]
        x["evaluations"] += r.result["evaluations"]
        x["distinct_nontrivial"] += r.result["distinct_nontrivial"]
    per = list(groups.values())
    cov = {
        "evaluations": sum(r.result["evaluations"] for r in res),
        # the same inputs may come up in several configurations: count them for the one with most
        "distinct_nontrivial": max([g["distinct_nontrivial"] for g in per] or [0]),
        "rule": RULES[prop]["rule"] + " distinct_nontrivial: distinct non-trivial cases of the configuration that ran most of them.",
        "samples": samples[:12] or ["none: " + (why or "no run")[:200]],
        "monitored_events": events,
        "configurations": per,
    }
    cov.update(extra)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["the harness's reference model (plain sequences of cells, 128-bit integers) is right",
                               "inputs outside the stated domains are not observed"],
               "wall_s": round(time.time() - T0, 2), "violations": len(new)}, open(evp, "w"), indent=1)
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", prop + ".json")
        by = {r.label: " ".join(r.cmd) for r in runs}
        for v in new:
            v["command"] = by.get(v["config"].split(" / ")[0], "")
        json.dump({"property": prop, "tier": tier, "seed": seed, "violations": new,
                   "how": "rebuild (check.py %s), then run the command with --only '<task>' appended; MON_CASES=1 lists every case" % prop},
                  open(rp, "w"), indent=1)
        for v in new[:8]:
            print("  [%s] %s\n      %s" % (v["config"], v["case"], v["what"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if why:
        print("NO ANSWER: " + why)
        sys.exit(2)
    print("%s held: %d evaluations, %d distinct non-trivial cases, %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))


main()
