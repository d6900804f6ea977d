#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of the real crate.

The crate in /repo is compiled together with the harnesses to LLVM IR (overflow checks on), the engine (engine/) executes
the harness symbolically and asks Z3; every counterexample is replayed natively against the same sources before it is
reported.  Exit 0: held on everything explored. 1: VIOLATION line. 2: the check itself failed."""
import glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import jobs as J

REPO = "/repo"
WORK = os.path.join(ROOT, "work")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENGINE = os.path.join(ROOT, "engine/target/release/mvdsym")
HARN = os.path.join(ROOT, "harness")
REPLAY = os.path.join(HARN, "target/n/debug/replay")
SYMFLAGS = "-C save-temps -C symbol-mangling-version=v0 -C link-arg=-Wl,--unresolved-symbols=ignore-all"


def env(**kw):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build():
    """Engine, harness IR and native replay binary, all from the current sources."""
    cmds = [
        ("engine", ["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "engine"), {}),
        ("harness IR", ["cargo", "rustc", "--offline", "--profile", "sym", "--lib", "--crate-type", "cdylib", "--target-dir", "target/s"], HARN, {"RUSTFLAGS": SYMFLAGS}),
        ("native replay", ["cargo", "build", "--offline", "--features", "native", "--bin", "replay", "--target-dir", "target/n"], HARN, {}),
    ]
    ps = [(n, subprocess.Popen(c, cwd=d, env=env(**x), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, c, d, x in cmds]
    for n, p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            print(o[-6000:])
            die("building the %s failed" % n)
    bcs = glob.glob(os.path.join(HARN, "target/s/sym/deps/harness.*.rcgu.lto.after-restriction.bc"))
    if not bcs:
        # cargo considered the harness fresh but the bitcode is gone: force it
        shutil.rmtree(os.path.join(HARN, "target/s/sym"), ignore_errors=True)
        n, c, d, x = cmds[1]
        subprocess.run(c, cwd=d, env=env(**x), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        bcs = glob.glob(os.path.join(HARN, "target/s/sym/deps/harness.*.rcgu.lto.after-restriction.bc"))
        if not bcs:
            die("no bitcode")
    return max(bcs, key=os.path.getmtime)


def goal_names():
    """Every vacuity goal named in the harness sources, by its identifier."""
    out = {}
    for f in glob.glob(os.path.join(HARN, "src/*.rs")):
        for s in re.findall(r'rc!\("([^"]+)"\)', open(f).read()):
            h = 0x811C9DC5
            for b in s.encode():
                h = ((h ^ b) * 0x01000193) & 0xFFFFFFFF
            out[h] = s
    return out


def spec_text(job, draws, file=None, lenient=False):
    t = "job %s\ndraws %s\n" % (job, draws)
    if file:
        t += "file %s\n" % file
    if lenient:
        t += "lenient\n"
    return t


def replay(path, timeout=20, mem=0):
    """(failed, description, trace)"""
    cap = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    try:
        p = subprocess.run([REPLAY, path], preexec_fn=cap, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return True, "no result within %d s" % timeout, None
    tr = None
    for l in p.stdout.splitlines():
        if l.startswith("TRACE"):
            tr = l[5:].strip()
    if p.returncode == 0:
        return False, "ok", tr
    if p.returncode in (77, 78):
        return None, p.stdout.strip().splitlines()[-1], tr
    if p.returncode == 100:
        return True, p.stdout.strip().splitlines()[-1], tr
    m = re.search(r"panicked at ([^\n]*)\n?([^\n]*)", p.stderr)
    return True, "exit %d %s" % (p.returncode, (m.group(1) + " " + m.group(2)) if m else p.stderr.strip()[-200:]), tr


def known():
    """open findings: lines `finding: property=<id> match=<regex> <text>` (matched against job and failure)."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
        if m:
            out.append(m.groups())
    return out


def blame(check_detail):
    """The source line of the failed assertion."""
    m = re.search(r"(?:id )(\d+)", check_detail)
    if not m:
        return ""
    n = int(m.group(1))
    for f in glob.glob(os.path.join(HARN, "src/*.rs")):
        t = open(f).read()
        b = re.search(r"const B: u32 = ([\d_]+);", t)
        if b:
            d = n - int(b.group(1).replace("_", ""))
            ls = t.splitlines()
            if 0 < d <= len(ls) and d < 10000:
                return "%s:%d %s" % (os.path.basename(f), d, ls[d - 1].strip())
    return ""


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bc = build()
    tb = time.time() - t0
    P = J.PROPS[prop]
    jobs = list(P["quick"]) if tier == "quick" else list(P["quick"]) + list(P.get("thorough", []))
    seen = set()
    jobs = [j for j in jobs if not (j in seen or seen.add(j))]
    budget = float(os.environ.get("MVD_TIME") or (P.get("time_quick", 150) if tier == "quick" else P.get("time_thorough", 2400)))
    out = os.path.join(WORK, "%s-%s" % (prop, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jf = os.path.join(out, "jobs.txt")
    open(jf, "w").write("\n".join(jobs) + "\n")
    rep = os.path.join(WORK, "replays")
    os.makedirs(rep, exist_ok=True)
    t1 = time.time()
    cmd = [ENGINE, "--bc", bc, "--jobs", jf, "--out", out, "--procs", str(os.cpu_count() or 8), "--time", str(budget), "--samples", "6" if tier == "quick" else "12"]
    if P.get("file"):
        cmd += ["--file", P["file"]]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 300)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, log = 9, str(e.stdout)[-2000:]
    te = time.time() - t1
    S = dict(paths=0, assumed=0, viols=0, unsupported=0, unknown=0, limit=0, dropped=0, steps=0, forks=0, branches=0, checks=0, checks_z3=0, domq=0, ivalq=0, guessq=0, auditq=0, audit_bad=0)
    Z = dict(queries=0, sat=0, unsat=0, unknown=0, cached=0, time=0.0)
    zmax = 0.0
    per = {}
    viols, samples, unsup, reach, cov = [], [], {}, {}, {}
    for f in glob.glob(os.path.join(out, "res.*")):
        for l in open(f):
            d = json.loads(l)
            j = jobs[d["job"]]
            q = per.setdefault(j, dict(paths=0, assumed=0, bad=0, dropped=0, cpu=0.0, z3=0))
            for k in S:
                S[k] += d[k]
            for k in Z:
                Z[k] += d["z3"][k]
            zmax = max(zmax, d["z3"]["max"])
            q["paths"] += d["paths"]
            q["assumed"] += d["assumed"]
            q["bad"] += d["unsupported"] + d["unknown"] + d["limit"]
            q["dropped"] += d["dropped"]
            q["cpu"] += d["wall"]
            q["z3"] += d["z3"]["queries"]
            viols += [(j, v) for v in d["violations"]]
            samples += [(j, s) for s in d["samples"]]
            for k, v in d["unsup"].items():
                unsup[k] = unsup.get(k, 0) + v
            for k, v in d["reach"].items():
                reach[int(k)] = reach.get(int(k), 0) + v
            for k, v in d["cov"].items():
                o = cov.get(k)
                cov[k] = v if o is None else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, v))
    crashed = rc != 0
    # counterexamples
    confirmed, unconfirmed, knownhits = [], [], []
    viols.sort(key=lambda x: (x[1]["kind"] == "steps", len(x[1]["draws"])))
    tries = 0
    for j, v in viols:
        if len(confirmed) >= 3 or tries >= 25:
            break
        tries += 1
        text = spec_text(j, v["draws"], P.get("file"), lenient=True)
        path = os.path.join(rep, "%s-%s.txt" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        open(path, "w").write("# %s %s\n# %s\n%s" % (v["kind"], v["detail"], v["stack"][:400], text))
        n = P.get("hash_replays", 12)
        bad = None
        desc = ""
        for _ in range(n):
            bad, desc, _tr = replay(path, 10 if v["kind"] == "steps" else 20, 400 << 20 if v["kind"] == "steps" else 0)
            if bad:
                break
        if bad is None and j[0] == "~" and desc.startswith("IGNORED"):
            continue
        if bad and j[0] == "~" and re.search(r"panicked at src/", desc):
            continue  # the harness stumbles over a wrong result, which another property is about
        if not bad and v["kind"] == "steps":
            continue  # slow in the engine, quick natively: counted as incomplete
        if bad:
            k = [x for x in known() if x[0] == prop and re.search(x[1], j + " " + desc)]
            if k:
                knownhits.append(k[0])
                continue
            confirmed.append((path, j, desc))
        else:
            unconfirmed.append((path, j, v["kind"] + " " + v["detail"], desc))
    # native validation of sampled paths
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    nval = 60 if tier == "quick" else 400
    validated, mism = 0, []
    by = {}
    for j, s in samples:
        by.setdefault(j, []).append(s)
    order = []
    while by and len(order) < nval:
        for j in list(by):
            order.append((j, by[j].pop()))
            if not by[j]:
                del by[j]
    for j, (dr, tr) in order[:nval]:
        path = os.path.join(out, "sample.txt")
        open(path, "w").write(spec_text(j, dr, P.get("file")))
        bad, desc, nt = replay(path, 30)
        if bad is False and (nt or "").split() == tr.split():
            validated += 1
        else:
            keep = os.path.join(rep, "%s-mismatch-%d.txt" % (prop, len(mism)))
            shutil.copy(path, keep)
            mism.append((keep, j, desc, tr[:200], (nt or "")[:200]))
    for h in glob.glob(os.path.join(rep, "%s-mismatch-*.txt" % prop))[:0]:
        pass
    names = goal_names()
    want = {h: s for h, s in names.items() if s.startswith(prop + ":")}
    if tier == "quick":
        want = {h: s for h, s in want.items() if s not in P.get("thorough_goals", [])}
    missing = [s for h, s in want.items() if h not in reach]
    incomplete = S["dropped"] + S["unsupported"] + S["unknown"] + S["limit"] > 0 or crashed
    prog = json.load(open(os.path.join(out, "program.json"))) if os.path.exists(os.path.join(out, "program.json")) else {}
    target = prog.get("target", {})
    fn = {}
    for k, v in cov.items():
        if "harness" in k.split("::")[0] or k.startswith("h_"):
            continue
        fn[k] = "%d/%d blocks" % (v.count("1"), len(v))
    own = {k: v for k, v in fn.items() if "mvdparser" in k}
    smp = [{"job": j, "draws": s[0][:300], "trace": s[1][:200]} for j, s in order[:8]]
    if not smp:
        smp = [{"job": j, "draws": v["draws"][:300], "violation": v["kind"] + " " + v["detail"]} for j, v in viols[:5]] or [{"none": "no path completed"}]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S["paths"] + S["assumed"] + S["viols"],
            "transitions": S["steps"],
            "traces_validated_against_impl": validated,
            "trace_mismatches": len(mism),
            "samples": smp,
            "exhaustive": not incomplete and not confirmed,
            "paths_completed": S["paths"], "paths_cut_by_assumptions": S["assumed"], "symbolic_branches": S["branches"], "forks": S["forks"],
            "assertions_evaluated": S["checks"], "assertions_sent_to_solver": S["checks_z3"],
            "paths_not_explored": {"time": S["dropped"], "unsupported": S["unsupported"], "solver_unknown": S["unknown"], "step_limit": S["limit"]},
            "unsupported": dict(sorted(unsup.items(), key=lambda x: -x[1])[:8]),
            "queries": {"z3": Z["queries"], "sat": Z["sat"], "unsat": Z["unsat"], "unknown": Z["unknown"], "cached": Z["cached"], "z3_seconds": round(Z["time"], 2), "z3_longest": round(zmax, 2),
                        "answered_by_byte_domains": S["domq"], "answered_by_intervals": S["ivalq"], "answered_by_known_model": S["guessq"], "of_these_audited_by_z3": S["auditq"], "audit_disagreements": S["audit_bad"]},
            "engine_seconds": round(te, 1), "build_seconds": round(tb, 1), "z3": prog.get("z3"),
            "functions_encoded": own, "other_functions_encoded": len(fn) - len(own),
            "goals_reached": sorted(s for h, s in want.items() if h in reach), "goals_missed": sorted(missing),
            "bounds": P["bounds"], "jobs": {k: {"paths": v["paths"], "cut": v["assumed"], "cpu_s": round(v["cpu"], 2), "z3": v["z3"], "dropped": v["dropped"] + v["bad"]} for k, v in sorted(per.items())},
        },
        "assumptions": J.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    open(os.path.join(ROOT, "evidence", prop + ".json"), "w").write(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
    print("%s %s: %d jobs, %d paths (%d cut), %d assertions, z3 %d queries %.1f s, engine %.1f s, build %.1f s, validated %d" % (
        prop, tier, len(jobs), S["paths"], S["assumed"], S["checks"], Z["queries"], Z["time"], te, tb, validated))
    for f in glob.glob(os.path.join(out, "res.*")):
        os.remove(f)
    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for path, j, desc in confirmed:
        print("  job %s: %s  %s" % (j, desc, blame(desc)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        sys.exit(1)
    if S["audit_bad"]:
        die("the interval layer and Z3 disagree on %d queries" % S["audit_bad"])
    if mism:
        for m in mism[:5]:
            print("  mismatch", m)
        die("%d sampled paths behave differently natively" % len(mism))
    if unconfirmed:
        for u in unconfirmed[:5]:
            print("  not reproduced:", u)
        die("a counterexample does not reproduce natively")
    if rc == 3 or (crashed and S["paths"] == 0):
        die("engine exit %s: %s" % (rc, log[-1500:]))
    if S["paths"] == 0:
        die("no path was completed: %s" % unsup)
    if missing and not incomplete:
        die("vacuity goals not reached: %s" % missing)
    if incomplete:
        print("INCOMPLETE: time %d, unsupported %d, solver unknown %d, step limit %d%s%s" % (
            S["dropped"], S["unsupported"], S["unknown"], S["limit"], " (worker crashed: %s)" % log[-300:] if crashed else "", "; goals not reached: %s" % missing if missing else ""))
        for u, c in sorted(unsup.items(), key=lambda x: -x[1])[:4]:
            print("  unsupported x%d: %s" % (c, u[:300]))
    sys.exit(0)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        print(build())
    else:
        main()
