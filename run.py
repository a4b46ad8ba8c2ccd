#!/usr/bin/env python3
"""Driver of the checks:  run.py <property> [quick|thorough]   |   run.py setup   |   run.py replay FILE

Builds the harness from /repo's current working tree, explores, writes evidence/<property>.json.
Exit 0: held; 1: violated (VIOLATION line); anything else: the check itself failed.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(VERIF, "target")
OUT = os.path.join(TGT, "out")
VARIANTS = ["v509", "v677", "v821", "v701"]
NAMES = {"v509": "ntruhps2048509", "v677": "ntruhps2048677", "v821": "ntruhps4096821", "v701": "ntruhrss701", "default": "ntruhps2048509"}
TABLE = {"v509": (699, 935, 699, 32), "v677": (930, 1234, 930, 32), "v821": (1230, 1590, 1230, 32), "v701": (1138, 1450, 1138, 32)}
LIMIT = {"quick": 700, "thorough": 850}
SOFT = {"quick": 400, "thorough": 650}  # what is not explored by then is reported as not explored
START = time.time()


class CheckError(Exception):
    pass


class BuildError(CheckError):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    for k in ("ntrust_bench", "bench"):
        e.pop(k, None)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in (".git", "target"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f == "Cargo.lock" and root == REPO:
                    continue
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


def cargo(crate, profile, features, target, extra_env=None, sub="build", roots=None):
    """Build `crate`; if the sources changed since the last build of this target directory,
    forget the old artefacts first (time stamps alone are not trusted)."""
    os.makedirs(target, exist_ok=True)
    lock = open(os.path.join(target, ".verif-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = os.path.join(target, f".verif-stamp-{profile}-{'_'.join(features)}")
        want = tree_hash(REPO, *[os.path.join(VERIF, c) for c in roots or (crate,)])
        have = open(stamp).read() if os.path.exists(stamp) else ""
        pdir = os.path.join(target, {"dev": "debug"}.get(profile, profile))
        if want != have:
            if os.path.exists(stamp):
                os.unlink(stamp)
            fp = os.path.join(pdir, ".fingerprint")
            for d in os.listdir(fp) if os.path.isdir(fp) else []:
                if d.startswith("ntrust-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", sub, "--offline", "-q", "--manifest-path", f"{VERIF}/{crate}/Cargo.toml", "--target-dir", target, "--profile", profile]
        if features:
            cmd += ["--features", ",".join(features)]
        e = env()
        e["CARGO_BUILD_JOBS"] = "4"
        e.update(extra_env or {})
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
        if r.returncode != 0:
            raise BuildError(f"build of {crate} ({profile}, {features}) failed:\n{r.stdout[-3000:]}")
        open(stamp, "w").write(want)
        return pdir
    finally:
        lock.close()


def build_mc(variant, profile="release"):
    feats = [] if variant == "default" else [variant]
    return os.path.join(cargo("mc", profile, feats, os.path.join(TGT, variant)), "ntrust-mc")


def build_all(pairs):
    """pairs: (variant, profile); profiles of one variant share a target directory"""
    byv = {}
    for v, p in pairs:
        byv.setdefault(v, []).append(p)
    with cf.ThreadPoolExecutor(5) as ex:
        fs = {v: ex.submit(lambda v=v, ps=ps: {p: build_mc(v, p) for p in ps}) for v, ps in byv.items()}
        return {v: f.result() for v, f in fs.items()}


def run_mc(exe, prop, tier, tag, extra=(), extra_env=None):
    out = os.path.join(OUT, f"{prop}-{tag}.json")
    os.makedirs(OUT, exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    e = env()
    e["MC_UNTIL"] = str(START + SOFT[tier])
    e.update(extra_env or {})
    try:
        r = subprocess.run([exe, "check", prop, tier, out, *extra], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=max(10, START + LIMIT[tier] - time.time()))
    except subprocess.TimeoutExpired:
        raise CheckError(f"{prop} {tag}: no end within {LIMIT[tier]} s")
    sys.stderr.write(r.stderr[-20000:])
    if r.returncode in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
        if (r.returncode == 1) != (res["violation"] is not None):
            raise CheckError(f"{prop} {tag}: exit {r.returncode} does not match its result")
        return res
    if r.returncode < 0 and -r.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE):
        return {"crash": signal.Signals(-r.returncode).name, "stderr": r.stderr[-2000:]}
    if r.returncode == 97 and prop == "C17" and not extra:
        # the seal refuses to let the implementation end the process; nothing else ends with 97
        again = subprocess.run([exe, "check", prop, tier, out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if again.returncode == 97:
            m = re.findall(r"(?m)^\[C17 \S+\]\s+\S+ (\S+)", r.stderr)
            return {"states": 1, "transitions": 1, "traces": 1, "distinct_outcomes": 1, "wall_s": 0, "spaces": [],
                    "violation": {"what": f"the operation tries to end the process (after space {m[-1] if m else 'none'})", "space": "", "index": 0}}
    raise CheckError(f"{prop} {tag}: engine ended with {r.returncode}: {r.stderr[-2000:]}")


def write_replay(prop, variant, v, tier, extra=None):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{variant}.json")
    json.dump({"property": prop, "variant": variant, "tier": tier, **v, **(extra or {}), "reproduce": f"python3 {VERIF}/run.py replay {p}"}, open(p, "w"), indent=1)
    return p


def evidence(prop, tier, t0, cov, assumptions, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


BASE_ASSUME = [
    "bounded: exhaustive over the listed finite spaces, not over all inputs",
    "the reference model in mc/src/model (Keccak, AES-256, DRBG, NTRU round 3) states the specification",
    "rustc stable x86_64 as installed",
]


def cov_of(results):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "distinct_outcomes": 0, "exhaustive": True, "samples": [], "per_variant": {}}
    ms = mt = 0
    for tag, r in results.items():
        cov["states"] += r["states"] + r.get("model_states", 0)
        cov["transitions"] += r["transitions"] + r.get("model_transitions", 0)
        cov["traces_validated_against_impl"] += r["traces"]
        cov["distinct_outcomes"] += r["distinct_outcomes"]
        ms += r.get("model_states", 0)
        mt += r.get("model_transitions", 0)
        cov["per_variant"][tag] = {"states": r["states"], "transitions": r["transitions"], "traces": r["traces"], "wall_s": r["wall_s"], "spaces": r["spaces"]}
        for s in r["spaces"]:
            if s["explored"] != s["size"]:
                cov["exhaustive"] = False
        if r["spaces"]:
            s = r["spaces"][len(r["spaces"]) // 2]
            cov["samples"].append(f"{tag}: space {s['space']} ({s['rule']}): {s['explored']} of {s['size']} cases, outcomes {s['outcome_classes']}")
    cov["model_only_states"] = ms
    cov["model_only_transitions"] = mt
    cov["counting"] = ("state: distinct (operation, inputs) or generator state at which the implementation was run, plus states of the scaled-down model; "
                       "transition: one call of the implementation (or of the scaled-down model); trace: one case (sequence of calls) judged against the model")
    return cov


def finish(prop, tier, t0, cov, assume, violation):
    """violation: None or (text, replay path)"""
    evidence(prop, tier, t0, cov, assume, 0 if violation is None else 1)
    if violation is None:
        print(f"{prop} {tier}: held; states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} wall={time.time()-t0:.1f}s")
        return 0
    print(f"{prop}: {violation[0]}")
    print(f"VIOLATION property={prop} replay={violation[1]}")
    return 1


def settle(fs):
    """results of the jobs that ended, and the first error of those that did not"""
    res, err = {}, None
    for k, f in fs.items():
        try:
            res[k] = f.result()
        except CheckError as e:
            err = err or e
    return res, err


def generic(prop, tier, t0):
    exes = build_all([(v, "release") for v in VARIANTS])
    with cf.ThreadPoolExecutor(4) as ex:
        fs = {v: ex.submit(run_mc, exes[v]["release"], prop, tier, v) for v in VARIANTS}
        res, err = settle(fs)
    for v, r in list(res.items()):
        if "crash" in r:
            err = err or CheckError(f"{prop} {v}: the process died with {r['crash']}: {r['stderr']}")
            del res[v]
    if err and not any(r["violation"] for r in res.values()):
        raise err
    violation = None
    for v in res:
        if res[v]["violation"]:
            x = res[v]["violation"]
            violation = (f"[{NAMES[v]}] {x['what']} (space {x['space']}, index {x['index']})", write_replay(prop, v, x, tier))
            break
    return finish(prop, tier, t0, cov_of(res), BASE_ASSUME, violation)


def c06(prop, tier, t0):
    profiles = ["release", "rel", "dbg"]
    exes = build_all([(v, p) for v in VARIANTS for p in profiles])
    dig = os.path.join(OUT, "digests")
    shutil.rmtree(dig, ignore_errors=True)
    jobs = [(v, p) for p in ("dbg", "release", "rel") for v in ("v821", "v701", "v677", "v509")]

    def job(v, p):
        x = {"release": {}, "rel": {"MC_STRIDE": "5"}, "dbg": {"MC_FEW": "1"}}[p]
        x["MC_THREADS"] = "4"
        return run_mc(exes[v][p], prop, tier, f"{v}-{p}", ["--digests", f"{dig}/{v}/{p}"], x)

    with cf.ThreadPoolExecutor(4) as ex:
        fs = {(v, p): ex.submit(job, v, p) for v, p in jobs}
        res, err = settle(fs)
    if err and not any("crash" in r or r["violation"] for r in res.values()):
        raise err
    violation = None
    for v, p in sorted(res):
        r = res[(v, p)]
        if violation:
            break
        if "crash" in r:
            again = job(v, p)
            if again.get("crash") != r["crash"]:
                raise CheckError(f"{prop} {v} {p}: the process died once with {r['crash']}")
            violation = (f"[{NAMES[v]}, {p} build] the process dies with {r['crash']}", write_replay(prop, v, {"what": f"process dies with {r['crash']}", "profile": p, "space": "", "index": 0, "stderr": r["stderr"]}, tier))
        elif r["violation"]:
            x = r["violation"]
            violation = (f"[{NAMES[v]}, {p} build] {x['what']} (space {x['space']}, index {x['index']})", write_replay(prop, v, x, tier, {"profile": p}))
    compared = 0
    if not violation:
        for v in VARIANTS:
            names = sorted(os.listdir(f"{dig}/{v}/release"))
            for n in names:
                a = open(f"{dig}/{v}/release/{n}", "rb").read()
                for p in ("rel", "dbg"):
                    f = f"{dig}/{v}/{p}/{n}"
                    if not os.path.exists(f):
                        raise CheckError(f"{prop}: {f} missing")
                    b = open(f, "rb").read()
                    if len(a) != len(b):
                        raise CheckError(f"{prop}: {f} has another size")
                    if a == b:
                        compared += sum(1 for i in range(0, len(a), 8) if a[i:i + 8] != b"\0" * 8)
                        continue
                    for i in range(0, len(a), 8):
                        x, y = a[i:i + 8], b[i:i + 8]
                        if b"\0" * 8 in (x, y):  # not run in one of the builds
                            continue
                        compared += 1
                        if x != y:
                            what = f"results of the checked build and of the {p} build differ"
                            violation = (f"[{NAMES[v]}] {what} (space {n[:-4]}, index {i // 8})", write_replay(prop, v, {"what": what, "space": n[:-4], "index": i // 8, "profile": p}, tier))
                            break
                    if violation:
                        break
                if violation:
                    break
            if violation:
                break
    shutil.rmtree(dig, ignore_errors=True)
    ok = {f"{v}-{p}": r for (v, p), r in res.items() if "crash" not in r}
    cov = cov_of(ok)
    cov["results_compared_between_builds"] = compared
    return finish(prop, tier, t0, cov, BASE_ASSUME + ["three builds stand for all: checked (opt-level 3, overflow checks, debug assertions), release, unoptimised library"], violation)


def c18(prop, tier, t0):
    """optimised and unoptimised build: the stack need differs"""
    exes = build_all([(v, p) for v in VARIANTS for p in ("release", "dbg")])

    def job(v, p):
        return run_mc(exes[v][p], prop, tier, f"{v}-{p}", [], {"MC_FEW": "1", "MC_THREADS": "2"} if p == "dbg" else {"MC_THREADS": "6"})

    with cf.ThreadPoolExecutor(4) as ex:
        fs = {(v, p): ex.submit(job, v, p) for p in ("dbg", "release") for v in VARIANTS}
        res, err = settle(fs)
    if err and not any("crash" in r or r["violation"] for r in res.values()):
        raise err
    violation = None
    for v, p in sorted(res):
        r = res[(v, p)]
        if r.get("violation"):
            x = r["violation"]
            violation = violation or (f"[{NAMES[v]}, {p} build] {x['what']} (space {x['space']}, index {x['index']})", write_replay(prop, v, x, tier, {"profile": p}))
    for v, p in sorted(res):
        r = res[(v, p)]
        if "crash" in r and not violation:
            again = job(v, p)
            if again.get("crash") != r["crash"]:
                raise CheckError(f"{prop} {v} {p}: the process died once with {r['crash']}")
            if "overflow" not in r["stderr"] and "memory allocation" not in r["stderr"]:
                raise CheckError(f"{prop} {v} {p}: the process died with {r['crash']}: {r['stderr']}")
            what = "the operation exhausts the stack (16 MiB) or the memory: the process dies with " + r["crash"]
            violation = (f"[{NAMES[v]}, {p} build] {what}", write_replay(prop, v, {"what": what, "profile": p, "space": "", "index": 0, "stderr": r["stderr"]}, tier))
    ok = {f"{v}-{p}": r for (v, p), r in res.items() if "crash" not in r}
    return finish(prop, tier, t0, cov_of(ok), BASE_ASSUME + ["two builds stand for all: optimised with checks, unoptimised library"], violation)


def c15(prop, tier, t0):
    violation = None
    res, states, trans = {}, 0, 0
    subsets = [[v for i, v in enumerate(VARIANTS) if m >> i & 1] for m in range(16)]
    samples = []

    def probe(s):
        try:
            d = cargo("probe", "dev", s, os.path.join(TGT, "probe", "_".join(s) or "none"))
        except BuildError as e:
            return ("refused", str(e))
        r = subprocess.run([os.path.join(d, "ntrust-probe")], stdout=subprocess.PIPE, text=True, timeout=60)
        return ("built", r.stdout.strip())

    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(probe, subsets))
    nbuilt = sum(1 for o in outs if o[0] == "built")
    for s, (k, txt) in zip(subsets, outs):
        states += 1
        trans += 1
        name = "+".join(NAMES[v] for v in s) or "(no feature)"
        samples.append(f"{name}: {k}" + (f" {txt}" if k == "built" else ""))
        if violation:
            continue
        bad = None
        if len(s) >= 2 and k == "built":
            bad = f"the combination {name} is not refused: it builds as {txt}"
        if len(s) <= 1:
            v = s[0] if s else "v509"
            want = f"{NAMES[v]} {' '.join(map(str, TABLE[v]))}"
            if k == "refused":
                if nbuilt == 0:
                    raise CheckError(txt)
                bad = f"selection {name} does not build"
            elif txt != want:
                bad = f"selection {name} gives '{txt}', published is '{want}'"
        if bad:
            violation = (bad, write_replay(prop, "features", {"what": bad, "features": s, "output": txt[-1500:], "space": "", "index": 0}, tier))
    if not violation:
        sel = VARIANTS + ["default"]
        exes = build_all([(v, "release") for v in sel])
        for v in sel:
            r = run_mc(exes[v]["release"], prop, tier, v)
            if "crash" in r:
                raise CheckError(f"{prop} {v}: {r['crash']}")
            res[v] = r
            if r["violation"] and not violation:
                x = r["violation"]
                violation = (f"[{v}] {x['what']}", write_replay(prop, v, x, tier))
    cov = cov_of(res)
    cov["states"] += states
    cov["transitions"] += trans
    cov["samples"] = samples
    cov["feature_subsets"] = states
    return finish(prop, tier, t0, cov, BASE_ASSUME, violation)


def c16(prop, tier, t0):
    exes = build_all([(v, "release") for v in VARIANTS])
    work = os.path.join(OUT, "kat")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    states = trans = traces = 0
    samples, violation = [], None

    def variant(v):
        nonlocal states, trans, traces
        d = cargo("kat", "release", [v], os.path.join(TGT, "kat", v))
        exe = os.path.join(d, "katkem")
        wd = os.path.join(work, v)
        os.makedirs(wd)
        req, rsp = os.path.join(wd, "a.req"), os.path.join(wd, "a.rsp")
        want = subprocess.run([exes[v]["release"], "kat", "100"], stdout=subprocess.PIPE, text=True, timeout=300).stdout
        r = subprocess.run([exe, req, rsp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, cwd=wd)
        n = [1, 1, 0]
        if r.returncode != 0:
            return n, f"generation fails: {r.stderr[-300:]}", {"stderr": r.stderr[-2000:]}
        got = open(rsp).read()
        n[2] += 100
        # the requests: the same 100 seeds, nothing else filled in
        fields = re.findall(r"(?m)^(\w+) =[ \t]*(\S*)[ \t]*$", open(req).read())
        seeds = re.findall(r"(?m)^seed = (\S+)$", want)
        n[0] += 1
        n[2] += 100
        asked = [x for i, sd in enumerate(seeds) for x in (("count", str(i)), ("seed", sd), ("pk", ""), ("sk", ""), ("ct", ""), ("ss", ""))]
        if fields != asked:
            i = next((i for i in range(max(len(fields), len(asked))) if fields[i:i + 1] != asked[i:i + 1]), 0)
            return n, f"request file differs from the standard seeds at record {i // 6}", {"got": str(fields[i:i + 1])[:300], "want": str(asked[i:i + 1])[:300]}
        if got != want:
            g, w = got.splitlines(), want.splitlines()
            i = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), 0)
            return n, f"response file differs from the reference at line {i + 1}", {"got": (g[i:i + 1] or [""])[0], "want": (w[i:i + 1] or [""])[0]}

        def verify(text, name):
            p = os.path.join(wd, name)
            open(p, "w").write(text)
            r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, cwd=wd)
            os.unlink(p)
            return r.returncode, (r.stdout + r.stderr)[-500:]

        rc, msg = verify(want, "ok.rsp")
        n[0] += 1
        n[1] += 1
        if rc != 0:
            return n, f"verification of the reference file fails: {msg}", {"output": msg}
        lines = want.splitlines()
        idx = [i for i, l in enumerate(lines) if re.match(r"(seed|pk|sk|ct|ss) = ", l)]
        recs = range(100) if tier == "thorough" else (0, 1, 2, 50, 98, 99)
        cases = []
        for rec in recs:
            for fld in range(5):
                li = idx[5 * rec + fld]
                k, h = lines[li].split(" = ")
                # which hex digit and how it changes
                spots = [0, len(h) // 2, len(h) - 1] if (tier == "thorough" or rec in (0, 99)) else [(rec * 7919 + fld) % len(h)]
                for s in spots:
                    nh = h[:s] + "%X" % (int(h[s], 16) ^ (1 if s % 2 else 8)) + h[s + 1:]
                    cases.append((rec, k, s, li, f"{k} = {nh}"))

        # a field line missing or empty, and the file ending after any record
        for rec in recs:
            for fld in range(5):
                li = idx[5 * rec + fld]
                k = lines[li].split(" = ")[0]
                cases.append((rec, k, "all: line missing", li, None))
                cases.append((rec, k, "all: value missing", li, f"{k} = "))
        for rec in (range(100) if tier == "thorough" else (0, 1, 50, 99)):
            cases.append((rec, "all", "all: file ends before this record", idx[5 * rec] - 1, ""))

        def one(c):
            rec, k, s, li, new = c
            t = lines[:li] + ([] if new in (None, "") else [new]) + ([] if new == "" else lines[li + 1:])
            return verify("\n".join(t) + "\n", f"x{li}_{k}_{s if isinstance(s, int) else s[5]+s[10]}.rsp")

        with cf.ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(one, cases))
        for c, (rc, msg) in zip(cases, outs):
            n[0] += 1
            n[1] += 1
            n[2] += 1
            if rc == 0:
                return n, f"verification accepts a file whose record {c[0]} has field {c[1]} altered at {'' if isinstance(c[2], str) else 'hex digit '}{c[2]}", {"line": c[3] + 1, "altered": str(c[4])[:200]}
            if rc not in (1, 101):
                raise CheckError(f"C16: verification ended with {rc}: {msg}")
        samples.append(f"{NAMES[v]}: 100 records equal; e.g. {lines[2]} / {lines[3][:60]}… / {lines[7][:60]}; {len(cases)} altered files refused")
        return n, None, None

    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(variant, VARIANTS))
    for v, (n, bad, data) in zip(VARIANTS, outs):
        states += n[0]
        trans += n[1]
        traces += n[2]
        if bad and not violation:
            violation = (f"[{NAMES[v]}] {bad}", write_replay(prop, v, {"what": bad, "data": data, "space": "", "index": 0}, tier))
    shutil.rmtree(work, ignore_errors=True)
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples, "exhaustive": True,
           "counting": "state: a response file given to the tool; transition: one run of the tool; trace: a record compared with the model or an altered file judged"}
    return finish(prop, tier, t0, cov, BASE_ASSUME, violation)


def build_ct(v):
    d = cargo("ct", "release", [v], os.path.join(TGT, "ct", v), {"RUSTC_WRAPPER": os.path.join(VERIF, "ct", "wrap.sh")}, roots=("mc", "ct"))
    return os.path.join(d, "ntrust-ct")


def c10(prop, tier, t0):
    """histories, nestings and request interleavings, then interleavings inside the operations"""
    exes = build_all([(v, "release") for v in VARIANTS])
    with cf.ThreadPoolExecutor(4) as ex:
        traced = {v: os.path.join(os.path.dirname(x), "interleave") for v, x in zip(VARIANTS, ex.map(build_ct, VARIANTS))}
    os.makedirs(OUT, exist_ok=True)

    def inside(v):
        out = os.path.join(OUT, f"C10-inside-{v}.json")
        if os.path.exists(out):
            os.unlink(out)
        until = min(START + SOFT[tier], time.time() + (150 if tier == "quick" else 200))
        try:
            r = subprocess.run([traced[v], tier, out, "2", str(until)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=max(10, START + LIMIT[tier] - time.time()))
        except subprocess.TimeoutExpired:
            raise CheckError(f"C10 {v}: no end within {LIMIT[tier]} s")
        sys.stderr.write(r.stderr[-4000:])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise CheckError(f"C10 {v}: interleaving engine ended with {r.returncode}: {r.stderr[-2000:]}")
        res = json.load(open(out))
        if (r.returncode == 1) != (res["violation"] is not None):
            raise CheckError(f"C10 {v}: exit {r.returncode} does not match its result")
        return res

    with cf.ThreadPoolExecutor(4) as ex:
        fs = {f"{v}-inside": ex.submit(inside, v) for v in ("v821", "v701", "v677", "v509")}
        inner, err1 = settle(fs)
        fs = {v: ex.submit(run_mc, exes[v]["release"], prop, tier, v) for v in VARIANTS}
        res, err2 = settle(fs)
    err = err1 or err2
    for v, r in list(res.items()):
        if "crash" in r:
            err = err or CheckError(f"{prop} {v}: the process died with {r['crash']}: {r['stderr']}")
            del res[v]
    res = {**inner, **res}
    if err and not any(r["violation"] for r in res.values()):
        raise err
    violation = None
    for tag in res:
        x = res[tag]["violation"]
        if x and not violation:
            v = tag.split("-")[0]
            violation = (f"[{NAMES[v]}] {x['what']}" + (f" (space {x['space']}, index {x['index']})" if x["space"] else ""), write_replay(prop, v, x, tier))
    cov = cov_of(res)
    cov["shared_memory_accesses_of_the_operations_alone"] = {t: r["shared_accesses"] for t, r in inner.items()}
    return finish(prop, tier, t0, cov, BASE_ASSUME + ["interleavings inside operations: at every access to memory that is neither own stack, own heap block nor constant, up to two switches, sequentially consistent; accesses inside dependencies are seen where they are inlined into the library"], violation)


def c14(prop, tier, t0):
    with cf.ThreadPoolExecutor(4) as ex:
        exes = dict(zip(VARIANTS, ex.map(build_ct, VARIANTS)))
    shards = 4
    os.makedirs(OUT, exist_ok=True)

    def job(j):
        v, k = j
        out = os.path.join(OUT, f"C14-{v}-{k}.json")
        if os.path.exists(out):
            os.unlink(out)
        try:
            r = subprocess.run([exes[v], tier, out, str(k), str(shards)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=LIMIT[tier])
        except subprocess.TimeoutExpired:
            raise CheckError(f"C14 {v}: no end within {LIMIT[tier]} s")
        sys.stderr.write(r.stderr[-4000:])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise CheckError(f"C14 {v}: engine ended with {r.returncode}: {r.stderr[-2000:]}")
        res = json.load(open(out))
        if (r.returncode == 1) != (res["violation"] is not None):
            raise CheckError(f"C14 {v}: exit {r.returncode} does not match its result")
        return res

    jobs = [(v, k) for k in range(shards) for v in VARIANTS]
    with cf.ThreadPoolExecutor(8) as ex:
        res, err = settle({f"{v}-{k}": ex.submit(job, (v, k)) for v, k in jobs})
    if err and not any(r["violation"] for r in res.values()):
        raise err
    violation = None
    for tag in sorted(res):
        x = res[tag]["violation"]
        if x and not violation:
            v = tag.split("-")[0]
            violation = (f"[{NAMES[v]}] {x['what']} ({x['space']}, index {x['index']})", write_replay(prop, v, {**x, "sub_space": x["space"], "space": ""}, tier))
    cov = cov_of(res)
    cov.pop("distinct_outcomes")
    cov["counting"] = "state: distinct (public input, secret) pair; transition: one traced run; trace: a run whose complete edge and address trace was compared with the reference secret's"
    assume = ["bounded: exhaustive over the listed secrets for each fixed public input",
              "the trace is taken on optimised LLVM IR of the library at opt-level 2 (edges, load and store addresses, source, destination and length of block copies and fills, position where block comparisons stop); instruction selection, tiny-keccak, the latency of single instructions and branches that only the opt-level 3 loop unswitcher makes out of branch-free source are outside it"]
    return finish(prop, tier, t0, cov, assume, violation)


SPECIAL = {"C10": c10, "C14": c14, "C06": c06, "C15": c15, "C16": c16, "C18": c18}
GENERIC = ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C11", "C12", "C13", "C17", "C19", "C20"]


def replay(path):
    r = json.load(open(path))
    print(json.dumps({k: v for k, v in r.items() if k != "data"}, indent=1))
    if not r.get("space"):
        print("re-running the whole check")
        return main([r["property"], r["tier"]])
    prof = r.get("profile", "release")
    exe = build_mc(r["variant"], prof)
    x = run_mc(exe, r["property"], r["tier"], "replay", ["--only", r["space"], str(r["index"])],
               {"MC_FEW": "1"} if (r["property"], prof) == ("C18", "dbg") else None)
    if x.get("violation"):
        print(json.dumps(x["violation"], indent=1)[:4000])
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("no violation on this case now")
    return 0


def main(a):
    t0 = time.time()
    if a and a[0] == "setup":
        build_all([(v, p) for v in VARIANTS for p in ("release", "rel", "dbg")] + [("default", "release")])
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(build_ct, VARIANTS))
            list(ex.map(lambda v: cargo("kat", "release", [v], os.path.join(TGT, "kat", v)), VARIANTS))
        print(f"harness built in {time.time() - t0:.0f} s")
        return 0
    if a and a[0] == "replay":
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        raise CheckError(f"unknown tier {tier}")
    if prop in SPECIAL:
        return SPECIAL[prop](prop, tier, t0)
    if prop in GENERIC:
        return generic(prop, tier, t0)
    raise CheckError(f"unknown property {prop}")


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print(f"ERROR {e}", file=sys.stderr)
        sys.exit(2)
