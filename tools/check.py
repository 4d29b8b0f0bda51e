#!/usr/bin/env python3
"""Check driver: decides one property.

  check.py <property> [--tier quick|thorough]

1. builds the verifier (gocv) if needed,
2. runs the verifier on the property's contracts against /repo's current source,
3. runs the property's executable contracts (harness) on the real code: it is the
   replay search for failed obligations and the labelled bounded companion,
4. writes evidence/<property>.json and the replay file, prints the verdict.
Exit 0: held; exit 1: VIOLATION line printed.
"""
import sys, os, json, subprocess, time, shutil, re, tempfile, threading, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import config

GOROOT = "/opt/veriftools/go1.25.14"
ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), HOME="/root", GOROOT=GOROOT, CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
ENV["PATH"] = GOROOT + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin")


def build_gocv():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "gocv")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith(".go") or f == "go.mod":
            h.update(open(os.path.join(src, f), "rb").read())
    out = os.path.join(BUILD, "gocv-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            print("building the verifier failed:\n" + r.stdout + r.stderr)
            sys.exit(2)
        os.replace(tmp, out)
    return out


def gocv_once(prop, cfg, res, tier, files, out):
    cmd = [res["gocvbin"], "-repo", REPO, "-prop", prop, "-json", out, "-timeout", "90" if tier == "thorough" else str(cfg.get("timeout", 20)),
           ] + files
    try:
        r = subprocess.run(cmd, env=ENV, capture_output=True, text=True, timeout=700)
        text, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        text, rc = "verifier timed out", 9
    try:
        g = json.load(open(out))
    except Exception:
        g = {"obligations": [], "targets": [], "error": text}
    return " ".join(cmd), text, rc, g


def merge(a, b):
    """Join the reports of two verifier runs of the same property."""
    m = dict(a)
    for k, v in b.items():
        w = m.get(k)
        if w is None or v is None:
            m[k] = v if w is None else w
        elif isinstance(v, list):
            m[k] = w + (v if k == "obligations" else [x for x in v if x not in w])
        elif isinstance(v, dict):
            m[k] = dict(w, **v)
        elif isinstance(v, (int, float)) or k == "error":
            m[k] = w + v
    return m


def run_gocv(prop, cfg, res, tier):
    files = [os.path.join(VERIF, "contracts", f) for f in cfg.get("contracts", [])]
    if not files:
        res["gocv"] = None
        return
    # "separate": each contract file is a program of its own (they state externals differently)
    groups = [[f] for f in files] if cfg.get("separate") else [files]
    outs = [None] * len(groups)

    def one(i):
        outs[i] = gocv_once(prop, cfg, res, tier, groups[i], os.path.join(res["tmp"], "gocv%d.json" % i))
    ths = [threading.Thread(target=one, args=(i,)) for i in range(len(groups))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    g = None
    for _, _, rc, x in outs:
        if not x.get("obligations") and not x.get("error"):
            x["error"] = "no obligations"
        g = x if g is None else merge(g, x)
    res["gocv_cmd"] = " ; ".join(o[0] for o in outs)
    res["gocv_out"] = "\n".join(o[1] for o in outs)
    res["gocv_rc"] = max(o[2] for o in outs)
    res["gocv"] = g


def overlay(prop, tmp, with_int):
    """Overlay of the harness files onto the repository; returns (overlay file, packages to test)."""
    hd = os.path.join(VERIF, "harness", prop)
    rep, pkgs = {}, []
    for d in os.listdir(os.path.join(VERIF, "harness")):
        if d == "lib" or d.startswith("lib_"):  # shared packages zzverif/vlib, zzverif/v<name>
            for f in os.listdir(os.path.join(VERIF, "harness", d)):
                rep[os.path.join(REPO, "zzverif/v" + (d[4:] or "lib"), f)] = os.path.join(VERIF, "harness", d, f)

    def add(pkg, name, f):
        rep[os.path.join(REPO, pkg, name)] = os.path.join(hd, f)
        if f.endswith("_test.go") and pkg not in pkgs:
            pkgs.append(pkg)
    for f in sorted(os.listdir(hd)):
        if not f.endswith(".go"):
            continue
        if f.startswith("in__"):  # in-package accessor: in__pkg__path__name.go
            if with_int:
                parts = f[4:-3].split("__")
                add("/".join(parts[:-1]), "zz_verif_" + parts[-1] + ".go", f)
        elif f.startswith("pkg__"):  # in-package test: pkg__path__name_test.go
            parts = f[5:-3].split("__")
            add("/".join(parts[:-1]), "zz_verif_" + parts[-1] + ".go", f)
        elif f.startswith("int_") and not with_int:
            continue
        else:
            add("zzverif/" + prop.lower(), f, f)
    p = os.path.join(tmp, "overlay%d.json" % with_int)
    json.dump({"Replace": rep}, open(p, "w"))
    return p, pkgs


def run_harness(prop, cfg, res, tier, seed):
    hd = os.path.join(VERIF, "harness", prop)
    if not os.path.isdir(hd):
        res["h"] = None
        return
    env = dict(ENV)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    attempts, parts = [], []
    fallback = any(f.startswith("in__") or f.startswith("int_") for f in os.listdir(hd))
    outd = os.path.join(res["tmp"], "hout")
    scratch = os.path.join(res["tmp"], "scratch")
    os.makedirs(outd)
    os.makedirs(scratch)
    env["VERIF_OUT"] = outd
    env["TMPDIR"] = scratch
    t0 = time.time()
    built, with_internal, cmds = True, True, []
    for pkg in overlay(prop, res["tmp"], 1)[1]:
        binp = os.path.join(res["tmp"], "h_%s.test" % pkg.replace("/", "_"))
        ok = False
        for with_int in ((1, 0) if fallback and pkg.startswith("zzverif/") else (1,)):
            ov, _ = overlay(prop, res["tmp"], with_int)
            cmd = ["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", binp, "./" + pkg]
            b = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
            ok = b.returncode == 0
            if ok:
                cmds.append(" ".join(cmd))
                with_internal = with_internal and bool(with_int)
                break
            attempts.append({"package": pkg, "with_internal_access": bool(with_int), "built": False, "output": (b.stdout + b.stderr)[-4000:]})
        if not ok:
            with_internal = False
            continue
        parts.append(binp)
    built = bool(parts)
    rc, out = 0, ""
    lim = 240 if tier == "quick" else 800
    procs = []
    for binp in parts:
        run = [binp, "-test.run", "^TestVerif", "-test.count=1", "-test.timeout=%ds" % lim]
        if tier == "thorough":
            run.append("-test.parallel=8")
        cwd = os.path.join(scratch, os.path.basename(binp) + ".d")
        os.makedirs(cwd)
        of = open(binp + ".out", "w+")
        procs.append((subprocess.Popen(run, cwd=cwd, env=env, stdout=of, stderr=subprocess.STDOUT, start_new_session=True), of))
    for p, of in procs:
        try:
            r = p.wait(timeout=max(1, lim + 30 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            r = 124
        of.seek(0)
        rc = rc or r
        out += of.read()[-6000:]
    reps = []
    for f in sorted(os.listdir(outd)):
        reps.append(json.load(open(os.path.join(outd, f))))
    res["h"] = {"built": built, "with_internal_access": with_internal, "rc": rc, "output": out, "reports": reps, "wall": time.time() - t0,
                "cmd": "; ".join(cmds), "attempts": attempts}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = config.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    res = {"tmp": tmp}
    try:
        rc = decide(prop, cfg, tier, seed, res, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, cfg, tier, seed, res, t0):
    res["gocvbin"] = build_gocv()
    ths = [threading.Thread(target=run_gocv, args=(prop, cfg, res, tier)),
           threading.Thread(target=run_harness, args=(prop, cfg, res, tier, seed))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    kf = {k["key"]: k for k in known if k["property"] == prop}

    g, h = res.get("gocv"), res.get("h")
    failed_obl, unsup = [], {}
    n_obl = n_dis = n_vac = 0
    if g is not None:
        for o in g.get("obligations") or []:
            if "(not refuted)" in (o.get("solver") or "") and o["status"] in ("proved", "discharged"):
                n_vac += 1  # reachability / satisfiability check, not an obligation
                continue
            n_obl += 1
            if o["status"] in ("proved", "discharged"):
                n_dis += 1
            else:
                failed_obl.append(o)
        unsup = g.get("unsupported") or {}
        if n_obl == 0 or g.get("error") or res.get("gocv_rc", 0) not in (0, 1):
            failed_obl.append({"target": prop, "name": "the verifier ran on the current source", "status": "failed",
                               "detail": (g.get("error") or res.get("gocv_out", ""))[-3000:]})
    known_hit, new_fail, known_obl = {}, [], []
    still = []
    for o in failed_obl:
        k = "obligation:%s: %s" % (o["target"], o["name"])
        if k in kf:
            known_hit[k] = kf[k]
        else:
            still.append(o)
    failed_obl = still
    cases = distinct = 0
    samples, rules, notes = [], [], []
    if h is not None:
        for r in h["reports"]:
            cases += r["cases"]
            distinct += r["distinct"]
            samples += (r["samples"] or [])[:4]
            rules.append(r["test"] + ": " + r["rule"])
            notes += r.get("notes") or []
            for f in r["failures"] or []:
                if f["key"] in kf:
                    known_hit[f["key"]] = kf[f["key"]]
                else:
                    new_fail.append(dict(test=r["test"], **f))
        if h["rc"] not in (0, None) and not any(r["failures"] for r in h["reports"]):
            new_fail.append({"test": "harness", "key": "crash", "detail": "the harness process ended abnormally (rc=%s)\n%s" % (h["rc"], h["output"])})
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known_hit[k]["what"]))

    violation = None
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    if os.path.exists(rpath):
        os.remove(rpath)
    lines = []
    if new_fail:
        violation = "input"
        lines.append("property %s: failing input(s) on the real code (seed %d, tier %s)" % (prop, seed, tier))
        for f in new_fail:
            lines.append("--- %s / %s\n%s" % (f["test"], f["key"], f["detail"]))
    if failed_obl:
        violation = violation or "noinput"
        lines.append("obligations not discharged on the current source:")
        for o in failed_obl:
            lines.append("--- %s: %s\n    at %s\n    %s" % (o["target"], o["name"], o.get("pos", ""), o.get("detail", "")))
        lines.append("verifier output:\n" + res.get("gocv_out", "")[-8000:])
    if h is not None and not h["built"] and (g is None or not cfg.get("proof_decides")):
        lines.append("the executable contracts do not build against the current source:")
        for a in h["attempts"]:
            lines.append(a["output"])
        violation = violation or "noinput"
    if violation:
        open(rpath, "w").write("\n".join(lines) + "\n")

    wall = round(time.time() - t0, 2)
    trusted = list(config.TRUSTED_COMMON) if g is not None else []
    ass = list(cfg.get("assumptions", []))
    cov = {}
    if g is not None:
        by = {}
        for o in g.get("obligations") or []:
            if o["status"] in ("proved", "discharged"):
                by[o.get("solver") or "?"] = by.get(o.get("solver") or "?", 0) + 1
        for x in g.get("trusted_externals") or []:
            trusted.append("contract assumed on external function: " + x)
        ass += g.get("assumptions") or []
        ass += ["unsupported (not verified): %s: %s" % kv for kv in unsup.items()]
        cov.update(obligations=n_obl, discharged=n_dis, checker_cmd=res.get("gocv_cmd", ""), trusted_base=trusted,
                   functions_under_contract=g.get("targets") or [], vacuity_checks_passed=n_vac, lemmas=g.get("lemmas") or [], inlined_functions=g.get("inlined") or [],
                   contracts_used_at_calls=g.get("contracts_used") or [], discharged_by=by, solver_ms=g.get("solver_ms"), solver_queries=g.get("queries"),
                   termination_not_proved=g.get("termination_not_proved") or [], verifier_notes=g.get("notes") or [])
    if h is not None:
        cov.update(evaluations=cases, distinct_nontrivial=distinct, rule="; ".join(rules), samples=samples[:24] or ["-"],
                   harness=dict(built=h["built"], with_internal_access=h.get("with_internal_access"), wall_s=h.get("wall"), notes=notes,
                                role="bounded companion and replay search; not counted as proved"))
    cov["unproved_part"] = cfg.get("unproved", "")
    cov["explanation"] = cfg["note"]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, assumptions=ass, wall_s=wall,
              violations=len(new_fail) + len(failed_obl))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    print("%s: %d/%d obligations discharged, %d executable cases (%d distinct), %.1f s" % (prop, n_dis, n_obl, cases, distinct, wall))
    if violation == "input":
        print("\n".join(lines)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if violation:
        print("\n".join(lines)[:3000])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        return 1
    return 0


main()
