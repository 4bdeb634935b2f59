#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo.

1. govc generates and discharges the obligations of every contract that serves the property.
2. The executable form of the same contracts, and the bounded stand-ins, run against the real code.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = {"transform": "./transform", "jsonschema": "./jsonschema", "generate": "./generate", "main": "."}


def env():
    e = dict(os.environ)
    r = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode("utf-8", "replace")
    e["GOSUMDB"] = "off"
    e.setdefault("GOPROXY", "off")
    return e


def build_govc(e):
    out = os.path.join(VERIF, "bin", "govc")
    srcs = [os.path.join(VERIF, "govc", f) for f in os.listdir(os.path.join(VERIF, "govc"))]
    if os.path.exists(out) and all(os.path.getmtime(s) <= os.path.getmtime(out) for s in srcs):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "govc"), env=e, check=True)
    os.replace(tmp, out)
    return out


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=`([^`]*)` (.*)", l)
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def native(e, overlay, pkg, prop, budget, seed, work, timeout, only=""):
    out = os.path.join(work, "native_%s.json" % pkg)
    e = dict(e, VERIF_PROP=prop, VERIF_OUT=out, VERIF_BUDGET=str(budget), VERIF_SEED=str(seed), VERIF_ONLY=only)
    t0 = time.time()
    try:
        r = subprocess.run(["go", "test", "-overlay", overlay, "-vet=off", "-count=1", "-timeout", "%ds" % timeout, "-run", "^TestVerifNative$", PKGDIR[pkg]],
                           cwd=REPO, env=e, capture_output=True, text=True, timeout=timeout + 60, errors="replace")
        rc, log = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, log = 124, str(x)
    viols, sums, ended, harness = [], [], False, None
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "violation" in d:
                viols.append(d["violation"])
            elif "summary" in d:
                sums.append(d["summary"])
            elif "harness" in d:
                harness = d["harness"]
            else:
                ended = True
    if not ended and not viols and not harness:
        cur = ""
        try:
            cur = open(out + ".cur").read().strip()
        except OSError:
            pass
        fatal = re.search(r"(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)", log)
        if cur and "test timed out" in log:
            viols.append({"oracle": cur.split("#")[0], "seed": int(cur.rsplit("#", 1)[1]), "props": [prop], "fails": [prop + ": the code under test does not return (given %d s)" % timeout], "input": [log[-3000:]]})
        elif cur and fatal:
            viols.append({"oracle": cur.split("#")[0], "seed": int(cur.rsplit("#", 1)[1]), "props": [prop], "fails": [prop + ": the process ended: " + fatal.group(1)], "input": [log[-3000:]]})
        else:
            harness = "native run of %s did not finish (exit %s): %s" % (pkg, rc, log[-3000:])
    for v in viols:
        v["pkg"] = pkg
    return viols, sums, harness, time.time() - t0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    e = env()
    govc = build_govc(e)
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))
    conf = cfg["properties"][prop]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, tier, seed, t0, e, govc, conf, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, e, govc, conf, work):
    thorough = tier == "thorough"
    pkgs = conf["pkgs"]
    rep_path = os.path.join(work, "report.json")
    emit = os.path.join(work, "emit")
    dump = os.path.join(work, "smt")
    os.makedirs(dump)
    cmd = [govc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-native", os.path.join(VERIF, "native"),
           "-prop", prop, "-json", rep_path, "-emit", emit, "-dump", dump, "-pkgs", ",".join(conf.get("load", pkgs)),
           "-timeout", "30000" if thorough else "10000", "-budget", "600" if thorough else "150"]
    cmd += ["-total", "3000" if thorough else "420"]
    why = ""
    try:
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, timeout=3300 if thorough else 480, errors="replace")
        if r.returncode != 0 or not os.path.exists(rep_path):
            why = "govc ended with status %d: %s" % (r.returncode, (r.stdout[-1500:] + r.stderr[-1500:]))
    except subprocess.TimeoutExpired:
        why = "govc ran out of time"
    if why:
        sys.stderr.write(why + "\n")
        if not os.path.exists(os.path.join(emit, "overlay.json")):
            print("ERROR: " + why[:300])
            return 3
        # the verifier gave no verdict on the present code: that is a failed obligation, never a pass
        rep = {"Targets": [{"Name": "(all)", "Props": [prop], "Status": "unsupported", "Why": why, "Obls": []}], "Dropped": []}
    else:
        rep = json.load(open(rep_path))
    known_list = known(prop)
    failed, ob_total, ob_done, solver_ms, backends, trivial = [], 0, 0, 0, {}, 0
    ext, assum, targets, inlined = set(), set(), [], set()
    for t in rep["Targets"] or []:
        bad = []
        mine = 0
        for o in t.get("Obls") or []:
            if o["Props"] and prop not in o["Props"]:
                continue
            mine += 1
            ob_total += 1
            solver_ms += o.get("MS", 0)
            if o["Status"] == "proved":
                ob_done += 1
                backends[o.get("Solver") or "simplifier"] = backends.get(o.get("Solver") or "simplifier", 0) + 1
            else:
                bad.append(o)
        if t["Status"] in ("missing", "unsupported") or (t["Status"] == "failed" and not (t.get("Obls") and any(o["Status"] != "proved" for o in t["Obls"]))):
            bad.append({"Kind": t["Status"], "Label": t["Why"], "Pos": "", "Status": t["Status"], "Props": t["Props"]})
            ob_total += 1
        targets.append({"function": t["Name"], "status": "proved" if not bad else "not proved", "obligations": mine, "loops_with_invariants": t.get("Loops", 0), "ms": t.get("WallMS", 0)})
        ext.update(t.get("Externals") or [])
        ext.update("built-in model of " + m for m in (t.get("Models") or []))
        assum.update(t.get("Assumptions") or [])
        inlined.update(t.get("Inlined") or [])
        for o in bad:
            failed.append((t, o))
    for d in rep.get("Dropped") or []:
        assum.add("contract declaration not applicable to the present code: " + d)

    # the executable form
    budget = conf.get("budget", 12) * (15 if thorough else 1)
    if failed:
        budget *= 2
    viols, sums, harness_err, nat_s = [], [], None, 0
    for pkg in pkgs:
        v, s, h, dt = native(e, os.path.join(emit, "overlay.json"), pkg, prop, budget / len(pkgs), seed, work, 100 + int(budget * 2))
        viols += v
        sums += s
        nat_s += dt
        harness_err = harness_err or h
    ndropped = []
    try:
        ndropped = json.load(open(os.path.join(emit, "dropped.json"))) or []
    except OSError:
        pass
    if harness_err:
        sys.stderr.write(harness_err + "\n")
        if not viols and not failed:
            print("ERROR: " + harness_err[:300])
            return 3
    elif not failed and not viols and not any(s["cases"] > s["skipped"] for s in sums):
        # nothing of the property could be run against the present code: not a pass
        failed.append(({"Name": "(bounded part)", "Why": "no oracle of this property applies to the present code"}, {"Kind": "missing", "Label": "; ".join(ndropped)[:500], "Pos": "", "Status": "missing"}))

    # judge
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    lines, real = [], []
    seen_known = set()
    for v in viols:
        txt = " | ".join(v["fails"]) + " || " + " ".join(v.get("input") or [])
        hit = None
        for rx, what in known_list:
            if rx.search(txt):
                hit = what
        if hit:
            seen_known.add(hit)
            continue
        real.append(v)
    for _, what in known_list:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    nviol = 0
    rc = 0
    base = os.path.join(VERIF, "evidence", "replay", prop)
    for f in os.listdir(os.path.dirname(base)):
        if f.startswith(prop + "_"):
            os.unlink(os.path.join(os.path.dirname(base), f))
    if real:
        rc = 1
        byo = {}
        for v in real:
            byo.setdefault(v["oracle"], v)
        for i, v in enumerate(list(byo.values())[:5]):
            p = "%s_%d.json" % (base, i)
            json.dump({"property": prop, "oracle": v["oracle"], "package": v["pkg"], "seed": v["seed"], "fails": v["fails"], "input": v["input"],
                       "failed_obligations": [describe(t, o) for t, o in failed],
                       "replay": "python3 /verif/replay.py " + p}, open(p, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            nviol += 1
            print("# %s: %s" % (v["oracle"], v["fails"][0][:300]))
    elif failed:
        rc = 1
        p = "%s_obligation.json" % base
        d = [describe(t, o) for t, o in failed]
        for x, (t, o) in zip(d, failed):
            q = o.get("Query")
            if q and os.path.exists(q) and os.path.getsize(q) < 400000:
                x["smt2"] = open(q, errors="replace").read()
        json.dump({"property": prop, "failed_obligations": d, "note": "these obligations are discharged on the unchanged tree; no concrete failing input was found in the executable form of the contracts"}, open(p, "w"), indent=1)
        for x in d[:6]:
            print("# failed obligation: %s %s %s (%s)" % (x["function"], x["kind"], x["label"][:200], x["status"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        nviol += 1

    cases = sum(s["cases"] - s["skipped"] for s in sums)
    cov = {
        "obligations": ob_total, "discharged": ob_done,
        "checker_cmd": "cd /verif && ./bin/govc -repo /repo -prop %s -v (obligations from the SSA of /repo's working tree; z3 5.3.2, cvc5 1.1.2, z3 4.8.12)" % prop,
        "trusted_base": ["govc (VC generator over golang.org/x/tools/go/ssa) and its models of strings, fmt, strconv, reflect", "the SMT solvers"] + sorted(ext),
        "discharged_by": backends, "solver_ms": solver_ms, "functions_under_contract": targets,
        "functions_inlined": sorted(inlined),
        "bounded": {"label": "bounded, never counted as proved", "what": conf.get("bounded", "executable form of the contracts on generated arguments"), "cases": cases, "seconds": round(nat_s, 1),
                    "oracles": {s["oracle"]: s["cases"] - s["skipped"] for s in sums}},
        "evaluations": cases, "distinct_nontrivial": sum(s.get("distinct", 0) for s in sums), "samples": [{"oracle": s["oracle"], "case": s.get("sample", "")} for s in sums if s.get("sample")][:4],
        "rule": "distinct by a hash of the recorded input; a case is one run of an executable contract or stand-in on generated arguments that meets its preconditions",
        "explanation": conf.get("explanation", ""),
        "not_applicable_oracles": ndropped,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "proof"), "coverage": cov,
          "assumptions": sorted(assum) + conf.get("assumptions", []) + ["integers are mathematical with explicit wrap-around where the code can overflow 64 bits; floating point is abstracted as uninterpreted/real arithmetic as described in DESIGN.md"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not targets and conf.get("level", "proof") == "proof":
        print("ERROR: no contract serves this property")
        return 3
    for l in lines:
        print(l)
    print("%s %s: %d/%d obligations discharged in %d contracts, %d bounded cases, %.1f s" % (prop, tier, ob_done, ob_total, len(targets), cases, time.time() - t0))
    return rc


def describe(t, o):
    return {"function": t["Name"], "kind": o["Kind"], "label": o["Label"], "at": o.get("Pos"), "status": o["Status"], "solver": o.get("Solver"), "ms": o.get("MS"), "why": t.get("Why")}


if __name__ == "__main__":
    sys.exit(main())
