#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- build the harnesses of one property against /repo's working tree and run them.
   check.py --warm                  -- build everything (used by hand; the checks do not rely on it)
   check.py --replay FILE           -- re-run one recorded violation."""
import sys, os, json, subprocess, time, hashlib, glob, shutil, fnmatch
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, HARNESS, CONFIGS   # noqa
JOBS = max(2, os.cpu_count() or 8)

def include_dirs():
    inc = os.path.join(REPO, "include"); r = []
    for d, sub, files in os.walk(inc):
        sub.sort()
        r.append(d)
    return r + ["/usr/include/eigen3"]

def lib_sources():
    r = []
    for d, sub, files in os.walk(os.path.join(REPO, "src")):
        sub.sort()
        r += [os.path.join(d, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx"))]
    return r

def cflags(cfg):
    c = CONFIGS[cfg]
    base = ["-std=c++17", "-w", "-include", "utility"] + c["flags"]
    return base

def ninja_build(targets, tier):
    """targets: list of (harness, cfg). Returns {(h,cfg): exe}."""
    bd = os.path.join(V, "build"); os.makedirs(bd, exist_ok=True)
    out = ["ninja_required_version = 1.3", "builddir = %s" % bd,
           "rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
           "rule cc\n  command = gcc -O2 -c $in -o $out",
           "rule link\n  command = g++ $in -o $out $ldflags"]
    inc = " ".join("-I" + d for d in include_dirs()); seen = {}; exes = {}
    def obj(src, cfg, extra, tag):
        o = os.path.join(bd, cfg, tag + ".o")
        if o not in seen:
            seen[o] = 1
            out.append("build %s: cxx %s\n  flags = %s %s %s" % (o, src, " ".join(cflags(cfg)), " ".join(extra), inc + " -I" + os.path.join(V, "harness")))
        return o
    for h, cfg in targets:
        H = HARNESS[h]; objs = []
        lf = H.get("libflags", [])
        lt = ("-" + h) if lf else ""
        for s in lib_sources():
            objs.append(obj(s, cfg, lf, "lib" + lt + "_" + os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_")[:-4]))
        for n, (src, extra) in enumerate(H["srcs"]):
            objs.append(obj(os.path.join(V, "harness", src), cfg, list(extra) + list(H.get("flags", [])), "_".join([os.path.splitext(src)[0]] + [x.replace("-D", "").replace("=", "") for x in list(extra) + list(H.get("flags", []))])))
        for n, src in enumerate(H.get("plain", []) + CONFIGS[cfg].get("plain", [])):   # never instrumented
            o = os.path.join(bd, cfg, "%s_plain%d.o" % (h, n))
            out.append("build %s: cxx %s\n  flags = -std=c++17 -O1 -fno-builtin -fno-tree-loop-distribute-patterns -w -I%s" % (o, os.path.join(V, "harness", src), os.path.join(V, "harness")))
            objs.append(o)
        exe = os.path.join(bd, cfg, h); exes[(h, cfg)] = exe
        out.append("build %s: link %s\n  ldflags = %s -lpthread %s" % (exe, " ".join(objs), " ".join(CONFIGS[cfg].get("ld", [])), " ".join(H.get("ld", []))))
    nf = os.path.join(bd, "build-%s.ninja" % hashlib.sha1(repr(sorted(map(str, targets))).encode()).hexdigest()[:10])
    with open(nf, "w") as f: f.write("\n".join(out) + "\n")
    t = time.time()
    p = subprocess.run(["ninja", "-f", nf, "-j", str(JOBS)] + sorted(exes.values()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print("\n".join(l[:400] for l in p.stdout.splitlines() if "error" in l.lower() or l.startswith("FAILED"))[-6000:]); print("ERROR: the harness does not build against %s" % REPO); sys.exit(2)
    return exes, time.time() - t

def load_known():
    k = []
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                # known: property=<id> case=<config>/<exact case id> :: text
                head, _, text = l[7:].partition(" :: ")
                a, _, b = head.partition(" case=")
                k.append((a.split("=", 1)[1].strip(), b.strip(), text))
    return k

def run_lines(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=env)
        rc, o = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, o = -999, (e.stdout or b"").decode(errors="replace")
    r = []
    for l in o.splitlines():
        if l.startswith("{"):
            try: r.append(json.loads(l))
            except Exception: pass
    return rc, r

def main():
    if sys.argv[1] == "--warm":
        tg = sorted({(h, c) for P in CHECKS.values() for h, c in [x[:2] for x in P["quick"] + P.get("thorough", [])]})
        print("built in %.1fs" % ninja_build(tg, "quick")[1]); return 0
    if sys.argv[1] == "--replay":
        a = json.load(open(sys.argv[2])); x = (a["harness"].split("@")[0], a["config"]); exes, _ = ninja_build([x], a["tier"])
        return subprocess.run([exes[x]] + a["asked"] + a["args"], env=dict(os.environ, **CONFIGS[x[1]].get("env", {}))).returncode
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); C = CHECKS[prop]; tg = C.get(tier) or C["quick"]
    multi = C.get("mem") or C.get("reduced"); runs = [(h + "@" + e, c) for h, c, e in tg] if multi else tg   # memory safety: the enumerations of other properties
    tg = sorted({x[:2] for x in tg}, key=[x[:2] for x in tg].index)
    exes, tb = ninja_build(tg, tier)
    if multi: exes = {r: exes[(r[0].split("@")[0], r[1])] for r in runs}
    ask = lambda h: ["--prop", h.partition("@")[2] or prop, "--tier", tier] + (["--mem"] if C.get("mem") else ["--reduced"] if C.get("reduced") else [])
    rundir = os.path.join(V, "build", "run-%s-%s" % (prop, tier)); shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, cases=0, comparisons=0, outside_domain=0, crashes=0, samples=[], exhaustive=True, per_config={}, build_s=round(tb, 1))
    fails = {}   # (cfg, id) -> record
    for h, cfg in runs:
        out = os.path.join(rundir, "%s-%s.out" % (h, cfg)); t = time.time()
        env = dict(os.environ); env.update(CONFIGS[cfg].get("env", {}))
        cmd = [exes[(h, cfg)]] + ask(h) + ["--out", out, "--jobs", str(JOBS)] + [str(x) for x in HARNESS[h.split("@")[0]].get("args", [])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if p.returncode:
            print(p.stderr.decode(errors="replace")[-2000:]); print("ERROR: harness %s/%s ended with %d" % (h, cfg, p.returncode)); sys.exit(2)
        T = None
        for l in open(out, errors="replace"):
            try: r = json.loads(l)
            except Exception: continue
            if r["t"] == "F": fails.setdefault((h, cfg, r["id"]), r)
            elif r["t"] == "C":
                ids = "enumeration" if r["ix"] < 0 else subprocess.run([exes[(h, cfg)]] + ask(h) + ["--id", str(r["ix"])], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
                r["id"] = ids + "#crash"; r["msg"] = "the process ended: " + r["status"]; r["crash"] = 1
                fails.setdefault((h, cfg, r["id"]), r)
            elif r["t"] == "S" and len(cov["samples"]) < 40: cov["samples"].append("%s/%s: %s" % (h, cfg, r["id"]))
            elif r["t"] == "T": T = r
        if T is None: print("ERROR: harness %s/%s gave no totals" % (h, cfg)); sys.exit(2)
        if T["total"] == 0 or (T["checks"] == 0 and not T["nfail"]): print("ERROR: harness %s/%s explored nothing" % (h, cfg)); sys.exit(2)
        cov["states"] += T["states"]; cov["transitions"] += T["trans"]; cov["traces_validated_against_impl"] += T["traces"]; cov["cases"] += T["cases"]
        cov["comparisons"] += T["checks"]; cov["outside_domain"] += T["skipped"]; cov["crashes"] += T["crashes"]
        cov["per_config"]["%s/%s" % (h, cfg)] = dict(cases=T["cases"], states=T["states"], transitions=T["trans"], comparisons=T["checks"], failing=T["nfail"], tally=T["tally"], wall_s=round(time.time() - t, 1))
        if T["crashes"] == 0 and T["cases"] != T["total"]: print("ERROR: %s/%s ran %d of %d cases" % (h, cfg, T["cases"], T["total"])); sys.exit(2)
    # replay in a fresh process before reporting anything
    known = load_known(); viol = []; seenknown = {}; unrepro = []
    order = sorted(fails.items(), key=lambda kv: (len(kv[0][2]), kv[0][2]))
    def tried(h, cfg, rec, args):
        env = dict(os.environ); env.update(CONFIGS[cfg].get("env", {}))
        rc, ls = run_lines([exes[(h, cfg)]] + ask(h) + args, 150, env)
        if args == ["--count"]: return rc == 1
        if C.get("mem"): return rc in (99, -11, -7)
        if rec.get("crash"):
            if not any(l.get("t") == "D" for l in ls): return True
            for l in ls:   # the case ran to its end this time: what it found counts
                if l.get("t") == "F" and (h, cfg, l["id"]) not in fails: l.setdefault("lo", rec["lo"]); l.setdefault("hi", rec["hi"]); fails[(h, cfg, l["id"])] = l; order.append(((h, cfg, l["id"]), l))
            return False
        return any(l.get("t") == "F" and l["id"] == rec["id"] for l in ls)
    for (h, cfg, fid), rec in order:
        kid = "%s/%s" % (cfg, fid)
        k = next((x for x in known if x[0] == prop and x[1] == kid), None)
        if k: seenknown[kid] = k[2]; continue
        if len(viol) >= 5: viol.append((h, cfg, fid, rec, None)); continue   # enough replays: the rest is listed only
        case = fid.split("#", 1)[0]; args = ["--only", case] if case != "enumeration" else ["--count"]; ok = tried(h, cfg, rec, args)
        if not ok and case != "enumeration": args = ["--range", str(rec["lo"]), str(rec["hi"])]; ok = tried(h, cfg, rec, args) or tried(h, cfg, rec, args)
        if not ok: unrepro.append(kid); continue
        rp = os.path.join(V, "build", "replay"); os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, "%s-%s.json" % (prop, hashlib.sha1(kid.encode()).hexdigest()[:12]))
        json.dump(dict(property=prop, tier=tier, harness=h, config=cfg, asked=ask(h), case=fid, message=rec["msg"], args=args, how="python3 /verif/check.py --replay <this file>"), open(rf, "w"), indent=1)
        viol.append((h, cfg, fid, rec, rf))
    for kid, text in seenknown.items(): print("KNOWN-FINDING: property=%s %s :: %s" % (prop, kid, text))
    cov["configurations"] = ["%s/%s" % x for x in runs]; cov["bounds"] = C.get("bounds", {}).get(tier, C.get("bounds", {}).get("quick", "see DESIGN.md"))
    cov["unreproduced"] = unrepro[:20]; cov["known_findings_seen"] = len(seenknown)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: cases=%d states=%d transitions=%d comparisons=%d outside-domain=%d build=%.1fs wall=%.1fs" % (prop, tier, cov["cases"], cov["states"], cov["transitions"], cov["comparisons"], cov["outside_domain"], tb, ev["wall_s"]))
    for u in unrepro[:5]: print("NOTE: not reproduced in a fresh process: " + u)
    if viol:
        for h, cfg, fid, rec, rf in viol[:5]: print("  %s/%s: %s" % (cfg, fid, rec["msg"]))
        if len(viol) > 5: print("  ... and %d more" % (len(viol) - 5))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][4])); return 1
    return 0
if __name__ == "__main__": sys.exit(main())
