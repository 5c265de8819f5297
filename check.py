#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse, array, json, os, re, subprocess, sys, tempfile, shutil, time
ROOT = os.path.dirname(os.path.abspath(__file__))
EVDIR = os.environ.get("MC_EVDIR") or os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.join(ROOT, "mc"))
import build
from spec import SPEC
KNOWN = os.path.join(ROOT, "known-findings.txt")

def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) unit=(\S+) (.*)$", l.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out

def compile_harness(pid, sp, libdir, tmp, tag):
    exe = os.path.join(tmp, "h_%s" % tag)
    cmd = [sp.get("cxx", "g++"), "-std=c++17", sp.get("opt", "-O1"), "-w", "-ffp-contract=off",
           "-I" + os.path.join(ROOT, "mc/cpp"), "-I" + os.path.join(libdir, "include"), "-I" + libdir] + sp.get("cxxflags", [])
    srcs = [os.path.join(ROOT, "mc/cpp", x) for x in sp.get("main", ["main.cpp"])] + [os.path.join(ROOT, "mc/harness", x) for x in sp["src"]]
    objs, procs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "%s_%d.o" % (tag, i))
        objs.append(o)
        fl = sp.get("srcflags", {}).get(os.path.basename(s), [])
        procs.append((s, subprocess.Popen(cmd + fl + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise build.BuildError("harness %s does not compile:\n%s" % (s, out[-3000:]))
    lk = [sp.get("cxx", "g++")] + sp.get("ldflags0", []) + objs + [os.path.join(libdir, x) for x in sp.get("libs", ["libreproblas.a"])] + ["-o", exe, "-lm", "-lpthread"] + sp.get("ldflags", [])
    r = subprocess.run(lk, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise build.BuildError("harness does not link:\n" + r.stdout[-3000:])
    return exe

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    sp = SPEC[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid)
    try:
        rc = go(pid, tier, sp, seed, tmp, a.replay, t0)
    except build.BuildError as e:
        print("ERROR: build failed:", e)
        if os.path.exists(str(e)):
            sys.stdout.write(open(str(e), errors="replace").read()[-3000:])
        rc = 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def go(pid, tier, sp, seed, tmp, replay, t0):
    only = None
    variants = list(sp.get("variants", ["avx"]))
    if tier == "thorough":
        variants += [v for v in sp.get("thorough_variants", []) if v not in variants]
    if os.environ.get("MC_VARIANTS"):  # development aid: a subset of the builds
        variants = [v for v in variants if v in os.environ["MC_VARIANTS"].split(",")] or variants[:1]
    runs = [dict(r) for r in sp.get("runs", [{}])]  # several harness configurations: src/opts/env
    if replay:
        rep = json.load(open(replay))
        only = rep["unit"]
        if rep.get("variant") and not sp.get("compare"):
            variants = [rep["variant"]]
        tier = rep.get("tier", tier)
    nsh = sp.get("shards", 8)
    stats, samples, viols, outs, statefiles = {}, [], [], {}, []
    errors = []
    kn = [k for k in known() if k[0] == pid]
    is_known = lambda x: [k for k in kn if k[1] == x[2] and k[2] in x[3]]
    skipped, longest = [], 0.0
    planned = list(variants)
    for v in planned:
        # a violation settles the answer; and an answer on fewer builds (recorded in the evidence) is better than none
        tv = time.time()
        if any(not is_known(x) for x in viols) or (tier == "quick" and v != planned[0] and tv - t0 + longest > 820):
            skipped.append(v)
            continue
        libdir = build.lib(v)
        for ri, r in enumerate(runs):
            if "variants" in r and v not in r["variants"]:
                continue
            if replay and rep.get("run", 0) != ri:
                continue
            spr = dict(sp, **r)
            spr.update(sp.get("vextra", {}).get(v, {}))
            exe = compile_harness(pid, spr, libdir, tmp, "%s%d" % (v, ri))
            procs = []
            for s in range(1 if only else spr.get("shards", nsh)):
                sf = os.path.join(tmp, "st_%s_%d_%d" % (v, ri, s))
                of = os.path.join(tmp, "out_%s_%d_%d" % (v, ri, s))
                cmd = spr.get("prefix", []) + [exe, "--shard", str(s), "--nshards", str(spr.get("shards", nsh)), "--states", sf, "--limit", str(spr.get("limit", 240 if tier == "quick" else 3000)), "--opt", "variant=" + v, "--opt", "tmp=" + tmp]
                for o in spr.get("opts", []):
                    cmd += ["--opt", o]
                if tier == "thorough":
                    cmd += ["--thorough"]
                if only:
                    cmd += ["--only", only]
                e = dict(os.environ, **spr.get("env", {}))
                procs.append((sf, of, subprocess.Popen(cmd, stdout=open(of, "wb"), stderr=subprocess.STDOUT, env=e, cwd=tmp)))
            for sf, of, p in procs:
                p.wait()
                txt = open(of, errors="replace").read()
                done = False
                nv = 0
                for l in txt.splitlines():
                    f = l.split("\t")
                    if f[0] == "VIOL" and len(f) >= 3:
                        viols.append((v, ri, f[1], f[2])); nv += 1
                    elif f[0] == "STAT" and len(f) == 3:
                        stats[f[1]] = max(stats.get(f[1], 0), int(f[2])) if f[1].startswith("max_") else stats.get(f[1], 0) + int(f[2])
                    elif f[0] == "SAMPLE":
                        if len(samples) < 12 and f[1] not in samples:
                            samples.append(f[1])
                    elif f[0] == "OUT" and len(f) == 3:
                        outs.setdefault(f[1], {})[v] = f[2]
                    elif f[0] == "DONE":
                        done = True
                if not done and not nv:
                    extra = spr.get("on_abnormal")
                    if extra:
                        m = re.search(extra, txt)
                        if m:
                            viols.append((v, ri, "(run)", txt[m.start():m.start() + 1500].replace("\n", " ")))
                            continue
                    errors.append("variant %s shard ended with code %s: %s" % (v, p.returncode, txt[-1500:]))
                if os.path.exists(sf):
                    statefiles.append(sf)
        if sp.get("compare"):
            base, ndiff = planned[0], 0
            for u in sorted(outs):
                o = outs[u]
                if v in o and base in o and o[v] != o[base] or ((v not in o or base not in o) and not viols and not errors):
                    ndiff += 1
                    if ndiff <= 20:
                        viols.append((v, 0, u, "results of variant %s differ from variant %s (%s vs %s)" % (v, base, o.get(v), o.get(base))))
        longest = max(longest, time.time() - tv)
    variants = [v for v in planned if v not in skipped]
    if sp.get("compare"):
        stats["compared_units"] = len(outs)
    states = set()
    for sf in statefiles:
        ar = array.array("Q")
        with open(sf, "rb") as fh:
            ar.frombytes(fh.read())
        if len(states) < 12000000:
            states.update(ar)
    nstates = len(states)
    newv, knv = [], []
    for x in viols:
        hit = is_known(x)
        (knv if hit else newv).append((x, hit))
    ev = dict(property=pid, tier=tier, seed=seed, level=sp["level"], coverage={}, assumptions=sp.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(newv))
    cov = ev["coverage"]
    runs_n = stats.get("runs", 0)
    if sp["level"] == "model_checking":
        cov.update(states=nstates, transitions=stats.get("transitions", runs_n), traces_validated_against_impl=stats.get("traces", runs_n))
    else:
        cov.update(evaluations=runs_n, distinct_nontrivial=nstates, rule=sp["rule"])
    cov["samples"] = samples or ["(none)"]
    cov["exhaustive"] = not stats.get("state_set_capped") and not errors and not skipped
    cov["variants"] = variants
    if skipped:
        cov["variants_skipped"] = skipped
    cov["bounds"] = sp.get("bounds", "")
    cov["counts"] = stats
    os.makedirs(EVDIR, exist_ok=True)
    if not replay:
        with open(os.path.join(EVDIR, pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    for x, hit in knv:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, x[2], x[3][:300]))
    if newv:
        os.makedirs(os.path.join(EVDIR, "replay"), exist_ok=True)
        for n, (x, _) in enumerate(newv[:5]):
            rp = os.path.join(EVDIR, "replay", "%s-%d.json" % (pid, n))
            if not replay:
                with open(rp, "w") as fh:
                    json.dump(dict(property=pid, tier=tier, variant=x[0], run=x[1], unit=x[2], message=x[3], how="python3 check.py %s --replay %s" % (pid, rp)), fh, indent=1)
            print("  [%s] unit %s: %s" % (x[0], x[2], x[3][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, replay or rp))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR:", e)
        return 3
    print("%s %s ok: %d units, %d runs, %d distinct states, %.1f s" % (pid, tier, stats.get("units", 0), runs_n, nstates, time.time() - t0))
    return 0

if __name__ == "__main__":
    main()
