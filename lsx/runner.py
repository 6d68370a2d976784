"""Build a harness crate from /repo's working tree, execute its harnesses symbolically,
replay what the solver finds, write evidence."""
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
RUSTFLAGS = "-C no-vectorize-loops -C no-vectorize-slp"

sys.path.insert(0, HERE)


def env(group, extra=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target", group)
    e["RUSTFLAGS"] = RUSTFLAGS
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_BUILD_TARGET", None)
    for k in list(e):
        if k.startswith("VERIF_"):
            e.pop(k)
    if extra:
        e.update(extra)
    return e


class BuildError(Exception):
    pass


def build(group):
    """-> (path of .ll, path of .so)"""
    src = os.path.join(ROOT, "harness", group)
    tgt = os.path.join(BUILD, "target", group)
    os.makedirs(tgt, exist_ok=True)
    p = subprocess.run(["cargo", "rustc", "--release", "--offline", "--", "-C", "save-temps"], cwd=src,
                       env=env(group), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("harness %s does not build:\n%s" % (group, p.stdout[-4000:]))
    lib = os.path.join(tgt, "release", "libhx_%s.so" % group)
    bcs = [b for b in glob.glob(os.path.join(tgt, "release", "deps", "hx_%s*.rcgu.bc" % group))]
    if not bcs:
        raise BuildError("no bitcode for " + group)
    bc = max(bcs, key=os.path.getmtime)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(group), stdout=subprocess.PIPE,
                             text=True).stdout.strip()
    dis = glob.glob(os.path.join(sysroot, "lib", "rustlib", "*", "bin", "llvm-dis"))
    ll = os.path.join(tgt, group + ".ll")
    subprocess.run([dis[0], bc, "-o", ll], check=True)
    return ll, lib


def replayer():
    out = os.path.join(BUILD, "replay")
    src = os.path.join(HERE, "native", "replay.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        subprocess.run(["gcc", "-O1", "-rdynamic", "-o", out + ".tmp", src, "-ldl"], check=True)
        os.rename(out + ".tmp", out)
    return out


def write_tape(path, tape, opq):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for sz, els, ents in opq:
            f.write("opq %d %d %s\n" % (sz, els, " ".join("%d=%d" % e for e in ents)))
        for k, v in tape:
            f.write("%s %d\n" % (k, v))


def native(lib, harness, tapefile):
    scratch = os.path.join(BUILD, "scratch-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    e = {"PATH": "/usr/bin:/bin", "LSX_SCRATCH": scratch}
    try:
        p = subprocess.run([os.path.join(BUILD, "replay"), lib, harness, tapefile], cwd=scratch, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        rc, out = p.returncode, p.stdout.decode("utf8", "replace")
        err = p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = 124, "", "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    m = re.search(r"CHECKS (\d+) FAILED (\d+)", out)
    f = re.search(r"^FAIL (.*)$", out, re.M)
    pm = re.search(r"panicked at (.*)", err)
    return dict(rc=rc, checks=int(m.group(1)) if m else None, fail=f.group(1) if f else None,
                outs=[int(x, 16) for x in re.findall(r"^OUT ([0-9a-f]+)$", out, re.M)],
                panic=rc == 41 or "PANIC" in out, where=pm.group(1)[:200] if pm else "", err=err[-400:],
                out=out[-300:])


MODS = {}
LIBS = {}


def run_harness(q, sem, h, tier, deadline):
    """in a child process"""
    import engine
    import portfolio
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    portfolio.SEM = sem
    tmp = os.path.join(BUILD, "tmp")
    os.makedirs(tmp, exist_ok=True)
    portfolio.TMP = tmp
    opts = dict(h["opts"])
    if tier == "thorough":
        opts.update(h.get("thorough", {}))
    opts["time"] = max(5, min(opts.get("time", 240), deadline - time.time()))
    t0 = time.time()
    err = None
    mod = MODS[h["group"]]
    e = engine.Engine(mod, h["name"], opts)
    try:
        e.run()
    except engine.EngineError as x:
        err = "engine: " + str(x)
    except (MemoryError, RecursionError) as x:
        err = "resources: " + repr(x)[:200]
    except Exception:
        err = "internal: " + traceback.format_exc()[-800:]
    try:
        funcs = sorted(f for f in e.functions() if f[1].startswith(REPO + "/"))
    except Exception:
        funcs = []
    s = e.stats
    q.put(dict(name=h["name"], group=h["group"], err=err, wall=time.time() - t0,
               violations=[(v.kind, v.msg, v.tape, v.opq, v.loc) for v in e.violations],
               undecided=e.undecided, covers=e.covers, checks_seen=e.checks_seen,
               witnesses=e.witnesses, funcs=funcs, assumptions=sorted(e.assumptions),
               stats=dict(paths=s.paths, steps=s.steps, queries=s.queries, hard=s.hard_queries,
                          solver_s=round(s.solver_s, 2), checks=s.checks, trivial=s.checks_trivial,
                          proved=s.checks_proved, pruned=s.pruned, forks=s.forks, by={str(k): v for k, v in s.by.items()})))


def run_all(hs, tier, deadline, jobs=8, solvers=5, verbose=True):
    ctx = mp.get_context("fork")
    sem = ctx.Semaphore(solvers)
    # slow ones first
    todo = sorted(hs, key=lambda h: -h.get("cost", 1))
    running = []
    results = {}
    while todo or running:
        while todo and len(running) < jobs:
            h = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_harness, args=(q, sem, h, tier, deadline))
            p.start()
            running.append((h, p, q, time.time()))
        nxt = []
        for h, p, q, t in running:
            if not q.empty():
                r = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                results[h["name"]] = r
                if verbose:
                    print("  %-34s %6.1fs paths=%d checks=%d (trivial %d, by solver %d) queries=%d%s%s" % (
                        h["name"], r["wall"], r["stats"]["paths"], r["stats"]["checks"], r["stats"]["trivial"],
                        r["stats"]["proved"], r["stats"]["queries"],
                        " VIOLATED" if r["violations"] else "",
                        " INCONCLUSIVE: %s" % (r["err"] or r["undecided"][0]) if r["err"] or r["undecided"] else ""),
                        flush=True)
            elif not p.is_alive():
                if q.empty():
                    results[h["name"]] = dict(name=h["name"], group=h["group"], err="worker died (%s)" % p.exitcode,
                                              wall=time.time() - t, violations=[], undecided=[], covers={},
                                              checks_seen={}, witnesses=[], funcs=[], assumptions=[],
                                              stats=dict(paths=0, steps=0, queries=0, hard=0, solver_s=0, checks=0,
                                                         trivial=0, proved=0, pruned=0, forks=0, by={}))
                    if verbose:
                        print("  %-34s worker died" % h["name"], flush=True)
                else:
                    nxt.append((h, p, q, t))
            elif time.time() > deadline + 30:
                p.kill()
                nxt.append((h, p, q, t))
            else:
                nxt.append((h, p, q, t))
        running = nxt
        time.sleep(0.02)
    return results


def check(prop, spec, tier="quick", seed=1, only=None):
    t0 = time.time()
    limit = 780 if tier == "quick" else 3300
    deadline = t0 + limit
    hs = [h for h in spec["harnesses"] if (tier == "thorough" or h.get("tier", "quick") == "quick")]
    if only:
        hs = [h for h in spec["harnesses"] if re.search(only, h["name"])]
    groups = sorted({h["group"] for h in hs})
    import ir
    rb = replayer()
    procs = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        futs = {g: ex.submit(build, g) for g in groups}
        for g, f in futs.items():
            ll, lib = f.result()
            MODS[g] = ir.Module(ll)
            LIBS[g] = lib
    tb = time.time() - t0
    print("%s: built %s in %.1fs; %d harnesses" % (prop, "+".join(groups), tb, len(hs)), flush=True)
    res = run_all(hs, tier, deadline)
    rc, summary = judge(prop, spec, hs, res, tier)
    evidence(prop, spec, hs, res, tier, seed, time.time() - t0, summary)
    return rc


def known_findings(prop):
    """known: property=ID harness=NAME check="MESSAGE" what fails"""
    out = {}
    try:
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            m = re.match(r'known: property=(\S+) harness=(\S+) check="([^"]*)" (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2), m.group(3)] = m.group(4).strip()
    except OSError:
        pass
    return out


def judge(prop, spec, hs, res, tier):
    viol, bad, incon, known = [], [], [], []
    validated = 0
    listed = known_findings(prop)
    for h in hs:
        r = res[h["name"]]
        lib = LIBS[h["group"]]
        rep = []
        for i, (kind, msg, tape, opq, loc) in enumerate(r["violations"]):
            tf = os.path.join(REPLAYS, prop, "%s-%d.tape" % (h["name"], i))
            write_tape(tf, tape, opq)
            n = native(lib, h["name"], tf)
            got = (n["rc"] == 42) or (n["rc"] == 41 or n["rc"] in (-4, -6, -11, -5))
            if got:
                rep.append((kind, msg, tf, loc, n))
                with open(tf + ".txt", "w") as f:
                    f.write("property %s\nharness %s (%s)\n%s: %s\nat %s\nnative: %s\n"
                            "re-run: %s %s %s %s\n" % (prop, h["name"], h["group"], kind, msg, loc, json.dumps(n),
                                                      os.path.join(BUILD, "replay"), lib, h["name"], tf))
            elif h["opts"].get("fpmode") == "real":
                incon.append("%s: %s %r at %s: a counterexample in real arithmetic that the real code does not "
                             "show" % (h["name"], kind, msg, loc))
            else:
                bad.append("%s: %s %r at %s does not reproduce natively (rc %s %s)" % (
                    h["name"], kind, msg, loc, n["rc"], n["out"][-120:].replace("\n", " ")))
        for x in rep:
            kf = listed.get((h["name"], x[1]))
            if kf is not None:
                if kf not in known:
                    known.append(kf)
            else:
                viol.append((h["name"],) + x)
        if r["err"]:
            incon.append("%s: %s" % (h["name"], r["err"]))
        elif r["undecided"]:
            incon.append("%s: %d undecided, first: %s" % (h["name"], len(r["undecided"]), r["undecided"][0]))
        if r["violations"]:
            continue
        # replay witnesses: the engine's path must be what the real code does
        for k, w in enumerate(r["witnesses"]):
            tf = os.path.join(BUILD, "wit", prop, "%s-%d.tape" % (h["name"], k))
            write_tape(tf, w["tape"], w["opq"])
            n = native(lib, h["name"], tf)
            okp = w["why"] == "panic(allowed)" and n["panic"] and n["rc"] == 0
            if h["opts"].get("fpmode") == "real":
                if n["rc"] == 0:
                    validated += 1
                elif n["rc"] in (41, 42):
                    viol.append((h["name"], "check", "on a witness, in machine arithmetic", tf, "", n))
                else:
                    bad.append("%s: witness %d: native run ended with %s %s" % (h["name"], k, n["rc"], n["err"]))
                continue
            if n["rc"] == 42 or n["rc"] == 41:
                # the real code fails on an input the engine accepts
                viol.append((h["name"], "check", "on a witness", tf, "", n))
            elif n["rc"] == 0 and (okp or n["checks"] == w["checks"]) and (
                    okp or all(a is None or a == b for a, b in zip(w["outs"], n["outs"]))):
                validated += 1
            elif n["rc"] == 43:
                bad.append("%s: witness %d rejected natively: %s" % (h["name"], k, n["out"]))
            elif n["rc"] in (45, 44, 124) or n["rc"] < 0:
                bad.append("%s: witness %d: native run ended with %s %s" % (h["name"], k, n["rc"], n["err"]))
            else:
                bad.append("%s: witness %d: engine saw %d checks, native %s" % (
                    h["name"], k, w["checks"], n["checks"]))
        if not r["err"] and not r["undecided"]:
            if r["stats"]["checks"] == 0 and not h.get("nocheck"):
                incon.append("%s: vacuous, no check reached" % h["name"])
            elif not r["witnesses"]:
                incon.append("%s: no path witness could be produced (vacuity not excluded)" % h["name"])
            for c, v in r["covers"].items():
                if v is not True:
                    incon.append("%s: cover %r not reached" % (h["name"], c))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for x in incon:
        print("INCONCLUSIVE " + x)
    for x in bad:
        print("ENGINE-MISMATCH " + x)
    summary = dict(viol=viol, bad=bad, incon=incon, known=known, validated=validated)
    if viol:
        for i, v in enumerate(viol):
            if not v[3].startswith(REPLAYS):
                tf = os.path.join(REPLAYS, prop, os.path.basename(v[3]) + "-witness")
                os.makedirs(os.path.dirname(tf), exist_ok=True)
                shutil.copyfile(v[3], tf)
                viol[i] = v[:3] + (tf,) + v[4:]
        for name, kind, msg, tf, loc, n in viol[:10]:
            print("  %s: %s %r at %s %s" % (name, kind, msg, loc, n["where"]))
        name, kind, msg, tf, loc, n = viol[0]
        print("VIOLATION property=%s replay=%s" % (prop, tf))
        return 1, summary
    incon += bad
    dec = hs
    nincon = len({x.split(":")[0] for x in incon})
    if dec and nincon == len(dec):
        print("%s: nothing could be decided" % prop)
        return 3, summary
    print("%s: held on everything explored (%d harnesses, %d inconclusive)" % (prop, len(hs), nincon))
    return 0, summary


def evidence(prop, spec, hs, res, tier, seed, wall, sm):
    tot = dict(paths=0, steps=0, queries=0, hard=0, solver_s=0.0, checks=0, trivial=0, proved=0, pruned=0, forks=0)
    funcs = set()
    assume = set(spec.get("assumptions", []))
    per = []
    samples = []
    for h in hs:
        r = res[h["name"]]
        for k in tot:
            tot[k] += r["stats"].get(k, 0)
        funcs |= {"%s (%s)" % (f, os.path.relpath(p, REPO)) for f, p in map(tuple, r["funcs"])}
        assume |= set(r["assumptions"])
        assume |= set(h.get("assumptions", []))
        per.append(dict(harness=h["name"], crate=h["group"], bounds=h.get("bounds", ""), wall_s=round(r["wall"], 1),
                        stats=r["stats"], checks=r["checks_seen"], covers={k: bool(v is True) for k, v in r["covers"].items()},
                        undecided=r["undecided"][:5], error=r["err"],
                        violations=[(v[0], v[1]) for v in r["violations"]]))
        for w in r["witnesses"][:1]:
            if len(samples) < 6:
                samples.append(dict(harness=h["name"], input=[list(x) for x in w["tape"][:24]],
                                    outcome="all %d checks hold natively" % w["checks"]))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
              coverage=dict(
                  states=tot["paths"], transitions=tot["steps"],
                  traces_validated_against_impl=sm["validated"],
                  samples=samples,
                  obligations=tot["checks"], discharged=tot["trivial"] + tot["proved"],
                  settled_by_constant_folding=tot["trivial"], settled_by_solver=tot["proved"],
                  solver_queries=tot["queries"], solver_process_queries=tot["hard"],
                  solver_seconds=round(tot["solver_s"], 1), infeasible_paths_pruned=tot["pruned"],
                  functions_encoded=sorted(funcs), harnesses=per,
                  inconclusive=sm["incon"], known_findings=sm["known"],
                  explanation="states = feasible symbolic paths completed; transitions = LLVM instructions "
                              "executed symbolically; obligations = assertions reached; traces_validated = solver "
                              "witnesses of explored paths re-run natively with the same outcome."),
              assumptions=sorted(assume), wall_s=round(wall, 1), violations=len(sm["viol"]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
