#!/usr/bin/env python3
"""Runs one registered check: python3 /verif/check.py P07 quick|thorough

Per property (table in checks.py): design models are model-checked with TLC, the model's scenarios are
replayed in the code built from /repo's working tree, and TLC decides whether every recorded behaviour
is a behaviour of the byte-level specification.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
JARS = f"{V}/build/classes:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
sys.path.insert(0, V)

class Broken(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def go_env():
    e = dict(os.environ)
    mod = "/opt/vp/owcdrivers.mod"
    if not os.path.exists(mod):
        mod = f"{V}/gomod/owcdrivers.mod"
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOFLAGS=f"-mod=readonly -modfile={mod}")
    p = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(p):
        e["PATH"] = p + ":" + e["PATH"]
    return e

def setup():
    """Compile the Java primitives (idempotent)."""
    src = [f"{V}/java/owc/{f}" for f in sorted(os.listdir(f"{V}/java/owc"))]
    out = f"{V}/build/classes"
    cls = [f"{out}/owc/{os.path.basename(s)[:-5]}.class" for s in src]
    if all(os.path.exists(c) and os.path.getmtime(c) >= os.path.getmtime(s) for c, s in zip(cls, src)):
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "-d", out] + src, capture_output=True, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stderr)

def build_harness(group, tmp, race=False):
    rep = {}
    for d in ("vlib", group):
        for f in os.listdir(f"{V}/harness/{d}"):
            if f.endswith(".go"):
                rep[f"{REPO}/zz_verif/{d}/{f}"] = f"{V}/harness/{d}/{f}"
    ov = f"{tmp}/overlay-{group}.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    exe = f"{tmp}/h-{group}" + ("-race" if race else "")
    cmd = ["go", "build", "-overlay", ov, "-o", exe] + (["-race", "-gcflags=all=-d=checkptr=0"] if race else []) + [f"./zz_verif/{group}"]
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
    if r.returncode:
        raise Broken("go build: " + r.stderr[-4000:])
    return exe

class OutOfDomain(Broken):
    pass

def tlc(module_path, cfg, tmp, env=None, workers=8, timeout=3000, extra=()):
    """Run TLC; returns (output, generated, distinct)."""
    meta = tempfile.mkdtemp(dir=tmp)
    lib = ":".join(f"{V}/spec/{d}" for d in ("lib", "models", "trace"))
    cmd = ["java", f"-Djava.io.tmpdir={meta}", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:owc.Overrides",
           f"-DTLA-Library={lib}", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-deadlock", "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg] + list(extra) + [module_path]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(module_path), env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timeout on {module_path}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", r.stdout)
    if r.returncode or not m:
        tail = "\n".join(l for l in r.stdout.splitlines() if l.strip() and not l.startswith(("Semantic", "Parsing", "Linting", "@@")))
        msg = f"TLC failed on {module_path} (exit {r.returncode}):\n" + tail[-6000:] + r.stderr[-2000:]
        # an event the specification cannot even evaluate (an index, length or type outside its domain)
        if env and "TRACE" in env and "The error occurred when TLC was evaluating" in r.stdout and not re.search("OutOfMemory|StackOverflow", r.stdout + r.stderr):
            raise OutOfDomain(msg)
        raise Broken(msg)
    g, d = m[-1]
    return r.stdout, int(g.replace(",", "")), int(d.replace(",", ""))

def marks(out, tag):
    t = "@@" + tag + " "
    return [l[len(t):] for l in out.splitlines() if l.startswith(t)]

def known():
    """known_findings.txt: lines 'finding: property=ID id=<regex on the scenario id> what fails'."""
    r = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l)
            if m:
                r.append((m[1], re.compile(m[2]), m[3]))
    return r

def run(pid, tier):
    import checks
    c = checks.CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(f"{V}/build/tmp", exist_ok=True)
    tmp = tempfile.mkdtemp(dir=f"{V}/build/tmp")
    viol, knowns, cov = [], {}, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "samples": [], "models": [], "stages": []}
    try:
        setup()
        scn = {}
        for m in c.get("models", []):
            name, cfg = m["module"], m.get("cfg_" + tier, m.get("cfg", m["module"] + ".cfg"))
            if m.get("fails"):  # a faulty variant of the model: the invariant must be seen to fail (it is not vacuous)
                try:
                    tlc(f"{V}/spec/models/{name}.tla", f"{V}/spec/models/{cfg}", tmp, timeout=c.get("timeout", 3000))
                except Broken as x:
                    if f"Invariant {m['fails']} is violated" not in str(x):
                        raise
                else:
                    raise Broken(f"{cfg}: {m['fails']} should fail")
                cov["models"].append({"module": name, "config": cfg, "refuted": m["fails"]})
                log(f"model {name} ({cfg}): {m['fails']} refuted, as it must be")
                continue
            out, g, d = tlc(f"{V}/spec/models/{name}.tla", f"{V}/spec/models/{cfg}", tmp, timeout=c.get("timeout", 3000))
            lines = marks(out, "SCN")
            f = f"{tmp}/{name}.scn"
            # the order of emission is not part of the model: normalise it
            lines = sorted(set(lines))
            if lines:
                open(f, "w").write("\n".join(lines) + "\n")
                scn[name] = f
            cov["states"] += d
            cov["transitions"] += g
            cov["models"].append({"module": name, "config": cfg, "distinct": d, "generated": g, "scenarios": len(lines)})
            log(f"model {name}: {d} distinct states, {len(lines)} scenarios")
        exes = {}
        for s in c["stages"]:
            grp = s["group"]
            key = (grp, s.get("race", False))
            if key not in exes:
                exes[key] = build_harness(grp, tmp, s.get("race", False))
            scale = s.get("scale", {}).get(tier, 1 if tier == "quick" else 6)
            tr, parts, procs = f"{tmp}/{grp}-{s.get('name', s['mode'])}.ndjson", s.get("parts", 8), []
            races = f"{tmp}/race-{grp}"
            t1 = time.time()
            for k in range(parts):
                cmd = [exes[key], "-seed", str(seed), "-out", f"{tr}.{k}", "-mode", s["mode"], "-scale", str(scale), "-shard", str(k), "-parts", str(parts)]
                if isinstance(s.get("scn"), dict):
                    cmd += ["-scn", ",".join(f"{m}={scn[x]}" for m, x in s["scn"].items())]
                elif s.get("scn"):
                    cmd += ["-scn", scn[s["scn"]]]
                if s.get("style"):
                    cmd += ["-style", s["style"], "-every", str(s.get("every", {}).get(tier, 1))]
                if s.get("sched"):
                    cmd += ["-sched", scn[s["sched"]]]
                ef = open(f"{tr}.{k}.err", "w+", errors="replace")
                procs.append((subprocess.Popen(cmd, cwd=tmp, stdout=ef, stderr=ef, env=dict(os.environ, GORACE=f"log_path={races} halt_on_error=0 exitcode=0")), ef))
            rc, err, limit = 0, "", time.time() + s.get("timeout", 600)
            for p, ef in procs:
                try:
                    c1 = p.wait(timeout=max(1, limit - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    c1 = -1
                if c1:
                    ef.seek(0)
                    rc, err = c1, err + (ef.read()[-20000:] or "harness timeout")
                ef.close()
            if rc:
                # the recorder is quiet on a correct tree: the code under test killed or stalled the process
                rp = replay_file(pid, len(viol), {"stage": s["mode"], "group": grp, "seed": seed, "process": err})
                viol.append((s["mode"], "process ended abnormally: " + err.strip()[:300], rp))
                continue
            t2 = time.time()
            for x in data_races(tmp, os.path.basename(races)):
                rp = replay_file(pid, len(viol), {"stage": s["mode"], "group": grp, "seed": seed, "race": x})
                viol.append((s["mode"], "two calls race: " + " ".join(x.split())[:600], rp))
            rows = []
            for k in range(parts):
                rows += open(f"{tr}.{k}").read().splitlines()
                os.unlink(f"{tr}.{k}")
            open(tr, "w").write("\n".join(rows) + "\n")
            total = ev = 0
            for l in rows:
                k = len(json.loads(l)["ev"])
                ev += k
                total += k + 1
            if not rows:
                raise Broken("harness recorded nothing")
            spec = s["spec"]
            try:
                out, g, d = tlc(f"{V}/spec/trace/{spec}.tla", f"{V}/spec/trace/{spec}.cfg", tmp, env={"TRACE": tr}, timeout=c.get("timeout", 3000))
            except OutOfDomain as x:
                rp = replay_file(pid, len(viol), {"stage": s["mode"], "group": grp, "seed": seed, "tlc": str(x)})
                viol.append((s["mode"], "recorded behaviour outside the domain of the specification: " + str(x)[-1500:], rp))
                continue
            rej = [json.loads(x) for x in marks(out, "REJECT")]
            if not rej and d != total:
                raise Broken(f"trace specification consumed {d} states, expected {total}")
            seen = set()
            for x in rej:
                if x["sc"] in seen:
                    continue
                seen.add(x["sc"])
                row = json.loads(rows[x["sc"] - 1])
                kn = [k for k in known() if k[0] == pid and k[1].search(x["id"])]
                if kn:
                    knowns.setdefault(kn[0][2], 0)
                    knowns[kn[0][2]] += 1
                    continue
                if len(viol) < 25:
                    rp = replay_file(pid, len(viol), {"group": grp, "mode": s["mode"], "seed": seed, "scale": scale, "scenario": row["id"],
                                                      "event": x["i"], "expected": x["exp"], "recorded": row["ev"],
                                                      "replay": "VERIF_SEED=%d python3 /verif/check.py --replay <this file>" % seed})
                    viol.append((row["id"], f"event {x['i']} {json.dumps(row['ev'][x['i']-1])[:500]} expected {str(x['exp'])[:500]}", rp))
                else:
                    viol.append((row["id"], "", ""))
            cov["states"] += d
            cov["transitions"] += g
            cov["traces_validated_against_impl"] += len(rows)
            cov["events"] += ev
            if len(cov["samples"]) < 6:
                import random
                q = random.Random(seed)
                for l in q.sample(rows, min(2, len(rows))):
                    cov["samples"].append(l[:1500])
            cov["stages"].append({"harness": grp, "mode": s["mode"], "spec": spec, "scenarios": len(rows), "events": ev, "rejected": len(seen)})
            log(f"stage {grp}/{s['mode']} against {spec}: {len(rows)} behaviours, {ev} calls, {len(seen)} rejected ({time.time()-t0:.0f}s: record {t2-t1:.0f}, judge {time.time()-t2:.0f})")
            os.unlink(tr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k, n in knowns.items():
        log(f"KNOWN-FINDING: property={pid} {k} ({n} behaviours)")
    for sid, what, rp in viol[:int(os.environ.get("VERIF_SHOW","6"))]:
        log(f"# {sid}: {what}")
    if viol:
        for sid, what, rp in viol[:5]:
            if rp:
                log(f"VIOLATION property={pid} replay={rp}")
    os.makedirs(f"{V}/evidence", exist_ok=True)
    cov["violations"] = len(viol)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
               "wall_s": round(time.time() - t0, 1)}, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    log(f"{pid} {tier}: {'VIOLATED' if viol else 'held'} ({time.time()-t0:.1f}s)")
    return 1 if viol else 0

def data_races(tmp, base):
    """Reports of the race detector in which both sides are at work in the library (not in the recorder)."""
    found = {}
    for f in sorted(os.listdir(tmp)):
        if not f.startswith(base + "."):
            continue
        for r in open(f"{tmp}/{f}", errors="replace").read().split("=================="):
            if "DATA RACE" not in r:
                continue
            acc = [a for a in re.split(r"\n\n", r) if re.search(r"(Read|Write|read|write) at 0x", a)]
            tops = []
            for a in acc:
                fr = re.findall(r"^  (\S+)\(.*\)$", a, re.M)
                own = [x for x in fr if "github.com/blocktree/" in x]
                tops.append(own[0] if own else "")
            if tops and all(t and "/zz_verif/" not in t for t in tops):
                found.setdefault(tuple(sorted(tops)), r.strip())
    return list(found.values())[:10]

def replay_file(pid, n, d):
    p = f"{V}/evidence/replay"
    os.makedirs(p, exist_ok=True)
    f = f"{p}/{pid}-{n}.json"
    json.dump(dict(d, property=pid), open(f, "w"), indent=1)
    return f

def main():
    try:
        if sys.argv[1] == "--setup":
            setup()
            return 0
        return run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Broken as e:
        log("BROKEN:", e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
