#!/usr/bin/env python3
"""Runs the simulated executions that decide one property.

  check.py PROP [--tier quick|thorough]      exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: error
  check.py --replay FILE                     replays a violation file exactly (exit 1 and the VIOLATION line if it reproduces)
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
from plan import PLAN, COMMON_ASSUMPTIONS

CORES = max(1, min(8, os.cpu_count() or 1))
RULE = ("one evaluation is one simulated run: the seed decides configuration, workload, schedule and faults; a run counts as distinct and "
        "non-trivial if its oracle was evaluated at least once and its complete event log (hashed) differs from that of every other run")
HDR = struct.Struct("<8sQIIQ128s1024s16s")
SCRATCH = None

def read_tape(path):
    try:
        with open(path, "rb") as f:
            h = f.read(HDR.size)
            magic, seed, n, state, evh, kind, msg, prop = HDR.unpack(h)
            f.seek(HDR.size + (-HDR.size) % 8)
            vals = list(struct.unpack(f"<{n}I", f.read(4 * n)))
        z = lambda b: b.split(b"\0")[0].decode(errors="replace")
        return dict(seed=seed, state=state, evhash=evh, kind=z(kind), msg=z(msg), tape=vals)
    except Exception as e:
        return None

def classify(rc, err, tape):
    """Violation class of a finished simulator process: stable across unrelated details."""
    if rc == 3 and tape and tape["state"] == 3:
        return tape["kind"], tape["msg"]
    if rc == 99:
        m = re.search(r"SUMMARY: \w+Sanitizer: (\S+) (\S+)(?: in (\w+))?", err)
        a = re.search(r"Assertion [`'](.*?)' failed", err)
        if a:
            return "assert:" + a.group(1)[:80], a.group(0)
        frames = re.findall(r"#\d+ 0x\w+ in (\w+) (/\S+)", err)
        fn = next((f for f, p in frames if "/lib/" in p and "/verif/" not in p), None)
        what = m.group(1) if m else "sanitizer"
        if what == "undefined-behavior":
            u = re.search(r"runtime error: (.*)", err); what = "ub:" + (re.sub(r"-?\d+", "N", u.group(1))[:60] if u else "")
        what = {"ABRT": "abort", "SEGV": "segv"}.get(what, what)
        fn = fn or (m.group(3) if m and m.group(3) else "?")
        return f"memory:{what}:{fn}", (m.group(0) if m else err.strip()[-300:])
    if rc < 0 or rc > 128:
        return f"crash:{rc}", err.strip()[-300:]
    return None, err.strip()[-600:]

def run_sim(exe, args, tapefile, timeout=None, keep_out=False):
    try:
        p = subprocess.run([exe] + args + ["--tape", tapefile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=dict(os.environ, G_SLICE="always-malloc"))
    except subprocess.TimeoutExpired as e:
        return 124, "", "timeout"
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

def replay(exe, scen, seed, tape, thorough, verbose=False):
    fd, path = tempfile.mkstemp(dir=SCRATCH); os.close(fd)
    with open(path, "w") as f:
        f.write(str(seed) + "\n" + " ".join(map(str, tape)) + "\n")
    a = ["--prop", scen, "--replay", path] + (["--thorough"] if thorough else []) + (["--verbose"] if verbose else [])
    rc, out, err = run_sim(exe, a, path + ".tape", timeout=120)
    t = read_tape(path + ".tape")
    for p in (path, path + ".tape"):
        try: os.remove(p)
        except OSError: pass
    k, msg = (None, "") if rc == 0 else classify(rc, err, t)
    return dict(rc=rc, kind=k, msg=msg, hash=t["evhash"] if t else 0, used=len(t["tape"]) if t else 0, tape=t["tape"] if t else [], out=out, err=err)

def replay_range(exe, scen, lo, seed, thorough):
    """Runs seeds lo..seed in one process: for violations that need state left behind by earlier runs of the same process."""
    fd, path = tempfile.mkstemp(dir=SCRATCH); os.close(fd)
    a = ["--prop", scen, "--from", str(lo), "--to", str(seed + 1)] + (["--thorough"] if thorough else [])
    rc, out, err = run_sim(exe, a, path, timeout=600)
    t = read_tape(path)
    try: os.remove(path)
    except OSError: pass
    k, msg = (None, "") if rc == 0 else classify(rc, err, t)
    return dict(rc=rc, kind=k, msg=msg, hash=t["evhash"] if t else 0, seed=t["seed"] if t else 0, out=out, err=err)

def minimise(exe, scen, seed, tape, kind, thorough, budget):
    """Shrinks the choice tape: shorter tapes (missing choices are 0, the benign alternative), then smaller values."""
    t0 = time.time(); tried = 0
    ok = lambda t: replay(exe, scen, seed, t, thorough)["kind"] == kind
    best = list(tape)
    def first_good(cands):
        nonlocal tried
        for i in range(0, len(cands), CORES):
            if time.time() - t0 > budget: return None
            part = cands[i:i + CORES]; tried += len(part)
            with cf.ThreadPoolExecutor(CORES) as ex:
                for c, g in zip(part, ex.map(ok, part)):
                    if g: return c
        return None
    def strip(t):
        t = list(t)
        while t and t[-1] == 0: t.pop()
        return t
    best = strip(best)
    # truncate
    while best and time.time() - t0 < budget / 3:
        n = len(best); cands = [strip(best[:n * k // 8]) for k in range(0, 8)]
        c = first_good([x for x in cands if len(x) < n])
        if c is None: break
        best = c
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < budget:
        i = 0; changed = False
        starts = list(range(0, len(best), size))
        while starts and time.time() - t0 < budget:
            batch = starts[:CORES]; starts = starts[CORES:]
            cands = []
            for s in batch:
                if any(best[s:s + size]): cands.append(strip(best[:s] + [0] * len(best[s:s + size]) + best[s + size:]))
                cands.append(strip(best[:s] + best[s + size:]))
            cands = [c for c in cands if (len(c), sum(1 for v in c if v)) < (len(best), sum(1 for v in best if v))]
            c = first_good(cands)
            if c is not None:
                best = c; changed = True; starts = [s for s in starts if s < len(best)]
        if not changed or size == 1: size //= 2
    # smaller values
    for i in range(len(best)):
        if time.time() - t0 > budget: break
        if best[i] > 1:
            c = first_good([strip(best[:i] + [v] + best[i + 1:]) for v in sorted({1, best[i] // 2, best[i] - 1}) if v < best[i]])
            if c is not None: best = c
    return best, tried

def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) kind=(\S+) (.*)", l)
            if m: out.append(dict(property=m.group(1), kind=m.group(2), text=m.group(3)))
    return out

def scen_run(exe, variant, scen, base, count, cap_s, thorough, known, prop, chunk):
    """Explores seeds base..base+count-1 on all cores. Returns (stats, states, violation or None, hits)."""
    tot = dict(runs=0, events=0, choices=0, evals=0, steps=0, simtime_us=0, max_tape=0, faults={}, probes={}, flaky=[])
    states = set(); runset = set(); viol = []; hits = {}; flaky = tot["flaky"]
    jobs = []
    s = base
    while s < base + count:
        jobs.append((s, min(s + chunk, base + count))); s += chunk
    deadline = time.time() + cap_s
    errors = []
    def work(job):
        lo, hi = job
        while lo < hi:
            left = deadline - time.time()
            if left <= 0 or viol or errors: return
            tag = os.path.join(SCRATCH, f"{scen}_{lo}")
            a = ["--prop", scen, "--from", str(lo), "--to", str(hi), "--max-seconds", f"{left:.1f}", "--stats", tag + ".json", "--states", tag + ".st", "--runset", tag + ".rs"]
            if thorough: a.append("--thorough")
            for k in known:
                if k["property"] == prop: a += ["--known", k["kind"]]
            rc, out, err = run_sim(exe, a, tag + ".tape")
            t = read_tape(tag + ".tape")
            if rc == 0:
                st = json.load(open(tag + ".json"))
                for k in ("runs", "events", "choices", "evals", "steps", "simtime_us"): tot[k] += st[k]
                tot["max_tape"] = max(tot["max_tape"], st["max_tape"])
                for kk in known:
                    if kk["property"] == prop and "known:" + kk["kind"] in st["probes"]: hits[kk["text"]] = hits.get(kk["text"], 0) + st["probes"].pop("known:" + kk["kind"])
                for g in ("faults", "probes"):
                    for k, v in st[g].items(): tot[g][k] = tot[g].get(k, 0) + v
                b = open(tag + ".st", "rb").read()
                states.update(struct.unpack(f"<{len(b)//8}Q", b))
                b = open(tag + ".rs", "rb").read()
                runset.update(struct.unpack(f"<{len(b)//8}Q", b))
                lo = hi
            else:
                kind, msg = classify(rc, err, t)
                if kind is None:
                    errors.append(f"simulator ended with {rc}: {msg}"); return
                kf = next((k for k in known if k["property"] == prop and k["kind"] == kind), None)
                if kf:
                    hits[kf["text"]] = hits.get(kf["text"], 0) + 1
                    tot["runs"] += t["seed"] - lo + 1
                    lo = t["seed"] + 1
                elif len(flaky) < 2 and replay(exe, scen, t["seed"], t["tape"], thorough)["kind"] is None and replay_range(exe, scen, lo, t["seed"], thorough)["kind"] is None:
                    # What cannot be replayed is not believed, but counted and reported; the search goes on behind it. More than two of them are an error.
                    flaky.append(f"{kind} of seed {t['seed']}: {msg}")
                    print(f"WARNING: not reproduced: {flaky[-1]}", file=sys.stderr)
                    tot["runs"] += t["seed"] - lo + 1
                    lo = t["seed"] + 1
                else:
                    viol.append(dict(seed=t["seed"], tape=t["tape"], kind=kind, msg=msg, variant=variant, scen=scen, lo=lo)); return
            for x in (".json", ".st", ".rs", ".tape"):
                try: os.remove(tag + x)
                except OSError: pass
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(work, jobs))
    viol.sort(key=lambda v: v["seed"])
    return tot, states, runset, (viol[0] if viol else None), hits, errors

def report_violation(prop, v, exe, thorough, budget):
    full = replay(exe, v["scen"], v["seed"], v["tape"], thorough)
    again = replay(exe, v["scen"], v["seed"], v["tape"], thorough)
    if full["kind"] and full["kind"] == again["kind"] and full["hash"] == again["hash"]:
        v["kind"] = full["kind"]
    else:
        # the run needs what earlier runs of the same process left behind (process-wide state of the library)
        r = [replay_range(exe, v["scen"], v["lo"], v["seed"], thorough) for _ in range(2)]
        if r[0]["kind"] and r[0]["kind"] == r[1]["kind"] and r[0]["seed"] == r[1]["seed"] and r[0]["hash"] == r[1]["hash"]:
            seed, lo = r[0]["seed"], v["lo"]; t0 = time.time(); step = (seed - lo) // 2
            while step >= 1 and time.time() - t0 < budget:      # fewer runs before it
                c = replay_range(exe, v["scen"], lo + step, seed, thorough)
                if c["kind"] == r[0]["kind"] and c["seed"] == seed: lo += step; step = min(step, (seed - lo) // 2) or 0
                else: step //= 2
            c = replay_range(exe, v["scen"], lo, seed, thorough)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-{v['scen']}-{seed}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, variant=v["variant"], scenario=v["scen"], seed=seed, range_from=lo, thorough=thorough, kind=c["kind"], message=c["msg"],
                               event_hash=f"{c['hash']:016x}", note="the violation needs the runs range_from..seed in one process: state left behind across sessions",
                               stderr=c["err"].splitlines()[:60]), f, indent=1)
            print(f"kind: {c['kind']} (only after earlier sessions in the same process)\n{c['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
            return path
        print(f"ERROR: violation {v['kind']} of seed {v['seed']} did not reproduce ({full['kind']}, {again['kind']})", file=sys.stderr)
        print(v["msg"], file=sys.stderr)
        return None
    tape, tried = minimise(exe, v["scen"], v["seed"], v["tape"], v["kind"], thorough, budget)
    r1 = replay(exe, v["scen"], v["seed"], tape, thorough, verbose=True)
    r2 = replay(exe, v["scen"], v["seed"], tape, thorough, verbose=True)
    if r1["kind"] != v["kind"] or r2["kind"] != v["kind"] or r1["hash"] != r2["hash"]:
        tape = v["tape"]; r1 = replay(exe, v["scen"], v["seed"], tape, thorough, verbose=True)
        if r1["kind"] != v["kind"]:
            print("ERROR: replay is not reproducible", file=sys.stderr); return None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{v['scen']}-{v['seed']}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, variant=v["variant"], scenario=v["scen"], seed=v["seed"], thorough=thorough, kind=v["kind"], message=r1["msg"],
                       event_hash=f"{r1['hash']:016x}", original_choices=len(v["tape"]), minimised_choices=len(tape), minimisation_runs=tried, tape=tape,
                       trace=r1["out"].splitlines()[-400:], stderr=r1["err"].splitlines()[:60]), f, indent=1)
    print(f"kind: {v['kind']}\n{r1['msg']}")
    for l in r1["out"].splitlines()[-25:]: print("  | " + l)
    print(f"VIOLATION property={prop} replay={path}")
    return path

def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--only", help="only this scenario")
    a = ap.parse_args()
    SCRATCH = tempfile.mkdtemp(prefix="svsim.")
    try:
        return run(a)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)

def run(a):
    if a.replay:
        d = json.load(open(a.replay))
        exe = simbuild.build(d["variant"])
        if "range_from" in d: r = replay_range(exe, d["scenario"], d["range_from"], d["seed"], d["thorough"])
        else: r = replay(exe, d["scenario"], d["seed"], d["tape"], d["thorough"], verbose=True)
        print(r["out"]); print(r["err"])
        if r["kind"] == d["kind"] and (f"{r['hash']:016x}" == d["event_hash"]):
            print("replay: same violation, same event hash"); print(f"VIOLATION property={d['property']} replay={a.replay}"); return 1
        if r["kind"] == d["kind"]:
            print("replay: same violation (event hash differs: the code changed)"); print(f"VIOLATION property={d['property']} replay={a.replay}"); return 1
        print(f"replay: no such violation (got {r['kind']})"); return 0 if r["rc"] == 0 else 2
    prop = a.prop; plan = PLAN[prop]
    thorough = a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_known()
    t0 = time.time()
    agg = dict(runs=0, events=0, choices=0, evals=0, steps=0, simtime_us=0, max_tape=0, faults={}, probes={})
    states = set(); runset = set(); hits = {}; viol = None; per = {}; flaky = []
    for sc in plan["scenarios"]:
        if a.only and sc["scen"] != a.only: continue
        try:
            exe = simbuild.build(sc["variant"])
        except simbuild.BuildError as e:
            print(str(e)[-3000:], file=sys.stderr); print("ERROR: build failed", file=sys.stderr); return 2
        count = int((sc["thorough"] if thorough else sc["quick"]) * a.scale)
        cap = (sc.get("cap_t", 3000) if thorough else sc.get("cap", 150))
        ts = time.time()
        tot, st, rs, viol, h, errors = scen_run(exe, sc["variant"], sc["scen"], (seed * 1000003) % (1 << 40) * 100003, count, cap, thorough, known, prop, sc.get("chunk", 400))
        if errors:
            for e in errors[:3]: print("ERROR: " + e, file=sys.stderr)
            return 2
        per[sc["scen"]] = dict(variant=sc["variant"], runs=tot["runs"], planned=count, states=len(st), wall_s=round(time.time() - ts, 2))
        for k in ("runs", "events", "choices", "evals", "steps", "simtime_us"): agg[k] += tot[k]
        agg["max_tape"] = max(agg["max_tape"], tot["max_tape"])
        for g in ("faults", "probes"):
            for k, v in tot[g].items(): agg[g][k] = agg[g].get(k, 0) + v
        states |= st; runset |= rs; flaky += tot["flaky"]
        for k, v in h.items(): hits[k] = hits.get(k, 0) + v
        if viol: break
    wall_explore = time.time() - t0
    path = None
    if viol:
        path = report_violation(prop, viol, simbuild.build(viol["variant"]), thorough, 30 if not thorough else 120)
        if path is None: return 2
    for k in known:
        if k["property"] == prop: print(f"KNOWN-FINDING: property={prop} {k['text']}")
    # a fixed sample, traced, and run in two processes: determinism of this very build
    samples = []; det = dict(checked=0, mismatches=0)
    if not viol:
        sc = plan["scenarios"][0]; exe = simbuild.build(sc["variant"])
        base = (seed * 1000003) % (1 << 40) * 100003
        def one(i):
            r = [run_sim(exe, ["--prop", sc["scen"], "--from", str(base + i), "--to", str(base + i + 1), "--stats", f"{SCRATCH}/d{i}_{k}.json"] + (["--verbose"] if k == 0 else []), f"{SCRATCH}/d{i}_{k}.tape") for k in (0, 1)]
            try: b = [json.load(open(f"{SCRATCH}/d{i}_{k}.json"))["batch"] for k in (0, 1)]
            except Exception: return None
            return b[0] == b[1], r[0][1]
        with cf.ThreadPoolExecutor(CORES) as ex:
            for i, r in enumerate(ex.map(one, range(16))):
                if r is None: continue
                det["checked"] += 1; det["mismatches"] += 0 if r[0] else 1
                if len(samples) < 3: samples.append(f"seed {base+i}: " + " ; ".join(r[1].splitlines()[:30])[:1200])
        if det["mismatches"]: print(f"WARNING: {det['mismatches']} sampled runs were not deterministic", file=sys.stderr)
    wall = time.time() - t0
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=plan["level"],
                  coverage=dict(evaluations=max(1, agg["runs"]), distinct_nontrivial=len(runset), rule=RULE, samples=samples or [f"violating seed {viol['seed']}" if viol else "none"],
                                oracle_evaluations=agg["evals"], runs_per_hour=int(agg["runs"] / max(wall_explore, 1e-3) * 3600), simulated_steps=agg["steps"],
                                simulated_time_s=round(agg["simtime_us"] / 1e6, 3), events=agg["events"], random_choices=agg["choices"], longest_choice_tape=agg["max_tape"],
                                faults_injected=agg["faults"], rare_conditions_reached=agg["probes"], distinct_states=len(states), state_measure=plan["measure"], scenarios=per,
                                determinism=det, real_components=plan["real"], stubbed_components=plan["stubs"], known_findings_hit=hits, not_reproduced=flaky),
                  assumptions=COMMON_ASSUMPTIONS + plan.get("assumptions", []), wall_s=round(wall, 2), violations=1 if viol else 0)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viol: return 1
    print(f"{prop}: held on {agg['runs']} simulated runs, {agg['evals']} oracle evaluations, {len(states)} distinct states, {wall:.1f} s")
    return 0
if __name__ == "__main__":
    sys.exit(main())
