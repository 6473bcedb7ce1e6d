#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

1. build the harness against /repo
2. explore the specification with TLC (the MC_* modules): its own invariants, and a dump of its behaviours
3. turn the dumped behaviours and seeded random scripts into runs of the real crate
4. check every recorded run against the specification with TLC (Trace.tla)
exit 0: held on everything explored; 1: VIOLATION lines; 2: the check itself could not be carried out."""
import json, os, re, resource, shutil, subprocess, sys, time, random, threading, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
HARNESS = os.path.join(TARGET, "debug", "swrs-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import mc, scripts as gens
from plan import plan

class Broken(Exception): pass
def say(*a): print(*a, flush=True)

def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode: raise Broken("the harness does not build against /repo:\n" + p.stdout[-4000:])

def java(module, cfg, work, env, workers, heap, timeout):
    """run TLC in a directory of its own; returns its output"""
    os.makedirs(work, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, workers // 2)}", f"-Xmx{heap}", "-Xss128m", "-Dfile.encoding=UTF-8", f"-Djava.io.tmpdir={work}", f"-DTLA-Library={SPEC}", "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(work, "states"), "-config", cfg, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, LC_ALL="C.UTF-8", **env)
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="replace", timeout=timeout)
        return p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return (o.decode("utf-8", "replace") if isinstance(o, bytes) else o) + "\nTIMEOUT"
    finally:
        shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)

COUNT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
def counts(out):
    m = None
    for m in COUNT.finditer(out): pass
    return (int(m[1].replace(",", "")), int(m[2].replace(",", ""))) if m else (0, 0)

def explore(x, work):
    """one exploration of the specification; returns the dumped behaviours and what was covered"""
    os.makedirs(work)
    base = open(os.path.join(SPEC, x["module"] + ".cfg")).read()
    consts = x.get("constants", {})
    for k, v in consts.items():
        base, n = re.subn(rf"(CONSTANTS?\b.*\b{k}\s*=\s*)\S+", rf"\g<1>{v}", base)
        if not n: raise Broken(f"no constant {k} in {x['module']}.cfg")
    cfg = os.path.join(work, x["module"] + ".cfg")
    open(cfg, "w").write(base)
    dump = os.path.join(work, "dump.ndjson")
    env = {"DUMP": dump}
    for name, rows in x.get("inputs", {}).items():
        p = os.path.join(work, name.lower() + ".ndjson")
        rows = rows() if callable(rows) else rows
        with open(p, "w") as f:
            for r in rows: f.write(json.dumps(r) + "\n")
        env[name] = p
    for name, text in x.get("lexed", {}).items():
        # texts are tokenised by the harness, so that the specification sees lines the way it sees recorded ones
        s, t = os.path.join(work, "lex.in"), os.path.join(work, "lex.out")
        with open(s, "w") as f: f.write(json.dumps({"id":"lex","ops":[{"op":"lex","sym":k,"text":v} for k, v in text]}) + "\n")
        p = subprocess.run([HARNESS, s, t, os.path.join(work, "lexdir")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        if p.returncode: raise Broken("tokeniser failed: " + p.stdout[-500:])
        out = os.path.join(work, name.lower() + ".ndjson")
        with open(out, "w") as f:
            for st in json.loads(open(t).readline())["steps"]: f.write(json.dumps({"kind":st["sym"],"line":st["lines"][0] if st["lines"] else None,"lines":st["lines"]}) + "\n")
        env[name] = out
    t0 = time.time()
    out = java(x["module"], cfg, work, env, CORES, x.get("heap", "8g"), x.get("timeout", 600))
    gen, dist = counts(out)
    if "Model checking completed. No error has been found" not in out:
        open(os.path.join(work, "tlc.out"), "w").write(out)
        raise Broken(f"{x['module']}: the specification does not satisfy its invariants, or TLC failed:\n" + "\n".join(l for l in out.split("\n") if "Semantic" not in l and "Linting" not in l and "Parsing" not in l)[-3000:])
    rows = []
    if os.path.exists(dump):
        with open(dump, encoding="utf-8") as f: 
            # a dumped value is a string holding JSON; equal states may print their fields in different orders
            seen = {json.dumps(json.loads(json.loads(l)), sort_keys=True) for l in set(f)}
        rows = [json.loads(l) for l in sorted(seen)]
    inv = re.findall(r"INVARIANTS?\s+(.*)", base)
    info = {"module":x["module"],"constants":consts or (re.findall(r"CONSTANTS?\s+(.*)", base) or [""])[0],"states":dist,"transitions":gen,"invariants":" ".join(inv).split(),"behaviours_dumped":len(rows),"wall_s":round(time.time() - t0, 1)}
    os.path.exists(dump) and os.remove(dump)
    return rows, info

# ---------------------------------------------------------------- running the crate
STALL = 60
def limit(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
def run_harness(path, n, traces, scratch):
    """run n scripts; returns {index: reason} for those the crate did not survive"""
    bad = {}
    done = 0
    open(traces, "w").close()
    while done < n:
        err = open(traces + ".err", "w+")
        p = subprocess.Popen([HARNESS, path, traces, scratch, str(done)], stdout=err, stderr=err, preexec_fn=limit)
        size, since, hung = -1, time.time(), False
        while p.poll() is None:
            time.sleep(0.05)
            s = os.path.getsize(traces)
            if s != size: size, since = s, time.time()
            elif time.time() - since > STALL: hung = True; p.kill(); p.wait()
        with open(traces, "rb") as f: data = f.read()
        # a last line cut short belongs to the script that did not finish
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
            with open(traces, "wb") as f: f.write(data)
        have = data.count(b"\n")
        err.seek(0); msg = err.read()[-300:].strip(); err.close()
        if p.returncode == 0 and have == n: break
        if p.returncode == 0: raise Broken("harness stopped early")
        if have >= n: break
        bad[have] = "hangs" if hung else (f"cannot be carried out ({msg})" if p.returncode == 3 else f"crashes (status {p.returncode}) {msg}".strip())
        with open(traces, "a") as f: f.write('{"id":"dead","crash":"1","steps":[]}\n')
        done = have + 1
        if len(bad) > 20: raise TooMany(bad)
    shutil.rmtree(scratch, ignore_errors=True)
    return bad
class TooMany(Exception): pass

MARK = re.compile(r'^"(REJECT|DONE)\|(\d+)\|(\d+)(?:\|(.*))?"$', re.M)
def judge(prop, lines, work, heap, timeout):
    """(rejected {i: (step, reason)}, unresolved [i], states, transitions) for the traces given as text lines"""
    os.makedirs(work, exist_ok=True)
    p = os.path.join(work, "t.ndjson")
    with open(p, "w", encoding="utf-8") as f: f.writelines(lines)
    out = java("Trace", os.path.join(SPEC, "Trace.cfg"), work, {"TRACES":p,"PROP":prop}, 1, heap, timeout)
    rej, ok = {}, set()
    for m in MARK.finditer(out):
        if m[1] == "DONE": ok.add(int(m[2]) - 1)
        else: rej[int(m[2]) - 1] = (int(m[3]), m[4])
    gen, dist = counts(out)
    rest = [i for i in range(len(lines)) if i not in ok and i not in rej]
    if rest: open(os.path.join(work, "tlc.out"), "w").write(out)
    return rej, rest, dist, gen

def validate(prop, lines, work, heap, timeout, budget):
    """as judge, but a trace TLC cannot evaluate is singled out by halving"""
    rej, rest, st, tr = judge(prop, lines, work, heap, timeout)
    if rest:
        if len(rest) == 1 and len(lines) == 1: return {0: (0, "the recorded run cannot be evaluated")}, st, tr
        # only the unresolved ones again, in halves
        if budget[0] <= 0: raise Broken("traces cannot be evaluated: " + work)
        budget[0] -= 1
        half = max(1, len(rest) // 2)
        for n, part in enumerate([rest[:half], rest[half:]]):
            if not part: continue
            r, s, t = validate(prop, [lines[i] for i in part], f"{work}-{n}", heap, timeout, budget)
            st += s; tr += t
            for i, v in r.items(): rej[part[i]] = v
    return rej, st, tr

def chunked(items, k):
    """k lists of about the same size in bytes"""
    out = [[0, []] for _ in range(k)]
    for i in sorted(range(len(items)), key=lambda i: -len(items[i])):
        b = min(out, key=lambda b: b[0]); b[0] += len(items[i]) + 200; b[1].append(i)
    return [sorted(b[1]) for b in out if b[1]]

def decide(prop, scripts, work, timeout):
    lines = [json.dumps(s) + "\n" for s in scripts]
    parts = chunked(lines, CORES * (1 if len(lines) < 4000 else 3))
    res, lock = {}, threading.Lock()
    tot = {"states":0,"transitions":0,"steps":0,"ops":{}}
    keep = {}
    def one(n):
        idx = parts[n]
        w = os.path.join(work, f"run{n}"); os.makedirs(w)
        sp, tp = os.path.join(w, "s.ndjson"), os.path.join(w, "traces.ndjson")
        with open(sp, "w") as f: f.writelines(lines[i] for i in idx)
        bad = run_harness(sp, len(idx), tp, os.path.join(w, "scratch"))
        with open(tp, encoding="utf-8") as f: tl = f.readlines()
        if len(tl) != len(idx): raise Broken("harness: traces missing")
        live = [k for k in range(len(idx)) if k not in bad]
        ops, steps = {}, 0
        for k in live:
            for o in scripts[idx[k]]["ops"]:
                n_ = o["op"] + (":" + o["edit"] if "edit" in o else ""); ops[n_] = ops.get(n_, 0) + 1
            steps += len(scripts[idx[k]]["ops"])
        rej, st, tr = validate(prop, [tl[k] for k in live], os.path.join(w, "tlc"), "3g", timeout, [24]) if live else ({}, 0, 0)
        with lock:
            for k, why in bad.items(): res[idx[k]] = (0, why); keep[idx[k]] = ""
            for i, v in rej.items(): res[idx[live[i]]] = v; keep[idx[live[i]]] = tl[live[i]]
            tot["states"] += st; tot["transitions"] += tr; tot["steps"] += steps
            for o, c in ops.items(): tot["ops"][o] = tot["ops"].get(o, 0) + c
        shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(CORES) as ex:
        for f in [ex.submit(one, n) for n in range(len(parts))]: f.result()
    return res, keep, tot

def shorten(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "…"

def main(prop, tier, seed):
    t0 = time.time()
    P = plan(prop, tier)
    work = os.path.join(ROOT, "work", f"{prop}-{tier}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    replay = os.path.join(ROOT, "work", "replay")
    os.makedirs(replay, exist_ok=True)
    try:
        build()
        rng = random.Random(f"{seed}/{prop}/{tier}")
        todo, infos = [], []
        for n, x in enumerate(P["explore"]):
            rows, info = explore(x, os.path.join(work, f"mc{n}"))
            info["exhaustive_replay"] = len(rows) <= x.get("sample", 10**9)
            if not info["exhaustive_replay"]: rows = rng.sample(rows, x["sample"])
            s = x["script"](rows, prop, seed)
            for k, q in enumerate(s): q["id"] = f"{x['module']}{n}/{k}"
            info["behaviours_replayed"] = len(rows)
            say(f"{info['module']}: {info['states']} states, {info['behaviours_dumped']} behaviours, {len(rows)} replayed ({info['wall_s']} s)")
            infos.append(info); todo += s
        nmc = len(todo)
        todo += gens.scripts(prop, P["random"], seed)
        kf = json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]
        kf = [f for f in kf if f["property"] == prop]
        first_kf = len(todo)
        todo += [{"id":"known/" + f["id"],"ops":f["ops"]} for f in kf]
        res, keep, tot = decide(prop, todo, work, P.get("timeout", 800))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    viol = 0
    for k, f in enumerate(kf):
        i = first_kf + k
        if i in res and list(res[i]) == [f["step"], f["reason"]]:
            say(f"KNOWN-FINDING: property={prop} {f['what']}")
            del res[i]
    for i in sorted(res):
        step, why = res[i]
        viol += 1
        if viol > 5: continue
        s = todo[i]
        path = os.path.join(replay, f"{prop}-{tier}-{seed}-{s['id'].replace('/', '_')}.json")
        tr = keep.get(i)
        json.dump({"property":prop,"reason":why,"step":step,"script":s,"trace":json.loads(tr) if tr else None}, open(path, "w"), ensure_ascii=False, indent=1)
        say(f"rejected: {s['id']} step {step} ({s['ops'][step - 1]['op'] if 0 < step <= len(s['ops']) else '-'}): {why}")
        say(f"VIOLATION property={prop} replay={path}")
    if viol > 5: say(f"... {viol} rejected runs in all")
    pick = [todo[i] for i in sorted(rng.sample(range(len(todo)), min(3, len(todo))))]
    ev = {"property":prop,"tier":tier,"seed":seed,"level":"model_checking",
          "coverage":{"states":sum(i["states"] for i in infos) + tot["states"],"transitions":sum(i["transitions"] for i in infos) + tot["transitions"],
                      "traces_validated_against_impl":len(todo) - sum(1 for i in res if i not in keep or not keep[i]),
                      "steps_validated":tot["steps"],"explorations":infos,"scripts":{"from_the_specification":nmc,"random":first_kf - nmc,"known_findings":len(kf)},
                      "operations":tot["ops"],"samples":[shorten(s) for s in pick]},
          "assumptions":P.get("assumptions", []),"wall_s":round(time.time() - t0, 1),"violations":viol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    say(f"{prop} {tier} seed {seed}: {len(todo)} runs, {tot['steps']} steps, {viol} rejected, {ev['wall_s']} s")
    return 1 if viol else 0

if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--setup":
        try: build(); say("harness built"); sys.exit(0)
        except Broken as e: say(e); sys.exit(1)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    try: sys.exit(main(prop, tier, seed))
    except (Broken, TooMany, subprocess.TimeoutExpired, OSError) as e:
        if isinstance(e, TooMany):
            say(f"the crate does not survive: {list(e.args[0].values())[:3]}")
            p = os.path.join(ROOT, "work", "replay", f"{prop}-crash.json"); json.dump({str(k): v for k, v in e.args[0].items()}, open(p, "w"))
            say(f"VIOLATION property={prop} replay={p}"); sys.exit(1)
        say(f"check could not be carried out: {e}"); sys.exit(2)
    except Exception as e:
        import traceback
        say(traceback.format_exc()); say(f"check could not be carried out: {e!r}"); sys.exit(2)
