#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--case CASE]   builds from /repo's working tree, explores, writes evidence."""
import fnmatch, json, os, shutil, signal, subprocess, sys, tempfile, time, struct
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from props import PROPS

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); case = None
    if "--tier" in a: tier = a[a.index("--tier")+1]
    if "--case" in a: case = a[a.index("--case")+1]
    P = PROPS[pid]; seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    try:
        runs, skipped = [], []
        for v, h in P["harness"]:
            try: runs.append((h if v == "base" else f"{h}-{v}", B.build(v, h, extra_src=P.get("extra_src", ()))))
            except RuntimeError as e:
                # code outside the repository's own build configuration is judged only while it compiles
                if v != "sparse" or not runs: raise
                skipped.append(f"{h} ({v})"); print(f"NOTE: {pid}: {h} is not explored in the {v} configuration, which does not compile")
    except RuntimeError as e:
        print(f"ERROR: {pid}: {e}"); return 2
    tb = time.time() - t0
    limit = 780 - tb if tier == "quick" else 6*3600
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return explore(pid, P, tier, seed, case, runs, scratch, limit, t0, tb, skipped)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def spawn(exe, tier, shard, n, scratch, tag, case):
    d = os.path.join(scratch, f"{tag}-{shard}"); os.makedirs(d, exist_ok=True)
    out = os.path.join(scratch, f"{tag}-{shard}.out")
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=0:detect_stack_use_after_return=1:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
               UBSAN_OPTIONS="halt_on_error=1")
    cmd = [exe, "--tier", tier, "--shard", f"{shard}/{n}", "--out", out, "--scratch", d]
    if case is not None: cmd += ["--case", case]
    err = open(out + ".err", "wb")
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, start_new_session=True), out

def read_cur(out):
    try:
        b = open(out + ".cur", "rb").read(4096); return b.split(b"\0")[0].decode("utf8", "replace")
    except OSError: return "?"

def explore(pid, P, tier, seed, case, runs, scratch, limit, t0, tb, skipped):
    n = 1 if case is not None else P.get("shards", 8)
    viol, summ, errors, states = [], [], [], set()
    deadline = time.time() + limit
    for tag, exe in runs:
        procs = [(i,) + spawn(exe, tier, i, n, scratch, tag, case) for i in range(n)]
        for i, p, out in procs:
            timed_out = False
            try: p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            done = False
            if os.path.exists(out):
                for line in open(out, errors="replace"):
                    try: r = json.loads(line)
                    except ValueError: continue
                    if r["type"] == "violation": viol.append((r["key"], r["case"], r["detail"], tag))
                    elif r["type"] == "summary": summ.append(r); done = True
            if timed_out:
                c = read_cur(out); q, o2 = spawn(exe, tier, 0, 1, scratch, tag + "-re", c)
                try:
                    q.wait(60); errors.append(f"shard {i} of {tag} ran out of time at case {c}")
                except subprocess.TimeoutExpired:
                    os.killpg(q.pid, signal.SIGKILL); q.wait()
                    viol.append(("hang", c, "the case does not terminate (also alone, with 60 s)", tag))
            elif p.returncode != 0 or not done:
                c = read_cur(out); e = open(out + ".err", errors="replace").read()
                if p.returncode in (3, -9): errors.append(f"shard {i} of {tag}: exit {p.returncode}: {e[-300:]}")
                else: viol.append(("crash", c, f"exit {p.returncode}: " + pick(e), tag))
            try:
                b = open(out + ".states", "rb").read(); states.update(struct.unpack(f"<{len(b)//8}Q", b))
            except OSError: pass
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    new, seen = [], set()
    for v in viol:
        k = next((i for i, f in enumerate(known) if f["property"] == pid and f["key"] == v[0] and
                  any(fnmatch.fnmatchcase(v[1], c) for c in f["cases"])), None)
        if k is None: new.append(v)
        else: seen.add(k)
    for i, f in enumerate(known):
        if f["property"] != pid: continue
        if i in seen or case is None:
            print(f"KNOWN-FINDING: property={pid} {f['what']}" + ("" if i in seen else " (not reached in this run)"))
    keys = {}
    for v in new: keys.setdefault(v[0], v)
    rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for j, (k, v) in enumerate(sorted(keys.items())[:6]):
        path = os.path.join(rd, f"{pid}-{j}.json")
        json.dump({"property": pid, "key": v[0], "case": v[1], "detail": v[2], "harness": v[3],
                   "replay": f"python3 /verif/run.py {pid} --tier {tier} --case '{v[1]}'"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  [{v[0]}] case {v[1]}: {v[2][:400]}")
    tot = lambda f: sum(s[f] for s in summ)
    counters, notes, samples = {}, {}, []
    for s in summ:
        for k, x in s["counters"].items(): counters[k] = counters.get(k, 0) + x
        notes.update(s["notes"]); samples += s["samples"]
    cov = {"samples": samples[:8], "exhaustive": not errors and not skipped, "cases": tot("cases"), "rule": P["rule"]}
    if skipped: cov["not_explored"] = "; ".join(skipped)
    if P["level"] == "model_checking":
        cov.update(states=len(states), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"))
    else:
        cov.update(evaluations=tot("traces"), distinct_nontrivial=len(states))
    cov.update({k: v for k, v in counters.items()}); cov.update(notes)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if case is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: cases={tot('cases')} states={len(states)} transitions={tot('transitions')} executions={tot('traces')} "
          f"violations={len(new)} build={tb:.1f}s wall={ev['wall_s']}s")
    if case is not None:
        for v in viol: print(json.dumps(v))
    if new: return 1
    if errors:
        for e in errors: print("ERROR:", e)
        return 2
    return 0

def pick(e):
    i = e.find("ERROR: AddressSanitizer")
    if i >= 0: return e[i:i+900]
    i = e.find("Assertion")
    return e[i:i+300] if i >= 0 else e[-300:]

if __name__ == "__main__":
    sys.exit(main())
