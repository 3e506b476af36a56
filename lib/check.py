#!/usr/bin/env python3
"""check.py <ID>: decides one property.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken."""
import os, sys, json, time, struct, shutil, subprocess, signal, tempfile, threading, array, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import CHECKS, harnesses

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
BUDGET = {"quick": 75, "thorough": 1500}[TIER]
CONFIRM_S = 60
HANG_S = 60

class Job:
    def __init__(self, exe, pid, prop, k, shards, scratch):
        self.exe, self.pid, self.prop, self.k, self.shards = exe, pid, prop, k, shards
        self.dir = f"{scratch}/{prop}.{k}"
        os.makedirs(self.dir)
        self.out, self.cur, self.log = f"{self.dir}/out.json", f"{self.dir}/cur.bin", f"{self.dir}/log"

PROCS = set()
STOP = threading.Event()

def spawn(cmd, cwd, log):
    with open(log, "ab") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, start_new_session=True)
    PROCS.add(p)
    return p

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    PROCS.discard(p)

def read_cur(path):
    with open(path, "rb") as f:
        head = f.read(24)
        if len(head) < 24:
            return 0, 0, []
        idx, n, started = struct.unpack("<QQQ", head)
        n = min(n, 1 << 20)
        return idx, started, list(array.array("Q", f.read(8 * n)))

def trim_log(path, cap=64 << 20):
    try:
        if os.path.getsize(path) > cap:
            os.truncate(path, 0)
    except OSError:
        pass

def run_job(j, budget):
    """-> dict(kind=ok|fail|crash|hang|error, ...)"""
    cmd = [j.exe, "--prop", j.prop, "--seed", str(SEED), "--tier", TIER, "--from", str(j.k), "--step", str(j.shards),
           "--budget", str(budget), "--out", j.out, "--cur", j.cur]
    p = spawn(cmd, j.dir, j.log)
    last, t_last = None, time.time()
    while True:
        try:
            rc = p.wait(timeout=0.25)
            PROCS.discard(p)
            break
        except subprocess.TimeoutExpired:
            pass
        if STOP.is_set():
            kill(p)
            return {"kind": "stopped"}
        trim_log(j.log)
        try:
            cur = read_cur(j.cur)[:2] if os.path.exists(j.cur) else None
            if os.path.exists(j.out + ".replay0"):
                cur = "shrinking"
        except OSError:
            cur = None
        if cur != last:
            last, t_last = cur, time.time()
        elif time.time() - t_last > HANG_S:
            kill(p)
            if last == "shrinking":
                shutil.copy(j.out + ".replay0", j.out + ".replay")
                rc = 1
                break
            return {"kind": "hang", "choices": read_cur(j.cur)[2]}
    if rc in (0, 1) and (rc == 1 or os.path.exists(j.out)):
        if rc == 1:
            rp = j.out + ".replay"
            if not os.path.exists(rp):
                rp = j.out + ".replay0"
            if not os.path.exists(rp):
                return {"kind": "error", "why": f"exit 1 without a replay file: {tail(j.log)}"}
            return {"kind": "fail", "replay": rp, "replay0": j.out + ".replay0"}
        with open(j.out) as f:
            return {"kind": "ok", "data": json.load(f)}
    if os.path.exists(j.out + ".replay0"):   # died while shrinking
        return {"kind": "fail", "replay": j.out + ".replay0", "replay0": j.out + ".replay0"}
    if rc == 3:
        return {"kind": "error", "why": f"harness usage error: {tail(j.log)}"}
    return {"kind": "crash", "rc": rc, "choices": read_cur(j.cur)[2]}

def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""

def write_replay(path, pid, prop, choices, msg):
    with open(path, "w") as f:
        f.write(f"prop {pid} {prop}\nchoices {' '.join(map(str, choices))}\n# failure: {msg}\n")

def replay_once(exe, path, scratch, limit=45):
    d = tempfile.mkdtemp(dir=scratch)
    log = f"{d}/log"
    p = spawn([exe, "--replay", path, "--tier", TIER], d, log)
    try:
        rc = p.wait(timeout=limit)
        PROCS.discard(p)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", "no progress within %d s" % limit
    t = tail(log, 6000)
    if rc == 0:
        return "ok", ""
    if rc == 1:
        m = re.search(r"REPLAY-FAIL (.*)", t)
        return "fail", (m.group(1) if m else "")[:600]
    if rc == 3:
        return "error", t
    return "crash", f"process ended with {rc}: {t[-500:]}"

def shrink_external(exe, pid, prop, choices, kind, scratch, budget=25):
    t0, best = time.time(), list(choices)
    path = f"{scratch}/shrink.replay"
    def bad(c):
        write_replay(path, pid, prop, c, kind)
        return replay_once(exe, path, scratch, limit=10)[0] == kind
    if kind == "hang" or len(best) > 20000:
        return best
    n = max(1, len(best) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = 0
        while i + n <= len(best) and time.time() - t0 < budget:
            c = best[:i] + best[i + n:]
            if bad(c):
                best = c
            else:
                i += n
        n //= 2
    return best

def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    t0 = time.time()
    try:
        exes = build.build(harnesses(spec), spec.get("variant", "plain"), spec.get("scope", "all"))
    except build.BuildError as e:
        print(f"ERROR: the code does not build: {e}")
        return 2
    t_build = time.time() - t0
    props = []
    for h in harnesses(spec):
        for line in subprocess.run([exes[h], "--list", pid], capture_output=True, text=True).stdout.splitlines():
            a = line.split("\t")
            if len(a) < 6 or a[0] != pid:
                continue
            props.append({"name": a[1], "exe": exes[h], "cases": int(a[3] if TIER == "thorough" else a[2]), "shards": int(a[4]), "rule": a[5]})
    if not props:
        print(f"ERROR: harness {spec['harness']} has no property for {pid}")
        return 2
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    replays = f"{VERIF}/_b/replays"
    os.makedirs(replays, exist_ok=True)
    stats = {p["name"]: {"cases": 0, "discarded": 0, "hashes": set(), "labels": {}, "samples": [], "truncated": False, "wall_s": 0.} for p in props}
    violation, errors, unconfirmed = None, [], []
    try:
        jobs = []
        for p in props:
            n = min(p["shards"], max(1, p["cases"]))
            for k in range(n):
                jobs.append(Job(p["exe"], pid, p["name"], k, n, scratch))
        budget = spec.get("budget", {}).get(TIER, BUDGET)
        lock = threading.Lock()
        def work(j):
            nonlocal violation
            if STOP.is_set():
                return
            r = run_job(j, budget)
            if r["kind"] == "ok":
                s, d = stats[j.prop], r["data"]
                with lock:
                    s["cases"] += d["cases"]; s["discarded"] += d["discarded"]
                    s["truncated"] = s["truncated"] or d["truncated"]
                    s["wall_s"] = round(s["wall_s"] + d["wall_s"], 2)
                    for l, c in d["labels"].items():
                        s["labels"][l] = s["labels"].get(l, 0) + c
                    s["samples"] += d["samples"]
                    try:
                        with open(j.out + ".hash", "rb") as f:
                            s["hashes"].update(array.array("Q", f.read()))
                    except OSError:
                        pass
                return
            if r["kind"] == "stopped":
                return
            if r["kind"] == "error":
                errors.append(r["why"])
                return
            # a failing case: confirm it by replaying it in fresh processes
            path = f"{replays}/{pid}-{j.prop}-{TIER}-{SEED}-{j.k}.replay"
            if r["kind"] in ("crash", "hang"):
                write_replay(path, pid, j.prop, r["choices"], r["kind"])
            else:
                shutil.copy(r["replay"], path)
            seen = []
            tries = 3 if r["kind"] == "hang" else 200   # failures that depend on the schedule need many
            t_conf = time.time()
            for n in range(tries):
                if STOP.is_set():
                    return
                if n >= 10 and time.time() - t_conf > CONFIRM_S:
                    break
                seen.append(replay_once(j.exe, path, scratch))
                if n >= 2 and any(x[0] in ("fail", "crash", "hang") for x in seen):
                    break
            bad = [x for x in seen if x[0] in ("fail", "crash", "hang")]
            if r["kind"] == "hang" and (len(bad) < 3):
                bad = []    # slow once is not a violation
            if not bad and r["kind"] == "fail" and r["replay"] != r["replay0"]:
                shutil.copy(r["replay0"], path)
                for _ in range(5):
                    x = replay_once(j.exe, path, scratch)
                    if x[0] in ("fail", "crash"):
                        bad.append(x)
                        break
            if not bad:
                msg = ""
                if r["kind"] == "fail":
                    with open(path) as f:
                        msg = f.read()[-1500:]
                with lock:
                    unconfirmed.append({"prop": j.prop, "kind": r["kind"], "replay": path, "text": msg, "log": tail(j.log, 600)})
                return
            with lock:
                if violation is None:
                    violation = (path, j.prop, bad[0])
                    STOP.set()
            if r["kind"] == "crash":
                c = shrink_external(j.exe, pid, j.prop, r["choices"], "crash", scratch)
                write_replay(path, pid, j.prop, c, bad[0][1].replace("\n", " "))
        jobs.sort(key=lambda j: j.k)
        with ThreadPoolExecutor(spec.get("parallel", 8)) as ex:
            list(ex.map(work, jobs))
    finally:
        for p in list(PROCS):
            kill(p)
        shutil.rmtree(scratch, ignore_errors=True)
    known = []
    kf = f"{VERIF}/known_findings.jsonl"
    if os.path.exists(kf):
        with open(kf) as f:
            for line in f:
                if line.strip():
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "open":
                        known.append(e)
    allh = set()
    for name, s in stats.items():
        allh |= s["hashes"]
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(s["cases"] for s in stats.values()),
            "distinct_nontrivial": len(allh),
            "rule": " | ".join(f"{p['name']}: {p['rule']}" for p in props),
            "samples": [f"{n}: {x}" for n, s in stats.items() for x in s["samples"][:2]] or ["none"],
            "per_generator": {n: {"cases": s["cases"], "discarded": s["discarded"], "distinct_nontrivial": len(s["hashes"]),
                                  "stopped_at_time_cap": s["truncated"], "cpu_s": s["wall_s"], "classes": dict(sorted(s["labels"].items()))}
                              for n, s in stats.items()},
            "unconfirmed_failures": unconfirmed,
            "known_findings_excluded": [e["what"] for e in known],
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for e in known:
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    if violation:
        path, prop, (kind, msg) = violation
        print(f"{pid}/{prop}: {kind}: {msg}")
        try:
            with open(path) as f:
                print(f.read()[-2500:])
        except OSError:
            pass
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for u in unconfirmed:
        print(f"note: {u['prop']} {u['kind']} did not reproduce: {u['text'][-800:]} {u['log'][-300:]}")
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 2
    c = ev["coverage"]
    print(f"{pid}: held on {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s (build {c['build_s']} s)")
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
