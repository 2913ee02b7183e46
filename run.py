#!/usr/bin/env python3
"""Driver of the checks: builds the harness against /repo's working tree, runs the generated-case
workers of one property in parallel, replays known findings, shrinks crashing cases, writes the
evidence file and prints the verdict.

  run.py check ID [--tier quick|thorough]     exit 0 held / 1 VIOLATION / 2 could not decide
  run.py replay FILE                          replay one saved failing case
  run.py build
"""
import array, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("VP_TARGET_DIR", os.path.join(HARNESS, "target"))
WORK = os.path.join(TARGET, "vpwork")
KNOWN = os.path.join(VERIF, "known_findings.json")
BINS = json.load(open(os.path.join(HARNESS, "props_bins.json")))
NPROC = min(8, os.cpu_count() or 8)


def env(extra=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "1.86.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    e["CARGO_TARGET_DIR"] = TARGET
    if extra:
        e.update(extra)
    return e


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def build(pkg):
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "-p", pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die(f"the harness ({pkg}) does not build against /repo")
    return os.path.join(TARGET, "debug", pkg)


def list_targets(binp, pid):
    r = subprocess.run([binp, "list"], stdout=subprocess.PIPE, text=True, env=env())
    out = []
    for line in r.stdout.splitlines():
        t = json.loads(line)
        if t["id"] == pid:
            out.append(t)
    return out


def run_worker(binp, pid, t, shard, cases, seed, knownfile, cap, extra_env=None):
    """Runs one shard to its end, restarting after crashes. Returns a merged dict."""
    name = f"{pid}-{t['target']}-{shard}"
    out = os.path.join(WORK, name)
    res = {"evaluations": 0, "labels": {}, "known_hits": {}, "samples": [], "fails": [], "keys": set(), "error": None}
    start, crashes = 0, 0
    known = set(open(knownfile).read().splitlines())
    while start < cases:
        for sfx in ("", ".idx", ".pending", ".keys"):
            if os.path.exists(out + sfx):
                os.unlink(out + sfx)
        p = subprocess.run([binp, "worker", pid, t["target"], str(shard), str(cases), str(seed), out, str(start), knownfile],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra_env))
        if p.returncode == 0 and os.path.exists(out):
            d = json.load(open(out))
            res["evaluations"] += d["evaluations"]
            for k, v in d["labels"].items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            for k, v in d["known_hits"].items():
                res["known_hits"][k] = res["known_hits"].get(k, 0) + v
            res["samples"] += d["samples"]
            res["fails"] += [dict(f, shard=shard) for f in d["fails"]]
            a = array.array("Q")
            a.frombytes(open(out + ".keys", "rb").read())
            res["keys"].update(a)
            return res
        # crashed
        crashes += 1
        if os.path.exists(out + ".pending"):
            sig, msg, ch = open(out + ".pending").read().split("\n")[:3]
            res["fails"].append({"sig": sig, "msg": msg, "choices": [int(x) for x in ch.split()], "shard": shard, "shrink_runs": 0})
            return res
        if not os.path.exists(out + ".idx"):
            res["error"] = f"worker {name} did not start (exit {p.returncode}): {p.stderr[-800:].decode(errors='replace')}"
            return res
        idx = int.from_bytes(open(out + ".idx", "rb").read()[:8], "little")
        tr = out + ".trace"
        q = subprocess.run([binp, "trace", pid, t["target"], str(shard), str(idx), str(seed), tr], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra_env))
        if q.returncode == 0:
            # the case alone passes: earlier cases left something behind (corrupted memory, state)
            sig, msg = crash_sig(p)
            if sig == "hang":
                res["error"] = f"worker {name} did not terminate at case {idx}, but the case alone does"
                return res
            res["evaluations"] += idx - start + 1
            res["fails"].append({"sig": "sequence:" + sig, "msg": f"after cases {start}..{idx} of shard {shard} ran in one process\n" + msg, "choices": [], "shard": shard,
                                 "sequence": {"shard": shard, "start": start, "cases": idx + 1, "seed": seed}, "shrink_runs": 0})
            return res
        choices = [int(x) for x in open(tr).read().split()]
        sig, msg = crash_sig(q)
        res["evaluations"] += idx - start + 1
        if sig in known:
            res["known_hits"][sig] = res["known_hits"].get(sig, 0) + 1
            start = idx + 1
            if crashes > 200:
                return res
            continue
        res["fails"].append({"sig": sig, "msg": msg, "choices": choices, "shard": shard, "crash": True, "shrink_runs": 0})
        return res
    return res


def crash_sig(q):
    err = q.stderr.decode(errors="replace")
    if q.returncode == 97:
        return "hang", "the case did not terminate (CPU limit)\n" + err[-500:]
    if "AddressSanitizer" in err:
        kind = "asan"
        for l in err.splitlines():
            if "ERROR: AddressSanitizer" in l:
                kind = "asan:" + l.split("AddressSanitizer:")[1].strip().split(" ")[0]
                break
        return kind, err[-3000:]
    what = f"signal {-q.returncode}" if q.returncode < 0 else f"exit {q.returncode}"
    return "crash:" + what, f"the process ended with {what}\n" + err[-1500:]


def replay_sequence(binp, pid, target, q, extra_env=None):
    out = os.path.join(WORK, f"seq-{os.getpid()}-{pid}-{target}-{q['shard']}")
    p = subprocess.run([binp, "worker", pid, target, str(q["shard"]), str(q["cases"]), str(q["seed"]), out, str(q["start"]), "/dev/null"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra_env))
    if p.returncode == 0:
        return None
    sig, msg = crash_sig(p)
    return "sequence:" + sig, msg


def replay_choices(binp, pid, target, choices, extra_env=None, verbose=False):
    f = os.path.join(WORK, f"replay-{os.getpid()}-{hashlib.md5(str(choices).encode()).hexdigest()[:10]}")
    open(f, "w").write(" ".join(map(str, choices)))
    e = dict(extra_env or {})
    if verbose:
        e["VP_VERBOSE"] = "1"
    q = subprocess.run([binp, "replay", pid, target, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(e))
    os.unlink(f)
    out = q.stdout.decode(errors="replace")
    if verbose:
        print(out, q.stderr.decode(errors="replace"))
    if q.returncode == 0:
        lines = out.splitlines()
        for i, l in enumerate(lines):
            if l == "PASS":
                return None
            if l.startswith("FAIL "):
                return l[5:], "\n".join(lines[i + 1:])
        return ("error", out)
    return crash_sig(q)


def shrink_crash(binp, pid, target, choices, sig, extra_env=None, budget=60):
    """Chunk deletion and zeroing, each candidate in its own process."""
    best = list(choices)
    t0 = time.time()
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(best) and time.time() - t0 < budget:
            c = best[:i] + best[i + size:]
            r = replay_choices(binp, pid, target, c, extra_env)
            if r and r[0] == sig:
                best, changed = c, True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = max(1, size // 2) if size > 1 else (1 if changed else 0)
    for i in range(len(best)):
        if time.time() - t0 > budget:
            break
        if best[i]:
            c = list(best)
            c[i] = 0
            r = replay_choices(binp, pid, target, c, extra_env)
            if r and r[0] == sig:
                best = c
    return best


QUICK_SCALE = 4


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0xffffffffffff
    if pid not in BINS:
        die(f"unknown property {pid}")
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    pkg = BINS[pid]
    if pkg == "gen":
        import importlib
        sys.path.insert(0, HARNESS)
        m = importlib.import_module("s01")
        return m.check(sys.modules[__name__], pid, tier, seed, t0)
    violations, res = [], {}
    known_lines = []
    for one in pkg.split(","):
        binp = build(one)
        targets = list_targets(binp, pid)
        if not targets:
            die(f"no targets for {pid} in {one}")
        v, r = run_targets(binp, pid, targets, tier, seed)
        violations += v
        known_lines += r.pop("__known__")
        res.update(r)
    res["__known__"] = known_lines
    return finish(pid, tier, seed, t0, violations, res)


def run_targets(binp, pid, targets, tier, seed, extra_env=None, scale=1.0):
    known = load_known(pid)
    violations = []
    known_lines = []
    # listed findings: replay each, report those that still fail as listed
    names = {t["target"] for t in targets}
    for k in known:
        if "replay" in k and k["target"] in names:
            r = replay_choices(binp, pid, k["target"], k["replay"])
            if r and r[0] == k["sig"]:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                known_lines.append(k["what"])
    jobs = []
    for t in targets:
        total = t[tier]
        if tier == "quick":
            # the targets state what the first version ran: there is time for more
            total = max(1, int(total * scale * QUICK_SCALE))
        n = NPROC if total >= 64 else 1
        kf = os.path.join(WORK, f"known-{pid}-{t['target']}")
        open(kf, "w").write("\n".join(k["sig"] for k in known if k["target"] == t["target"]))
        for s in range(n):
            jobs.append((t, s, (total + n - 1) // n, kf))
    agg = {}
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [(t, ex.submit(run_worker, binp, pid, t, s, c, seed, kf, None, extra_env)) for (t, s, c, kf) in jobs]
        for t, f in futs:
            r = f.result()
            if r["error"]:
                die(r["error"])
            a = agg.setdefault(t["target"], {"evaluations": 0, "labels": {}, "known_hits": {}, "samples": [], "keys": set(), "fails": {}, "rule": t["rule"]})
            a["evaluations"] += r["evaluations"]
            a["keys"] |= r["keys"]
            a["samples"] += r["samples"]
            for kk in ("labels", "known_hits"):
                for k, v in r[kk].items():
                    a[kk][k] = a[kk].get(k, 0) + v
            for fl in r["fails"]:
                old = a["fails"].get(fl["sig"])
                if old is None or len(fl["choices"]) < len(old["choices"]):
                    a["fails"][fl["sig"]] = fl
    lost = []

    def twice(again):
        # memory written out of place does not end every run of the same case: two ends in six count
        n = 0
        for _ in range(6):
            n += again() is not None
            if n == 2:
                return True
        return False

    for tn, a in agg.items():
        kept = 0
        for sig, fl in a["fails"].items():
            if kept == 3:
                break
            if fl.get("sequence") and not twice(lambda: replay_sequence(binp, pid, tn, fl["sequence"], extra_env)):
                lost.append(f"{tn}: {sig} does not reproduce")
                continue
            if fl.get("crash"):
                if not twice(lambda: replay_choices(binp, pid, tn, fl["choices"], extra_env)):
                    lost.append(f"{tn}: crash {sig} does not reproduce")
                    continue
                if sig != "hang":
                    fl["choices"] = shrink_crash(binp, pid, tn, fl["choices"], sig, extra_env)
            kept += 1
            path = save_replay(pid, tn, fl)
            violations.append((tn, fl, path))
    for l in lost:
        print("NOT REPRODUCED: " + l)
    if lost and not violations:
        die("; ".join(lost))
    agg["__known__"] = known_lines
    return violations, agg


def save_replay(pid, tn, fl):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(fl["sig"].encode()).hexdigest()[:8]
    path = os.path.join(d, f"{pid}-{tn}-{h}.json")
    json.dump({"property": pid, "target": tn, "sig": fl["sig"], "msg": fl["msg"], "choices": fl["choices"], "sequence": fl.get("sequence")}, open(path, "w"), indent=1)
    return path


def finish(pid, tier, seed, t0, violations, agg, extra=None):
    known_lines = agg.pop("__known__", [])
    ev = sum(a["evaluations"] for a in agg.values())
    dn = sum(len(a["keys"]) for a in agg.values())
    samples = []
    for tn, a in agg.items():
        for s in a["samples"][:4]:
            samples.append(f"[{tn}] {s}")
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "rule": "; ".join(f"{tn}: {a['rule']}" for tn, a in agg.items()),
        "samples": samples[:24],
        "per_target": {tn: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["keys"]), "labels": dict(sorted(a["labels"].items())), "known_finding_hits": a["known_hits"]} for tn, a in agg.items()},
    }
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        "known_findings": known_lines,
        "assumptions": ["exploration only: holds for the generated cases, bounds as stated in DESIGN.md"],
    }
    json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    for tn, fl, path in violations:
        print(f"[{pid}/{tn}] {fl['sig']}")
        print("   " + fl["msg"][:2500].replace("\n", "\n   "))
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier} seed={seed}: {ev} cases, {dn} distinct non-trivial, {len(violations)} violations, {time.time()-t0:.1f}s")
    if violations:
        return 1
    # a generator that stopped producing its interesting cases decides nothing
    if dn < 2:
        die("no non-trivial cases were generated")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "build":
        os.makedirs(WORK, exist_ok=True)
        for pkg in sorted({p for b in BINS.values() for p in b.split(",")}):
            if pkg != "gen":
                build(pkg)
        return 0
    if a[0] == "replay":
        d = json.load(open(a[1]))
        os.makedirs(WORK, exist_ok=True)
        if BINS[d["property"]] == "gen":
            sys.path.insert(0, HARNESS)
            import s01
            return s01.replay(sys.modules[__name__], d)
        for one in BINS[d["property"]].split(","):
            binp = build(one)
            if any(t["target"] == d["target"] for t in list_targets(binp, d["property"])):
                break
        if d.get("sequence"):
            r = replay_sequence(binp, d["property"], d["target"], d["sequence"])
        else:
            r = replay_choices(binp, d["property"], d["target"], d["choices"], verbose=True)
        if r:
            print(f"VIOLATION property={d['property']} replay={a[1]}")
            return 1
        return 0
    if a[0] == "check":
        tier = "quick"
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    die(__doc__)


if __name__ == "__main__":
    sys.exit(main())
