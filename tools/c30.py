#!/usr/bin/env python3
"""C30: runs the enumerated cases of ub/ in Miri, in many processes, and reports the first that has
undefined behaviour, with the case it was met in."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
crate = os.environ.get("UB_CRATE", f"{root}/ub")
out_root = os.environ.get("UB_OUT", root)
t0 = time.time()
for d in (".build", "evidence", "replays"):
    os.makedirs(f"{out_root}/{d}", exist_ok=True)
FLAGS = "-Zmiri-tree-borrows -Zmiri-permissive-provenance"
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.environ.get("UB_TARGET", f"{root}/.build/ub"), RUST_BACKTRACE="0")
env.pop("RUSTFLAGS", None)
JOBS = 8
SEEDS = {"quick": 1, "thorough": 4}[tier]
LIMIT = {"quick": 600, "thorough": 840}[tier]


def miri(args, flags=""):
    r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--release", "--", *map(str, args)], cwd=crate,
                       env=dict(env, MIRIFLAGS=f"{FLAGS} {flags}"), capture_output=True, text=True, timeout=LIMIT)
    return r.returncode, r.stdout, r.stderr


def flags(threads, seed):
    return f"-Zmiri-ignore-leaks -Zmiri-num-cpus={2 + seed % 2} -Zmiri-seed={seed}" if threads else ""


def what(err):
    """The error without the compiler's warnings."""
    i = err.find("error:")
    return err[i:i + 1800] if i >= 0 else err[-1800:]


rc, out, err = miri(["list", tier])
if rc:
    print(err[-3000:])
    print("ERROR: the harness does not build against /repo")
    sys.exit(2)
groups = [l.split("\t")[1:] for l in out.splitlines() if l.startswith("G\t")]
groups = [(int(i), name, int(total), int(batch), threads == "true") for i, name, total, batch, threads in groups]
print(f"built in {time.time() - t0:.1f} s")

if replay:
    g, a, b, seed = map(int, replay.split(","))
    rc, out, err = miri(["run", tier, g, a, b, "v"], flags(groups[g][4], seed))
    print(out)
    print(what(err) if rc else "held")
    sys.exit(1 if rc else 0)

tasks = [(g, a, min(a + g[3], g[2]), seed) for g in groups for seed in range(SEEDS if g[4] else 1) for a in range(0, g[2], g[3])]
only = os.environ.get("UB_ONLY")
if only:
    tasks = [t for t in tasks if t[0][1] == only]
bad, results, cpu = [], [], {}


def work(t):
    if bad:
        return
    g, a, b, seed = t
    s = time.time()
    try:
        rc, out, err = miri(["run", tier, g[0], a, b], flags(g[4], seed))
    except subprocess.TimeoutExpired:
        rc, out, err = -99, "", "error: does not end in time"
    if os.environ.get('UB_TIMES'):
        print(f'{time.time() - s:7.1f}', g[1], a, flush=True)
    cpu[g[1]] = cpu.get(g[1], 0) + time.time() - s
    m = re.search(r"^T\t(\d+)\t(\d+)\t", out, re.M)
    if rc or not m:
        bad.append((t, rc, err))
    else:
        results.append((g[1], b - a, int(m[1]), int(m[2])))


with cf.ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(work, tasks))

viol = None
if bad:
    (g, a, b, seed), rc, err = min(bad, key=lambda x: x[0])
    case = ""
    if b - a > 1:
        try:
            rc2, out, err2 = miri(["run", tier, g[0], a, b, "v"], flags(g[4], seed))
            cases = [l for l in out.splitlines() if l.startswith("CASE")]
            if rc2 and cases:
                case, err = cases[-1], err2
                a = int(case.split()[1])
                b = a + 1
        except subprocess.TimeoutExpired:
            pass
    viol = {"group": g[1], "case": case, "failure": what(err), "replay": f"/verif/check.sh C30 {tier} --replay {g[0]},{a},{b},{seed}"}
sections = {}
for n, k, _, _ in results:
    sections[n] = sections.get(n, 0) + k
wall = time.time() - t0
ev = {"property": "C30", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
      "coverage": {"evaluations": sum(r[1] for r in results), "distinct_nontrivial": sum(r[3] for r in results),
                   "callbacks answered": sum(r[2] for r in results), "cases_by_section": sections,
                   "rule": "Each case is one operation on one input with one way of answering its callbacks, interpreted step by step; every step is judged. Counted as distinct: different (arrangement, results, number of callbacks) within a process.",
                   "exhaustive": not bad, "samples": [f"{g[1]}: cases {a}..{b}, schedule seed {seed}" for g, a, b, seed in tasks[::max(1, len(tasks) // 8)]]},
      "assumptions": ["exhaustive within the enumerated families only", "aliasing judged by Tree Borrows, the more permissive of Miri's models; the branches for cfg(miri) stand for those without",
                      "data races are judged by happens-before on the executions of the listed seeds of Miri's scheduler with two or three workers; other schedules are C10's, C21's and C24's",
                      "without the stacker feature"],
      "wall_s": round(wall, 2), "violations": 1 if viol else 0}
with open(f"{out_root}/evidence/C30.json", "w") as f:
    json.dump(ev, f, indent=1)
print(f"C30: {ev['coverage']['evaluations']} cases in {len(tasks)} processes, {wall:.1f} s")
for n, s in cpu.items():
    print(f"  {n}: {s:.1f} s")
if viol:
    path = f"{out_root}/replays/C30.json"
    with open(path, "w") as f:
        json.dump({"property": "C30", "tier": tier, **viol}, f, indent=1)
    print(viol["group"], viol["case"])
    print(viol["failure"])
    print(f"VIOLATION property=C30 replay={path}")
    sys.exit(1)
sys.exit(0)
