"""check.py PROPERTY: decides one property on /repo's current tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken, the
replay file reproduces it. Anything else: the check itself failed.
"""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import base
import build
import gen
import run as R

MODULES = ["props_fs", "props_io", "props_mem", "props_conc"]


def load():
    out = {}
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, m + ".py")):
            continue
        mod = importlib.import_module(m)
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, base.Prop) and v.id:
                out[v.id] = v
    return out


def prepare(prop):
    R.EXES.update(build.build(prop.variants))
    for v, exe in R.EXES.items():
        unk = build.unknown_symbols(exe)
        if unk:
            print("note: calls outside the simulator: " + " ".join(unk),
                  file=sys.stderr)


def make_case(prop, seed, i, env):
    r = gen.Rng(gen.mix("case", prop.id, seed, i))
    c = prop.case(r, env)
    c["seed"], c["index"] = seed, i
    return json.loads(json.dumps(c))


def worker(pid, seed, first, stride, count, deadline):
    prop = load()[pid]()
    prepare(prop)
    env = base.Env()
    known = known_findings(pid)
    found, errors, hits = None, [], []
    t0 = time.time()
    for i in range(first, count, stride):
        if time.time() - t0 > deadline:
            break
        try:
            env.drawing = True
            c = make_case(prop, seed, i, env)
            env.drawing = False
            env.st.cases += 1
            if len(env.st.samples) < 1:
                env.st.samples.append(describe(c))
            v = prop.check(c, env)
        except Exception:
            # An error of the check, never a verdict. Others may still answer.
            env.drawing = False
            errors.append("case %d: %s" % (i, traceback.format_exc()[-1500:]))
            R.drop_zygotes()
            if len(errors) > 20:
                break
            continue
        if v is not None:
            k = [x["what"] for x in known if listed(x, v.cls, str(v))]
            if k:
                hits.append(k[0])
                continue
            found = {"index": i, "case": c, "cls": v.cls, "msg": str(v)}
            break
    R.drop_zygotes()
    json.dump({"stats": env.st.dump(), "found": found, "errors": errors,
               "known": sorted(set(hits)), "wall": time.time() - t0},
              sys.stdout)


def listed(kf, cls, msg):
    """Is this violation the one in the known findings file? Findings which
    come with their own case are demonstrated, they excuse nothing else."""
    return kf.get("match") and kf.get("class") == cls and kf["match"] in msg


def describe(c):
    """A case, short enough for the evidence file."""
    d = dict(c)
    d["targets"] = [dict(t, src=t.get("src", "")[:80], want=None)
                    for t in c.get("targets", ())]
    s = json.dumps(d)
    return json.loads(s) if len(s) < 6000 else s[:3000]


def judge_fresh(path):
    """Replay in a fresh process; returns (class, crc) or None."""
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"),
                        "--raw", path], stdout=subprocess.PIPE,
                       env=dict(os.environ, PYTHONHASHSEED="77"))
    try:
        return json.loads(p.stdout)
    except ValueError:
        return None


def evaluate(prop, case):
    """(class or None, message, crc, env) from a clean environment."""
    env = base.Env()
    v = prop.check(case, env)
    return (v.cls if v else None), (str(v) if v else ""), env.crc, env


# -- minimisation ---------------------------------------------------------------
def variants_of(c):
    """Smaller or simpler cases, most aggressive first."""
    def cp():
        return json.loads(json.dumps(c))
    ts = c.get("targets", [])
    if len(ts) > 1:
        for half in (ts[:len(ts) // 2], ts[len(ts) // 2:]):
            d = cp()
            d["targets"] = half
            yield d
        for i in range(len(ts)):
            d = cp()
            del d["targets"][i]
            yield d
            for j, f in enumerate(c.get("faults", ())):
                for n in range(1, f["n"]):
                    if n > 12:
                        break
                    d2 = json.loads(json.dumps(d))
                    d2["faults"][j]["n"] = n
                    yield d2
    for i in range(len(c.get("faults", ()))):
        d = cp()
        del d["faults"][i]
        yield d
    for i, f in enumerate(c.get("faults", ())):
        if f.get("on"):
            d = cp()
            del d["faults"][i]["on"]
            yield d
    for k in list(c.get("knobs", {})):
        if k == "rng":
            continue
        d = cp()
        del d["knobs"][k]
        yield d
    for k in ("alloc", "hardlinks", "sched_seed", "proc"):
        if c.get(k):
            d = cp()
            del d[k]
            yield d
    for k in list(c.get("files", {})):
        d = cp()
        del d["files"][k]
        yield d
    for i in range(len(c.get("others", ()))):
        d = cp()
        del d["others"][i]
        yield d
    if c.get("sched"):
        s = c["sched"]
        for n in (0, len(s) // 2, len(s) * 3 // 4, len(s) - 1):
            d = cp()
            d["sched"] = s[:n]
            yield d
        sw = [i for i in range(len(s)) if s[i]]
        for size in (len(sw) // 2, len(sw) // 4, len(sw) // 8, 1):
            if size < 1:
                continue
            for j in range(0, len(sw), size):
                d = cp()
                for i in sw[j:j + size]:
                    d["sched"][i] = 0
                yield d
    for key in ("inst", "stubs", "lives", "worlds"):
        for i in range(len(c.get(key, ()))):
            if len(c[key]) > 1 or key == "stubs":
                d = cp()
                del d[key][i]
                yield d
    for i, l in enumerate(c.get("lives", ())):
        for j in range(len(l["faults"])):
            d = cp()
            del d["lives"][i]["faults"][j]
            yield d
    if len(c.get("alloc", {}).get("oom", ())) > 1:
        for i in range(len(c["alloc"]["oom"])):
            d = cp()
            del d["alloc"]["oom"][i]
            yield d
    for i, t in enumerate(ts):
        for j in range(len(t.get("units", ()))):
            if len(t["units"]) > 1:
                d = cp()
                del d["targets"][i]["units"][j]
                yield d
                d = cp()
                d["targets"][i]["units"][j] = dict(
                    t["units"][j], s="int y%d;\n" % j, w="int y%d;\n" % j)
                if t["units"][j]["s"] != "int y%d;\n" % j:
                    yield d
            for k, x in (("add", []), ("del", 0), ("sepadd", 0), ("sep", 1)):
                if t["units"][j][k] != x:
                    d = cp()
                    d["targets"][i]["units"][j][k] = x
                    yield d
        for k in ("pre", "heading", "nonl"):
            if k in t:
                d = cp()
                del d["targets"][i][k]
                yield d
    # Shorter texts, where nothing is known about them in advance.
    for i, t in enumerate(ts):
        if t.get("want") is None and len(t.get("src", "")) > 1:
            L = t["src"].split("\n")
            for n in (len(L) // 2, len(L) // 4, 1):
                if n < 1:
                    continue
                for s in range(0, len(L), n):
                    if s > 40 * n:
                        break
                    d = cp()
                    d["targets"][i]["src"] = "\n".join(L[:s] + L[s + n:])
                    yield d
    for f in range(len(c.get("faults", ()))):
        for n in range(1, min(c["faults"][f]["n"], 20)):
            d = cp()
            d["faults"][f]["n"] = n
            yield d


def explicit(prop, case, cls):
    """Spell the schedule out, so that it can be shortened."""
    if "sched_seed" not in case:
        return case
    env = base.Env()
    env.keep = True
    prop.check(case, env)
    runs = [t for t in env.traces if t.choices]
    if not runs:
        return case
    d = json.loads(json.dumps(case))
    del d["sched_seed"]
    d["sched"] = runs[-1].choices
    return d if evaluate(prop, d)[0] == cls else case


def minimise(prop, case, cls, budget=400, seconds=90):
    t0 = time.time()
    used = 0
    progress = True
    while progress and used < budget and time.time() - t0 < seconds:
        progress = False
        for d in variants_of(case):
            if used >= budget or time.time() - t0 > seconds:
                break
            used += 1
            try:
                k, _, _, _ = evaluate(prop, d)
            except (KeyError, IndexError, ValueError, TypeError):
                continue        # no longer a well formed case
            if k == cls:
                case = d
                progress = True
                break
    return case, used


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == pid:
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == "--worker":
        return worker(pid, int(sys.argv[3]), int(sys.argv[4]),
                      int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7]))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    props = load()
    if pid not in props:
        print("no such property: " + pid, file=sys.stderr)
        return 2
    prop = props[pid]()
    t0 = time.time()
    try:
        prepare(prop)
    except build.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2
    n = prop.thorough if tier == "thorough" else prop.quick
    n = int(os.environ.get("VERIF_CASES") or n)
    w = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    w = max(1, min(w, n))
    deadline = 480 if tier == "quick" else 6 * 3600
    print("property=%s tier=%s seed=%d cases=%d workers=%d" %
          (pid, tier, seed, n, w), flush=True)
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), pid,
                            "--worker", str(seed), str(i), str(w), str(n),
                            str(deadline)], stdout=subprocess.PIPE)
          for i in range(w)]
    # Known findings which come with a case of their own: shown again.
    shown = []
    for kf in known_findings(pid):
        if kf.get("case") is not None:
            k, msg, _, _ = evaluate(prop, kf["case"])
            if k == kf["class"]:
                shown.append(kf["what"])
    outs, errors = [], []
    for p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            errors.append("worker ended with %d" % p.returncode)
            continue
        outs.append(json.loads(o))
        errors += outs[-1]["errors"]
        shown += outs[-1]["known"]
    for what in sorted(set(shown)):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    st = base.Stats()
    traces = set()
    for o in outs:
        s = o["stats"]
        for k in ("runs", "steps", "cases", "nontrivial", "preempt"):
            setattr(st, k, getattr(st, k) + s[k])
        for k, v in s["fired"].items():
            st.fired[k] += v
        for k, v in s["probes"].items():
            st.probes[k] += v
        traces |= set(s["traces"])
        st.samples += s["samples"]
    founds = sorted((o["found"] for o in outs if o["found"]),
                    key=lambda f: f["index"])
    wall = time.time() - t0
    rc = 0
    violations = 0
    for f in founds:
        rc, violations = report(prop, f, seed)
        if rc == 1:
            break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.level,
        "wall_s": round(time.time() - t0, 2), "violations": violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": len(traces),
            "rule": "One evaluation is one simulated execution of the real "
                    "knfmt code. Distinct: different hash over the full event "
                    "log (every call, argument, result, scheduling choice) "
                    "and the final state. Non-trivial: executions judged by "
                    "the oracle; reference runs and the fault free runs that "
                    "only serve to place faults are left out.",
            "samples": st.samples[:3],
            "cases": st.cases,
            "executions_with_fault_or_choice": st.nontrivial,
            "simulated_steps": st.steps,
            "simulated_time": "no clock is read by the code under test; time "
                              "is counted in steps (calls)",
            "runs_per_hour": int(st.runs / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(st.cases / max(wall, 1e-6) * 3600),
            "scheduling_choices": st.preempt,
            "faults_fired": dict(sorted(st.fired.items())),
            "probes": dict(sorted(st.probes.items())),
            "real_components": ["knfmt: all translation units of the Makefile, "
                                "compiled from the current tree, variants: " +
                                ", ".join(prop.variants)],
            "stubbed_components": ["kernel: file system, descriptors, pipes, "
                                   "processes, signals, durability",
                                   "allocator", "diff(1)", "clang-format(1)",
                                   "concurrent editors and readers"],
        },
        "assumptions": [
            "The simulated file system keeps a prefix of metadata operations "
            "at power loss, makes a file's data durable on fsync, and renames "
            "atomically.",
            "Signals terminate the process; no handlers run.",
            "Seeded search samples schedules and fault sequences; absence of "
            "a violation is evidence, not proof.",
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("cases=%d runs=%d distinct=%d faults=%d choices=%d wall=%.1fs" %
          (st.cases, st.runs, len(traces), sum(st.fired.values()), st.preempt,
           wall))
    if rc == 0 and errors:
        print("%d error(s) in the check itself, the first: %s" %
              (len(errors), errors[0]), file=sys.stderr)
        rc = 2
    return rc


def unstable(prop, f, seed):
    """A violation whose details change from run to run."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-case%d.json" % (prop.id, seed,
                                                      f["index"]))
    with open(path, "w") as fh:
        json.dump({"property": prop.id, "class": f["cls"],
                   "message": f["msg"], "crc": 0, "case": f["case"],
                   "event_logs": []}, fh, indent=1)
    print("seed=%d case=%d not minimised: knfmt behaves differently under "
          "identical conditions" % (seed, f["index"]))
    print("%s" % f["msg"])
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1, 1


def report(prop, f, seed):
    """Gate, minimise and print one violation."""
    case, cls = f["case"], f["cls"]
    a = evaluate(prop, case)
    b = evaluate(prop, case)
    if a[0] != cls or b[0] != cls or a[2] != b[2]:
        # Everything the simulator decides is the same. If the violation
        # keeps happening, the code under test has found something outside.
        again = [a, b] + [evaluate(prop, case) for _ in range(4)]
        if sum(x[0] is not None for x in again) < 3:
            print("violation does not reproduce: %s / %s / %s" %
                  (f["msg"], a[:3], b[:3]), file=sys.stderr)
            return 2, 0
        return unstable(prop, f, seed)
    small, used = minimise(prop, explicit(prop, case, cls), cls)
    k, msg, crc, _ = evaluate(prop, small)
    if k != cls:
        small = case
        k, msg, crc, _ = evaluate(prop, small)
    # Event log of the minimised run.
    env = base.Env()
    env.keep = True
    prop.check(small, env)
    log = [t.trace for t in env.traces][-3:]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-case%d.json" % (prop.id, seed,
                                                      f["index"]))
    with open(path, "w") as fh:
        json.dump({"property": prop.id, "class": cls, "message": msg,
                   "crc": crc, "case": small, "event_logs": log}, fh,
                  indent=1)
    got = judge_fresh(path)
    if not got or got["class"] != cls or got["crc"] != crc:
        if got and got["class"]:
            return unstable(prop, f, seed)
        print("violation does not replay in a fresh process: %s %s" %
              (msg, got), file=sys.stderr)
        return 2, 0
    print("seed=%d case=%d minimised with %d evaluations" %
          (seed, f["index"], used))
    print("%s" % msg)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1, 1


if __name__ == "__main__":
    sys.exit(main() or 0)
