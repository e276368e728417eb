#!/usr/bin/env python3
"""Driver: builds the explorers from /repo's working tree, runs them, writes the evidence.

  check.py <property> [--tier quick|thorough]   decide one property
  check.py all [--tier ...]                     every property
  check.py replay <file>                        re-run a recorded history
  check.py setup                                build what the quick checks need
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NESTL_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
MC = os.path.join(HERE, "mc")
sys.path.insert(0, HERE)
import jobs as J

UBSAN = "-fsanitize=bool,enum,bounds,return,unreachable,shift,signed-integer-overflow,integer-divide-by-zero"
FLAGS = ["-O1", "-g1", "-fsanitize=address", "-Wno-deprecated-declarations"]


def log(*a):
    print(*a, flush=True)


def digest_tree():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "nestl"), MC):
        for d, sub, files in sorted(os.walk(root)):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if root == MC and not f.endswith(".hpp"):
                    continue
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compiler(cxx, std):
    flags = ["-std=" + std] + FLAGS
    if cxx == "clang++":
        flags += [UBSAN, "-fno-sanitize-recover=undefined"]
    return [cxx] + flags


def binary(job, tree):
    src = os.path.join(MC, job.world + ".cpp")
    flags = compiler(*J.toolchain(job.defs)) + (["-fno-exceptions"] if job.mode == "nx" else []) + sorted("-D" + d for d in job.defs)
    h = hashlib.sha256((tree + " ".join(flags)).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    return os.path.join(BUILD, job.world + "." + h.hexdigest()[:20]), src, flags


def compile_one(arg):
    out, src, flags = arg
    if os.path.exists(out):
        return None
    tmp = "%s.%d" % (out, os.getpid())
    cmd = flags + ["-I" + REPO, "-I" + MC, src, "-o", tmp]
    for attempt in (1, 2):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            return ("infra", " ".join(cmd), "compiler timed out")
        if r.returncode == 0:
            os.rename(tmp, out)
            return None
        text = r.stdout.decode(errors="replace")
        if "Killed" not in text and "internal compiler error" not in text and "No space left" not in text:
            break
    if os.path.exists(tmp):
        os.unlink(tmp)
    kind = "error" if re.search(r"error: |undefined reference", text) else "infra"
    return (kind, " ".join(cmd), text[-12000:] if kind == "infra" else text[:12000])


def toolchain_ok():
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, "sanity.%d" % os.getpid())
    with open(p + ".cpp", "w") as f:
        f.write("#include <vector>\n#include <map>\n#include <exception>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
    try:
        ok = True
        for cxx in ("g++", "clang++"):
            r = subprocess.run(compiler(cxx, "gnu++14") + [p + ".cpp", "-o", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            ok = ok and r.returncode == 0 and subprocess.run([p], timeout=60).returncode == 0
    except Exception:
        ok = False
    for x in (p, p + ".cpp"):
        if os.path.exists(x):
            os.unlink(x)
    return ok


class Infra(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, data):
        self.text, self.data = text, data


def build(joblist):
    os.makedirs(BUILD, exist_ok=True)
    tree = digest_tree()
    todo, bins = {}, {}
    for j in joblist:
        out, src, flags = binary(j, tree)
        bins[j.key()] = out
        todo[out] = (out, src, flags)
    need = [a for o, a in todo.items() if not os.path.exists(o)]
    # leftovers of other trees are not needed any more
    fresh = set(todo)
    if need:
        olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        total = 0
        for p in reversed(olds):
            try:
                total += os.path.getsize(p)
                if total > 1500e6 and p not in fresh:
                    os.unlink(p)
            except OSError:
                pass
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for res in ex.map(compile_one, need):
            if not res:
                continue
            kind, cmd, text = res
            if kind == "infra" or not toolchain_ok():
                raise Infra("cannot compile: %s\n%s" % (cmd, text[-3000:]))
            raise Violation("the library cannot be used as the property requires: the explorer no longer compiles",
                            {"kind": "compile", "cmd": cmd, "log": text})
    return bins


def argv_of(j, extra=()):
    a = []
    if j.cats is not None:
        a += ["--cats", ",".join(j.cats)]
    if j.fcats:
        a += ["--fcats", ",".join(j.fcats)]
    if j.tags is not None:
        a += ["--tags", str(j.tags)]
    if j.vtags is not None:
        a += ["--vtags", str(j.vtags)]
    if j.nofaults:
        a += ["--nofaults"]
    if j.depth:
        a += ["--depth", str(j.depth)]
    if j.max_states:
        a += ["--max-states", str(j.max_states)]
    if j.time:
        a += ["--time", str(j.time)]
    for k, v in sorted(j.params.items()):
        a += ["--set", "%s=%d" % (k, v)]
    return a + list(extra)


def run_job(j, exe, scratch, extra=()):
    out = os.path.join(scratch, "out.json")
    for attempt in (1, 2):
        cmd = [exe] + argv_of(j, extra) + ["--workers", str((os.cpu_count() or 4) if attempt == 1 else 2), "--out", out]
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode in (0, 1) and os.path.exists(out):
            with open(out) as f:
                return json.load(f)
    raise Infra("%s ended with %d: %s" % (" ".join(cmd), r.returncode, r.stderr.decode(errors="replace")[-2000:]))


def hist_text(h):
    return [x[2] + (" [failure at fault point %d%s]" % (x[1] & 0xFFFF, " and at %d" % (x[1] >> 16) if x[1] >> 16 else "") if x[1] else "") for x in h]


def diff_job(j, bins, scratch):
    """The same search in both modes: the two transcripts must be identical."""
    ts, outs = {}, {}
    for m in ("ex", "nx"):
        ts[m] = os.path.join(scratch, "t." + m)
        outs[m] = run_job(j, bins[j.in_mode(m).key()], scratch, ["--transcript", ts[m]])
        v = outs[m]["violation"]
        if v:
            raise Violation("%s: %s" % (v["cat"], v["msg"]), {"kind": "history", "job": j.in_mode(m).dump(), "violation": v})
    recs = 0
    with open(ts["ex"], "rb") as a, open(ts["nx"], "rb") as b:
        while True:
            x, y = a.read(24 * 4096), b.read(24 * 4096)
            if x != y:
                i = 0
                while i + 24 <= min(len(x), len(y)) and x[i:i + 24] == y[i:i + 24]:
                    i += 24
                pick = {}
                for m, buf in (("ex", x), ("nx", y)):
                    if i + 24 <= len(buf):
                        st, op, fault, _, obs = struct.unpack("<IIIIQ", buf[i:i + 24])
                        pick[m] = (st, op, fault, obs)
                m0 = min(pick, key=lambda m: pick[m][:3])
                with open(ts[m0] + ".nodes", "rb") as f:
                    nodes = f.read()
                st, op, fault, obs = pick[m0]
                h = [[op, fault, ""]]
                while st:
                    par, o, ft = struct.unpack("<III", nodes[12 * st:12 * st + 12])
                    h.insert(0, [o, ft, ""])
                    st = par
                logs = {}
                rp = os.path.join(scratch, "h.txt")
                with open(rp, "w") as f:
                    f.writelines("%d %d\n" % (o, ft) for o, ft, _ in h)
                for m in ("ex", "nx"):
                    r = subprocess.run([bins[j.in_mode(m).key()]] + argv_of(j) + ["--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    logs[m] = r.stdout.decode(errors="replace")[-3000:]
                raise Violation("the two exception modes behave differently in %s" % j.label(),
                                {"kind": "modediff", "job": j.dump(), "history": h, "observed": pick, "logs": logs})
            if not x:
                break
            recs += len(x) // 24
    for m in ("ex", "nx"):
        os.unlink(ts[m])
        os.unlink(ts[m] + ".nodes")
    return outs, recs


def known(prop, text):
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return None
    for line in open(p):
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
        if m and m.group(1) == prop and re.search(m.group(2), text):
            return m.group(3)
    return None


def check(prop, tier):
    t0 = time.time()
    joblist = J.jobs(prop, tier)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking"}
    tot = dict(states=0, transitions=0, traces=0, faults=0, cases=0)
    per, samples, ops, exhaustive, pruned = [], [], {}, True, 0
    viol, rc = None, 0
    scratch = os.path.join(BUILD, "run.%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        need = []
        for j in joblist:
            need += [j.in_mode("ex"), j.in_mode("nx")] if j.diff else [j]
        bins = build(need)
        for j in joblist:
            t1 = time.time()
            if j.diff:
                outs, recs = diff_job(j, bins, scratch)
                rs = [outs["ex"], outs["nx"]]
            else:
                rs = [run_job(j, bins[j.key()], scratch)]
                recs = 0
            for r in rs:
                case_world = r["states"] == 1
                st = r["transitions"] - r["fault_runs"] if case_world else r["states"]
                tot["states"] += st
                tot["cases"] += st if case_world else 0
                tot["transitions"] += r["transitions"]
                tot["traces"] += r["runs"]
                tot["faults"] += r["fault_runs"]
                pruned += r["pruned"]
                exhaustive = exhaustive and r["closed"] and not r["truncated"]
                for k, (n, f) in r["ops"].items():
                    o = ops.setdefault(k, [0, 0])
                    o[0] += n
                    o[1] += f
                e = {"job": j.label(), "states": st, "transitions": r["transitions"], "failed_environment_calls": r["fault_runs"], "depth": r["depth"],
                     "closed": r["closed"], "wall_s": r["wall_s"]}
                if case_world:
                    e["independent_cases"] = True
                if r["pruned"]:
                    e["other_properties_broken"] = {"transitions": r["pruned"], "first": r["pruned_first"]}
                if j.diff:
                    e["compared_records"] = recs
                per.append(e)
                if len(samples) < 6:
                    for h in r["samples"][:1]:
                        samples.append({"job": j.label(), "history": hist_text(h)[:60]})
                v = r["violation"]
                if v:
                    raise Violation("%s: %s" % (v["cat"], v["msg"]), {"kind": "history", "job": j.dump(), "violation": v})
            log("  %-74s states %8d transitions %9d%s %6.1fs" % (j.label()[:74], sum(p["states"] for p in per[-len(rs):]),
                                                              sum(r["transitions"] for r in rs), "" if all(r["closed"] for r in rs) else " (bounded)",
                                                              time.time() - t1))
    except Violation as v:
        viol = v
    except Infra as e:
        log("ERROR:", e)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if viol:
        d = viol.data
        hist = d.get("violation", {}).get("history", [])
        text = "%s | %s | %s" % (d.get("job", {}).get("label", "build"), viol.text, " ; ".join(hist_text(hist)))
        kf = known(prop, text)
        if kf:
            log("KNOWN-FINDING: property=%s %s" % (prop, kf))
            viol = None
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", prop + ".json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "what": viol.text, **viol.data}, f, indent=1)
        log("what:", viol.text)
        if viol.data["kind"] == "history":
            log("in:  ", viol.data["job"]["label"])
            for x in hist_text(viol.data["violation"]["history"]):
                log("     ", x)
        elif viol.data["kind"] == "compile":
            log("\n".join([l for l in viol.data["log"].splitlines() if "error" in l][:4]))
        log("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
        rc = 1
    ev["coverage"] = {
        "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
        "executions_with_an_injected_failure": tot["faults"], "states_that_are_independent_cases": tot["cases"],
        "exhaustive": bool(exhaustive and not viol and rc == 0), "jobs": per, "operations": ops,
        "samples": samples or [{"note": "no execution: see replay"}],
        "meaning": "every transition is an execution of the compiled library itself; traces_validated_against_impl counts complete executions "
                   "(a state is re-created by replaying its whole history), each compared with the reference model step by step",
    }
    if pruned:
        ev["coverage"]["transitions_cut_off_because_another_property_failed"] = pruned
    ev["assumptions"] = J.assumptions(prop)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if viol else 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %s, %d states, %d transitions, %d executions, %.1f s" % (prop, tier, {0: "holds on everything explored", 1: "BROKEN", 2: "error"}[rc],
                                                                    tot["states"], tot["transitions"], tot["traces"], time.time() - t0))
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d["kind"] == "compile":
        print(d["cmd"])
        print(d["log"])
        r = subprocess.run(d["cmd"] + " -fsyntax-only", shell=True)
        return 1 if r.returncode else 0
    j = J.Job.load(d["job"])
    hist = d["violation"]["history"] if d["kind"] == "history" else d["history"]
    modes = ["ex", "nx"] if d["kind"] == "modediff" else [j.mode]
    bins = build([j.in_mode(m) for m in modes])
    p = os.path.join(BUILD, "replay.%d" % os.getpid())
    with open(p, "w") as f:
        f.writelines("%d %d\n" % (x[0], x[1]) for x in hist)
    rc = 0
    for m in modes:
        print("==", j.in_mode(m).label())
        rc |= subprocess.run([bins[j.in_mode(m).key()]] + argv_of(j) + ["--replay", p]).returncode
    os.unlink(p)
    return rc


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "setup":
        if not toolchain_ok():
            log("the C++ toolchain does not work")
            return 2
        return 0
    rc = 0
    for p in (J.PROPS if a[0] == "all" else a):
        rc = max(rc, check(p, tier))
    return rc


if __name__ == "__main__":
    sys.exit(main())
