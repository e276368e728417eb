#!/usr/bin/env python3
"""Mutation campaign (not a registered check): plants small syntactic changes in a scratch copy of /repo and lists those no explorer notices.

  mutate.py OUT.jsonl FILE_REGEX [--every N] [--offset K] [--workers W] [--lines A-B]
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs as J, check as C

SRC = os.environ.get("NESTL_REPO", "/repo")
FIRST = {
    "vector": [("vec", (2, 1, 0, 1, "ex"), J.VECP)],
    "list": [("list", (2, 1, 0, 1, "ex"), J.LSTP), ("listrel", (1, 1, 0, 0, "nx"), {})],
    "set": [("set", (2, 2, 1, 1, "ex"), J.SETP), ("set", (2, 2, 1, 1, "ex"), J.SET2)],
    "red_black_tree": [("tree", (2, 2, 1, 0, "ex"), dict(maxn=4, dir=0)), ("set", (2, 2, 1, 1, "ex"), J.SETP), ("set", (2, 2, 1, 1, "ex"), J.SET2)],
    "shared_ptr": [("sptr", (2, 2, 1, 0, "ex"), dict(maxobj=2))],
    "algorithm": [("algo", (2, 1, 1, 0, "ex"), {})],
}


def mutants(path):
    text = open(os.path.join(SRC, path)).read().split("\n")
    out = []
    for i, line in enumerate(text):
        s = line.strip()
        if not s or s.startswith(("//", "#", "/*", "*", "typedef", "template", "using", "friend")):
            continue
        def add(new, what):
            if new != line:
                out.append((path, i, new, what))
        if s.endswith(";") and not re.match(r"(return|break|typedef|static|friend|public|private|virtual|explicit|struct|class)\b", s):
            if re.match(r"[\w:\->.*()\[\]& ]+(=|\+\+|--|\()", s) or s.startswith(("++", "--")):
                add(re.sub(r"\S.*", ";", line, 1), "delete")
        if s.startswith("return") and not s.startswith("return;"):
            if "end()" in s or "iterator" in s:
                pass
        m = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$", line)
        if m:
            add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "cond true") if not s.startswith("while") else None
            add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "cond false")
        for a, b in [("==", "!="), ("!=", "=="), (" <= ", " < "), (" < ", " <= "), (" > ", " >= "), (" && ", " || "), (" || ", " && "), ("++", "--"), ("--", "++"),
                     (" + 1", " + 2"), (" + 1", ""), (" - 1", ""), ("m_left", "m_right"), ("m_right", "m_left"), ("m_next", "m_prev"), ("m_prev", "m_next"),
                     ("rb_red", "rb_black"), ("rb_black", "rb_red"), ("true", "false"), ("false", "true"), ("m_start", "m_finish"), ("m_finish", "m_start"),
                     ("m_end_of_storage", "m_finish"), ("m_finish", "m_end_of_storage"), ("first1", "first2"), ("first2", "first1"), ("last1", "last2"), ("last2", "last1"),
                     ("s_left", "s_right"), ("s_right", "s_left"), ("leftmost", "rightmost"), ("rightmost", "leftmost"), ("rb_tree_increment(", "rb_tree_decrement("),
                     ("begin()", "end()"), ("end()", "begin()"), ("size()", "capacity()"), ("capacity()", "size()"), ("std::move(", "("), ("release", "add_ref"),
                     ("weak_release", "release"), ("add_ref", "weak_add_ref"), ("build_bad_alloc", "build_length_error"), ("build_length_error", "build_bad_alloc"),
                     (", 1)", ", 2)"), ("m_use_count", "m_weak_use_count"), ("m_weak_use_count", "m_use_count"), ("other.", "this->"), ("rotate_left", "rotate_right"),
                     ("rotate_right", "rotate_left"), ("newCapacity", "size()"), ("*first", "*last"), ("!", "")]:
            for k, mm in enumerate(re.finditer(re.escape(a), line)):
                p = mm.start()
                if a in ("true", "false", "release", "add_ref", "first1", "m_start", "m_finish") and (line[p - 1:p].isalnum() or line[p - 1:p] == "_"):
                    continue
                if a == "!" and line[p + 1:p + 2] == "=":
                    continue
                if a in ("++", "--", "==", "!=") and "operator" in line:
                    continue
                if a in (" < ", " > ") and ("template" in line or "typename" in line):
                    continue
                add(line[:p] + b + line[p + len(a):], "%s -> %s #%d" % (a.strip(), b.strip(), k))
    seen, res = set(), []
    for m in out:
        if (m[1], m[2]) not in seen:
            seen.add((m[1], m[2]))
            res.append(m)
    return res


def all_jobs():
    seen, res = set(), []
    for p in J.PROPS:
        for j in J.jobs(p, "quick"):
            k = (j.key(), tuple(sorted(j.params.items())), j.depth, j.diff)
            if j.diff or k in seen:
                continue
            seen.add(k)
            res.append(J.Job(j.world, j.defs, j.mode, j.params, nofaults=j.nofaults, depth=j.depth))
    return res


def relevant(path):
    n = os.path.basename(path)
    js = all_jobs()
    if path.startswith("nestl/implementation/vector") or path.endswith("has_exceptions/vector.hpp"):
        keep = ("vec", "long", "nested", "limits", "rec")
    elif "list" in n:
        keep = ("list", "listrel", "long", "nested", "limits", "rec")
    elif "set" in n or "red_black" in n:
        keep = ("set", "tree", "long", "nested", "limits")
    elif "shared_ptr" in n:
        keep = ("sptr", "graph", "long")
    elif "algorithm" in n:
        keep = ("algo", "set")
    else:
        keep = None
    return [j for j in js if keep is None or j.world[6:] in keep]


def attempt(dirn, jobs_, workers):
    os.environ["X"] = "1"
    for j in jobs_:
        src = os.path.join(C.MC, j.world + ".cpp")
        flags = C.compiler(*C.J.toolchain(j.defs)) + (["-fno-exceptions"] if j.mode == "nx" else []) + sorted("-D" + d for d in j.defs)
        exe = os.path.join(dirn, "x")
        key = (src, tuple(flags))
        cache = attempt.cache.setdefault(dirn, {})
        if key not in cache:
            exe = os.path.join(dirn, "x%d" % len(cache))
            r = subprocess.run(flags + ["-I" + dirn, "-I" + C.MC, src, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return "nocompile"
            cache[key] = exe
        exe = cache[key]
        outp = os.path.join(dirn, "o.json")
        try:
            r = subprocess.run([exe] + C.argv_of(j) + ["--workers", str(workers), "--out", outp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        except subprocess.TimeoutExpired:
            return "timeout " + j.label()
        try:
            v = json.load(open(outp))["violation"]
        except Exception:
            return "infra " + j.label() + r.stderr.decode(errors="replace")[-300:]
        if v:
            return "killed %s %s: %s" % (j.label(), v["cat"], v["msg"][:160])
    return None


attempt.cache = {}


def one(m, outf, lock):
    path, i, new, what = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mutation")
    try:
        shutil.copytree(os.path.join(SRC, "nestl"), os.path.join(d, "nestl"))
        p = os.path.join(d, path)
        t = open(p).read().split("\n")
        old = t[i]
        t[i] = new
        open(p, "w").write("\n".join(t))
        first = FIRST.get(os.path.basename(path)[:-4])
        fj = [J.Job("world_" + w, J.cfg(*c[:4]), c[4], pr) for w, c, pr in first] if first else []
        st = attempt(d, fj, 1) if fj else None
        if st is None:
            st = attempt(d, relevant(path), 1) or "SURVIVED"
        with lock:
            outf.write(json.dumps({"file": path, "line": i + 1, "what": what, "old": old.strip(), "new": new.strip(), "result": st}) + "\n")
            outf.flush()
    finally:
        attempt.cache.pop(d, None)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {"--every": "1", "--offset": "0", "--workers": "6", "--lines": ""}
    for k in list(opt):
        if k in a:
            q = a.index(k)
            opt[k] = a[q + 1]
            del a[q:q + 2]
    os.makedirs("/tmp/mutation", exist_ok=True)
    files = subprocess.check_output(["git", "-C", SRC, "ls-files", "nestl"], text=True).split()
    ms = [m for f in files if re.search(a[1], f) for m in mutants(f)]
    if opt["--lines"]:
        lo, hi = map(int, opt["--lines"].split("-"))
        ms = [m for m in ms if lo <= m[1] + 1 <= hi]
    ms = ms[int(opt["--offset"])::int(opt["--every"])]
    if a[0] == "-":
        for m in ms:
            print(m[0], m[1] + 1, m[3], "|", m[2].strip())
        sys.exit()
    done = set()
    if os.path.exists(a[0]):
        for l in open(a[0]):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(ms), "mutants", flush=True)
    lock = threading.Lock()
    with open(a[0], "a") as outf, cf.ThreadPoolExecutor(int(opt["--workers"])) as ex:
        list(ex.map(lambda m: one(m, outf, lock), ms))
