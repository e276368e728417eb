"""Which explorations decide which property, within which bounds."""
import copy

GEN, RELINK, ALIAS, MOVE, THROW, SEED = 1, 2, 4, 8, 16, 32
ELEM = ["int", "nothrow", "throwing", "two-phase", "aligned", "two-phase+move", "move-only", "throwing copy", "throwing move", "copy-only", "short", "large trivial", "self-aware", "trivially assigned"]
NEST = ["vector<vector>", "list<vector>", "vector<list>", "list<list>", "set<vector>", "set<list>"]
PROPS = ["C%02d" % i for i in range(1, 21)]


class Job:
    def __init__(self, world, defs, mode, params=None, cats=None, fcats=None, tags=None, vtags=None, nofaults=False, depth=0, max_states=0, time=0, diff=False):
        self.world, self.defs, self.mode = world, list(defs), mode
        self.params = dict(params or {})
        self.cats, self.fcats, self.tags, self.vtags = cats, fcats, tags, vtags
        self.nofaults, self.depth, self.max_states, self.time, self.diff = nofaults, depth, max_states, time, diff

    def key(self):
        return (self.world, tuple(sorted(self.defs)), self.mode)

    def in_mode(self, m):
        j = copy.copy(self)
        j.mode = m
        return j

    def label(self):
        d = dict(x.split("=") for x in self.defs)
        parts = []
        if "CFG_REC" in d:
            parts.append(["trees of vectors", "trees of lists"][int(d["CFG_REC"])])
        if "CFG_NEST" in d:
            parts.append(NEST[int(d["CFG_NEST"])])
        if "CFG_ELEM" in d:
            parts.append(ELEM[int(d["CFG_ELEM"])])
        if "CFG_ALLOC" in d:
            parts.append(["default allocator", "tracked allocator", "allocator with its own error", "allocator with a number", "allocator that is no template"][int(d["CFG_ALLOC"])])
        if "CFG_ERR" in d:
            parts.append(["default error", "user error"][int(d["CFG_ERR"])])
        if "NDEBUG" in d:
            parts.append("NDEBUG")
        if d.get("CFG_POCCA") == "1":
            parts.append("copying brings the allocator along")
        if "CFG_MINALLOC" in d:
            parts.append("required members only")
        if d.get("CFG_BASE") == "1":
            parts.append("through base class pointers")
        if d.get("CFG_WRAP") == "1":
            parts.append("nestl:: wrapper")
        parts.append("both modes" if self.diff else {"ex": "exceptions", "nx": "no exceptions"}[self.mode])
        parts += ["%s=%d" % kv for kv in sorted(self.params.items())]
        if self.depth:
            parts.append("depth<=%d" % self.depth)
        return self.world.replace("world_", "") + "[" + ", ".join(parts) + "]"

    def dump(self):
        d = dict(self.__dict__)
        d["label"] = self.label()
        return d

    @staticmethod
    def load(d):
        d = dict(d)
        d.pop("label", None)
        return Job(**d)


NO_ASSERTS = (7, 9, 10, 12)  # the element types that are also explored the way release builds are compiled


# compiler and language version by element type (g++ -std=gnu++14 otherwise)
BUILDS = {0: ("clang++", "gnu++17"), 3: ("g++", "gnu++11"), 4: ("clang++", "gnu++14"), 5: ("g++", "gnu++17"), 7: ("clang++", "gnu++20"),
          8: ("clang++", "gnu++11"), 9: ("g++", "gnu++20"), 10: ("g++", "gnu++17"), 11: ("g++", "gnu++11"), 12: ("clang++", "gnu++14"), 13: ("clang++", "gnu++20")}


def toolchain(defs):
    for d in defs:
        if d.startswith("CFG_ELEM="):
            return BUILDS.get(int(d[9:]), ("g++", "gnu++14"))
    return ("g++", "gnu++14")


def cfg(e=1, a=1, r=0, w=0):
    return ["CFG_ELEM=%d" % e, "CFG_ALLOC=%d" % a, "CFG_ERR=%d" % r, "CFG_WRAP=%d" % w] + (["NDEBUG=1"] if e in NO_ASSERTS else [])


# configurations: (element, allocator, error, wrapper, mode)
VEC_Q = [(2, 1, 0, 1, "ex"), (1, 2, 1, 0, "nx"), (3, 1, 0, 0, "nx"), (0, 0, 0, 0, "ex")]
VEC_T = VEC_Q + [(2, 2, 1, 0, "ex"), (1, 1, 0, 1, "ex"), (3, 2, 1, 0, "ex"), (5, 1, 0, 0, "nx"), (4, 1, 0, 0, "nx"), (4, 0, 0, 1, "ex"), (0, 1, 0, 0, "nx"),
                 (5, 2, 1, 0, "ex"), (1, 0, 0, 0, "nx"), (2, 0, 0, 0, "ex"), (7, 1, 0, 1, "ex"), (8, 2, 0, 0, "ex"), (9, 1, 1, 1, "ex"), (10, 1, 0, 0, "nx"), (11, 0, 0, 0, "ex"), (12, 2, 0, 0, "nx"), (13, 1, 1, 1, "ex")]
MIX = [(7, 1, 0, 1, "ex")]  # copying can fail, moving cannot
PODS = [(10, 1, 0, 0, "nx"), (11, 1, 0, 1, "ex")]
TRIV = [(12, 1, 0, 1, "ex"), (13, 0, 0, 0, "nx")]


def pick(configs, f):
    return [c for c in configs if f(c)]


def world(name, configs, params, **kw):
    return [Job("world_" + name, cfg(*c[:4]), c[4], params, **kw) for c in configs]


VECP = dict(maxn=4, maxb=2, maxc=6)
VECT = dict(maxn=5, maxb=2, maxc=7)
LSTP = dict(maxn=5, maxb=3)
LSTS = dict(sameid=1, maxn=5, maxb=4)
LSTT = dict(maxn=7, maxb=5)
SETP = dict(maxn=8)
SET2 = dict(maxn=4, maxb=3)


def vec(tier, cs=None, **kw):
    return world("vec", cs or (VEC_Q if tier == "quick" else VEC_T), VECP if tier == "quick" else VECT, **kw)


def lst(tier, cs=None, **kw):
    q = tier == "quick"
    r = world("list", cs or (VEC_Q if q else VEC_T), LSTP if q else LSTT, **kw)
    r += world("list", cs or (VEC_Q if q else VEC_T), LSTS if q else dict(sameid=1, maxn=6, maxb=6), **kw)
    return r


SET_Q = [(1, 1, 0, 0, "nx"), (2, 2, 1, 1, "ex"), (6, 1, 0, 0, "ex"), (0, 0, 0, 0, "nx")]
SET_T = SET_Q + [(1, 2, 1, 0, "ex"), (3, 1, 0, 0, "nx"), (3, 2, 1, 0, "ex"), (2, 1, 0, 0, "ex"), (4, 1, 0, 0, "nx"), (5, 1, 0, 0, "ex"), (0, 1, 0, 1, "ex"), (6, 2, 1, 0, "nx")] + VEC_T[-7:]


def sets(tier, cs=None, one=True, two=True, **kw):
    q = tier == "quick"
    cs = cs or (SET_Q if q else SET_T)
    r = []
    if one:
        r += world("set", cs, SETP if q else dict(maxn=10), **kw)
        if not q:
            r += world("set", cs[:1], dict(maxn=14), **dict(kw, nofaults=True))
    if two:
        r += world("set", cs, SET2 if q else dict(maxn=5, maxb=4), **kw)
    return r


def pocca(tier, **kw):
    q = tier == "quick"
    return [Job("world_set", cfg(*c[:4]) + ["CFG_POCCA=1"], c[4], dict(maxn=4, maxb=3), **kw) for c in
            [(2, 1, 0, 1, "ex"), (3, 2, 1, 0, "nx")] + ([] if q else [(1, 2, 0, 0, "ex"), (0, 1, 1, 1, "nx")])]


def allocs(tier, **kw):
    """allocators of other shapes: only the required members, a number as template argument, no template"""
    q = tier == "quick"
    r = []
    for shape in (["CFG_ALLOC=1", "CFG_MINALLOC=1"], ["CFG_ALLOC=3"], ["CFG_ALLOC=4"]):
        for e, m in [(2, "ex")] if q else [(2, "ex"), (3, "nx"), (4, "nx")]:
            d = [x for x in cfg(e, 1, 1) if not x.startswith("CFG_ALLOC")] + shape
            r.append(Job("world_vec", d, m, dict(maxn=2, maxb=1, maxc=3) if q else VECP, **kw))
            r.append(Job("world_list", d, m, dict(maxn=3, maxb=2) if q else LSTP, **kw))
            r.append(Job("world_set", d, m, SET2, **kw))
            r.append(Job("world_tree", d, m, dict(maxn=3, dir=0) if q else dict(maxn=4, dir=1), **kw))
            r.append(Job("world_sptr", d, m, dict(maxobj=1 if q else 2), **kw))
    return r


MID_Q = {"vec": [(2, 1, 0, 1, "ex"), (3, 2, 1, 0, "nx")], "list": [(2, 1, 0, 1, "ex"), (3, 2, 1, 0, "nx")], "set": [(2, 2, 1, 1, "ex"), (3, 1, 0, 0, "nx")]}


def mid(tier, worlds, cs=None, **kw):
    """one operation (thorough: two) with every fault point, from prepared containers of 7 to 33 elements"""
    q = tier == "quick"
    r = []
    for w in worlds:
        c = cs or MID_Q[w] + ([] if q else [(1, 1, 0, 0, "nx"), (0, 0, 0, 0, "ex"), (2, 1, 1, 0, "ex")])
        d = 2 if q or w != "set" else 3
        r += world(w, c, dict(mid=33), **dict(kw, depth=d))
        if w == "list":
            r += world(w, c[:1], dict(mid=33, sameid=1), **dict(kw, depth=d))
        if not q and w != "set":
            r += world(w, c[:2], dict(mid=9), **dict(kw, depth=3, max_states=400000, time=150))
    return r




def sptr(tier, cs=None, **kw):
    r = []
    for c in cs or ([(2, 2, 1, "ex"), (1, 1, 0, "nx"), (3, 1, 0, "nx")] if tier == "quick" else
                    [(2, 2, 1, "ex"), (1, 1, 0, "nx"), (3, 1, 0, "nx"), (2, 1, 0, "ex"), (3, 2, 1, "ex"), (1, 0, 0, "ex"), (4, 1, 0, "nx")]):
        r.append(Job("world_sptr", cfg(c[0], c[1], c[2]), c[3], dict(maxobj=2 if tier == "quick" else 3), **kw))
    return r


def graph(tier, **kw):
    kw = dict(kw, nofaults=True)
    r = []

    def g(mode, depth=0, base=0, **p):
        r.append(Job("world_graph", cfg(1, 1, 0) + ["CFG_BASE=%d" % base], mode, p, depth=depth, **kw))
    g("ex", nodes=2, acts=15)
    g("ex", nodes=2, acts=15, base=1)
    g("nx", nodes=3, acts=1, weak=0)
    g("nx", nodes=3, acts=255, depth=4 if tier == "quick" else 6)
    g("nx", nodes=2, acts=255, depth=6 if tier == "quick" else 0)
    if tier != "quick":
        g("nx", nodes=2, acts=241)
        g("ex", nodes=3, acts=1)
        g("ex", nodes=4, acts=1, weak=0)
        g("ex", nodes=3, acts=1, roots=1)
    return r


def mix(tier, **kw):
    return [] if tier != "quick" else vec(tier, MIX, **kw) + world("list", MIX, LSTP, **kw) + world("set", MIX, SET2, **kw)


def algo(tier, **kw):
    r = []
    for e, er, m in [(2, 1, "ex"), (1, 0, "nx")] + ([] if tier == "quick" else [(0, 0, "nx"), (0, 1, "ex"), (2, 0, "ex"), (1, 1, "nx"), (7, 0, "ex"), (9, 1, "ex")]):
        r.append(Job("world_algo", cfg(e, 1, er), m, {} if tier == "quick" else dict(copylen=7, pairlen=5), **kw))
    return r


def nested(tier, nests=range(6), **kw):
    r = []
    for n in nests:
        m = "nx" if n % 2 else "ex"
        small = dict(maxn=2, maxb=1, ncat=2, maxi=1)
        r.append(Job("world_nested", ["CFG_NEST=%d" % n, "CFG_ERR=%d" % (n % 2)], m, small, **kw))
        if tier != "quick":
            r.append(Job("world_nested", ["CFG_NEST=%d" % n, "CFG_ERR=%d" % (1 - n % 2)], "ex" if m == "nx" else "nx", small, **kw))
            r.append(Job("world_nested", ["CFG_NEST=%d" % n, "CFG_ERR=0"], m, dict(maxn=2, maxb=1, ncat=3, maxi=2), **dict(kw, max_states=150000, time=200)))
            r.append(Job("world_nested", ["CFG_NEST=%d" % n, "CFG_ERR=1"], m, dict(maxn=3, maxb=1, ncat=2, maxi=1), **dict(kw, max_states=150000, time=200)))
    return r


def rec(tier, **kw):
    """containers whose elements hold containers of the same type"""
    def r(kind, err, mode, nodes, **k):
        return Job("world_rec", ["CFG_REC=%d" % kind, "CFG_ERR=%d" % err], mode, dict(nodes=nodes), **dict(kw, **k))
    q = [r(0, 0, "nx", 3), r(1, 1, "ex", 5)]
    return q if tier == "quick" else q + [r(0, 1, "ex", 3), r(1, 1, "ex", 7), r(1, 0, "nx", 6), r(0, 0, "nx", 4, max_states=20000, time=250)]


def construct(tier, **kw):
    return [Job("world_construct", ["CFG_ERR=%d" % e], m, **kw) for e, m in [(0, "ex"), (1, "nx"), (1, "ex"), (0, "nx")]]


def limits(tier, **kw):
    return [Job("world_limits", ["CFG_ERR=%d" % e], m, **dict(kw, nofaults=True)) for e, m in
            ([(0, "ex"), (1, "nx")] if tier == "quick" else [(0, "ex"), (1, "nx"), (1, "ex"), (0, "nx")])]


SETF, VECF, LSTF, LSTG, SPLF, SPCF = 0x00F, 0xFF0, 0x3000, 0x3C000, 0x10000, 0x40000


def long(tier, fams, cs=None, **kw):
    p = dict(fams=fams)
    if tier != "quick":
        p.update(big=1025 if fams != VECF else 4097, dense=40)
    return [Job("world_long", cfg(*c[:4]), c[4], p, **dict(kw, nofaults=True)) for c in (cs or ([(1, 1, 0, 0, "nx")] if tier == "quick" else
            [(1, 1, 0, 0, "nx"), (0, 0, 0, 0, "ex"), (2, 1, 0, 0, "ex"), (3, 1, 0, 0, "nx")]))]


def listrel(tier, **kw):
    p = {} if tier == "quick" else dict(mergelen=6, sortlen=9, permlen=8, biglen=300)
    return [Job("world_listrel", cfg(*c[:4]), c[4], p, **kw) for c in ([(1, 1, 0, 0, "nx"), (2, 1, 0, 1, "ex")] if tier == "quick" else
            [(1, 1, 0, 0, "nx"), (2, 1, 0, 1, "ex"), (0, 0, 0, 0, "ex"), (3, 1, 0, 0, "nx")])]


def tree(tier, **kw):
    """the ordered tree underneath set, through its own interface"""
    q = tier == "quick"
    cs = [(2, 2, 1, 0, "ex"), (3, 1, 0, 0, "nx"), (1, 0, 0, 0, "nx"), (6, 1, 0, 0, "ex")]
    if not q:
        cs += [(5, 1, 1, 0, "ex"), (9, 1, 0, 0, "ex"), (4, 2, 0, 0, "nx"), (7, 1, 0, 0, "ex"), (8, 1, 1, 0, "ex"), (1, 2, 1, 0, "nx")]
    r = []
    for i, c in enumerate(cs):
        r += world("tree", [c], dict(maxn=5 if q or i > 3 else 6, dir=i % 2), **kw)
    r += world("tree", [(1, 1, 0, 0, "nx")], dict(maxn=6 if q else 8, dir=1, big=500), **dict(kw, nofaults=True))
    return r


def modediff(tier):
    t = GEN | RELINK | ALIAS | MOVE | SEED
    kw = dict(diff=True, cats=["MODEDIFF"], tags=t)
    q = tier == "quick"
    r = []

    def d(w, defs, params=None, **k):
        r.append(Job("world_" + w, defs, "ex", params, **dict(kw, **k)))
    for c in [(1, 1, 0), (3, 2, 1)] + ([] if q else [(0, 0, 0), (5, 1, 0), (1, 2, 1)]):
        d("vec", cfg(*c), VECP if q else VECT)
        d("list", cfg(*c), LSTP if q else LSTT)
        d("set", cfg(*c), dict(maxn=6) if q else dict(maxn=8))
        d("set", cfg(*c), SET2)
        d("sptr", cfg(*c), dict(maxobj=2))
    d("vec", cfg(0, 0, 0), VECP)
    d("algo", cfg(1, 1, 0), dict(copylen=4, pairlen=3) if q else {})
    for n in range(6):
        d("nested", ["CFG_NEST=%d" % n, "CFG_ERR=0"], dict(maxn=2, maxb=1, ncat=2, maxi=1))
    d("construct", ["CFG_ERR=0"], dict(common=1))
    d("construct", ["CFG_ERR=1"], dict(common=1))
    d("limits", ["CFG_ERR=0"], nofaults=True)
    d("graph", cfg(1, 1, 0) + ["CFG_BASE=0"], dict(nodes=2, acts=15), nofaults=True)
    d("listrel", cfg(1, 1, 0))
    for w in ("vec", "list", "set"):
        d(w, cfg(3, 2, 1), dict(mid=33), depth=2)
    return r


def jobs(p, tier):
    q = tier == "quick"
    seq = ["CONTENT", "RET"]
    every = None  # all categories
    two_phase = lambda c: c[0] in (3, 5)
    if p == "C01":
        return vec(tier, cats=seq) + vec("quick", PODS, cats=seq, nofaults=True) + long(tier, VECF, cats=seq) + mid(tier, ["vec"], cats=seq)
    if p == "C02":
        return lst(tier, cats=seq) + lst("quick", PODS, cats=seq, nofaults=True) + long(tier, LSTG, cats=seq) + mid(tier, ["list"], cats=seq)
    if p == "C03":
        return listrel(tier, cats=every) + lst(tier, vtags=RELINK) + long(tier, LSTF | SPLF) + mid(tier, ["list"], vtags=RELINK, nofaults=True)
    if p == "C04":
        return sets(tier, cats=seq) + sets("quick", PODS, cats=seq, nofaults=True) + long(tier, SETF, cats=seq) + mid(tier, ["set"], cats=seq) + pocca(tier, cats=seq)
    if p == "C05":
        return sets(tier, cats=["BALANCE"], cs=None) + long(tier, SETF, cats=["BALANCE"])
    if p == "C06":
        k = dict(cats=["LIFE"])
        return (vec(tier, VEC_Q[:3] + [(4, 0, 0, 0, "nx")] if q else None, **k) + lst(tier, **k) + sets(tier, **k) + sptr(tier, **k) +
                mix(tier, **k) + nested(tier, [0, 1, 4] if q else range(6), **k) + construct(tier, **k) + graph(tier, **k)[:5] + mid(tier, ["vec", "list", "set"], **k) + long(tier, SETF | VECF | LSTG | SPCF, **k) +
                vec("quick", TRIV, nofaults=True, **k) + lst("quick", TRIV, nofaults=True, **k) + sets("quick", TRIV, nofaults=True, **k) + pocca(tier, **k))
    if p == "C07":
        k = dict(cats=["ERR"])
        return vec(tier, **k) + lst(tier, **k) + sets(tier, **k) + sptr(tier, **k) + mix(tier, **k) + nested(tier, [0, 3] if q else range(6), **k) + construct(tier, **k) + algo(tier, **k) + limits(tier, cats=["ERR", "LIMIT"])[:1] + mid(tier, ["vec", "list", "set"], **k)
    if p == "C08":
        k = dict(cats=["STRONG", "BASIC", "CONTENT", "RET"], fcats=["CONTENT", "RET"])
        return vec(tier, **k) + lst(tier, **k) + sets(tier, **k) + sptr(tier, **dict(k, cats=k["cats"] + ["COUNT"], fcats=k["fcats"] + ["COUNT"])) + mix(tier, **k) + nested(tier, [0, 3] if q else range(6), **k) + mid(tier, ["vec", "list", "set"], **k)
    if p == "C09":
        return sptr(tier) + long(tier, SPCF)
    if p == "C10":
        return graph(tier) + sptr(tier, [(1, 1, 0, "nx")])
    if p == "C11":
        k = dict(cats=["ALLOCID"])
        tracked = lambda c: c[1] != 0
        return (vec(tier, pick(VEC_Q if q else VEC_T, tracked), **k) + lst(tier, pick(VEC_Q if q else VEC_T, tracked), **k) +
                sets(tier, pick(SET_Q if q else SET_T, tracked), **k) + sptr(tier, **k) + nested(tier, [0, 3] if q else range(6), **k) +
                mid(tier, ["vec", "list", "set"], [(2, 1, 0, 0, "ex")] if q else None, **k) + pocca(tier, **k) + allocs(tier, **k))
    if p == "C12":
        cs = [(2, 1, 0, 1, "ex"), (1, 2, 0, 1, "ex"), (0, 0, 0, 1, "ex"), (7, 1, 0, 1, "ex")] + ([] if q else [(9, 1, 0, 1, "ex"), (8, 1, 0, 1, "ex"), (2, 2, 1, 1, "ex"), (3, 1, 0, 1, "ex"), (2, 0, 0, 1, "ex"), (4, 1, 0, 1, "ex")])
        return vec(tier, cs, vtags=THROW) + lst(tier, cs, vtags=THROW) + mid(tier, ["vec", "list"], [(2, 1, 0, 1, "ex")] if q else cs, vtags=THROW)
    if p == "C13":
        return modediff(tier)
    if p == "C14":
        cs = [(3, 1, 0, 0, "nx"), (5, 2, 1, 0, "ex")]
        k = dict(cats=["PATH", "CONTENT", "RET", "LIFE", "ERR", "STRONG", "BASIC"])
        pk = dict(cats=["PATH"])
        return (nested(tier) + construct(tier) + rec(tier, **k) + vec(tier, cs, **k) + lst(tier, cs, **k) + sets(tier, cs, **k) + sptr(tier, [(3, 1, 0, "nx")], **k) +
                vec(tier, [(2, 1, 0, 1, "ex")], **pk) + lst(tier, [(2, 1, 0, 1, "ex")], **pk) + sets(tier, [(2, 1, 0, 1, "ex")], **pk) +
                vec(tier, MIX, nofaults=True, **pk) + lst(tier, MIX + [(6, 1, 0, 1, "ex")], nofaults=True, **pk))
    if p == "C15":
        return algo(tier)
    if p == "C16":
        k = dict(cats=["STABLE", "NOCOST"])
        return vec(tier, **k) + lst(tier, **k) + sets(tier, **k) + long(tier, SETF | VECF | LSTG, **k) + listrel(tier, **k)[:1] + mid(tier, ["vec", "list", "set"], **dict(k, nofaults=True))
    if p == "C17":
        return limits(tier)
    if p == "C18":
        k = dict(vtags=ALIAS)
        return vec(tier, **k) + lst(tier, **k) + sets(tier, **k) + sptr(tier, **k) + listrel(tier)[:1] + nested(tier, [0, 2] if q else range(6), **k) + rec(tier, **k) + mid(tier, ["vec", "list", "set"], **k)
    if p == "C19":
        k = dict(vtags=MOVE)
        return vec(tier, **k) + lst(tier, **k) + sets(tier, **k) + nested(tier, [0, 3] if q else range(6), **k) + mid(tier, ["vec", "list", "set"], **dict(k, nofaults=True))
    if p == "C20":
        return tree(tier)
    raise SystemExit("unknown property " + p)


def assumptions(p):
    a = ["the explorer's reference models and monitors (mc/) are correct",
         "bounds: sizes, number of containers and values as named in each job; per operation either one injected failure, or a first failure after which every later step of the same operation that can fail does fail; any number per history",
         "g++ or clang++ (which one depends on the element type), C++11 to C++20, -O1 with AddressSanitizer, x86-64 Linux"]
    if p in ("C09", "C10"):
        a.append("shared_ptr is single-threaded by design; no concurrency is explored")
    if p == "C13":
        a.append("observations compared: results, contents, capacities, error causes, allocation counts per operation")
    return a
