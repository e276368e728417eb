// Shared and weak pointer variables (three shared, three weak, base and derived) over a few objects,
// under every history of pointer operations, with every fault point of object creation.
#include "common.hpp"
#include <nestl/shared_ptr.hpp>

namespace mc
{
#if CFG_WRAP
template <class X>
using SP = nestl::shared_ptr<X>;
template <class X>
using WP = nestl::weak_ptr<X>;
#else
template <class X>
using SP = nestl::no_exceptions::shared_ptr<X>;
template <class X>
using WP = nestl::no_exceptions::weak_ptr<X>;
#endif

struct Left
{
    char c[12];
    int mark;
    Left() noexcept
        : c(), mark(17)
    {
    }
};
struct Base // deliberately without virtual destructor: the object must be destroyed as what it was made as
{
    int v;
    Base() noexcept
        : v(0)
    {
    }
};
struct alignas(16) Obj : Left, Base
{
    long tail;
#if CFG_ELEM == 3
    Obj() noexcept
        : tail(0)
    {
        reg_ctor(this, sizeof *this, alignof(Obj));
    }
#else
    typedef Thrower<CFG_ELEM != 2> Th;
    Obj(int a, int b) noexcept(CFG_ELEM != 2)
        : tail(b)
    {
        if (Th::fails(F_ARGCTOR))
        {
            Th::raise();
        }
        v = a;
        reg_ctor(this, sizeof *this, alignof(Obj));
    }
#endif
    Obj(const Obj&) = delete;
    Obj& operator=(const Obj&) = delete;
    ~Obj() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile long*)&tail = 0x5D5D5D5D;
        }
    }
};
} // namespace mc
#if CFG_ELEM == 3
namespace nestl
{
template <>
struct two_phase_initializator<mc::Obj>
{
    template <class E>
    static void init(E& err, mc::Obj& x, int a, int b) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = a;
        x.tail = b;
    }
};
} // namespace nestl
#endif

namespace mc
{
enum Kind
{
    MAKE,
    MAKE_A,
    S_COPY,
    S_MOVE,
    S_RESET,
    S_NULL,
    S_NULLCTOR,
    S_COPYCTOR,
    S_MOVECTOR,
    S_SWAP,
    C_ASSIGN, // base = derived (copy)
    C_MOVE,   // base = move(derived)
    C_CTOR,   // base(derived)
    B_SELF,
    B_MOVESELF,
    B_RESET,
    W_FROM,
    W_CTOR,
    W_COPY,
    W_MOVE,
    W_COPYCTOR,
    W_MOVECTOR,
    W_RESET,
    W_LOCK,
    W_LOCKTMP,
    BW_FROM,
    BW_RESET,
    BW_LOCK,
    S_TMP,
    RETURNED
};

struct Roots
{
    SP<Obj> s[2];
    SP<Base> b;
    WP<Obj> w[2];
    WP<Base> bw;
};

struct ObjInfo
{
    Obj* p;
    int aid;
};

struct SptrWorld : WorldBase
{
    Roots* R;
    int MAXOBJ;
    int s[2], b, w[2], bw; // model: object number or -1
    std::map<int, ObjInfo> objs;
    int nextid;

    void setup()
    {
        MAXOBJ = O.param("maxobj", 3);
        const unsigned G1 = T_GEN, L = T_GEN | T_ALIAS, M = T_GEN | T_MOVE;
        for (int i = 0; i < 2; ++i)
        {
            add(MAKE, "s=make_shared", G1, i, 0, 0, 1);
            add(MAKE_A, "s=make_shared_a", G1, i, 1, 0, 2);
            add(MAKE_A, "s=make_shared_a", G1, i, 2, 0, 2);
            add(S_RESET, "s.reset()", G1, i, 0, 0, 1);
            add(S_NULL, "s=nullptr-pointer", G1, i, 0, 0, 1);
            add(S_NULLCTOR, "s is rebuilt from nullptr", G1, i, 0, 0, 1);
            add(S_TMP, "temporaries of s", G1, i, 0, 0, 1);
            add(RETURNED, "s returned by value", G1, i, 0, 0, 1);
            for (int j = 0; j < 2; ++j)
            {
                add(S_COPY, "s=s", i == j ? L : G1, i, j, 0, 2);
                add(S_MOVE, "s=move(s)", i == j ? L : M, i, j, 0, 2);
                add(S_SWAP, "s.swap(s)", i == j ? L : M, i, j, 0, 2);
                if (i != j)
                {
                    add(S_COPYCTOR, "s is rebuilt as copy of s", G1, i, j, 0, 2);
                    add(S_MOVECTOR, "s is rebuilt from move(s)", M, i, j, 0, 2);
                    add(W_COPYCTOR, "w is rebuilt as copy of w", G1, i, j, 0, 2);
                    add(W_MOVECTOR, "w is rebuilt from move(w)", M, i, j, 0, 2);
                }
                add(W_COPY, "w=w", i == j ? L : G1, i, j, 0, 2);
                add(W_MOVE, "w=move(w)", i == j ? L : M, i, j, 0, 2);
                add(W_FROM, "w=s", G1, i, j, 0, 2);
                add(W_CTOR, "w is rebuilt from s", G1, i, j, 0, 2);
                add(W_LOCK, "s=w.lock()", G1, i, j, 0, 2);
            }
            add(W_LOCKTMP, "w.lock() dropped", G1, i, 0, 0, 1);
            add(W_RESET, "w.reset()", G1, i, 0, 0, 1);
            add(C_ASSIGN, "base=s", G1, i, 0, 0, 1);
            add(C_MOVE, "base=move(s)", M, i, 0, 0, 1);
            add(C_CTOR, "base is rebuilt from s", G1, i, 0, 0, 1);
        }
        add(B_SELF, "base=base", L);
        add(B_MOVESELF, "base=move(base)", L);
        add(B_RESET, "base.reset()", G1);
        add(BW_FROM, "bw=base", G1);
        add(BW_RESET, "bw.reset()", G1);
        add(BW_LOCK, "base=bw.lock()", G1);
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if ((ops[i].kind == MAKE || ops[i].kind == MAKE_A) && (int)objs.size() >= MAXOBJ)
            {
                continue;
            }
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
        s[0] = s[1] = b = w[0] = w[1] = bw = -1;
        objs.clear();
        nextid = 0;
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots;
        if (G.checking)
        {
            verify();
        }
    }
    void end()
    {
        R->~Roots();
        for (Block& bl : A_blocks)
        {
            if (bl.aid == 30 && bl.live)
            {
                bl.live = false;
                --A_liveblocks;
            }
        }
    }
    int owners(int o) const
    {
        return o < 0 ? 0 : (s[0] == o) + (s[1] == o) + (b == o);
    }
    int weaks(int o) const
    {
        return o < 0 ? 0 : (w[0] == o) + (w[1] == o) + (bw == o);
    }
    template <class X, class P>
    void verify_s(const char* n, const P& p, int o)
    {
        long c = owners(o);
        X* want = o < 0 ? nullptr : objs[o].p;
        CHECK(COUNT, p.use_count() == c, "%s: use_count() is %ld, %ld pointers share the object", n, p.use_count(), c);
        CHECK(COUNT, p.unique() == (c == 1), "%s: unique() is %d with %ld owners", n, (int)p.unique(), c);
        CHECK(CONTENT, (bool)p == (o >= 0), "%s: converts to %d, expected %d", n, (int)(bool)p, (int)(o >= 0));
        CHECK(CONTENT, p.get() == want, "%s: get() is wrong (%s)", n, !p.get() ? "null" : o < 0 ? "not null" : "another address");
        if (p.get() == want && want)
        {
            CHECK(CONTENT, std::addressof(*p) == want && p.operator->() == want, "%s: dereferences to another object", n);
            CHECK(LIFE, reg_alive(objs[o].p), "%s: its object has been destroyed", n);
            if (reg_alive(objs[o].p))
            {
                CHECK(CONTENT, p->v == 5, "%s: the object holds %d", n, p->v);
            }
        }
    }
    template <class X, class P>
    void verify_w(const char* n, P& p, int o)
    {
        long c = owners(o);
        CHECK(COUNT, p.use_count() == c, "%s: use_count() is %ld, %ld pointers share the object", n, p.use_count(), c);
        CHECK(COUNT, p.expired() == (c == 0), "%s: expired() is %d with %ld owners", n, (int)p.expired(), c);
        if (G.nviol)
        {
            return;
        }
        {
            SP<X> t = p.lock();
            X* want = c ? (X*)objs[o].p : nullptr;
            CHECK(CONTENT, t.get() == want, "%s: lock() gave %s", n, t.get() ? (want ? "another object" : "a dead object") : "nothing");
            CHECK(COUNT, t.use_count() == (c ? c + 1 : 0) && (bool)t == (c != 0), "%s: after lock() use_count() is %ld, expected %ld", n, t.use_count(),
                  c ? c + 1 : 0);
            CHECK(COUNT, p.use_count() == (c ? c + 1 : 0), "%s: the locked count is %ld", n, p.use_count());
        }
        CHECK(COUNT, p.use_count() == c, "%s: use_count() is %ld after a temporary lock, expected %ld", n, p.use_count(), c);
    }
    void verify()
    {
        // objects first: alive exactly while owned, memory kept exactly while referred to
        size_t blocks = 0;
        for (auto it = objs.begin(); it != objs.end();)
        {
            int o = it->first;
            bool alive = reg_alive(it->second.p);
            CHECK(LIFE, alive == (owners(o) > 0), "an object with %d sharing pointers is %s", owners(o), alive ? "still alive" : "destroyed");
            Block* bl = find_block(it->second.p);
            bool held = owners(o) + weaks(o) > 0;
            CHECK(LIFE, bl && bl->live == held, "the memory of an object with %d sharing and %d weak pointers is %s", owners(o), weaks(o),
                  bl && bl->live ? "still allocated" : "already returned");
            blocks += held;
            if (!held)
            {
                it = objs.erase(it);
            }
            else
            {
                ++it;
            }
        }
        CHECK(LIFE, A_liveblocks == blocks + 1, "%zu blocks are allocated for %zu objects", A_liveblocks - 1, blocks);
        long live = 0;
        for (auto& x : objs)
        {
            live += owners(x.first) > 0;
        }
        CHECK(LIFE, E_live == live, "%ld objects are alive, expected %ld", E_live, live);
        if (G.nviol)
        {
            return;
        }
        verify_s<Obj>("s0", R->s[0], s[0]);
        verify_s<Obj>("s1", R->s[1], s[1]);
        verify_s<Base>("base", R->b, b);
        verify_w<Obj>("w0", R->w[0], w[0]);
        verify_w<Obj>("w1", R->w[1], w[1]);
        verify_w<Base>("bw", R->bw, bw);
    }

    static SP<Obj> pass(SP<Obj> p)
    {
        return p;
    }

    void make(const OpDef& o, int fault)
    {
        Err err;
        SP<Obj> p;
        int aid = o.kind == MAKE ? 99 : o.q;
        {
            // the allocator object given to make_shared_a does not outlive the call
#if CFG_ALLOC == 3
            NumberedAlloc<Obj, 5> al(aid);
#elif CFG_ALLOC == 4
            PlainAlloc al(aid);
#else
            TrackAlloc<Obj> al(aid);
#endif
            TrackAlloc<Obj, std::true_type> alu(aid);
            Arm arm(fault);
            if (o.kind == MAKE)
            {
                p = nestl::make_shared_nothrow<Obj>(err, 5, 6);
            }
            else
            {
#if CFG_ALLOC == 2
                p = nestl::make_shared_a_nothrow<Obj>(err, alu, 5, 6);
#else
                p = nestl::make_shared_a_nothrow<Obj>(err, al, 5, 6);
#endif
            }
            al.id = alu.id = 66;
        }
        Cause c = cause_of(err);
        bool set = (bool)err;
        G.failed = set;
        CHECK(ERR, set == (G.fired != 0), "creation %s though %s failed", set ? "reported an error" : "reported success",
              G.fired ? fault_name[G.fired - 1] : "nothing");
        if (set && G.fired)
        {
            CHECK(ERR, cause_matches(c, CFG_ALLOC == 2 && o.kind == MAKE_A), "an injected %s failure was reported as %s", fault_name[G.fired - 1],
                  cause_name[c.k]);
        }
        CHECK(ALLOCID, (G.aids & ~(1u << (aid < 31 ? aid : 31))) == 0, "creation used allocator mask %x, expected %d", G.aids, aid);
        if (set)
        {
            CHECK(STRONG, !p && p.get() == nullptr && p.use_count() == 0, "failed creation returned a pointer that is not empty");
            return;
        }
        CHECK(CONTENT, p.get() != nullptr, "creation succeeded but returned nothing");
        if (G.nviol)
        {
            return;
        }
        Obj* q = p.get();
        CHECK(LIFE, in_arena(q) && reg_alive(q), "creation returned an object that does not live");
        CHECK(PATH, q->v == 5 && q->tail == 6 && q->mark == 17, "the object was not built from the given arguments: %d %ld %d", q->v, q->tail, q->mark);
        CHECK(COUNT, p.use_count() == 1 && p.unique(), "a new object has use count %ld", p.use_count());
        Block* bl = find_block(q);
        CHECK(ALLOCID, bl && bl->aid == aid, "the object came from allocator %d, expected %d", bl ? bl->aid : -1, aid);
        R->s[o.p] = std::move(p);
        CHECK(CONTENT, !p && p.get() == nullptr, "a moved-from pointer is not empty");
        s[o.p] = nextid;
        objs[nextid] = ObjInfo{q, aid};
        ++nextid;
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Roots& r = *R;
        const int i = o.p, j = o.q;
        if (o.kind == MAKE || o.kind == MAKE_A)
        {
            make(o, fault);
        }
        else
        {
            Arm arm(fault);
            switch (o.kind)
            {
            case S_COPY:
                r.s[i] = r.s[j];
                s[i] = s[j];
                break;
            case S_MOVE:
                r.s[i] = std::move(r.s[j]);
                if (i != j)
                {
                    s[i] = s[j];
                    s[j] = -1;
                }
                else if (!r.s[i])
                {
                    s[i] = -1; // a pointer moved to itself keeps its object or becomes empty
                }
                break;
            case S_RESET:
                r.s[i].reset();
                s[i] = -1;
                break;
            case S_NULL:
                r.s[i] = SP<Obj>(nullptr);
                s[i] = -1;
                break;
            case S_NULLCTOR:
                r.s[i].~SP<Obj>();
                new (&r.s[i]) SP<Obj>(nullptr);
                s[i] = -1;
                break;
            case S_COPYCTOR:
                r.s[i].~SP<Obj>();
                new (&r.s[i]) SP<Obj>(r.s[j]);
                s[i] = s[j];
                break;
            case S_MOVECTOR:
                r.s[i].~SP<Obj>();
                new (&r.s[i]) SP<Obj>(std::move(r.s[j]));
                s[i] = s[j];
                s[j] = -1;
                break;
            case S_SWAP:
                r.s[i].swap(r.s[j]);
                std::swap(s[i], s[j]);
                break;
            case C_ASSIGN:
                r.b = r.s[i];
                b = s[i];
                break;
            case C_MOVE:
                r.b = std::move(r.s[i]);
                b = s[i];
                s[i] = -1;
                break;
            case C_CTOR:
                r.b.~SP<Base>();
                new (&r.b) SP<Base>(r.s[i]);
                b = s[i];
                break;
            case B_SELF:
            {
                SP<Base>& q = r.b;
                r.b = q;
                break;
            }
            case B_MOVESELF:
            {
                SP<Base>& q = r.b;
                r.b = std::move(q);
                if (!r.b)
                {
                    b = -1;
                }
                break;
            }
            case B_RESET:
                r.b.reset();
                b = -1;
                break;
            case W_FROM:
                r.w[i] = r.s[j];
                w[i] = s[j];
                break;
            case W_CTOR:
                r.w[i].~WP<Obj>();
                new (&r.w[i]) WP<Obj>(r.s[j]);
                w[i] = s[j];
                break;
            case W_COPY:
                r.w[i] = r.w[j];
                w[i] = w[j];
                break;
            case W_MOVE:
                r.w[i] = std::move(r.w[j]);
                if (i != j)
                {
                    w[i] = w[j];
                    w[j] = -1;
                }
                else if (w[i] >= 0 && (owners(w[i]) ? r.w[i].expired() : !find_block(objs[w[i]].p)->live))
                {
                    w[i] = -1;
                }
                else if (w[i] >= 0 && owners(w[i]) == 0 && weaks(w[i]) > 1)
                {
                    // expired and shared with another weak pointer: kept or dropped cannot be seen; drop it for sure
                    r.w[i].reset();
                    w[i] = -1;
                }
                break;
            case W_COPYCTOR:
                r.w[i].~WP<Obj>();
                new (&r.w[i]) WP<Obj>(r.w[j]);
                w[i] = w[j];
                break;
            case W_MOVECTOR:
                r.w[i].~WP<Obj>();
                new (&r.w[i]) WP<Obj>(std::move(r.w[j]));
                w[i] = w[j];
                w[j] = -1;
                break;
            case W_RESET:
                r.w[i].reset();
                w[i] = -1;
                break;
            case W_LOCK:
            {
                int t = owners(w[j]) ? w[j] : -1;
                r.s[i] = r.w[j].lock();
                s[i] = t;
                break;
            }
            case W_LOCKTMP:
                r.w[i].lock();
                break;
            case BW_FROM:
                r.bw = r.b;
                bw = b;
                break;
            case BW_RESET:
                r.bw.reset();
                bw = -1;
                break;
            case BW_LOCK:
            {
                int t = owners(bw) ? bw : -1;
                r.b = r.bw.lock();
                b = t;
                break;
            }
            case S_TMP:
            {
                long c = owners(s[i]);
                {
                    SP<Obj> t1(r.s[i]);
                    SP<Base> t2(t1);
                    WP<Obj> t3(t1);
                    const WP<Obj> t4(t3);
                    SP<Obj> t5;
                    t5 = t1;
                    CHECK(COUNT, r.s[i].use_count() == (c ? c + 3 : 0) && t4.use_count() == (c ? c + 3 : 0), "temporary copies are counted as %ld, expected %ld",
                          r.s[i].use_count(), c ? c + 3 : 0);
                    t1.swap(t5);
                    t5.reset();
                    CHECK(COUNT, r.s[i].use_count() == (c ? c + 2 : 0), "after dropping one temporary the count is %ld, expected %ld", r.s[i].use_count(),
                          c ? c + 2 : 0);
                }
                break;
            }
            case RETURNED:
                r.s[i] = pass(pass(r.s[i]));
                break;
            default:
                die("unknown operation");
            }
        }
        CHECK(ERR, G.fired == 0 || o.kind == MAKE || o.kind == MAKE_A, "an operation that cannot report failure has a point of failure");
        if (o.kind != MAKE && o.kind != MAKE_A)
        {
            CHECK(NOCOST, G.n_alloc == 0, "a pointer operation requested memory");
        }
        if (!G.nviol)
        {
            verify();
        }
        Obs ob;
        ob.add(G.failed);
        ob.add((uint64_t)r.s[0].use_count());
        ob.add((uint64_t)r.s[1].use_count());
        ob.add((uint64_t)r.b.use_count());
        ob.add((uint64_t)r.w[0].use_count());
        ob.add((uint64_t)r.w[1].use_count());
        ob.add((uint64_t)r.bw.use_count());
        ob.add((uint64_t)E_live);
        ob.add((uint64_t)A_liveblocks);
        ob.add((uint64_t)G.n_alloc);
        G.obs = ob.get();
    }

    void key(Hasher& h, bool obs)
    {
        std::map<int, int> num;
        num[-1] = -1;
        auto n = [&](int o) {
            if (!num.count(o))
            {
                int k = (int)num.size();
                num[o] = k;
                h.add(objs[o].aid);
            }
            h.add(num[o]);
        };
        n(s[0]);
        n(s[1]);
        n(b);
        n(w[0]);
        n(w[1]);
        n(bw);
        if (!obs)
        {
            fingerprint(h, (const char*)R, sizeof(Roots));
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::SptrWorld>(argc, argv, "sptr");
}
