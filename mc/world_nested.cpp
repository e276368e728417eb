// Containers of containers under every history, with a failure at every fault point of every level.
#include "common.hpp"
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/vector.hpp>

#ifndef CFG_NEST
#define CFG_NEST 0 // 0 vector<vector>, 1 list<vector>, 2 vector<list>, 3 list<list>, 4 set<vector>, 5 set<list>
#endif
#define OUT_LIST (CFG_NEST == 1 || CFG_NEST == 3)
#define OUT_SET (CFG_NEST >= 4)
#define OUT_VEC (!OUT_LIST && !OUT_SET)
#define IN_LIST (CFG_NEST == 2 || CFG_NEST == 3 || CFG_NEST == 5)

namespace mc
{
#if CFG_WRAP
#define NS nestl
#else
#define NS nestl::no_exceptions
#endif
#if IN_LIST
typedef NS::list<T, Alloc> Inner;
#else
typedef NS::vector<T, Alloc> Inner;
#endif
#if CFG_ALLOC == 0
typedef nestl::allocator<Inner> OAlloc;
inline OAlloc make_oalloc(int)
{
    return OAlloc();
}
#else
typedef TrackAlloc<Inner, std::integral_constant<bool, CFG_ALLOC == 2>> OAlloc;
inline OAlloc make_oalloc(int i)
{
    return OAlloc(i);
}
#endif

inline Seq iv(const Inner& i)
{
    Seq s;
    for (auto it = i.begin(); it != i.end() && s.size() < 50; ++it)
    {
        s.push_back(ET::val(*it));
    }
    return s;
}
struct ICmp
{
    bool operator()(const Inner& x, const Inner& y) const
    {
        Seq a = iv(x), b = iv(y);
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }
};
#if OUT_VEC
typedef NS::vector<Inner, OAlloc> Outer;
#elif OUT_LIST
typedef NS::list<Inner, OAlloc> Outer;
#else
typedef NS::set<Inner, ICmp, OAlloc> Outer;
#endif

typedef std::vector<Seq> M;
inline std::string mstr(const M& m)
{
    std::string r = "{";
    for (auto& s : m)
    {
        r += str(s);
    }
    return r + "}";
}
inline M snap(const Outer& o)
{
    M m;
    for (auto it = o.begin(); it != o.end() && m.size() < 50; ++it)
    {
        m.push_back(iv(*it));
    }
    return m;
}

enum Kind
{
    PB_L,
    PB_R,
    INS_L,
    INS_R,
    ERASE,
    POP,
    RESIZE,
    RESIZE_V,
    ASSIGN_N,
    ASSIGN_B,
    RESERVE,
    SHRINK,
    CLEAR,
    IN_PUSH,
    IN_CLEAR,
    AL_INS,
    COPY_AB,
    COPY_BA,
    MOVE_AB,
    MOVE_BA,
    EMPLACE0,
    B_PUSH,
    SHARED
};

struct Roots
{
    Outer a, b;
    Roots()
#if OUT_SET
        : a(ICmp(), make_oalloc(1)), b(ICmp(), make_oalloc(2))
#else
        : a(make_oalloc(1)), b(make_oalloc(2))
#endif
    {
    }
};

static const Seq catalogue[] = {Seq{}, Seq{1}, Seq{1, 2}, Seq{2}};

struct InArg
{
    Inner x;
    explicit InArg(const Seq& s)
        : x(make_alloc(7))
    {
        Err e;
        for (int v : s)
        {
            Arg a(v);
            x.push_back_nothrow(e, a.x);
        }
        if (e)
        {
            die("argument");
        }
    }
};

struct NestWorld : WorldBase
{
    Roots* R;
    M A, B;
    int MAXN, MAXI, MAXB, NC;

    void setup()
    {
        MAXN = O.param("maxn", 3);
        MAXI = O.param("maxi", 2);
        MAXB = O.param("maxb", 2);
        NC = O.param("ncat", 3);
        const unsigned G1 = T_GEN;
        for (int k = 0; k < NC; ++k)
        {
            if (!OUT_SET)
            {
                add(PB_L, "push_back_nothrow(lvalue inner)", G1, k, 0, 0, 1);
                add(PB_R, "push_back_nothrow(rvalue inner)", G1, k, 0, 0, 1);
                add(ASSIGN_N, "assign_nothrow(count,inner)", G1, k, 2, 0, 2);
            }
            add(SHARED, "shared copy of inner", G1, k, 0, 0, 1);
            add(B_PUSH, "b: add inner", G1, k, 0, 0, 1);
            for (int p = 0; p < (OUT_SET ? 1 : MAXN); ++p)
            {
                add(INS_L, "insert_nothrow(pos,lvalue inner)", G1, k, p, 0, 2);
                add(INS_R, "insert_nothrow(pos,rvalue inner)", G1, k, p, 0, 2);
            }
            if (OUT_VEC)
            {
                for (int n = 0; n <= MAXN; ++n)
                {
                    add(RESIZE_V, "resize_nothrow(n,inner)", G1, k, n, 0, 2);
                }
            }
        }
        if (OUT_VEC)
        {
            for (int n = 0; n <= MAXN; ++n)
            {
                add(RESIZE, "resize_nothrow(n)", G1, n, 0, 0, 1);
            }
            add(RESERVE, "reserve_nothrow(size+1)", G1);
            add(SHRINK, "shrink_to_fit_nothrow", G1);
        }
        for (int i = 0; i < MAXN; ++i)
        {
            if (!OUT_VEC)
            {
                add(ERASE, "erase(pos)", G1, i, 0, 0, 1);
            }
            if (!OUT_SET)
            {
                add(IN_PUSH, "a[i].push_back_nothrow(v)", G1, i, 1, 0, 2);
                add(IN_PUSH, "a[i].push_back_nothrow(v)", G1, i, 2, 0, 2);
                add(IN_CLEAR, "a[i].clear()", G1, i, 0, 0, 1);
                for (int p = 0; p < MAXN; ++p)
                {
                    add(AL_INS, "insert_nothrow(pos,own inner i)", G1 | T_ALIAS, i, p, 0, 2);
                }
            }
        }
        if (OUT_LIST)
        {
            add(POP, "pop_back", G1);
        }
        if (!OUT_SET)
        {
            add(ASSIGN_B, "assign_nothrow(range of b)", G1);
            add(EMPLACE0, "emplace_back_nothrow()", G1);
        }
        add(CLEAR, "clear", G1);
        add(COPY_AB, "a.copy_nothrow(b)", G1);
        add(COPY_BA, "b.copy_nothrow(a)", G1);
        add(MOVE_AB, "a=move(b)", G1 | T_MOVE);
        add(MOVE_BA, "b=move(a)", G1 | T_MOVE);
    }
    bool can(const OpDef& o) const
    {
        int n = (int)A.size();
        switch (o.kind)
        {
        case PB_L:
        case PB_R:
        case EMPLACE0:
        case RESERVE:
            return n < MAXN;
        case INS_L:
        case INS_R:
            return n < MAXN && (OUT_SET || o.q <= n);
        case AL_INS:
            return n < MAXN && o.p < n && o.q <= n;
        case ERASE:
        case IN_CLEAR:
            return o.p < n;
        case POP:
            return n > 0;
        case IN_PUSH:
            return o.p < n && (int)A[o.p].size() < MAXI;
        case B_PUSH:
            return (int)B.size() < MAXB;
        case COPY_BA:
        case MOVE_BA:
            return n <= MAXB;
        default:
            return true;
        }
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }
    void begin()
    {
        A.clear();
        B.clear();
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots;
    }
    void end()
    {
        R->~Roots();
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }
    template <class O1>
    static auto at(O1& o, int i) -> decltype(o.begin())
    {
        auto it = o.begin();
        std::advance(it, i);
        return it;
    }
    template <class It>
    static long index_of(const Outer& o, It it)
    {
        long i = 0;
        typename Outer::const_iterator y = it;
        for (auto x = o.cbegin(); i < 60; ++x, ++i)
        {
            if (x == y)
            {
                return i;
            }
            if (x == o.cend())
            {
                break;
            }
        }
        return -2;
    }

    // every inner element lives at its own address, in its own block
    void independent()
    {
        std::set<const void*> seen;
        size_t n = 0;
        for (const Outer* o : {&R->a, &R->b})
        {
            for (auto it = o->begin(); it != o->end(); ++it)
            {
                for (auto j = it->begin(); j != it->end(); ++j)
                {
                    seen.insert(std::addressof(*j));
                    ++n;
                }
            }
        }
        CHECK(CONTENT, seen.size() == n, "two inner containers share elements");
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Outer& a = R->a;
        Outer& b = R->b;
        M nA = A, nB = B, req;
        bool strong = false, fallible = true, target_b = false;
        long ret = -1, expect = -1;
        Err err;
        switch (o.kind)
        {
        case PB_L:
        case PB_R:
        case INS_L:
        case INS_R:
        {
            InArg x(catalogue[o.p]);
            bool rv = o.kind == PB_R || o.kind == INS_R;
            const T* first = x.x.empty() ? nullptr : std::addressof(*x.x.begin());
            {
                Arm arm(fault);
                const Inner& cx = x.x;
#if OUT_SET
                auto r = rv ? a.insert_nothrow(err, std::move(x.x)) : a.insert_nothrow(err, cx);
                G.armed = false;
                ret = err ? -1 : index_of(a, r.first);
#else
                if (o.kind == PB_L)
                {
                    a.push_back_nothrow(err, cx);
                }
                else if (o.kind == PB_R)
                {
                    a.push_back_nothrow(err, std::move(x.x));
                }
                else
                {
                    auto pos = at(a, o.q);
                    auto r = rv ? a.insert_nothrow(err, pos, std::move(x.x)) : a.insert_nothrow(err, pos, cx);
                    G.armed = false;
                    ret = err ? -1 : index_of(a, r);
                    expect = o.q;
                }
#endif
            }
            bool inserted = true;
            size_t where = o.kind == INS_L || o.kind == INS_R ? (size_t)o.q : nA.size();
            if (OUT_SET)
            {
                where = 0;
                while (where < nA.size() && nA[where] < catalogue[o.p])
                {
                    ++where;
                }
                inserted = !(where < nA.size() && nA[where] == catalogue[o.p]);
                expect = (long)where;
            }
            if (inserted)
            {
                nA.insert(nA.begin() + where, catalogue[o.p]);
            }
            if (!rv)
            {
                CHECK(CONTENT, iv(x.x) == catalogue[o.p], "the argument was changed");
                if (!err && inserted && first)
                {
                    CHECK(CONTENT, std::addressof(*at(a, (int)where)->begin()) != first, "the stored container shares the elements of the argument");
                }
            }
            else if (!err && inserted && first)
            {
                CHECK(PATH, std::addressof(*at(a, (int)where)->begin()) == first, "an rvalue container was copied instead of moved");
            }
            strong = !OUT_VEC || o.kind == PB_L || o.kind == PB_R;
            CHECK(STRONG, !(err && strong) || iv(x.x) == catalogue[o.p], "a failed insertion changed the caller's argument");
            req.push_back(catalogue[o.p]);
            break;
        }
#if !OUT_SET
        case AL_INS:
        {
            const Inner& cx = *at(a, o.p);
            {
                Arm arm(fault);
                auto r = a.insert_nothrow(err, at(a, o.q), cx);
                G.armed = false;
                ret = err ? -1 : index_of(a, r);
                expect = o.q;
            }
            nA.insert(nA.begin() + o.q, A[o.p]);
            strong = !OUT_VEC;
            break;
        }
        case ASSIGN_N:
        {
            InArg x(catalogue[o.p]);
            {
                Arm arm(fault);
                a.assign_nothrow(err, (typename Outer::size_type)o.q, static_cast<const Inner&>(x.x));
            }
            CHECK(CONTENT, iv(x.x) == catalogue[o.p], "the argument was changed");
            nA.assign(o.q, catalogue[o.p]);
            req = nA;
            break;
        }
        case ASSIGN_B:
        {
            {
                Arm arm(fault);
                a.assign_nothrow(err, b.cbegin(), b.cend());
            }
            nA = B;
            req = nA;
            break;
        }
        case EMPLACE0:
        {
            {
                Arm arm(fault);
                a.emplace_back_nothrow(err);
            }
            nA.push_back(Seq());
            strong = true;
            break;
        }
        case IN_PUSH:
        {
            Arg x(o.q);
            {
                Arm arm(fault);
                at(a, o.p)->push_back_nothrow(err, static_cast<const T&>(x.x));
            }
            nA[o.p].push_back(o.q);
            strong = true;
            break;
        }
        case IN_CLEAR:
        {
            {
                Arm arm(fault);
                at(a, o.p)->clear();
            }
            nA[o.p].clear();
            fallible = false;
            break;
        }
#endif
#if OUT_VEC
        case RESIZE:
        {
            {
                Arm arm(fault);
                a.resize_nothrow(err, (size_t)o.p);
            }
            nA.resize(o.p);
            req.push_back(Seq());
            break;
        }
        case RESIZE_V:
        {
            InArg x(catalogue[o.p]);
            {
                Arm arm(fault);
                a.resize_nothrow(err, (size_t)o.q, static_cast<const Inner&>(x.x));
            }
            nA.resize(o.q, catalogue[o.p]);
            req.push_back(catalogue[o.p]);
            break;
        }
        case RESERVE:
        {
            {
                Arm arm(fault);
                a.reserve_nothrow(err, A.size() + 1);
            }
            strong = true;
            break;
        }
        case SHRINK:
        {
            {
                Arm arm(fault);
                a.shrink_to_fit_nothrow(err);
            }
            strong = true;
            break;
        }
#else
        case ERASE:
        {
            {
                Arm arm(fault);
                auto r = a.erase(at(a, o.p));
                G.armed = false;
                ret = index_of(a, r);
                expect = o.p;
            }
            nA.erase(nA.begin() + o.p);
            fallible = false;
            break;
        }
#endif
#if OUT_LIST
        case POP:
        {
            {
                Arm arm(fault);
                a.pop_back();
            }
            nA.pop_back();
            fallible = false;
            break;
        }
#endif
        case CLEAR:
        {
            {
                Arm arm(fault);
                a.clear();
            }
            nA.clear();
            fallible = false;
            break;
        }
        case B_PUSH:
        {
            InArg x(catalogue[o.p]);
            target_b = true;
            {
                Arm arm(fault);
#if OUT_SET
                b.insert_nothrow(err, static_cast<const Inner&>(x.x));
#else
                b.push_back_nothrow(err, static_cast<const Inner&>(x.x));
#endif
            }
            if (!OUT_SET || std::find(nB.begin(), nB.end(), catalogue[o.p]) == nB.end())
            {
                nB.push_back(catalogue[o.p]);
                if (OUT_SET)
                {
                    std::sort(nB.begin(), nB.end());
                }
            }
            strong = true;
            break;
        }
        case COPY_AB:
        case COPY_BA:
        {
            target_b = o.kind == COPY_BA;
            {
                Arm arm(fault);
                (target_b ? b : a).copy_nothrow(err, target_b ? a : b);
            }
            (target_b ? nB : nA) = target_b ? A : B;
            req = target_b ? A : B;
            break;
        }
        case MOVE_AB:
        case MOVE_BA:
        {
            {
                Arm arm(fault);
                if (o.kind == MOVE_AB)
                {
                    a = std::move(b);
                    nA = B;
                    nB.clear();
                }
                else
                {
                    b = std::move(a);
                    nB = A;
                    nA.clear();
                }
            }
            CHECK(NOCOST, G.n_copy == 0 && G.n_alloc == 0, "a move copied or requested memory");
            fallible = false;
            break;
        }
        case SHARED:
        {
            InArg x(catalogue[o.p]);
            {
                OAlloc al = make_oalloc(3);
                Arm arm(fault);
                auto p = nestl::make_shared_a_nothrow<Inner>(err, al, static_cast<const Inner&>(x.x));
                G.armed = false;
                CHECK(CONTENT, (bool)p == !err, "creation %s but the pointer is %s", err ? "failed" : "succeeded", p ? "set" : "empty");
                if (p)
                {
                    CHECK(CONTENT, iv(*p) == catalogue[o.p], "the shared copy holds %s", str(iv(*p)).c_str());
                }
                CHECK(CONTENT, iv(x.x) == catalogue[o.p], "the argument was changed");
            }
            strong = true;
            break;
        }
        default:
            die("unknown operation");
        }
        bool failed = false;
        if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
        }
        M sa = snap(a), sb = snap(b);
        if (!failed)
        {
            CHECK(RET, expect < 0 || ret == expect, "returned %ld, expected %ld", ret, expect);
            CHECK(CONTENT, sa == nA, "a holds %s, expected %s", mstr(sa).c_str(), mstr(nA).c_str());
            CHECK(CONTENT, sb == nB, "b holds %s, expected %s", mstr(sb).c_str(), mstr(nB).c_str());
            CHECK(CONTENT, a.size() == nA.size() && b.size() == nB.size(), "sizes are %zu and %zu", (size_t)a.size(), (size_t)b.size());
        }
        else
        {
            M& st = target_b ? sb : sa;
            M& mt = target_b ? B : A;
            if (strong)
            {
                CHECK(STRONG, st == mt, "after the failure it holds %s, before it held %s", mstr(st).c_str(), mstr(mt).c_str());
            }
            else
            {
                for (auto& s : st)
                {
                    bool ok = std::find(mt.begin(), mt.end(), s) != mt.end() || std::find(req.begin(), req.end(), s) != req.end();
                    CHECK(BASIC, ok, "after the failure it holds %s: neither from old %s nor requested %s", mstr(st).c_str(), mstr(mt).c_str(),
                          mstr(req).c_str());
                }
            }
            CHECK(BASIC, (target_b ? sa : sb) == (target_b ? A : B), "the failure changed the other container");
        }
        if (!G.nviol)
        {
            independent();
        }
        A = sa;
        B = sb;
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        for (M* m : {&A, &B})
        {
            ob.add(m->size());
            for (auto& s : *m)
            {
                ob.add(s);
            }
        }
        ob.add(G.n_alloc);
        G.obs = ob.get();
    }
    void key(Hasher& h, bool obs)
    {
        for (M* m : {&A, &B})
        {
            h.add(m->size());
            for (auto& s : *m)
            {
                h.add(s.size());
                for (int v : s)
                {
                    h.add(v);
                }
            }
        }
        // capacities and allocators are the only further state (stale bytes in unused storage are not)
        (void)obs;
        h.add(alloc_id(R->a.get_allocator(), 0));
        h.add(alloc_id(R->b.get_allocator(), 0));
#if OUT_VEC
        h.add(R->a.capacity());
        h.add(R->b.capacity());
#endif
        for (const Outer* o : {&R->a, &R->b})
        {
            for (auto& x : *o)
            {
                h.add(alloc_id(x.get_allocator(), 0));
#if !IN_LIST
                h.add(x.capacity());
#endif
            }
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::NestWorld>(argc, argv, "nested");
}
