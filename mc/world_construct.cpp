// Which construction path is taken: argument kinds x constructor sets x noexceptness x the operation that
// constructs, with a failure at every fault point.
#include "common.hpp"
#include <initializer_list>
#include <nestl/class_operations.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/vector.hpp>

namespace mc
{
static std::vector<std::string> trace;
static void tr(const char* s)
{
    if (G.armed)
    {
        trace.push_back(s);
    }
}

struct P // a parameter whose value category is visible
{
    int n;
    bool moved = false;
    explicit P(int k)
        : n(k)
    {
    }
    P(const P& o)
        : n(o.n)
    {
        tr("P copied");
    }
    P(P&& o) noexcept
        : n(o.n)
    {
        o.moved = true;
        tr("P moved");
    }
};

// K: identity; the set of ways to build it is encoded in the types below
struct Base0
{
    int sum = 0;
    Base0()
    {
    }
    Base0(const Base0&) = delete;
    Base0& operator=(const Base0&) = delete;
};
#define LIFECYCLE(X)                                   \
    void born() noexcept                               \
    {                                                  \
        reg_ctor(this, sizeof(X), alignof(X));         \
    }                                                  \
    ~X() noexcept                                      \
    {                                                  \
        tr("~");                                       \
        reg_dtor(this);                                \
    }
#define MAYFAIL(K)                           \
    do                                       \
    {                                        \
        if (Thrower<false>::fails(K))        \
        {                                    \
            Thrower<false>::raise();         \
        }                                    \
    } while (0)

// every constructor is nothrow; no two-phase form
struct Direct : Base0
{
    LIFECYCLE(Direct)
    // braces would select this one
    Direct(std::initializer_list<int> l) noexcept
    {
        tr("{}");
        sum = -(int)l.size();
        born();
    }
    Direct() noexcept
    {
        tr("()");
        born();
    }
    Direct(int a) noexcept
    {
        tr("(int)");
        sum = a;
        born();
    }
    Direct(int a, const P& p) noexcept
    {
        tr("(int,const P&)");
        sum = a + p.n;
        born();
    }
    Direct(int a, P&& p) noexcept
    {
        tr("(int,P&&)");
        sum = a + p.n;
        p.moved = true;
        born();
    }
    Direct(int a, P& p) noexcept
    {
        tr("(int,P&)");
        sum = a + p.n;
        born();
    }
};
// constructors and a two-phase form for the same arguments: the constructor wins; (P,P) only two-phase
struct Both : Base0
{
    LIFECYCLE(Both)
    // braces would select this one
    Both(std::initializer_list<int> l) noexcept
    {
        tr("{}");
        sum = -(int)l.size();
        born();
    }
    Both() noexcept
    {
        tr("()");
        born();
    }
    explicit Both(int a) noexcept
    {
        tr("(int)");
        sum = a;
        born();
    }
    Both(int a, const P& p) noexcept
    {
        tr("(int,const P&)");
        sum = a + p.n;
        born();
    }
};
// default constructor, everything else two-phase
struct Two : Base0
{
    LIFECYCLE(Two)
    Two() noexcept
    {
        tr("()");
        born();
    }
};
#if MC_EX
// throwing constructors
struct Throwing : Base0
{
    LIFECYCLE(Throwing)
    // braces would select this one
    Throwing(std::initializer_list<int> l)
    {
        tr("{}");
        sum = -(int)l.size();
        born();
    }
    Throwing()
    {
        tr("()");
        MAYFAIL(F_DEFCTOR);
        born();
    }
    Throwing(int a)
    {
        tr("(int)");
        MAYFAIL(F_ARGCTOR);
        sum = a;
        born();
    }
    Throwing(int a, const P& p)
    {
        tr("(int,const P&)");
        MAYFAIL(F_ARGCTOR);
        sum = a + p.n;
        born();
    }
    Throwing(int a, P&& p)
    {
        tr("(int,P&&)");
        MAYFAIL(F_ARGCTOR);
        p.moved = true;
        sum = a + p.n;
        born();
    }
    Throwing(int a, P& p)
    {
        tr("(int,P&)");
        MAYFAIL(F_ARGCTOR);
        sum = a + p.n;
        born();
    }
};
// throwing default constructor followed by a two-phase form
struct ThrowTwo : Base0
{
    LIFECYCLE(ThrowTwo)
    ThrowTwo()
    {
        tr("()");
        MAYFAIL(F_DEFCTOR);
        born();
    }
};
#endif
template <class X>
struct TwoInit
{
    template <class E>
    static bool bad(E& err)
    {
        if (fault_point(F_INIT))
        {
            set_user_error(err, G.fired_token);
            return true;
        }
        return false;
    }
    template <class E>
    static void init(E& err, X& x, int a) noexcept
    {
        tr("init(int)");
        reg_use(std::addressof(x), "initialisation");
        if (!bad(err))
        {
            x.sum = a;
        }
    }
    template <class E>
    static void init(E& err, X& x, int a, const P& p) noexcept
    {
        tr("init(int,const P&)");
        reg_use(std::addressof(x), "initialisation");
        if (!bad(err))
        {
            x.sum = a + p.n;
        }
    }
    template <class E>
    static void init(E& err, X& x, int a, P&& p) noexcept
    {
        tr("init(int,P&&)");
        reg_use(std::addressof(x), "initialisation");
        if (!bad(err))
        {
            x.sum = a + p.n;
            p.moved = true;
        }
    }
    template <class E>
    static void init(E& err, X& x, const P& p, const P& q) noexcept
    {
        tr("init(const P&,const P&)");
        reg_use(std::addressof(x), "initialisation");
        if (!bad(err))
        {
            x.sum = p.n + q.n;
        }
    }
};
} // namespace mc
namespace nestl
{
template <>
struct two_phase_initializator<mc::Two> : mc::TwoInit<mc::Two>
{
};
template <>
struct two_phase_initializator<mc::Both> : mc::TwoInit<mc::Both>
{
};
#if MC_EX
template <>
struct two_phase_initializator<mc::ThrowTwo> : mc::TwoInit<mc::ThrowTwo>
{
};
#endif
} // namespace nestl

namespace mc
{
enum ArgKind
{
    AK_NONE,
    AK_INT,
    AK_INT_CP,
    AK_INT_PR,
    AK_INT_PL,
    AK_PP,
    NAK
};
static const char* const arg_name[] = {"()", "(int)", "(int, const P lvalue)", "(int, P rvalue)", "(int, P lvalue)", "(const P lvalue, const P lvalue)"};
enum Route
{
    RAW,
    L_BACK,
    L_FRONT,
    L_MID,
    SHARED,
    NROUTE
};
static const char* const route_name[] = {"construct", "list emplace_back", "list emplace_front", "list emplace in the middle", "make_shared_a"};
enum TypeId
{
    TY_DIRECT,
    TY_BOTH,
    TY_TWO,
#if MC_EX
    TY_THROW,
    TY_THROWTWO,
#endif
    NTY
};
static const char* const type_name[] = {"Direct", "Both", "Two", "Throwing", "ThrowTwo"};

// what must happen, and does the combination exist at all
struct Want
{
    bool ok;
    std::vector<std::string> t;
    int sum;
    bool moved;
};
static Want want(int ty, int ak)
{
    static const char* const direct[NAK] = {"()", "(int)", "(int,const P&)", "(int,P&&)", "(int,P&)", ""};
    Want w{true, {}, 0, false};
    w.sum = ak == AK_NONE ? 0 : ak == AK_INT ? 5 : ak == AK_PP ? 7 : 5 + 3;
    w.moved = ak == AK_INT_PR;
    switch (ty)
    {
    case TY_DIRECT:
#if MC_EX
    case TY_THROW:
#endif
        w.ok = ak != AK_PP;
        w.t = {direct[ak]};
        break;
    case TY_BOTH:
        if (ak == AK_PP)
        {
            w.t = {"()", "init(const P&,const P&)"};
        }
        else
        {
            w.t = {ak == AK_NONE ? "()" : ak == AK_INT ? "(int)" : "(int,const P&)"};
        }
        w.moved = false;
        break;
    default:
        if (ak == AK_NONE)
        {
            w.t = {"()"};
        }
        else
        {
            w.t = {"()", ak == AK_INT ? "init(int)" : ak == AK_INT_PR ? "init(int,P&&)" : ak == AK_PP ? "init(const P&,const P&)" : "init(int,const P&)"};
        }
        break;
    }
    return w;
}

struct Case
{
    int ty, ak, route;
};

struct ConsWorld
{
    std::vector<Case> cases;
    void setup()
    {
        for (int ty = 0; ty < (O.param("common", 0) ? TY_TWO + 1 : NTY); ++ty)
        {
            for (int ak = 0; ak < NAK; ++ak)
            {
                if (!want(ty, ak).ok)
                {
                    continue;
                }
                for (int r = 0; r < NROUTE; ++r)
                {
                    cases.push_back(Case{ty, ak, r});
                }
            }
        }
    }
    unsigned tag(uint32_t) const
    {
        return T_GEN;
    }
    int kind(uint32_t op) const
    {
        return cases[op].route;
    }
    std::string kind_name(int k) const
    {
        return route_name[k];
    }
    std::string name(uint32_t op) const
    {
        const Case& c = cases[op];
        return std::string(route_name[c.route]) + " " + type_name[c.ty] + arg_name[c.ak];
    }
    bool leaf(uint32_t) const
    {
        return true;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < cases.size(); ++i)
        {
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
    }
    void end()
    {
    }
    void key(Hasher& h, bool)
    {
        h.add(1);
    }

    template <class F>
    static auto with_args(int ak, P& p, const P& cp, const P& cq, F f, int) -> typename std::enable_if<F::has_pp && F::has_int>::type
    {
        switch (ak)
        {
        case AK_NONE:
            f();
            break;
        case AK_INT:
            f(5);
            break;
        case AK_INT_CP:
            f(5, cp);
            break;
        case AK_INT_PR:
            f(5, std::move(p));
            break;
        case AK_INT_PL:
            f(5, p);
            break;
        default:
            f(cp, cq);
        }
    }
    template <class F>
    static auto with_args(int ak, P& p, const P& cp, const P&, F f, int) -> typename std::enable_if<!F::has_pp && F::has_int>::type
    {
        switch (ak)
        {
        case AK_NONE:
            f();
            break;
        case AK_INT:
            f(5);
            break;
        case AK_INT_CP:
            f(5, cp);
            break;
        case AK_INT_PR:
            f(5, std::move(p));
            break;
        default:
            f(5, p);
        }
    }

    template <class X, bool PP>
    struct RawF
    {
        static const bool has_pp = PP, has_int = true;
        Err& err;
        X* p;
        template <class... A>
        void operator()(A&&... a) const
        {
            nestl::class_operations::construct(err, p, std::forward<A>(a)...);
        }
    };
    template <class X, bool PP>
    struct ListF
    {
        static const bool has_pp = PP, has_int = true;
        typedef nestl::no_exceptions::list<X, TrackAlloc<X>> L;
        Err& err;
        L& l;
        int route;
        long& ret;
        template <class... A>
        void operator()(A&&... a) const
        {
            if (route == L_BACK)
            {
                l.emplace_back_nothrow(err, std::forward<A>(a)...);
            }
            else if (route == L_FRONT)
            {
                l.emplace_front_nothrow(err, std::forward<A>(a)...);
            }
            else
            {
                auto pos = l.begin();
                ++pos;
                auto it = l.emplace_nothrow(err, pos, std::forward<A>(a)...);
                ret = std::distance(l.begin(), it);
            }
        }
    };
    template <class X, bool PP>
    struct SharedF
    {
        static const bool has_pp = PP, has_int = true;
        Err& err;
        TrackAlloc<X>& al;
        nestl::shared_ptr<X>& out;
        template <class... A>
        void operator()(A&&... a) const
        {
            out = nestl::make_shared_a_nothrow<X>(err, al, std::forward<A>(a)...);
        }
    };

    template <class X, bool PP>
    void go(const Case& c, int fault)
    {
        Want w = want(c.ty, c.ak);
        P p(3), cpv(3);
        const P& cp = cpv;
        const P cq(4);
        Err err;
        trace.clear();
        if (c.route == RAW)
        {
            void* mem = arena_alloc(sizeof(X), 1, 5);
            X* x = (X*)mem;
            {
                Arm arm(fault);
                with_args(c.ak, p, cp, cq, RawF<X, PP>{err, x}, 0);
            }
            finish(w, err, p);
            if (!err && reg_alive(x))
            {
                CHECK(PATH, x->sum == w.sum, "built with %d, expected %d", x->sum, w.sum);
                x->~X();
            }
            CHECK(LIFE, E_live == 0, "a failed construction left an object behind");
            arena_free(mem, 1, 5, true);
        }
        else if (c.route == SHARED)
        {
            nestl::shared_ptr<X> sp;
            TrackAlloc<X> al(4);
            {
                Arm arm(fault);
                with_args(c.ak, p, cp, cq, SharedF<X, PP>{err, al, sp}, 0);
            }
            finish(w, err, p);
            CHECK(CONTENT, (bool)sp == !err, "make_shared %s but the pointer is %s", err ? "failed" : "succeeded", sp ? "set" : "empty");
            if (sp)
            {
                CHECK(PATH, sp->sum == w.sum, "built with %d, expected %d", sp->sum, w.sum);
            }
        }
        else
        {
            typedef nestl::no_exceptions::list<X, TrackAlloc<X>> L;
            L l(TrackAlloc<X>(3));
            Err e0;
            l.emplace_back_nothrow(e0);
            l.emplace_back_nothrow(e0);
            X* o0 = std::addressof(l.front());
            X* o1 = std::addressof(l.back());
            long ret = -1;
            trace.clear();
            {
                Arm arm(fault);
                with_args(c.ak, p, cp, cq, ListF<X, PP>{err, l, c.route, ret}, 0);
            }
            finish(w, err, p);
            size_t want_n = err ? 2 : 3;
            CHECK(STRONG, l.size() == want_n, "the list has %zu elements, expected %zu", (size_t)l.size(), want_n);
            if (l.size() == want_n)
            {
                std::vector<X*> got, exp;
                for (auto& x : l)
                {
                    got.push_back(std::addressof(x));
                }
                size_t at = c.route == L_BACK ? 2 : c.route == L_FRONT ? 0 : 1;
                exp = {o0, o1};
                if (!err)
                {
                    exp.insert(exp.begin() + at, got[at]);
                    CHECK(PATH, got[at]->sum == w.sum, "built with %d, expected %d", got[at]->sum, w.sum);
                    CHECK(RET, ret < 0 || ret == (long)at, "emplace returned position %ld", ret);
                }
                CHECK(STABLE, got == exp, "the old elements moved");
            }
        }
    }
    void finish(const Want& w, const Err& err, const P& p)
    {
        check_error(err);
        std::vector<std::string> exp = w.t;
        if (err)
        {
            // prefix of the path up to the failed step, then destruction of what was built
            std::string f = fault_name[G.fired ? G.fired - 1 : 0];
            if (f == "alloc")
            {
                exp.clear();
            }
            else if (f == "init")
            {
                exp.push_back("~");
            }
            else
            {
                exp.resize(1);
            }
        }
        std::string a, b;
        for (auto& s : trace)
        {
            a += s + " ";
        }
        for (auto& s : exp)
        {
            b += s + " ";
        }
        CHECK(PATH, a == b, "construction path: %s, expected: %s", a.c_str(), b.c_str());
        CHECK(PATH, err || p.moved == w.moved, "the rvalue argument was %s", p.moved ? "taken though not asked for" : "not passed on as an rvalue");
        Obs ob;
        ob.add((bool)err);
        ob.add(obs_cause(err));
        ob.add(trace.size());
        G.obs = ob.get();
    }
    void apply(uint32_t op, int fault)
    {
        const Case& c = cases[op];
        switch (c.ty)
        {
        case TY_DIRECT:
            go<Direct, false>(c, fault);
            break;
        case TY_BOTH:
            go<Both, true>(c, fault);
            break;
        case TY_TWO:
            go<Two, true>(c, fault);
            break;
#if MC_EX
        case TY_THROW:
            go<Throwing, false>(c, fault);
            break;
        default:
            go<ThrowTwo, true>(c, fault);
#endif
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::ConsWorld>(argc, argv, "construct");
}
