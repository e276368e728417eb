// Two sets (a and b) with stateful comparators under every history, with every fault point.
// Keys are only ever seen by the comparator, so contents are renamed to their ranks after each step:
// the search covers every reachable tree over any keys, up to the size bound.
#ifndef CFG_POCCA
#define CFG_POCCA 0 // copying a set brings the allocator along
#endif
#include "common.hpp"
#include <nestl/set.hpp>

namespace mc
{

struct Rec // what comparators looked at
{
    bool on = false;
    std::vector<const T*> seen;
    long calls = 0;
    void start()
    {
        on = true;
        seen.clear();
        calls = 0;
    }
    size_t stop(const T* probe)
    {
        on = false;
        std::sort(seen.begin(), seen.end());
        seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
        size_t n = seen.size();
        if (std::binary_search(seen.begin(), seen.end(), probe))
        {
            --n;
        }
        return n;
    }
};
static Rec rec;

static bool cmp_faults; // assigning a comparator is a point of failure (only while a set is copied)
typedef Thrower<CFG_ELEM != 2> CmpTh;
struct Cmp
{
    int dir;
    explicit Cmp(int d = 7)
        : dir(d)
    {
    }
    Cmp(const Cmp&) = default;
    Cmp& operator=(const Cmp& o) noexcept(CFG_ELEM != 2 || !MC_EX)
    {
        if (cmp_faults && CmpTh::fails(F_ASSIGN))
        {
            CmpTh::raise();
        }
        dir = o.dir;
        return *this;
    }
    bool operator()(const T& x, const T& y) const
    {
        if (rec.on)
        {
            rec.seen.push_back(std::addressof(x));
            rec.seen.push_back(std::addressof(y));
            ++rec.calls;
        }
        int a = ET::val(x), b = ET::val(y);
        return dir == 1 ? a < b : dir == -1 ? b < a : (violate(CONTENT, "a default-constructed comparator was used"), a < b);
    }
};

#if CFG_WRAP
typedef nestl::set<T, Cmp, Alloc> Set;
#else
typedef nestl::no_exceptions::set<T, Cmp, Alloc> Set;
#endif
#define COPYABLE (CFG_ELEM != 6)

// at most `descents` root-to-leaf descents of 2*log2(n+1) keys
inline bool log_ok(size_t count, size_t n, int descents)
{
    double r = 1;
    for (int i = 0; i < descents; ++i)
    {
        r *= (double)(n + 1) * (double)(n + 1);
    }
    double p = 1;
    for (size_t i = 0; i < count && p < 1e300; ++i)
    {
        p *= 2;
    }
    return p <= r;
}

enum Kind
{
    INS_L,
    INS_R,
    DUP_L,
    DUP_R,
    ERASE_KEY,
    ERASE_MISS,
    ERASE_POS,
    ERASE_ALL,
    CLEAR,
    COPY_AB,
    COPY_BA,
    INS_B,
    ERASE_B,
    MOVE_AB,
    MOVE_BA,
    MOVECTOR,
    MOVEDEF,
    AL_INS,
    AL_ERASE,
    AL_COPY,
    AL_MOVE,
    PREP
};

template <class X>
typename std::enable_if<ElTraits<X>::tracked>::type set_t(X& x, int t)
{
    x.t = t;
}
template <class X>
typename std::enable_if<!ElTraits<X>::tracked>::type set_t(X&, int)
{
}

struct Roots
{
    Set a, b;
    Roots(int da, int ia, int db, int ib)
        : a(Cmp(da), make_alloc(ia)), b(Cmp(db), make_alloc(ib))
    {
    }
};

struct Item
{
    int v; // value
    const T* p;
    uint32_t st;
};
typedef std::vector<Item> LSeq;
inline Item fresh(int v)
{
    return Item{v, nullptr, 0};
}
inline Seq vals(const LSeq& s)
{
    Seq r;
    for (auto& i : s)
    {
        r.push_back(i.v);
    }
    return r;
}

struct SetWorld : WorldBase
{
    int MAXN, MAXB;
    bool MID;      // start from prepared sets
    bool prepared; // a prepared state was chosen
    Roots* R;
    LSeq A, B;
    int ia, ib, da, db;

    // order value -> stored value
    static int real(int dir, int o)
    {
        return dir == 1 ? o : 10000 - o;
    }

    void setup()
    {
        MAXN = O.param("maxn", 8);
        MAXB = O.param("maxb", 0);
        const unsigned G1 = T_GEN, M = T_MOVE, L = T_ALIAS;
        MID = O.param("mid", 0) != 0;
        if (MID)
        {
            MAXN = MAXB = 40;
            for (int n : mid_sizes())
            {
                if (n > O.param("mid", 0))
                {
                    break;
                }
                for (int v = 0; v < 4; ++v) // ascending, descending, inside-out, ascending then every third erased
                {
                    add(PREP, "start with size,order,size of b", T_SEED, n, v, v == 1 ? 3 : n + v, 3);
                }
            }
        }
        for (int g = 0; g < MAXN; ++g)
        {
            if (COPYABLE)
            {
                add(INS_L, "insert_nothrow(new lvalue at rank)", G1, g, 0, 0, 1);
                add(DUP_L, "insert_nothrow(equivalent lvalue of rank)", G1, g, 0, 0, 1);
            }
            add(INS_R, "insert_nothrow(new rvalue at rank)", G1, g, 0, 0, 1);
            add(DUP_R, "insert_nothrow(equivalent rvalue of rank)", G1, g, 0, 0, 1);
            add(ERASE_KEY, "erase(key of rank)", G1, g, 0, 0, 1);
            add(ERASE_MISS, "erase(absent key at rank)", G1, g, 0, 0, 1);
            add(ERASE_POS, "erase(position)", G1, g, 0, 0, 1);
            if (COPYABLE)
            {
                add(AL_INS, "insert_nothrow(own key of rank)", L, g, 0, 0, 1);
            }
            add(AL_ERASE, "erase(reference to own key of rank)", L, g, 0, 0, 1);
        }
        add(ERASE_MISS, "erase(absent key at rank)", G1, MAXN, 0, 0, 1);
        add(CLEAR, "clear", G1);
        if (MAXB)
        {
            for (int g = 0; g < MAXB; ++g)
            {
                add(INS_B, "b.insert_nothrow(new at rank)", G1, g, 0, 0, 1);
                add(ERASE_B, "b.erase(position)", G1, g, 0, 0, 1);
            }
            if (COPYABLE)
            {
                add(COPY_AB, "a.copy_nothrow(b)", G1);
                add(COPY_BA, "b.copy_nothrow(a)", G1);
            }
            add(MOVE_AB, "a=move(b)", M);
            add(MOVE_BA, "b=move(a)", M);
        }
        add(MOVECTOR, "c(move(a)); a=move(c)", M);
        add(MOVEDEF, "default-constructed c=move(a); a=move(c)", M);
        if (COPYABLE)
        {
            add(AL_COPY, "a.copy_nothrow(a)", L);
        }
        add(AL_MOVE, "a=move(a)", L);
    }

    bool can(const OpDef& o) const
    {
        int n = (int)A.size(), m = (int)B.size();
        if (MID)
        {
            if (!prepared || o.kind == PREP)
            {
                return !prepared && o.kind == PREP;
            }
            if ((o.kind == INS_B || o.kind == ERASE_B) && !sparse(o.p, m))
            {
                return false;
            }
        }
        switch (o.kind)
        {
        case INS_L:
        case INS_R:
            return n < MAXN && o.p <= n;
        case DUP_L:
        case DUP_R:
        case ERASE_KEY:
        case ERASE_POS:
        case AL_INS:
        case AL_ERASE:
            return o.p < n;
        case ERASE_MISS:
            return o.p <= n;
        case INS_B:
            return m < MAXB && o.p <= m;
        case ERASE_B:
            return o.p < m;
        case COPY_BA:
        case MOVE_BA:
            return n <= MAXB;
        default:
            return true;
        }
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }

    void begin()
    {
        A.clear();
        B.clear();
        prepared = false;
        ia = 1;
        ib = 2;
        da = 1;
        db = -1;
        rec.on = false;
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots(da, ia, db, ib);
        if (G.checking)
        {
            verify("a", R->a, A, da, ia, CONTENT);
            verify("b", R->b, B, db, ib, CONTENT);
        }
    }
    void end()
    {
        R->~Roots();
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }

    static LSeq snap(const Set& l)
    {
        LSeq s;
        for (auto it = l.cbegin(); it != l.cend() && s.size() < 200; ++it)
        {
            const T* p = std::addressof(*it);
            s.push_back(Item{ET::val(*it), p, stamp_of(p)});
        }
        return s;
    }

    void verify(const char* w, Set& l, const LSeq& m, int dir, int id, Cat cat)
    {
        const Set& c = l;
        size_t n = m.size();
        LSeq s = snap(c);
        CHECK(cat, vals(s) == vals(m), "%s: holds %s, expected %s", w, str(vals(s)).c_str(), str(vals(m)).c_str());
        if (vals(s) != vals(m))
        {
            return;
        }
        for (size_t i = 0; i < n; ++i)
        {
            if (m[i].p)
            {
                CHECK(STABLE, s[i].p == m[i].p, "%s: element %zu of %s is at another address", w, i, str(vals(m)).c_str());
                CHECK(STABLE, !ET::tracked || s[i].st == m[i].st, "%s: element %zu of %s was rebuilt or assigned", w, i, str(vals(m)).c_str());
            }
        }
        CHECK(cat, c.size() == n, "%s: size is %zu, expected %zu", w, (size_t)c.size(), n);
        CHECK(cat, c.empty() == (n == 0), "%s: empty() is %d with %zu elements", w, (int)c.empty(), n);
        {
            auto i1 = l.begin();
            auto i2 = c.begin();
            auto i3 = l.rbegin();
            auto i4 = c.rbegin();
            auto i5 = c.crbegin();
            auto b1 = l.end();
            auto b2 = c.cend();
            for (size_t i = 0; i < n; ++i)
            {
                --b1;
                b2--;
                const T *e = s[i].p, *r = s[n - 1 - i].p;
                bool good = std::addressof(*i1) == e && std::addressof(*i2) == e && std::addressof(*i3) == r && std::addressof(*i4) == r &&
                            std::addressof(*i5) == r && std::addressof(*b1) == r && std::addressof(*b2) == r;
                good = good && i1 != l.end() && i2 != c.end();
                CHECK(cat, good, "%s: traversals disagree at %zu of %s", w, i, str(vals(m)).c_str());
                if (!good)
                {
                    return;
                }
                ++i1;
                i2++;
                ++i3;
                ++i4;
                ++i5;
            }
            bool done = i1 == l.end() && i2 == c.end() && i3 == l.rend() && i4 == c.rend() && i5 == c.crend() && b1 == l.begin() && b2 == c.cbegin();
            CHECK(cat, done, "%s: a traversal of %s does not end where it should", w, str(vals(m)).c_str());
        }
        // find every key and every absent key between; measure descents
        size_t longest = 0, shortest = (size_t)-1, lkey = 0;
        (void)lkey;
        // stored values after renaming are real(dir, 2r+1); between steps arbitrary but ordered
        for (size_t g = 0; g <= 2 * n; ++g)
        {
            int v;
            if (g % 2)
            {
                v = m[g / 2].v;
            }
            else
            {
                // a value strictly between neighbours (values are spaced by 2 around inserted ones)
                int lo = g == 0 ? (n ? real(dir, 0) - 5 * dir : 0) : m[g / 2 - 1].v;
                int hi = g == 2 * n ? (n ? m[n - 1].v + 10 * dir : 1) : m[g / 2].v;
                if (g == 0 && n)
                {
                    lo = m[0].v - 10 * dir;
                    hi = m[0].v;
                }
                v = (lo + hi) / 2;
                if (n && (v == lo || v == hi) && !(g == 0 || g == 2 * n))
                {
                    continue;
                }
            }
            Arg x(v);
            rec.start();
            auto it = l.find(x.x);
            size_t d = rec.stop(std::addressof(x.x));
            auto ci = c.find(x.x);
            bool good = g % 2 ? (it != l.end() && std::addressof(*it) == s[g / 2].p && ci != c.end() && std::addressof(*ci) == s[g / 2].p)
                              : (it == l.end() && ci == c.end());
            CHECK(RET, good, "%s: find of %s key %d in %s is wrong", w, g % 2 ? "stored" : "absent", v, str(vals(m)).c_str());
            CHECK(BALANCE, log_ok(d, n, 1), "%s: a search in a set of %zu keys examined %zu keys", w, n, d);
            if (g % 2 == 0)
            {
                longest = std::max(longest, d);
                shortest = std::min(shortest, d);
            }
        }
        CHECK(BALANCE, n == 0 || shortest == (size_t)-1 || longest <= 2 * shortest, "%s: descents of %zu and %zu keys in the same set of %zu", w, longest,
              shortest, n);
        CHECK(ALLOCID, alloc_id(c.get_allocator(), id) == id, "%s: get_allocator() has identity %d, expected %d", w,
              alloc_id(c.get_allocator(), id), id);
        if (ALLOC_TRACKED)
        {
            for (size_t i = 0; i < n; ++i)
            {
                Block* b = find_block(s[i].p);
                CHECK(LIFE, b && b->live, "%s: element %zu is not in a live block", w, i);
                if (b && b->live)
                {
                    CHECK(ALLOCID, b->aid == id, "%s: element %zu came from allocator %d, the set's is %d", w, i, b->aid, id);
                }
            }
        }
    }

    template <class It>
    static long index_of(Set& l, It it)
    {
        long i = 0;
        auto x = l.cbegin();
        typename Set::const_iterator y = it;
        for (; i < 200; ++x, ++i)
        {
            if (x == y)
            {
                return i;
            }
            if (x == l.cend())
            {
                break;
            }
        }
        return -2;
    }
    static typename Set::const_iterator at(const Set& l, int i)
    {
        auto it = l.cbegin();
        std::advance(it, i);
        return it;
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Set& a = R->a;
        Set& b = R->b;
        const int n = (int)A.size();
        A = snap(a);
        B = snap(b);
        LSeq nA = A, nB = B;
        int nia = ia, nib = ib, nda = da, ndb = db;
        Seq req;
        bool strong = false, target_b = false, fallible = true, nocost = false, relaxed = false, overwrite = false;
        long expect_dtor = -1, ret = -1, expect_ret = -1;
        int flag = -1, expect_flag = -1;
        unsigned aids = 1u << ia;
        Err err;

        switch (o.kind)
        {
        case PREP:
        {
            std::vector<int> order;
            int total = o.q == 3 ? o.p + o.p / 2 : o.p;
            for (int i = 0; i < total; ++i)
            {
                order.push_back(o.q == 1 ? total - 1 - i : o.q == 2 ? (i % 2 ? total / 2 + (i + 1) / 2 : total / 2 - i / 2) : i);
            }
            if (o.q == 2)
            {
                std::set<int> seen;
                std::vector<int> kept;
                for (int i : order)
                {
                    i = ((i % total) + total) % total;
                    if (seen.insert(i).second)
                    {
                        kept.push_back(i);
                    }
                }
                for (int i = 0; i < total; ++i)
                {
                    if (seen.insert(i).second)
                    {
                        kept.push_back(i);
                    }
                }
                order = kept;
            }
            std::set<int> have;
            for (int i : order)
            {
                Arg x(real(da, 4 * i));
                Arm arm(0);
                a.insert_nothrow(err, std::move(x.x));
                have.insert(i);
            }
            for (int i = 1; i < total && (int)have.size() > o.p; i += 3)
            {
                Arg x(real(da, 4 * i));
                Arm arm(0);
                a.erase(x.x);
                have.erase(i);
            }
            for (int i : have)
            {
                nA.push_back(fresh(real(da, 4 * i)));
            }
            for (int i = 0; i < o.r; ++i)
            {
                Arg x(real(db, 4 * i));
                Arm arm(0);
                b.insert_nothrow(err, std::move(x.x));
                nB.push_back(fresh(real(db, 4 * i)));
            }
            aids |= 1u << ib;
            G.fault_cnt = 0;
            prepared = true;
            break;
        }
        case INS_L:
        case INS_R:
        {
            Arg x(real(da, 4 * o.p));
            size_t d;
            rec.start();
            {
                Arm arm(fault);
#if COPYABLE
                const T& cx = x.x;
                auto r = o.kind == INS_L ? a.insert_nothrow(err, cx) : a.insert_nothrow(err, std::move(x.x));
#else
                auto r = a.insert_nothrow(err, std::move(x.x));
#endif
                G.armed = false;
                d = rec.stop(std::addressof(x.x));
                ret = err ? 0 : index_of(a, r.first);
                flag = r.second;
            }
            // the new element itself may be compared too
            CHECK(BALANCE, log_ok(d > 0 ? d - 1 : 0, n, 1), "an insertion into %d keys examined %zu keys", n, d);
            expect_ret = o.p;
            expect_flag = 1;
            CHECK(STRONG, !(err || o.kind == INS_L) || ET::val(x.x) == real(da, 4 * o.p), "insertion changed the caller's argument");
            CHECK(PATH, err || o.kind == INS_L || !CFG_MOVABLE || (G.n_copy == 0 && G.n_move >= 1), "an rvalue was copied (%ld copies, %ld moves)",
                  G.n_copy, G.n_move);
            nA.insert(nA.begin() + o.p, fresh(real(da, 4 * o.p)));
            strong = true;
            break;
        }
        case DUP_L:
        case DUP_R:
        {
            Arg x(A[o.p].v);
            set_t(x.x, 9);
            {
                Arm arm(fault);
#if COPYABLE
                const T& cx = x.x;
                auto r = o.kind == DUP_L ? a.insert_nothrow(err, cx) : a.insert_nothrow(err, std::move(x.x));
#else
                auto r = a.insert_nothrow(err, std::move(x.x));
#endif
                G.armed = false;
                ret = err ? 0 : index_of(a, r.first);
                flag = r.second;
            }
            CHECK(STRONG, !(err || o.kind == DUP_L) || ET::val(x.x) == A[o.p].v, "insertion changed the caller's argument");
            expect_ret = o.p;
            expect_flag = 0;
            strong = true;
            break;
        }
#if COPYABLE
        case AL_INS:
        {
            const T& x = *at(a, o.p);
            {
                Arm arm(fault);
                auto r = a.insert_nothrow(err, x);
                G.armed = false;
                ret = err ? 0 : index_of(a, r.first);
                flag = r.second;
            }
            expect_ret = o.p;
            expect_flag = 0;
            strong = true;
            break;
        }
#endif
        case ERASE_KEY:
        case AL_ERASE:
        {
            Arg x(A[o.p].v);
            const T& k = o.kind == AL_ERASE ? *at(a, o.p) : x.x;
            const T* kp = std::addressof(k);
            size_t d;
            rec.start();
            {
                Arm arm(fault);
                ret = (long)a.erase(k);
            }
            d = rec.stop(kp);
            expect_dtor = 1;
            CHECK(BALANCE, log_ok(d, n, 2), "erasing a key from %d keys examined %zu keys", n, d);
            expect_ret = 1;
            nA.erase(nA.begin() + o.p);
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE_MISS:
        {
            Arg x(real(da, 4 * o.p));
            {
                Arm arm(fault);
                ret = (long)a.erase(x.x);
            }
            expect_ret = 0;
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE_POS:
        {
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                auto it = a.erase(pos);
                G.armed = false;
                ret = index_of(a, it);
            }
            expect_ret = o.p;
            expect_dtor = 1;
            nA.erase(nA.begin() + o.p);
            fallible = false;
            nocost = true;
            break;
        }
        case CLEAR:
        {
            {
                Arm arm(fault);
                a.clear();
            }
            expect_dtor = n;
            nA.clear();
            fallible = false;
            nocost = true;
            break;
        }
        case INS_B:
        {
            Arg x(real(db, 4 * o.p));
            aids = 1u << ib;
            {
                Arm arm(fault);
                auto r = b.insert_nothrow(err, std::move(x.x));
                G.armed = false;
                ret = err ? 0 : index_of(b, r.first);
                flag = r.second;
            }
            expect_ret = o.p;
            expect_flag = 1;
            nB.insert(nB.begin() + o.p, fresh(real(db, 4 * o.p)));
            target_b = true;
            strong = true;
            break;
        }
        case ERASE_B:
        {
            auto pos = at(b, o.p);
            {
                Arm arm(fault);
                b.erase(pos);
            }
            nB.erase(nB.begin() + o.p);
            fallible = false;
            nocost = true;
            break;
        }
#if COPYABLE
        case COPY_AB:
        case COPY_BA:
        {
            target_b = o.kind == COPY_BA;
            Set& t = target_b ? b : a;
            const Set& u = target_b ? a : b;
            aids = 1u << (target_b ? ib : ia);
            {
                cmp_faults = true;
                Arm arm(fault);
                t.copy_nothrow(err, u);
                cmp_faults = false;
            }
            LSeq& nt = target_b ? nB : nA;
            nt.clear();
            for (auto& i : target_b ? A : B)
            {
                nt.push_back(fresh(i.v));
                req.push_back(i.v);
            }
            (target_b ? ndb : nda) = target_b ? da : db;
            overwrite = true;
#if CFG_POCCA
            aids = 1u << (target_b ? ia : ib);
            (target_b ? nib : nia) = target_b ? ia : ib;
#endif
            break;
        }
        case AL_COPY:
        {
            {
                Arm arm(fault);
                a.copy_nothrow(err, a);
            }
            for (auto& i : nA)
            {
                i.p = nullptr;
            }
            req = vals(A);
            overwrite = true;
            break;
        }
#endif
        case MOVE_AB:
        {
            {
                Arm arm(fault);
                a = std::move(b);
            }
            expect_dtor = n;
            nA = B;
            nB.clear();
            nda = db;
            nia = ib;
            nib = alloc_id(b.get_allocator(), ib);
            fallible = false;
            nocost = true;
            break;
        }
        case MOVE_BA:
        {
            {
                Arm arm(fault);
                b = std::move(a);
            }
            expect_dtor = (long)B.size();
            nB = A;
            nA.clear();
            ndb = da;
            nib = ia;
            nia = alloc_id(a.get_allocator(), ia);
            fallible = false;
            nocost = true;
            break;
        }
        case MOVEDEF:
        {
            {
                Arm arm(fault);
                Set c;
                G.armed = false;
                verify("default-constructed", c, LSeq(), da, 77, CONTENT);
                typename Set::iterator i1;
                typename Set::const_iterator i2;
                Set d(make_alloc(2)); // default comparator
                verify("constructed from an allocator", d, LSeq(), da, 2, CONTENT);
                G.armed = true;
                c = std::move(a);
                G.armed = false;
                verify("moved-to", c, A, da, ia, CONTENT);
                verify("moved-from", a, LSeq(), da, alloc_id(a.get_allocator(), ia), CONTENT);
                i1 = c.begin();
                i2 = i1;
                CHECK(RET, i1 == c.begin() && i2 == i1, "assigned iterators differ");
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                verify("moved-from", c, LSeq(), da, alloc_id(c.get_allocator(), ia), CONTENT);
                G.n_ctor = G.n_dtor = 0; // probes of verify
            }
            fallible = false;
            break;
        }
        case MOVECTOR:
        {
            {
                Arm arm(fault);
                Set c(std::move(a));
                G.armed = false;
                verify("moved-to", c, A, da, ia, CONTENT);
                verify("moved-from", a, LSeq(), da, alloc_id(a.get_allocator(), ia), CONTENT);
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                verify("moved-from", c, LSeq(), da, alloc_id(c.get_allocator(), ia), CONTENT);
                G.n_ctor = G.n_dtor = 0; // probes of verify
            }
            fallible = false;
            break;
        }
        case AL_MOVE:
        {
            {
                Arm arm(fault);
                Set& r = a;
                a = std::move(r);
            }
            fallible = false;
            relaxed = true;
            nocost = true;
            break;
        }
        default:
            die("unknown operation");
        }
        bool failed = false;
        if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(NOCOST, !nocost || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0), "%ld allocations, %ld copies, %ld moves, %ld assignments",
                  G.n_alloc, G.n_copy, G.n_move, G.n_assign);
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
            CHECK((o.tag & T_MOVE) ? NOCOST : LIFE, expect_dtor < 0 || !ET::tracked || G.n_dtor == expect_dtor,
                  "%ld elements were destroyed, expected %ld", G.n_dtor, expect_dtor);
        }
        if (ALLOC_TRACKED)
        {
            CHECK(ALLOCID, (G.aids & ~aids) == 0, "memory was requested from a foreign allocator (mask %x, own %x)", G.aids, aids);
        }
        if (!failed)
        {
            CHECK(RET, expect_ret < 0 || ret == expect_ret, "returned %ld, expected %ld", ret, expect_ret);
            CHECK(RET, expect_flag < 0 || flag == expect_flag, "insertion reported %d, expected %d", flag, expect_flag);
            if (relaxed)
            {
                LSeq s = snap(a);
                CHECK(CONTENT, vals(s) == vals(A) || s.empty(), "self-move left %s of %s", str(vals(s)).c_str(), str(vals(A)).c_str());
                nA = s;
            }
            A = nA;
            B = nB;
            ia = nia;
            ib = nib;
            da = nda;
            db = ndb;
            if (G.checking)
            {
                verify("a", a, A, da, ia, CONTENT);
                if (MAXB)
                {
                    verify("b", b, B, db, ib, CONTENT);
                }
            }
        }
        else
        {
            Set& t = target_b ? b : a;
            Set& u = target_b ? a : b;
            LSeq& mt = target_b ? B : A;
            LSeq& mu = target_b ? A : B;
            LSeq st = snap(t), su = snap(u);
            if (strong)
            {
                CHECK(STRONG, vals(st) == vals(mt), "after the failure the set holds %s, before it held %s", str(vals(st)).c_str(),
                      str(vals(mt)).c_str());
            }
            else
            {
                Seq have = vals(mt);
                have.insert(have.end(), req.begin(), req.end());
                CHECK(BASIC, sub_multiset(vals(st), have), "after the failure the set holds %s: neither old %s nor requested %s",
                      str(vals(st)).c_str(), str(vals(mt)).c_str(), str(req).c_str());
            }
            CHECK(strong ? STRONG : BASIC, vals(su) == vals(mu), "after the failure the other set holds %s, before it held %s", str(vals(su)).c_str(),
                  str(vals(mu)).c_str());
            // which comparator does a half-copied set have?  It must be consistent with its contents.
            int& dt = target_b ? db : da;
#if CFG_POCCA
            if (overwrite) // a half-copied set may have either allocator
            {
                int &it = target_b ? ib : ia, now = alloc_id(t.get_allocator(), it);
                CHECK(ALLOCID, now == it || now == (target_b ? ia : ib), "after the failure the set has allocator %d", now);
                it = now;
            }
#endif
            if (overwrite && st.size() > 1)
            {
                int d = st[0].v < st[1].v ? 1 : -1;
                for (size_t i = 1; i < st.size(); ++i)
                {
                    CHECK(BASIC, (st[i - 1].v < st[i].v) == (d == 1), "after the failure the set is not in order: %s", str(vals(st)).c_str());
                }
                dt = d;
            }
            else if (overwrite)
            {
                dt = 0; // to be found out below
            }
            if (!overwrite)
            {
                bool same = st.size() == mt.size();
                for (size_t i = 0; same && i < st.size(); ++i)
                {
                    same = st[i].p == mt[i].p && (!ET::tracked || st[i].st == mt[i].st);
                }
                CHECK(STABLE, same, "a failed insertion moved old elements");
            }
            if (dt == 0)
            {
                dt = direction_of(t, st);
            }
            mt = st;
            if (G.checking)
            {
                verify("a", a, A, da, ia, strong ? STRONG : BASIC);
                if (MAXB)
                {
                    verify("b", b, B, db, ib, strong ? STRONG : BASIC);
                }
            }
        }
        if (G.nviol)
        {
            return;
        }
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        ob.add((uint64_t)(failed ? 0 : ret));
        ob.add((uint64_t)(failed ? 0 : flag));
        ob.add(vals(A));
        ob.add(vals(B));
        ob.add(ia);
        ob.add(ib);
        ob.add(da);
        ob.add(db);
        ob.add(G.n_alloc);
        G.obs = ob.get();
        rename(a, da);
        rename(b, db);
        A = snap(a);
        B = snap(b);
    }

    // the comparator of a set with fewer than two elements, observed on a scratch insertion
    static int direction_of(Set& t, const LSeq& st)
    {
        Err e;
        Arg x(st.empty() ? 5000 : st[0].v + 1), y(st.empty() ? 5001 : st[0].v + 2);
        t.insert_nothrow(e, std::move(x.x));
        t.insert_nothrow(e, std::move(y.x));
        LSeq s = snap(t);
        int d = s.size() >= 2 && s[0].v > s[1].v ? -1 : 1;
        for (auto& i : s)
        {
            bool old = false;
            for (auto& j : st)
            {
                old = old || j.p == i.p;
            }
            if (!old)
            {
                Arg z(i.v);
                t.erase(z.x);
            }
        }
        return d;
    }

    static void rename(Set& s, int dir)
    {
        int r = 0;
        for (auto it = s.cbegin(); it != s.cend(); ++it, ++r)
        {
            ET::set(const_cast<T&>(*it), real(dir, 4 * r + 2));
            set_t(const_cast<T&>(*it), 1);
        }
    }

    void key(Hasher& h, bool obs)
    {
        h.add(A.size());
        h.add(B.size());
        h.add(ia);
        h.add(ib);
        h.add(da);
        h.add(db);
        if (!obs)
        {
            fingerprint(h, (const char*)R, sizeof(Roots));
        }
        else
        {
            // the shape is observable only through the comparator: use the depth of every gap
            for (size_t g = 0; g <= A.size(); ++g)
            {
                Arg x(real(da, 4 * (int)g));
                rec.start();
                R->a.find(x.x);
                h.add(rec.stop(std::addressof(x.x)));
            }
        }
    }
};

} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::SetWorld>(argc, argv, "set");
}
