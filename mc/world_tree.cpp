// The ordered tree on its own, beyond what set passes through: insertion with and without equivalent keys, with
// hints, of ranges, in place; bounds and counts; erasure of ranges and of lists of keys; comparison of trees.
// Keys are integers inside the elements.  Only their order and equivalences matter, so contents are renamed after
// each step: the search covers every reachable tree over any keys, up to the size bound, with every fault point.
#include "common.hpp"
#include <nestl/algorithm.hpp>
#include <nestl/implementation/detail/red_black_tree.hpp>

namespace mc
{

static long cmp_calls;
static const int* cmp_args[400];
static int cmp_nargs;
struct Cmp
{
    int dir;
    explicit Cmp(int d = 7)
        : dir(d)
    {
    }
    bool operator()(const int& x, const int& y) const
    {
        ++cmp_calls;
        if (cmp_nargs + 2 <= 400)
        {
            cmp_args[cmp_nargs++] = &x;
            cmp_args[cmp_nargs++] = &y;
        }
        return dir == 1 ? x < y : dir == -1 ? y < x : (violate(CONTENT, "a default-constructed comparator was used"), x < y);
    }
};
static void cmp_start()
{
    cmp_calls = 0;
    cmp_nargs = 0;
}
static size_t cmp_seen() // how many different keys were compared
{
    std::sort(cmp_args, cmp_args + cmp_nargs);
    return (size_t)(std::unique(cmp_args, cmp_args + cmp_nargs) - cmp_args);
}
struct KeyOf
{
    const int& operator()(const T& x) const
    {
        ET::val(x);
        return x.v;
    }
};
typedef nestl::impl::detail::rb_tree<int, T, KeyOf, Cmp, Alloc> Tree;
#define COPYABLE (CFG_ELEM != 6)

inline bool log_ok(size_t count, size_t n, int descents)
{
    double r = 1;
    for (int i = 0; i < descents; ++i)
    {
        r *= (double)(n + 1) * (double)(n + 1);
    }
    double p = 1;
    for (size_t i = 0; i < count && p < 1e300; ++i)
    {
        p *= 2;
    }
    return p <= r;
}

// the keys examined since cmp_start(), apart from the one looked for, are few: those of so many descents
inline bool few(size_t n, int descents)
{
    size_t d = cmp_seen();
    return log_ok(d > 2 ? d - 2 : 0, n, descents);
}
enum
{
    NBIG = 6
};

enum Kind
{
    INSU_L,
    INSU_R,
    INSUAT_L,
    INSUAT_R,
    EMPU,
    EMPE,
    EMPHU,
    EMPHE,
    RANGEU,
    ERASE_KEY,
    ERASE_POS,
    ERASE_CPOS,
    ERASE_RANGE,
    ERASE_KEYS,
    CLEAR,
    COPY,
    MOVE,
    MOVEDEF,
    BIG,
    AL_INS,
    AL_EMPE,
    AL_EMPHE,
    AL_ERASE,
    AL_KEYS
};

struct Item
{
    int v;
    const T* p;
    uint32_t st;
};
typedef std::vector<Item> LSeq;
inline Item fresh(int v)
{
    return Item{v, nullptr, 0};
}
inline Seq vals(const LSeq& s)
{
    Seq r;
    for (auto& i : s)
    {
        r.push_back(i.v);
    }
    return r;
}

struct Roots
{
    Tree a;
    Roots(int d, int i)
        : a(Cmp(d), make_alloc(i))
    {
    }
};

struct TreeWorld : WorldBase
{
    int MAXN, D;
    Roots* R;
    LSeq A;
    static const int IA = 1, IC = 2;

    int real(int o) const
    {
        return D == 1 ? o : 10000 - o;
    }
    bool less(int x, int y) const
    {
        return D == 1 ? x < y : y < x;
    }
    int classes() const
    {
        int m = 0;
        for (size_t i = 0; i < A.size(); ++i)
        {
            m += i == 0 || A[i].v != A[i - 1].v;
        }
        return m;
    }
    int lb(const LSeq& s, int v) const
    {
        int i = 0;
        while (i < (int)s.size() && less(s[i].v, v))
        {
            ++i;
        }
        return i;
    }
    int ub(const LSeq& s, int v) const
    {
        int i = 0;
        while (i < (int)s.size() && !less(v, s[i].v))
        {
            ++i;
        }
        return i;
    }

    void setup()
    {
        MAXN = O.param("maxn", 4);
        D = O.param("dir", 1) ? 1 : -1;
        const unsigned G1 = T_GEN, M = T_MOVE, L = T_ALIAS;
        for (int g = 0; g <= 2 * MAXN; ++g)
        {
            if (COPYABLE)
            {
                add(INSU_L, "m_insert_unique(lvalue key)", G1, g, 0, 0, 1);
            }
            add(INSU_R, "m_insert_unique(rvalue key)", G1, g, 0, 0, 1);
            add(EMPU, "m_emplace_unique(key)", G1, g, 0, 0, 1);
            add(EMPE, "m_emplace_equal(key)", G1, g, 0, 0, 1);
            add(ERASE_KEY, "erase(key)", G1, g, 0, 0, 1);
            for (int h = 0; h <= MAXN; ++h)
            {
                if (COPYABLE)
                {
                    add(INSUAT_L, "m_insert_unique_at(hint,lvalue key)", G1, g, h, 0, 2);
                }
                add(INSUAT_R, "m_insert_unique_at(hint,rvalue key)", G1, g, h, 0, 2);
                add(EMPHU, "m_emplace_hint_unique(hint,key)", G1, g, h, 0, 2);
                add(EMPHE, "m_emplace_hint_equal(hint,key)", G1, g, h, 0, 2);
            }
            for (int q = 0; q <= 2 * MAXN; ++q)
            {
                if (COPYABLE)
                {
                    add(RANGEU, "m_insert_unique(range of two keys)", G1, g, q, 2, 2);
                }
                add(ERASE_KEYS, "erase(two keys)", G1, g, q, 2, 2);
            }
            if (COPYABLE)
            {
                add(RANGEU, "m_insert_unique(range of five keys from)", G1, g, 0, 5, 1);
            }
        }
        if (COPYABLE)
        {
            add(RANGEU, "m_insert_unique(empty range)", G1, 0, 0, 0, 0);
        }
        for (int i = 0; i < MAXN; ++i)
        {
            add(ERASE_POS, "erase(iterator)", G1, i, 0, 0, 1);
            add(ERASE_CPOS, "erase(const_iterator)", G1, i, 0, 0, 1);
            for (int j = 0; j <= MAXN; ++j)
            {
                if (i <= j)
                {
                    add(ERASE_RANGE, "erase(range)", G1, i, j, 0, 2);
                }
                if (COPYABLE)
                {
                    add(AL_EMPHE, "m_emplace_hint_equal(hint,own element)", L, i, j, 0, 2);
                }
            }
            if (COPYABLE)
            {
                add(AL_INS, "m_insert_unique(own element)", L, i, 0, 0, 1);
                add(AL_EMPE, "m_emplace_equal(own element)", L, i, 0, 0, 1);
            }
            add(AL_ERASE, "erase(own key)", L, i, 0, 0, 1);
            add(AL_KEYS, "erase(range of one own key)", L, i, 0, 0, 1);
        }
        add(CLEAR, "clear", G1);
        if (COPYABLE)
        {
            add(COPY, "c.copy_nothrow(a); compare; a.m_move_assign(c)", G1);
        }
        add(MOVE, "c(move(a)); a.m_move_assign(c)", M);
        add(MOVEDEF, "default-constructed c.m_move_assign(a); a.m_move_assign(c)", M);
        for (int n : {15, 16, 63, 64, 200, 500})
        {
            for (int how = 0; how < NBIG && n <= O.param("big", 0); ++how)
            {
                for (int g = 1; g <= (how >= 3 ? 3 : 1); g += 2)
                {
                    add(BIG, "a big tree (keys,how,copies of each)", G1, n, how, g, 3);
                }
            }
        }
    }

    bool can(const OpDef& o) const
    {
        int n = (int)A.size(), m = classes();
        switch (o.kind)
        {
        case INSU_L:
        case INSU_R:
        case EMPU:
        case EMPE:
            return n < MAXN && o.p <= 2 * m;
        case INSUAT_L:
        case INSUAT_R:
        case EMPHU:
        case EMPHE:
            return n < MAXN && o.p <= 2 * m && o.q <= n;
        case RANGEU:
            return n + o.r <= MAXN + (o.r == 5 ? 3 : 1) && o.p <= 2 * m && o.q <= 2 * m;
        case ERASE_KEYS:
            return o.p <= 2 * m && o.q <= 2 * m;
        case ERASE_KEY:
            return o.p <= 2 * m;
        case ERASE_POS:
        case ERASE_CPOS:
        case AL_ERASE:
        case AL_KEYS:
            return o.p < n;
        case ERASE_RANGE:
            return o.q <= n;
        case AL_INS:
        case AL_EMPE:
            return o.p < n && n < MAXN;
        case AL_EMPHE:
            return o.p < n && o.q <= n && n < MAXN;
        case BIG:
            return n == 0;
        default:
            return true;
        }
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }

    // n keys, g times each, inserted in one of several ways; then every search for every key and every gap
    void big(int n, int how, int g)
    {
        Tree t(Cmp(D), make_alloc(IA));
        Err err;
        std::vector<int> keys; // of the insertions, in order; even
        for (int k = 0; k < g; ++k)
        {
            for (int i = 0; i < n; ++i)
            {
                int j = how == 0 || how == 3 ? i : how == 1 || how == 4 ? n - 1 - i : (int)((long)i * 7919 % n);
                keys.push_back(real(100 + 2 * j));
            }
        }
        long all = 0;
        for (int v : keys)
        {
            cmp_start();
            switch (how)
            {
            case 0:
                t.m_emplace_hint_unique(err, t.end(), v);
                break;
            case 1:
                t.m_emplace_hint_unique(err, t.begin(), v);
                break;
            case 2:
                t.m_emplace_unique(err, v);
                break;
            case 3:
                g == 1 ? t.m_emplace_hint_equal(err, t.end(), v) : t.m_emplace_equal(err, v);
                break;
            case 4:
                g == 1 ? t.m_emplace_hint_equal(err, t.begin(), v) : t.m_emplace_equal(err, v);
                break;
            default:
                t.m_emplace_equal(err, v);
            }
            all += cmp_calls;
            CHECK(BALANCE, few(t.size(), 1), "an insertion into %zu keys examined %zu keys", (size_t)t.size(), cmp_seen());
        }
        CHECK(ERR, !err, "building a tree of %d keys failed", n);
        CHECK(CONTENT, t.size() == (size_t)n * g, "%d keys inserted, size is %zu", n * g, (size_t)t.size());
        CHECK(BALANCE, how == 2 || how == 5 || g > 1 || all <= 6L * n, "%d insertions next to their hints compared %ld times", n, all);
        const Tree& c = t;
        searches(t, c, n, g);
        // every third key and a middle range away, the rest again
        size_t gone = 0;
        for (int i = 0; i < n; i += 3)
        {
            int v = real(100 + 2 * i);
            cmp_start();
            gone += t.erase(v);
            CHECK(BALANCE, few(t.size() + g, 2) || g > 1, "erasing a key from %zu keys examined %zu keys", (size_t)t.size() + g, cmp_seen());
        }
        CHECK(RET, gone == (size_t)((n + 2) / 3) * g && t.size() == (size_t)n * g - gone, "erasing %d keys removed %zu", (n + 2) / 3, gone);
        searches(t, c, n, g, 3);
        auto it = t.erase(c.lower_bound(real(100 + 2 * (n / 3))), c.lower_bound(real(100 + 2 * (n / 2))));
        CHECK(RET, it == t.lower_bound(real(100 + 2 * (n / 2))), "erasing a range returned another position");
        for (int i = n / 3; i < n / 2; ++i)
        {
            CHECK(CONTENT, c.find(real(100 + 2 * i)) == c.end(), "an erased key is found");
        }
        for (int i = 0; i < n; ++i)
        {
            if (i < n / 3 || i >= n / 2)
            {
                size_t cnt = c.count(real(100 + 2 * i));
                CHECK(CONTENT, cnt == (i % 3 ? (size_t)g : 0), "key %d of %d is there %zu times", i, n, cnt);
            }
        }
    }
    // skip: 0 or every how manieth key is missing
    void searches(Tree& t, const Tree& c, int n, int g, int skip = 0)
    {
        const size_t size = t.size();
        std::vector<const T*> at;
        for (auto it = c.begin(); it != c.end() && at.size() <= size; ++it)
        {
            at.push_back(std::addressof(*it));
        }
        CHECK(CONTENT, at.size() == size, "%zu elements in a traversal of %zu", at.size(), size);
        size_t lo = 0;
        for (int i = 0; i < 2 * n; ++i)
        {
            const int v = real(100 + i);
            const size_t here = i % 2 == 0 && !(skip && i / 2 % skip == 0) ? (size_t)g : 0, hi = lo + here;
            auto is = [&](typename Tree::const_iterator x, size_t k) { return k == size ? x == c.end() : x != c.end() && std::addressof(*x) == at[k]; };
            cmp_start();
            bool ok = is(t.lower_bound(v), lo);
            CHECK(BALANCE, few(size, 1), "lower_bound among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            ok = ok && is(c.lower_bound(v), lo);
            CHECK(BALANCE, few(size, 1), "lower_bound (const) among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            ok = ok && is(t.upper_bound(v), hi);
            CHECK(BALANCE, few(size, 1), "upper_bound among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            ok = ok && is(c.upper_bound(v), hi);
            CHECK(BALANCE, few(size, 1), "upper_bound (const) among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            auto r = t.equal_range(v);
            CHECK(BALANCE, few(size, 2), "equal_range among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            auto cr = c.equal_range(v);
            CHECK(BALANCE, few(size, 2), "equal_range (const) among %zu keys examined %zu keys", size, cmp_seen());
            ok = ok && is(r.first, lo) && is(r.second, hi) && is(cr.first, lo) && is(cr.second, hi);
            cmp_start();
            auto f = t.find(v);
            CHECK(BALANCE, few(size, 1), "find among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            auto cf = c.find(v);
            CHECK(BALANCE, few(size, 1), "find (const) among %zu keys examined %zu keys", size, cmp_seen());
            cmp_start();
            size_t cnt = c.count(v);
            CHECK(BALANCE, few(size, 2) || g > 1, "count among %zu keys examined %zu keys", size, cmp_seen());
            CHECK(RET, ok && cnt == here && (f == t.end()) == !here && (cf == c.end()) == !here && (!here || ((*f).v == v && (*cf).v == v)),
                  "a search for key %d among %zu keys gives another position (bounds expected %zu and %zu)", i, size, lo, hi);
            lo = hi;
        }
    }

    void begin()
    {
        A.clear();
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots(D, IA);
        if (G.checking)
        {
            verify("tree", R->a, A, IA, CONTENT);
        }
    }
    void end()
    {
        R->~Roots();
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }

    static LSeq snap(const Tree& l)
    {
        LSeq s;
        for (auto it = l.begin(); it != l.end() && s.size() < 100; ++it)
        {
            const T* p = std::addressof(*it);
            s.push_back(Item{ET::val(*it), p, stamp_of(p)});
        }
        return s;
    }

    template <class It>
    static long index_of(const Tree& l, It it)
    {
        typename Tree::const_iterator y = it;
        auto x = l.begin();
        for (long i = 0; i < 100; ++x, ++i)
        {
            if (x == y)
            {
                return i;
            }
            if (x == l.end())
            {
                break;
            }
        }
        return -2;
    }
    static typename Tree::const_iterator at(const Tree& l, int i)
    {
        auto it = l.begin();
        std::advance(it, i);
        return it;
    }

    void verify(const char* w, Tree& l, const LSeq& m, int id, Cat cat)
    {
        const Tree& c = l;
        const int n = (int)m.size();
        LSeq s = snap(c);
        CHECK(cat, vals(s) == vals(m), "%s: holds %s, expected %s", w, str(vals(s)).c_str(), str(vals(m)).c_str());
        if (vals(s) != vals(m))
        {
            return;
        }
        for (int i = 0; i < n; ++i)
        {
            if (m[i].p)
            {
                CHECK(STABLE, s[i].p == m[i].p, "%s: element %d of %s is at another address", w, i, str(vals(m)).c_str());
                CHECK(STABLE, !ET::tracked || s[i].st == m[i].st, "%s: element %d of %s was rebuilt or assigned", w, i, str(vals(m)).c_str());
            }
        }
        CHECK(cat, (int)c.size() == n, "%s: size is %zu, expected %d", w, (size_t)c.size(), n);
        CHECK(cat, c.empty() == (n == 0), "%s: empty() is %d with %d elements", w, (int)c.empty(), n);
        CHECK(cat, c.key_comp().dir == D, "%s: key_comp() is another comparator", w);
        {
            auto i1 = l.begin();
            auto i3 = l.rbegin();
            auto i4 = c.rbegin();
            auto b1 = l.end();
            auto b2 = c.end();
            for (int i = 0; i < n; ++i)
            {
                --b1;
                b2--;
                const T *e = s[i].p, *r = s[n - 1 - i].p;
                bool good = std::addressof(*i1) == e && std::addressof(*i3) == r && std::addressof(*i4) == r && std::addressof(*b1) == r &&
                            std::addressof(*b2) == r && i1 != l.end();
                CHECK(cat, good, "%s: traversals disagree at %d of %s", w, i, str(vals(m)).c_str());
                if (!good)
                {
                    return;
                }
                ++i1;
                ++i3;
                i4++;
            }
            CHECK(cat, i1 == l.end() && i3 == l.rend() && i4 == c.rend() && b1 == l.begin() && b2 == c.begin(),
                  "%s: a traversal of %s does not end where it should", w, str(vals(m)).c_str());
        }
        // every key present, and one below, between and above them
        std::vector<int> probes;
        for (int i = 0; i < n; ++i)
        {
            probes.push_back(m[i].v);
            probes.push_back(m[i].v - D);
            probes.push_back(m[i].v + D);
        }
        probes.push_back(5000);
        for (int v : probes)
        {
            int lo = lb(m, v), hi = ub(m, v);
            cmp_start();
            auto L = l.lower_bound(v);
            CHECK(BALANCE, few(n, 1), "%s: lower_bound among %d keys examined %zu keys", w, n, cmp_seen());
            cmp_start();
            auto U = l.upper_bound(v);
            CHECK(BALANCE, few(n, 1), "%s: upper_bound among %d keys examined %zu keys", w, n, cmp_seen());
            cmp_start();
            auto Q = l.equal_range(v);
            CHECK(BALANCE, few(n, 2), "%s: equal_range among %d keys examined %zu keys", w, n, cmp_seen());
            cmp_start();
            auto F = l.find(v);
            CHECK(BALANCE, few(n, 1), "%s: find among %d keys examined %zu keys", w, n, cmp_seen());
            auto cL = c.lower_bound(v);
            auto cU = c.upper_bound(v);
            auto cQ = c.equal_range(v);
            auto cF = c.find(v);
            bool good = index_of(c, L) == lo && index_of(c, cL) == lo && index_of(c, U) == hi && index_of(c, cU) == hi && index_of(c, Q.first) == lo &&
                        index_of(c, Q.second) == hi && index_of(c, cQ.first) == lo && index_of(c, cQ.second) == hi;
            CHECK(RET, good, "%s: bounds of %d in %s are [%ld,%ld) (const [%ld,%ld)), equal_range [%ld,%ld) (const [%ld,%ld)), expected [%d,%d)", w, v,
                  str(vals(m)).c_str(), index_of(c, L), index_of(c, U), index_of(c, cL), index_of(c, cU), index_of(c, Q.first), index_of(c, Q.second),
                  index_of(c, cQ.first), index_of(c, cQ.second), lo, hi);
            CHECK(RET, (int)c.count(v) == hi - lo, "%s: count(%d) in %s is %zu", w, v, str(vals(m)).c_str(), (size_t)c.count(v));
            long f = index_of(c, F), cf = index_of(c, cF);
            good = lo == hi ? f == n && cf == n : f >= lo && f < hi && cf >= lo && cf < hi;
            CHECK(RET, good, "%s: find(%d) in %s gives %ld (const %ld)", w, v, str(vals(m)).c_str(), f, cf);
        }
        CHECK(ALLOCID, alloc_id(c.get_allocator(), id) == id, "%s: get_allocator() has identity %d, expected %d", w, alloc_id(c.get_allocator(), id), id);
        if (ALLOC_TRACKED)
        {
            for (int i = 0; i < n; ++i)
            {
                Block* b = find_block(s[i].p);
                CHECK(LIFE, b && b->live, "%s: element %d is not in a live block", w, i);
                if (b && b->live)
                {
                    CHECK(ALLOCID, b->aid == id, "%s: element %d came from allocator %d, the tree's is %d", w, i, b->aid, id);
                }
            }
        }
    }

    void relations(const Tree& x, const Tree& y, const LSeq& mx, const LSeq& my)
    {
        Seq a = vals(mx), b = vals(my);
        bool eq = a == b, lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()),
             gt = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
        bool good = (x == y) == eq && (x != y) == !eq && (x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt;
        CHECK(RET, good, "comparing %s with %s: == %d, != %d, < %d, > %d, <= %d, >= %d", str(a).c_str(), str(b).c_str(), (int)(x == y), (int)(x != y),
              (int)(x < y), (int)(x > y), (int)(x <= y), (int)(x >= y));
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Tree& a = R->a;
        A = snap(a);
        const int n = (int)A.size();
        LSeq nA = A;
        Seq req;
        bool fallible = true, strong = true, nocost = false;
        long ret = -1, expect_lo = -1, expect_hi = -1, expect_dtor = -1;
        int flag = -1, expect_flag = -1;
        long calls = 0;
        int hint = -1;
        unsigned aids = 1u << IA;
        Err err;

        // the key an operation names: g even: absent, g odd: present
        auto key_of = [&](int g) { return real(2 * g); };
        auto insert_unique = [&](int v) {
            int lo = lb(nA, v), hi = ub(nA, v);
            expect_lo = lo;
            expect_hi = lo == hi ? lo : hi - 1;
            expect_flag = lo == hi;
            if (lo == hi)
            {
                nA.insert(nA.begin() + lo, fresh(v));
            }
        };
        auto insert_equal = [&](int v, int h) {
            int lo = lb(nA, v), hi = ub(nA, v);
            int i = h < 0 ? hi : h < lo ? lo : h > hi ? hi : h;
            expect_lo = expect_hi = i;
            nA.insert(nA.begin() + i, fresh(v));
        };
        auto erase_key = [&](int v) {
            int lo = lb(nA, v), hi = ub(nA, v);
            nA.erase(nA.begin() + lo, nA.begin() + hi);
            return hi - lo;
        };

        switch (o.kind)
        {
        case INSU_L:
        case INSU_R:
        case INSUAT_L:
        case INSUAT_R:
        {
            const int v = key_of(o.p);
            Arg x(v);
            const bool lval = o.kind == INSU_L || o.kind == INSUAT_L, hinted = o.kind == INSUAT_L || o.kind == INSUAT_R;
            hint = hinted ? o.q : -1;
            typename Tree::const_iterator h = at(a, hinted ? o.q : 0);
            cmp_start();
            {
                Arm arm(fault);
                typename Tree::iterator it;
                if (!hinted)
                {
#if COPYABLE
                    const T& cx = x.x;
                    auto r = lval ? a.m_insert_unique(err, cx) : a.m_insert_unique(err, std::move(x.x));
#else
                    auto r = a.m_insert_unique(err, std::move(x.x));
#endif
                    it = r.first;
                    flag = r.second;
                }
                else
                {
#if COPYABLE
                    const T& cx = x.x;
                    it = lval ? a.m_insert_unique_at(err, h, cx) : a.m_insert_unique_at(err, h, std::move(x.x));
#else
                    it = a.m_insert_unique_at(err, h, std::move(x.x));
#endif
                }
                G.armed = false;
                calls = cmp_calls;
                ret = err ? 0 : index_of(a, it);
            }
            insert_unique(v);
            CHECK(STRONG, !(err || lval || !expect_flag) || ET::val(x.x) == v, "insertion changed the caller's argument");
            CHECK(PATH, err || lval || !expect_flag || !CFG_MOVABLE || (G.n_copy == 0 && G.n_move >= 1), "an rvalue was copied (%ld copies, %ld moves)",
                  G.n_copy, G.n_move);
            CHECK(NOCOST, expect_flag || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0), "inserting a key that is there took %ld allocations, %ld copies",
                  G.n_alloc, G.n_copy);
            if (hinted)
            {
                expect_flag = -1;
            }
            break;
        }
        case EMPU:
        case EMPE:
        case EMPHU:
        case EMPHE:
        {
            const int v = key_of(o.p);
            const bool hinted = o.kind == EMPHU || o.kind == EMPHE, uniq = o.kind == EMPU || o.kind == EMPHU;
            hint = hinted ? o.q : -1;
            typename Tree::const_iterator h = at(a, hinted ? o.q : 0);
            cmp_start();
            {
                Arm arm(fault);
                typename Tree::iterator it;
                int w = v;
                if (o.kind == EMPU)
                {
                    auto r = a.m_emplace_unique(err, w);
                    it = r.first;
                    flag = r.second;
                }
                else
                {
                    it = o.kind == EMPE ? a.m_emplace_equal(err, w)
                                        : o.kind == EMPHU ? a.m_emplace_hint_unique(err, h, w) : a.m_emplace_hint_equal(err, h, w);
                }
                G.armed = false;
                calls = cmp_calls;
                ret = err ? 0 : index_of(a, it);
            }
            if (uniq)
            {
                insert_unique(v);
            }
            else
            {
                insert_equal(v, hinted ? o.q : -1);
            }
            CHECK(PATH, err || (G.n_copy == 0 && G.n_move == 0), "emplacement took %ld copies and %ld moves", G.n_copy, G.n_move);
            if (o.kind != EMPU)
            {
                expect_flag = -1;
            }
            break;
        }
#if COPYABLE
        case RANGEU:
        {
            Seq vs;
            if (o.r == 2)
            {
                vs.push_back(key_of(o.p));
                vs.push_back(key_of(o.q));
            }
            for (int i = 0; o.r == 5 && i < 5; ++i)
            {
                vs.push_back(key_of(o.p) + (i < 3 ? i % 2 : -1));
            }
            ArgArr arr(vs);
            const T* cur = arr.begin();
            InIt f(arr.begin(), &cur), l(arr.end(), &cur);
            {
                Arm arm(fault);
                a.m_insert_unique(err, f, l);
            }
            CHECK(STRONG, arr.same(vs), "the inserted range was changed");
            for (int v : vs)
            {
                insert_unique(v);
                req.push_back(v);
            }
            expect_lo = -1;
            expect_flag = -1;
            strong = false;
            break;
        }
        case AL_INS:
        case AL_EMPE:
        case AL_EMPHE:
        {
            const T& x = *at(a, o.p);
            const int v = A[o.p].v;
            typename Tree::const_iterator h = at(a, o.kind == AL_EMPHE ? o.q : 0);
            {
                Arm arm(fault);
                typename Tree::iterator it;
                if (o.kind == AL_INS)
                {
                    auto r = a.m_insert_unique(err, x);
                    it = r.first;
                    flag = r.second;
                }
                else
                {
                    it = o.kind == AL_EMPE ? a.m_emplace_equal(err, x) : a.m_emplace_hint_equal(err, h, x);
                }
                G.armed = false;
                ret = err ? 0 : index_of(a, it);
            }
            if (o.kind == AL_INS)
            {
                insert_unique(v);
            }
            else
            {
                insert_equal(v, o.kind == AL_EMPHE ? o.q : -1);
            }
            break;
        }
#endif
        case ERASE_KEY:
        case AL_ERASE:
        {
            int v = o.kind == AL_ERASE ? A[o.p].v : key_of(o.p);
            const int& k = o.kind == AL_ERASE ? (*at(a, o.p)).v : v;
            cmp_start();
            {
                Arm arm(fault);
                ret = (long)a.erase(k);
            }
            CHECK(BALANCE, few(n, 2), "erasing a key from %d keys examined %zu keys", n, cmp_seen());
            expect_dtor = expect_lo = expect_hi = erase_key(v);
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE_KEYS:
        {
            int k[2] = {key_of(o.p), key_of(o.q)};
            {
                Arm arm(fault);
                a.erase(k, k + 2);
            }
            CHECK(STRONG, k[0] == key_of(o.p) && k[1] == key_of(o.q), "the keys were changed");
            expect_dtor = erase_key(k[0]);
            expect_dtor += erase_key(k[1]);
            fallible = false;
            nocost = true;
            break;
        }
        case AL_KEYS:
        {
            int v = A[o.p].v;
            const int* k = &(*at(a, o.p)).v;
            {
                Arm arm(fault);
                a.erase(k, k + 1);
            }
            expect_dtor = erase_key(v);
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE_POS:
        case ERASE_CPOS:
        {
            auto cpos = at(a, o.p);
            auto pos = a.begin();
            std::advance(pos, o.p);
            {
                Arm arm(fault);
                auto it = o.kind == ERASE_POS ? a.erase(pos) : a.erase(cpos);
                G.armed = false;
                ret = index_of(a, it);
            }
            expect_lo = expect_hi = o.p;
            expect_dtor = 1;
            nA.erase(nA.begin() + o.p);
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE_RANGE:
        {
            auto f = at(a, o.p), l = at(a, o.q);
            {
                Arm arm(fault);
                auto it = a.erase(f, l);
                G.armed = false;
                ret = index_of(a, it);
            }
            expect_lo = expect_hi = o.p;
            expect_dtor = o.q - o.p;
            nA.erase(nA.begin() + o.p, nA.begin() + o.q);
            fallible = false;
            nocost = true;
            break;
        }
        case CLEAR:
        {
            {
                Arm arm(fault);
                a.clear();
            }
            expect_dtor = n;
            nA.clear();
            fallible = false;
            nocost = true;
            break;
        }
#if COPYABLE
        case COPY:
        {
            aids = 1u << IC;
            Tree c(Cmp(-D), make_alloc(IC));
            {
                Arm arm(fault);
                c.copy_nothrow(err, a);
            }
            if (err)
            {
                LSeq s = snap(c);
                CHECK(BASIC, sub_multiset(vals(s), vals(A)), "after the failure the copy holds %s of %s", str(vals(s)).c_str(), str(vals(A)).c_str());
                break;
            }
            LSeq mc = A;
            for (auto& i : mc)
            {
                i.p = nullptr;
            }
            verify("copy", c, mc, IC, CONTENT);
            verify("source of the copy", a, A, IA, CONTENT);
            const int points = G.fault_cnt;
            const long al = G.n_alloc;
            relations(a, c, A, mc);
            // every tree one step away: an element less, one more, one replaced
            for (int i = 0; i <= 3 * n; ++i)
            {
                Tree d(Cmp(D), make_alloc(IC));
                Err e;
                d.copy_nothrow(e, a);
                LSeq md = A;
                if (i < n || i > 2 * n)
                {
                    int k = i < n ? i : i - 2 * n - 1;
                    d.erase(at(d, k));
                    md.erase(md.begin() + k);
                }
                if (i >= n)
                {
                    int v = i < 2 * n ? A[i - n].v + D : i > 2 * n ? A[i - 2 * n - 1].v + D : real(-1000);
                    d.m_emplace_equal(e, v);
                    md.insert(md.begin() + ub(md, v), fresh(v));
                }
                relations(a, d, A, md);
                relations(d, a, md, A);
            }
            a.m_move_assign(c, std::true_type());
            verify("moved-from", c, LSeq(), alloc_id(c.get_allocator(), IC), CONTENT);
            LSeq s = snap(a);
            CHECK(CONTENT, vals(s) == vals(A), "move assignment left %s, expected %s", str(vals(s)).c_str(), str(vals(A)).c_str());
            CHECK(ALLOCID, alloc_id(a.get_allocator(), IC) == IC, "move assignment did not bring the allocator along");
            verify("moved-to", a, mc, IC, CONTENT);
            // and home again, so that the tree keeps its allocator
            {
                Tree e(Cmp(-D), make_alloc(IA));
                Err er;
                Arm arm(0);
                e.copy_nothrow(er, a);
                a.m_move_assign(e, std::true_type());
            }
            nA = mc;
            G.fault_cnt = points;
            G.n_alloc = al;
            G.aids = aids;
            break;
        }
#endif
        case BIG:
        {
            big(o.p, o.q, o.r);
            G.fault_cnt = 0;
            G.fired = 0;
            return;
        }
        case MOVEDEF:
        {
            {
                Arm arm(fault);
                Tree c;
                G.armed = false;
                Tree d(make_alloc(2));
                CHECK(CONTENT, c.empty() && d.empty() && c.begin() == c.end() && d.begin() == d.end(), "a new tree is not empty");
                CHECK(ALLOCID, alloc_id(d.get_allocator(), 2) == 2 && alloc_id(c.get_allocator(), 77) == 77, "a new tree has another allocator");
                typename Tree::iterator i1;
                typename Tree::const_iterator i2;
                G.armed = true;
                c.m_move_assign(a, std::true_type());
                G.armed = false;
                verify("moved-to", c, A, IA, CONTENT);
                verify("moved-from", a, LSeq(), alloc_id(a.get_allocator(), IA), CONTENT);
                i1 = c.begin();
                i2 = i1;
                CHECK(RET, i1 == c.begin() && i2 == i1, "assigned iterators differ");
                G.armed = true;
                a.m_move_assign(c, std::true_type());
                G.armed = false;
                verify("moved-from", c, LSeq(), alloc_id(c.get_allocator(), IA), CONTENT);
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case MOVE:
        {
            {
                Arm arm(fault);
                Tree c(std::move(a));
                G.armed = false;
                verify("moved-to", c, A, IA, CONTENT);
                verify("moved-from", a, LSeq(), alloc_id(a.get_allocator(), IA), CONTENT);
                G.armed = true;
                a.m_move_assign(c, std::true_type());
                G.armed = false;
                verify("moved-from", c, LSeq(), alloc_id(c.get_allocator(), IA), CONTENT);
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        default:
            die("unknown operation");
        }

        // a hint next to the right place makes insertion cost a constant number of comparisons
        if (hint >= 0 && !err && expect_lo >= 0)
        {
            bool right = hint == expect_lo || (hint == expect_lo - 1 && nA.size() > A.size());
            CHECK(BALANCE, !right || calls <= 6, "insertion next to its hint compared %ld times", calls);
        }
        if (hint < 0 && calls)
        {
            CHECK(BALANCE, log_ok(calls > 4 ? (size_t)(calls - 4) / 2 : 0, n, 1), "insertion into %d keys compared %ld times", n, calls);
        }
        bool failed = false;
        if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(NOCOST, !nocost || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0), "%ld allocations, %ld copies, %ld moves, %ld assignments",
                  G.n_alloc, G.n_copy, G.n_move, G.n_assign);
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
            CHECK((o.tag & T_MOVE) ? NOCOST : LIFE, expect_dtor < 0 || !ET::tracked || G.n_dtor == expect_dtor,
                  "%ld elements were destroyed, expected %ld", G.n_dtor, expect_dtor);
        }
        if (ALLOC_TRACKED)
        {
            CHECK(ALLOCID, (G.aids & ~aids) == 0, "memory was requested from a foreign allocator (mask %x, own %x)", G.aids, aids);
        }
        if (!failed)
        {
            CHECK(RET, expect_lo < 0 || (ret >= expect_lo && ret <= expect_hi), "returned %ld, expected %ld to %ld", ret, expect_lo, expect_hi);
            CHECK(RET, expect_flag < 0 || flag == expect_flag, "insertion reported %d, expected %d", flag, expect_flag);
            A = nA;
        }
        else
        {
            LSeq s = snap(a);
            if (strong)
            {
                CHECK(STRONG, vals(s) == vals(A), "after the failure the tree holds %s, before it held %s", str(vals(s)).c_str(), str(vals(A)).c_str());
            }
            else
            {
                Seq have = vals(A);
                have.insert(have.end(), req.begin(), req.end());
                CHECK(BASIC, sub_multiset(vals(s), have) && sub_multiset(vals(A), vals(s)), "after the failure the tree holds %s, before it held %s",
                      str(vals(s)).c_str(), str(vals(A)).c_str());
            }
            for (auto& i : A)
            {
                bool there = false;
                for (auto& j : s)
                {
                    there = there || (j.p == i.p && (!ET::tracked || j.st == i.st));
                }
                CHECK(STABLE, there, "a failed insertion moved old elements");
            }
            A = s;
        }
        if (G.checking && !G.nviol)
        {
            verify("tree", a, A, IA, failed ? (strong ? STRONG : BASIC) : CONTENT);
        }
        if (G.nviol)
        {
            return;
        }
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        ob.add((uint64_t)(failed ? 0 : ret));
        ob.add((uint64_t)(failed ? 0 : flag));
        ob.add(vals(A));
        ob.add(G.n_alloc);
        G.obs = ob.get();
        rename();
        A = snap(a);
    }

    void rename()
    {
        int r = -1, prev = 0;
        bool first = true;
        for (auto it = R->a.begin(); it != R->a.end(); ++it)
        {
            int v = (*it).v;
            r += first || v != prev;
            first = false;
            prev = v;
            ET::set(const_cast<T&>(*it), real(4 * r + 2));
        }
    }

    void key(Hasher& h, bool obs)
    {
        for (auto& i : A)
        {
            h.add((uint64_t)i.v);
        }
        if (!obs)
        {
            fingerprint(h, (const char*)R, sizeof(Roots));
        }
        else
        {
            for (size_t i = 0; i < A.size(); ++i) // the shape, through the comparator
            {
                cmp_start();
                R->a.lower_bound(A[i].v);
                h.add((uint64_t)cmp_calls);
                cmp_start();
                R->a.lower_bound(A[i].v + D);
                h.add((uint64_t)cmp_calls);
            }
        }
    }
};

} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::TreeWorld>(argc, argv, "tree");
}
