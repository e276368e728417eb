// Long deterministic histories: every (insertion order x removal order x size) of a fixed family for
// sets, every (append/insert/resize pattern x size) for vectors, every (key pattern x size) for sort
// and merge of lists, every (end/position/chunk pattern x size) for lists, every count of pointers.  One case is one complete history; every step of it is checked.
#define MC_ARENA_BYTES (64u << 20)
#include "common.hpp"
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/vector.hpp>

namespace mc
{
struct Rec
{
    bool on = false;
    std::vector<const T*> seen;
    void start()
    {
        on = true;
        seen.clear();
    }
    size_t stop(const T* probe)
    {
        on = false;
        std::sort(seen.begin(), seen.end());
        seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
        return seen.size() - (std::binary_search(seen.begin(), seen.end(), probe) ? 1 : 0);
    }
};
static Rec rec;

struct Cmp
{
    int dir;
    explicit Cmp(int d = 7)
        : dir(d)
    {
    }
    bool operator()(const T& x, const T& y) const
    {
        if (rec.on)
        {
            rec.seen.push_back(std::addressof(x));
            rec.seen.push_back(std::addressof(y));
        }
        return dir < 0 ? ET::val(y) < ET::val(x) : ET::val(x) < ET::val(y);
    }
};

typedef nestl::no_exceptions::set<T, Cmp, Alloc> Set;
typedef nestl::no_exceptions::vector<T, Alloc> Vec;
typedef nestl::no_exceptions::list<T, Alloc> List;

// 2^count <= (n+1)^2
static bool log_ok(size_t count, size_t n)
{
    double r = (double)(n + 1) * (double)(n + 1), p = 1;
    for (size_t i = 0; i < count && p < 1e300; ++i)
    {
        p *= 2;
    }
    return p <= r;
}

// ---- orders of 0..n-1
enum Order
{
    ASC,
    DESC,
    OUTIN,  // 0, n-1, 1, n-2, ...
    INOUT,  // middle first, then alternating outwards
    BITREV, // bit reversal
    EVENODD,
    ODDEVEN_DESC,
    STRIDE7,
    STRIDEPHI,
    BLOCKS,   // ascending blocks of ~sqrt(n), blocks in descending order
    ROTATED,  // ascending, starting in the middle
    BISECT,   // breadth-first bisection
    NORDER
};
static const char* const order_name[] = {"ascending",   "descending", "outside-in", "inside-out", "bit reversal", "evens then odds",
                                         "odds then evens descending", "stride 7",   "golden stride", "blocks", "rotated",    "bisection"};

static int gcd(int a, int b)
{
    return b ? gcd(b, a % b) : a;
}
static std::vector<int> order(int o, int n)
{
    std::vector<int> r;
    auto stride = [&](int s) {
        s = s % n ? s % n : 1;
        while (gcd(s, n) != 1)
        {
            ++s;
        }
        for (int i = 0; i < n; ++i)
        {
            r.push_back((int)((long)i * s % n));
        }
    };
    if (n == 0)
    {
        return r;
    }
    switch (o)
    {
    case ASC:
        for (int i = 0; i < n; ++i)
        {
            r.push_back(i);
        }
        break;
    case DESC:
        for (int i = n; i--;)
        {
            r.push_back(i);
        }
        break;
    case OUTIN:
        for (int i = 0; i < n; ++i)
        {
            r.push_back(i % 2 ? n - 1 - i / 2 : i / 2);
        }
        break;
    case INOUT:
        for (int i = n; i--;)
        {
            r.push_back(i % 2 ? n - 1 - i / 2 : i / 2);
        }
        break;
    case BITREV:
    {
        int b = 1;
        while ((1 << b) < n)
        {
            ++b;
        }
        for (int i = 0; i < (1 << b); ++i)
        {
            int x = 0;
            for (int k = 0; k < b; ++k)
            {
                x |= ((i >> k) & 1) << (b - 1 - k);
            }
            if (x < n)
            {
                r.push_back(x);
            }
        }
        break;
    }
    case EVENODD:
        for (int i = 0; i < n; i += 2)
        {
            r.push_back(i);
        }
        for (int i = 1; i < n; i += 2)
        {
            r.push_back(i);
        }
        break;
    case ODDEVEN_DESC:
        for (int i = n; i--;)
        {
            if (i % 2)
            {
                r.push_back(i);
            }
        }
        for (int i = n; i--;)
        {
            if (i % 2 == 0)
            {
                r.push_back(i);
            }
        }
        break;
    case STRIDE7:
        stride(7);
        break;
    case STRIDEPHI:
        stride((int)(n * 0.6180339887) + 1);
        break;
    case BLOCKS:
    {
        int k = 1;
        while (k * k < n)
        {
            ++k;
        }
        for (int b = (n - 1) / k; b >= 0; --b)
        {
            for (int i = b * k; i < n && i < (b + 1) * k; ++i)
            {
                r.push_back(i);
            }
        }
        break;
    }
    case ROTATED:
        for (int i = 0; i < n; ++i)
        {
            r.push_back((i + n / 2) % n);
        }
        break;
    default:
    {
        std::vector<std::pair<int, int>> q(1, std::make_pair(0, n));
        for (size_t i = 0; i < q.size(); ++i)
        {
            int lo = q[i].first, hi = q[i].second;
            if (lo >= hi)
            {
                continue;
            }
            int m = (lo + hi) / 2;
            r.push_back(m);
            q.push_back(std::make_pair(lo, m));
            q.push_back(std::make_pair(m + 1, hi));
        }
    }
    }
    return r;
}

enum Fam
{
    SET_FILL,   // insert in one order, remove in another
    SET_WINDOW, // sliding window: insert ahead, remove behind
    SET_CHURN,  // remove and re-insert around one point
    SET_COPY,   // fill, copy, then remove from the copy
    VEC_PUSH,   // append n values
    VEC_EMPLACE,
    VEC_FRONT,  // insert at the front
    VEC_MIDDLE,
    VEC_RANGE,  // insert ranges of q values
    VEC_RESIZE, // resize by steps of q
    VEC_RESERVE,// reserve n, then append n
    VEC_ASSIGN,
    LST_SORT,
    LST_MERGE,
    LST_ENDS,   // push at ends, pop from ends
    LST_INSERT, // insert values and ranges at moving positions, erase ranges
    LST_SPLICE, // move chunks between two lists and within one
    LST_COPY,   // copy, assign
    SP_COUNT,   // many pointers to one object
    NFAM
};
static const char* const fam_name[] = {"set: insert n, remove n",        "set: sliding window",      "set: churn",         "set: copy, remove from the copy",
                                       "vector: append n",               "vector: emplace_back n",   "vector: insert n at the front", "vector: insert n in the middle",
                                       "vector: insert ranges",          "vector: resize in steps",  "vector: reserve n, append n",   "vector: assign n",
                                       "list: sort n",                   "list: merge",
                                       "list: push n at the ends, pop n","list: insert n, erase n",  "list: splice chunks",           "list: copy and assign n",
                                       "n shared and weak pointers to one object"};
struct Case
{
    int fam, p, q, n;
};

struct LongWorld
{
    std::vector<Case> cases;
    bool on(int f) const
    {
        return (O.param("fams", (1 << NFAM) - 1) >> f) & 1;
    }
    void add(int f, int p, int q, int n)
    {
        if (on(f))
        {
            cases.push_back(Case{f, p, q, n});
        }
    }
    void setup()
    {
        int big = O.param("big", 257), dense = O.param("dense", 24);
        std::set<int> ns;
        for (int i = 1; i <= dense; ++i)
        {
            ns.insert(i);
        }
        for (int p = 32; p <= big; p *= 2)
        {
            ns.insert(p - 1);
            ns.insert(p);
            ns.insert(p + 1);
            ns.insert(p + p / 2);
        }
        for (int n : ns)
        {
            if (n > big)
            {
                continue;
            }
            for (int p = 0; p < NORDER; ++p)
            {
                for (int q = 0; q < NORDER; ++q)
                {
                    add(SET_FILL, p, q, n);
                }
                add(SET_COPY, p, (p * 5 + 3) % NORDER, n);
                add(SET_CHURN, p, 0, n);
                add(SET_CHURN, p, 1, n);
                add(SET_CHURN, p, 2, n);
                for (int m : {1, 2, 3, 5, 1 << 20})
                {
                    add(LST_SORT, p, m, n);
                    add(LST_MERGE, p, m, n);
                }
            }
            for (int q = 0; q < 4; ++q)
            {
                add(LST_ENDS, 0, q, n);
                add(LST_ENDS, 1, q, n);
                add(LST_INSERT, 0, q, n);
                add(LST_INSERT, 1, q, n);
                add(LST_SPLICE, 0, q, n);
                add(LST_SPLICE, 1, q, n);
                add(LST_COPY, 0, q, n);
                add(SP_COUNT, 0, q, n);
            }
            add(SET_WINDOW, 0, 0, n);
            add(SET_WINDOW, 1, 0, n);
            add(VEC_PUSH, 0, 0, n);
            add(VEC_PUSH, 1, 0, n);
            add(VEC_EMPLACE, 0, 0, n);
            add(VEC_FRONT, 0, 0, n);
            add(VEC_MIDDLE, 0, 0, n);
            for (int q : {1, 2, 3, 7, 20})
            {
                add(VEC_RANGE, 0, q, n);
                add(VEC_RANGE, 1, q, n);
                add(VEC_RESIZE, 0, q, n);
                add(VEC_RESIZE, 1, q, n);
                add(VEC_RESERVE, 0, q, n);
                add(VEC_ASSIGN, 0, q, n);
            }
        }
        for (int n : {1000, 3000, 10000})
        {
            if (n <= O.param("grow", 10000))
            {
                add(VEC_PUSH, 0, 0, n);
                add(VEC_PUSH, 1, 0, n);
                add(VEC_EMPLACE, 0, 0, n);
            }
        }
        // more elements than 16 bits can count
        for (int n : {33000, 66000})
        {
            if (n <= O.param("huge", 70000))
            {
                add(VEC_PUSH, 0, 0, n);
                add(VEC_RANGE, 0, 20, n);
                add(VEC_RESERVE, 0, 1, n);
                add(VEC_ASSIGN, 0, 3, n);
                add(VEC_RESIZE, 1, n / 3, n);
                add(LST_SORT, DESC, 1 << 20, n);
                add(LST_MERGE, STRIDE7, 1 << 20, n);
                add(LST_ENDS, 0, 1, n);
                add(LST_COPY, 0, 1, n);
                add(SET_FILL, ASC, STRIDEPHI, n);
                add(SET_COPY, DESC, ASC, n);
                for (int q = 0; q < 4; ++q)
                {
                    add(SP_COUNT, 0, q, n);
                }
            }
        }
    }
    unsigned tag(uint32_t op) const
    {
        return cases[op].fam == LST_SORT || cases[op].fam == LST_MERGE || cases[op].fam == LST_SPLICE ? T_RELINK : T_GEN;
    }
    int kind(uint32_t op) const
    {
        return cases[op].fam;
    }
    std::string kind_name(int k) const
    {
        return fam_name[k];
    }
    std::string name(uint32_t op) const
    {
        if (op >= cases.size())
        {
            return "?";
        }
        const Case& c = cases[op];
        std::string r = std::string(fam_name[c.fam]) + " n=" + std::to_string(c.n);
        if (c.fam == SET_FILL || c.fam == SET_COPY)
        {
            r += std::string(" insert ") + order_name[c.p] + ", remove " + order_name[c.q];
        }
        else if (c.fam == SET_CHURN || c.fam >= LST_SORT)
        {
            r += std::string(" ") + order_name[c.p] + " variant " + std::to_string(c.q);
        }
        else
        {
            r += " variant " + std::to_string(c.p) + "," + std::to_string(c.q);
        }
        return r;
    }
    bool leaf(uint32_t) const
    {
        return true;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < cases.size(); ++i)
        {
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
        rec.on = false;
    }
    void end()
    {
    }
    void key(Hasher& h, bool)
    {
        h.add(1);
    }

    // ------------------------------------------------------------ sets
    struct SM // set with model
    {
        Set s;
        std::set<int> m;
        std::map<int, const T*> addr;
        int dir;
        explicit SM(int d)
            : s(Cmp(d), make_alloc(3)), dir(d)
        {
        }
        void ins(int v)
        {
            Arg x(v);
            Err err;
            bool fresh = m.insert(v).second;
            size_t n = m.size() - fresh;
            rec.start();
            Arm arm(0);
            const T& cx = x.x;
            auto r = s.insert_nothrow(err, cx);
            G.armed = false;
            size_t d = rec.stop(std::addressof(x.x));
            CHECK(ERR, !err, "insertion failed though nothing fails");
            if (err)
            {
                return;
            }
            CHECK(RET, r.second == fresh && r.first != s.end() && ET::val(*r.first) == v, "insert of %d is wrong", v);
            CHECK(BALANCE, log_ok(d > 0 ? d - 1 : 0, n), "an insertion into %zu keys examined %zu keys", n, d);
            if (fresh)
            {
                addr[v] = std::addressof(*r.first);
            }
        }
        void del(int v, bool by_key)
        {
            Arg x(v);
            size_t n = m.size();
            bool had = m.count(v) != 0;
            if (by_key)
            {
                rec.start();
                Arm arm(0);
                size_t k = s.erase(x.x);
                G.armed = false;
                size_t d = rec.stop(std::addressof(x.x));
                CHECK(RET, k == (had ? 1u : 0u), "erase of %d reports %zu", v, k);
                // erasure may search both bounds of the key: two descents
                double r = (double)(n + 1) * (double)(n + 1);
                double p = 1;
                for (size_t i = 0; i + 1 < d && p < 1e300; ++i)
                {
                    p *= 2;
                }
                CHECK(BALANCE, p <= r * r, "an erasure from %zu keys examined %zu keys", n, d);
            }
            else if (had)
            {
                auto it = s.find(x.x);
                CHECK(RET, it != s.end(), "find of %d is wrong", v);
                if (it == s.end())
                {
                    return;
                }
                auto nx = s.erase(it);
                auto mi = m.upper_bound(v);
                if (dir > 0)
                {
                    CHECK(RET, (nx == s.end()) == (mi == m.end()) && (nx == s.end() || ET::val(*nx) == *mi), "erase of %d returns a wrong position", v);
                }
            }
            m.erase(v);
            addr.erase(v);
        }
        void deep()
        {
            size_t n = m.size(), i = 0;
            CHECK(CONTENT, s.size() == n && s.empty() == m.empty(), "size is %zu, expected %zu", (size_t)s.size(), n);
            std::vector<int> want(m.begin(), m.end());
            if (dir < 0)
            {
                std::reverse(want.begin(), want.end());
            }
            auto it = s.cbegin();
            for (; it != s.cend() && i < n; ++it, ++i)
            {
                CHECK(CONTENT, ET::val(*it) == want[i], "key %zu is %d, expected %d", i, ET::val(*it), want[i]);
                CHECK(STABLE, std::addressof(*it) == addr[want[i]], "key %d moved", want[i]);
                if (G.nviol)
                {
                    return;
                }
            }
            CHECK(CONTENT, i == n && it == s.cend(), "iteration ends after %zu of %zu keys", i, n);
            i = n;
            for (auto r = s.rbegin(); r != s.rend() && i > 0 && !G.nviol; ++r)
            {
                --i;
                CHECK(CONTENT, ET::val(*r) == want[i], "backwards, key %zu is %d, expected %d", i, ET::val(*r), want[i]);
            }
            CHECK(CONTENT, i == 0, "backward iteration ends early");
            size_t longest = 0, shortest = (size_t)-1;
            for (size_t g = 0; g <= 2 * n && !G.nviol; g += n > 5000 ? 17 : 1)
            {
                int v = g % 2 ? want[g / 2] : g == 2 * n ? (n ? want[n - 1] + dir : 0) : want[g / 2] - dir;
                Arg x(v);
                rec.start();
                auto f = s.find(x.x);
                size_t d = rec.stop(std::addressof(x.x));
                bool have = m.count(v) != 0;
                CHECK(RET, (f != s.end()) == have && (!have || ET::val(*f) == v), "find of %d is wrong", v);
                CHECK(BALANCE, log_ok(d, n), "a search in %zu keys examined %zu keys", n, d);
                if (!have)
                {
                    longest = std::max(longest, d);
                    shortest = std::min(shortest, d);
                }
            }
            CHECK(BALANCE, n == 0 || shortest == (size_t)-1 || longest <= 2 * shortest, "descents of %zu and %zu keys in the same set of %zu", longest, shortest, n);
        }
    };
    // a full check after every step for small sets, sparser for large ones
    static bool due(int step, int n)
    {
        return n <= 24 || step % (n > 5000 ? n / 2 : n / 12) == 0;
    }
    void set_case(const Case& c)
    {
        int dir = (c.p + c.q + c.n) % 2 ? 1 : -1;
        SM x(dir);
        int step = 0;
        if (c.fam == SET_WINDOW)
        {
            for (int i = 0; i < 4 * c.n && !G.nviol; ++i)
            {
                x.ins(2 * (c.p ? 8 * c.n - i : i));
                if (i >= c.n)
                {
                    x.del(2 * (c.p ? 8 * c.n - (i - c.n) : i - c.n), i % 2);
                }
                if (due(step++, 4 * c.n))
                {
                    x.deep();
                }
            }
            return;
        }
        for (int v : order(c.p, c.n))
        {
            x.ins(2 * v);
            if (due(step++, c.n))
            {
                x.deep();
            }
            if (G.nviol)
            {
                return;
            }
        }
        x.deep();
        if (c.fam == SET_CHURN)
        {
            // remove and re-insert 2n times around the first, the middle or the last keys
            for (int i = 0; i < 2 * c.n && !G.nviol; ++i)
            {
                int k = c.q == 0 ? i % (c.n / 3 + 1) : c.q == 1 ? c.n - 1 - i % (c.n / 3 + 1) : (c.n / 2 + i % (c.n / 3 + 1)) % c.n;
                x.del(2 * k, i % 2);
                if (i >= c.n / 4)
                {
                    x.ins(2 * ((k * 5 + i) % c.n));
                }
                if (due(i, 2 * c.n))
                {
                    x.deep();
                }
            }
            return;
        }
        if (c.fam == SET_COPY)
        {
            SM y(-dir);
            Err err;
            {
                Arm arm(0);
                y.s.copy_nothrow(err, x.s);
            }
            CHECK(ERR, !err, "copying failed though nothing fails");
            y.dir = dir;
            y.m = x.m;
            for (auto& k : y.s)
            {
                y.addr[ET::val(k)] = std::addressof(k);
            }
            y.deep();
            x.deep();
            step = 0;
            for (int v : order(c.q, c.n))
            {
                if (G.nviol)
                {
                    return;
                }
                y.del(2 * v, step % 2);
                if (due(step++, c.n))
                {
                    y.deep();
                }
            }
            x.deep();
            return;
        }
        step = 0;
        for (int v : order(c.q, c.n))
        {
            if (G.nviol)
            {
                return;
            }
            x.del(2 * v, step % 2 == (c.n & 1));
            if (due(step++, c.n))
            {
                x.deep();
            }
        }
        x.deep();
    }

    // ------------------------------------------------------------ vectors
    static void vsame(Vec& v, const Seq& m)
    {
        CHECK(CONTENT, v.size() == m.size() && v.capacity() >= v.size(), "size %zu, capacity %zu, expected size %zu", (size_t)v.size(), (size_t)v.capacity(),
              m.size());
        for (size_t i = 0; i < m.size() && !G.nviol; ++i)
        {
            CHECK(CONTENT, ET::val(v[i]) == m[i], "element %zu is %d, expected %d", i, ET::val(v[i]), m[i]);
        }
    }
    void vec_case(const Case& c)
    {
        Vec v(make_alloc(4));
        Seq m;
        long allocs = 0, moved = 0;
        size_t n = c.n;
        int step = 0;
        // one checked step: memory is requested only when the capacity is exceeded
        auto around = [&](size_t grow_by, std::function<void(Err&)> f) {
            size_t cap = v.capacity(), need = v.size() + grow_by;
            const T* first = v.size() ? std::addressof(v[0]) : nullptr;
            Err err;
            {
                Arm arm(0);
                f(err);
            }
            allocs += G.n_alloc;
            moved += G.n_copy + G.n_move;
            CHECK(ERR, !err, "the operation failed though nothing fails");
            if (need <= cap)
            {
                CHECK(STABLE, G.n_alloc == 0, "%ld memory requests though %zu elements fit the capacity %zu", G.n_alloc, need, cap);
                CHECK(STABLE, !first || v.empty() || std::addressof(v[0]) == first, "elements moved though %zu elements fit the capacity %zu", need, cap);
                CHECK(STABLE, v.capacity() >= cap, "the capacity shrank");
            }
            if (due(step++, (int)n))
            {
                vsame(v, m);
            }
        };
        auto logn = [&](size_t x) {
            long l = 0;
            while (x)
            {
                ++l;
                x /= 2;
            }
            return 4 * l + 8;
        };
        bool grow = false;
        switch (c.fam)
        {
        case VEC_PUSH:
            grow = true;
            for (size_t i = 0; i < n && !G.nviol; ++i)
            {
                m.push_back((int)i);
                Arg x((int)i);
                around(1, [&](Err& e) {
#if CFG_ELEM != 3
                    if (c.p)
                    {
                        v.push_back_nothrow(e, std::move(x.x));
                        return;
                    }
#endif
                    const T& cx = x.x;
                    v.push_back_nothrow(e, cx);
                });
            }
            break;
        case VEC_EMPLACE:
            grow = true;
            for (size_t i = 0; i < n && !G.nviol; ++i)
            {
                m.push_back((int)i);
                around(1, [&](Err& e) { v.emplace_back_nothrow(e, (int)i); });
            }
            break;
        case VEC_FRONT:
        case VEC_MIDDLE:
            grow = true;
            for (size_t i = 0; i < n && !G.nviol; ++i)
            {
                size_t at = c.fam == VEC_FRONT ? 0 : m.size() / 2;
                m.insert(m.begin() + at, (int)i);
                Arg x((int)i);
                long ret = -1;
                around(1, [&](Err& e) {
                    const T& cx = x.x;
                    auto it = v.insert_nothrow(e, v.cbegin() + at, cx);
                    ret = it - v.begin();
                });
                CHECK(RET, ret == (long)at, "insertion at %zu returned %ld", at, ret);
            }
            break;
        case VEC_RANGE:
            while (m.size() < n && !G.nviol)
            {
                size_t at = c.p ? m.size() / 2 : m.size();
                Seq r;
                for (int k = 0; k < c.q; ++k)
                {
                    r.push_back((int)m.size() + k);
                }
                ArgArr x(r);
                m.insert(m.begin() + at, r.begin(), r.end());
                around(c.q, [&](Err& e) { v.insert_nothrow(e, v.cbegin() + at, (const T*)x.begin(), (const T*)x.end()); });
            }
            break;
        case VEC_RESIZE:
            while (m.size() < n && !G.nviol)
            {
                size_t to = m.size() + c.q;
                Arg x(7);
                m.resize(to, c.p ? 7 : 0);
                around(c.q, [&](Err& e) {
                    if (c.p)
                    {
                        v.resize_nothrow(e, to, x.x);
                    }
                    else
                    {
                        v.resize_nothrow(e, to);
                    }
                });
            }
            while (!m.empty() && !G.nviol)
            {
                size_t to = m.size() > (size_t)c.q + 1 ? m.size() - c.q - 1 : 0;
                m.resize(to);
                around(0, [&](Err& e) { v.resize_nothrow(e, to); });
            }
            break;
        case VEC_RESERVE:
        {
            around(n + c.q, [&](Err& e) { v.reserve_nothrow(e, n + c.q); });
            CHECK(STABLE, v.capacity() >= n + c.q, "reserve of %zu gives capacity %zu", n + c.q, (size_t)v.capacity());
            allocs = 0;
            for (size_t i = 0; i < n + c.q && !G.nviol; ++i)
            {
                m.push_back((int)i);
                Arg x((int)i);
                around(1, [&](Err& e) {
                    const T& cx = x.x;
                    v.push_back_nothrow(e, cx);
                });
            }
            CHECK(STABLE, allocs == 0, "memory was requested %ld times after reserve", allocs);
            break;
        }
        case VEC_ASSIGN:
            for (size_t k : {n, n / 2, n + c.q})
            {
                Arg x((int)k);
                Err err;
                {
                    Arm arm(0);
                    v.assign_nothrow(err, k, x.x);
                }
                CHECK(ERR, !err, "assign failed though nothing fails");
                m.assign(k, (int)k);
                vsame(v, m);
            }
            break;
        }
        CHECK(STABLE, !grow || allocs <= logn(n), "%ld memory requests for %zu appended elements", allocs, n);
        vsame(v, m);
    }

    // ------------------------------------------------------------ lists
    struct LItem
    {
        int v;
        const T* p;
        uint32_t st;
    };
    struct LM // list with model
    {
        List l;
        std::vector<LItem> m;
        explicit LM(int id)
            : l(make_alloc(id))
        {
        }
        List::const_iterator at(size_t i)
        {
            if (i > m.size() / 2)
            {
                auto it = l.cend();
                for (size_t k = m.size(); k > i; --k)
                {
                    --it;
                }
                return it;
            }
            auto it = l.cbegin();
            for (size_t k = 0; k < i; ++k)
            {
                ++it;
            }
            return it;
        }
        // give the k new elements at i (values vals) their identity
        void learn(size_t i, const Seq& vals)
        {
            if (l.size() != m.size() + vals.size())
            {
                violate(CONTENT, "size is %zu, expected %zu", (size_t)l.size(), m.size() + vals.size());
                return;
            }
            std::vector<LItem> add;
            m.insert(m.begin() + i, vals.size(), LItem{0, nullptr, 0});
            auto it = at(i);
            for (size_t k = 0; k < vals.size(); ++k, ++it)
            {
                m[i + k] = LItem{vals[k], std::addressof(*it), stamp_of(std::addressof(*it))};
            }
        }
        void learn_all(const Seq& v)
        {
            size_t k = 0;
            for (auto it = l.cbegin(); it != l.cend() && k < v.size(); ++it, ++k)
            {
                m.push_back(LItem{v[k], std::addressof(*it), stamp_of(std::addressof(*it))});
            }
        }
        void same()
        {
            CHECK(CONTENT, l.size() == m.size() && l.empty() == m.empty(), "size is %zu, expected %zu", (size_t)l.size(), m.size());
            size_t k = 0;
            auto it = l.begin();
            for (; it != l.end() && k < m.size() && !G.nviol; ++it, ++k)
            {
                CHECK(CONTENT, ET::val(*it) == m[k].v, "element %zu is %d, expected %d", k, ET::val(*it), m[k].v);
                CHECK(STABLE, std::addressof(*it) == m[k].p && (!ET::tracked || stamp_of(m[k].p) == m[k].st), "element %zu moved or was touched", k);
            }
            CHECK(CONTENT, k == m.size() && it == l.end(), "iteration ends after %zu of %zu elements", k, m.size());
            for (auto r = l.crbegin(); r != l.crend() && k > 0 && !G.nviol; ++r)
            {
                --k;
                CHECK(CONTENT, std::addressof(*r) == m[k].p, "backwards, element %zu is wrong", k);
            }
            CHECK(CONTENT, k == 0, "backward iteration ends early");
        }
    };
    void list_gen(const Case& c)
    {
        LM x(5), y(5);
        size_t n = c.n;
        int step = 0;
        auto ok = [&](const Err& e) { CHECK(ERR, !e, "the operation failed though nothing fails"); };
        auto push = [&](LM& t, int v, bool back, int how) {
            Arg a(v);
            Err err;
            {
                Arm arm(0);
                const T& cx = a.x;
                if (how % 3 == 0)
                {
                    back ? t.l.push_back_nothrow(err, cx) : t.l.push_front_nothrow(err, cx);
                }
                else if (how % 3 == 1)
                {
                    back ? t.l.emplace_back_nothrow(err, v) : t.l.emplace_front_nothrow(err, v);
                }
                else
                {
                    back ? (void)t.l.insert_nothrow(err, t.l.cend(), cx) : (void)t.l.insert_nothrow(err, t.l.cbegin(), cx);
                }
            }
            ok(err);
            if (err)
            {
                return;
            }
            const T* p = std::addressof(back ? t.l.back() : t.l.front());
            t.m.insert(back ? t.m.end() : t.m.begin(), LItem{v, p, stamp_of(p)});
        };
        auto due_same = [&](LM& t) {
            if (due(step++, (int)n))
            {
                t.same();
            }
        };
        switch (c.fam)
        {
        case LST_ENDS:
            for (size_t i = 0; i < n && !G.nviol; ++i)
            {
                push(x, (int)i, c.q == 0 || (c.q == 2 && i % 2) || (c.q == 1 && i % 1000) || (c.q == 3 && i % 3 == 0 && i < 1000), (int)i + c.p);
                due_same(x);
            }
            x.same();
            while (!x.m.empty() && !G.nviol)
            {
                bool back = c.p ? x.m.size() % 2 == 0 : c.q % 2 == 1;
                if (!back && x.m.size() > 2000)
                {
                    back = true;
                }
                {
                    Arm arm(0);
                    back ? x.l.pop_back() : x.l.pop_front();
                }
                CHECK(LIFE, !ET::tracked || G.n_dtor == 1, "%ld elements were destroyed by a pop", G.n_dtor);
                x.m.erase(back ? x.m.end() - 1 : x.m.begin());
                due_same(x);
            }
            break;
        case LST_INSERT:
        {
            int v = 0;
            while (x.m.size() < n && !G.nviol)
            {
                size_t at = (x.m.size() * 7 + v) % (x.m.size() + 1);
                Seq r;
                int k = c.q == 0 ? 1 : c.q == 1 ? 3 : c.q == 2 ? 20 : 70;
                Err err;
                long ret = -1;
                if (c.p && k > 1)
                {
                    Arg a(v);
                    r.assign(k, v);
                    Arm arm(0);
                    x.l.insert_nothrow(err, x.at(at), (size_t)k, a.x);
                }
                else
                {
                    for (int i = 0; i < k; ++i)
                    {
                        r.push_back(v + i);
                    }
                    ArgArr a(r);
                    Arm arm(0);
                    if (k == 1)
                    {
                        const T& cx = *a.begin();
                        auto it = x.l.insert_nothrow(err, x.at(at), cx);
                        G.armed = false;
                        ret = it != x.l.end() ? ET::val(*it) : -1;
                        CHECK(RET, ret == v, "insertion returned a wrong position");
                    }
                    else
                    {
                        x.l.insert_nothrow(err, x.at(at), (const T*)a.begin(), (const T*)a.end());
                    }
                }
                ok(err);
                v += k;
                x.learn(at, r);
                due_same(x);
            }
            x.same();
            while (!x.m.empty() && !G.nviol)
            {
                size_t f = (x.m.size() * 5 + v) % x.m.size();
                size_t k = c.q == 0 ? 1 : c.q == 1 ? 4 : c.q == 2 ? 19 : 64;
                size_t l = std::min(x.m.size(), f + k);
                auto fi = x.at(f), li = x.at(l);
                {
                    Arm arm(0);
                    auto r = k == 1 ? x.l.erase(fi) : x.l.erase(fi, li);
                    G.armed = false;
                    CHECK(RET, List::const_iterator(r) == li, "erase returned a wrong position");
                }
                CHECK(LIFE, !ET::tracked || G.n_dtor == (long)(l - f), "%ld elements were destroyed, expected %zu", G.n_dtor, l - f);
                x.m.erase(x.m.begin() + f, x.m.begin() + l);
                ++v;
                due_same(x);
            }
            break;
        }
        case LST_SPLICE:
        {
            for (size_t i = 0; i < n; ++i)
            {
                push(x, (int)i, true, 0);
                push(y, (int)(1000 + i), false, 1);
            }
            for (size_t i = 0; i < 12 && !G.nviol; ++i)
            {
                LM &t = i % 2 ? y : x, &u = i % 3 == 2 ? t : i % 2 ? x : y;
                size_t k = c.q == 0 ? 1 : c.q == 1 ? n / 2 : c.q == 2 ? u.m.size() : (n * (i + 1)) / 13;
                size_t f = u.m.size() ? (i * 5) % u.m.size() : 0;
                size_t l = std::min(u.m.size(), f + k);
                if (c.q == 2)
                {
                    f = 0;
                    l = u.m.size();
                }
                size_t at = (i * 11) % (t.m.size() + 1);
                if (&t == &u && at > f && at < l)
                {
                    at = c.p ? l : f;
                }
                auto pos = t.at(at), fi = u.at(f), li = u.at(l);
                {
                    Arm arm(0);
                    if (c.q == 0 && f < l)
                    {
                        t.l.splice(pos, u.l, fi);
                    }
                    else if (c.q == 2 && &t != &u)
                    {
                        t.l.splice(pos, u.l);
                    }
                    else
                    {
                        t.l.splice(pos, u.l, fi, li);
                    }
                }
                CHECK(NOCOST, G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_dtor == 0, "splice touched elements or memory");
                std::vector<LItem> part(u.m.begin() + f, u.m.begin() + l);
                u.m.erase(u.m.begin() + f, u.m.begin() + l);
                if (&t == &u && at >= l)
                {
                    at -= l - f;
                }
                t.m.insert(t.m.begin() + at, part.begin(), part.end());
                x.same();
                y.same();
            }
            break;
        }
        default: // LST_COPY
        {
            for (size_t i = 0; i < n && !G.nviol; ++i)
            {
                push(x, (int)i, true, (int)i);
            }
            for (size_t i = 0; i < (c.q == 0 ? 0 : c.q == 1 ? n : c.q == 2 ? n / 2 : 2 * n); ++i)
            {
                push(y, 7, n > 2000, 0);
            }
            auto relearn = [&](LM& t, const Seq& v) {
                t.m.clear();
                if (t.l.size() != v.size())
                {
                    violate(CONTENT, "size is %zu, expected %zu", (size_t)t.l.size(), v.size());
                    return;
                }
                t.learn_all(v);
            };
            Seq xs;
            for (auto& i : x.m)
            {
                xs.push_back(i.v);
            }
            Err err;
            {
                Arm arm(0);
                y.l.copy_nothrow(err, x.l);
            }
            ok(err);
            relearn(y, xs);
            x.same();
            y.same();
            CHECK(CONTENT, G.nviol || y.l == x.l, "a copy is not equal to its source");
            for (size_t k : {n, n / 2, n + 3})
            {
                if (G.nviol)
                {
                    return;
                }
                Arg a((int)k);
                Err e2;
                {
                    Arm arm(0);
                    y.l.assign_nothrow(e2, k, a.x);
                }
                ok(e2);
                relearn(y, Seq(k, (int)k));
                y.same();
                x.same();
            }
            {
                Arm arm(0);
                y.l.clear();
            }
            y.m.clear();
            y.same();
        }
        }
        x.same();
        y.same();
    }

    // ------------------------------------------------------------ counts
    struct SObj
    {
        int v;
        SObj() noexcept
            : v(5)
        {
            reg_ctor(this, sizeof *this, alignof(SObj));
        }
        SObj(const SObj&) = delete;
        ~SObj() noexcept
        {
            reg_dtor(this);
        }
    };
    void count_case(const Case& c)
    {
        typedef nestl::shared_ptr<SObj> SP;
        typedef nestl::weak_ptr<SObj> WP;
        size_t n = c.n;
        Err err;
        SP first;
        {
            Arm arm(0);
            TrackAlloc<SObj> al(6);
            first = nestl::make_shared_a_nothrow<SObj>(err, al);
        }
        CHECK(ERR, !err && first, "creating the object failed");
        if (G.nviol)
        {
            return;
        }
        const SObj* o = first.get();
        bool with_s = c.q != 1, with_w = c.q != 0;
        std::vector<SP> s;
        std::vector<WP> w;
        s.reserve(n);
        w.reserve(n);
        for (size_t i = 0; i < n && !G.nviol; ++i)
        {
            if (with_s)
            {
                i % 2 ? s.push_back(first) : s.push_back(s.empty() ? first : s.back());
            }
            if (with_w)
            {
                i % 2 ? w.push_back(WP(first)) : w.push_back(w.empty() ? WP(first) : w.back());
            }
            CHECK(COUNT, first.use_count() == (long)s.size() + 1, "use count is %ld with %zu pointers", first.use_count(), s.size() + 1);
            CHECK(COUNT, first.unique() == s.empty(), "unique() is wrong with %zu pointers", s.size() + 1);
            CHECK(COUNT, w.empty() || (!w.back().expired() && w.back().use_count() == (long)s.size() + 1), "a weak pointer is wrong with %zu pointers", s.size() + 1);
            CHECK(LIFE, reg_alive(o), "the object is dead with %zu pointers", s.size() + 1);
        }
        first.reset();
        if (!with_s)
        {
            CHECK(LIFE, !reg_alive(o), "the object survives its last shared pointer");
        }
        bool weak_first = c.q == 3;
        for (size_t i = 0; i < n && !G.nviol; ++i)
        {
            if (weak_first && with_w)
            {
                w.pop_back();
            }
            if (with_s)
            {
                s.pop_back();
                CHECK(LIFE, reg_alive(o) == !s.empty(), "the object is %s with %zu pointers", reg_alive(o) ? "alive" : "dead", s.size());
                CHECK(COUNT, s.empty() || s[0].use_count() == (long)s.size(), "use count is %ld with %zu pointers", s[0].use_count(), s.size());
            }
            if (!weak_first && with_w && !s.empty())
            {
                CHECK(COUNT, w.back().use_count() == (long)s.size() && w.back().lock().get() == o, "a weak pointer is wrong with %zu pointers", s.size());
            }
        }
        CHECK(LIFE, A_liveblocks == (w.empty() ? 0u : 1u), "%zu blocks are allocated with %zu weak pointers", A_liveblocks, w.size());
        while (!w.empty() && !G.nviol)
        {
            CHECK(COUNT, w.back().expired() && !w.back().lock(), "an expired weak pointer came alive");
            w.pop_back();
            CHECK(LIFE, A_liveblocks == (w.empty() ? 0u : 1u), "%zu blocks are allocated with %zu weak pointers", A_liveblocks, w.size());
        }
    }
    void list_case(const Case& c)
    {
        List l(make_alloc(5));
        struct It
        {
            int v;
            const T* p;
        };
        std::vector<It> m, m2;
        List l2(make_alloc(5));
        int i = 0;
        for (int v : order(c.p, c.n))
        {
            Arg x(c.q > 100 ? v : v % c.q);
            Err err;
            const T& cx = x.x;
            List& to = c.fam == LST_MERGE && i % 3 == 0 ? l2 : l;
            Arm arm(0);
            to.push_back_nothrow(err, cx);
            G.armed = false;
            CHECK(ERR, !err, "appending failed though nothing fails");
            (&to == &l ? m : m2).push_back(It{ET::val(x.x), std::addressof(to.back())});
            ++i;
        }
        auto sorted = [](std::vector<It>& x) { std::stable_sort(x.begin(), x.end(), [](const It& a, const It& b) { return a.v < b.v; }); };
        auto same = [](List& x, const std::vector<It>& y) {
            size_t k = 0;
            auto it = x.begin();
            for (; it != x.end() && k < y.size(); ++it, ++k)
            {
                if (std::addressof(*it) != y[k].p || ET::val(*it) != y[k].v)
                {
                    return false;
                }
            }
            if (it != x.end() || k != y.size() || x.size() != y.size())
            {
                return false;
            }
            for (auto r = x.end(); k--;)
            {
                --r;
                if (std::addressof(*r) != y[k].p)
                {
                    return false;
                }
            }
            return true;
        };
        auto less = [](const T& a, const T& b) {
            G.n_cmp += G.armed;
            return ET::val(a) < ET::val(b);
        };
        const long n1 = (long)m.size(), n2 = (long)m2.size();
        {
            Arm arm(0);
            if (c.n % 2)
            {
                l.sort(less);
                l2.sort(less);
            }
            else
            {
                l.sort();
                l2.sort();
            }
        }
        CHECK(NOCOST, G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_dtor == 0, "sort touched elements or memory");
        CHECK(NOCOST, G.n_cmp <= sort_bound(n1) + sort_bound(n2), "sorting %ld and %ld elements took %ld comparisons", n1, n2, G.n_cmp);
        sorted(m);
        sorted(m2);
        CHECK(CONTENT, same(l, m) && same(l2, m2), "sorting %d elements is wrong or not stable", c.n);
        if (c.fam == LST_MERGE && !G.nviol)
        {
            {
                Arm arm(0);
                if (c.n % 3)
                {
                    l.merge(l2, less);
                }
                else
                {
                    l.merge(l2);
                }
            }
            CHECK(NOCOST, G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_dtor == 0, "merge touched elements or memory");
            CHECK(NOCOST, G.n_cmp <= merge_bound(n1 + n2), "merging %ld and %ld elements took %ld comparisons", n1, n2, G.n_cmp);
            m.insert(m.end(), m2.begin(), m2.end());
            sorted(m);
            m2.clear();
            CHECK(CONTENT, same(l, m) && same(l2, m2), "merging %d elements is wrong or not stable", c.n);
        }
    }

    void apply(uint32_t op, int)
    {
        const Case& c = cases[op];
        G.fault_cnt = 0;
        G.fired = 0;
        if (c.fam <= SET_COPY)
        {
            set_case(c);
        }
        else if (c.fam < LST_SORT)
        {
            vec_case(c);
        }
        else if (c.fam == SP_COUNT)
        {
            count_case(c);
        }
        else if (c.fam > LST_MERGE)
        {
            list_gen(c);
        }
        else
        {
            list_case(c);
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::LongWorld>(argc, argv, "long");
}
