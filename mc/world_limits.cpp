// Requested sizes: every power of two, every limit divided by the element size, and their neighbours,
// for several element sizes, starting contents and operations.  Sizes are compared in 128 bits.
#define CFG_ELEM 0
#include "common.hpp"
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/vector.hpp>

namespace mc
{
typedef unsigned __int128 u128;
static const size_t GRANT = 20000; // bytes an allocator of this world hands out at most

template <size_t N>
struct Sz
{
    unsigned char c[N];
    Sz() noexcept
        : c()
    {
    }
    explicit Sz(int v) noexcept
        : c()
    {
        c[0] = (unsigned char)v;
    }
    bool operator<(const Sz& o) const
    {
        return c[0] < o.c[0];
    }
};

static u128 last_bytes;   // bytes of the last request
static size_t last_count; // elements of the last request
static bool exhausted;    // a request was refused
static int nodes_left = 1 << 30;

// SZ: the type the allocator counts elements with
template <class T, class SZ = std::size_t>
class LimAlloc
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef SZ size_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U>
    struct rebind
    {
        typedef LimAlloc<U, SZ> other;
    };
    LimAlloc() noexcept
    {
    }
    template <class U>
    LimAlloc(const LimAlloc<U, SZ>&) noexcept
    {
    }
    template <class E>
    pointer allocate(E& err, size_type n, const void* = 0) noexcept
    {
        last_bytes = (u128)n * sizeof(T);
        last_count = n;
        if (last_bytes > GRANT || nodes_left-- <= 0)
        {
            exhausted = true;
            build_bad_alloc(err);
            return nullptr;
        }
        return static_cast<pointer>(arena_alloc((size_t)last_bytes, n, 9));
    }
    void deallocate(pointer p, size_type n) noexcept
    {
        arena_free(p, n, 9, true);
    }
};

enum Route
{
    ALLOCATE, // nestl::allocator::allocate
    TRAITS,   // allocator_traits::allocate on nestl::allocator
    RESERVE,
    RESIZE,
    RESIZE_V,
    ASSIGN_N,
    ASSIGN_RA,
    D_RESERVE, // the same with nestl::allocator
    D_RESIZE,
    D_ASSIGN_N,
    L_ASSIGN_N,
    L_INSERT_N,
    MAXSIZE,
    NROUTE
};
static const char* const route_name[] = {"allocator.allocate", "allocator_traits::allocate", "vector.reserve_nothrow", "vector.resize_nothrow(n)",
                                         "vector.resize_nothrow(n,v)", "vector.assign_nothrow(n,v)", "vector.assign_nothrow(random access range)",
                                         "vector<default allocator>.reserve_nothrow", "vector<default allocator>.resize_nothrow",
                                         "vector<default allocator>.assign_nothrow(n,v)", "list.assign_nothrow(n,v)", "list.insert_nothrow(n,v)", "max_size"};

struct Case
{
    int esz; // index
    int route;
    int start;
    size_t n;
    int width; // bits the allocator counts with
};

template <class E>
struct Rep // n copies of one value as a random access range
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    const E* v;
    std::ptrdiff_t i;
    const E& operator*() const
    {
        return *v;
    }
    Rep& operator++()
    {
        ++i;
        return *this;
    }
    Rep operator++(int)
    {
        Rep r = *this;
        ++i;
        return r;
    }
    Rep& operator--()
    {
        --i;
        return *this;
    }
    Rep& operator+=(std::ptrdiff_t d)
    {
        i += d;
        return *this;
    }
    friend std::ptrdiff_t operator-(const Rep& a, const Rep& b)
    {
        return a.i - b.i;
    }
    friend Rep operator+(Rep a, std::ptrdiff_t d)
    {
        a.i += d;
        return a;
    }
    bool operator==(const Rep& o) const
    {
        return i == o.i;
    }
    bool operator!=(const Rep& o) const
    {
        return i != o.i;
    }
    bool operator<(const Rep& o) const
    {
        return i < o.i;
    }
};

static const size_t sizes[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 33, 64, 100, 256, 1000, 4097, 65536};
static const int NSZ = sizeof sizes / sizeof *sizes;

struct LimWorld
{
    std::vector<Case> cases;

    static std::vector<size_t> interesting(size_t sz, size_t step)
    {
        std::set<size_t> s;
        auto put = [&](u128 x, int d) {
            for (int k = -d; k <= d; ++k)
            {
                u128 y = x + (u128)(__int128)k;
                if (y <= (u128)SIZE_MAX)
                {
                    s.insert((size_t)y);
                }
            }
        };
        for (size_t i = 0; i < 40; i += step)
        {
            s.insert(i);
        }
        for (int b = 0; b <= 64; ++b)
        {
            put((u128)1 << b, 2);
            put(((u128)1 << b) / sz, 2);
            put(((u128)3 << b) / sz, 1);
            put(((u128)3 << b), 1);
            put(((u128)1 << 64) - ((u128)1 << b) / (b == 64 ? 2 : 1), 1);
        }
        for (int m = 1; m <= 16; ++m) // n * sz wraps m times
        {
            put(((u128)m << 64) / sz, 2);
            put(((u128)m << 64) / sz + 50, 1);
            put(((u128)m << 63) / sz, 2);
            put(((u128)m << 64) / (sz + 8), 1);
            put(((u128)m << 64) / (sz + 16), 1);
        }
        put(GRANT / sz, 3);
        put(GRANT * 2 / 3 / sz, 3);
        put(SIZE_MAX, 3);
        put(SIZE_MAX / 3, 3);
        put(SIZE_MAX / 3 * 2, 3);
        return std::vector<size_t>(s.begin(), s.end());
    }

    void setup()
    {
        for (int e = 0; e < NSZ; ++e)
        {
            std::vector<size_t> ns = interesting(sizes[e], 1);
            for (int r = 0; r < NROUTE; ++r)
            {
                if (r == MAXSIZE)
                {
                    cases.push_back(Case{e, r, 0, 0, 64});
                    continue;
                }
                bool start = r >= RESERVE;
                for (int k : {0, 1, 3})
                {
                    if (k && !start)
                    {
                        continue;
                    }
                    if (k * sizes[e] * 2 > GRANT)
                    {
                        continue;
                    }
                    for (size_t n : ns)
                    {
                        if (r == ASSIGN_RA && n > (size_t)PTRDIFF_MAX)
                        {
                            continue;
                        }
                        cases.push_back(Case{e, r, k, n, 64});
                        if (r >= RESERVE && r <= ASSIGN_RA && k != 1 && e % 4 == r % 4)
                        {
                            for (int w : {8, 16, 32})
                            {
                                cases.push_back(Case{e, r, k, n, w});
                            }
                        }
                    }
                }
            }
        }
    }
    unsigned tag(uint32_t) const
    {
        return T_GEN;
    }
    int kind(uint32_t op) const
    {
        return cases[op].route;
    }
    std::string kind_name(int k) const
    {
        return route_name[k];
    }
    std::string name(uint32_t op) const
    {
        const Case& c = cases[op];
        return std::string(route_name[c.route]) + " n=" + std::to_string(c.n) + " element size " + std::to_string(sizes[c.esz]) + " starting with " +
               std::to_string(c.start) + " elements" + (c.width < 64 ? ", sizes of " + std::to_string(c.width) + " bits" : "");
    }
    bool leaf(uint32_t) const
    {
        return true;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < cases.size(); ++i)
        {
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
        last_bytes = 0;
        last_count = 0;
        exhausted = false;
    }
    void end()
    {
    }
    void key(Hasher& h, bool)
    {
        h.add(1);
    }

    static void refuse(const Err& err, size_t n, size_t maxn, bool ex)
    {
        Cause c = cause_of(err);
        if (n > maxn)
        {
            CHECK(LIMIT, c.k == C_LENGTH, "a request for %zu elements, beyond the maximum %zu, is reported as %s", n, maxn, cause_name[c.k]);
        }
        else
        {
            CHECK(LIMIT, c.k == C_BADALLOC, "a request for %zu elements, within the maximum %zu, is reported as %s", n, maxn, cause_name[c.k]);
            CHECK(LIMIT, ex, "a request for %zu elements was refused though memory was never refused", n);
        }
    }

    template <class V, class E>
    static void vec(const Case& c)
    {
        V v;
        Err e0, err;
        {
            Arm arm(0);
            for (int i = 0; i < c.start; ++i)
            {
                E x(i + 1);
                v.push_back_nothrow(e0, x);
            }
            if (e0)
            {
                violate(LIMIT, "a small vector could not be filled: %s", cause_name[cause_of(e0).k]);
                return;
            }
        }
        const E* addr = c.start ? &v[0] : nullptr;
        size_t cap0 = v.capacity(), maxn = v.max_size();
        const size_t count_limit = c.width < 64 ? ((size_t)1 << c.width) - 1 : SIZE_MAX;
        CHECK(LIMIT, maxn <= count_limit, "max_size() is %zu, though the allocator counts to %zu", maxn, count_limit);
        last_bytes = 0;
        last_count = 0;
        exhausted = false;
        E val(77);
        bool reserve = c.route == RESERVE || c.route == D_RESERVE;
        bool assign = c.route == ASSIGN_N || c.route == ASSIGN_RA || c.route == D_ASSIGN_N;
        {
            Arm arm(0);
            switch (c.route)
            {
            case RESERVE:
            case D_RESERVE:
                v.reserve_nothrow(err, c.n);
                break;
            case RESIZE:
            case D_RESIZE:
                v.resize_nothrow(err, c.n);
                break;
            case RESIZE_V:
                v.resize_nothrow(err, c.n, val);
                break;
            case ASSIGN_RA:
                v.assign_nothrow(err, Rep<E>{&val, 0}, Rep<E>{&val, (std::ptrdiff_t)c.n});
                break;
            default:
                v.assign_nothrow(err, c.n, val);
            }
        }
        G.failed = (bool)err;
        if (err)
        {
            refuse(err, c.n, maxn, exhausted);
            CHECK(LIMIT, ((u128)c.n + 2) * 2 * sizeof(E) > GRANT || c.n > count_limit, "a request for %zu elements of %zu bytes was refused", c.n, sizeof(E));
            if (!assign)
            {
                CHECK(LIMIT, v.capacity() == cap0 && v.size() == (size_t)c.start && (!c.start || &v[0] == addr),
                      "a refused request changed the vector: %zu elements, capacity %zu", (size_t)v.size(), (size_t)v.capacity());
                for (int i = 0; !G.nviol && i < c.start; ++i)
                {
                    CHECK(LIMIT, v[i].c[0] == i + 1, "a refused request changed element %d", i);
                }
            }
        }
        else
        {
            CHECK(LIMIT, v.capacity() >= c.n, "a request for %zu elements succeeded with capacity %zu", c.n, (size_t)v.capacity());
            CHECK(LIMIT, (u128)c.n * sizeof(E) <= GRANT, "a request for %zu elements of %zu bytes succeeded with %zu bytes of memory", c.n, sizeof(E), GRANT);
            if (c.n > 0 && !v.empty())
            {
                Block* b = find_block(&v[0]);
                CHECK(LIMIT, b && (u128)v.capacity() * sizeof(E) <= b->bytes, "capacity %zu of %zu bytes in a block of %zu bytes", (size_t)v.capacity(), sizeof(E),
                      b ? b->bytes : 0);
            }
            if (reserve && c.n > cap0)
            {
                CHECK(LIMIT, last_bytes >= (u128)c.n * sizeof(E), "%zu elements were promised on %zu bytes", c.n, (size_t)last_bytes);
            }
            size_t want = reserve ? (size_t)c.start : c.n;
            CHECK(LIMIT, v.size() == want, "size is %zu, expected %zu", (size_t)v.size(), want);
            for (size_t i = 0; !G.nviol && i < want; ++i)
            {
                int x = !assign && i < (size_t)c.start ? (int)i + 1 : (reserve || c.route == RESIZE || c.route == D_RESIZE) ? 0 : 77;
                CHECK(LIMIT, v[i].c[0] == x, "element %zu is %d, expected %d", i, (int)v[i].c[0], x);
            }
        }
        if (c.width < 64)
        {
            CHECK(LIMIT, v.capacity() <= count_limit, "capacity %zu, though the allocator counts to %zu", (size_t)v.capacity(), count_limit);
        }
        // the vector still works
        {
            Err e2;
            Arm arm(0);
            size_t n = v.size();
            v.push_back_nothrow(e2, val);
            if ((u128)(n + 2) * 2 * sizeof(E) < GRANT && (n + 2) * 2 < count_limit)
            {
                CHECK(LIMIT, !e2 && v.size() == n + 1, "appending fails afterwards");
            }
        }
        Obs ob;
        ob.add((bool)err);
        ob.add(obs_cause(err));
        ob.add(v.size());
        ob.add(v.capacity());
        G.obs = ob.get();
    }

    template <class E>
    static void lst(const Case& c)
    {
        typedef nestl::no_exceptions::list<E, LimAlloc<E>> L;
        // a list gets its memory node by node; huge counts are covered by the nodes running out
        L l;
        Err err;
        nodes_left = 1 << 30;
        for (int i = 0; i < c.start; ++i)
        {
            E x(i + 1);
            Err e0;
            l.push_back_nothrow(e0, x);
        }
        E val(77);
        nodes_left = 40;
        if (c.route == L_ASSIGN_N)
        {
            l.assign_nothrow(err, c.n, val);
        }
        else
        {
            l.insert_nothrow(err, l.cbegin(), c.n, val);
        }
        nodes_left = 1 << 30;
        size_t want = c.route == L_ASSIGN_N ? c.n : c.n + c.start;
        bool fits = sizeof(E) + 32 <= GRANT && c.n <= 40;
        G.failed = (bool)err;
        CHECK(LIMIT, fits || c.n == 0 || cause_of(err).k == C_BADALLOC, "a list of %zu elements was reported as %s with memory for 40", c.n,
              cause_name[cause_of(err).k]);
        CHECK(LIMIT, !fits || (!err && l.size() == want), "a request for %zu list elements gave %zu", c.n, (size_t)l.size());
        Obs ob;
        ob.add((bool)err);
        ob.add(obs_cause(err));
        ob.add(l.size());
        G.obs = ob.get();
    }

    template <size_t N>
    static void go(const Case& c)
    {
        typedef Sz<N> E;
        switch (c.route)
        {
        case ALLOCATE:
        case TRAITS:
        {
            nestl::allocator<E> al;
            Err err;
            E* p;
            {
                Arm arm(0);
                p = c.route == ALLOCATE ? al.allocate(err, c.n) : nestl::allocator_traits<nestl::allocator<E>>::allocate(err, al, c.n);
            }
            CHECK(LIMIT, (p == nullptr) == (bool)err, "allocate returned %s and %s", p ? "memory" : "nothing", err ? "an error" : "no error");
            if (p)
            {
                Block* b = find_block(p);
                CHECK(LIMIT, b && (u128)b->bytes >= (u128)c.n * sizeof(E), "%zu elements of %zu bytes were given %zu bytes", c.n, sizeof(E), b ? b->bytes : 0);
                CHECK(LIMIT, (uintptr_t)p % alignof(E) == 0, "misaligned memory");
                al.deallocate(p, c.n);
            }
            else
            {
                Cause k = cause_of(err);
                CHECK(LIMIT, k.k == C_BADALLOC, "refused memory is reported as %s", cause_name[k.k]);
                CHECK(LIMIT, (u128)c.n * sizeof(E) > MC_ARENA_BYTES / 4, "%zu elements of %zu bytes were refused", c.n, sizeof(E));
            }
            Obs ob;
            ob.add((bool)err);
            ob.add(obs_cause(err));
            G.obs = ob.get();
            break;
        }
        case D_RESERVE:
        case D_RESIZE:
        case D_ASSIGN_N:
            dvec<E>(c);
            break;
        case L_ASSIGN_N:
        case L_INSERT_N:
            lst<E>(c);
            break;
        case MAXSIZE:
        {
            nestl::no_exceptions::vector<E, LimAlloc<E>> v;
            nestl::no_exceptions::vector<E> dv;
            nestl::no_exceptions::list<E> l;
            nestl::no_exceptions::set<E> s;
            CHECK(LIMIT, (u128)v.max_size() * sizeof(E) <= (u128)PTRDIFF_MAX, "vector: %zu elements of %zu bytes are not addressable", (size_t)v.max_size(), sizeof(E));
            CHECK(LIMIT, (u128)dv.max_size() * sizeof(E) <= (u128)PTRDIFF_MAX, "vector: %zu elements of %zu bytes are not addressable", (size_t)dv.max_size(), sizeof(E));
            CHECK(LIMIT, (u128)l.max_size() * sizeof(E) <= (u128)PTRDIFF_MAX, "list: %zu elements of %zu bytes are not addressable", (size_t)l.max_size(), sizeof(E));
            CHECK(LIMIT, (u128)s.max_size() * sizeof(E) <= (u128)PTRDIFF_MAX, "set: %zu elements of %zu bytes are not addressable", (size_t)s.max_size(), sizeof(E));
            CHECK(LIMIT, v.max_size() > 0 && dv.max_size() > 0 && l.max_size() > 0 && s.max_size() > 0, "a maximum size is zero");
            CHECK(LIMIT, (u128)nestl::allocator_traits<nestl::allocator<E>>::max_size(nestl::allocator<E>()) * sizeof(E) <= (u128)SIZE_MAX,
                  "allocator_traits: the maximum is not addressable");
            break;
        }
        default:
            c.width == 8    ? vec<nestl::no_exceptions::vector<E, LimAlloc<E, uint8_t>>, E>(c)
            : c.width == 16 ? vec<nestl::no_exceptions::vector<E, LimAlloc<E, uint16_t>>, E>(c)
            : c.width == 32 ? vec<nestl::no_exceptions::vector<E, LimAlloc<E, uint32_t>>, E>(c)
                            : vec<nestl::no_exceptions::vector<E, LimAlloc<E>>, E>(c);
        }
    }
    // default allocator: granted through operator new up to MC_ARENA_BYTES / 4
    template <class E>
    static void dvec(const Case& c)
    {
        typedef nestl::no_exceptions::vector<E> V;
        V v;
        Err e0, err;
        {
            Arm arm(0);
            for (int i = 0; i < c.start; ++i)
            {
                E x(i + 1);
                v.push_back_nothrow(e0, x);
            }
        }
        size_t cap0 = v.capacity(), maxn = v.max_size();
        E val(77);
        size_t limit = MC_ARENA_BYTES / 4;
        if (c.route != D_RESERVE && (u128)c.n * sizeof(E) <= limit && c.n > 3000)
        {
            return; // large but possible: too slow to fill for every case
        }
        {
            Arm arm(0);
            if (c.route == D_RESERVE)
            {
                v.reserve_nothrow(err, c.n);
            }
            else if (c.route == D_RESIZE)
            {
                v.resize_nothrow(err, c.n);
            }
            else
            {
                v.assign_nothrow(err, c.n, val);
            }
        }
        G.failed = (bool)err;
        if (err)
        {
            refuse(err, c.n, maxn, true);
            CHECK(LIMIT, ((u128)c.n + 2) * 2 * sizeof(E) > limit, "a request for %zu elements of %zu bytes was refused", c.n, sizeof(E));
            if (c.route != D_ASSIGN_N)
            {
                CHECK(LIMIT, v.capacity() == cap0 && v.size() == (size_t)c.start, "a refused request changed the vector");
                for (int i = 0; !G.nviol && i < c.start; ++i)
                {
                    CHECK(LIMIT, v[i].c[0] == i + 1, "a refused request changed element %d", i);
                }
            }
        }
        else
        {
            CHECK(LIMIT, v.capacity() >= c.n, "a request for %zu elements succeeded with capacity %zu", c.n, (size_t)v.capacity());
            CHECK(LIMIT, (u128)c.n * sizeof(E) <= limit, "a request for %zu elements of %zu bytes succeeded", c.n, sizeof(E));
            if (!v.empty())
            {
                Block* b = find_block(&v[0]);
                CHECK(LIMIT, b && (u128)v.capacity() * sizeof(E) <= b->bytes, "capacity %zu of %zu bytes in a block of %zu bytes", (size_t)v.capacity(), sizeof(E),
                      b ? b->bytes : 0);
            }
        }
        Obs ob;
        ob.add((bool)err);
        ob.add(obs_cause(err));
        ob.add(v.size());
        ob.add(v.capacity());
        G.obs = ob.get();
    }

    void apply(uint32_t op, int)
    {
        const Case& c = cases[op];
        G.fault_cnt = 0;
        G.fired = 0;
        switch (sizes[c.esz])
        {
#define S(n)       \
    case n:        \
        go<n>(c);  \
        break;
            S(1)
            S(2)
            S(3)
            S(4)
            S(7)
            S(8)
            S(12)
            S(16)
            S(24)
            S(33)
            S(64)
            S(100)
            S(256)
            S(1000)
            S(4097)
            S(65536)
        default:
            die("size");
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::LimWorld>(argc, argv, "limits");
}
