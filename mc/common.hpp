// Things every container world uses: configuration macros, arguments, iterators, ranges.
#pragma once
#include "engine.hpp"

#ifndef CFG_ELEM
#define CFG_ELEM 1 // 0 int, 1 nothrow, 2 throwing, 3 two-phase, 4 over-aligned, 5 two-phase + move, 6 move only,
                   // 7 copying throws, 8 moving throws, 9 copy only, 10 short, 11 large and trivial,
                   // 12 knows its address, trivial destructor, 13 trivial assignment
#endif
#ifndef CFG_ALLOC
#define CFG_ALLOC 1 // 0 nestl::allocator, 1 tracked, 2 tracked with its own error,
                    // 3 an instance of a template with a number, 4 no template
#endif
#ifndef CFG_ERR
#define CFG_ERR 0 // 0 default_operation_error, 1 user-defined
#endif
#ifndef CFG_WRAP
#define CFG_WRAP 0 // 0 no_exceptions::X, 1 nestl::X
#endif

namespace mc
{
#if CFG_ELEM == 0
typedef int T;
#elif CFG_ELEM == 1
typedef El<true> T;
#elif CFG_ELEM == 2
typedef El<false> T;
#elif CFG_ELEM == 3
typedef TP T;
#elif CFG_ELEM == 4
typedef El<true, CFG_ALLOC ? 64 : 16, CFG_ALLOC ? 56 : 24> T; // operator new aligns to 16
#elif CFG_ELEM == 5
typedef TPM T;
#elif CFG_ELEM == 6
typedef MO T;
#elif CFG_ELEM == 7
typedef El<false, 4, 0, true> T;
#elif CFG_ELEM == 8
typedef El<true, 4, 0, false> T;
#elif CFG_ELEM == 9
typedef CO T;
#elif CFG_ELEM == 10
typedef short T;
#elif CFG_ELEM == 11
typedef Big T;
#elif CFG_ELEM == 12
typedef Self T;
#elif CFG_ELEM == 13
typedef TA T;
#endif
#define CFG_MOVABLE (CFG_ELEM != 0 && CFG_ELEM != 3 && CFG_ELEM < 9) // a move can be told from a copy
#define CFG_DEFTHROW (CFG_ELEM == 2 || CFG_ELEM == 7 || CFG_ELEM == 9) // default construction throws
} // namespace mc
#include <nestl/allocator.hpp>
namespace mc
{
#if CFG_ALLOC == 3
template <class U, int N>
class NumberedAlloc : public TrackAlloc<U>
{
public:
    template <class V>
    struct rebind
    {
        typedef NumberedAlloc<V, N> other;
    };
    NumberedAlloc() noexcept
    {
    }
    explicit NumberedAlloc(int i) noexcept
        : TrackAlloc<U>(i)
    {
    }
    template <class V>
    NumberedAlloc(const NumberedAlloc<V, N>& o) noexcept
        : TrackAlloc<U>(o)
    {
    }
};
#elif CFG_ALLOC == 4
class PlainAlloc : public TrackAlloc<T>
{
public:
    PlainAlloc() noexcept
    {
    }
    explicit PlainAlloc(int i) noexcept
        : TrackAlloc<T>(i)
    {
    }
    template <class V>
    PlainAlloc(const TrackAlloc<V>& o) noexcept
        : TrackAlloc<T>(o)
    {
    }
};
#endif
#if CFG_ALLOC == 0
typedef nestl::allocator<T> Alloc;
inline Alloc make_alloc(int)
{
    return Alloc();
}
template <class A>
int alloc_id(const A&, int expect)
{
    return expect;
}
static const bool ALLOC_USER = false;
static const bool ALLOC_TRACKED = false;
#else
#if CFG_ALLOC == 3 // a template with a parameter that is no type
typedef NumberedAlloc<T, 5> Alloc;
#elif CFG_ALLOC == 4 // no template at all
typedef PlainAlloc Alloc;
#else
typedef TrackAlloc<T, std::integral_constant<bool, CFG_ALLOC == 2>> Alloc;
#endif
inline Alloc make_alloc(int id)
{
    return Alloc(id);
}
template <class A>
int alloc_id(const A& a, int)
{
    return a.id;
}
static const bool ALLOC_USER = CFG_ALLOC == 2;
static const bool ALLOC_TRACKED = true;
#endif
#if CFG_ERR == 0
typedef DefErr Err;
#else
typedef MyErr Err;
#endif

typedef std::vector<int> Seq;
typedef ElTraits<T> ET;

struct Arg // a caller-owned value
{
    T x;
    explicit Arg(int v)
        : x()
    {
        ET::set(x, v);
    }
};

struct ArgArr // caller-owned consecutive values
{
    static const int MAX = 80;
    typename std::aligned_storage<sizeof(T) * MAX, alignof(T)>::type buf;
    int n;
    explicit ArgArr(const Seq& s)
        : n((int)s.size())
    {
        for (int i = 0; i < n; ++i)
        {
            T* p = new ((void*)(begin() + i)) T();
            ET::set(*p, s[i]);
        }
    }
    ~ArgArr()
    {
        for (int i = 0; i < n; ++i)
        {
            (begin() + i)->~T();
        }
    }
    T* begin()
    {
        return (T*)&buf;
    }
    T* end()
    {
        return begin() + n;
    }
    bool same(const Seq& s)
    {
        for (int i = 0; i < n; ++i)
        {
            if (ET::val(begin()[i]) != s[i])
            {
                return false;
            }
        }
        return true;
    }
};

// a range was given to the library, as it is or through move iterators
inline void moved_range(bool moved, bool err, ArgArr& x, const Seq& s, const char* what)
{
    if (!moved || (!err && !CFG_MOVABLE))
    {
        CHECK(err ? BASIC : CONTENT, x.same(s), "%s a range changed the source", what);
    }
    else if (!err)
    {
        CHECK(PATH, x.same(Seq(s.size(), MOVED)), "%s a range of rvalues copied them", what);
    }
}

// in searches that start from prepared containers of n elements: the interesting positions and sizes
inline bool sparse(int p, int n)
{
    return p == 0 || p == 1 || p == n / 2 || p == n - 1 || p == n;
}
inline bool sparse_size(int k, int n)
{
    return sparse(k, n) || k == n + 1 || k == n + 3 || k == 2 * n + 1;
}
inline const std::vector<int>& mid_sizes()
{
    static const std::vector<int> s = {7, 8, 9, 15, 16, 17, 31, 32, 33};
    return s;
}

// 0..max, or (mid) every value the predicates above accept for some size
inline std::vector<int> range_values(int max, bool mid)
{
    std::set<int> r;
    for (int i = 0; i <= max; ++i)
    {
        bool use = !mid;
        for (int n : mid_sizes())
        {
            use = use || sparse_size(i, n) || sparse(i, n + 2);
        }
        if (use)
        {
            r.insert(i);
        }
    }
    return std::vector<int>(r.begin(), r.end());
}

// strictly single-pass input iterator
struct InIt
{
    typedef std::input_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T& reference;
    const T* p;
    const T** cur; // shared read position
    InIt(const T* q, const T** c)
        : p(q), cur(c)
    {
    }
    const T& operator*() const
    {
        if (*cur != p)
        {
            violate(CONTENT, "an input range was read a second time");
        }
        return *p;
    }
    InIt& operator++()
    {
        if (*cur != p)
        {
            violate(CONTENT, "an input range was advanced a second time");
        }
        ++p;
        *cur = p;
        return *this;
    }
    InIt operator++(int)
    {
        InIt t = *this;
        ++*this;
        return t;
    }
    bool operator==(const InIt& o) const
    {
        return p == o.p;
    }
    bool operator!=(const InIt& o) const
    {
        return p != o.p;
    }
};

// what merging and sorting may cost
inline long merge_bound(long n)
{
    return 2 * n;
}
inline long sort_bound(long n)
{
    long r = 0;
    for (long p = 1; p < n; p *= 2)
    {
        r += 2 * n;
    }
    return r;
}

// forward iterator (multi-pass, nothing more)
struct FwIt
{
    typedef std::forward_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T& reference;
    const T* p;
    explicit FwIt(const T* q = nullptr)
        : p(q)
    {
    }
    const T& operator*() const
    {
        return *p;
    }
    FwIt& operator++()
    {
        ++p;
        return *this;
    }
    FwIt operator++(int)
    {
        FwIt t = *this;
        ++p;
        return t;
    }
    bool operator==(const FwIt& o) const
    {
        return p == o.p;
    }
    bool operator!=(const FwIt& o) const
    {
        return p != o.p;
    }
};

inline std::string str(const Seq& s)
{
    std::string r = "[";
    for (size_t i = 0; i < s.size() && i < 24; ++i)
    {
        r += (i ? " " : "") + std::to_string(s[i]);
    }
    return r + (s.size() > 24 ? " ...]" : "]");
}

// is every element of `got` (with multiplicity) in `have`?
inline bool sub_multiset(Seq got, Seq have)
{
    std::sort(got.begin(), got.end());
    std::sort(have.begin(), have.end());
    return std::includes(have.begin(), have.end(), got.begin(), got.end());
}

inline void check_error(const Err& err)
{
    Cause c = cause_of(err);
    bool set = (bool)err;
    G.failed = set;
    CHECK(ERR, set == (c.k != C_NONE), "the error object converts to %d but carries %s", (int)set, cause_name[c.k]);
    if (G.fired)
    {
        CHECK(ERR, set, "an injected %s failure was not reported", fault_name[G.fired - 1]);
        if (set)
        {
            CHECK(ERR, cause_matches(c, ALLOC_USER), "an injected %s failure (token %d) was reported as %s (token %d)",
                  fault_name[G.fired - 1], G.fired_token, cause_name[c.k], c.token);
        }
    }
    else
    {
        CHECK(ERR, !set, "an error (%s, token %d) was reported though nothing failed", cause_name[c.k], c.token);
    }
}

inline uint64_t obs_cause(const Err& e)
{
    Cause c = cause_of(e);
    return (uint64_t)c.k * 100000 + c.token;
}

struct Obs
{
    Hasher h;
    void add(uint64_t x)
    {
        h.add(x);
    }
    void add(const Seq& s)
    {
        h.add(s.size());
        for (int v : s)
        {
            h.add((uint64_t)(int64_t)v);
        }
    }
    uint64_t get() const
    {
        Key k = h.get();
        return k.a ^ (k.b * 3);
    }
};

#if MC_EX
// run a throwing call; returns the cause of what it threw
template <class F>
Cause catch_cause(F f)
{
    try
    {
        f();
    }
    catch (const UEx& u)
    {
        return Cause{C_USER, u.token};
    }
    catch (const std::bad_alloc&)
    {
        return Cause{C_BADALLOC, 0};
    }
    catch (const std::length_error&)
    {
        return Cause{C_LENGTH, 0};
    }
    catch (...)
    {
        return Cause{C_OTHER, 0};
    }
    return Cause{C_NONE, 0};
}
inline bool check_thrown(const Cause& c)
{
    G.failed = c.k != C_NONE;
    if (G.fired)
    {
        CHECK(ERR, c.k != C_NONE, "an injected %s failure was not thrown", fault_name[G.fired - 1]);
        if (c.k != C_NONE)
        {
            CHECK(ERR, cause_matches(c, ALLOC_USER), "an injected %s failure (token %d) was thrown as %s (token %d)",
                  fault_name[G.fired - 1], G.fired_token, cause_name[c.k], c.token);
        }
    }
    else
    {
        CHECK(ERR, c.k == C_NONE, "%s was thrown though nothing failed", cause_name[c.k]);
    }
    return c.k != C_NONE;
}
#endif

} // namespace mc
