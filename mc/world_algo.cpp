// copy, copy_if, equal, lexicographical_compare: every input up to a size, over several iterator kinds,
// with a failure at every fault point, checked by element identity and by the trace of accesses.
#include "common.hpp"
#include <nestl/algorithm.hpp>
#include <nestl/list.hpp>

namespace mc
{
typedef nestl::no_exceptions::list<T, nestl::allocator<T>> List;

enum Type
{
    COPY,
    COPY_IF,
    COPY_OVER, // overlapping, destination before the source
    COPY_INT,  // from ints, through a conversion
    EQUAL,
    EQUAL_P,
    LEX,
    LEX_P,
    NTYPE
};
static const char* const type_name[] = {"copy", "copy_if", "copy to overlapping lower range", "copy with conversion", "equal", "equal(predicate)",
                                        "lexicographical_compare", "lexicographical_compare(compare)"};
enum ItKind
{
    I_PTR,
    I_CPTR,
    I_IN,
    I_FW,
    I_LIST,
    NIT
};
struct Case
{
    int type, it, variant;
    Seq s1, s2;
};

// trace of reads through input iterators
struct Trace
{
    const T* base = nullptr;
    long len = 0;
    long maxread = -1;
    const char* what = "";
    void start(const T* b, long n, const char* w)
    {
        base = b;
        len = n;
        maxread = -1;
        what = w;
    }
};

// single pass, bounded: reading outside the range or after having advanced is reported
struct Src
{
    typedef std::input_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T& reference;
    const T* p;
    const T** cur;
    Trace* t;
    const T& operator*() const
    {
        CHECK(CONTENT, *cur == p, "%s: read through an iterator that was already passed", t->what);
        CHECK(CONTENT, p - t->base < t->len && p >= t->base, "%s: read at position %ld of %ld", t->what, (long)(p - t->base), t->len);
        if (p - t->base > t->maxread)
        {
            t->maxread = p - t->base;
        }
        return p - t->base < t->len && p >= t->base ? *p : *t->base;
    }
    Src& operator++()
    {
        CHECK(CONTENT, *cur == p, "%s: advanced an iterator that was already passed", t->what);
        CHECK(CONTENT, p - t->base < t->len, "%s: advanced beyond the end", t->what);
        ++p;
        *cur = p;
        return *this;
    }
    Src operator++(int)
    {
        Src o = *this;
        ++*this;
        return o;
    }
    bool operator==(const Src& o) const
    {
        return p == o.p;
    }
    bool operator!=(const Src& o) const
    {
        return p != o.p;
    }
};

struct Range
{
    ArgArr arr;
    List list;
    const T* cur;
    Trace tr;
    explicit Range(const Seq& s, const char* w)
        : arr(s)
    {
        Err e;
        for (int v : s)
        {
            Arg x(v);
            list.push_back_nothrow(e, std::move(x.x));
        }
        cur = arr.begin();
        tr.start(arr.begin(), (long)s.size(), w);
    }
    Src b()
    {
        return Src{arr.begin(), &cur, &tr};
    }
    Src e()
    {
        return Src{arr.end(), &cur, &tr};
    }
};

struct Pred
{
    int mask;
    Seq* asked;
    bool operator()(const T& x) const
    {
        asked->push_back(ET::val(x));
        return mask >> ET::val(x) & 1;
    }
};
struct BinPred // not symmetric
{
    int variant;
    std::vector<std::pair<int, int>>* asked;
    bool operator()(const T& x, const T& y) const
    {
        int a = ET::val(x), b = ET::val(y);
        asked->push_back(std::make_pair(a, b));
        return rel(variant, a, b);
    }
    static bool rel(int variant, int a, int b)
    {
        switch (variant)
        {
        case 0:
            return a <= b;
        case 1:
            return a != b;
        case 2:
            return a > b; // as comparison: greater
        default:
            return (a & 1) < (b & 1);
        }
    }
};

struct AlgoWorld
{
    std::vector<Case> cases;

    static void all(int len, int keys, Seq& cur, std::vector<Seq>& out)
    {
        out.push_back(cur);
        if ((int)cur.size() == len)
        {
            return;
        }
        for (int k = 0; k < keys; ++k)
        {
            cur.push_back(k);
            all(len, keys, cur, out);
            cur.pop_back();
        }
    }

    void setup()
    {
        int CL = O.param("copylen", 5), PL = O.param("pairlen", 4);
        std::vector<Seq> ss;
        Seq cur;
        all(CL, 3, cur, ss);
        for (auto& s : ss)
        {
            for (int it = 0; it < NIT; ++it)
            {
                for (int d = 0; d < 2; ++d)
                {
                    cases.push_back(Case{COPY, it, d, s, Seq()});
                    for (int m = 0; m < 8; ++m)
                    {
                        cases.push_back(Case{COPY_IF, it, d * 8 + m, s, Seq()});
                    }
                }
            }
            for (int sh = 1; sh <= 3; ++sh)
            {
                cases.push_back(Case{COPY_OVER, 0, sh, s, Seq()});
            }
            cases.push_back(Case{COPY_INT, 0, 0, s, Seq()});
            cases.push_back(Case{COPY_INT, 0, 1, s, Seq()});
        }
        ss.clear();
        all(PL, 3, cur, ss);
        for (auto& x : ss)
        {
            for (auto& y : ss)
            {
                for (int it = 0; it < NIT; ++it)
                {
                    if (y.size() >= x.size() && y.size() <= x.size() + 1)
                    {
                        cases.push_back(Case{EQUAL, it, 0, x, y});
                        cases.push_back(Case{EQUAL_P, it, 0, x, y});
                        cases.push_back(Case{EQUAL_P, it, 1, x, y});
                    }
                    else if (y.size() < x.size())
                    {
                        // allowed when the ranges differ before the second one ends
                        bool eq = true, p0 = true, p1 = true;
                        for (size_t i = 0; i < y.size(); ++i)
                        {
                            eq = eq && x[i] == y[i];
                            p0 = p0 && BinPred::rel(0, x[i], y[i]);
                            p1 = p1 && BinPred::rel(1, x[i], y[i]);
                        }
                        if (!eq)
                        {
                            cases.push_back(Case{EQUAL, it, 0, x, y});
                        }
                        if (!p0)
                        {
                            cases.push_back(Case{EQUAL_P, it, 0, x, y});
                        }
                        if (!p1)
                        {
                            cases.push_back(Case{EQUAL_P, it, 1, x, y});
                        }
                    }
                    cases.push_back(Case{LEX, it, 0, x, y});
                    cases.push_back(Case{LEX_P, it, 2, x, y});
                    cases.push_back(Case{LEX_P, it, 3, x, y});
                }
            }
        }
    }
    unsigned tag(uint32_t) const
    {
        return T_GEN;
    }
    int kind(uint32_t op) const
    {
        return cases[op].type;
    }
    std::string kind_name(int k) const
    {
        return type_name[k];
    }
    std::string name(uint32_t op) const
    {
        const Case& c = cases[op];
        return std::string(type_name[c.type]) + " " + str(c.s1) + str(c.s2) + " iterators " + std::to_string(c.it) + " variant " + std::to_string(c.variant);
    }
    bool leaf(uint32_t) const
    {
        return true;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < cases.size(); ++i)
        {
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
    }
    void end()
    {
    }
    void key(Hasher& h, bool)
    {
        h.add(1);
    }

    template <class It, class D>
    static long run_copy(Err& err, const Case& c, It b, It e, D d, D d0, Seq& asked, int fault)
    {
        D r = d0;
        {
            Arm arm(fault);
            if (c.type == COPY)
            {
                r = nestl::copy(err, b, e, d);
            }
            else
            {
                r = nestl::copy_if(err, b, e, d, Pred{c.variant & 7, &asked});
            }
        }
        long k = 0;
        for (D i = d0; i != r && k < 100; ++i)
        {
            ++k;
        }
        return k;
    }
    template <class D>
    static long run_copy_d(Err& err, const Case& c, Range& s, D d, Seq& asked, int fault)
    {
        const List& cl = s.list;
        switch (c.it)
        {
        case I_PTR:
            return run_copy(err, c, s.arr.begin(), s.arr.end(), d, d, asked, fault);
        case I_CPTR:
            return run_copy(err, c, (const T*)s.arr.begin(), (const T*)s.arr.end(), d, d, asked, fault);
        case I_IN:
            return run_copy(err, c, s.b(), s.e(), d, d, asked, fault);
        case I_FW:
            return run_copy(err, c, FwIt(s.arr.begin()), FwIt(s.arr.end()), d, d, asked, fault);
        default:
            return run_copy(err, c, cl.begin(), cl.end(), d, d, asked, fault);
        }
    }

    void finish_copy(const Case& c, const Err& err, const Seq& want, const Seq& got, long ret, const Seq& asked)
    {
        check_error(err);
        bool failed = (bool)err;
        size_t done = 0;
        if (!failed)
        {
            CHECK(RET, ret == (long)want.size(), "returned position %ld, expected %zu", ret, want.size());
            done = want.size();
        }
        else
        {
            done = ret < 0 || ret > (long)want.size() ? 0 : (size_t)ret;
            // one fault point per write (and per conversion): the failed write is known from the number of the fault
            CHECK(RET, ret >= 0 && ret < (long)want.size(), "a failing copy returned position %ld of %zu", ret, want.size());
            if (c.type != COPY_INT)
            {
                CHECK(RET, ret == G.fault_at - 1, "write %d failed but the returned position is %ld", G.fault_at - 1, ret);
            }
        }
        for (size_t i = 0; i < got.size(); ++i)
        {
            int w = i < done ? want[i] : -5;
            CHECK(failed ? BASIC : CONTENT, got[i] == w, "destination %s: position %zu is %d, expected %d (%s)", str(got).c_str(), i, got[i], w,
                  failed ? "failed" : "succeeded");
            if (G.nviol)
            {
                break;
            }
        }
        if (c.type == COPY_IF)
        {
            Seq expect;
            size_t acc = 0;
            for (int v : c.s1)
            {
                expect.push_back(v);
                bool yes = c.variant >> v & 1;
                if (failed && yes && acc++ == done)
                {
                    break;
                }
            }
            CHECK(CONTENT, asked == expect, "the predicate was asked about %s, expected %s", str(asked).c_str(), str(expect).c_str());
        }
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        ob.add((uint64_t)ret);
        ob.add(got);
        G.obs = ob.get();
    }

    template <class F>
    static bool with_ranges(const Case& c, Range& a, Range& b, F f)
    {
        const List& la = a.list;
        const List& lb = b.list;
        switch (c.it)
        {
        case I_PTR:
            return f(a.arr.begin(), a.arr.end(), b.arr.begin(), b.arr.end());
        case I_CPTR:
            return f((const T*)a.arr.begin(), (const T*)a.arr.end(), b.b(), b.e());
        case I_IN:
            return f(a.b(), a.e(), b.b(), b.e());
        case I_FW:
            return f(a.b(), a.e(), FwIt(b.arr.begin()), FwIt(b.arr.end()));
        default:
            return f(la.begin(), la.end(), lb.begin(), lb.end());
        }
    }

    struct EqF
    {
        template <class I, class J>
        bool operator()(I b1, I e1, J b2, J) const
        {
            return nestl::equal(b1, e1, b2);
        }
    };
    struct EqPF
    {
        BinPred p;
        template <class I, class J>
        bool operator()(I b1, I e1, J b2, J) const
        {
            return nestl::equal(b1, e1, b2, p);
        }
    };
    struct LexF
    {
        template <class I, class J>
        bool operator()(I b1, I e1, J b2, J e2) const
        {
            return nestl::lexicographical_compare(b1, e1, b2, e2);
        }
    };
    struct LexPF
    {
        BinPred p;
        template <class I, class J>
        bool operator()(I b1, I e1, J b2, J e2) const
        {
            return nestl::lexicographical_compare(b1, e1, b2, e2, p);
        }
    };

    void apply(uint32_t op, int fault)
    {
        const Case& c = cases[op];
        G.fault_cnt = 0;
        G.fired = 0;
        switch (c.type)
        {
        case COPY:
        case COPY_IF:
        {
            Seq want;
            for (int v : c.s1)
            {
                if (c.type == COPY || (c.variant >> v & 1))
                {
                    want.push_back(v);
                }
            }
            Range s(c.s1, "source");
            Range d(Seq(want.size() + 2, -5), "destination");
            Err err;
            Seq asked;
            long ret;
            bool to_list = c.type == COPY ? c.variant : c.variant / 8;
            if (to_list)
            {
                ret = run_copy_d(err, c, s, d.list.begin(), asked, fault);
            }
            else
            {
                ret = run_copy_d(err, c, s, d.arr.begin(), asked, fault);
            }
            Seq got;
            if (to_list)
            {
                for (auto& x : d.list)
                {
                    got.push_back(ET::val(x));
                }
            }
            else
            {
                for (T* p = d.arr.begin(); p != d.arr.end(); ++p)
                {
                    got.push_back(ET::val(*p));
                }
            }
            finish_copy(c, err, want, got, ret, asked);
            CHECK(CONTENT, s.arr.same(c.s1), "the source was changed");
            break;
        }
        case COPY_OVER:
        {
            Seq all(c.variant, -5);
            all.insert(all.end(), c.s1.begin(), c.s1.end());
            ArgArr a(all);
            Err err;
            T* r;
            {
                Arm arm(fault);
                r = nestl::copy(err, a.begin() + c.variant, a.end(), a.begin());
            }
            check_error(err);
            long ret = r - a.begin();
            long done = err ? G.fault_at - 1 : (long)c.s1.size();
            CHECK(RET, ret == done, "returned position %ld, expected %ld", ret, done);
            Seq want = all, got;
            for (long i = 0; i < done; ++i)
            {
                want[i] = want[i + c.variant];
            }
            for (T* p = a.begin(); p != a.end(); ++p)
            {
                got.push_back(ET::val(*p));
            }
            CHECK(err ? BASIC : CONTENT, got == want, "array is %s, expected %s", str(got).c_str(), str(want).c_str());
            break;
        }
        case COPY_INT:
        {
            Seq want = c.s1;
            Range d(Seq(want.size() + 2, -5), "destination");
            Err err;
            long ret;
            const int* b = c.s1.data();
            {
                Arm arm(fault);
                T* r = c.variant ? nestl::copy(err, const_cast<int*>(b), const_cast<int*>(b) + c.s1.size(), d.arr.begin())
                                 : nestl::copy(err, b, b + c.s1.size(), d.arr.begin());
                ret = r - d.arr.begin();
            }
            Seq got;
            for (T* p = d.arr.begin(); p != d.arr.end(); ++p)
            {
                got.push_back(ET::val(*p));
            }
            finish_copy(c, err, want, got, ret, Seq());
            break;
        }
        default:
        {
            std::vector<std::pair<int, int>> asked;
            Range a(c.s1, "first range"), b(c.s2, "second range");
            bool r = false, want = false;
            size_t need = 0; // positions the definition looks at
            size_t n1 = c.s1.size(), n2 = c.s2.size(), m = std::min(n1, n2);
            bool lex = c.type == LEX || c.type == LEX_P;
            {
                want = lex ? n1 < n2 : true;
                need = lex ? m : n1;
                for (size_t i = 0; i < (lex ? m : n1); ++i)
                {
                    int x = c.s1[i], y = c.s2[i];
                    if (lex)
                    {
                        bool xy = c.type == LEX ? x < y : BinPred::rel(c.variant, x, y);
                        bool yx = c.type == LEX ? y < x : BinPred::rel(c.variant, y, x);
                        if (xy || yx)
                        {
                            want = xy;
                            need = i + 1;
                            break;
                        }
                    }
                    else if (!(c.type == EQUAL ? x == y : BinPred::rel(c.variant, x, y)))
                    {
                        want = false;
                        need = i + 1;
                        break;
                    }
                }
            }
            {
                Arm arm(fault);
                switch (c.type)
                {
                case EQUAL:
                    r = with_ranges(c, a, b, EqF());
                    break;
                case EQUAL_P:
                    r = with_ranges(c, a, b, EqPF{BinPred{c.variant, &asked}});
                    break;
                case LEX:
                    r = with_ranges(c, a, b, LexF());
                    break;
                default:
                    r = with_ranges(c, a, b, LexPF{BinPred{c.variant, &asked}});
                }
            }
            CHECK(RET, r == want, "returned %d, expected %d", (int)r, (int)want);
            CHECK(CONTENT, a.tr.maxread < (long)need && b.tr.maxread < (long)need, "read position %ld and %ld, the answer was known after %zu",
                  a.tr.maxread, b.tr.maxread, need);
            CHECK(NOCOST, G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0, "a comparison copied elements");
            if (c.type == EQUAL_P)
            {
                bool ok = asked.size() == need;
                for (size_t i = 0; ok && i < need; ++i)
                {
                    ok = asked[i].first == c.s1[i] && asked[i].second == c.s2[i];
                }
                CHECK(CONTENT, ok, "the predicate was not asked exactly once per pair, in order");
            }
            if (c.type == LEX_P)
            {
                CHECK(CONTENT, asked.size() <= 2 * need, "the comparison was called %zu times for %zu pairs", asked.size(), need);
            }
            Obs ob;
            ob.add(r);
            ob.add(asked.size());
            G.obs = ob.get();
        }
        }
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::AlgoWorld>(argc, argv, "algo");
}
