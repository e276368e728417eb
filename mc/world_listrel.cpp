// merge and sort of lists: every content pattern up to a size, checked by element identity.
#include "common.hpp"
#include <nestl/list.hpp>

namespace mc
{
#if CFG_WRAP
typedef nestl::list<T, Alloc> List;
#else
typedef nestl::no_exceptions::list<T, Alloc> List;
#endif

struct Item
{
    int v;
    const T* p;
    uint32_t st;
    bool operator==(const Item& o) const
    {
        return v == o.v && p == o.p && (!ET::tracked || st == o.st);
    }
};
typedef std::vector<Item> LSeq;

struct Case
{
    int type; // 0 merge, 1 sort
    int variant;
    Seq s1, s2;
};

struct Less
{
    bool operator()(const T& x, const T& y) const
    {
        G.n_cmp += G.armed;
        return ET::val(x) < ET::val(y);
    }
};
struct Greater
{
    bool operator()(const T& x, const T& y) const
    {
        G.n_cmp += G.armed;
        return ET::val(y) < ET::val(x);
    }
};
struct Parity // a comparator with many equivalences
{
    bool operator()(const T& x, const T& y) const
    {
        G.n_cmp += G.armed;
        return (ET::val(x) & 1) < (ET::val(y) & 1);
    }
};

struct Dir // a comparator with state
{
    int d;
    Dir()
        : d(0)
    {
    }
    explicit Dir(int x)
        : d(x)
    {
    }
    bool operator()(const T& x, const T& y) const
    {
        if (!d)
        {
            violate(CONTENT, "a default-constructed comparator was used");
        }
        G.n_cmp += G.armed;
        return d * ET::val(x) < d * ET::val(y);
    }
};

struct RelWorld
{
    std::vector<Case> cases;
    struct Roots
    {
        List a, b;
        Roots()
            : a(make_alloc(1)), b(make_alloc(1))
        {
        }
    }* R;

    static void all(int len, int keys, bool sorted, Seq& cur, std::vector<Seq>& out)
    {
        out.push_back(cur);
        if ((int)cur.size() == len)
        {
            return;
        }
        for (int k = sorted && !cur.empty() ? cur.back() : 0; k < keys; ++k)
        {
            cur.push_back(k);
            all(len, keys, sorted, cur, out);
            cur.pop_back();
        }
    }

    void setup()
    {
        int L = O.param("mergelen", 4), S = O.param("sortlen", 7), P = O.param("permlen", 7), B = O.param("biglen", 70);
        std::vector<Seq> ss;
        Seq cur;
        all(L, 3, true, cur, ss);
        for (auto& x : ss)
        {
            for (auto& y : ss)
            {
                for (int v = 0; v < 8; ++v)
                {
                    Case c{0, v, x, y};
                    if (v >= 4)
                    {
                        std::reverse(c.s1.begin(), c.s1.end());
                        std::reverse(c.s2.begin(), c.s2.end());
                    }
                    cases.push_back(c);
                }
            }
        }
        ss.clear();
        all(S, 3, false, cur, ss);
        for (auto& x : ss)
        {
            for (int v = 0; v < 5; ++v)
            {
                cases.push_back(Case{1, v, x, Seq()});
            }
        }
        for (int n = 4; n <= P; ++n)
        {
            Seq p;
            for (int i = 0; i < n; ++i)
            {
                p.push_back(i);
            }
            do
            {
                cases.push_back(Case{1, n & 1, p, Seq()});
                cases.push_back(Case{1, 3, p, Seq()});
            } while (std::next_permutation(p.begin(), p.end()));
        }
        for (int n = 8; n <= B; ++n)
        {
            for (int pat = 0; pat < 8; ++pat)
            {
                Seq s;
                for (int i = 0; i < n; ++i)
                {
                    int v = 0;
                    switch (pat)
                    {
                    case 0:
                        v = i;
                        break;
                    case 1:
                        v = n - i;
                        break;
                    case 2:
                        v = i % 2 ? i : n - i;
                        break;
                    case 3:
                        v = 7;
                        break;
                    case 4:
                        v = i < n / 2 ? i : n - i;
                        break;
                    case 5:
                        v = (i * 7) % 11;
                        break;
                    case 6:
                        v = i % 3;
                        break;
                    default:
                        v = (i * 37) % n;
                    }
                    s.push_back(v);
                }
                for (int v = 0; v < 4; ++v)
                {
                    cases.push_back(Case{1, v, s, Seq()});
                }
                // merge of the sorted sequence, cut in every way it interleaves
                Seq x, y;
                for (int i = 0; i < n; ++i)
                {
                    (s[i] % 2 ? x : y).push_back(s[i]);
                }
                std::sort(x.begin(), x.end());
                std::sort(y.begin(), y.end());
                cases.push_back(Case{0, pat & 3, x, y});
                std::sort(s.begin(), s.end());
                cases.push_back(Case{0, (pat + 1) & 3, Seq(s.begin(), s.begin() + n / 2), Seq(s.begin() + n / 2, s.end())});
                cases.push_back(Case{0, (pat + 2) & 3, Seq(s.begin() + n / 2, s.end()), Seq(s.begin(), s.begin() + n / 2)});
            }
        }
    }
    unsigned tag(uint32_t) const
    {
        return T_RELINK;
    }
    int kind(uint32_t op) const
    {
        return cases[op].type * 8 + cases[op].variant;
    }
    std::string kind_name(int k) const
    {
        return std::string(k / 8 ? "sort" : "merge") + ",variant " + std::to_string(k % 8);
    }
    std::string name(uint32_t op) const
    {
        const Case& c = cases[op];
        return (c.type ? "sort " : "merge ") + str(c.s1) + (c.type ? "" : str(c.s2)) + " variant " + std::to_string(c.variant);
    }
    bool leaf(uint32_t) const
    {
        return true;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < cases.size(); ++i)
        {
            out.push_back((uint32_t)i);
        }
    }
    void begin()
    {
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots();
    }
    void end()
    {
        R->~Roots();
        A_blocks[0].live = false;
        --A_liveblocks;
    }
    void key(Hasher& h, bool)
    {
        h.add(1);
    }
    static LSeq snap(const List& l)
    {
        LSeq s;
        for (auto it = l.cbegin(); it != l.cend() && s.size() < 300; ++it)
        {
            const T* p = std::addressof(*it);
            s.push_back(Item{ET::val(*it), p, stamp_of(p)});
        }
        return s;
    }
    static Seq vals(const LSeq& s)
    {
        Seq r;
        for (auto& i : s)
        {
            r.push_back(i.v);
        }
        return r;
    }
    static void check(const char* w, List& l, const LSeq& m)
    {
        LSeq s = snap(l);
        CHECK(CONTENT, vals(s) == vals(m), "%s: gives %s, expected %s", w, str(vals(s)).c_str(), str(vals(m)).c_str());
        CHECK(STABLE, vals(s) != vals(m) || s == m, "%s: elements were exchanged, rebuilt or equivalent ones reordered: %s", w,
              str(vals(m)).c_str());
        // backwards
        size_t k = m.size();
        auto it = l.cend();
        while (it != l.cbegin() && k > 0 && !G.nviol)
        {
            --it;
            --k;
            CHECK(CONTENT, std::addressof(*it) == m[k].p, "%s: backward traversal differs at %zu", w, k);
        }
        CHECK(CONTENT, G.nviol || (k == 0 && it == l.cbegin()), "%s: backward traversal has another length", w);
        CHECK(CONTENT, G.nviol || (l.size() == m.size() && l.empty() == m.empty()), "%s: size", w);
    }
    void apply(uint32_t op, int fault)
    {
        const Case& c = cases[op];
        Err err;
        for (int v : c.s1)
        {
            Arg x(v);
            R->a.push_back_nothrow(err, std::move(x.x));
        }
        for (int v : c.s2)
        {
            Arg x(v);
            R->b.push_back_nothrow(err, std::move(x.x));
        }
        if (err)
        {
            die("setup failed");
        }
        LSeq A = snap(R->a), B = snap(R->b);
        {
            Arm arm(fault);
            if (c.type == 0)
            {
                switch (c.variant)
                {
                case 0:
                    R->a.merge(R->b);
                    break;
                case 1:
                    R->a.merge(std::move(R->b));
                    break;
                case 2:
                    R->a.merge(R->b, Less());
                    break;
                case 3:
                    R->a.merge(std::move(R->b), Less());
                    break;
                case 4:
                    R->a.merge(R->b, Greater());
                    break;
                case 5:
                    R->a.merge(std::move(R->b), Greater());
                    break;
                case 6:
                    R->a.merge(R->b, Dir(-1));
                    break;
                default:
                    R->a.merge(std::move(R->b), Dir(-1));
                }
            }
            else
            {
                switch (c.variant)
                {
                case 0:
                    R->a.sort();
                    break;
                case 1:
                    R->a.sort(Less());
                    break;
                case 2:
                    R->a.sort(Greater());
                    break;
                case 3:
                    R->a.sort(Parity());
                    break;
                default:
                    R->a.sort(Dir(-1));
                }
            }
        }
        CHECK(NOCOST, G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_ctor == 0 && G.n_dtor == 0 && G.n_dealloc == 0,
              "%ld allocations, %ld copies, %ld moves, %ld assignments, %ld destructions", G.n_alloc, G.n_copy, G.n_move, G.n_assign, G.n_dtor);
        CHECK(NOCOST, G.fault_cnt == 0, "an operation that cannot fail has a point of failure");
        CHECK(NOCOST, G.n_cmp <= (c.type ? sort_bound((long)A.size()) : merge_bound((long)(A.size() + B.size()))), "%ld comparisons", G.n_cmp);
        LSeq m = A;
        auto less = [](const Item& x, const Item& y) { return x.v < y.v; };
        auto greater = [](const Item& x, const Item& y) { return y.v < x.v; };
        auto parity = [](const Item& x, const Item& y) { return (x.v & 1) < (y.v & 1); };
        if (c.type == 0)
        {
            m.insert(m.end(), B.begin(), B.end());
            if (c.variant < 4)
            {
                std::stable_sort(m.begin(), m.end(), less);
            }
            else
            {
                std::stable_sort(m.begin(), m.end(), greater);
            }
            check("merge", R->a, m);
            check("merged-from", R->b, LSeq());
        }
        else
        {
            if (c.variant < 2)
            {
                std::stable_sort(m.begin(), m.end(), less);
            }
            else if (c.variant == 2 || c.variant == 4)
            {
                std::stable_sort(m.begin(), m.end(), greater);
            }
            else
            {
                std::stable_sort(m.begin(), m.end(), parity);
            }
            check("sort", R->a, m);
            check("other list", R->b, B);
        }
        if (ALLOC_TRACKED)
        {
            CHECK(ALLOCID, alloc_id(R->a.get_allocator(), 1) == 1 && alloc_id(R->b.get_allocator(), 1) == 1, "the allocator changed");
        }
        Obs ob;
        ob.add(vals(snap(R->a)));
        G.obs = ob.get();
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::RelWorld>(argc, argv, "listrel");
}
