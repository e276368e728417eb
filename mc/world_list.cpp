// Two lists under every history of their operations, with every fault point.
// The model is a sequence of (value, address, construction stamp): every element that the operation
// does not define to be created or destroyed must still be the same object.
#include "common.hpp"
#include <nestl/list.hpp>

#include <iterator>

namespace mc
{
#if CFG_WRAP
typedef nestl::list<T, Alloc> List;
#else
typedef nestl::no_exceptions::list<T, Alloc> List;
#endif
typedef nestl::no_exceptions::list<T, Alloc> Impl;
#if CFG_WRAP && MC_EX
#define HAS_THROW 1
#else
#define HAS_THROW 0
#endif
#define COPYABLE (CFG_ELEM != 6)

enum Kind
{
    PUSHB_L,
    PUSHB_R,
    EMPLB,
    PUSHF_L,
    PUSHF_R,
    EMPLF,
    POPB,
    POPF,
    INS_L,
    INS_R,
    EMPL,
    EMPL0,
    INSN,
    INSRANGE,
    INSFROMB,
    ERASE,
    ERASER,
    ASSIGN_N,
    ASSIGN_ND,
    ASSIGN_R,
    COPY_AB,
    COPY_BA,
    CLEAR,
    PUSH_B,
    CLEAR_B,
    SWAP_AB,
    SWAP_BA,
    MOVE_AB,
    MOVE_BA,
    MOVECTOR,
    MOVEDEF,
    AL_PUSHB,
    AL_PUSHF,
    AL_INS,
    AL_EMPL,
    AL_INSN,
    AL_ASSIGN,
    AL_COPY,
    AL_MOVE,
    AL_SWAP,
    SPL_ALL,
    SPL_ONE,
    SPL_RANGE,
    SPL_SELF1,
    SPL_SELFR,
    MERGE,
    SORT,
    TH_PUSH_L,
    TH_PUSH_R,
    TH_PUSH_SELF,
    TH_COPYCTOR,
    TH_COPY_AB,
    TH_COPY_BA,
    TH_COPY_SELF,
    EQ,
    PREP
};

struct Roots
{
    List a, b;
    Roots(int ia, int ib)
        : a(make_alloc(ia)), b(make_alloc(ib))
    {
    }
};

struct Item
{
    int v;
    const T* p; // null: any (new) address
    uint32_t st;
};
typedef std::vector<Item> LSeq;

inline Item fresh(int v)
{
    return Item{v, nullptr, 0};
}
inline Seq vals(const LSeq& s)
{
    Seq r;
    for (auto& i : s)
    {
        r.push_back(i.v);
    }
    return r;
}

struct ListWorld : WorldBase
{
    int MAXN, MAXB, SAMEID;
    bool MID;      // start from prepared lists, sample positions
    bool prepared; // a prepared state was chosen
    Roots* R;
    LSeq A, B;
    int ia, ib;

    void setup()
    {
        MAXN = O.param("maxn", 5);
        MAXB = O.param("maxb", 3);
        SAMEID = O.param("sameid", 0);
        const unsigned G1 = T_GEN, M = T_MOVE, L = T_ALIAS, K = T_RELINK;
        MID = O.param("mid", 0) != 0;
        std::vector<int> counts = {0, 1, 2, 3};
        if (MID)
        {
            MAXN = MAXB = 70;
            counts = {0, 1, 3, 9, 20};
            for (int n : mid_sizes())
            {
                if (n > O.param("mid", 0))
                {
                    break;
                }
                for (int v = 0; v < 3; ++v)
                {
                    add(PREP, "start with size,size of b", T_SEED, n, v == 0 ? 3 : v == 1 ? n : n + 2, 0, 2);
                }
            }
        }
        const std::vector<int> rn = range_values(MAXN, MID), rb = range_values(MAXB, MID);
        if (COPYABLE)
        {
            add(PUSHB_L, "push_back_nothrow(lvalue)", G1);
            add(PUSHF_L, "push_front_nothrow(lvalue)", G1);
        }
        add(PUSHB_R, "push_back_nothrow(rvalue)", G1);
        add(EMPLB, "emplace_back_nothrow(int)", G1);
        add(PUSHF_R, "push_front_nothrow(rvalue)", G1);
        add(EMPLF, "emplace_front_nothrow(int)", G1);
        add(POPB, "pop_back", G1);
        add(POPF, "pop_front", G1);
        for (int p : rn)
        {
            if (COPYABLE)
            {
                add(INS_L, "insert_nothrow(pos,lvalue)", G1, p, 0, 0, 1);
            }
            add(INS_R, "insert_nothrow(pos,rvalue)", G1, p, 0, 0, 1);
            add(EMPL, "emplace_nothrow(pos,int)", G1, p, 0, 0, 1);
            if (p < 2)
            {
                add(EMPL0, "emplace_nothrow(pos)", G1, p, 0, 0, 1);
            }
            add(ERASE, "erase(pos)", G1, p, 0, 0, 1);
            for (int q : rn)
            {
                if (q >= p)
                {
                    add(ERASER, "erase(first,last)", G1, p, q, 0, 2);
                }
            }
            if (COPYABLE)
            {
                for (int k : counts)
                {
                    add(INSN, "insert_nothrow(pos,n,value)", G1, p, k, 0, 2);
                }
                add(INSFROMB, "insert_nothrow(pos,b.begin,b.end)", G1, p, 0, 0, 1);
            }
            for (int k : counts)
            {
                for (int kind = COPYABLE ? 0 : 3; kind < 4; ++kind)
                {
                    add(INSRANGE, "insert_nothrow(pos,count-range,iterator-kind)", G1, p, k, kind, 3);
                }
            }
        }
        if (COPYABLE)
        {
            for (int k : rn)
            {
                add(ASSIGN_N, "assign_nothrow(n,value)", G1, k, 0, 0, 1);
                if (k < 3)
                {
                    add(ASSIGN_ND, "assign_nothrow(n)", G1, k, 0, 0, 1);
                }
            }
            add(COPY_AB, "a.copy_nothrow(b)", G1);
            add(COPY_BA, "b.copy_nothrow(a)", G1);
        }
        for (int k : rn)
        {
            for (int kind = COPYABLE ? 0 : 3; kind < 4; ++kind)
            {
                add(ASSIGN_R, "assign_nothrow(count-range,iterator-kind)", G1, k, kind, 0, 2);
            }
        }
        add(CLEAR, "clear", G1);
        add(PUSH_B, "b.push_back_nothrow(rvalue)", G1);
        add(CLEAR_B, "b.clear", G1);
        add(SWAP_AB, "a.swap(b)", M | K);
        add(SWAP_BA, "b.swap(a)", M | K);
        add(MOVE_AB, "a=move(b)", M);
        add(MOVE_BA, "b=move(a)", M);
        add(MOVECTOR, "c(move(a)); a=move(c)", M);
        add(MOVEDEF, "default-constructed c=move(a); a=move(c)", M);
        if (COPYABLE)
        {
            for (int i : rn)
            {
                add(AL_PUSHB, "push_back_nothrow(a[i])", L, i, 0, 0, 1);
                add(AL_PUSHF, "push_front_nothrow(a[i])", L, i, 0, 0, 1);
                for (int p : rn)
                {
                    add(AL_INS, "insert_nothrow(pos,a[i])", L, p, i, 0, 2);
                    add(AL_EMPL, "emplace_nothrow(pos,a[i])", L, p, i, 0, 2);
                    for (int k : counts)
                    {
                        add(AL_INSN, "insert_nothrow(pos,n,a[i])", L, p, i, k, 3);
                    }
                }
                for (int k : rn)
                {
                    add(AL_ASSIGN, "assign_nothrow(n,a[i])", L, k, i, 0, 2);
                }
            }
            add(AL_COPY, "a.copy_nothrow(a)", L);
        }
        add(AL_MOVE, "a=move(a)", L);
        add(AL_SWAP, "a.swap(a)", L);
        for (int rv = 0; rv < 2; ++rv)
        {
            for (int p : rn)
            {
                add(SPL_ALL, "splice(pos,b),rvalue?", K, p, rv, 0, 2);
                for (int i : rb)
                {
                    add(SPL_ONE, "splice(pos,b,it),rvalue?", K, p, i, rv, 3);
                }
                for (int i : rb)
                {
                    for (int j : rb)
                    {
                        if (j >= i)
                        {
                            add(SPL_RANGE, "splice(pos,b,first*256+last),rvalue?", K, p, i * 256 + j, rv, 3);
                        }
                    }
                }
                for (int i : rn)
                {
                    add(SPL_SELF1, "splice(pos,a,it),rvalue?", K | L, p, i, rv, 3);
                }
                for (int i : rn)
                {
                    for (int j : rn)
                    {
                        if (j >= i && !(p > i && p < j))
                        {
                            add(SPL_SELFR, "splice(pos,a,first*256+last),rvalue?", K | L, p, i * 256 + j, rv, 3);
                        }
                    }
                }
            }
        }
        for (int v = 0; v < 4; ++v)
        {
            add(MERGE, "merge(b),variant", K, v, 0, 0, 1);
        }
        add(SORT, "sort,variant", K, 0, 0, 0, 1);
        add(SORT, "sort,variant", K, 1, 0, 0, 1);
        add(SORT, "sort,variant", K, 2, 0, 0, 1);
#if HAS_THROW
        const unsigned H = T_THROW;
        add(TH_PUSH_R, "push_back(rvalue)", H);
        if (COPYABLE)
        {
            add(TH_PUSH_L, "push_back(lvalue)", H);
            for (int i : rn)
            {
                add(TH_PUSH_SELF, "push_back(a[i])", H | L, i, 0, 0, 1);
            }
            add(TH_COPYCTOR, "c(a)", H);
            add(TH_COPY_AB, "a=b", H);
            add(TH_COPY_BA, "b=a", H);
            add(TH_COPY_SELF, "a=a", H | L);
        }
#endif
        for (int x = 0; x < 15; ++x)
        {
            for (int y = 0; y < 15; ++y)
            {
                add(EQ, "equality of two sequences", G1, x, y, 0, 2);
            }
        }
    }

    static Seq seq_no(int x)
    {
        int len = 0, base = 0;
        while (x - base >= (1 << len))
        {
            base += 1 << len;
            ++len;
        }
        Seq s;
        for (int i = 0; i < len; ++i)
        {
            s.push_back(1 + (((x - base) >> i) & 1));
        }
        return s;
    }
    bool leaf(uint32_t op) const
    {
        return ops[op].kind == EQ;
    }

    bool can(const OpDef& o) const
    {
        int n = (int)A.size(), m = (int)B.size();
        if (MID)
        {
            if (!prepared)
            {
                return o.kind == PREP;
            }
            bool use = true;
            switch (o.kind)
            {
            case PREP:
            case EQ:
                return false;
            case INS_L:
            case INS_R:
            case EMPL:
            case EMPL0:
            case ERASE:
            case INSN:
            case INSRANGE:
            case INSFROMB:
            case AL_PUSHB:
            case AL_PUSHF:
            case TH_PUSH_SELF:
            case SPL_ALL:
                use = sparse(o.p, n);
                break;
            case ERASER:
            case AL_INS:
            case AL_EMPL:
            case AL_INSN:
            case SPL_SELF1:
                use = sparse(o.p, n) && sparse(o.q, n);
                break;
            case SPL_ONE:
                use = sparse(o.p, n) && sparse(o.q, m);
                break;
            case SPL_RANGE:
                use = sparse(o.p, n) && sparse(o.q & 255, m) && sparse(o.q >> 8, m);
                break;
            case SPL_SELFR:
                use = sparse(o.p, n) && sparse(o.q & 255, n) && sparse(o.q >> 8, n);
                break;
            case ASSIGN_N:
            case ASSIGN_R:
                use = sparse_size(o.p, n);
                break;
            case AL_ASSIGN:
                use = sparse_size(o.p, n) && sparse(o.q, n);
                break;
            }
            if (!use)
            {
                return false;
            }
        }
        switch (o.kind)
        {
        case PUSHB_L:
        case PUSHB_R:
        case PUSHF_L:
        case PUSHF_R:
        case EMPLB:
        case EMPLF:
        case TH_PUSH_L:
        case TH_PUSH_R:
            return n < MAXN;
        case INS_L:
        case INS_R:
        case EMPL:
        case EMPL0:
            return n < MAXN && o.p <= n;
        case INSN:
        case INSRANGE:
            return o.p <= n && n + o.q <= MAXN;
        case INSFROMB:
            return o.p <= n && n + m <= MAXN;
        case POPB:
        case POPF:
            return n > 0;
        case ERASE:
            return o.p < n;
        case ERASER:
            return o.q <= n;
        case COPY_BA:
        case TH_COPY_BA:
        case MOVE_BA:
        case SWAP_AB:
        case SWAP_BA:
            return n <= MAXB;
        case PUSH_B:
            return m < MAXB;
        case AL_PUSHB:
        case AL_PUSHF:
        case TH_PUSH_SELF:
            return o.p < n && n < MAXN;
        case AL_INS:
        case AL_EMPL:
            return o.p <= n && o.q < n && n < MAXN;
        case AL_INSN:
            return o.p <= n && o.q < n && n + o.r <= MAXN;
        case AL_ASSIGN:
            return o.q < n;
        case SPL_ALL:
            return ia == ib && o.p <= n && n + m <= MAXN;
        case SPL_ONE:
            return ia == ib && o.p <= n && o.q < m && n + 1 <= MAXN;
        case SPL_RANGE:
            return ia == ib && o.p <= n && (o.q & 255) <= m && n + (o.q & 255) - (o.q >> 8) <= MAXN;
        case SPL_SELF1:
            return o.p <= n && o.q < n;
        case SPL_SELFR:
            return o.p <= n && (o.q & 255) <= n;
        case MERGE:
            return ia == ib && n + m <= MAXN;
        case EQ:
            return n == 0 && m == 0 && ia == 1 && ib != 1;
        default:
            return true;
        }
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }

    void begin()
    {
        A.clear();
        B.clear();
        prepared = false;
        ia = 1;
        ib = SAMEID ? 1 : 2;
        void* p = arena_alloc(sizeof(Roots), 1, 30);
        R = new (p) Roots(ia, ib);
        if (G.checking)
        {
            verify("a", R->a, A, ia, CONTENT);
            verify("b", R->b, B, ib, CONTENT);
        }
    }
    void end()
    {
        R->~Roots();
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }

    static LSeq snap(const List& l)
    {
        LSeq s;
        for (auto it = l.cbegin(); it != l.cend() && s.size() < 200; ++it)
        {
            const T* p = std::addressof(*it);
            s.push_back(Item{ET::val(*it), p, stamp_of(p)});
        }
        return s;
    }

    // contents and identities; then all observers
    void verify(const char* w, List& l, const LSeq& m, int id, Cat cat)
    {
        const List& c = l;
        size_t n = m.size();
        LSeq s = snap(c);
        CHECK(cat, vals(s) == vals(m), "%s: holds %s, expected %s", w, str(vals(s)).c_str(), str(vals(m)).c_str());
        if (vals(s) != vals(m))
        {
            return;
        }
        for (size_t i = 0; i < n; ++i)
        {
            if (m[i].p)
            {
                CHECK(STABLE, s[i].p == m[i].p, "%s: element %zu of %s is at another address", w, i, str(vals(m)).c_str());
                CHECK(STABLE, !ET::tracked || s[i].st == m[i].st, "%s: element %zu of %s was rebuilt or assigned", w, i, str(vals(m)).c_str());
            }
        }
        CHECK(cat, c.size() == n, "%s: size is %zu, expected %zu", w, (size_t)c.size(), n);
        CHECK(cat, c.empty() == (n == 0), "%s: empty() is %d with %zu elements", w, (int)c.empty(), n);
        // forward, all flavours
        {
            auto i1 = l.begin();
            auto i2 = c.begin();
            auto i3 = l.rbegin();
            auto i4 = c.rbegin();
            auto i5 = c.crbegin();
            auto b1 = l.end();
            auto b2 = c.cend();
            for (size_t i = 0; i < n; ++i)
            {
                int e = m[i].v, r = m[n - 1 - i].v;
                --b1;
                auto old = b2--;
                bool good = old != b2;
                good = good && ET::val(*i1) == e && ET::val(*i2) == e && ET::val(*i3) == r && ET::val(*i4) == r && ET::val(*i5) == r &&
                       ET::val(*b1) == r && ET::val(*b2) == r;
                good = good && i1.operator->() == s[i].p && i2.operator->() == s[i].p;
                good = good && i1 != l.end() && i2 != c.end();
                CHECK(cat, good, "%s: traversals disagree at %zu of %s", w, i, str(vals(m)).c_str());
                if (!good)
                {
                    return;
                }
                auto o1 = i1++;
                good = std::addressof(*o1) == s[i].p;
                ++i2;
                ++i3;
                ++i4;
                ++i5;
                CHECK(cat, good, "%s: post-increment at %zu", w, i);
            }
            bool done = i1 == l.end() && i2 == c.end() && i3 == l.rend() && i4 == c.rend() && i5 == c.crend() && b1 == l.begin() && b2 == c.cbegin();
            CHECK(cat, done, "%s: a traversal of %s does not end where it should", w, str(vals(m)).c_str());
        }
        if (n)
        {
            CHECK(cat, std::addressof(l.front()) == s[0].p && std::addressof(c.front()) == s[0].p, "%s: front", w);
            CHECK(cat, std::addressof(l.back()) == s[n - 1].p && std::addressof(c.back()) == s[n - 1].p, "%s: back", w);
        }
        CHECK(ALLOCID, alloc_id(c.get_allocator(), id) == id, "%s: get_allocator() has identity %d, expected %d", w,
              alloc_id(c.get_allocator(), id), id);
        if (ALLOC_TRACKED)
        {
            for (size_t i = 0; i < n; ++i)
            {
                Block* b = find_block(s[i].p);
                CHECK(LIFE, b && b->live, "%s: element %zu is not in a live block", w, i);
                if (b && b->live)
                {
                    CHECK(ALLOCID, b->aid == id, "%s: element %zu came from allocator %d, the list's is %d", w, i, b->aid, id);
                }
            }
        }
    }

    template <class It>
    static long index_of(List& l, It it)
    {
        long i = 0;
        auto x = l.cbegin();
        typename List::const_iterator y = it;
        for (; i < 200; ++x, ++i)
        {
            if (x == y)
            {
                return i;
            }
            if (x == l.cend())
            {
                break;
            }
        }
        return -2;
    }
    static typename List::const_iterator at(const List& l, int i)
    {
        auto it = l.cbegin();
        std::advance(it, i);
        return it;
    }
    static T& elem(List& l, int i)
    {
        auto it = l.begin();
        std::advance(it, i);
        return *it;
    }

    struct Less
    {
        bool operator()(const T& x, const T& y) const
        {
            return ET::val(x) < ET::val(y);
        }
    };

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        List& a = R->a;
        List& b = R->b;
        const int n = (int)A.size();
        A = snap(a);
        B = snap(b);
        LSeq nA = A, nB = B;
        int nia = ia, nib = ib;
        Seq req;
        bool strong = false, target_b = false, fallible = true, nocost = false, relaxed = false, overwrite = false;
        long expect_dtor = -1;
        unsigned aids = 1u << ia;
        long ret = -1, expect_ret = -1;
        Err err;
        Cause thrown = {C_NONE, 0};
        bool throwing = false;
        (void)thrown;
        auto after_arg = [&](bool intact, const char* what) {
            CHECK(STRONG, intact, "the caller's argument was changed by a failed %s", what);
        };

        switch (o.kind)
        {
        case PREP:
        {
            Arm arm(0);
            for (int i = 0; i < o.p; ++i)
            {
                a.emplace_back_nothrow(err, i);
                nA.push_back(fresh(i));
            }
            for (int i = 0; i < o.q; ++i)
            {
                b.emplace_back_nothrow(err, 100 + i);
                nB.push_back(fresh(100 + i));
            }
            aids |= 1u << ib;
            G.fault_cnt = 0;
            prepared = true;
            break;
        }
#if COPYABLE
        case PUSHB_L:
        case PUSHF_L:
        {
            Arg x(500);
            const T& cx = x.x;
            {
                Arm arm(fault);
                o.kind == PUSHB_L ? a.push_back_nothrow(err, cx) : a.push_front_nothrow(err, cx);
            }
            CHECK(err ? STRONG : CONTENT, ET::val(x.x) == 500, "push of an lvalue changed it");
            nA.insert(o.kind == PUSHB_L ? nA.end() : nA.begin(), fresh(500));
            req.push_back(500);
            strong = true;
            break;
        }
#endif
        case PUSHB_R:
        case PUSHF_R:
        {
            Arg x(500);
            {
                Arm arm(fault);
                o.kind == PUSHB_R ? a.push_back_nothrow(err, std::move(x.x)) : a.push_front_nothrow(err, std::move(x.x));
            }
            if (err)
            {
                after_arg(ET::val(x.x) == 500, "insertion");
            }
            CHECK(PATH, err || !CFG_MOVABLE || (G.n_copy == 0 && G.n_move >= 1), "an rvalue was copied (%ld copies, %ld moves)", G.n_copy, G.n_move);
            nA.insert(o.kind == PUSHB_R ? nA.end() : nA.begin(), fresh(500));
            req.push_back(500);
            strong = true;
            break;
        }
        case EMPLB:
        case EMPLF:
        {
            {
                Arm arm(fault);
                o.kind == EMPLB ? a.emplace_back_nothrow(err, 500) : a.emplace_front_nothrow(err, 500);
            }
            CHECK(PATH, G.n_copy + G.n_move + G.n_assign == 0, "emplacement made %ld copies and %ld moves", G.n_copy, G.n_move);
            nA.insert(o.kind == EMPLB ? nA.end() : nA.begin(), fresh(500));
            req.push_back(500);
            strong = true;
            break;
        }
        case POPB:
        case POPF:
        {
            Arm arm(fault);
            if (o.kind == POPB)
            {
                a.pop_back();
                nA.pop_back();
            }
            else
            {
                a.pop_front();
                nA.erase(nA.begin());
            }
            expect_dtor = 1;
            fallible = false;
            nocost = true;
            break;
        }
        case INS_L:
        case INS_R:
        {
            Arg x(500);
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
#if COPYABLE
                const T& cx = x.x;
                auto it = o.kind == INS_L ? a.insert_nothrow(err, pos, cx) : a.insert_nothrow(err, pos, std::move(x.x));
#else
                auto it = a.insert_nothrow(err, pos, std::move(x.x));
#endif
                G.armed = false;
                ret = err ? 0 : index_of(a, it);
            }
            expect_ret = o.p;
            if (err || o.kind == INS_L)
            {
                after_arg(ET::val(x.x) == 500, "insertion");
            }
            nA.insert(nA.begin() + o.p, fresh(500));
            req.push_back(500);
            strong = true;
            break;
        }
        case EMPL:
        case EMPL0:
        {
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                auto it = o.kind == EMPL ? a.emplace_nothrow(err, pos, 500) : a.emplace_nothrow(err, pos);
                G.armed = false;
                ret = err ? 0 : index_of(a, it);
            }
            expect_ret = o.p;
            CHECK(PATH, G.n_copy + G.n_move + G.n_assign == 0, "emplacement made %ld copies and %ld moves", G.n_copy, G.n_move);
            nA.insert(nA.begin() + o.p, fresh(o.kind == EMPL ? 500 : 0));
            req.push_back(500);
            strong = true;
            break;
        }
#if COPYABLE
        case INSN:
        {
            Arg x(500);
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                a.insert_nothrow(err, pos, (size_t)o.q, x.x);
            }
            CHECK(err ? BASIC : CONTENT, ET::val(x.x) == 500, "insertion changed its argument");
            nA.insert(nA.begin() + o.p, o.q, fresh(500));
            req.assign(o.q, 500);
            break;
        }
#endif
        case INSRANGE:
        {
            Seq s;
            for (int i = 0; i < o.q; ++i)
            {
                s.push_back(510 + i);
            }
            ArgArr x(s);
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                if (o.r == 3)
                {
                    a.insert_nothrow(err, pos, std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
                }
#if COPYABLE
                else if (o.r == 0)
                {
                    a.insert_nothrow(err, pos, (const T*)x.begin(), (const T*)x.end());
                }
                else if (o.r == 1)
                {
                    const T* cur = x.begin();
                    a.insert_nothrow(err, pos, InIt(x.begin(), &cur), InIt(x.end(), &cur));
                }
                else
                {
                    a.insert_nothrow(err, pos, FwIt(x.begin()), FwIt(x.end()));
                }
#endif
            }
            moved_range(o.r == 3, (bool)err, x, s, "inserting");
            for (int i = 0; i < o.q; ++i)
            {
                nA.insert(nA.begin() + o.p + i, fresh(510 + i));
            }
            req = s;
            break;
        }
#if COPYABLE
        case INSFROMB:
        {
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                a.insert_nothrow(err, pos, b.cbegin(), b.cend());
            }
            for (size_t i = 0; i < B.size(); ++i)
            {
                nA.insert(nA.begin() + o.p + i, fresh(B[i].v));
            }
            req = vals(B);
            break;
        }
#endif
        case ERASE:
        {
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                auto it = a.erase(pos);
                G.armed = false;
                ret = index_of(a, it);
            }
            expect_ret = o.p;
            nA.erase(nA.begin() + o.p);
            expect_dtor = 1;
            fallible = false;
            nocost = true;
            break;
        }
        case ERASER:
        {
            auto f = at(a, o.p), l = at(a, o.q);
            {
                Arm arm(fault);
                auto it = a.erase(f, l);
                G.armed = false;
                ret = index_of(a, it);
            }
            expect_ret = o.p;
            nA.erase(nA.begin() + o.p, nA.begin() + o.q);
            expect_dtor = o.q - o.p;
            fallible = false;
            nocost = true;
            break;
        }
#if COPYABLE
        case ASSIGN_N:
        {
            Arg x(500);
            {
                Arm arm(fault);
                a.assign_nothrow(err, (size_t)o.p, x.x);
            }
            CHECK(err ? BASIC : CONTENT, ET::val(x.x) == 500, "assign changed its argument");
            nA.assign(o.p, fresh(500));
            req.assign(o.p, 500);
            overwrite = true;
            break;
        }
        case ASSIGN_ND:
        {
            if (!CFG_DEFTHROW)
            {
                {
                    Arm arm(fault);
                    a.assign_nothrow(err, (size_t)o.p);
                }
                nA.assign(o.p, fresh(0));
                req.assign(o.p, 0);
                overwrite = true;
            }
            else
            {
                fallible = false;
                Arm arm(0);
            }
            break;
        }
#endif
        case ASSIGN_R:
        {
            Seq s;
            for (int i = 0; i < o.p; ++i)
            {
                s.push_back(510 + i);
            }
            ArgArr x(s);
            {
                Arm arm(fault);
                if (o.q == 3)
                {
                    a.assign_nothrow(err, std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
                }
#if COPYABLE
                else if (o.q == 0)
                {
                    a.assign_nothrow(err, (const T*)x.begin(), (const T*)x.end());
                }
                else if (o.q == 1)
                {
                    const T* cur = x.begin();
                    a.assign_nothrow(err, InIt(x.begin(), &cur), InIt(x.end(), &cur));
                }
                else
                {
                    a.assign_nothrow(err, FwIt(x.begin()), FwIt(x.end()));
                }
#endif
            }
            moved_range(o.q == 3, (bool)err, x, s, "assigning");
            nA.clear();
            for (int v : s)
            {
                nA.push_back(fresh(v));
            }
            req = s;
            overwrite = true;
            break;
        }
#if COPYABLE
        case COPY_AB:
        {
            {
                Arm arm(fault);
                a.copy_nothrow(err, b);
            }
            nA.clear();
            for (auto& i : B)
            {
                nA.push_back(fresh(i.v));
            }
            req = vals(B);
            overwrite = true;
            break;
        }
        case COPY_BA:
        {
            aids = 1u << ib;
            {
                Arm arm(fault);
                b.copy_nothrow(err, a);
            }
            nB.clear();
            for (auto& i : A)
            {
                nB.push_back(fresh(i.v));
            }
            req = vals(A);
            overwrite = true;
            target_b = true;
            break;
        }
#endif
        case CLEAR:
        {
            Arm arm(fault);
            a.clear();
            nA.clear();
            expect_dtor = n;
            fallible = false;
            nocost = true;
            break;
        }
        case PUSH_B:
        {
            Arg x(600);
            aids = 1u << ib;
            {
                Arm arm(fault);
                b.push_back_nothrow(err, std::move(x.x));
            }
            nB.push_back(fresh(600));
            target_b = true;
            strong = true;
            break;
        }
        case CLEAR_B:
        {
            Arm arm(fault);
            b.clear();
            expect_dtor = (long)B.size();
            nB.clear();
            fallible = false;
            nocost = true;
            break;
        }
        case SWAP_AB:
        case SWAP_BA:
        {
            {
                Arm arm(fault);
                o.kind == SWAP_AB ? a.swap(b) : b.swap(a);
            }
            std::swap(nA, nB);
            std::swap(nia, nib);
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case MOVE_AB:
        {
            {
                Arm arm(fault);
                a = std::move(b);
            }
            expect_dtor = n;
            nA = B;
            nB.clear();
            nia = ib;
            nib = alloc_id(b.get_allocator(), ib);
            fallible = false;
            nocost = true;
            break;
        }
        case MOVE_BA:
        {
            {
                Arm arm(fault);
                b = std::move(a);
            }
            expect_dtor = (long)B.size();
            nB = A;
            nA.clear();
            nib = ia;
            nia = alloc_id(a.get_allocator(), ia);
            fallible = false;
            nocost = true;
            break;
        }
        case MOVEDEF:
        {
            {
                Arm arm(fault);
                List c;
                G.armed = false;
                verify("default-constructed", c, LSeq(), 77, CONTENT);
                typename List::iterator i1;
                typename List::const_iterator i2;
                G.armed = true;
                c = std::move(a);
                G.armed = false;
                verify("moved-to", c, A, ia, CONTENT);
                verify("moved-from", a, LSeq(), alloc_id(a.get_allocator(), ia), CONTENT);
                i1 = c.begin();
                i2 = i1;
                CHECK(RET, i1 == c.begin() && i2 == i1, "assigned iterators differ");
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                verify("moved-from", c, LSeq(), alloc_id(c.get_allocator(), ia), CONTENT);
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case MOVECTOR:
        {
            {
                Arm arm(fault);
                List c(std::move(a));
                G.armed = false;
                verify("moved-to", c, A, ia, CONTENT);
                verify("moved-from", a, LSeq(), alloc_id(a.get_allocator(), ia), CONTENT);
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                verify("moved-from", c, LSeq(), alloc_id(c.get_allocator(), ia), CONTENT);
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
#if COPYABLE
        case AL_PUSHB:
        case AL_PUSHF:
        {
            T& x = elem(a, o.p);
            {
                Arm arm(fault);
                o.kind == AL_PUSHB ? a.push_back_nothrow(err, x) : a.push_front_nothrow(err, x);
            }
            nA.insert(o.kind == AL_PUSHB ? nA.end() : nA.begin(), fresh(A[o.p].v));
            strong = true;
            break;
        }
        case AL_INS:
        case AL_EMPL:
        {
            T& x = elem(a, o.q);
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                auto it = o.kind == AL_INS ? a.insert_nothrow(err, pos, x) : a.emplace_nothrow(err, pos, (const T&)x);
                G.armed = false;
                ret = err ? 0 : index_of(a, it);
            }
            expect_ret = o.p;
            nA.insert(nA.begin() + o.p, fresh(A[o.q].v));
            strong = true;
            break;
        }
        case AL_INSN:
        {
            T& x = elem(a, o.q);
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                a.insert_nothrow(err, pos, (size_t)o.r, x);
            }
            nA.insert(nA.begin() + o.p, o.r, fresh(A[o.q].v));
            req.assign(o.r, A[o.q].v);
            break;
        }
        case AL_ASSIGN:
        {
            T& x = elem(a, o.q);
            {
                Arm arm(fault);
                a.assign_nothrow(err, (size_t)o.p, x);
            }
            nA.assign(o.p, fresh(A[o.q].v));
            req.assign(o.p, A[o.q].v);
            overwrite = true;
            break;
        }
        case AL_COPY:
        {
            {
                Arm arm(fault);
                a.copy_nothrow(err, a);
            }
            for (auto& i : nA)
            {
                i.p = nullptr;
            }
            req = vals(A);
            overwrite = true;
            break;
        }
#endif
        case AL_MOVE:
        {
            {
                Arm arm(fault);
                List& r = a;
                a = std::move(r);
            }
            fallible = false;
            relaxed = true;
            nocost = true;
            break;
        }
        case AL_SWAP:
        {
            {
                Arm arm(fault);
                a.swap(a);
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case SPL_ALL:
        {
            auto pos = at(a, o.p);
            {
                Arm arm(fault);
                o.q ? a.splice(pos, std::move(b)) : a.splice(pos, b);
            }
            nA.insert(nA.begin() + o.p, B.begin(), B.end());
            nB.clear();
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case SPL_ONE:
        {
            auto pos = at(a, o.p), it = at(b, o.q);
            {
                Arm arm(fault);
                o.r ? a.splice(pos, std::move(b), it) : a.splice(pos, b, it);
            }
            nA.insert(nA.begin() + o.p, B[o.q]);
            nB.erase(nB.begin() + o.q);
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case SPL_RANGE:
        {
            int i = o.q >> 8, j = o.q & 255;
            auto pos = at(a, o.p), f = at(b, i), l = at(b, j);
            {
                Arm arm(fault);
                o.r ? a.splice(pos, std::move(b), f, l) : a.splice(pos, b, f, l);
            }
            nA.insert(nA.begin() + o.p, B.begin() + i, B.begin() + j);
            nB.erase(nB.begin() + i, nB.begin() + j);
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case SPL_SELF1:
        case SPL_SELFR:
        {
            int i = o.kind == SPL_SELF1 ? o.q : o.q >> 8;
            int j = o.kind == SPL_SELF1 ? o.q + 1 : o.q & 255;
            auto pos = at(a, o.p), f = at(a, i), l = at(a, j);
            {
                Arm arm(fault);
                if (o.kind == SPL_SELF1)
                {
                    o.r ? a.splice(pos, std::move(a), f) : a.splice(pos, a, f);
                }
                else
                {
                    o.r ? a.splice(pos, std::move(a), f, l) : a.splice(pos, a, f, l);
                }
            }
            LSeq mid(A.begin() + i, A.begin() + j);
            if (o.p < i || o.p > j)
            {
                nA.erase(nA.begin() + i, nA.begin() + j);
                int p = o.p <= i ? o.p : o.p - (j - i);
                nA.insert(nA.begin() + p, mid.begin(), mid.end());
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case MERGE:
        {
            {
                Arm arm(fault);
                switch (o.p)
                {
                case 0:
                    a.merge(b);
                    break;
                case 1:
                    a.merge(std::move(b));
                    break;
                case 2:
                    a.merge(b, Less());
                    break;
                default:
                    a.merge(std::move(b), Less());
                }
            }
            std::stable_sort(nB.begin(), nB.end(), [](const Item& x, const Item& y) { return x.v < y.v; });
            nA.insert(nA.end(), nB.begin(), nB.end());
            std::stable_sort(nA.begin(), nA.end(), [](const Item& x, const Item& y) { return x.v < y.v; });
            nB.clear();
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case SORT:
        {
            {
                Arm arm(fault);
                if (o.p == 0)
                {
                    a.sort();
                }
                else if (o.p == 1)
                {
                    a.sort(Less());
                }
                else
                {
                    a.sort([](const T& x, const T& y) { return ET::val(y) < ET::val(x); });
                }
            }
            if (o.p == 2)
            {
                std::stable_sort(nA.begin(), nA.end(), [](const Item& x, const Item& y) { return y.v < x.v; });
            }
            expect_dtor = 0;
            fallible = false;
            nocost = true;
            break;
        }
        case EQ:
        {
#if COPYABLE
            Seq s1 = seq_no(o.p), s2 = seq_no(o.q);
            Impl c1(make_alloc(1)), c2(make_alloc(2));
            ArgArr x1(s1), x2(s2);
            c1.assign_nothrow(err, (const T*)x1.begin(), (const T*)x1.end());
            c2.assign_nothrow(err, (const T*)x2.begin(), (const T*)x2.end());
            CHECK(ERR, !err, "assign failed");
            bool e = (c1 == c2);
            CHECK(CONTENT, e == (s1 == s2), "%s == %s gives %d", str(s1).c_str(), str(s2).c_str(), (int)e);
            CHECK(CONTENT, c1 == c1, "a list is not equal to itself");
            G.obs = e;
#endif
            G.fault_cnt = 0;
            G.fired = 0;
            return;
        }
#if HAS_THROW
        case TH_PUSH_L:
        case TH_PUSH_R:
        {
            Arg x(500);
            thrown = catch_cause([&] {
                Arm arm(fault);
#if COPYABLE
                const T& cx = x.x;
                if (o.kind == TH_PUSH_L)
                {
                    a.push_back(cx);
                }
                else
#endif
                {
                    a.push_back(std::move(x.x));
                }
            });
            throwing = true;
            if (thrown.k || o.kind == TH_PUSH_L)
            {
                after_arg(ET::val(x.x) == 500, "push_back");
            }
            CHECK(PATH, thrown.k || o.kind == TH_PUSH_L || !CFG_MOVABLE || (G.n_copy == 0 && G.n_move >= 1), "push_back copied an rvalue (%ld copies, %ld moves)",
                  G.n_copy, G.n_move);
            nA.push_back(fresh(500));
            break;
        }
#if COPYABLE
        case TH_PUSH_SELF:
        {
            T& x = elem(a, o.p);
            thrown = catch_cause([&] {
                Arm arm(fault);
                a.push_back(x);
            });
            throwing = true;
            nA.push_back(fresh(A[o.p].v));
            break;
        }
        case TH_COPYCTOR:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                List c(static_cast<const List&>(a));
                G.armed = false;
                LSeq e = A;
                for (auto& i : e)
                {
                    i.p = nullptr;
                }
                verify("copy", c, e, ia, CONTENT);
            });
            throwing = true;
            break;
        }
        case TH_COPY_AB:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                const List& cb = b;
                a = cb;
            });
            throwing = true;
            nA.clear();
            for (auto& i : B)
            {
                nA.push_back(fresh(i.v));
            }
            break;
        }
        case TH_COPY_BA:
        {
            aids = 1u << ib;
            thrown = catch_cause([&] {
                Arm arm(fault);
                const List& ca = a;
                b = ca;
            });
            throwing = true;
            nB.clear();
            for (auto& i : A)
            {
                nB.push_back(fresh(i.v));
            }
            break;
        }
        case TH_COPY_SELF:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                const List& ca = a;
                a = ca;
            });
            throwing = true;
            for (auto& i : nA)
            {
                i.p = nullptr;
            }
            break;
        }
#endif
#endif
        default:
            die("unknown operation");
        }
        bool failed = false;
        if (throwing)
        {
#if HAS_THROW
            failed = check_thrown(thrown);
#endif
        }
        else if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(NOCOST, !nocost || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_ctor == 0),
                  "%ld allocations, %ld copies, %ld moves, %ld assignments", G.n_alloc, G.n_copy, G.n_move, G.n_assign);
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
            CHECK((o.tag & (T_RELINK | T_MOVE)) ? NOCOST : LIFE, expect_dtor < 0 || !ET::tracked || G.n_dtor == expect_dtor, "%ld elements were destroyed, expected %ld", G.n_dtor,
                  expect_dtor);
        }
        if (ALLOC_TRACKED)
        {
            CHECK(ALLOCID, (G.aids & ~aids) == 0, "memory was requested from a foreign allocator (mask %x, own %x)", G.aids, aids);
        }
        if (!failed)
        {
            CHECK(RET, expect_ret < 0 || ret == expect_ret, "returned position %ld, expected %ld", ret, expect_ret);
            if (relaxed)
            {
                LSeq s = snap(a);
                CHECK(CONTENT, vals(s) == vals(A) || s.empty(), "self-move left %s of %s", str(vals(s)).c_str(), str(vals(A)).c_str());
                nA = s;
            }
            A = nA;
            B = nB;
            ia = nia;
            ib = nib;
            if (G.checking)
            {
                verify("a", a, A, ia, CONTENT);
                verify("b", b, B, ib, CONTENT);
            }
        }
        else
        {
            List& t = target_b ? b : a;
            List& u = target_b ? a : b;
            LSeq& mt = target_b ? B : A;
            LSeq& mu = target_b ? A : B;
            LSeq st = snap(t), su = snap(u);
            if (strong || throwing)
            {
                CHECK(STRONG, vals(st) == vals(mt), "after the failure the list holds %s, before it held %s", str(vals(st)).c_str(),
                      str(vals(mt)).c_str());
                CHECK(STRONG, vals(su) == vals(mu), "after the failure the other list holds %s, before it held %s", str(vals(su)).c_str(),
                      str(vals(mu)).c_str());
            }
            else
            {
                Seq have = vals(mt);
                have.insert(have.end(), req.begin(), req.end());
                CHECK(BASIC, sub_multiset(vals(st), have), "after the failure the list holds %s: neither old %s nor requested %s",
                      str(vals(st)).c_str(), str(vals(mt)).c_str(), str(req).c_str());
                CHECK(BASIC, vals(su) == vals(mu), "after the failure the other list holds %s, before it held %s", str(vals(su)).c_str(),
                      str(vals(mu)).c_str());
            }
            if (!overwrite)
            {
                // every old element must still be there, in order and in place
                size_t k = 0;
                for (size_t i = 0; i < st.size() && k < mt.size(); ++i)
                {
                    if (st[i].p == mt[k].p && (!ET::tracked || st[i].st == mt[k].st))
                    {
                        ++k;
                    }
                }
                CHECK(STABLE, k == mt.size(), "a failed insertion moved or dropped old elements");
            }
            mt = st;
            if (G.checking)
            {
                verify("a", a, A, ia, throwing || strong ? STRONG : BASIC);
                verify("b", b, B, ib, throwing || strong ? STRONG : BASIC);
            }
        }
        if (G.nviol)
        {
            return;
        }
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        ob.add((uint64_t)(failed ? 0 : ret));
        ob.add(vals(A));
        ob.add(vals(B));
        ob.add(ia);
        ob.add(ib);
        ob.add(G.n_alloc);
        G.obs = ob.get();
        int i = 0;
        for (auto& x : a)
        {
            ET::set(x, i++);
        }
        i = 100;
        for (auto& x : b)
        {
            ET::set(x, i++);
        }
        A = snap(a);
        B = snap(b);
    }

    void key(Hasher& h, bool obs)
    {
        h.add(A.size());
        h.add(B.size());
        h.add(ia);
        h.add(ib);
        if (!obs)
        {
            fingerprint(h, (const char*)R, sizeof(Roots));
        }
    }
};

} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::ListWorld>(argc, argv, "list");
}
