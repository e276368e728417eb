// Two vectors under every history of their operations, with every fault point.
#include "common.hpp"
#include <nestl/vector.hpp>

namespace mc
{
#if CFG_WRAP
typedef nestl::vector<T, Alloc> Vec;
#else
typedef nestl::no_exceptions::vector<T, Alloc> Vec;
#endif
typedef nestl::no_exceptions::vector<T, Alloc> Impl;

#if CFG_WRAP && MC_EX
static const Impl& impl_of(const Vec& v)
{
    return v.as_noexcept();
}
#define HAS_THROW 1
#else
static const Impl& impl_of(const Vec& v)
{
    return v;
}
#define HAS_THROW 0
#endif

enum Kind
{
    PUSH_L,
    PUSH_R,
    EMPL,
    EMPL0,
    INS_L,
    INS_R,
    INSRANGE,
    INSFROMB,
    RESIZE,
    RESIZEV,
    ASSIGN_N,
    ASSIGN_ND,
    ASSIGN_R,
    COPY_AB,
    COPY_BA,
    RESERVE,
    SHRINK,
    CLEAR,
    PUSH_B,
    CLEAR_B,
    SWAP_AB,
    SWAP_BA,
    MOVE_AB,
    MOVE_BA,
    MOVECTOR,
    MOVEDEF,
    AL_PUSH,
    AL_EMPL,
    AL_INS,
    AL_RESIZE,
    AL_ASSIGN,
    AL_COPY,
    AL_MOVE,
    AL_SWAP,
    TH_PUSH_L,
    TH_PUSH_R,
    TH_PUSH_SELF,
    TH_COPYCTOR,
    TH_COPYCTOR_NX,
    TH_COPY_AB,
    TH_COPY_BA,
    TH_COPY_SELF,
    TH_COPY_NX,
    TH_MOVE_NX,
    TH_MOVECTOR_NX,
    TH_INTEROP,
    EQ,
    PREP
};

struct Roots
{
    Vec a, b;
    Roots(int ia, int ib)
        : a(make_alloc(ia)), b(make_alloc(ib))
    {
    }
};

struct VecWorld : WorldBase
{
    int MAXN, MAXB, MAXC;
    bool MID;      // start from prepared vectors, sample positions
    bool prepared; // a prepared state was chosen
    Roots* R;
    Seq A, B;
    int ia, ib;

    void setup()
    {
        MAXN = O.param("maxn", 5);
        MAXB = O.param("maxb", 2);
        MAXC = O.param("maxc", MAXN + 2);
        MID = O.param("mid", 0) != 0;
        const unsigned G1 = T_GEN;
        std::vector<int> counts = {0, 1, 2, 3};
        if (MID)
        {
            MAXN = 70;
            MAXB = 70;
            MAXC = 70;
            counts = {0, 1, 3, 9, 20};
            for (int n : mid_sizes())
            {
                if (n > O.param("mid", 0))
                {
                    break;
                }
                for (int v = 0; v < 4; ++v) // exact, grown by appending, one free, eight free
                {
                    add(PREP, "start with size,capacity-variant,size of b", T_SEED, n, v, v == 1 ? n + 2 : 3, 3);
                }
            }
        }
        add(PUSH_L, "push_back_nothrow(lvalue)", G1);
        add(PUSH_R, "push_back_nothrow(rvalue)", G1);
        add(EMPL, "emplace_back_nothrow(int)", G1);
        add(EMPL0, "emplace_back_nothrow()", G1);
        for (int p = 0; p < MAXN; ++p)
        {
            add(INS_L, "insert_nothrow(pos,lvalue)", G1, p, 0, 0, 1);
            add(INS_R, "insert_nothrow(pos,rvalue)", G1, p, 0, 0, 1);
        }
        for (int kind = 0; kind < 4; ++kind)
        {
            for (int p = 0; p <= MAXN; ++p)
            {
                for (int k : counts)
                {
                    add(INSRANGE, "insert_nothrow(pos,count-range,iterator-kind)", G1, p, k, kind, 3);
                }
            }
        }
        for (int p = 0; p <= MAXN; ++p)
        {
            add(INSFROMB, "insert_nothrow(pos,b.begin,b.end)", G1, p, 0, 0, 1);
        }
        for (int k = 0; k <= MAXN; ++k)
        {
            add(RESIZE, "resize_nothrow(n)", G1, k, 0, 0, 1);
            add(RESIZEV, "resize_nothrow(n,value)", G1, k, 0, 0, 1);
            add(ASSIGN_N, "assign_nothrow(n,value)", G1, k, 0, 0, 1);
            if (k < 3)
            {
                add(ASSIGN_ND, "assign_nothrow(n)", G1, k, 0, 0, 1);
            }
            for (int kind = 0; kind < 4; ++kind)
            {
                add(ASSIGN_R, "assign_nothrow(count-range,iterator-kind)", G1, k, kind, 0, 2);
            }
        }
        add(COPY_AB, "a.copy_nothrow(b)", G1);
        add(COPY_BA, "b.copy_nothrow(a)", G1);
        for (int k = 0; k <= MAXC; ++k)
        {
            add(RESERVE, "reserve_nothrow(n)", G1, k, 0, 0, 1);
        }
        add(SHRINK, "shrink_to_fit_nothrow", G1);
        add(CLEAR, "clear", G1);
        add(PUSH_B, "b.push_back_nothrow(lvalue)", G1);
        add(CLEAR_B, "b.clear", G1);
        const unsigned M = T_MOVE;
        add(SWAP_AB, "a.swap(b)", M);
        add(SWAP_BA, "b.swap(a)", M);
        add(MOVE_AB, "a=move(b)", M);
        add(MOVE_BA, "b=move(a)", M);
        add(MOVECTOR, "c(move(a)); a=move(c)", M);
        add(MOVEDEF, "default-constructed c=move(a); a=move(c)", M);
        const unsigned L = T_ALIAS;
        for (int i = 0; i < MAXN; ++i)
        {
            add(AL_PUSH, "push_back_nothrow(a[i])", L, i, 0, 0, 1);
            add(AL_EMPL, "emplace_back_nothrow(a[i])", L, i, 0, 0, 1);
            for (int p = 0; p <= MAXN; ++p)
            {
                add(AL_INS, "insert_nothrow(pos,a[i])", L, p, i, 0, 2);
            }
            for (int k = 0; k <= MAXN; ++k)
            {
                add(AL_RESIZE, "resize_nothrow(n,a[i])", L, k, i, 0, 2);
                add(AL_ASSIGN, "assign_nothrow(n,a[i])", L, k, i, 0, 2);
            }
        }
        add(AL_COPY, "a.copy_nothrow(a)", L);
        add(AL_MOVE, "a=move(a)", L);
        add(AL_SWAP, "a.swap(a)", L);
#if HAS_THROW
        const unsigned H = T_THROW;
        add(TH_PUSH_L, "push_back(lvalue)", H);
        add(TH_PUSH_R, "push_back(rvalue)", H);
        for (int i = 0; i < MAXN; ++i)
        {
            add(TH_PUSH_SELF, "push_back(a[i])", H | L, i, 0, 0, 1);
        }
        add(TH_COPYCTOR, "c(a)", H);
        add(TH_COPYCTOR_NX, "c(a.as_noexcept)", H);
        add(TH_COPY_AB, "a=b", H);
        add(TH_COPY_BA, "b=a", H);
        add(TH_COPY_SELF, "a=a", H | L);
        add(TH_COPY_NX, "a=b.as_noexcept", H);
        add(TH_MOVE_NX, "a=move(b.as_noexcept)", H);
        add(TH_MOVECTOR_NX, "c(move(a.as_noexcept)); a=move(c)", H);
        add(TH_INTEROP, "a.as_noexcept().push_back_nothrow", H);
#endif
        // all pairs of sequences of at most 3 values out of 2
        for (int x = 0; x < 15; ++x)
        {
            for (int y = 0; y < 15; ++y)
            {
                add(EQ, "equality of two sequences", G1, x, y, 0, 2);
            }
        }
    }

    static Seq seq_no(int x) // 0..14: sequences over {1,2} of length 0..3
    {
        int len = 0, base = 0;
        while (x - base >= (1 << len))
        {
            base += 1 << len;
            ++len;
        }
        Seq s;
        for (int i = 0; i < len; ++i)
        {
            s.push_back(1 + (((x - base) >> i) & 1));
        }
        return s;
    }

    bool leaf(uint32_t op) const
    {
        return ops[op].kind == EQ;
    }

    bool can(const OpDef& o) const
    {
        int n = (int)A.size(), m = (int)B.size();
        if (MID)
        {
            if (!prepared)
            {
                return o.kind == PREP;
            }
            switch (o.kind)
            {
            case PREP:
            case EQ:
                return false;
            case INS_L:
            case INS_R:
            case INSRANGE:
            case INSFROMB:
            case AL_PUSH:
            case AL_EMPL:
            case TH_PUSH_SELF:
                if (!sparse(o.p, n))
                {
                    return false;
                }
                break;
            case AL_INS:
                if (!sparse(o.p, n) || !sparse(o.q, n))
                {
                    return false;
                }
                break;
            case RESIZE:
            case RESIZEV:
            case ASSIGN_N:
            case ASSIGN_R:
                if (!sparse_size(o.p, n))
                {
                    return false;
                }
                break;
            case RESERVE:
                if (!sparse_size(o.p, n) && o.p != (int)R->a.capacity() && o.p != (int)R->a.capacity() + 1)
                {
                    return false;
                }
                break;
            case AL_RESIZE:
            case AL_ASSIGN:
                if (!sparse_size(o.p, n) || !sparse(o.q, n))
                {
                    return false;
                }
                break;
            }
        }
        switch (o.kind)
        {
        case PUSH_L:
        case PUSH_R:
        case EMPL:
        case EMPL0:
        case TH_PUSH_L:
        case TH_PUSH_R:
        case TH_INTEROP:
            return n < MAXN;
        case INS_L:
        case INS_R:
            return n < MAXN && o.p < n;
        case INSRANGE:
            return o.p <= n && n + o.q <= MAXN;
        case INSFROMB:
            return o.p <= n && n + m <= MAXN;
        case COPY_BA:
        case TH_COPY_BA:
        case MOVE_BA:
        case SWAP_AB:
        case SWAP_BA:
            return n <= MAXB;
        case PUSH_B:
            return m < MAXB;
        case AL_PUSH:
        case AL_EMPL:
        case TH_PUSH_SELF:
            return o.p < n && n < MAXN;
        case AL_INS:
            return o.p <= n && o.q < n && n < MAXN;
        case AL_RESIZE:
        case AL_ASSIGN:
            return o.q < n;
        case EQ:
            return n == 0 && m == 0 && R->a.capacity() == 0 && R->b.capacity() == 0;
        default:
            return true;
        }
    }

    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }

    void begin()
    {
        A.clear();
        B.clear();
        prepared = false;
        ia = 1;
        ib = 2;
        void* p = arena_alloc(sizeof(Roots), 1, 30);
        R = new (p) Roots(ia, ib);
        if (G.checking)
        {
            verify("a", R->a, A, ia, CONTENT);
            verify("b", R->b, B, ib, CONTENT);
        }
    }
    void end()
    {
        R->~Roots();
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }

    static Seq snap(const Vec& v)
    {
        Seq s;
        for (auto it = v.cbegin(); it != v.cend() && s.size() < 200; ++it)
        {
            s.push_back(ET::val(*it));
        }
        return s;
    }

    void verify(const char* w, Vec& v, const Seq& m, int id, Cat cat)
    {
        const Vec& c = v;
        size_t n = m.size();
        CHECK(cat, c.size() == n, "%s: size is %zu, expected %zu %s", w, (size_t)c.size(), n, str(m).c_str());
        CHECK(cat, c.empty() == (n == 0), "%s: empty() is %d with %zu elements", w, (int)c.empty(), n);
        CHECK(cat, c.capacity() >= n, "%s: capacity %zu below size %zu", w, (size_t)c.capacity(), n);
        CHECK(cat, (size_t)(c.cend() - c.cbegin()) == n, "%s: iterator distance %zd, expected %zu", w, (ptrdiff_t)(c.cend() - c.cbegin()), n);
        if (G.nviol)
        {
            return;
        }
        Seq s = snap(c);
        CHECK(cat, s == m, "%s: holds %s, expected %s", w, str(s).c_str(), str(m).c_str());
        if (s != m)
        {
            return;
        }
        bool ok = v.end() - v.begin() == (ptrdiff_t)n && c.end() - c.begin() == (ptrdiff_t)n && v.rend() - v.rbegin() == (ptrdiff_t)n &&
                  c.rend() - c.rbegin() == (ptrdiff_t)n && c.crend() - c.crbegin() == (ptrdiff_t)n;
        CHECK(cat, ok, "%s: begin/end pairs disagree about the size", w);
        if (!ok)
        {
            return;
        }
        auto i1 = v.begin();
        auto i2 = c.begin();
        auto i3 = v.rbegin();
        auto i4 = c.rbegin();
        auto i5 = c.crbegin();
        for (size_t i = 0; i < n; ++i, ++i1, ++i2, ++i3, ++i4, ++i5)
        {
            int e = m[i], r = m[n - 1 - i];
            bool good = ET::val(v[i]) == e && ET::val(c[i]) == e && ET::val(*i1) == e && ET::val(*i2) == e && ET::val(*i3) == r &&
                        ET::val(*i4) == r && ET::val(*i5) == r;
            good = good && std::addressof(v[i]) == std::addressof(*i1) && std::addressof(c[i]) == std::addressof(*i1);
            CHECK(cat, good, "%s: observers disagree at index %zu of %s", w, i, str(m).c_str());
        }
        if (n)
        {
            CHECK(cat, ET::val(v.front()) == m[0] && ET::val(c.front()) == m[0], "%s: front", w);
            CHECK(cat, ET::val(v.back()) == m[n - 1] && ET::val(c.back()) == m[n - 1], "%s: back", w);
            const Impl& im = impl_of(c);
            CHECK(cat, im.data() == std::addressof(c[0]) && const_cast<Impl&>(im).data() == std::addressof(c[0]), "%s: data() is not the first element", w);
        }
        CHECK(ALLOCID, alloc_id(c.get_allocator(), id) == id, "%s: get_allocator() has identity %d, expected %d", w,
              alloc_id(c.get_allocator(), id), id);
        if (ALLOC_TRACKED && c.capacity())
        {
            Block* b = find_block(std::addressof(*c.cbegin()));
            CHECK(LIFE, b && b->live, "%s: storage is not a live block", w);
            if (b && b->live)
            {
                CHECK(ALLOCID, b->aid == id, "%s: storage came from allocator %d, the vector's is %d", w, b->aid, id);
                CHECK(LIFE, b->bytes >= c.capacity() * sizeof(T), "%s: block of %zu bytes for capacity %zu", w, b->bytes, (size_t)c.capacity());
            }
        }
    }

    struct Snap // addresses and construction stamps
    {
        const T* base;
        size_t cap;
        std::vector<uint32_t> st;
        explicit Snap(const Vec& v)
            : base(v.cbegin()), cap(v.capacity())
        {
            for (auto it = v.cbegin(); it != v.cend(); ++it)
            {
                st.push_back(stamp_of(std::addressof(*it)));
            }
        }
        // the first k elements are untouched and in place
        bool same_prefix(const Vec& v, size_t k) const
        {
            if (v.cbegin() != base || v.size() < k)
            {
                return false;
            }
            for (size_t i = 0; i < k; ++i)
            {
                if (ElTraits<T>::tracked && stamp_of(std::addressof(v[i])) != st[i])
                {
                    return false;
                }
            }
            return true;
        }
        bool same_all(const Vec& v) const
        {
            return v.size() == st.size() && v.capacity() == cap && same_prefix(v, st.size());
        }
    };

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Vec& a = R->a;
        Vec& b = R->b;
        const int n = (int)A.size();
        Seq nA = A, nB = B; // expected after success
        int nia = ia, nib = ib;
        Seq req; // values the operation was asked to store
        bool strong = false;
        bool target_b = false; // the target is b
        bool fallible = true;
        bool nocost = false; // must not touch elements or memory
        bool src_fixed = true; // the other container must be unchanged after a failure
        bool relaxed = false; // model := observed (self-move)
        bool skip_model = false;
        unsigned aids = 1u << ia; // allocators the operation may use
        long keep = -1;           // elements that must stay untouched if everything fits
        size_t need = 0;          // needed size
        long ret = -1, expect_ret = -1;
        Err err;
        Snap sa(a), sb(b);
        auto after_arg = [&](bool intact, const char* what) {
            CHECK(STRONG, intact, "the caller's argument was changed by a failed %s", what);
        };
        Cause thrown = {C_NONE, 0};
        bool throwing = false;
        (void)thrown;

        switch (o.kind)
        {
        case PREP:
        {
            Arm arm(0);
            if (o.q != 1)
            {
                a.reserve_nothrow(err, o.p + (o.q == 2 ? 1 : o.q == 3 ? 8 : 0));
            }
            b.reserve_nothrow(err, o.r);
            for (int i = 0; i < o.p; ++i)
            {
                a.emplace_back_nothrow(err, i);
                nA.push_back(i);
            }
            for (int i = 0; i < o.r; ++i)
            {
                b.emplace_back_nothrow(err, 100 + i);
                nB.push_back(100 + i);
            }
            aids |= 1u << ib;
            G.fault_cnt = 0;
            prepared = true;
            break;
        }
        case PUSH_L:
        {
            Arg x(500);
            const T& cx = x.x;
            {
                Arm arm(fault);
                a.push_back_nothrow(err, cx);
            }
            CHECK(CONTENT, ET::val(x.x) == 500, "push_back of an lvalue changed it");
            nA.push_back(500);
            req.push_back(500);
            strong = true;
            keep = n;
            need = n + 1;
            break;
        }
        case PUSH_R:
        {
            Arg x(500);
            {
                Arm arm(fault);
                a.push_back_nothrow(err, std::move(x.x));
            }
            if (err)
            {
                after_arg(ET::val(x.x) == 500, "append");
            }
            CHECK(PATH, err || !(CFG_ELEM == 1 || CFG_ELEM == 4 || CFG_ELEM == 7) || (sa.cap > (size_t)n ? G.n_copy == 0 && G.n_move >= 1 : G.n_move >= 1),
                  "an rvalue was copied (%ld copies, %ld moves)", G.n_copy, G.n_move);
            nA.push_back(500);
            req.push_back(500);
            strong = true;
            keep = n;
            need = n + 1;
            break;
        }
        case EMPL:
        {
            {
                Arm arm(fault);
                a.emplace_back_nothrow(err, 500);
            }
            CHECK(PATH, err || !ET::tracked || sa.cap <= (size_t)n || G.n_copy + G.n_move + G.n_assign == 0,
                  "emplacement made %ld copies and %ld moves", G.n_copy, G.n_move);
            nA.push_back(500);
            req.push_back(500);
            strong = true;
            keep = n;
            need = n + 1;
            break;
        }
        case EMPL0:
        {
            {
                Arm arm(fault);
                a.emplace_back_nothrow(err);
            }
            nA.push_back(0);
            req.push_back(0);
            strong = true;
            keep = n;
            need = n + 1;
            break;
        }
        case INS_L:
        case INS_R:
        {
            Arg x(500);
            const T& cx = x.x;
            auto pos = a.cbegin() + o.p;
            {
                Arm arm(fault);
                auto it = o.kind == INS_L ? a.insert_nothrow(err, pos, cx) : a.insert_nothrow(err, pos, std::move(x.x));
                ret = it - a.begin();
            }
            expect_ret = o.p;
            if (o.kind == INS_L)
            {
                CHECK(CONTENT, ET::val(x.x) == 500, "insertion of an lvalue changed it");
            }
            nA.insert(nA.begin() + o.p, 500);
            req.push_back(500);
            keep = o.p;
            need = n + 1;
            break;
        }
        case INSRANGE:
        {
            Seq s;
            for (int i = 0; i < o.q; ++i)
            {
                s.push_back(510 + i);
            }
            ArgArr x(s);
            auto pos = a.cbegin() + o.p;
            {
                Arm arm(fault);
                if (o.r == 3)
                {
                    a.insert_nothrow(err, pos, std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
                }
                else if (o.r == 0)
                {
                    a.insert_nothrow(err, pos, (const T*)x.begin(), (const T*)x.end());
                }
                else if (o.r == 1)
                {
                    const T* cur = x.begin();
                    a.insert_nothrow(err, pos, InIt(x.begin(), &cur), InIt(x.end(), &cur));
                }
                else
                {
                    a.insert_nothrow(err, pos, FwIt(x.begin()), FwIt(x.end()));
                }
            }
            moved_range(o.r == 3, (bool)err, x, s, "inserting");
            nA.insert(nA.begin() + o.p, s.begin(), s.end());
            req = s;
            keep = o.p;
            need = n + o.q;
            break;
        }
        case INSFROMB:
        {
            auto pos = a.cbegin() + o.p;
            {
                Arm arm(fault);
                a.insert_nothrow(err, pos, b.cbegin(), b.cend());
            }
            nA.insert(nA.begin() + o.p, B.begin(), B.end());
            req = B;
            keep = o.p;
            need = n + B.size();
            break;
        }
        case RESIZE:
        {
            {
                Arm arm(fault);
                a.resize_nothrow(err, o.p);
            }
            nA.resize(o.p, 0);
            req.assign(o.p > n ? o.p - n : 0, 0);
            keep = std::min(n, o.p);
            need = o.p;
            break;
        }
        case RESIZEV:
        {
            Arg x(500);
            {
                Arm arm(fault);
                a.resize_nothrow(err, o.p, x.x);
            }
            CHECK(err ? BASIC : CONTENT, ET::val(x.x) == 500, "resize changed its argument");
            nA.resize(o.p, 500);
            req.assign(o.p > n ? o.p - n : 0, 500);
            keep = std::min(n, o.p);
            need = o.p;
            break;
        }
        case ASSIGN_N:
        {
            Arg x(500);
            {
                Arm arm(fault);
                a.assign_nothrow(err, (size_t)o.p, x.x);
            }
            CHECK(err ? BASIC : CONTENT, ET::val(x.x) == 500, "assign changed its argument");
            nA.assign(o.p, 500);
            req = nA;
            break;
        }
        case ASSIGN_ND:
        {
            // the default argument is built by the caller
            bool armed_default = !CFG_DEFTHROW;
            if (armed_default)
            {
                {
                    Arm arm(fault);
                    a.assign_nothrow(err, (size_t)o.p);
                }
                nA.assign(o.p, 0);
                req = nA;
            }
            else
            {
                fallible = false;
                Arm arm(0);
            }
            break;
        }
        case ASSIGN_R:
        {
            Seq s;
            for (int i = 0; i < o.p; ++i)
            {
                s.push_back(510 + i);
            }
            ArgArr x(s);
            {
                Arm arm(fault);
                if (o.q == 3)
                {
                    a.assign_nothrow(err, std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
                }
                else if (o.q == 0)
                {
                    a.assign_nothrow(err, (const T*)x.begin(), (const T*)x.end());
                }
                else if (o.q == 1)
                {
                    const T* cur = x.begin();
                    a.assign_nothrow(err, InIt(x.begin(), &cur), InIt(x.end(), &cur));
                }
                else
                {
                    a.assign_nothrow(err, FwIt(x.begin()), FwIt(x.end()));
                }
            }
            moved_range(o.q == 3, (bool)err, x, s, "assigning");
            nA = s;
            req = s;
            break;
        }
        case COPY_AB:
        {
            {
                Arm arm(fault);
                a.copy_nothrow(err, b);
            }
            nA = B;
            req = B;
            break;
        }
        case COPY_BA:
        {
            aids = 1u << ib;
            {
                Arm arm(fault);
                b.copy_nothrow(err, a);
            }
            nB = A;
            req = A;
            target_b = true;
            break;
        }
        case RESERVE:
        {
            {
                Arm arm(fault);
                a.reserve_nothrow(err, o.p);
            }
            CHECK(STABLE, err || a.capacity() >= (size_t)o.p, "reserve(%d) left capacity %zu", o.p, (size_t)a.capacity());
            strong = true;
            keep = n;
            need = o.p;
            break;
        }
        case SHRINK:
        {
            {
                Arm arm(fault);
                a.shrink_to_fit_nothrow(err);
            }
            CHECK(STABLE, err || a.capacity() == a.size(), "after shrink_to_fit %zu elements have capacity %zu", (size_t)a.size(), (size_t)a.capacity());
            CHECK(STABLE, sa.cap != (size_t)n || (G.n_alloc == 0 && a.capacity() == n), "shrink_to_fit requested memory although nothing was to spare");
            strong = true;
            break;
        }
        case CLEAR:
        {
            Arm arm(fault);
            a.clear();
            nA.clear();
            keep = 0;
            nocost = true;
            CHECK(LIFE, !ET::tracked || G.n_dtor == n, "%ld elements were destroyed, expected %d", G.n_dtor, n);
            fallible = false;
            break;
        }
        case PUSH_B:
        {
            Arg x(600);
            aids = 1u << ib;
            {
                Arm arm(fault);
                b.push_back_nothrow(err, x.x);
            }
            nB.push_back(600);
            target_b = true;
            strong = true;
            break;
        }
        case CLEAR_B:
        {
            Arm arm(fault);
            b.clear();
            nB.clear();
            fallible = false;
            break;
        }
        case SWAP_AB:
        case SWAP_BA:
        {
            {
                Arm arm(fault);
                if (o.kind == SWAP_AB)
                {
                    a.swap(b);
                }
                else
                {
                    b.swap(a);
                }
            }
            nA = B;
            nB = A;
            std::swap(nia, nib);
            fallible = false;
            nocost = true;
            CHECK(STABLE, sb.same_all(a) && sa.same_all(b), "swap did not hand over the storage");
            CHECK(NOCOST, G.n_dtor == 0, "swap destroyed elements");
            break;
        }
        case MOVE_AB:
        {
            {
                Arm arm(fault);
                a = std::move(b);
            }
            nA = B;
            nB.clear();
            nia = ib;
            nib = alloc_id(b.get_allocator(), ib); // what the source keeps is its business
            fallible = false;
            nocost = true;
            CHECK(STABLE, sb.same_all(a), "move assignment did not hand over the storage");
            CHECK(NOCOST, !ET::tracked || G.n_dtor == (long)A.size(), "move assignment destroyed %ld elements, the target held %zu", G.n_dtor, A.size());
            break;
        }
        case MOVE_BA:
        {
            {
                Arm arm(fault);
                b = std::move(a);
            }
            nB = A;
            nA.clear();
            nib = ia;
            nia = alloc_id(a.get_allocator(), ia);
            fallible = false;
            nocost = true;
            CHECK(STABLE, sa.same_all(b), "move assignment did not hand over the storage");
            CHECK(NOCOST, !ET::tracked || G.n_dtor == (long)B.size(), "move assignment destroyed %ld elements, the target held %zu", G.n_dtor, B.size());
            break;
        }
        case MOVEDEF:
        {
            {
                Arm arm(fault);
                Vec c;
                G.armed = false;
                verify("default-constructed", c, Seq(), 77, CONTENT);
                typename Vec::iterator i1 = typename Vec::iterator();
                typename Vec::const_iterator i2 = typename Vec::const_iterator();
                G.armed = true;
                c = std::move(a);
                G.armed = false;
                CHECK(STABLE, sa.same_all(c), "move assignment did not hand over the storage");
                verify("moved-to", c, A, ia, CONTENT);
                CHECK(CONTENT, a.empty() && a.size() == 0, "the moved-from vector is not empty");
                i1 = c.begin();
                i2 = i1;
                CHECK(RET, i1 == c.begin() && i2 == i1, "assigned iterators differ");
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                CHECK(CONTENT, c.empty(), "the moved-from vector is not empty");
            }
            CHECK(STABLE, sa.same_all(a), "move assignment did not hand over the storage");
            fallible = false;
            nocost = true;
            break;
        }
        case MOVECTOR:
        {
            {
                Arm arm(fault);
                Vec c(std::move(a));
                G.armed = false;
                CHECK(STABLE, sa.same_all(c), "move construction did not hand over the storage");
                verify("moved-to", c, A, ia, CONTENT);
                CHECK(CONTENT, a.empty() && a.size() == 0, "the moved-from vector is not empty");
                G.armed = true;
                a = std::move(c);
                G.armed = false;
                CHECK(CONTENT, c.empty(), "the moved-from vector is not empty");
            }
            CHECK(STABLE, sa.same_all(a), "move assignment did not hand over the storage");
            fallible = false;
            nocost = true;
            break;
        }
        case AL_PUSH:
        case AL_EMPL:
        {
            {
                Arm arm(fault);
                if (o.kind == AL_PUSH)
                {
                    a.push_back_nothrow(err, a[o.p]);
                }
                else
                {
                    a.emplace_back_nothrow(err, (const T&)a[o.p]);
                }
            }
            nA.push_back(A[o.p]);
            req.push_back(A[o.p]);
            strong = true;
            keep = n;
            need = n + 1;
            break;
        }
        case AL_INS:
        {
            auto pos = a.cbegin() + o.p;
            {
                Arm arm(fault);
                auto it = a.insert_nothrow(err, pos, a[o.q]);
                ret = it - a.begin();
            }
            expect_ret = o.p;
            nA.insert(nA.begin() + o.p, A[o.q]);
            req.push_back(A[o.q]);
            keep = o.p;
            need = n + 1;
            break;
        }
        case AL_RESIZE:
        {
            {
                Arm arm(fault);
                a.resize_nothrow(err, o.p, a[o.q]);
            }
            nA.resize(o.p, A[o.q]);
            req.assign(o.p, A[o.q]);
            keep = std::min(n, o.p);
            need = o.p;
            break;
        }
        case AL_ASSIGN:
        {
            {
                Arm arm(fault);
                a.assign_nothrow(err, (size_t)o.p, a[o.q]);
            }
            nA.assign(o.p, A[o.q]);
            req = nA;
            break;
        }
        case AL_COPY:
        {
            {
                Arm arm(fault);
                a.copy_nothrow(err, a);
            }
            req = A;
            break;
        }
        case AL_MOVE:
        {
            {
                Arm arm(fault);
                Vec& r = a;
                a = std::move(r);
            }
            fallible = false;
            relaxed = true;
            nocost = true;
            break;
        }
        case AL_SWAP:
        {
            {
                Arm arm(fault);
                a.swap(a);
            }
            fallible = false;
            nocost = true;
            break;
        }
        case EQ:
        {
            Seq s1 = seq_no(o.p), s2 = seq_no(o.q);
            Impl c1(make_alloc(1)), c2(make_alloc(2));
            ArgArr x1(s1), x2(s2);
            c1.assign_nothrow(err, (const T*)x1.begin(), (const T*)x1.end());
            c2.assign_nothrow(err, (const T*)x2.begin(), (const T*)x2.end());
            CHECK(ERR, !err, "assign failed");
            bool e = (c1 == c2);
            CHECK(CONTENT, e == (s1 == s2), "%s == %s gives %d", str(s1).c_str(), str(s2).c_str(), (int)e);
            CHECK(CONTENT, c1 == c1, "a vector is not equal to itself");
            G.obs = e;
            G.fault_cnt = 0;
            G.fired = 0;
            fallible = false;
            skip_model = true;
            break;
        }
#if HAS_THROW
        case TH_PUSH_L:
        case TH_PUSH_R:
        {
            Arg x(500);
            const T& cx = x.x;
            thrown = catch_cause([&] {
                Arm arm(fault);
                if (o.kind == TH_PUSH_L)
                {
                    a.push_back(cx);
                }
                else
                {
                    a.push_back(std::move(x.x));
                }
            });
            throwing = true;
            if (thrown.k || o.kind == TH_PUSH_L)
            {
                after_arg(ET::val(x.x) == 500, "push_back");
            }
            CHECK(PATH, thrown.k || o.kind == TH_PUSH_L || !(CFG_ELEM == 1 || CFG_ELEM == 4 || CFG_ELEM == 7) ||
                            (sa.cap > (size_t)n ? G.n_copy == 0 && G.n_move >= 1 : G.n_move >= 1),
                  "push_back copied an rvalue (%ld copies, %ld moves)", G.n_copy, G.n_move);
            nA.push_back(500);
            keep = n;
            need = n + 1;
            break;
        }
        case TH_PUSH_SELF:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                a.push_back(a[o.p]);
            });
            throwing = true;
            nA.push_back(A[o.p]);
            keep = n;
            need = n + 1;
            break;
        }
        case TH_COPYCTOR:
        case TH_COPYCTOR_NX:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                if (o.kind == TH_COPYCTOR)
                {
                    Vec c(a);
                    G.armed = false;
                    verify("copy", c, A, ia, CONTENT);
                }
                else
                {
                    Vec c(const_cast<const Vec&>(a).as_noexcept());
                    G.armed = false;
                    verify("copy", c, A, ia, CONTENT);
                }
            });
            throwing = true;
            CHECK(STABLE, sa.same_all(a), "copy construction touched the source");
            break;
        }
        case TH_COPY_AB:
        case TH_COPY_NX:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                if (o.kind == TH_COPY_AB)
                {
                    const Vec& cb = b;
                    a = cb;
                }
                else
                {
                    a = const_cast<const Vec&>(b).as_noexcept();
                }
            });
            throwing = true;
            nA = B;
            break;
        }
        case TH_COPY_BA:
        {
            aids = 1u << ib;
            thrown = catch_cause([&] {
                Arm arm(fault);
                const Vec& ca = a;
                b = ca;
            });
            throwing = true;
            nB = A;
            break;
        }
        case TH_COPY_SELF:
        {
            thrown = catch_cause([&] {
                Arm arm(fault);
                const Vec& ca = a;
                a = ca;
            });
            throwing = true;
            break;
        }
        case TH_MOVE_NX:
        {
            {
                Arm arm(fault);
                a = std::move(b.as_noexcept());
            }
            nA = B;
            nB.clear();
            nia = ib;
            nib = alloc_id(b.get_allocator(), ib);
            fallible = false;
            nocost = true;
            CHECK(STABLE, sb.same_all(a), "move assignment did not hand over the storage");
            break;
        }
        case TH_MOVECTOR_NX:
        {
            {
                Arm arm(fault);
                Vec c(std::move(a.as_noexcept()));
                G.armed = false;
                CHECK(STABLE, sa.same_all(c), "move construction did not hand over the storage");
                verify("moved-to", c, A, ia, CONTENT);
                CHECK(CONTENT, a.empty(), "the moved-from vector is not empty");
                G.armed = true;
                a = std::move(c);
            }
            fallible = false;
            nocost = true;
            break;
        }
        case TH_INTEROP:
        {
            Arg x(500);
            {
                Arm arm(fault);
                a.as_noexcept().push_back_nothrow(err, x.x);
            }
            nA.push_back(500);
            req.push_back(500);
            strong = true;
            CHECK(CONTENT, (const void*)&a.as_noexcept() != nullptr && a.as_noexcept().size() == a.size(), "as_noexcept is another container");
            break;
        }
#endif
        default:
            die("unknown operation");
        }
        if (skip_model)
        {
            return;
        }
        bool failed = false;
        if (throwing)
        {
#if HAS_THROW
            failed = check_thrown(thrown);
#endif
        }
        else if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(NOCOST, !nocost || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0 && G.n_assign == 0 && G.n_ctor == 0),
                  "%ld allocations, %ld copies, %ld moves, %ld assignments", G.n_alloc, G.n_copy, G.n_move, G.n_assign);
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
        }
        if (ALLOC_TRACKED)
        {
            CHECK(ALLOCID, (G.aids & ~aids) == 0, "memory was requested from a foreign allocator (mask %x, own %x)", G.aids, aids);
        }
        if (!failed)
        {
            if (keep >= 0 && need <= sa.cap)
            {
                CHECK(STABLE, G.n_alloc == 0 && a.capacity() == sa.cap, "an operation that fits the capacity %zu requested memory", sa.cap);
                CHECK(STABLE, sa.same_prefix(a, keep), "elements before the position were touched or moved");
            }
            CHECK(RET, expect_ret < 0 || ret == expect_ret, "returned position %ld, expected %ld", ret, expect_ret);
            if (relaxed)
            {
                Seq s = snap(a);
                CHECK(CONTENT, s == A || s.empty(), "self-move left %s of %s", str(s).c_str(), str(A).c_str());
                nA = s;
            }
            A = nA;
            B = nB;
            ia = nia;
            ib = nib;
            if (G.checking)
            {
                verify("a", a, A, ia, CONTENT);
                verify("b", b, B, ib, CONTENT);
            }
        }
        else
        {
            Vec& t = target_b ? b : a;
            Vec& u = target_b ? a : b;
            Seq& mt = target_b ? B : A;
            Seq& mu = target_b ? A : B;
            Seq st = snap(t), su = snap(u);
            if (strong || throwing)
            {
                CHECK(STRONG, st == mt, "after the failure the vector holds %s, before it held %s", str(st).c_str(), str(mt).c_str());
                CHECK(STRONG, su == mu, "after the failure the other vector holds %s, before it held %s", str(su).c_str(), str(mu).c_str());
            }
            else
            {
                Seq have = mt;
                have.insert(have.end(), req.begin(), req.end());
                CHECK(BASIC, sub_multiset(st, have), "after the failure the vector holds %s: neither old %s nor requested %s", str(st).c_str(),
                      str(mt).c_str(), str(req).c_str());
                CHECK(BASIC, !src_fixed || su == mu, "after the failure the other vector holds %s, before it held %s", str(su).c_str(),
                      str(mu).c_str());
                if (o.kind == RESIZE || o.kind == RESIZEV || o.kind == AL_RESIZE)
                {
                    CHECK(BASIC, st.size() >= mt.size() && std::equal(mt.begin(), mt.end(), st.begin()),
                          "a failed resize lost existing elements: %s of %s", str(st).c_str(), str(mt).c_str());
                }
            }
            mt = st;
            mu = su;
            if (G.checking)
            {
                verify("a", a, A, ia, throwing || strong ? STRONG : BASIC);
                verify("b", b, B, ib, throwing || strong ? STRONG : BASIC);
            }
        }
        if (G.nviol)
        {
            return;
        }
        Obs ob;
        ob.add(failed);
        ob.add(obs_cause(err));
        ob.add((uint64_t)(failed ? 0 : ret));
        ob.add(A);
        ob.add(B);
        ob.add(a.capacity());
        ob.add(b.capacity());
        ob.add(ia);
        ob.add(ib);
        ob.add(G.n_alloc);
        G.obs = ob.get();
        // relabel: the values are opaque to a vector
        int i = 0;
        for (auto& x : a)
        {
            ET::set(x, i++);
        }
        for (i = 0; i < (int)A.size(); ++i)
        {
            A[i] = i;
        }
        i = 100;
        for (auto& x : b)
        {
            ET::set(x, i++);
        }
        for (i = 0; i < (int)B.size(); ++i)
        {
            B[i] = 100 + i;
        }
    }

    void key(Hasher& h, bool obs)
    {
        h.add(A.size());
        h.add(B.size());
        h.add(ia);
        h.add(ib);
        if (obs)
        {
            h.add(R->a.capacity());
            h.add(R->b.capacity());
            return;
        }
        scrub(R->a);
        scrub(R->b);
        fingerprint(h, (const char*)R, sizeof(Roots));
    }
    static void scrub(Vec& v) // unused capacity holds no state
    {
        if (v.capacity() > v.size())
        {
            Block* b = find_block(v.begin());
            char* p = (char*)(v.begin() + v.size());
            char* e = (char*)(v.begin() + v.capacity());
            if (b && b->live && p >= b->p && e <= b->p + b->bytes)
            {
                memset((void*)p, 0, e - p);
            }
        }
    }
};

} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::VecWorld>(argc, argv, "vec");
}
