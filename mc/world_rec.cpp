// Containers whose elements hold containers of the same type (trees): arguments and sources that live inside
// the container being changed.
#include "engine.hpp"
#include <nestl/vector.hpp>
#include <nestl/list.hpp>

#ifndef CFG_REC
#define CFG_REC 0 // 0 vector, 1 list
#endif
#ifndef CFG_ERR
#define CFG_ERR 0
#endif

namespace mc
{
struct Node;
typedef TrackAlloc<Node> Alloc;
static const bool ALLOC_USER = false;
#if CFG_REC == 0
typedef nestl::no_exceptions::vector<Node, Alloc> Tree;
#else
typedef nestl::no_exceptions::list<Node, Alloc> Tree;
#endif
#if CFG_ERR == 0
typedef DefErr Err;
#else
typedef MyErr Err;
#endif
static const int MOVED_V = -77;

struct Node
{
    Tree kids;
    int v;
    Node() noexcept
        : kids(), v(0)
    {
        reg_ctor(this, sizeof *this, alignof(Node));
    }
    Node(const Node&) = delete;
    Node& operator=(const Node&) = delete;
    Node(Node&& o) noexcept
        : kids(std::move(o.kids)), v(o.v)
    {
        reg_use(std::addressof(o), "move");
        G.n_move += G.armed;
        o.v = MOVED_V;
        reg_ctor(this, sizeof *this, alignof(Node));
    }
    ~Node() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
        }
    }
};
} // namespace mc

namespace nestl
{
template <>
struct two_phase_initializator<mc::Node>
{
    template <class E>
    static void init(E& err, mc::Node& x, const mc::Node& o) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        mc::reg_use(std::addressof(o), "copy");
        mc::G.n_copy += mc::G.armed;
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = o.v;
        x.kids.copy_nothrow(err, o.kids);
    }
};
} // namespace nestl

namespace mc
{
struct MNode
{
    int v;
    bool soft; // given away as an rvalue: may have kept its value
    std::vector<MNode> kids;
};
typedef std::vector<MNode> Forest;

inline int count(const Forest& f)
{
    int n = 0;
    for (auto& x : f)
    {
        n += 1 + count(x.kids);
    }
    return n;
}
inline std::string str(const Forest& f)
{
    std::string r;
    for (auto& x : f)
    {
        r += (r.empty() ? "" : " ") + std::to_string(x.v) + (x.soft ? "?" : "");
        if (!x.kids.empty())
        {
            r += "(" + str(x.kids) + ")";
        }
    }
    return r;
}

enum Kind
{
    PB,
    CLEAR,
    ERASE,
    CP,
    ASR,
    MV,
    SWAP,
    PBC,
    PBM,
    INC,
    INM,
    ASN,
    RSZ,
    RNG,
    SPL,
    SPL1
};

struct Roots
{
    Tree a;
    Roots()
        : a(CFG_REC ? Alloc() : Alloc(1)) // lists exchange nodes, so they share one allocator
    {
    }
};

struct RecWorld : WorldBase
{
    int N;
    Forest A;
    Roots* R;

    void setup()
    {
        N = O.param("nodes", 4);
        for (int y = 0; y <= N; ++y)
        {
            add(PB, "push_back(fresh)", T_GEN, y, 0, 0, 1);
            add(CLEAR, "clear", T_GEN, y, 0, 0, 1);
            for (int x = 0; x <= N; ++x)
            {
                add(CP, "copy_nothrow(container of)", T_ALIAS, y, x, 0, 2);
                add(ASR, "assign_nothrow(range of)", T_ALIAS, y, x, 0, 2);
                add(MV, "=move(container of)", T_ALIAS, y, x, 0, 2);
                add(SWAP, "swap(container of)", T_ALIAS, y, x, 0, 2);
                for (int p = 0; p < N; ++p)
                {
                    if (CFG_REC)
                    {
                        add(RNG, "insert_nothrow(range of)", T_ALIAS, y, x, p, 3);
                        add(SPL, "splice(container of)", T_ALIAS, y, x, p, 3);
                    }
                    if (x == 0)
                    {
                        continue;
                    }
                    add(INC, "insert_nothrow(node,pos)", T_ALIAS, y, x, p, 3);
                    add(INM, "insert_nothrow(move(node),pos)", T_ALIAS, y, x, p, 3);
                    if (CFG_REC)
                    {
                        add(SPL1, "splice(node,pos)", T_ALIAS, y, x, p, 3);
                    }
                }
                if (x == 0)
                {
                    continue;
                }
                add(PBC, "push_back(node)", T_ALIAS, y, x, 0, 2);
                add(PBM, "push_back(move(node))", T_ALIAS, y, x, 0, 2);
                for (int k = 0; k <= 3; ++k)
                {
                    add(ASN, "assign_nothrow(node,count)", T_ALIAS, y, x, k, 3);
                    if (!CFG_REC)
                    {
                        add(RSZ, "resize_nothrow(node,count)", T_ALIAS, y, x, k, 3);
                    }
                }
            }
            if (CFG_REC)
            {
                for (int p = 0; p < N; ++p)
                {
                    add(ERASE, "erase", T_GEN, y, p, 0, 2);
                }
            }
        }
    }

    // ---- positions: node i (1..) in preorder, container 0 the root, container i the children of node i
    struct Ix
    {
        std::vector<Tree*> cont;
        std::vector<Node*> node;
        std::vector<Forest*> mcont;
        std::vector<MNode*> mnode;
        std::vector<int> parent; // container that holds node i
        std::vector<int> rank;   // its position there
        std::vector<int> last;   // last node of the subtree of container i
    };
    static void index(Tree& t, Forest& f, int c, Ix& ix)
    {
        auto it = t.begin();
        int r = 0;
        for (auto& m : f)
        {
            ix.node.push_back(std::addressof(*it));
            ix.mnode.push_back(&m);
            ix.cont.push_back(&it->kids);
            ix.mcont.push_back(&m.kids);
            ix.parent.push_back(c);
            ix.rank.push_back(r++);
            int me = (int)ix.node.size() - 1;
            ix.last.push_back(me);
            index(it->kids, m.kids, me, ix);
            ix.last[me] = (int)ix.node.size() - 1;
            ++it;
        }
    }
    static Ix index(Tree& t, Forest& f)
    {
        Ix ix;
        ix.node.push_back(nullptr);
        ix.mnode.push_back(nullptr);
        ix.cont.push_back(&t);
        ix.mcont.push_back(&f);
        ix.parent.push_back(-1);
        ix.rank.push_back(0);
        ix.last.push_back(0);
        index(t, f, 0, ix);
        ix.last[0] = (int)ix.node.size() - 1;
        return ix;
    }
    // the model alone
    struct MIx
    {
        std::vector<int> size, parent, last, kids, rank;
    };
    static void mindex(const Forest& f, int c, MIx& ix)
    {
        int r = 0;
        for (auto& m : f)
        {
            int me = (int)ix.parent.size();
            ix.parent.push_back(c);
            ix.last.push_back(me);
            ix.kids.push_back((int)m.kids.size());
            ix.rank.push_back(r++);
            mindex(m.kids, me, ix);
            ix.last[me] = (int)ix.parent.size() - 1;
        }
    }
    MIx mindex() const
    {
        MIx ix;
        ix.parent.push_back(-1);
        ix.last.push_back(0);
        ix.kids.push_back((int)A.size());
        ix.rank.push_back(0);
        mindex(A, 0, ix);
        ix.last[0] = (int)ix.parent.size() - 1;
        return ix;
    }

    bool can(const OpDef& o, const MIx& ix) const
    {
        int n = (int)ix.parent.size() - 1;
        int y = o.p, x = o.q;
        if (y > n)
        {
            return false;
        }
        auto sub = [&](int c) { return ix.last[c] - c; }; // nodes below container c
        switch (o.kind)
        {
        case PB:
            return n < N;
        case CLEAR:
            return true;
        case ERASE:
            return o.q < ix.kids[y];
        }
        if (x > n)
        {
            return false;
        }
        bool inside = y > x && y <= ix.last[x]; // container y lies strictly within container x
        bool within = inside || y == x;
        bool below = x > y && x <= ix.last[y]; // x within y
        int now = n;
        switch (o.kind)
        {
        case CP:
        case ASR:
            return !inside && (o.kind == CP || x != y) && now - sub(y) + sub(x) <= N;
        case MV:
            return !inside;
        case SWAP:
            return y < x ? !below : y == x;
        case PBC:
            return now + 1 + sub(x) <= N;
        case PBM:
            return !within && now + 1 <= N; // the source stays as an empty node
        case INC:
            return o.r <= ix.kids[y] && now + 1 + sub(x) <= N;
        case INM:
            return !within && o.r <= ix.kids[y] && now + 1 <= N;
        case ASN:
            return !within && now - sub(y) + o.r * (1 + sub(x)) <= N;
        case RSZ:
            return !within && now + std::max(0, o.r - ix.kids[y]) * (1 + sub(x)) <= N;
        case RNG:
            return !within && o.r <= ix.kids[y] && now + sub(x) <= N;
        case SPL:
            return !within && o.r <= ix.kids[y];
        case SPL1:
            return !within && o.r <= ix.kids[y];
        }
        return false;
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        MIx ix = mindex();
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i], ix))
            {
                out.push_back((uint32_t)i);
            }
        }
    }
    void begin()
    {
        A.clear();
        R = new (arena_alloc(sizeof(Roots), 1, 30)) Roots;
    }
    void end()
    {
        R->~Roots();
        A_blocks[0].live = false;
        --A_liveblocks;
    }

    static Forest snap(const Tree& t, int depth = 0)
    {
        Forest f;
        for (auto it = t.cbegin(); it != t.cend() && f.size() < 40 && depth < 40; ++it)
        {
            f.push_back(MNode{it->v, false, snap(it->kids, depth + 1)});
        }
        return f;
    }
    static bool same(const Forest& real, const Forest& model)
    {
        if (real.size() != model.size())
        {
            return false;
        }
        for (size_t i = 0; i < real.size(); ++i)
        {
            if (!same(real[i], model[i]))
            {
                return false;
            }
        }
        return true;
    }
    static bool same(const MNode& r, const MNode& m)
    {
        return (r.v == m.v && same(r.kids, m.kids)) || (m.soft && r.v == MOVED_V && r.kids.empty());
    }
    static bool back_ok(const Tree& t, const Forest& f)
    {
        size_t i = f.size();
        auto it = t.cend();
        while (i > 0)
        {
            --it;
            --i;
            if (it->v != f[i].v || !back_ok(it->kids, f[i].kids))
            {
                return false;
            }
        }
        return it == t.cbegin() && t.size() == f.size() && t.empty() == f.empty();
    }
    static void relabel(Tree& t, int& n)
    {
        for (auto it = t.begin(); it != t.end(); ++it)
        {
            it->v = ++n;
            relabel(it->kids, n);
        }
    }
    // everything except the contents of container `free` is as in the model
    static bool same_but(const Tree& t, const Forest& m, const Tree* free)
    {
        if (&t == free)
        {
            return true;
        }
        size_t i = 0;
        auto it = t.cbegin();
        for (; it != t.cend() && i < m.size(); ++it, ++i)
        {
            bool given = m[i].soft && it->v == MOVED_V && it->kids.empty();
            if (!given && (it->v != m[i].v || !same_but(it->kids, m[i].kids, free)))
            {
                return false;
            }
        }
        return it == t.cend() && i == m.size();
    }
    template <class C>
    static auto at(C& c, int i) -> decltype(c.begin())
    {
        auto it = c.begin();
        std::advance(it, i);
        return it;
    }
#if CFG_REC == 0
    template <class It>
    static void splice(Tree&, It, Tree&)
    {
    }
    template <class It>
    static void splice(Tree&, It, Tree&, It)
    {
    }
    template <class It>
    static void erase(Tree&, It)
    {
    }
    static void resize(Tree& t, Err& err, int n, const Node& x)
    {
        t.resize_nothrow(err, n, x);
    }
    static size_t cap(const Tree& t)
    {
        return t.capacity();
    }
#else
    template <class It>
    static void splice(Tree& t, It p, Tree& o)
    {
        t.splice(p, o);
    }
    template <class It>
    static void splice(Tree& t, It p, Tree& o, It i)
    {
        t.splice(p, o, i);
    }
    template <class It>
    static void erase(Tree& t, It p)
    {
        t.erase(p);
    }
    static void resize(Tree&, Err&, int, const Node&)
    {
    }
    static size_t cap(const Tree&)
    {
        return 0;
    }
#endif
    template <class C, class It>
    static long index_of(const C& c, It it)
    {
        typename C::const_iterator want = it;
        long i = 0;
        for (auto k = c.cbegin(); i < 60; ++k, ++i)
        {
            if (k == want)
            {
                return i;
            }
            if (k == c.cend())
            {
                break;
            }
        }
        return -2;
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        Err err;
        Ix ix = index(R->a, A);
        Forest old = A;
        const int y = o.p, x = o.q;
        Tree& ty = *ix.cont[y];
        Forest& my = *ix.mcont[y];
        bool fallible = true, strong = false, nocost = false, relaxed = false;
        long ret = -1, expect = -1, expect_dtor = -1;
        Forest have = my; // what the container may hold after a failure
        MNode mx = x > 0 && x < (int)ix.mnode.size() ? *ix.mnode[x] : MNode{0, false, Forest()};
        Forest kx = x < (int)ix.mcont.size() ? *ix.mcont[x] : Forest();
        Node* nx = x < (int)ix.node.size() ? ix.node[x] : nullptr;
        MNode given = mx;
        given.soft = true;
        switch (o.kind)
        {
        case PB:
        {
            Node z;
            z.v = 100;
            {
                Arm arm(fault);
                ty.push_back_nothrow(err, std::move(z));
            }
            my.push_back(MNode{100, false, Forest()});
            strong = true;
            break;
        }
        case CLEAR:
        {
            expect_dtor = count(my);
            {
                Arm arm(fault);
                ty.clear();
            }
            my.clear();
            fallible = false;
            nocost = true;
            break;
        }
        case ERASE:
        {
            expect_dtor = 1 + count(my[o.q].kids);
            {
                Arm arm(fault);
                erase(ty, at(ty, o.q));
            }
            my.erase(my.begin() + o.q);
            fallible = false;
            nocost = true;
            break;
        }
        case CP:
        case ASR:
        {
            Tree& tx = *ix.cont[x];
            {
                Arm arm(fault);
                if (o.kind == CP)
                {
                    const Tree& c = tx;
                    ty.copy_nothrow(err, c);
                }
                else
                {
                    const Tree& c = tx;
                    ty.assign_nothrow(err, c.begin(), c.end());
                }
            }
            have.insert(have.end(), kx.begin(), kx.end());
            my = kx;
            break;
        }
        case MV:
        {
            Tree& tx = *ix.cont[x];
            expect_dtor = x == y ? -1 : count(my) - (x > y && x <= ix.last[y] ? count(kx) : 0);
            {
                Arm arm(fault);
                ty = std::move(tx);
            }
            if (x != y)
            {
                ix.mcont[x]->clear();
                *ix.mcont[y] = kx; // releases the old contents, possibly container x with them
            }
            else
            {
                relaxed = true;
            }
            fallible = false;
            nocost = true;
            break;
        }
        case SWAP:
        {
            Tree& tx = *ix.cont[x];
            expect_dtor = 0;
            {
                Arm arm(fault);
                ty.swap(tx);
            }
            if (x != y)
            {
                std::swap(my, *ix.mcont[x]);
            }
            fallible = false;
            nocost = true;
            break;
        }
        case PBC:
        {
            {
                Arm arm(fault);
                const Node& c = *nx;
                ty.push_back_nothrow(err, c);
            }
            my.push_back(mx);
            strong = true;
            break;
        }
        case PBM:
        {
            {
                Arm arm(fault);
                ty.push_back_nothrow(err, std::move(*nx));
            }
            strong = true;
            if (!err)
            {
                *ix.mnode[x] = given;
                my.push_back(mx);
            }
            break;
        }
        case INC:
        {
            have.push_back(mx);
            {
                Arm arm(fault);
                const Node& c = *nx;
                auto r = ty.insert_nothrow(err, at(ty, o.r), c);
                G.armed = false;
                ret = err ? 0 : index_of(ty, r);
            }
            expect = o.r;
            my.insert(my.begin() + o.r, mx);
            strong = CFG_REC;
            break;
        }
        case INM:
        {
            have.push_back(mx);
            {
                Arm arm(fault);
                auto r = ty.insert_nothrow(err, at(ty, o.r), std::move(*nx));
                G.armed = false;
                ret = err ? 0 : index_of(ty, r);
            }
            expect = o.r;
            strong = CFG_REC;
            if (!err || !CFG_REC)
            {
                *ix.mnode[x] = given;
                for (auto& h : have)
                {
                    h.soft = true; // which of them was given away is not tracked
                }
            }
            my.insert(my.begin() + o.r, mx);
            if (err && !CFG_REC)
            {
                // the failed call may have taken the value
                old = A;
                Forest* c = ix.parent[x] == y ? nullptr : ix.mcont[ix.parent[x]];
                (void)c;
            }
            break;
        }
        case ASN:
        {
            have.push_back(mx);
            {
                Arm arm(fault);
                const Node& c = *nx;
                ty.assign_nothrow(err, (size_t)o.r, c);
            }
            my = Forest(o.r, mx);
            break;
        }
        case RSZ:
        {
            have.push_back(mx);
            {
                Arm arm(fault);
                resize(ty, err, o.r, *nx);
            }
            my.resize(o.r, mx);
            break;
        }
        case RNG:
        {
            Tree& tx = *ix.cont[x];
            have.insert(have.end(), kx.begin(), kx.end());
            {
                Arm arm(fault);
                const Tree& c = tx;
                ty.insert_nothrow(err, at(ty, o.r), c.begin(), c.end());
            }
            my.insert(my.begin() + o.r, kx.begin(), kx.end());
            break;
        }
        case SPL:
        {
            Tree& tx = *ix.cont[x];
            expect_dtor = 0;
            {
                Arm arm(fault);
                splice(ty, at(ty, o.r), tx);
            }
            ix.mcont[x]->clear();
            my.insert(my.begin() + o.r, kx.begin(), kx.end());
            fallible = false;
            nocost = true;
            break;
        }
        case SPL1:
        {
            int c = ix.parent[x], r = ix.rank[x], p = o.r;
            Tree& tc = *ix.cont[c];
            expect_dtor = 0;
            {
                Arm arm(fault);
                splice(ty, at(ty, p), tc, at(tc, r));
            }
            // insert first: `my` may be inside what shifts when x is removed
            if (c == y)
            {
                if (!(p == r || p == r + 1))
                {
                    my.insert(my.begin() + p, mx);
                    my.erase(my.begin() + (r < p ? r : r + 1));
                }
            }
            else
            {
                ix.mnode[x]->v = -1000; // mark
                ix.mnode[x]->kids.clear();
                my.insert(my.begin() + p, mx);
                drop_mark(A);
            }
            fallible = false;
            nocost = true;
            break;
        }
        }
        bool failed = false;
        if (fallible)
        {
            check_error(err);
            failed = (bool)err;
        }
        else
        {
            CHECK(ERR, G.fired == 0, "an operation that cannot report failure has a point of failure");
            CHECK(NOCOST, !nocost || (G.n_alloc == 0 && G.n_copy == 0 && G.n_move == 0), "%ld allocations, %ld copies, %ld moves", G.n_alloc, G.n_copy, G.n_move);
            CHECK(LIFE, expect_dtor < 0 || G.n_dtor == expect_dtor, "%ld elements were destroyed, expected %ld", G.n_dtor, expect_dtor);
        }
        Forest now = snap(R->a);
        if (!failed)
        {
            CHECK(CONTENT, same(now, A) || (relaxed && emptied(now, A, y)), "gives %s, expected %s (from %s)", str(now).c_str(), str(A).c_str(), str(old).c_str());
            CHECK(RET, expect < 0 || ret == expect, "returned position %ld, expected %ld", ret, expect);
            CHECK(CONTENT, back_ok(R->a, now), "backward traversal or size differs from %s", str(now).c_str());
        }
        else if (strong)
        {
            CHECK(STRONG, same(now, old), "after the failure it is %s, before it was %s", str(now).c_str(), str(old).c_str());
        }
        else
        {
            Forest before = o.kind == INM ? A : old;
            if (o.kind == INM) // the model of the target itself is not needed
            {
                Forest& t = *ix.mcont[y];
                t.clear();
            }
            CHECK(BASIC, same_but(R->a, o.kind == INM ? A : old, &ty), "after the failure another container changed: %s, before %s", str(now).c_str(), str(before).c_str());
            Forest left = snap(ty);
            for (auto& e : left)
            {
                bool ok = false;
                for (auto& h : have)
                {
                    ok = ok || same(e, h) || (o.kind == INM && softly(e, h));
                }
                CHECK(BASIC, ok, "after the failure it holds %s: neither old nor requested", str(left).c_str());
            }
            CHECK(BASIC, back_ok(R->a, now), "after the failure backward traversal or size differs from %s", str(now).c_str());
        }
        int n = 0;
        relabel(R->a, n);
        A = snap(R->a);
        Hasher h;
        h.add(failed);
        h.add((uint64_t)(failed ? 0 : ret));
        h.add(G.n_alloc);
        shape(h, R->a);
        Key k = h.get();
        G.obs = k.a ^ (k.b * 3);
    }
    // e is h, where any node of h may have been given away
    static bool softly(const MNode& e, const MNode& h)
    {
        if (e.v == MOVED_V && e.kids.empty())
        {
            return true;
        }
        if (e.v != h.v || e.kids.size() != h.kids.size())
        {
            return false;
        }
        for (size_t i = 0; i < e.kids.size(); ++i)
        {
            if (!softly(e.kids[i], h.kids[i]))
            {
                return false;
            }
        }
        return true;
    }
    static bool drop_mark(Forest& f)
    {
        for (size_t i = 0; i < f.size(); ++i)
        {
            if (f[i].v == -1000)
            {
                f.erase(f.begin() + i);
                return true;
            }
            if (drop_mark(f[i].kids))
            {
                return true;
            }
        }
        return false;
    }
    // self-move may leave container y empty
    static bool emptied(const Forest& now, Forest m, int y)
    {
        int n = 0;
        Forest* c = find(m, y, n);
        if (!c)
        {
            return false;
        }
        c->clear();
        return same(now, m);
    }
    static Forest* find(Forest& f, int y, int& n)
    {
        if (n == y)
        {
            return &f;
        }
        for (auto& m : f)
        {
            ++n;
            if (Forest* r = find(m.kids, y, n))
            {
                return r;
            }
        }
        return nullptr;
    }
    static void shape(Hasher& h, const Tree& t)
    {
        h.add(t.size());
        h.add(cap(t));
        h.add(t.get_allocator().id);
        for (auto it = t.cbegin(); it != t.cend(); ++it)
        {
            shape(h, it->kids);
        }
    }
    void key(Hasher& h, bool)
    {
        shape(h, R->a);
    }
    void check_error(const Err& err)
    {
        Cause c = cause_of(err);
        bool set = (bool)err;
        G.failed = set;
        CHECK(ERR, set == (c.k != C_NONE), "the error object converts to %d but carries %s", (int)set, cause_name[c.k]);
        CHECK(ERR, set == (G.fired != 0), set ? "an error was reported though nothing failed" : "an injected failure was not reported");
        CHECK(ERR, !G.fired || !set || cause_matches(c, ALLOC_USER), "an injected failure was reported as %s", cause_name[c.k]);
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::RecWorld>(argc, argv, "rec");
}
