// Graphs of objects that hold shared and weak pointers and act on pointers when they are destroyed.
// The same program runs on std::shared_ptr as the reference; events, counts and memory must agree.
// A destructor may also act on the very pointer whose assignment or reset destroys its object: by then that
// pointer has its new value (assignments of the reference are written as copy and swap for that reason).
#include "common.hpp"
#include <nestl/shared_ptr.hpp>
#ifndef CFG_BASE
#define CFG_BASE 0 // 1: the pointer that destructors act on is a pointer to the base class of the nodes
#endif

namespace mc
{
static long R_blocks; // live blocks of the reference

template <class T>
struct RefAlloc
{
    typedef T value_type;
    RefAlloc() noexcept
    {
    }
    template <class U>
    RefAlloc(const RefAlloc<U>&) noexcept
    {
    }
    T* allocate(size_t n)
    {
        ++R_blocks;
        return (T*)malloc(n * sizeof(T));
    }
    void deallocate(T* p, size_t) noexcept
    {
        --R_blocks;
        free(p);
    }
};
template <class T, class U>
bool operator==(const RefAlloc<T>&, const RefAlloc<U>&)
{
    return true;
}
template <class T, class U>
bool operator!=(const RefAlloc<T>&, const RefAlloc<U>&)
{
    return false;
}

struct Std
{
    template <class X>
    using SP = std::shared_ptr<X>;
    template <class X>
    using WP = std::weak_ptr<X>;
    template <class N>
    static std::shared_ptr<N> make(int act)
    {
        return std::allocate_shared<N>(RefAlloc<N>(), act);
    }
    template <class D, class S>
    static void set(D& d, S&& s)
    {
        D(std::forward<S>(s)).swap(d);
    }
    static void born(const void*, size_t)
    {
    }
    static bool died(const void*)
    {
        return true;
    }
};
struct Nst
{
#if CFG_WRAP
    template <class X>
    using SP = nestl::shared_ptr<X>;
    template <class X>
    using WP = nestl::weak_ptr<X>;
#else
    template <class X>
    using SP = nestl::no_exceptions::shared_ptr<X>;
    template <class X>
    using WP = nestl::no_exceptions::weak_ptr<X>;
#endif
    template <class N>
    static SP<N> make(int act)
    {
        Err err;
        TrackAlloc<N> al(act % 2 ? 1 : 2);
        SP<N> r = nestl::make_shared_a_nothrow<N>(err, al, act);
        CHECK(ERR, !err, "creation failed");
        return r;
    }
    template <class D, class S>
    static void set(D& d, S&& s)
    {
        d = std::forward<S>(s);
    }
    static void born(const void* p, size_t n)
    {
        reg_ctor(p, n, alignof(std::max_align_t));
    }
    static bool died(const void* p)
    {
        return reg_dtor(p);
    }
};

enum Act
{
    A_NONE,
    A_X_RESET,   // x.reset()
    A_X_FROM_E,  // x = e
    A_X_MOVE_E,  // x = move(e)
    A_X_LOCK_W,  // x = w.lock()
    A_W_FROM_X,  // w = x
    A_E_RESET,   // e.reset(); w.reset()
    A_LOCK_SELF, // lock of w, dropped, and wx = w
    N_ACT
};
static const char* const act_name[] = {"nothing", "x.reset()", "x=e", "x=move(e)", "x=w.lock()", "w=x", "e.reset();w.reset()", "w.lock();wx=w"};

template <class P>
struct Graph
{
    struct Node;
    struct alignas(16) Base
    {
        long pad;
    };
#if CFG_BASE
    typedef typename P::template SP<Base> XP;
#else
    typedef typename P::template SP<Node> XP;
#endif
    typedef typename P::template SP<Node> SP;
    typedef typename P::template WP<Node> WP;
    struct alignas(16) Node : Base
    {
        int act;
        SP e;
        WP w;
        explicit Node(int a) noexcept
            : act(a)
        {
            P::born(this, sizeof *this);
        }
        Node(const Node&) = delete;
        Node& operator=(const Node&) = delete;
        ~Node() noexcept
        {
            Graph& g = *g_cur();
            g.events.push_back(g.id(this));
            if (!P::died(this))
            {
                return;
            }
            Roots& r = *g.R;
            switch (act)
            {
            case A_X_RESET:
                r.x.reset();
                break;
            case A_X_FROM_E:
                P::set(r.x, e);
                break;
            case A_X_MOVE_E:
                P::set(r.x, std::move(e));
                break;
            case A_X_LOCK_W:
                P::set(r.x, w.lock());
                break;
            case A_W_FROM_X:
#if !CFG_BASE
                w = r.x;
#endif
                break;
            case A_E_RESET:
                e.reset();
                w.reset();
                break;
            case A_LOCK_SELF:
            {
                SP t = w.lock();
                g.events.push_back(t ? 100 + g.id(t.get()) : 99);
                t.reset();
                r.wx = w;
                break;
            }
            default:
                break;
            }
        }
    };
    struct Roots
    {
        SP r[2];
        XP x;
        WP wr, wx;
    };
    Roots* R;
    std::vector<int> events;
    std::map<const void*, int> ids;
    int next = 0;
    static Node* node(const XP& p)
    {
        return static_cast<Node*>(p.get());
    }

    static Graph*& g_cur()
    {
        static Graph* g;
        return g;
    }
    int id(const void* p)
    {
        if (!p)
        {
            return -1;
        }
        auto it = ids.find(p);
        return it == ids.end() ? -2 : it->second;
    }
};

enum Kind
{
    NEW,
    RESET,
    RR_COPY,
    RR_MOVE,
    R_FROM_E,  // r_i = r_j->e
    R_MOVE_E,  // r_i = move(r_j->e)
    E_FROM_R,  // r_i->e = r_j
    E_MOVE_R,  // r_i->e = move(r_j)
    E_RESET,   // r_i->e.reset()
    E_FROM_EE, // r_i->e = r_i->e->e
    E_MOVE_EE,
    SWAP_E,    // r_i.swap(r_j->e)
    W_FROM_R,  // r_i->w = r_j
    W_FROM_W,  // r_i->w = r_j->w
    W_MOVE_W,
    W_RESET,
    R_LOCK_W,  // r_i = r_j->w.lock()
    X_FROM_R,
    X_MOVE_R,
    X_FROM_XE,
    X_MOVE_XE,
    X_LOCK_WR,
    X_SWAP_R,
    X_RESET,
    R_FROM_X,
    WR_FROM_R,
    R_LOCK_WR,
    WR_RESET,
    WR_FROM_W,
    W_FROM_WR,
    DEL_ALL
};

struct GraphWorld : WorldBase
{
    Graph<Std>* S = nullptr;
    Graph<Nst>* N = nullptr;
    int MAXNODE;

    void setup()
    {
        MAXNODE = O.param("nodes", 2);
        int acts = O.param("acts", 0xff), nr = O.param("roots", 2);
        bool weak = O.param("weak", 1);
        for (int i = 0; i < nr; ++i)
        {
            for (int a = 0; a < N_ACT; ++a)
            {
                if (acts >> a & 1)
                {
                    add(NEW, "r=new node with destructor action", T_GEN, i, a, 0, 2);
                }
            }
            add(RESET, "r.reset()", T_GEN, i, 0, 0, 1);
            add(E_RESET, "r->e.reset()", T_GEN, i, 0, 0, 1);
            add(E_FROM_EE, "r->e=r->e->e", T_GEN, i, 0, 0, 1);
            add(E_MOVE_EE, "r->e=move(r->e->e)", T_GEN, i, 0, 0, 1);
            add(X_FROM_R, "x=r", T_GEN, i, 0, 0, 1);
            add(X_MOVE_R, "x=move(r)", T_GEN, i, 0, 0, 1);
            if (!CFG_BASE)
            {
                add(R_FROM_X, "r=x", T_GEN, i, 0, 0, 1);
                add(X_SWAP_R, "x.swap(r)", T_GEN, i, 0, 0, 1);
            }
            if (weak)
            {
                add(W_RESET, "r->w.reset()", T_GEN, i, 0, 0, 1);
                add(WR_FROM_R, "wr=r", T_GEN, i, 0, 0, 1);
                add(R_LOCK_WR, "r=wr.lock()", T_GEN, i, 0, 0, 1);
                add(WR_FROM_W, "wr=r->w", T_GEN, i, 0, 0, 1);
                add(W_FROM_WR, "r->w=wr", T_GEN, i, 0, 0, 1);
            }
            for (int j = 0; j < nr; ++j)
            {
                if (i != j)
                {
                    add(RR_COPY, "r=r", T_GEN, i, j, 0, 2);
                    add(RR_MOVE, "r=move(r)", T_GEN, i, j, 0, 2);
                }
                add(R_FROM_E, "r=r->e", T_GEN, i, j, 0, 2);
                add(R_MOVE_E, "r=move(r->e)", T_GEN, i, j, 0, 2);
                add(E_FROM_R, "r->e=r", T_GEN, i, j, 0, 2);
                add(E_MOVE_R, "r->e=move(r)", T_GEN, i, j, 0, 2);
                add(SWAP_E, "r.swap(r->e)", T_GEN, i, j, 0, 2);
                if (weak)
                {
                    add(W_FROM_R, "r->w=r", T_GEN, i, j, 0, 2);
                    add(W_FROM_W, "r->w=r->w", T_GEN, i, j, 0, 2);
                    add(W_MOVE_W, "r->w=move(r->w)", T_GEN, i, j, 0, 2);
                    add(R_LOCK_W, "r=r->w.lock()", T_GEN, i, j, 0, 2);
                }
            }
        }
        add(X_RESET, "x.reset()", T_GEN);
        add(X_FROM_XE, "x=x->e", T_GEN);
        add(X_MOVE_XE, "x=move(x->e)", T_GEN);
        if (weak)
        {
            add(WR_RESET, "wr.reset()", T_GEN);
            add(X_LOCK_WR, "x=wr.lock()", T_GEN);
        }
        add(DEL_ALL, "all roots reset", T_GEN);
    }

    typedef Graph<Std>::Node SNode;
    // is `to` reachable from `from` through shared edges?
    static bool reaches(SNode* from, SNode* to)
    {
        for (; from; from = from->e.get())
        {
            if (from == to)
            {
                return true;
            }
        }
        return false;
    }

    bool can(const OpDef& o) const
    {
        Graph<Std>::Roots& r = *S->R;
        SNode* i = r.r[o.p].get();
        SNode* j = r.r[o.q & 1].get();
        switch (o.kind)
        {
        case NEW:
            return R_blocks < MAXNODE;
        case E_RESET:
        case W_RESET:
        case W_FROM_WR:
        case WR_FROM_W:
            return i != nullptr;
        case X_FROM_XE:
        case X_MOVE_XE:
            return (bool)r.x;
        case E_FROM_EE:
        case E_MOVE_EE:
            return i && i->e;
        case R_FROM_E:
        case R_MOVE_E:
        case R_LOCK_W:
            return j != nullptr;
        case E_FROM_R:
            return i && !(j && reaches(j, i));
        case E_MOVE_R:
            return i && o.p != o.q && !(j && reaches(j, i));
        case SWAP_E:
            // r_i goes into r_j->e: no cycle
            return j && !(i && reaches(i, j));
        case W_FROM_R:
            return i != nullptr;
        case W_FROM_W:
        case W_MOVE_W:
            return i && j;
        default:
            return true;
        }
    }
    void enabled(std::vector<uint32_t>& out) const
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (can(ops[i]))
            {
                out.push_back((uint32_t)i);
            }
        }
    }

    void begin()
    {
        if (S)
        {
            delete S; // an abandoned reference leaks; harmless
            S = nullptr;
        }
        delete N;
        R_blocks = 0;
        S = new Graph<Std>;
        N = new Graph<Nst>;
        Graph<Std>::g_cur() = S;
        Graph<Nst>::g_cur() = N;
        S->R = new Graph<Std>::Roots;
        N->R = new (arena_alloc(sizeof(Graph<Nst>::Roots), 1, 30)) Graph<Nst>::Roots;
    }
    void end()
    {
        drop(*S);
        drop(*N);
        CHECK(LIFE, N->events == S->events, "dropping all roots: destruction events %s, expected %s", str(N->events).c_str(), str(S->events).c_str());
        N->R->~Roots();
        delete S->R;
        for (Block& b : A_blocks)
        {
            if (b.aid == 30 && b.live)
            {
                b.live = false;
                --A_liveblocks;
            }
        }
    }

    template <class G1>
    static void drop(G1& g)
    {
        g.events.clear();
        auto& r = *g.R;
        for (int k = 0; k < 12; ++k)
        {
            r.r[0].reset();
            r.r[1].reset();
            r.x.reset();
        }
        r.wr.reset();
        r.wx.reset();
    }

    template <class P>
    static void step(Graph<P>& g, const OpDef& o)
    {
        auto& r = *g.R;
        const int i = o.p, j = o.q;
        g.events.clear();
        switch (o.kind)
        {
        case RESET:
            r.r[i].reset();
            break;
        case RR_COPY:
            P::set(r.r[i], r.r[j]);
            break;
        case RR_MOVE:
            P::set(r.r[i], std::move(r.r[j]));
            break;
        case R_FROM_E:
            P::set(r.r[i], r.r[j]->e);
            break;
        case R_MOVE_E:
            P::set(r.r[i], std::move(r.r[j]->e));
            break;
        case E_FROM_R:
            P::set(r.r[i]->e, r.r[j]);
            break;
        case E_MOVE_R:
            P::set(r.r[i]->e, std::move(r.r[j]));
            break;
        case E_RESET:
            r.r[i]->e.reset();
            break;
        case E_FROM_EE:
            P::set(r.r[i]->e, r.r[i]->e->e);
            break;
        case E_MOVE_EE:
            P::set(r.r[i]->e, std::move(r.r[i]->e->e));
            break;
        case SWAP_E:
            r.r[i].swap(r.r[j]->e);
            break;
        case W_FROM_R:
            r.r[i]->w = r.r[j];
            break;
        case W_FROM_W:
            r.r[i]->w = r.r[j]->w;
            break;
        case W_MOVE_W:
            if (r.r[i].get() == r.r[j].get())
            {
                r.r[i]->w.reset(); // moving a weak pointer to itself: kept or dropped; drop it
            }
            else
            {
                r.r[i]->w = std::move(r.r[j]->w);
            }
            break;
        case W_RESET:
            r.r[i]->w.reset();
            break;
        case R_LOCK_W:
            P::set(r.r[i], r.r[j]->w.lock());
            break;
        case X_FROM_R:
            P::set(r.x, r.r[i]);
            break;
        case X_MOVE_R:
            P::set(r.x, std::move(r.r[i]));
            break;
        case X_FROM_XE:
            P::set(r.x, Graph<P>::node(r.x)->e);
            break;
        case X_MOVE_XE:
            P::set(r.x, std::move(Graph<P>::node(r.x)->e));
            break;
        case X_LOCK_WR:
            P::set(r.x, r.wr.lock());
            break;
        case X_SWAP_R:
#if !CFG_BASE
            r.x.swap(r.r[i]);
#endif
            break;
        case X_RESET:
            r.x.reset();
            break;
        case R_FROM_X:
#if !CFG_BASE
            P::set(r.r[i], r.x);
#endif
            break;
        case WR_FROM_R:
            r.wr = r.r[i];
            break;
        case R_LOCK_WR:
            P::set(r.r[i], r.wr.lock());
            break;
        case WR_RESET:
            r.wr.reset();
            break;
        case WR_FROM_W:
            r.wr = r.r[i]->w;
            break;
        case W_FROM_WR:
            r.r[i]->w = r.wr;
            break;
        case DEL_ALL:
            r.r[0].reset();
            r.r[1].reset();
            r.x.reset();
            r.wr.reset();
            r.wx.reset();
            break;
        default:
            die("unknown operation");
        }
    }

    // everything visible from the roots
    template <class G1, class P>
    static void see_s(G1& g, const P& p, Seq& out)
    {
        out.push_back(g.id(p.get()));
        out.push_back((int)p.use_count());
        out.push_back((bool)p);
    }
    template <class G1, class P>
    static void see_w(G1& g, P& p, Seq& out)
    {
        out.push_back((int)p.use_count());
        out.push_back(p.expired());
        out.push_back(g.id(p.lock().get()));
    }
    template <class G1>
    static Seq see(G1& g)
    {
        Seq out;
        auto& r = *g.R;
        typename std::remove_reference<decltype(*r.r[0])>::type* todo[3] = {r.r[0].get(), r.r[1].get(), G1::node(r.x)};
        see_s(g, r.r[0], out);
        see_s(g, r.r[1], out);
        see_s(g, r.x, out);
        see_w(g, r.wr, out);
        see_w(g, r.wx, out);
        for (auto* n : todo)
        {
            for (int k = 0; n && k < 6; ++k, n = n->e.get())
            {
                if (g.id(n) < 0)
                {
                    out.push_back(-99);
                    break;
                }
                out.push_back(n->act);
                see_s(g, n->e, out);
                see_w(g, n->w, out);
            }
        }
        return out;
    }

    void apply(uint32_t opi, int fault)
    {
        const OpDef& o = ops[opi];
        // reference first: is this history inside the promise?
        if (o.kind == NEW)
        {
            auto p = Std::make<SNode>(o.q);
            S->ids[p.get()] = S->next++;
            S->events.clear();
            S->R->r[o.p] = std::move(p);
        }
        else
        {
            step_std(o);
        }
        {
            Arm arm(fault);
            if (o.kind == NEW)
            {
                auto p = Nst::make<Graph<Nst>::Node>(o.q);
                N->ids[p.get()] = N->next++;
                N->events.clear();
                N->R->r[o.p] = std::move(p);
            }
            else
            {
                step_nst(o);
            }
        }
        CHECK(LIFE, N->events == S->events, "destruction events %s, expected %s", str(N->events).c_str(), str(S->events).c_str());
        CHECK(LIFE, (long)A_liveblocks - 1 == R_blocks, "%ld blocks are allocated, expected %ld", (long)A_liveblocks - 1, R_blocks);
        if (G.nviol)
        {
            return;
        }
        Seq a = see(*N), b = see(*S);
        CHECK(COUNT, a == b, "pointers and counts seen from the roots: %s, expected %s", str(a).c_str(), str(b).c_str());
        CHECK(ERR, G.fired == 0 || o.kind == NEW, "a pointer operation has a point of failure");
        Obs ob;
        ob.add(a);
        ob.add(N->events);
        G.obs = ob.get();
    }
    void step_std(const OpDef& o)
    {
        step(*S, o);
    }
    void step_nst(const OpDef& o)
    {
        step(*N, o);
    }

    void key(Hasher& h, bool)
    {
        fingerprint(h, (const char*)N->R, sizeof(*N->R));
    }
};
} // namespace mc

int main(int argc, char** argv)
{
    return mc::mc_main<mc::GraphWorld>(argc, argv, "graph");
}
