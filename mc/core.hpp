// Core of the explorer: arena + allocator ledger, element registry, fault points, tracked element
// types, error types, and the level-synchronous breadth-first search over operation histories.
//
// Nothing in here knows how nestl is implemented: the library is observed through its public
// interface, its allocator, the elements it constructs, and the bytes of the objects it owns
// (used only as an opaque state fingerprint, pointers replaced by discovery order).
#pragma once

#include <nestl/config.hpp>
#include <nestl/type_traits.hpp>
#include <nestl/default_operation_error.hpp>

#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#define MC_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define MC_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define MC_POISON(p, n) ((void)0)
#define MC_UNPOISON(p, n) ((void)0)
#endif

#if NESTL_HAS_EXCEPTIONS
#define MC_EX 1
#else
#define MC_EX 0
#endif

namespace mc
{

// ------------------------------------------------------------------ violation categories
enum Cat : unsigned
{
    CONTENT = 0, // contents, order, observers
    RET,         // returned values and positions
    LIFE,        // element lifetimes, leaks, alignment, block ledger
    ALLOCID,     // wrong allocator
    ERR,         // error reporting
    STRONG,      // contents after a failure that must change nothing
    BASIC,       // contents after another failure
    STABLE,      // addresses / untouched elements / capacity promise
    NOCOST,      // copies, moves or allocations in an operation that must not have any
    COUNT,       // use counts, expiry
    BALANCE,     // search depth
    LIMIT,       // sizes
    PATH,        // construction path
    MODEDIFF,    // transcript difference (never raised here)
    CRASH,       // signal, sanitizer report, terminate, assertion
    HANG,
    NCAT
};

static const char* const cat_name[NCAT] = {"CONTENT", "RET",  "LIFE",  "ALLOCID", "ERR",   "STRONG",   "BASIC", "STABLE",
                                           "NOCOST",  "COUNT", "BALANCE", "LIMIT",  "PATH", "MODEDIFF", "CRASH", "HANG"};

// operation classes
enum Tag : unsigned
{
    T_GEN = 1,    // ordinary operations
    T_RELINK = 2, // splice/merge/sort/swap of lists
    T_ALIAS = 4,  // arguments alias the container
    T_MOVE = 8,   // move / swap
    T_THROW = 16, // throwing interface
    T_SEED = 32
};

struct Step
{
    uint32_t op;
    uint32_t fault;
};

static const int MAX_HIST = 4096;
static const int MAX_KINDS = 256;

struct Slot // shared memory, one per worker
{
    int len;
    Step steps[MAX_HIST];
    int nviol;
    int vcat;
    unsigned vtag;
    char vmsg[600];
    int prunedcat;
    char prunedmsg[600];
    uint64_t runs, transitions, faultruns, pruned, checks;
    uint64_t opcount[MAX_KINDS], opfail[MAX_KINDS];
    uint64_t outcome[4]; // ok, failed, no-op (state unchanged)
};

struct Globals
{
    Slot* slot = nullptr;
    // faults
    bool armed = false;
    int fault_at = 0; // 1-based
    int fault_at2 = 0; // a second failure in the same operation, after the first
    int fault_cnt = 0;
    int fired = 0; // kind+1
    int fired_token = 0;
    unsigned aids = 0; // allocator ids used in the armed region (bit per id, 31: other)
    bool failed = false; // the armed operation reported failure
    bool checking = false; // the step being executed is the last one of its history
    uint64_t obs = 0; // observation hash of the last step (mode comparison)
    // counters for the current armed region
    long n_cmp = 0, n_alloc = 0, n_copy = 0, n_move = 0, n_ctor = 0, n_dtor = 0, n_assign = 0, n_dealloc = 0;
    // violations of the current run
    int nviol = 0;
    Cat vcat = CONTENT;
    unsigned vtag = 0;
    unsigned curtag = 0;
    char vmsg[600];
    unsigned catmask = ~0u;
    unsigned fcatmask = 0; // categories that count only after a failure
    unsigned tagmask = ~0u; // operations in the alphabet
    unsigned vtags = ~0u;   // operations whose violations count
    bool verbose = false;
};
static Globals G;

static void violate(Cat c, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void violate(Cat c, const char* fmt, ...)
{
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (G.verbose)
    {
        fprintf(stderr, "  !! %s: %s\n", cat_name[c], buf);
    }
    // keep the first violation that is inside the mask; otherwise the first one
    bool in = (G.catmask >> c) & 1u;
    bool have_in = G.nviol && ((G.catmask >> G.vcat) & 1u);
    if (!G.nviol || (in && !have_in))
    {
        G.vcat = c;
        G.vtag = G.curtag;
        memcpy(G.vmsg, buf, sizeof buf);
    }
    ++G.nviol;
}

#define CHECK(cat, cond, ...)                 \
    do                                        \
    {                                         \
        if (!(cond))                          \
        {                                     \
            ::mc::violate(cat, __VA_ARGS__);  \
        }                                     \
    } while (0)

// ------------------------------------------------------------------ arena
struct Block
{
    char* p;
    size_t bytes;
    size_t n;
    int aid;
    bool live;
};

#ifndef MC_ARENA_BYTES
#define MC_ARENA_BYTES (8u << 20)
#endif
static char* A_base;
static size_t A_used; // bytes used in this run
static std::vector<Block> A_blocks;
static std::vector<uint8_t> A_alive; // per 4 bytes: element alive at that address
static std::vector<uint32_t> A_stamp; // per 4 bytes: construction stamp
static uint32_t A_clock;
static size_t A_liveblocks;

struct Ext // elements outside the arena
{
    const void* p;
};
static std::vector<Ext> X_alive;
static long E_live;
static long AL_live; // allocator objects

static void die(const char* what)
{
    fprintf(stderr, "mc: fatal: %s\n", what);
    fflush(stderr);
    abort();
}

static void arena_init()
{
    A_base = (char*)mmap(nullptr, MC_ARENA_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (A_base == MAP_FAILED)
    {
        die("mmap");
    }
    A_alive.assign(MC_ARENA_BYTES / 4, 0);
    A_stamp.assign(MC_ARENA_BYTES / 4, 0);
    MC_POISON(A_base, MC_ARENA_BYTES);
    A_used = 0;
}

static void arena_reset()
{
    MC_UNPOISON(A_base, A_used);
    memset(A_base, 0, A_used);
    MC_POISON(A_base, A_used);
    std::fill(A_alive.begin(), A_alive.begin() + A_used / 4 + 1, 0);
    std::fill(A_stamp.begin(), A_stamp.begin() + A_used / 4 + 1, 0);
    A_used = 0;
    A_blocks.clear();
    A_liveblocks = 0;
    X_alive.clear();
    E_live = 0;
    AL_live = 0;
    A_clock = 0;
}

static inline bool in_arena(const void* p)
{
    return (const char*)p >= A_base && (const char*)p < A_base + MC_ARENA_BYTES;
}

static Block* find_block(const void* p) // block with start <= p <= end, else null
{
    const char* c = (const char*)p;
    size_t lo = 0, hi = A_blocks.size();
    while (lo < hi)
    {
        size_t m = (lo + hi) / 2;
        if (A_blocks[m].p <= c)
        {
            lo = m + 1;
        }
        else
        {
            hi = m;
        }
    }
    if (!lo)
    {
        return nullptr;
    }
    Block& b = A_blocks[lo - 1];
    return c <= b.p + b.bytes ? &b : nullptr;
}

static void* arena_alloc(size_t bytes, size_t n, int aid, size_t align = 16)
{
    // payload address: an odd multiple of the alignment (of max_align_t at least): suitably aligned, and no more
    align = align < 16 ? 16 : align;
    size_t off = (A_used + 4 * align - 1) & ~(4 * align - 1);
    size_t pay = off + align;
    size_t end = pay + ((bytes + 31) & ~size_t(31)) + 32;
    if (end + 64 > MC_ARENA_BYTES || bytes > MC_ARENA_BYTES)
    {
        die("runaway: arena exhausted");
    }
    A_used = end;
    char* p = A_base + pay;
    MC_UNPOISON(p, bytes);
    Block b = {p, bytes, n, aid, true};
    A_blocks.push_back(b);
    G.aids |= 1u << (aid >= 0 && aid < 31 ? aid : 31);
    ++A_liveblocks;
    return p;
}

static void arena_free(void* p, size_t n, int aid, bool check_n)
{
    if (!p)
    {
        return;
    }
    if (!in_arena(p))
    {
        violate(LIFE, "deallocation of %p which was never allocated", p);
        return;
    }
    Block* b = find_block(p);
    if (!b || b->p != p)
    {
        violate(LIFE, "deallocation of a pointer that is not the start of a block");
        return;
    }
    if (!b->live)
    {
        violate(LIFE, "block returned twice");
        return;
    }
    if (b->aid != aid)
    {
        violate(ALLOCID, "block obtained from allocator %d returned to allocator %d", b->aid, aid);
    }
    if (check_n && b->n != n)
    {
        violate(LIFE, "block of %zu elements returned as %zu elements", b->n, n);
    }
    for (size_t o = 0; o + 3 < b->bytes; o += 4)
    {
        if (A_alive[(b->p - A_base + o) / 4])
        {
            violate(LIFE, "block returned while an element in it is alive");
            break;
        }
    }
    MC_UNPOISON(b->p, b->bytes);
    memset(b->p, 0xFD, b->bytes);
    MC_POISON(b->p, b->bytes);
    b->live = false;
    --A_liveblocks;
}

// ------------------------------------------------------------------ fault points
enum FaultKind
{
    F_ALLOC = 0,
    F_DEFCTOR,
    F_ARGCTOR,
    F_COPY,
    F_MOVE,
    F_ASSIGN,
    F_INIT,
    F_NKIND
};
static const char* const fault_name[] = {"alloc", "defctor", "argctor", "copy", "move", "assign", "init"};

static bool fault_point(FaultKind k)
{
    if (!G.armed)
    {
        return false;
    }
    ++G.fault_cnt;
    if (G.fault_cnt == G.fault_at)
    {
        G.fired = k + 1;
        G.fired_token = 7000 + G.fault_cnt;
        return true;
    }
    return G.fault_cnt == G.fault_at2; // the original cause stays the first one
}

struct UEx // exception thrown by elements
{
    int token;
};

struct Arm
{
    explicit Arm(int fault)
    {
        G.fault_at = fault & 0xFFFF;
        G.fault_at2 = fault >> 16;
        G.fault_cnt = 0;
        G.fired = 0;
        G.fired_token = 0;
        G.aids = 0;
        G.n_cmp = G.n_alloc = G.n_copy = G.n_move = G.n_ctor = G.n_dtor = G.n_assign = G.n_dealloc = 0;
        G.armed = true;
    }
    ~Arm()
    {
        G.armed = false;
    }
};

// ------------------------------------------------------------------ element registry
static void reg_ctor(const void* p, size_t size, size_t align)
{
    G.n_ctor += G.armed;
    if ((uintptr_t)p % align)
    {
        violate(LIFE, "element constructed at a misaligned address (mod %zu)", align);
    }
    if (in_arena(p))
    {
        Block* b = find_block(p);
        if (!b || !b->live || (const char*)p + size > b->p + b->bytes)
        {
            violate(LIFE, "element constructed outside allocated memory");
            return;
        }
        size_t i = ((const char*)p - A_base) / 4;
        if (A_alive[i])
        {
            violate(LIFE, "element constructed on top of a live element");
        }
        else
        {
            ++E_live;
        }
        A_alive[i] = 1;
        A_stamp[i] = ++A_clock;
    }
    else
    {
        for (auto& x : X_alive)
        {
            if (x.p == p)
            {
                violate(LIFE, "element constructed on top of a live element (outside containers)");
                return;
            }
        }
        X_alive.push_back(Ext{p});
        ++E_live;
    }
}

static bool reg_alive(const void* p)
{
    if (in_arena(p))
    {
        return A_alive[((const char*)p - A_base) / 4];
    }
    for (auto& x : X_alive)
    {
        if (x.p == p)
        {
            return true;
        }
    }
    return false;
}

static void reg_use(const void* p, const char* how)
{
    if (!reg_alive(p))
    {
        violate(LIFE, "%s of an element outside its lifetime", how);
    }
}

static bool reg_dtor(const void* p)
{
    G.n_dtor += G.armed;
    if (in_arena(p))
    {
        size_t i = ((const char*)p - A_base) / 4;
        if (!A_alive[i])
        {
            violate(LIFE, "element destroyed twice (or never constructed)");
            return false;
        }
        A_alive[i] = 0;
        --E_live;
        return true;
    }
    for (size_t i = 0; i < X_alive.size(); ++i)
    {
        if (X_alive[i].p == p)
        {
            X_alive.erase(X_alive.begin() + i);
            --E_live;
            return true;
        }
    }
    violate(LIFE, "element destroyed twice (or never constructed)");
    return false;
}

static void reg_touch(const void* p)
{
    if (in_arena(p))
    {
        A_stamp[((const char*)p - A_base) / 4] = ++A_clock;
    }
}

static uint32_t stamp_of(const void* p)
{
    return in_arena(p) ? A_stamp[((const char*)p - A_base) / 4] : 0;
}

// ------------------------------------------------------------------ element types
static const int MOVED = -77;

template <bool NT>
struct Thrower
{
    static void raise() noexcept
    {
    }
    static bool fails(FaultKind) noexcept
    {
        return false;
    }
};
#if MC_EX
template <>
struct Thrower<false>
{
    static void raise()
    {
        throw UEx{G.fired_token};
    }
    static bool fails(FaultKind k)
    {
        return fault_point(k);
    }
};
#endif

// copyable and movable; NT: nothing can fail; !NT: everything but destruction can throw, except that
// moving does not if NTM
template <bool NT, size_t ALIGN = 4, size_t PAD = 0, bool NTM = NT>
struct alignas(ALIGN) El
{
    int v;
    int t;
    char pad[PAD + 8];

    typedef Thrower<NT> Th;
    typedef Thrower<NTM> ThM;

    El() noexcept(NT)
        : v(0), t(0), pad()
    {
        if (Th::fails(F_DEFCTOR))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, ALIGN);
    }
    El(int x) noexcept(NT)
        : v(x), t(0), pad()
    {
        if (Th::fails(F_ARGCTOR))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, ALIGN);
    }
    El(int x, int y) noexcept(NT)
        : v(x), t(y), pad()
    {
        if (Th::fails(F_ARGCTOR))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, ALIGN);
    }
    El(const El& o) noexcept(NT)
        : v(o.v), t(o.t), pad()
    {
        reg_use(std::addressof(o), "copy");
        G.n_copy += G.armed;
        if (Th::fails(F_COPY))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, ALIGN);
    }
    El(El&& o) noexcept(NTM)
        : v(o.v), t(o.t), pad()
    {
        reg_use(std::addressof(o), "move");
        G.n_move += G.armed;
        if (ThM::fails(F_MOVE))
        {
            ThM::raise();
        }
        o.v = MOVED;
        reg_touch(std::addressof(o));
        reg_ctor(this, sizeof *this, ALIGN);
    }
    El& operator=(const El& o) noexcept(NT)
    {
        reg_use(this, "assignment to");
        reg_use(std::addressof(o), "assignment from");
        reg_touch(this);
        G.n_assign += G.armed;
        if (Th::fails(F_ASSIGN))
        {
            Th::raise();
        }
        v = o.v;
        t = o.t;
        return *this;
    }
    El& operator=(El&& o) noexcept(NTM)
    {
        reg_use(this, "assignment to");
        reg_use(std::addressof(o), "assignment from");
        reg_touch(this);
        G.n_assign += G.armed;
        if (ThM::fails(F_ASSIGN))
        {
            ThM::raise();
        }
        if (this != std::addressof(o))
        {
            v = o.v;
            t = o.t;
            o.v = MOVED;
            reg_touch(std::addressof(o));
        }
        return *this;
    }
    ~El() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};

// copyable only: an rvalue is copied; everything but destruction can throw
struct CO
{
    int v;
    int t;
    // the address of an element is not what & gives
    void* operator&() const noexcept
    {
        return nullptr;
    }

    typedef Thrower<false> Th;

    CO()
        : v(0), t(0)
    {
        if (Th::fails(F_DEFCTOR))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, alignof(CO));
    }
    CO(int x)
        : v(x), t(0)
    {
        if (Th::fails(F_ARGCTOR))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, alignof(CO));
    }
    CO(const CO& o)
        : v(o.v), t(o.t)
    {
        reg_use(std::addressof(o), "copy");
        G.n_copy += G.armed;
        if (Th::fails(F_COPY))
        {
            Th::raise();
        }
        reg_ctor(this, sizeof *this, alignof(CO));
    }
    CO& operator=(const CO& o)
    {
        reg_use(this, "assignment to");
        reg_use(std::addressof(o), "assignment from");
        reg_touch(this);
        G.n_assign += G.armed;
        if (Th::fails(F_ASSIGN))
        {
            Th::raise();
        }
        v = o.v;
        t = o.t;
        return *this;
    }
    ~CO() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};
// large and trivially copyable, with an equality of its own: equal values may differ in their bytes
struct Big
{
    int v;
    char pad[300];
    Big() = default;
    explicit Big(int x) noexcept
        : v(x), pad()
    {
        memset(pad, 0x22, sizeof pad);
    }
};

// knows its own address; destroying it does nothing
struct Self
{
    int v;
    int t;
    const Self* self;
    Self() noexcept
        : v(0), t(0), self(this)
    {
    }
    explicit Self(int x) noexcept
        : v(x), t(0), self(this)
    {
    }
    Self(const Self& o) noexcept
        : v(o.v), t(o.t), self(this)
    {
        o.check();
        G.n_copy += G.armed;
    }
    Self& operator=(const Self& o) noexcept
    {
        check();
        o.check();
        G.n_assign += G.armed;
        v = o.v;
        t = o.t;
        return *this;
    }
    void check() const
    {
        if (self != this)
        {
            violate(LIFE, "an element was copied bytewise instead of by its copy constructor");
        }
    }
};

// constructed and destroyed like any class, but assigned bytewise
struct TA
{
    int v;
    int t;
    TA() noexcept
        : v(0), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(TA));
    }
    explicit TA(int x) noexcept
        : v(x), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(TA));
    }
    TA(const TA& o) noexcept
        : v(o.v), t(o.t)
    {
        reg_use(std::addressof(o), "copy");
        G.n_copy += G.armed;
        reg_ctor(this, sizeof *this, alignof(TA));
    }
    TA& operator=(const TA&) = default;
    ~TA() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};
static_assert(std::is_trivially_destructible<Self>::value && std::is_trivially_copy_assignable<TA>::value && std::is_trivially_copyable<Big>::value, "");

// default constructible, otherwise only two-phase; MV: also nothrow movable
template <bool MV>
struct TwoPhaseBase
{
};
struct TP
{
    int v;
    int t;
    TP() noexcept
        : v(0), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(TP));
    }
    TP(const TP&) = delete;
    TP& operator=(const TP&) = delete;
    ~TP() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};
struct TPM
{
    int v;
    int t;
    // the address of an element is not what & gives
    void* operator&() const noexcept
    {
        return nullptr;
    }
    TPM() noexcept
        : v(0), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(TPM));
    }
    TPM(const TPM&) = delete;
    TPM& operator=(const TPM&) = delete;
    TPM(TPM&& o) noexcept
        : v(o.v), t(o.t)
    {
        reg_use(std::addressof(o), "move");
        G.n_move += G.armed;
        o.v = MOVED;
        reg_touch(std::addressof(o));
        reg_ctor(this, sizeof *this, alignof(TPM));
    }
    ~TPM() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};
// move only
struct MO
{
    int v;
    int t;
    MO() noexcept
        : v(0), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(MO));
    }
    explicit MO(int x) noexcept
        : v(x), t(0)
    {
        reg_ctor(this, sizeof *this, alignof(MO));
    }
    MO(const MO&) = delete;
    MO& operator=(const MO&) = delete;
    MO(MO&& o) noexcept
        : v(o.v), t(o.t)
    {
        reg_use(std::addressof(o), "move");
        G.n_move += G.armed;
        o.v = MOVED;
        reg_touch(std::addressof(o));
        reg_ctor(this, sizeof *this, alignof(MO));
    }
    MO& operator=(MO&& o) noexcept
    {
        reg_use(this, "assignment to");
        reg_use(std::addressof(o), "assignment from");
        G.n_assign += G.armed;
        v = o.v;
        t = o.t;
        o.v = MOVED;
        return *this;
    }
    ~MO() noexcept
    {
        if (reg_dtor(this))
        {
            *(volatile int*)&v = 0x5D5D5D5D;
            *(volatile int*)&t = 0x5D5D5D5D;
        }
    }
};

template <class T>
struct ElTraits
{
    static int val(const T& x)
    {
        reg_use(std::addressof(x), "read");
        return x.v;
    }
    static void set(T& x, int v)
    {
        x.v = v;
    }
    static const bool tracked = true;
};
template <class T>
struct NumTraits
{
    static int val(const T& x)
    {
        return x;
    }
    static void set(T& x, int v)
    {
        x = (T)v;
    }
    static const bool tracked = false;
};
template <>
struct ElTraits<int> : NumTraits<int>
{
};
template <>
struct ElTraits<short> : NumTraits<short>
{
};
template <>
struct ElTraits<Big>
{
    static int val(const Big& x)
    {
        return x.v;
    }
    static void set(Big& x, int v)
    {
        x.v = v;
        memset(x.pad, 0x11, sizeof x.pad);
    }
    static const bool tracked = false;
};
template <>
struct ElTraits<Self>
{
    static int val(const Self& x)
    {
        x.check();
        return x.v;
    }
    static void set(Self& x, int v)
    {
        x.v = v;
    }
    static const bool tracked = false;
};

template <bool NT, size_t A, size_t P, bool M>
bool operator==(const El<NT, A, P, M>& a, const El<NT, A, P, M>& b) noexcept
{
    return ElTraits<El<NT, A, P, M>>::val(a) == ElTraits<El<NT, A, P, M>>::val(b);
}
template <bool NT, size_t A, size_t P, bool M>
bool operator<(const El<NT, A, P, M>& a, const El<NT, A, P, M>& b) noexcept
{
    G.n_cmp += G.armed;
    return ElTraits<El<NT, A, P, M>>::val(a) < ElTraits<El<NT, A, P, M>>::val(b);
}
#define MC_CMP(T)                                                  \
    inline bool operator==(const T& a, const T& b) noexcept        \
    {                                                              \
        return ElTraits<T>::val(a) == ElTraits<T>::val(b);         \
    }                                                              \
    inline bool operator<(const T& a, const T& b) noexcept         \
    {                                                              \
        G.n_cmp += G.armed;                                        \
        return ElTraits<T>::val(a) < ElTraits<T>::val(b);          \
    }
MC_CMP(TP)
MC_CMP(TPM)
MC_CMP(MO)
MC_CMP(CO)
MC_CMP(Big)
MC_CMP(Self)
MC_CMP(TA)

// ------------------------------------------------------------------ error types
enum CauseKind
{
    C_NONE = 0,
    C_BADALLOC,
    C_LENGTH,
    C_USER, // element exception or two-phase / allocator error with a token
    C_OTHER
};
struct Cause
{
    CauseKind k;
    int token;
};
static const char* const cause_name[] = {"none", "bad_alloc", "length_error", "user", "other"};

typedef nestl::default_operation_error DefErr;

struct MyErr
{
    int kind;
    int token;
    MyErr() noexcept
        : kind(0), token(0)
    {
    }
    explicit operator bool() const noexcept
    {
        return kind != 0;
    }
};
inline void build_bad_alloc(MyErr& e) noexcept
{
    e.kind = C_BADALLOC;
    e.token = 0;
}
inline void build_length_error(MyErr& e) noexcept
{
    e.kind = C_LENGTH;
    e.token = 0;
}
inline void set_user_error(MyErr& e, int token) noexcept
{
    e.kind = C_USER;
    e.token = token;
}
inline Cause cause_of(const MyErr& e)
{
    return Cause{(CauseKind)e.kind, e.token};
}
static const bool DEFERR_USER_OK = true;
#if MC_EX
inline void from_exception_ptr(MyErr& e, std::exception_ptr p) noexcept
{
    try
    {
        std::rethrow_exception(p);
    }
    catch (const UEx& u)
    {
        e.kind = C_USER;
        e.token = u.token;
    }
    catch (const std::bad_alloc&)
    {
        e.kind = C_BADALLOC;
    }
    catch (const std::length_error&)
    {
        e.kind = C_LENGTH;
    }
    catch (...)
    {
        e.kind = C_OTHER;
    }
}
template <class E>
void from_exception(MyErr& e, E x) noexcept
{
    from_exception_ptr(e, std::make_exception_ptr(x));
}
inline void set_user_error(DefErr& e, int token) noexcept
{
    from_exception(e, UEx{token});
}
inline Cause cause_of(const DefErr& e)
{
    if (!e)
    {
        return Cause{C_NONE, 0};
    }
    try
    {
        std::rethrow_exception(e.value());
    }
    catch (const UEx& u)
    {
        return Cause{C_USER, u.token};
    }
    catch (const std::bad_alloc&)
    {
        return Cause{C_BADALLOC, 0};
    }
    catch (const std::length_error&)
    {
        return Cause{C_LENGTH, 0};
    }
    catch (...)
    {
        return Cause{C_OTHER, 0};
    }
}
#else
inline void set_user_error(DefErr& e, int token) noexcept
{
    e = DefErr(token);
}
inline Cause cause_of(const DefErr& e)
{
    int v = e.value();
    if (!v)
    {
        return Cause{C_NONE, 0};
    }
    if (v == ENOMEM)
    {
        return Cause{C_BADALLOC, 0};
    }
    if (v == ERANGE)
    {
        return Cause{C_LENGTH, 0};
    }
    return Cause{v >= 7000 ? C_USER : C_OTHER, v};
}
#endif

// Is `c` the cause that the injected fault must have produced?
static bool cause_matches(const Cause& c, bool alloc_is_user)
{
    if (!G.fired)
    {
        return false;
    }
    if (G.fired == F_ALLOC + 1 && !alloc_is_user)
    {
        return c.k == C_BADALLOC;
    }
    return c.k == C_USER && c.token == G.fired_token;
}

// ------------------------------------------------------------------ tracked allocator
// USERERR: report exhaustion with a user token instead of bad_alloc
template <class T, class USERERR = std::false_type>
class TrackAlloc
{
public:
    typedef T value_type;
    typedef std::true_type propagate_on_container_move_assignment;
#ifndef CFG_MINALLOC // otherwise everything that has a default is left to it
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef std::size_t size_type;
#endif
#ifdef CFG_POCCA
    typedef std::integral_constant<bool, CFG_POCCA> propagate_on_container_copy_assignment;
#endif
#ifndef CFG_MINALLOC
    template <class U>
    struct rebind
    {
        typedef TrackAlloc<U, USERERR> other;
    };
#endif

    int id;
    unsigned cookie; // alive

    static const unsigned ALIVE = 0xA110CA7Eu;

    TrackAlloc() noexcept
        : id(77), cookie(ALIVE)
    {
        ++AL_live;
    }
    explicit TrackAlloc(int i) noexcept
        : id(i), cookie(ALIVE)
    {
        ++AL_live;
    }
    TrackAlloc(const TrackAlloc& o) noexcept
        : id(o.id), cookie(ALIVE)
    {
        o.alive("copy");
        ++AL_live;
    }
    TrackAlloc& operator=(const TrackAlloc& o) noexcept
    {
        alive("assignment to");
        o.alive("assignment from");
        id = o.id;
        return *this;
    }
    template <class U>
    TrackAlloc(const TrackAlloc<U, USERERR>& o) noexcept
        : id(o.id), cookie(ALIVE)
    {
        o.alive("conversion");
        ++AL_live;
    }
    ~TrackAlloc() noexcept
    {
        alive("destruction");
        *(volatile unsigned*)&cookie = 0;
        --AL_live;
    }
    void alive(const char* what) const noexcept
    {
        if (cookie != ALIVE)
        {
            violate(ALLOCID, "%s of an allocator object outside its lifetime", what);
        }
    }

    template <class E>
    static void report(E& err, std::true_type) noexcept
    {
        set_user_error(err, G.fired_token);
    }
    template <class E>
    static void report(E& err, std::false_type) noexcept
    {
        build_bad_alloc(err);
    }
    template <class E>
    T* allocate(E& err, std::size_t n, const void* = 0) noexcept
    {
        alive("allocation through");
        G.n_alloc += G.armed;
        if (fault_point(F_ALLOC))
        {
            report(err, USERERR());
            return nullptr;
        }
        unsigned __int128 want = (unsigned __int128)n * sizeof(T);
        if (want > MC_ARENA_BYTES / 4)
        {
            build_bad_alloc(err);
            return nullptr;
        }
        return static_cast<T*>(arena_alloc((size_t)want, n, id, alignof(T)));
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        alive("deallocation through");
        G.n_dealloc += G.armed;
        arena_free(p, n, id, true);
    }
};
template <class T, class U, class E>
bool operator==(const TrackAlloc<T, E>& a, const TrackAlloc<U, E>& b) noexcept
{
    return a.id == b.id;
}
template <class T, class U, class E>
bool operator!=(const TrackAlloc<T, E>& a, const TrackAlloc<U, E>& b) noexcept
{
    return a.id != b.id;
}

// ------------------------------------------------------------------ state fingerprint
struct Key
{
    uint64_t a, b;
    bool operator==(const Key& o) const
    {
        return a == o.a && b == o.b;
    }
};
struct KeyHash
{
    size_t operator()(const Key& k) const
    {
        return k.a ^ (k.b * 0x9E3779B97F4A7C15ull);
    }
};
struct Hasher
{
    uint64_t a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull;
    void add(uint64_t w)
    {
        a ^= w;
        a *= 0x9FB21C651E98DF25ull;
        a ^= a >> 29;
        b += w * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull;
        b ^= b >> 32;
        b *= 0xD6E8FEB86659FD93ull;
    }
    Key get() const
    {
        return Key{a, b};
    }
};

// Fingerprint of everything reachable from [root, root+bytes): words that point into the arena are
// replaced by (block in discovery order, offset), so histories that differ only in addresses agree.
static void fingerprint(Hasher& h, const char* root, size_t bytes)
{
    std::vector<std::pair<const char*, size_t>> work;
    std::map<const char*, int> idx; // block start -> discovery index
    work.push_back(std::make_pair(root, bytes));
    Block* rb = find_block(root);
    if (rb)
    {
        idx[rb->p] = 0;
    }
    int next = 1;
    for (size_t w = 0; w < work.size(); ++w)
    {
        const char* p = work[w].first;
        size_t n = work[w].second;
        h.add(n);
        size_t o = 0;
        for (; o + 8 <= n; o += 8)
        {
            uint64_t x;
            memcpy(&x, p + o, 8);
            if (x >= (uint64_t)A_base && x < (uint64_t)A_base + MC_ARENA_BYTES)
            {
                Block* b = find_block((const void*)x);
                if (!b)
                {
                    h.add(0xBAD0BAD0ull);
                    continue;
                }
                if (!b->live)
                {
                    h.add(0xDEAD0000ull);
                    continue;
                }
                auto it = idx.find(b->p);
                int i;
                if (it == idx.end())
                {
                    i = next++;
                    idx[b->p] = i;
                    work.push_back(std::make_pair((const char*)b->p, b->bytes));
                }
                else
                {
                    i = it->second;
                }
                h.add(0xA000000000000000ull + ((uint64_t)i << 32) + (x - (uint64_t)b->p));
            }
            else
            {
                h.add(x);
            }
        }
        if (o < n)
        {
            uint64_t x = 0;
            memcpy(&x, p + o, n - o);
            h.add(x);
        }
    }
}

} // namespace mc

// two-phase initialisers of the tracked two-phase types
namespace nestl
{
template <>
struct two_phase_initializator<mc::TP>
{
    template <class E>
    static void init(E& err, mc::TP& x, const mc::TP& o) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        mc::reg_use(std::addressof(o), "copy");
        mc::G.n_copy += mc::G.armed;
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = o.v;
        x.t = o.t;
    }
    template <class E>
    static void init(E& err, mc::TP& x, int v) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = v;
        x.t = 0;
    }
};
template <>
struct two_phase_initializator<mc::TPM>
{
    template <class E>
    static void init(E& err, mc::TPM& x, const mc::TPM& o) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        mc::reg_use(std::addressof(o), "copy");
        mc::G.n_copy += mc::G.armed;
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = o.v;
        x.t = o.t;
    }
    template <class E>
    static void init(E& err, mc::TPM& x, int v) noexcept
    {
        mc::reg_use(std::addressof(x), "initialisation");
        if (mc::fault_point(mc::F_INIT))
        {
            mc::set_user_error(err, mc::G.fired_token);
            return;
        }
        x.v = v;
        x.t = 0;
    }
};
} // namespace nestl

// ------------------------------------------------------------------ global new/delete
// nestl::allocator uses ::operator new(nothrow): route it to the arena while a library call runs.
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    if (mc::G.armed)
    {
        mc::G.n_alloc += mc::G.armed;
        if (mc::fault_point(mc::F_ALLOC))
        {
            return nullptr;
        }
        if (n > MC_ARENA_BYTES / 4)
        {
            return nullptr;
        }
        return mc::arena_alloc(n, n, 99);
    }
    return malloc(n ? n : 1);
}
void* operator new(std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
    {
        mc::die("out of memory");
    }
    return p;
}
void* operator new[](std::size_t n)
{
    return ::operator new(n);
}
static void mc_delete(void* p) noexcept
{
    if (mc::in_arena(p))
    {
        mc::G.n_dealloc += mc::G.armed;
        mc::arena_free(p, 0, 99, false);
    }
    else
    {
        free(p);
    }
}
void operator delete(void* p) noexcept
{
    mc_delete(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    mc_delete(p);
}
void operator delete[](void* p) noexcept
{
    mc_delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    mc_delete(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    mc_delete(p);
}
