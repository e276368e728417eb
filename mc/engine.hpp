// Level-synchronous breadth-first search over operation histories of the real code.
//
// A state is reached by replaying a history (list of (operation, fault point)) from scratch on fresh
// objects.  From every new state every enabled operation is executed without a fault and then once
// for each fault point the fault-free execution passed.  States are identified by the canonical bytes
// of the library's objects plus the reference model, so a search that runs out of new states has
// covered histories of every length over its alphabet.
#pragma once
#include "core.hpp"

#include <iterator>
#include <tuple>
#include <sys/time.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:symbolize=0:detect_stack_use_after_return=0:exitcode=42:abort_on_error=0:allocator_may_return_null=1:"
           "handle_abort=0:fast_unwind_on_malloc=1:malloc_context_size=0";
}

namespace mc
{

struct Options
{
    int depth = 1000000;
    bool faults = true;
    uint64_t max_states = 1500000;
    int workers = 8;
    std::string out;
    std::string replay;
    std::string transcript;
    bool obskey = false;
    double time_limit = 1e9;
    std::map<std::string, int> params;
    int param(const char* k, int def) const
    {
        auto it = params.find(k);
        return it == params.end() ? def : it->second;
    }
};
static Options O;

static double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// per-run CPU watchdog: an operation that never ends burns CPU; a slow machine does not
static const int HANG_CPU_S = 20;
static void on_hang(int)
{
    _exit(44);
}
static void watchdog(int seconds)
{
    itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static std::string json_escape(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
        {
            r += "\\n";
        }
        else if ((unsigned char)c < 32 || (unsigned char)c > 126)
        {
            r += ' ';
        }
        else
        {
            r += c;
        }
    }
    return r;
}

typedef std::vector<Step> Hist;

struct RunResult
{
    int fault_cnt;
    int fired;
    Key key;
    bool violated;
    std::vector<uint32_t> enabled; // enabled operations afterwards
    uint64_t obs;
};

template <class W>
struct Engine
{
    W world;
    Slot* slots = nullptr;

    void say(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vfprintf(stderr, fmt, ap);
        va_end(ap);
    }

    // the state and model live in `world`; world.begin() builds the objects, world.end() destroys them
    RunResult run(const Hist& h, bool want_enabled)
    {
        RunResult r;
        r.violated = false;
        r.fault_cnt = 0;
        r.fired = 0;
        r.obs = 0;
        arena_reset();
        G.nviol = 0;
        G.curtag = 0;
        G.checking = h.empty();
        Slot* s = G.slot;
        s->len = (int)h.size();
        if (!h.empty())
        {
            memcpy(s->steps, h.data(), h.size() * sizeof(Step));
        }
        world.begin();
        for (size_t i = 0; i < h.size(); ++i)
        {
            G.checking = i + 1 == h.size();
            G.curtag = world.tag(h[i].op);
            if (G.verbose)
            {
                fprintf(stderr, "step %zu: %s fault=%u\n", i, world.name(h[i].op).c_str(), h[i].fault);
            }
            G.failed = false;
            G.obs = 0;
            world.apply(h[i].op, h[i].fault);
            G.armed = false;
            r.fault_cnt = G.fault_cnt;
            r.fired = G.fired;
            r.obs = G.obs;
            if (G.nviol)
            {
                r.violated = true;
                s->runs++;
                return r; // containers abandoned: the arena is reset anyway
            }
        }
        Hasher hs;
        world.key(hs, O.obskey);
        r.key = hs.get();
        if (want_enabled)
        {
            world.enabled(r.enabled);
        }
        G.checking = true;
        world.end();
        CHECK(LIFE, E_live == 0, "%ld elements are still alive after everything was destroyed", E_live);
        CHECK(LIFE, A_liveblocks == 0, "%zu memory blocks were never returned", A_liveblocks);
        CHECK(ALLOCID, AL_live == 0, "%ld allocator objects are still alive after everything was destroyed", AL_live);
        if (G.nviol)
        {
            r.violated = true;
        }
        s->runs++;
        return r;
    }

    bool counted(const Hist& h) const
    {
        if ((G.fcatmask >> G.vcat) & 1u) // counts only after a failure
        {
            bool f = false;
            for (const Step& x : h)
            {
                f = f || x.fault;
            }
            if (!f)
            {
                return false;
            }
        }
        return ((G.catmask >> G.vcat) & 1u) != 0 && (G.vtag == 0 || (G.vtag & G.vtags));
    }

    struct Rec
    {
        Key k;
        uint32_t fi, op, fault, pad;
    };
    struct Trans
    {
        uint32_t state;
        uint32_t op;
        uint32_t fault;
        uint32_t pad;
        uint64_t obs;
    };

    std::unordered_set<Key, KeyHash> visited;
    // state tree: parent index + step
    struct Node
    {
        uint32_t parent;
        Step st;
    };
    std::vector<Node> nodes;

    Hist history(uint32_t id) const
    {
        Hist h;
        while (id)
        {
            h.push_back(nodes[id].st);
            id = nodes[id].parent;
        }
        std::reverse(h.begin(), h.end());
        return h;
    }

    // ---- worker
    void work(int w, int nw, uint32_t first, uint32_t last, int fd, int tfd)
    {
        G.slot = &slots[w];
        Slot* s = G.slot;
        signal(SIGVTALRM, on_hang);
        std::unordered_set<Key, KeyHash> mine;
        std::vector<Rec> buf;
        std::vector<Trans> tbuf;
        auto flush = [&](bool all) {
            if (buf.size() > 4096 || (all && !buf.empty()))
            {
                size_t n = buf.size() * sizeof(Rec);
                if (write(fd, buf.data(), n) != (ssize_t)n)
                {
                    die("write");
                }
                buf.clear();
            }
            if (tfd >= 0 && (tbuf.size() > 4096 || (all && !tbuf.empty())))
            {
                size_t n = tbuf.size() * sizeof(Trans);
                if (write(tfd, tbuf.data(), n) != (ssize_t)n)
                {
                    die("write");
                }
                tbuf.clear();
            }
        };
        const uint32_t CH = 64;
        uint64_t item = 0;
        for (uint32_t fi = first; fi < last; ++fi)
        {
            // one frontier state per item when there are many, else chunks of operations
            bool chunked = last - first < (uint32_t)nw * 8;
            if (!chunked && (int)(fi % nw) != w)
            {
                continue;
            }
            Hist h = history(fi);
            watchdog(HANG_CPU_S);
            RunResult r0 = run(h, true);
            if (r0.violated)
            {
                report(h, s, 5);
            }
            h.push_back(Step{0, 0});
            for (size_t oi = 0; oi < r0.enabled.size(); ++oi)
            {
                if (chunked)
                {
                    ++item;
                    uint64_t c = (item - 1) / (r0.enabled.size() > CH * (size_t)nw ? CH : 1);
                    if ((int)(c % nw) != w)
                    {
                        continue;
                    }
                }
                uint32_t op = r0.enabled[oi];
                int kind = world.kind(op) % MAX_KINDS;
                std::vector<uint32_t> fault_list(1, 0); // first failure | second failure << 16
                for (size_t ki = 0; ki < fault_list.size(); ++ki)
                {
                    const uint32_t k = fault_list[ki];
                    h.back() = Step{op, k};
                    watchdog(HANG_CPU_S);
                    RunResult r = run(h, false);
                    ++s->transitions;
                    ++s->opcount[kind];
                    if (k)
                    {
                        ++s->faultruns;
                        if (G.failed)
                        {
                            ++s->opfail[kind];
                        }
                    }
                    if (O.faults && k < 0x10000)
                    {
                        // whatever still can fail after the first failure fails in turn
                        for (uint32_t n = k + 1; n <= (uint32_t)r.fault_cnt && n < 0x8000; ++n)
                        {
                            fault_list.push_back(k ? k | n << 16 : n);
                        }
                    }
                    if (r.violated)
                    {
                        if (counted(h))
                        {
                            report(h, s, 3);
                        }
                        ++s->pruned;
                        if (s->pruned == 1)
                        {
                            s->prunedcat = G.vcat;
                            memcpy(s->prunedmsg, G.vmsg, sizeof G.vmsg);
                        }
                        continue;
                    }
                    if (tfd >= 0)
                    {
                        tbuf.push_back(Trans{fi, op, k, 0, r.obs});
                    }
                    if (world.leaf(op))
                    {
                        flush(false);
                        continue;
                    }
                    if (visited.count(r.key) || !mine.insert(r.key).second)
                    {
                        flush(false);
                        continue;
                    }
                    Rec rec = {r.key, fi, op, k, 0};
                    buf.push_back(rec);
                    flush(false);
                }
            }
        }
        flush(true);
        _exit(0);
    }

    void report(const Hist& h, Slot* s, int code)
    {
        s->nviol = 1;
        s->vcat = G.vcat;
        s->vtag = G.vtag;
        memcpy(s->vmsg, G.vmsg, sizeof G.vmsg);
        s->len = (int)h.size();
        memcpy(s->steps, h.data(), h.size() * sizeof(Step));
        _exit(code);
    }

    struct Verdict
    {
        bool bad = false;
        bool infra = false;
        int cat = 0;
        std::string msg;
        Hist h;
        std::string log;
    } V;

    // run one history alone in a child; returns exit description
    int confirm(const Hist& h, std::string& log, int& cat, std::string& msg)
    {
        char tmpl[] = "/tmp/mcXXXXXX";
        int fd = mkstemp(tmpl);
        unlink(tmpl);
        Slot* s = &slots[0];
        memset((void*)s, 0, sizeof *s);
        pid_t p = fork();
        if (!p)
        {
            dup2(fd, 2);
            G.slot = s;
            G.verbose = true;
            signal(SIGVTALRM, on_hang);
            watchdog(3 * HANG_CPU_S);
            RunResult r = run(h, false);
            if (r.violated)
            {
                s->nviol = 1;
                s->vcat = G.vcat;
                memcpy(s->vmsg, G.vmsg, sizeof G.vmsg);
                _exit(3);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        lseek(fd, 0, SEEK_SET);
        char b[4096];
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0 && log.size() < 20000)
        {
            log.append(b, n);
        }
        close(fd);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            return 0;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        {
            cat = s->vcat;
            msg = s->vmsg;
            return 3;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 44)
        {
            cat = HANG;
            msg = "the operation does not end";
            return 44;
        }
        cat = CRASH;
        char m[200];
        if (WIFSIGNALED(st))
        {
            snprintf(m, sizeof m, "killed by signal %d", WTERMSIG(st));
        }
        else
        {
            snprintf(m, sizeof m, "sanitizer report or exit with status %d", WEXITSTATUS(st));
        }
        msg = m;
        size_t a = log.find("ERROR: AddressSanitizer");
        if (a == std::string::npos)
        {
            a = log.find("ssertion");
        }
        if (a != std::string::npos)
        {
            msg += ": " + log.substr(a, log.find('\n', a) - a);
        }
        return 42;
    }

    uint64_t tot_runs = 0, tot_trans = 0, tot_fault = 0, tot_pruned = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> ops;
    std::string pruned_msg;
    std::vector<Hist> samples;
    int depth_done = 0;
    bool closed = false, truncated = false;
    std::vector<uint64_t> levels;

    void collect(int nw)
    {
        for (int i = 0; i < nw; ++i)
        {
            Slot& s = slots[i];
            tot_runs += s.runs;
            tot_trans += s.transitions;
            tot_fault += s.faultruns;
            tot_pruned += s.pruned;
            if (s.pruned && pruned_msg.empty())
            {
                pruned_msg = std::string(cat_name[s.prunedcat]) + ": " + s.prunedmsg;
            }
            for (int k = 0; k < MAX_KINDS; ++k)
            {
                if (s.opcount[k])
                {
                    auto& e = ops[world.kind_name(k)];
                    e.first += s.opcount[k];
                    e.second += s.opfail[k];
                }
            }
        }
    }

    void search()
    {
        double t0 = now_s();
        slots = (Slot*)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        G.slot = &slots[63];
        // initial state; run twice: the same history must give the same observations
        nodes.push_back(Node{0, Step{0, 0}});
        {
            pid_t p = fork();
            if (!p)
            {
                RunResult a = run(Hist(), true);
                if (a.violated)
                {
                    report(Hist(), &slots[0], 3);
                }
                RunResult b = run(Hist(), true);
                _exit(a.key == b.key && a.enabled == b.enabled ? 0 : 9);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                int c = confirm(Hist(), V.log, V.cat, V.msg);
                if (c)
                {
                    V.bad = true;
                    return;
                }
                V.infra = true;
                V.msg = "initial state does not replay";
                return;
            }
            visited.insert(run(Hist(), false).key);
        }
        int tfd = -1;
        if (!O.transcript.empty())
        {
            tfd = open(O.transcript.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
        }
        uint32_t first = 0, last = 1;
        levels.push_back(1);
        for (int level = 0; level < O.depth && first < last; ++level)
        {
            if (now_s() - t0 > O.time_limit)
            {
                truncated = true;
                break;
            }
            int nw = O.workers;
            std::vector<int> fds(nw), tfds(nw, -1);
            std::vector<pid_t> pids(nw);
            memset((void*)slots, 0, sizeof(Slot) * nw);
            for (int w = 0; w < nw; ++w)
            {
                char tmpl[] = "/tmp/mcXXXXXX";
                fds[w] = mkstemp(tmpl);
                unlink(tmpl);
                if (tfd >= 0)
                {
                    char t2[] = "/tmp/mcXXXXXX";
                    tfds[w] = mkstemp(t2);
                    unlink(t2);
                }
                pids[w] = fork();
                if (pids[w] < 0)
                {
                    die("fork");
                }
                if (!pids[w])
                {
                    int nul = open("/dev/null", O_WRONLY);
                    dup2(nul, 2);
                    work(w, nw, first, last, fds[w], tfds[w]);
                }
            }
            std::vector<std::pair<Hist, int>> suspects;
            for (int w = 0; w < nw; ++w)
            {
                int st = 0;
                waitpid(pids[w], &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                {
                    continue;
                }
                Slot& s = slots[w];
                Hist h(s.steps, s.steps + s.len);
                suspects.push_back(std::make_pair(h, st));
            }
            collect(nw);
            if (!suspects.empty())
            {
                // shortest, then first in operation order
                std::sort(suspects.begin(), suspects.end(), [](const std::pair<Hist, int>& a, const std::pair<Hist, int>& b) {
                    if (a.first.size() != b.first.size())
                    {
                        return a.first.size() < b.first.size();
                    }
                    for (size_t i = 0; i < a.first.size(); ++i)
                    {
                        if (a.first[i].op != b.first[i].op)
                        {
                            return a.first[i].op < b.first[i].op;
                        }
                        if (a.first[i].fault != b.first[i].fault)
                        {
                            return a.first[i].fault < b.first[i].fault;
                        }
                    }
                    return false;
                });
                for (auto& sp : suspects)
                {
                    std::string log, msg;
                    int cat = 0;
                    int c = confirm(sp.first, log, cat, msg);
                    if (c && ((G.catmask >> (unsigned)cat) & 1u))
                    {
                        V.bad = true;
                        V.cat = cat;
                        V.msg = msg;
                        V.h = sp.first;
                        V.log = log;
                        return;
                    }
                }
                V.infra = true;
                V.msg = "a worker ended abnormally but its history replays cleanly";
                V.h = suspects[0].first;
                return;
            }
            // merge
            std::vector<Rec> recs;
            for (int w = 0; w < nw; ++w)
            {
                off_t n = lseek(fds[w], 0, SEEK_END);
                size_t cnt = n / sizeof(Rec), at = recs.size();
                recs.resize(at + cnt);
                if (pread(fds[w], recs.data() + at, n, 0) != n)
                {
                    die("read");
                }
                close(fds[w]);
            }
            if (tfd >= 0)
            {
                std::vector<Trans> ts;
                for (int w = 0; w < nw; ++w)
                {
                    off_t n = lseek(tfds[w], 0, SEEK_END);
                    size_t cnt = n / sizeof(Trans), at = ts.size();
                    ts.resize(at + cnt);
                    if (pread(tfds[w], ts.data() + at, n, 0) != n)
                    {
                        die("read");
                    }
                    close(tfds[w]);
                }
                std::sort(ts.begin(), ts.end(), [](const Trans& a, const Trans& b) {
                    return std::make_tuple(a.state, a.op, a.fault) < std::make_tuple(b.state, b.op, b.fault);
                });
                size_t n = ts.size() * sizeof(Trans);
                if (write(tfd, ts.data(), n) != (ssize_t)n)
                {
                    die("write transcript");
                }
            }
            std::sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) {
                return std::make_tuple(a.fi, a.op, a.fault) < std::make_tuple(b.fi, b.op, b.fault);
            });
            first = last;
            for (auto& r : recs)
            {
                if (visited.size() >= O.max_states)
                {
                    truncated = true;
                    break;
                }
                if (visited.insert(r.k).second)
                {
                    nodes.push_back(Node{r.fi, Step{r.op, r.fault}});
                }
            }
            last = (uint32_t)nodes.size();
            depth_done = level + 1;
            levels.push_back(last - first);
            if (truncated)
            {
                break;
            }
        }
        closed = first >= last && !truncated;
        // samples: the deepest state's history and two in the middle
        if (nodes.size() > 1)
        {
            samples.push_back(history((uint32_t)nodes.size() - 1));
            samples.push_back(history((uint32_t)nodes.size() / 2));
        }
        else
        {
            // a world of independent cases: first, middle and last case
            std::vector<uint32_t> en = run(Hist(), true).enabled;
            for (size_t i : {(size_t)0, en.size() / 2, en.size() - 1})
            {
                if (i < en.size())
                {
                    samples.push_back(Hist(1, Step{en[i], 0}));
                }
            }
        }
        if (tfd >= 0)
        {
            close(tfd);
            FILE* nf = fopen((O.transcript + ".nodes").c_str(), "wb");
            if (!nf || fwrite(nodes.data(), sizeof(Node), nodes.size(), nf) != nodes.size())
            {
                die("write nodes");
            }
            fclose(nf);
        }
    }

    std::string hist_json(const Hist& h)
    {
        std::string r = "[";
        for (size_t i = 0; i < h.size(); ++i)
        {
            char b[64];
            snprintf(b, sizeof b, "%s[%u,%u,\"", i ? "," : "", h[i].op, h[i].fault);
            r += b;
            r += json_escape(world.name(h[i].op));
            r += "\"]";
        }
        return r + "]";
    }

    void write_out(const char* job, double wall)
    {
        FILE* f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
        fprintf(f, "{\"job\":\"%s\",\"states\":%zu,\"transitions\":%llu,\"runs\":%llu,\"fault_runs\":%llu,\"pruned\":%llu,", job,
                nodes.size(), (unsigned long long)tot_trans, (unsigned long long)tot_runs, (unsigned long long)tot_fault,
                (unsigned long long)tot_pruned);
        fprintf(f, "\"depth\":%d,\"closed\":%s,\"truncated\":%s,\"wall_s\":%.2f,\"levels\":[", depth_done, closed ? "true" : "false",
                truncated ? "true" : "false", wall);
        for (size_t i = 0; i < levels.size(); ++i)
        {
            fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)levels[i]);
        }
        fprintf(f, "],\"ops\":{");
        bool c = false;
        for (auto& o : ops)
        {
            fprintf(f, "%s\"%s\":[%llu,%llu]", c ? "," : "", json_escape(o.first).c_str(), (unsigned long long)o.second.first,
                    (unsigned long long)o.second.second);
            c = true;
        }
        fprintf(f, "},\"pruned_first\":\"%s\",\"samples\":[", json_escape(pruned_msg).c_str());
        for (size_t i = 0; i < samples.size(); ++i)
        {
            fprintf(f, "%s%s", i ? "," : "", hist_json(samples[i]).c_str());
        }
        fprintf(f, "],\"infra\":%s,\"violation\":", V.infra ? "true" : "false");
        if (V.bad || V.infra)
        {
            fprintf(f, "{\"cat\":\"%s\",\"msg\":\"%s\",\"history\":%s,\"log\":\"%s\"}", cat_name[V.cat], json_escape(V.msg).c_str(),
                    hist_json(V.h).c_str(), json_escape(V.log.substr(0, 6000)).c_str());
        }
        else
        {
            fprintf(f, "null");
        }
        fprintf(f, "}\n");
        if (f != stdout)
        {
            fclose(f);
        }
    }

    int replay()
    {
        // replay file: lines "op fault" (numbers first on each line)
        FILE* f = fopen(O.replay.c_str(), "r");
        if (!f)
        {
            die("cannot open replay file");
        }
        Hist h;
        char line[1000];
        while (fgets(line, sizeof line, f))
        {
            unsigned a, b;
            if (sscanf(line, "%u %u", &a, &b) == 2)
            {
                h.push_back(Step{a, b});
            }
        }
        fclose(f);
        slots = (Slot*)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::string log, msg;
        int cat = 0;
        int c = confirm(h, log, cat, msg);
        printf("%s", log.c_str());
        if (c)
        {
            printf("REPLAY: %s: %s\n", cat_name[cat], msg.c_str());
            return 1;
        }
        printf("REPLAY: no violation\n");
        return 0;
    }
};

// table driven operation alphabet
struct OpDef
{
    int kind;
    int p, q, r;
    unsigned tag;
    std::string name;
};

struct WorldBase
{
    std::vector<OpDef> ops;
    std::map<int, std::string> knames;

    void add(int kind, const char* kname, unsigned tag, int p = 0, int q = 0, int r = 0, int nparam = 0)
    {
        if (!(tag & G.tagmask))
        {
            return;
        }
        knames[kind] = kname;
        std::string n = kname;
        if (nparam > 0)
        {
            n += "(" + std::to_string(p);
            if (nparam > 1)
            {
                n += "," + std::to_string(q);
            }
            if (nparam > 2)
            {
                n += "," + std::to_string(r);
            }
            n += ")";
        }
        ops.push_back(OpDef{kind, p, q, r, tag, n});
    }
    unsigned tag(uint32_t op) const
    {
        return ops[op].tag;
    }
    std::string name(uint32_t op) const
    {
        return op < ops.size() ? ops[op].name : std::string("?");
    }
    int kind(uint32_t op) const
    {
        return ops[op].kind;
    }
    std::string kind_name(int k) const
    {
        auto it = knames.find(k);
        return it == knames.end() ? std::to_string(k) : it->second;
    }
    bool leaf(uint32_t) const
    {
        return false;
    }
};

template <class W>
int mc_main(int argc, char** argv, const char* job)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            if (i + 1 >= argc)
            {
                die("missing value");
            }
            return argv[++i];
        };
        if (a == "--cats" || a == "--fcats")
        {
            unsigned mask = (1u << CRASH) | (1u << HANG);
            std::string v = val() + ",";
            size_t p = 0, q;
            while ((q = v.find(',', p)) != std::string::npos)
            {
                std::string c = v.substr(p, q - p);
                bool ok = c.empty();
                for (unsigned k = 0; k < NCAT; ++k)
                {
                    if (c == cat_name[k])
                    {
                        mask |= 1u << k;
                        ok = true;
                    }
                }
                if (!ok)
                {
                    die("unknown category");
                }
                p = q + 1;
            }
            if (a == "--cats")
            {
                G.catmask = mask;
            }
            else
            {
                G.fcatmask = mask & ~((1u << CRASH) | (1u << HANG));
            }
        }
        else if (a == "--tags")
        {
            G.tagmask = (unsigned)atoi(val().c_str());
        }
        else if (a == "--vtags")
        {
            G.vtags = (unsigned)atoi(val().c_str());
        }
        else if (a == "--depth")
        {
            O.depth = atoi(val().c_str());
        }
        else if (a == "--nofaults")
        {
            O.faults = false;
        }
        else if (a == "--max-states")
        {
            O.max_states = strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--workers")
        {
            O.workers = atoi(val().c_str());
        }
        else if (a == "--time")
        {
            O.time_limit = atof(val().c_str());
        }
        else if (a == "--out")
        {
            O.out = val();
        }
        else if (a == "--replay")
        {
            O.replay = val();
        }
        else if (a == "--transcript")
        {
            O.transcript = val();
            O.obskey = true;
        }
        else if (a == "--set")
        {
            std::string v = val();
            size_t e = v.find('=');
            O.params[v.substr(0, e)] = atoi(v.c_str() + e + 1);
        }
        else
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    double t0 = now_s();
    arena_init();
    Engine<W>* e = new Engine<W>();
    e->world.setup();
    if (!O.replay.empty())
    {
        return e->replay();
    }
    e->search();
    e->write_out(job, now_s() - t0);
    if (e->V.infra)
    {
        fprintf(stderr, "mc: %s\n", e->V.msg.c_str());
        return 2;
    }
    return e->V.bad ? 1 : 0;
}

} // namespace mc
