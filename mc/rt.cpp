#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <stdexcept>
#include <unordered_map>

#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#include <unistd.h>

#include <tbb/tbb_mc.hpp>

namespace rt
{
namespace
{

constexpr unsigned max_fibers = 8;
constexpr std::size_t stack_size = 1u << 20;

struct VC {
    std::uint32_t c[max_fibers] = {};
    void join(const VC &o)
    {
        for (unsigned i = 0; i < max_fibers; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct Group;
struct Task {
    std::function<void()> *f;
    Group *g;
    VC vc;
    unsigned tag, arena;
};
struct Group {
    unsigned remaining = 0;
    std::vector<std::exception_ptr> exc;
    VC done;
};

struct EH {
    void *caught;
    unsigned uncaught;
};

struct Fiber {
    unsigned id = 0;
    ucontext_t ctx;
    void *stack = nullptr;
    std::function<void()> fn;
    bool worker = false, finished = false;
    // If set: the fiber can run only when it returns true.
    std::function<bool()> cond;
    const char *why = "";
    VC vc, acq_pending, rel_fence;
    EH eh{nullptr, 0};
    std::unordered_map<void *, void *> tls;
    std::vector<std::pair<void (*)(void *), void *>> tls_dtors;
    // The task context.
    unsigned tag = 0, arena = 0;
    // Spin detection.
    std::uintptr_t spin_addr = 0;
    std::uint64_t spin_version = 0;
    unsigned spin_count = 0;
    // Waits for a change of spin_addr; operations since the last change.
    bool spinning = false;
    unsigned idle = 0;
    // Return addresses, for reports.
    // NOTE: no standard containers in what the instrumented code calls on every access: their code may be instrumented.
    std::uintptr_t calls[4096];
    unsigned ncalls = 0;
    std::uintptr_t caller() const
    {
        return ncalls && ncalls <= 4096u ? calls[ncalls - 1u] : 0u;
    }
};

struct Sync {
    VC vc;
    std::uint64_t version = 0;
};
struct Lock {
    int owner = 0; // fiber id; 0: free; -1: shared
    unsigned readers = 0, depth = 0;
    VC vc;
};

struct Acc {
    std::uint32_t clk;
    std::uint8_t tid, mask, write, atomic;
    std::uintptr_t pc, caller;
};
struct Cell {
    std::uintptr_t key = 0;
    std::uint32_t gen = 0;
    std::uint8_t n = 0, freed = 0;
    Acc a[8];
};

// The shadow: an open-addressing table that is emptied by incrementing the generation.
struct Shadow {
    // NOTE: not from the heap, which is under observation.
    Cell *t = nullptr;
    std::size_t cap = 0;
    std::uint32_t gen = 1;
    std::size_t used = 0, mask = 0;
    void init(std::size_t n)
    {
        void *p = mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) std::abort();
        t = static_cast<Cell *>(p);
        cap = n;
        mask = n - 1u;
        used = 0;
        gen = 1;
    }
    static std::size_t h(std::uintptr_t k)
    {
        std::uint64_t x = k * 0x9e3779b97f4a7c15ull;
        return static_cast<std::size_t>(x ^ (x >> 29));
    }
    Cell &get(std::uintptr_t k)
    {
        if (used * 2u > mask) grow();
        std::size_t i = h(k) & mask;
        while (t[i].gen == gen && t[i].key != k) i = (i + 1u) & mask;
        if (t[i].gen != gen) {
            t[i].gen = gen;
            t[i].key = k;
            t[i].n = 0;
            t[i].freed = 0;
            ++used;
        }
        return t[i];
    }
    Cell *find(std::uintptr_t k)
    {
        std::size_t i = h(k) & mask;
        while (t[i].gen == gen) {
            if (t[i].key == k) return &t[i];
            i = (i + 1u) & mask;
        }
        return nullptr;
    }
    void grow()
    {
        auto *o = t;
        const auto n = cap;
        const auto og = gen;
        init(n * 2u);
        for (std::size_t i = 0; i < n; ++i) {
            const auto &c = o[i];
            if (c.gen != og) continue;
            auto &d = get(c.key);
            const auto g = d.gen;
            d = c;
            d.gen = g;
        }
        munmap(o, n * sizeof(Cell));
    }
    void clear()
    {
        ++gen;
        used = 0;
    }
};

struct State {
    mc::Ctx *ctx = nullptr;
    Options opt;
    Stats st;
    Fiber main;
    std::vector<Fiber *> fibers;
    Fiber *cur = nullptr;
    unsigned budget = 0, unfinished = 0, next_tag = 1, rr = 0;
    std::string failure;
    std::exception_ptr exc;
    bool over = false;
    std::vector<Task> pool;
    std::unordered_map<std::uintptr_t, Sync> sync;
    std::unordered_map<std::uintptr_t, Lock> locks;
    std::vector<void *> quarantine;
    std::vector<void *> stacks;
    Shadow shadow;
    bool shadow_ready = false;
};
State *S = nullptr;
// The fiber that runs, if any; nesting of code that is not to be checked.
Fiber *cur = nullptr;
int quiet = 0;

struct Q {
    Q()
    {
        ++quiet;
    }
    ~Q()
    {
        --quiet;
    }
};

std::string where(std::uintptr_t pc)
{
    if (!pc) return "?";
    Dl_info inf;
    char b[64];
    if (dladdr(reinterpret_cast<void *>(pc), &inf) && inf.dli_fbase) {
        std::snprintf(b, sizeof(b), "0x%zx", static_cast<std::size_t>(pc - reinterpret_cast<std::uintptr_t>(inf.dli_fbase)));
        // Resolve with addr2line.
        char exe[512];
        const auto n = readlink("/proc/self/exe", exe, sizeof(exe) - 1u);
        const char *f = inf.dli_fname;
        if (n > 0 && (!f || !std::strchr(f, '/'))) {
            exe[n] = 0;
            f = exe;
        }
        const std::string cmd = std::string("addr2line -f -C -s -e '") + (f ? f : "") + "' " + b + " 2>/dev/null";
        std::string out;
        if (std::FILE *p = popen(cmd.c_str(), "r")) {
            char l[2048];
            while (std::fgets(l, sizeof(l), p)) out += l;
            pclose(p);
        }
        for (auto &ch : out)
            if (ch == '\n') ch = ' ';
        if (out.size() > 400u) out = out.substr(0, 400);
        return out.empty() ? b : out;
    }
    return "?";
}

void leave_failed(const std::string &msg);

void swap_eh(Fiber &from, Fiber &to)
{
    auto *g = reinterpret_cast<EH *>(abi::__cxa_get_globals());
    from.eh.caught = g->caught;
    from.eh.uncaught = g->uncaught;
    g->caught = to.eh.caught;
    g->uncaught = to.eh.uncaught;
}
void jump(Fiber &to)
{
    Fiber &from = *(S->cur ? S->cur : &S->main);
    if (&from == &to) return;
    swap_eh(from, to);
    const int q = quiet;
    S->cur = &to == &S->main ? nullptr : &to;
    cur = S->cur;
    ++S->st.switches;
    S->st.hash = mc::mix(S->st.hash, to.id * 1000003ull + S->st.sync);
    swapcontext(&from.ctx, &to.ctx);
    // Back.
    quiet = q;
}

[[noreturn]] void stop()
{
    // Abandon all the fibers.
    S->over = true;
    jump(S->main);
    std::abort();
}
void leave_failed(const std::string &msg)
{
    if (S->failure.empty() && !S->exc) S->failure = msg;
    stop();
}

// A choice of the explorer; the alternative 0 is free.
unsigned pick(unsigned n, const char *label)
{
    if (n <= 1u || S->budget == 0u) return 0;
    unsigned v = 0;
    try {
        v = S->ctx->choose(n, label);
    } catch (...) {
        S->exc = std::current_exception();
        if (!S->cur) return 0;
        stop();
    }
    if (v) {
        --S->budget;
        S->st.hash = mc::mix(S->st.hash, v + 77u);
    }
    return v;
}

bool enabled(const Fiber &f)
{
    return !f.finished && (!f.cond || f.cond());
}
std::vector<Fiber *> others()
{
    // Round robin from the next one on.
    std::vector<Fiber *> r;
    const auto n = S->fibers.size();
    const auto b = S->cur ? S->cur->id : 0u;
    for (std::size_t i = 0; i < n; ++i) {
        auto *f = S->fibers[(b + i) % n];
        if (f != S->cur && enabled(*f) && !(f->spinning && S->sync[f->spin_addr].version == f->spin_version)) r.push_back(f);
    }
    return r;
}

void step()
{
    if (++S->st.steps > S->opt.max_steps) leave_failed("the threads do not terminate (livelock?)");
}

// A point where the running fiber may be preempted.
void sched(const char *label)
{
    step();
    ++S->st.sync;
    if (S->budget == 0u) return;
    const auto o = others();
    if (o.empty()) return;
    const auto v = pick(static_cast<unsigned>(o.size()) + 1u, label);
    if (v) jump(*o[v - 1u]);
}

[[noreturn]] void deadlock()
{
    std::string m = "deadlock:";
    for (auto *f : S->fibers)
        if (!f->finished) m += " thread " + std::to_string(f->id) + (f->worker ? " (pool)" : "") + " waits for " + (f->cond ? f->why : "?") + ";";
    leave_failed(m);
    std::abort();
}

// The running fiber cannot go on (or ended, or had better wait): run another one, chosen for free in turn.
void switch_away(const char *label, bool may_stay = false)
{
    step();
    const auto o = others();
    if (!o.empty()) {
        const auto v = pick(static_cast<unsigned>(o.size()), label);
        jump(*o[v]);
        return;
    }
    // Only threads that spin are left: all of them go on in turn (until one has done so for too long).
    const auto n = S->fibers.size();
    const auto b = S->cur ? S->cur->id : 0u;
    for (std::size_t i = 0; i < n; ++i) {
        auto *f = S->fibers[(b + i) % n];
        if (f != S->cur && enabled(*f)) {
            jump(*f);
            return;
        }
    }
    if (!may_stay && !(S->cur && enabled(*S->cur))) deadlock();
}
void block(std::function<bool()> c, const char *why)
{
    auto *f = S->cur;
    f->cond = std::move(c);
    f->why = why;
    while (!f->cond()) switch_away("blocked");
    f->cond = nullptr;
}

void tick(Fiber &f)
{
    ++f.vc.c[f.id];
}

// ---- Memory accesses. ----

void race(std::uintptr_t addr, const Acc &o, bool write, bool atomic, std::uintptr_t pc)
{
    Q q;
    std::string m = mc::cat("data race: thread ", cur->id, " ", atomic ? "atomically " : "", write ? "writes" : "reads", " at ", where(pc), "called from ",
                            where(cur->caller()), "; thread ", unsigned(o.tid), " ", o.atomic ? "atomically " : "", o.write ? "wrote" : "read", " at ", where(o.pc), "called from ",
                            where(o.caller));
    (void)addr;
    leave_failed(m);
}

void access(std::uintptr_t addr, std::size_t size, bool write, bool atomic, std::uintptr_t pc)
{
    if (!cur || quiet || size == 0u) return;
    auto &f = *cur;
    ++S->st.accesses;
    const auto t = static_cast<std::uint8_t>(f.id);
    const std::uintptr_t end = addr + size;
    for (auto g = addr >> 3; g <= (end - 1u) >> 3; ++g) {
        const auto lo = g == addr >> 3 ? addr & 7u : 0u;
        const auto hi = g == (end - 1u) >> 3 ? ((end - 1u) & 7u) + 1u : 8u;
        const auto m = static_cast<std::uint8_t>(((1u << hi) - 1u) & ~((1u << lo) - 1u));
        auto &c = S->shadow.get(g);
        if (c.freed & m) {
            Q q;
            leave_failed(mc::cat("thread ", f.id, write ? " writes" : " reads", " freed memory at ", where(pc), "called from ", where(f.caller())));
        }
        unsigned k = 0;
        int slot = -1;
        for (unsigned i = 0; i < c.n; ++i) {
            const auto a = c.a[i];
            const bool ordered = a.tid == t || a.clk <= f.vc.c[a.tid];
            if ((a.mask & m) && (write || a.write) && !(atomic && a.atomic) && !ordered) race(addr, a, write, atomic, pc);
            // Superseded by the new one?
            if (ordered && !(a.mask & ~m) && (write || !a.write) && (!atomic || a.atomic)) continue;
            if (a.tid == t && a.write == write && a.atomic == atomic && a.clk == f.vc.c[t]) slot = static_cast<int>(k);
            c.a[k++] = a;
        }
        c.n = static_cast<std::uint8_t>(k);
        if (slot >= 0) {
            c.a[slot].mask |= m;
        } else {
            if (c.n == 8u) {
                // Forget the oldest.
                for (unsigned i = 1; i < 8u; ++i) c.a[i - 1u] = c.a[i];
                c.n = 7;
            }
            c.a[c.n++] = Acc{f.vc.c[t], t, m, write, atomic, pc, f.caller()};
        }
    }
}
void fresh(void *p, std::size_t n)
{
    if (!cur || n == 0u) return;
    const auto b = reinterpret_cast<std::uintptr_t>(p);
    for (auto g = b >> 3; g <= (b + n - 1u) >> 3; ++g)
        if (auto *c = S->shadow.find(g)) {
            c->n = 0;
            c->freed = 0;
        }
}

// ---- Synchronisation. ----

bool is_acq(int mo)
{
    return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
bool is_rel(int mo)
{
    return mo == 3 || mo == 4 || mo == 5;
}

// Before an atomic operation.
void atomic_before(std::uintptr_t a, std::size_t n, bool may_write, std::uintptr_t pc)
{
    Q q;
    auto *f = cur;
    // The same fruitless operation again and again: it is waiting for a change. The other threads go first.
    const bool spin = f->spin_addr == a && f->spin_count >= (may_write ? 2u : 8u) && S->sync[a].version == f->spin_version;
    if (spin || ++f->idle > 500u) {
        f->idle = 0;
        if (f->spin_count > 300u) leave_failed(mc::cat("livelock: thread ", f->id, " spins on a flag that nobody changes, at ", where(pc)));
        f->spinning = spin;
        f->why = "a change of a flag it is spinning on";
        switch_away("spinning", true);
        f->spinning = false;
    } else {
        sched("atomic");
    }
    --quiet;
    access(a, n, may_write, true, pc);
    ++quiet;
}
void atomic_after(std::uintptr_t a, bool changed, bool wrote, bool rmw, int mo)
{
    Q q;
    auto *f = cur;
    auto &s = S->sync[a];
    if (!wrote || rmw) {
        // It read.
        if (is_acq(mo)) f->vc.join(s.vc);
        else f->acq_pending.join(s.vc);
    }
    if (wrote) {
        if (is_rel(mo)) {
            if (rmw) s.vc.join(f->vc);
            else s.vc = f->vc;
            tick(*f);
        } else if (rmw) {
            s.vc.join(f->rel_fence);
        } else {
            s.vc = f->rel_fence;
        }
    }
    if (changed) {
        f->idle = 0;
        ++s.version;
        f->spin_addr = 0;
        f->spin_count = 0;
    } else if (rmw || !wrote) {
        if (f->spin_addr == a && f->spin_version == s.version) {
            ++f->spin_count;
        } else {
            f->spin_addr = a;
            f->spin_version = s.version;
            f->spin_count = 1;
        }
    }
}
void fence(int mo)
{
    Q q;
    sched("fence");
    auto *f = cur;
    if (is_acq(mo)) f->vc.join(f->acq_pending);
    if (is_rel(mo)) {
        f->rel_fence = f->vc;
        tick(*f);
    }
}

void lock(void *m, bool recursive)
{
    Q q;
    sched("lock");
    auto &l = S->locks[reinterpret_cast<std::uintptr_t>(m)];
    const int me = static_cast<int>(cur->id);
    if (recursive && l.owner == me) {
        ++l.depth;
        return;
    }
    if (l.owner != 0) block([&l]() { return l.owner == 0; }, l.owner == me ? "a mutex that it holds itself" : "a mutex");
    l.owner = me;
    l.depth = 1;
    cur->vc.join(l.vc);
}
bool trylock(void *m, bool recursive)
{
    Q q;
    sched("trylock");
    auto &l = S->locks[reinterpret_cast<std::uintptr_t>(m)];
    const int me = static_cast<int>(cur->id);
    if (recursive && l.owner == me) {
        ++l.depth;
        return true;
    }
    if (l.owner != 0) return false;
    l.owner = me;
    l.depth = 1;
    cur->vc.join(l.vc);
    return true;
}
void unlock(void *m)
{
    Q q;
    sched("unlock");
    auto &l = S->locks[reinterpret_cast<std::uintptr_t>(m)];
    if (l.owner == -1) {
        // Shared.
        l.vc.join(cur->vc);
        tick(*cur);
        if (--l.readers == 0u) l.owner = 0;
        return;
    }
    if (l.owner != static_cast<int>(cur->id)) leave_failed("a mutex is unlocked by a thread that does not hold it");
    if (--l.depth) return;
    l.vc.join(cur->vc);
    tick(*cur);
    l.owner = 0;
}
bool rdlock(void *m, bool wait)
{
    Q q;
    sched("rdlock");
    auto &l = S->locks[reinterpret_cast<std::uintptr_t>(m)];
    if (l.owner > 0) {
        if (!wait) return false;
        block([&l]() { return l.owner <= 0; }, "a shared mutex");
    }
    l.owner = -1;
    ++l.readers;
    cur->vc.join(l.vc);
    return true;
}

// ---- Tasks. ----

bool allowed(const Task &t, const Fiber &f, bool outermost)
{
    if (outermost && f.worker) return true;
    return t.arena == f.arena && (f.tag == 0u || t.tag == f.tag);
}
bool any_task(const Fiber &f, bool outermost)
{
    for (const auto &t : S->pool)
        if (allowed(t, f, outermost)) return true;
    return false;
}
void run_task(bool outermost)
{
    Q q;
    auto *f = cur;
    std::vector<std::size_t> c;
    for (std::size_t i = 0; i < S->pool.size(); ++i)
        if (allowed(S->pool[i], *f, outermost)) c.push_back(i);
    const auto i = c[pick(static_cast<unsigned>(c.size()), "task")];
    Task t = S->pool[i];
    S->pool.erase(S->pool.begin() + static_cast<std::ptrdiff_t>(i));
    ++S->st.tasks;
    f->vc.join(t.vc);
    const auto otag = f->tag, oarena = f->arena;
    f->tag = t.tag;
    f->arena = t.arena;
    {
        const int qq = quiet;
        quiet = 0;
        try {
            (*t.f)();
        } catch (...) {
            t.g->exc.push_back(std::current_exception());
        }
        quiet = qq;
    }
    f->tag = otag;
    f->arena = oarena;
    t.g->done.join(f->vc);
    tick(*f);
    --t.g->remaining;
}
// Between tasks: which thread goes on? In turn, by default.
void pickup(const char *label)
{
    step();
    auto o = others();
    if (o.empty()) return;
    // The running one comes last.
    o.push_back(S->cur);
    const auto v = pick(static_cast<unsigned>(o.size()), label);
    jump(*o[v]);
}
void hook_run(std::vector<std::function<void()>> &tasks)
{
    Q q;
    if (!cur) {
        for (auto &t : tasks) t();
        return;
    }
    auto *f = cur;
    ++S->st.groups;
    Group g;
    g.remaining = static_cast<unsigned>(tasks.size());
    for (auto &t : tasks) S->pool.push_back(Task{&t, &g, f->vc, f->tag, f->arena});
    tick(*f);
    while (g.remaining) {
        if (any_task(*f, false)) {
            // NOTE: the waiting thread may also run tasks other than those it waits for.
            f->cond = [f, &g]() { return g.remaining == 0u || any_task(*f, false); };
            f->why = "the end of a parallel loop";
            pickup("pickup");
            f->cond = nullptr;
            if (g.remaining && any_task(*f, false)) run_task(false);
        } else {
            block([f, &g]() { return g.remaining == 0u || any_task(*f, false); }, "the end of a parallel loop");
        }
    }
    f->vc.join(g.done);
    if (!g.exc.empty()) std::rethrow_exception(g.exc.front());
}
void hook_isolate(const std::function<void()> &fn)
{
    if (!cur) {
        fn();
        return;
    }
    auto *f = cur;
    struct R {
        Fiber *f;
        unsigned t;
        ~R()
        {
            f->tag = t;
        }
    } r{f, f->tag};
    f->tag = S->next_tag++;
    fn();
}
unsigned hook_choose(unsigned n, const char *label)
{
    Q q;
    if (!cur || !S->opt.splits) return std::strcmp(label, "sort") == 0 ? 0u : 1u;
    // The default is to split (and to keep the order when sorting).
    const auto v = pick(n, label);
    if (std::strcmp(label, "sort") == 0) return v;
    return v == 0u ? 1u : v == 1u ? 0u : v;
}

void worker_loop()
{
    for (;;) {
        Q q;
        auto *f = cur;
        if (!any_task(*f, true)) block([f]() { return any_task(*f, true); }, "work");
        run_task(true);
        if (any_task(*f, true)) pickup("pickup");
    }
}

void finish_tls(Fiber &f)
{
    while (!f.tls_dtors.empty()) {
        auto d = f.tls_dtors.back();
        f.tls_dtors.pop_back();
        d.first(d.second);
    }
}

void entry()
{
    auto *f = S->cur;
    f->cond = nullptr;
    quiet = 0;
    try {
        f->fn();
        finish_tls(*f);
    } catch (...) {
        Q q;
        if (!S->exc && S->failure.empty()) S->exc = std::current_exception();
        stop();
    }
    ++quiet;
    f->finished = true;
    S->main.vc.join(f->vc);
    if (--S->unfinished == 0u) stop();
    switch_away("end");
    std::abort();
}

void *new_stack()
{
    if (!S->stacks.empty()) {
        void *p = S->stacks.back();
        S->stacks.pop_back();
        return p;
    }
    void *p = mmap(nullptr, stack_size + 4096u, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (p == MAP_FAILED) std::abort();
    mprotect(p, 4096, PROT_NONE);
    return p;
}

} // namespace

Quiet::Quiet()
{
    ++quiet;
}
Quiet::~Quiet()
{
    --quiet;
}
int fill = -1;
Block blocks[n_blocks];
unsigned long last_block = 0;
long alloc_countdown = -1;
long live_bytes = 0;
unsigned self()
{
    return cur ? cur->id : 0u;
}
void point()
{
    if (!cur || quiet) return;
    Q q;
    sched("point");
}

Stats run(mc::Ctx &ctx, std::vector<std::function<void()>> fns, const Options &opt)
{
    if (cur) throw std::logic_error("rt::run() is not reentrant");
    static State state;
    S = &state;
    auto &s = state;
    // What an abandoned execution left behind.
    for (auto *f : s.fibers) {
        s.stacks.push_back(f->stack);
        delete f;
    }
    s.fibers.clear();
    if (!s.shadow_ready) {
        s.shadow.init(1u << 14);
        s.shadow_ready = true;
    }
    s.shadow.clear();
    s.ctx = &ctx;
    s.opt = opt;
    s.st = Stats{};
    s.budget = opt.deviations;
    s.failure.clear();
    s.exc = nullptr;
    s.over = false;
    s.pool.clear();
    s.sync.clear();
    s.locks.clear();
    s.next_tag = 1;
    s.main.vc = VC{};
    s.main.vc.c[0] = 1;
    const auto total = fns.size() + opt.workers;
    if (total + 1u > max_fibers) throw std::logic_error("too many threads");
    s.unfinished = static_cast<unsigned>(fns.size());
    for (std::size_t i = 0; i < total; ++i) {
        auto *f = new Fiber;
        f->id = static_cast<unsigned>(i) + 1u;
        f->worker = i >= fns.size();
        f->fn = f->worker ? std::function<void()>(worker_loop) : fns[i];
        f->arena = f->worker ? 0u : f->id;
        f->stack = new_stack();
        f->vc = s.main.vc;
        f->vc.c[f->id] = 1;
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = static_cast<char *>(f->stack) + 4096;
        f->ctx.uc_stack.ss_size = stack_size;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, entry, 0);
        if (f->worker) {
            f->cond = [f]() { return any_task(*f, true); };
            f->why = "work";
        }
        s.fibers.push_back(f);
    }
    const auto ohooks = tbb_mc::hooks;
    tbb_mc::hooks.run = hook_run;
    tbb_mc::hooks.isolate = hook_isolate;
    tbb_mc::hooks.choose = hook_choose;
    tbb_mc::hooks.max_leaves = opt.max_leaves;
    quiet = 0;
    {
        Q q;
        const auto o = others();
        const auto v = pick(static_cast<unsigned>(o.size()), "start");
        if (!s.exc) jump(*o[v]);
    }
    quiet = 0;
    tbb_mc::hooks = ohooks;
    const auto st = s.st;
    // NOTE: after a failure the memory of the abandoned fibers stays.
    for (auto *p : s.quarantine) std::free(p);
    s.quarantine.clear();
    const bool clean = s.failure.empty() && !s.exc;
    if (clean) {
        for (auto *f : s.fibers) {
            for (auto &t : f->tls) std::free(t.second);
            s.stacks.push_back(f->stack);
            delete f;
        }
        s.fibers.clear();
        return st;
    }
    if (!s.failure.empty()) throw mc::Violation{s.failure};
    std::rethrow_exception(s.exc);
}

namespace
{
struct Init {
    Init()
    {
        // Keep libstdc++ from taking the shortcuts of single-threaded processes.
        __libc_single_threaded = 0;
    }
} init_;
// Thread-local storage outside of the fibers.
std::unordered_map<void *, void *> *main_tls;
} // namespace

} // namespace rt

using rt::cur;

// ---- Interface of the instrumented code. ----

#define RA reinterpret_cast<std::uintptr_t>(__builtin_return_address(0))
#define AD(p) reinterpret_cast<std::uintptr_t>(p)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *pc)
{
    if (!cur) return;
    if (cur->ncalls < 4096u) cur->calls[cur->ncalls] = reinterpret_cast<std::uintptr_t>(pc);
    ++cur->ncalls;
}
void __tsan_func_exit()
{
    if (cur && cur->ncalls) --cur->ncalls;
}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void *p)                                                                                       \
    {                                                                                                                  \
        rt::access(AD(p), N, false, false, RA);                                                                        \
    }                                                                                                                  \
    void __tsan_write##N(void *p)                                                                                      \
    {                                                                                                                  \
        rt::access(AD(p), N, true, false, RA);                                                                         \
    }                                                                                                                  \
    void __tsan_read_write##N(void *p)                                                                                 \
    {                                                                                                                  \
        rt::access(AD(p), N, true, false, RA);                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_read##N(const void *p)                                                                       \
    {                                                                                                                  \
        rt::access(AD(p), N, false, false, RA);                                                                        \
    }                                                                                                                  \
    void __tsan_unaligned_write##N(void *p)                                                                            \
    {                                                                                                                  \
        rt::access(AD(p), N, true, false, RA);                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_read_write##N(void *p)                                                                       \
    {                                                                                                                  \
        rt::access(AD(p), N, true, false, RA);                                                                         \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, unsigned long n)
{
    rt::access(AD(p), n, false, false, RA);
}
void __tsan_write_range(void *p, unsigned long n)
{
    rt::access(AD(p), n, true, false, RA);
}
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v) rt::access(AD(p), sizeof(void *), true, false, RA);
}
void __tsan_vptr_read(void **p)
{
    rt::access(AD(p), sizeof(void *), false, false, RA);
}
void *__tsan_memcpy(void *d, const void *s, std::size_t n)
{
    rt::access(AD(s), n, false, false, RA);
    rt::access(AD(d), n, true, false, RA);
    return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, std::size_t n)
{
    rt::access(AD(s), n, false, false, RA);
    rt::access(AD(d), n, true, false, RA);
    return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, std::size_t n)
{
    rt::access(AD(d), n, true, false, RA);
    return std::memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ATOMIC(B, T)                                                                                                   \
    T __tsan_atomic##B##_load(const volatile T *a, int mo)                                                             \
    {                                                                                                                  \
        if (!cur || rt::quiet) return *a;                                                                              \
        rt::atomic_before(AD(a), sizeof(T), false, RA);                                                                \
        const T r = *a;                                                                                                \
        rt::atomic_after(AD(a), false, false, false, mo);                                                              \
        return r;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##B##_store(volatile T *a, T v, int mo)                                                          \
    {                                                                                                                  \
        if (!cur || rt::quiet) {                                                                                       \
            *a = v;                                                                                                    \
            return;                                                                                                    \
        }                                                                                                              \
        rt::atomic_before(AD(a), sizeof(T), true, RA);                                                                 \
        const bool ch = *a != v;                                                                                       \
        *a = v;                                                                                                        \
        rt::atomic_after(AD(a), ch, true, false, mo);                                                                  \
    }                                                                                                                  \
    ATOMIC_RMW(B, T, exchange, v)                                                                                      \
    ATOMIC_RMW(B, T, fetch_add, static_cast<T>(o + v))                                                                 \
    ATOMIC_RMW(B, T, fetch_sub, static_cast<T>(o - v))                                                                 \
    ATOMIC_RMW(B, T, fetch_and, static_cast<T>(o & v))                                                                 \
    ATOMIC_RMW(B, T, fetch_or, static_cast<T>(o | v))                                                                  \
    ATOMIC_RMW(B, T, fetch_xor, static_cast<T>(o ^ v))                                                                 \
    ATOMIC_RMW(B, T, fetch_nand, static_cast<T>(~(o & v)))                                                             \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo)                          \
    {                                                                                                                  \
        const bool in = cur && !rt::quiet;                                                                             \
        if (in) rt::atomic_before(AD(a), sizeof(T), true, RA);                                                         \
        const T o = *a;                                                                                                \
        const bool ok = o == *e;                                                                                       \
        if (ok) *a = v;                                                                                                \
        if (in) {                                                                                                      \
            if (ok) rt::atomic_after(AD(a), o != v, true, true, mo);                                                   \
            else rt::atomic_after(AD(a), false, false, true, fmo);                                                     \
        }                                                                                                              \
        if (!ok) *e = o;                                                                                               \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo)                            \
    {                                                                                                                  \
        return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo);                                           \
    }                                                                                                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo)                                \
    {                                                                                                                  \
        __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                                                 \
        return e;                                                                                                      \
    }
#define ATOMIC_RMW(B, T, NAME, EXPR)                                                                                   \
    T __tsan_atomic##B##_##NAME(volatile T *a, T v, int mo)                                                            \
    {                                                                                                                  \
        const bool in = cur && !rt::quiet;                                                                             \
        if (in) rt::atomic_before(AD(a), sizeof(T), true, RA);                                                         \
        const T o = *a;                                                                                                \
        const T n = EXPR;                                                                                              \
        *a = n;                                                                                                        \
        if (in) rt::atomic_after(AD(a), o != n, true, true, mo);                                                       \
        return o;                                                                                                      \
    }
ATOMIC(8, std::uint8_t)
ATOMIC(16, std::uint16_t)
ATOMIC(32, std::uint32_t)
ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (cur && !rt::quiet) rt::fence(mo);
}
void __tsan_atomic_signal_fence(int) {}

// ---- Mutexes and friends (linked with --wrap). ----

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static bool is_recursive(pthread_mutex_t *m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_mutex_lock(m);
    rt::lock(m, is_recursive(m));
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_mutex_trylock(m);
    return rt::trylock(m, is_recursive(m)) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_mutex_unlock(m);
    rt::unlock(m);
    return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_rwlock_rdlock(m);
    rt::rdlock(m, true);
    return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_rwlock_tryrdlock(m);
    return rt::rdlock(m, false) ? 0 : EBUSY;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_rwlock_wrlock(m);
    rt::lock(m, false);
    return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_rwlock_trywrlock(m);
    return rt::trylock(m, false) ? 0 : EBUSY;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!cur || rt::quiet) return __real_pthread_rwlock_unlock(m);
    rt::unlock(m);
    return 0;
}
int __wrap_sched_yield()
{
    if (cur && !rt::quiet) {
        rt::Q q;
        const auto o = rt::others();
        if (!o.empty()) rt::switch_away("yield");
    }
    return 0;
}

// ---- Initialisation of function-local statics. ----
// Layout of the guard: byte 0 is set when the object is initialised; byte 1 while it is being initialised.
int __wrap___cxa_guard_acquire(std::uint64_t *g)
{
    auto *b = reinterpret_cast<volatile char *>(g);
    const auto a = reinterpret_cast<std::uintptr_t>(g);
    if (!cur || rt::quiet) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    rt::Q q;
    rt::sched("guard");
    if (!b[0] && b[1]) rt::block([b]() { return b[0] || !b[1]; }, "the initialisation of a local static");
    if (b[0]) {
        cur->vc.join(rt::S->sync[a].vc);
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __wrap___cxa_guard_release(std::uint64_t *g)
{
    auto *b = reinterpret_cast<volatile char *>(g);
    if (cur && !rt::quiet) {
        rt::Q q;
        rt::sched("guard");
        auto &s = rt::S->sync[reinterpret_cast<std::uintptr_t>(g)];
        s.vc.join(cur->vc);
        ++s.version;
        rt::tick(*cur);
    }
    b[1] = 0;
    b[0] = 1;
}
void __wrap___cxa_guard_abort(std::uint64_t *g)
{
    reinterpret_cast<volatile char *>(g)[1] = 0;
}

// ---- Thread-local storage (compiled with -femulated-tls). ----
struct emutls_control {
    std::size_t size, align;
    void *loc, *templ;
};
void *__emutls_get_address(emutls_control *c)
{
    rt::Q q;
    if (!rt::main_tls) rt::main_tls = new std::unordered_map<void *, void *>;
    auto &m = cur ? cur->tls : *rt::main_tls;
    auto it = m.find(c);
    if (it != m.end()) return it->second;
    const auto al = std::max<std::size_t>(c->align, 16u);
    void *p = std::aligned_alloc(al, (c->size + al - 1u) / al * al);
    if (c->templ) std::memcpy(p, c->templ, c->size);
    else std::memset(p, 0, c->size);
    rt::fresh(p, c->size);
    m.emplace(c, p);
    return p;
}
int __wrap___cxa_thread_atexit(void (*d)(void *), void *o, void *)
{
    rt::Q q;
    if (cur) cur->tls_dtors.emplace_back(d, o);
    return 0;
}
}

// ---- Memory. ----
// All the allocations are new to the shadow, those made by uninstrumented code too (exception objects, for example).
extern "C" {
void *__libc_malloc(std::size_t);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *malloc(std::size_t n)
{
    void *p = __libc_malloc(n);
    if (cur && p) rt::fresh(p, malloc_usable_size(p));
    return p;
}
void *calloc(std::size_t m, std::size_t n)
{
    void *p = __libc_calloc(m, n);
    if (cur && p) rt::fresh(p, malloc_usable_size(p));
    return p;
}
void *realloc(void *o, std::size_t n)
{
    const auto before = o ? malloc_usable_size(o) : 0u;
    void *p = __libc_realloc(o, n);
    if (cur && p) {
        // NOTE: a block extended in place: what was added is new.
        const auto from = p == o ? before : 0u, to = malloc_usable_size(p);
        if (from < to) rt::fresh(static_cast<char *>(p) + from, to - from);
    }
    return p;
}
}
namespace
{
void *get(std::size_t n, std::size_t al)
{
    const auto size = n;
    if (n == 0u) n = 1;
    if (rt::alloc_countdown >= 0 && rt::alloc_countdown-- == 0) throw std::bad_alloc{};
    // NOTE: malloc() tells the shadow about the new memory.
    void *p = al > 16u ? std::aligned_alloc(al, (n + al - 1u) / al * al) : std::malloc(n);
    if (!p) throw std::bad_alloc{};
    if (al > 16u) rt::fresh(p, malloc_usable_size(p));
    if (rt::fill >= 0) std::memset(p, rt::fill, n);
    rt::live_bytes += static_cast<long>(malloc_usable_size(p));
    rt::blocks[++rt::last_block % rt::n_blocks] = {static_cast<const char *>(p), size};
    return p;
}
void put(void *p)
{
    if (!p) return;
    rt::live_bytes -= static_cast<long>(malloc_usable_size(p));
    if (cur && !rt::quiet) {
        // Freeing is a write; the memory is not reused until the end of the execution.
        const auto n = malloc_usable_size(p);
        rt::access(AD(p), n, true, false, RA);
        rt::Q q;
        for (auto g = AD(p) >> 3; g <= (AD(p) + n - 1u) >> 3; ++g) rt::S->shadow.get(g).freed = 0xff;
        rt::S->quarantine.push_back(p);
        return;
    }
    std::free(p);
}
} // namespace
void *operator new(std::size_t n)
{
    return get(n, 16);
}
void *operator new[](std::size_t n)
{
    return get(n, 16);
}
void *operator new(std::size_t n, std::align_val_t a)
{
    return get(n, static_cast<std::size_t>(a));
}
void *operator new[](std::size_t n, std::align_val_t a)
{
    return get(n, static_cast<std::size_t>(a));
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    try {
        return get(n, 16);
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    try {
        return get(n, 16);
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void *p) noexcept
{
    put(p);
}
void operator delete[](void *p) noexcept
{
    put(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    put(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    put(p);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    put(p);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    put(p);
}
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
    put(p);
}
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept
{
    put(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept
{
    put(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept
{
    put(p);
}
