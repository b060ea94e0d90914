// P38: symbol sets and truncation settings shared by all the series of the process.
#include "../mc/mc.hpp"
#include "../mc/rt.hpp"

#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <utility>

#include <sys/wait.h>
#include <unistd.h>

#include "P38_img.hpp"

namespace p38
{

Count count[2];
void point()
{
    rt::point();
}

} // namespace p38

namespace
{

using namespace p38;

const Image &image(unsigned i)
{
    return i ? image2 : image1;
}

// The loader of images: one at a time.
std::mutex loader;
bool loaded[2];
void load(unsigned i)
{
    std::lock_guard l(loader);
    if (!loaded[i]) image(i).load();
    loaded[i] = true;
}

// The objects of a thread, made and destroyed by an image.
struct Owned {
    Slot *s = nullptr;
    unsigned im = 0;
    void make(unsigned i)
    {
        s = image(i).make();
        im = i;
    }
    Owned() = default;
    Owned(Owned &&o) : s(o.s), im(o.im)
    {
        o.s = nullptr;
    }
    ~Owned()
    {
        if (s) image(im).destroy(s);
    }
};

// Equal symbol sets share their storage, different ones do not.
void check_shared(mc::Ctx &ctx, const std::vector<std::pair<const Slot *, const Content *>> &v, const std::string &what)
{
    std::map<int, std::set<const void *>> m;
    std::set<const void *> w[2];
    for (const auto &[s, c] : v) {
        if (!s) continue;
        const auto a = image1.where(*s);
        if (a.poly) m[c->poly].insert(a.poly);
        if (a.ps) m[c->ps].insert(a.ps);
        if (a.fw) m[c->fw].insert(a.fw);
        for (unsigned i = 0; i < 2u; ++i)
            if (a.witness[i]) w[i].insert(a.witness[i]);
    }
    std::set<const void *> all;
    for (const auto &[i, a] : m) {
        MC_CHECK(ctx, a.size() == 1u, what, ": ", a.size(), " copies of symbol set ", i);
        all.insert(a.begin(), a.end());
    }
    MC_CHECK(ctx, all.size() == m.size(), what, ": different symbol sets share their storage");
    MC_CHECK(ctx, w[0].size() <= 1u && w[1].size() <= 1u, what, ": several objects of one type");
    for (auto *x : w[0]) MC_CHECK(ctx, !w[1].count(x), what, ": objects of two types in one place");
}

struct Step {
    // 0: poly, 1: power series, 2: symbol set, 3, 4: witness, 5: copy of the common slot, 6: drop, 7: compare with the
    // common slot, 8: other limit
    unsigned what, image, set;
};
std::string str(const Step &s)
{
    static const char *n[] = {"poly", "pseries", "symbols", "witness0", "witness1", "copy", "drop", "compare", "truncate"};
    return mc::cat(n[s.what], s.what <= 2u ? mc::cat("[", s.set, "]") : std::string(), s.image ? "@2" : "");
}
// Executes the step, updates what is expected to be there.
bool serve(const Step &st, Slot &s, Content &c, const Slot *common, const Content &cc)
{
    const auto &im = image(st.image);
    const auto &v = sets[st.set];
    switch (st.what) {
        case 0:
            im.poly(s, v);
            c.poly = static_cast<int>(st.set);
            break;
        case 1:
            im.pseries(s, v, 5);
            c.ps = static_cast<int>(st.set);
            c.limit = 5;
            break;
        case 2:
            im.symbols(s, v);
            c.fw = static_cast<int>(st.set);
            break;
        case 3:
        case 4:
            im.witness(s, st.what - 3u);
            c.witness[st.what - 3u] = true;
            break;
        case 5:
            im.copy(s, *common);
            if (cc.poly >= 0) c.poly = cc.poly;
            if (cc.ps >= 0) {
                c.ps = cc.ps;
                c.limit = cc.limit;
            }
            if (cc.fw >= 0) c.fw = cc.fw;
            break;
        case 6:
            im.drop(s);
            c.poly = c.ps = c.fw = -1;
            break;
        case 7: {
            const bool e = c.poly == cc.poly && c.ps == cc.ps && c.fw == cc.fw && (c.ps < 0 || c.limit == cc.limit);
            if (im.equal(s, *common) != e || im.equal(*common, s) != e) return false;
            break;
        }
        default:
            im.truncate(s, 6);
            if (c.ps >= 0) c.limit = 6;
    }
    rt::Quiet q;
    return im.good(s, c);
}

struct Thread {
    std::vector<Step> prog;
    Owned slot;
    Content content;
    int failed = -1;
};

void go(mc::Ctx &ctx, std::vector<Thread> &ts, const Slot *common, const Content &cc, unsigned dev, std::string what, bool loads)
{
    for (unsigned t = 0; t < ts.size(); ++t) {
        what += t ? " |" : "";
        for (const auto &s : ts[t].prog) what += " " + str(s);
    }
    std::vector<std::function<void()>> fns;
    for (auto &t : ts)
        fns.push_back([&t, common, &cc, loads]() {
            for (unsigned i = 0; i < t.prog.size(); ++i) {
                if (loads) load(t.prog[i].image);
                if (!t.slot.s) t.slot.make(t.prog[i].image);
                if (!serve(t.prog[i], *t.slot.s, t.content, common, cc) && t.failed < 0) t.failed = static_cast<int>(i);
            }
        });
    rt::Options o;
    o.workers = 0;
    o.deviations = dev;
    const auto st = rt::run(ctx, fns, o);
    ctx.op(static_cast<unsigned>(st.sync));
    ctx.state(mc::mix(st.hash, mc::hstr(what)));
    if (ctx.logging()) ctx.log(mc::cat(what, ": ", st.sync, " synchronisation operations, ", st.switches, " switches"));
    if (loads) {
        load(0);
        load(1);
    }
    std::vector<std::pair<const Slot *, const Content *>> v{{common, &cc}};
    for (unsigned i = 0; i < ts.size(); ++i) {
        MC_CHECK(ctx, ts[i].failed < 0, what, ": thread ", i + 1u, " saw a wrong value after step ", ts[i].failed + 1);
        for (unsigned k = 0; k < 2u; ++k) MC_CHECK(ctx, image(k).good(*ts[i].slot.s, ts[i].content), what, ": thread ", i + 1u, " holds a wrong value at the end");
        v.emplace_back(ts[i].slot.s, &ts[i].content);
    }
    check_shared(ctx, v, what);
}

// The first use in the process, of one or two images.
void first(mc::Ctx &ctx, unsigned nt, unsigned len, std::vector<unsigned> whats, unsigned dev, unsigned images)
{
    std::vector<Thread> ts(nt);
    bool w[2] = {false, false};
    for (auto &t : ts)
        for (unsigned i = 0; i < len; ++i) {
            const auto o = ctx.pick(whats, "operation");
            t.prog.push_back(Step{o, ctx.choose(images, "image"), o == 1u ? ctx.choose(2, "set") : 0u});
            if (o == 3u || o == 4u) w[o - 3u] = true;
        }
    Content nc;
    go(ctx, ts, nullptr, nc, dev, "first use:", true);
    for (unsigned i = 0; i < 2u; ++i) MC_CHECK(ctx, count[i].made == (w[i] ? 1 : 0) && count[i].gone == 0, "first use: ", count[i].made, " objects made, ", count[i].gone, " gone");
}

// Histories on objects that exist already.
void warm(mc::Ctx &ctx, unsigned nt, unsigned len, unsigned kinds, std::vector<unsigned> whats, unsigned nsets, unsigned images, unsigned dev)
{
    static bool done = false;
    Content cc, dummy;
    if (!done) {
        for (unsigned i = 0; i < 2u; ++i) {
            load(i);
            Owned s;
            s.make(i);
            serve(Step{0, i, 2}, *s.s, dummy, nullptr, cc);
            serve(Step{1, i, 2}, *s.s, dummy, nullptr, cc);
            serve(Step{8, i, 2}, *s.s, dummy, nullptr, cc);
            serve(Step{2, i, 2}, *s.s, dummy, nullptr, cc);
            serve(Step{3, i, 2}, *s.s, dummy, nullptr, cc);
        }
        done = true;
    }
    // What all the threads can read.
    Owned common;
    common.make(0);
    const auto k = ctx.choose(kinds, "common");
    // 0: nothing in common
    if (k == 1u) serve(Step{2, 0, 0}, *common.s, cc, nullptr, dummy);
    if (k == 2u) serve(Step{1, 0, 0}, *common.s, cc, nullptr, dummy);
    if (k == 3u) serve(Step{0, 1, 0}, *common.s, cc, nullptr, dummy);
    std::vector<Thread> ts(nt);
    for (auto &t : ts)
        for (unsigned i = 0; i < len; ++i) {
            const auto w = ctx.pick(whats, "operation");
            t.prog.push_back(Step{w, images > 1u && w != 6u && w != 8u ? ctx.choose(images, "image") : 0u, w <= 2u ? ctx.choose(nsets, "set") : 0u});
        }
    go(ctx, ts, common.s, cc, dev, mc::cat("common object ", k, ":"), false);
    MC_CHECK(ctx, image1.good(*common.s, cc), "the common object was modified");
}

// ---- In a process of its own. ----
struct Final {
    bool armed = false;
    int code = 0;
    ~Final()
    {
        if (armed) _exit(count[0].made == count[0].gone && count[1].made == count[1].gone ? code : 40);
    }
};
// Destroyed after everything else.
Final final_check __attribute__((init_priority(101)));

int child(const std::function<void()> &f, std::string &err)
{
    int fd[2];
    if (pipe(fd)) std::abort();
    const auto pid = fork();
    if (pid == 0) {
        dup2(fd[1], 2);
        close(fd[0]);
        alarm(20);
        f();
        _exit(99);
    }
    close(fd[1]);
    char b[4096];
    for (ssize_t n; (n = read(fd[0], b, sizeof(b))) > 0;) err.append(b, static_cast<std::size_t>(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

// An allocation fails during the first use.
void no_memory(mc::Ctx &ctx)
{
    const Step s{ctx.choose(5, "operation"), ctx.choose(2, "image"), 0};
    const bool load_before = ctx.flag("loaded");
    const auto k = ctx.choose(ctx.thorough() ? 120u : 60u, "allocation");
    std::string err;
    const int r = child(
        [&]() {
            Content c, nc;
            if (load_before) load(s.image);
            int code = 0;
            {
                Owned sl;
                rt::alloc_countdown = static_cast<long>(k);
                try {
                    load(s.image);
                    sl.make(s.image);
                    serve(s, *sl.s, c, nullptr, nc);
                } catch (const std::bad_alloc &) {
                    code = 1;
                }
                if (rt::alloc_countdown >= 0) code = 2;
                rt::alloc_countdown = -1;
            }
            Owned a[2];
            Content ca[2];
            for (unsigned i = 0; i < 2u; ++i) {
                const auto im = i ? 1u - s.image : s.image;
                load(im);
                a[i].make(im);
                if (!serve(Step{s.what, im, 0}, *a[i].s, ca[i], nullptr, nc)) _exit(30);
            }
            if (!image1.equal(*a[0].s, *a[1].s)) _exit(31);
            const auto x = image1.where(*a[0].s), y = image2.where(*a[1].s);
            if (x.poly != y.poly || x.ps != y.ps || x.fw != y.fw || x.witness[0] != y.witness[0] || x.witness[1] != y.witness[1]) _exit(32);
            _exit(code);
        },
        err);
    ctx.op();
    ctx.state(mc::mix(mc::hstr(str(s)), k));
    if (r == 2) ctx.prune();
    // NOTE: if the shared object itself cannot be made, the process is terminated, on purpose.
    const bool fatal = r == -SIGABRT && err.find("Fatal error") != std::string::npos;
    MC_CHECK(ctx, r == 0 || r == 1 || fatal, str(s), ", allocation ", k, " fails: status ", r, " ", err);
}

// The end of the process, with objects of static storage duration.
void shutdown(mc::Ctx &ctx)
{
    std::vector<Step> prog;
    const auto len = 1u + ctx.choose(ctx.thorough() ? 4u : 3u, "length");
    std::string what = "end of the process:";
    for (unsigned i = 0; i < len; ++i) {
        // 9: static series
        static const unsigned ops[] = {9, 1, 3, 0, 2};
        prog.push_back(Step{ops[ctx.choose(5, "operation")], ctx.choose(2, "image"), 0});
        what += prog.back().what == 9u ? std::string(prog.back().image ? " statics@2" : " statics") : " " + str(prog.back());
    }
    const bool keep = ctx.flag("kept until the end");
    const bool lazy = ctx.flag("late loading");
    std::string err;
    const int r = child(
        [&]() {
            final_check.armed = true;
            Content c, nc;
            if (!lazy) {
                load(0);
                load(1);
            }
            load(prog[0].image);
            auto *sl = new Owned;
            sl->make(prog[0].image);
            for (const auto &s : prog) {
                load(s.image);
                if (s.what == 9u) image(s.image).statics();
                else if (!serve(s, *sl->s, c, nullptr, nc)) _exit(30);
            }
            if (keep) {
                static std::unique_ptr<Owned> holder(sl);
            } else {
                delete sl;
            }
            std::exit(0);
        },
        err);
    ctx.op();
    ctx.state(what + (keep ? "k" : ""));
    MC_CHECK(ctx, r == 0, what, ": status ", r, " ", err);
}

const std::vector<unsigned> makers{0, 1, 2, 3, 4};
mc::Reg reg({
    // NOTE: those that need a fresh process come first.
    {"no memory", no_memory, 2, 0, true},
    {"shutdown", shutdown, 2, 0, true},
    {"first use, two images", [](mc::Ctx &c) { first(c, 2, 1, makers, c.thorough() ? 2 : 1, 2); }, 4, 0, true},
    {"first use, the shared object", [](mc::Ctx &c) { first(c, 2, 1, {3, 4}, c.thorough() ? 4 : 3, 2); }, 4, 0, true},
    {"first use, three threads, the shared object", [](mc::Ctx &c) { first(c, 3, 1, {3, 4}, c.thorough() ? 3 : 2, 2); }, 6, 0, true},
    {"first use, two deviations", [](mc::Ctx &c) { first(c, 2, 1, {0, 1, 2}, c.thorough() ? 3 : 2, 2); }, 4, 0, true},
    {"first use, three threads", [](mc::Ctx &c) { first(c, 3, 1, c.thorough() ? std::vector<unsigned>{0, 1, 3} : std::vector<unsigned>{1, 2}, 1, 2); }, 6, 0, true},
    {"two threads", [](mc::Ctx &c) { warm(c, 2, 2, 4, {0, 1, 2, 5, 6, 7}, c.thorough() ? 2 : 1, 1, 1); }, 4},
    {"two threads, two deviations", [](mc::Ctx &c) { warm(c, 2, 2, 3, {1, 2, 5, 6}, c.thorough() ? 2 : 1, 1, 2); }, 4},
    {"two threads, more deviations", [](mc::Ctx &c) { warm(c, 2, 2, 2, {2, 6}, 1, 1, c.thorough() ? 5 : 4); }, 4},
    {"two threads, truncation", [](mc::Ctx &c) { warm(c, 2, 2, 3, {1, 5, 8, 6}, 1, 1, c.thorough() ? 3 : 2); }, 4},
    {"two images", [](mc::Ctx &c) { warm(c, 2, 1, 4, {0, 1, 2, 3, 5, 7}, 2, 2, c.thorough() ? 3 : 2); }, 4},
    {"three threads", [](mc::Ctx &c) { warm(c, 3, 1, 4, {0, 1, 2, 5}, 1, 1, c.thorough() ? 3 : 2); }, 4},
    {"longer programs", [](mc::Ctx &c) { warm(c, 2, 3, 2, {1, 2, 5, 6}, 1, 1, c.thorough() ? 2 : 1); }, 4},
});

} // namespace
