#include "mc.hpp"

#include <thread>

#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <typeinfo>
#include <unordered_set>

#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{

unsigned cores = 4;

void (*worker_init)() = nullptr;
void (*exec_begin)(Ctx &) = nullptr;
void (*exec_end)(Ctx &) = nullptr;

namespace
{

constexpr unsigned max_choices = 1u << 16;

enum : int { st_run = 0, st_done = 1, st_viol = 2, st_budget = 3 };

// One per worker, in shared memory: survives the death of the worker.
struct Shared {
    volatile int status;
    volatile unsigned scenario;
    volatile unsigned nchoices;
    unsigned choices[max_choices];
    volatile std::uint64_t execs, ops, valid, pruned, beat, choice_points;
    volatile std::uint64_t per_scen[256];
    char msg[8192];
    char sample[256][600];
};

Shared *sh = nullptr;
std::vector<unsigned> arity; // arities of the current execution
std::vector<unsigned> forced;
unsigned pos = 0;
std::string logbuf;
std::unordered_set<std::uint64_t> states;
constexpr std::size_t max_states = 3000000;
unsigned shard_depth = 0, shard_n = 1, shard_i = 0;
std::uint64_t shard_counter = 0;
bool shard_checked = false, replaying = false;

struct NotMine {
};
struct Prune {
};

// Whether the subtree of a prefix of choices belongs to this worker: the distinct prefixes are dealt out in turn.
std::vector<unsigned> last_prefix;
bool last_mine = false, have_prefix = false;

bool shard_mine(unsigned len)
{
    std::vector<unsigned> p(sh->choices, sh->choices + len);
    if (!have_prefix || p != last_prefix) {
        have_prefix = true;
        last_prefix = std::move(p);
        last_mine = shard_counter++ % shard_n == shard_i;
    }
    return last_mine;
}

void check_shard()
{
    shard_checked = true;
    if (!replaying && !shard_mine(pos < shard_depth ? pos : shard_depth)) throw NotMine{};
}

std::string demangle(const char *n)
{
    int st;
    char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n;
    std::free(d);
    return r;
}

std::string cur_exception()
{
    try {
        throw;
    } catch (const std::exception &e) {
        return "unexpected exception of type " + demangle(typeid(e).name()) + ": " + std::string(e.what()).substr(0, 3000);
    } catch (...) {
        const auto *t = abi::__cxa_current_exception_type();
        return "unexpected exception of type " + (t ? demangle(t->name()) : std::string("unknown"));
    }
}

// Run the body once under the choices in `forced`. Returns: 0 fine, 1 violation, 2 skipped, 3 pruned.
int execute(const Scenario &s, Ctx &c)
{
    pos = 0;
    arity.clear();
    sh->nchoices = 0;
    logbuf.clear();
    shard_checked = false;
    int ret = 0;
    std::string msg;
    try {
        if (exec_begin) exec_begin(c);
        s.body(c);
        if (!shard_checked) check_shard();
        if (exec_end) exec_end(c);
    } catch (const Violation &v) {
        ret = 1;
        msg = v.msg;
    } catch (const NotMine &) {
        return 2;
    } catch (const Prune &) {
        return 3;
    } catch (...) {
        ret = 1;
        msg = cur_exception();
    }
    if (ret) {
        std::snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
    }
    return ret;
}

// Move to the next choice sequence. Returns false at the end.
bool advance()
{
    std::vector<unsigned> cur(sh->choices, sh->choices + arity.size());
    std::size_t n = arity.size();
    while (n > 0u && cur[n - 1u] + 1u >= arity[n - 1u]) --n;
    if (n == 0u) return false;
    cur.resize(n);
    ++cur[n - 1u];
    forced = std::move(cur);
    return true;
}

void dump_states(const std::string &f)
{
    std::ofstream o(f, std::ios::binary);
    for (auto x : states) o.write(reinterpret_cast<const char *>(&x), sizeof(x));
}

std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch < 0x20u || ch >= 0x7fu) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", ch);
            r += b;
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

} // namespace

unsigned Ctx::choose(unsigned n, const char *label)
{
    if (n == 0u) fail("internal: choose(0)");
    if (pos >= max_choices) fail("too many choices in one execution (non-termination?)");
    unsigned v = pos < forced.size() ? forced[pos] : 0u;
    if (v >= n) {
        if (replaying) {
            std::cout << "replay diverged: choice " << pos << " (" << label << ") has arity " << n << "\n";
            std::_Exit(4);
        }
        fail(std::string("internal: the scenario is not a deterministic function of its choices at ") + label);
    }
    arity.push_back(n);
    sh->choices[pos] = v;
    ++pos;
    sh->nchoices = pos;
    sh->choice_points = sh->choice_points + 1u;
    sh->beat = sh->beat + 1u;
    if (pos == shard_depth && !shard_checked) check_shard();
    return v;
}
void Ctx::op(unsigned n)
{
    sh->ops = sh->ops + n;
    sh->beat = sh->beat + 1u;
}
void Ctx::validated(unsigned n)
{
    sh->valid = sh->valid + n;
    sh->beat = sh->beat + 1u;
}
void Ctx::state(std::uint64_t h)
{
    if (states.size() < max_states) states.insert(h);
}
void Ctx::state(const std::string &s)
{
    state(hstr(s));
}
void Ctx::log(const std::string &s)
{
    if (m_logging) {
        logbuf += s;
        logbuf += "; ";
        if (replaying) std::cout << "  " << s << std::endl;
    }
}
void Ctx::prune()
{
    throw Prune{};
}
void Ctx::fail(const std::string &s)
{
    throw Violation{s};
}

namespace
{

int worker(const std::vector<Scenario> &scen, bool thorough, double deadline, const std::string &statefile)
{
    if (worker_init) worker_init();
    Ctx c;
    c.m_thorough = thorough;
    bool out_of_budget = false;
    for (unsigned si = 0; si < scen.size(); ++si) {
        const auto &s = scen[si];
        sh->scenario = si;
        shard_depth = s.shard_depth;
        shard_counter = 0;
        have_prefix = false;
        forced.clear();
        std::uint64_t nth = 0;
        bool first = true;
        for (;;) {
            if (now() > deadline) {
                out_of_budget = true;
                break;
            }
            // Log a few executions, for the samples.
            c.m_logging = (nth == 0u || nth == 7u || nth == 101u || nth == 1009u);
            int r = 0;
            if (s.isolate) {
                // NOTE: in isolated scenarios the child inherits the choices through shared memory, the arities
                // are handed back at the end of sh->choices.
                std::fflush(nullptr);
                const pid_t p = fork();
                if (p == 0) {
                    r = execute(s, c);
                    const auto na = static_cast<unsigned>(arity.size());
                    if (na * 2u + 1u >= max_choices) std::_Exit(9);
                    for (unsigned i = 0; i < na; ++i) sh->choices[max_choices - 1u - i] = arity[i];
                    if (r == 0 && c.m_logging && !logbuf.empty()) {
                        std::snprintf(sh->sample[si], sizeof(sh->sample[si]), "%s", logbuf.c_str());
                    }
                    std::_Exit(r);
                }
                int st = 0;
                waitpid(p, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) > 3) {
                    // Let the parent see the crash.
                    if (WIFEXITED(st)) {
                        std::snprintf(sh->msg, sizeof(sh->msg), "the execution ended the process with status %d", WEXITSTATUS(st));
                    } else {
                        std::snprintf(sh->msg, sizeof(sh->msg), "the execution was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    }
                    sh->status = st_viol;
                    return 1;
                }
                r = WEXITSTATUS(st);
                arity.clear();
                for (unsigned i = 0; i < sh->nchoices; ++i) arity.push_back(sh->choices[max_choices - 1u - i]);
                // The bookkeeping of the shards was done in the child, redo it here.
                shard_mine(sh->nchoices < shard_depth ? sh->nchoices : shard_depth);
            } else {
                r = execute(s, c);
            }
            if (first) {
                // Every worker runs the first execution to its end: with fewer choices than expected, share the work
                // out earlier.
                first = false;
                const auto na = static_cast<unsigned>(arity.size());
                if (na >= 1u && na < shard_depth) {
                    shard_depth = na;
                    shard_counter = 0;
                    have_prefix = false;
                    if (!shard_mine(na) && r == 0) r = 2;
                }
            }
            if (r == 1) {
                sh->status = st_viol;
                dump_states(statefile);
                return 1;
            }
            if (r == 0) {
                sh->execs = sh->execs + 1u;
                sh->per_scen[si] = sh->per_scen[si] + 1u;
                if (c.m_logging && !logbuf.empty()) {
                    std::snprintf(sh->sample[si], sizeof(sh->sample[si]), "%s", logbuf.c_str());
                }
                ++nth;
            } else if (r == 3) {
                sh->pruned = sh->pruned + 1u;
            }
            if (r == 2) {
                // Skip the whole subtree.
                if (arity.size() > shard_depth) arity.resize(shard_depth);
            }
            if (!advance()) break;
        }
        if (out_of_budget) break;
    }
    dump_states(statefile);
    sh->status = out_of_budget ? st_budget : st_done;
    return 0;
}

} // namespace

int run(int argc, char **argv, std::vector<Scenario> all)
{
    std::string tier = "quick", out, replay, replay_out = "replay.txt", only;
    unsigned nw = 8;
    double budget = 600, stall = 90;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--replay-out") replay_out = nxt();
        else if (a == "--workers") nw = static_cast<unsigned>(std::stoul(nxt()));
        else if (a == "--budget") budget = std::stod(nxt());
        else if (a == "--stall") stall = std::stod(nxt());
        else if (a == "--only") only = nxt();
        else {
            std::cerr << "unknown option " << a << "\n";
            return 2;
        }
    }
    auto map_shared = [](std::size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            std::_Exit(2);
        }
        return p;
    };

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, name;
        bool th = false;
        forced.clear();
        while (std::getline(f, line)) {
            if (line.rfind("scenario ", 0) == 0) name = line.substr(9);
            else if (line.rfind("tier ", 0) == 0) th = line.substr(5) == "thorough";
            else if (line.rfind("choices", 0) == 0) {
                std::istringstream is(line.substr(7));
                unsigned v;
                while (is >> v) forced.push_back(v);
            }
        }
        sh = static_cast<Shared *>(map_shared(sizeof(Shared)));
        replaying = true;
        for (const auto &s : all) {
            if (s.name == name) {
                if (worker_init) worker_init();
                Ctx c;
                c.m_logging = true;
                c.m_thorough = th;
                std::cout << "replaying scenario " << name << " with " << forced.size() << " choices" << std::endl;
                const int r = execute(s, c);
                if (r == 1) {
                    std::cout << "REPRODUCED: " << sh->msg << std::endl;
                    std::cout.flush();
                    std::_Exit(1);
                }
                std::cout << "the execution satisfies the property" << std::endl;
                std::cout.flush();
                std::_Exit(0);
            }
        }
        std::cout << "no scenario named " << name << std::endl;
        return 2;
    }

    const bool thorough = tier == "thorough";
    std::vector<Scenario> scen;
    for (auto &s : all) {
        if (s.tier == 1 && !thorough) continue;
        if (s.tier == 2 && thorough) continue;
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        scen.push_back(s);
    }
    if (scen.size() > 256u) {
        std::cerr << "too many scenarios\n";
        return 2;
    }
    std::vector<Shared *> shs;
    std::vector<pid_t> pids;
    std::vector<std::uint64_t> beats(nw, 0);
    std::vector<double> tbeat(nw, now());
    const double t0 = now();
    for (unsigned i = 0; i < nw; ++i) shs.push_back(static_cast<Shared *>(map_shared(sizeof(Shared))));
    for (unsigned i = 0; i < nw; ++i) {
        std::fflush(nullptr);
        const pid_t p = fork();
        if (p == 0) {
            sh = shs[i];
            shard_n = nw;
            shard_i = i;
            const int r = worker(scen, thorough, t0 + budget, out + ".st" + std::to_string(i));
            std::fflush(nullptr);
            std::_Exit(r);
        }
        pids.push_back(p);
    }
    // Monitor.
    int viol = -1;
    bool oom = false;
    std::string crash;
    unsigned alive = nw;
    while (alive && viol < 0) {
        int st = 0;
        const pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (unsigned i = 0; i < nw; ++i) {
                if (pids[i] != p) continue;
                pids[i] = -1;
                --alive;
                if (shs[i]->status == st_viol) {
                    viol = static_cast<int>(i);
                    crash = shs[i]->msg;
                } else if (WIFSIGNALED(st)) {
                    if (WTERMSIG(st) == SIGKILL) {
                        oom = true;
                    } else {
                        viol = static_cast<int>(i);
                        crash = std::string("the execution crashed: ") + strsignal(WTERMSIG(st));
                    }
                } else if (shs[i]->status == st_run) {
                    viol = static_cast<int>(i);
                    crash = "the execution ended the process (status " + std::to_string(WEXITSTATUS(st)) + ")";
                }
            }
            continue;
        }
        for (unsigned i = 0; i < nw && viol < 0; ++i) {
            if (pids[i] < 0) continue;
            if (shs[i]->beat != beats[i]) {
                beats[i] = shs[i]->beat;
                tbeat[i] = now();
            } else if (now() - tbeat[i] > stall) {
                viol = static_cast<int>(i);
                crash = "no progress: deadlock or non-termination";
            }
        }
        usleep(20000);
    }
    for (unsigned i = 0; i < nw; ++i) {
        if (pids[i] > 0) {
            kill(pids[i], SIGKILL);
            waitpid(pids[i], nullptr, 0);
        }
    }
    // Merge.
    std::uint64_t execs = 0, ops = 0, valid = 0, pruned = 0, cps = 0;
    bool budget_hit = false;
    std::unordered_set<std::uint64_t> allst;
    for (unsigned i = 0; i < nw; ++i) {
        execs += shs[i]->execs;
        ops += shs[i]->ops;
        valid += shs[i]->valid;
        pruned += shs[i]->pruned;
        cps += shs[i]->choice_points;
        budget_hit = budget_hit || shs[i]->status == st_budget;
        const auto fn = out + ".st" + std::to_string(i);
        std::ifstream f(fn, std::ios::binary);
        std::uint64_t x;
        while (f.read(reinterpret_cast<char *>(&x), sizeof(x))) allst.insert(x);
        f.close();
        unlink(fn.c_str());
    }
    std::ofstream o(out);
    o << "{\"executions\": " << execs << ", \"ops\": " << ops << ", \"validated\": " << valid << ", \"pruned\": " << pruned
      << ", \"choice_points\": " << cps << ", \"distinct_states\": " << allst.size()
      << ", \"exhaustive\": " << ((viol < 0 && !budget_hit && !oom) ? "true" : "false")
      << ", \"oom\": " << (oom ? "true" : "false") << ", \"wall_s\": " << (now() - t0) << ", \"scenarios\": {";
    for (unsigned si = 0; si < scen.size(); ++si) {
        std::uint64_t n = 0;
        for (unsigned i = 0; i < nw; ++i) n += shs[i]->per_scen[si];
        o << (si ? ", " : "") << jstr(scen[si].name) << ": " << n;
    }
    o << "}, \"samples\": [";
    bool first = true;
    for (unsigned si = 0; si < scen.size(); ++si) {
        for (unsigned i = 0; i < nw; ++i) {
            if (shs[i]->sample[si][0]) {
                o << (first ? "" : ", ") << jstr(scen[si].name + ": " + shs[i]->sample[si]);
                first = false;
                break;
            }
        }
    }
    o << "], \"violation\": ";
    if (viol < 0) {
        o << "null}\n";
    } else {
        const auto *v = shs[static_cast<unsigned>(viol)];
        o << "{\"scenario\": " << jstr(scen[v->scenario].name) << ", \"message\": " << jstr(crash) << "}}\n";
        std::ofstream r(replay_out);
        r << "scenario " << scen[v->scenario].name << "\ntier " << tier << "\nchoices";
        for (unsigned i = 0; i < v->nchoices; ++i) r << " " << v->choices[i];
        r << "\n# " << crash << "\n";
        std::cout << "violation in scenario " << scen[v->scenario].name << ": " << crash << std::endl;
    }
    o.flush();
    return viol < 0 ? (oom ? 2 : 0) : 1;
}

std::vector<Scenario> &registry()
{
    static std::vector<Scenario> r;
    return r;
}

} // namespace mc

int main(int argc, char **argv)
{
    return mc::run(argc, argv, mc::registry());
}

// The library asks for the number of cores (once per thread): the answer is the checker's, not the machine's.
unsigned std::thread::hardware_concurrency() noexcept
{
    return mc::cores;
}
