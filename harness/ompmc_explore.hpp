// Exhaustive exploration of the schedules of a run within a bound on the
// number of deviations from a base order.
#pragma once
#include <sched.h>
#include "mc.hpp"
#include "ompmc.hpp"

#include <cmath>
#include <cstring>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ompmc {
inline void Outcome::push(double x)
{
    if (r->n_out >= sizeof r->out / sizeof r->out[0]) {
        fprintf(stderr, "outcome too large\n");
        _exit(9);
    }
    r->out[r->n_out++] = x;
}
inline void Outcome::label(const std::string &name, size_t n)
{
    std::string s = name + "\t" + std::to_string(n) + "\n";
    if (r->n_names + s.size() >= sizeof r->names) {
        fprintf(stderr, "too many names\n");
        _exit(9);
    }
    memcpy(r->names + r->n_names, s.data(), s.size());
    r->n_names += s.size();
    r->names[r->n_names] = 0;
}
struct Bounds {
    int threads, base, deviations;
    int part, parts;        // this share of the first deviations
    uint64_t max_runs;
    double tol;
    uint64_t budget = 400000000;
};
struct Result {
    std::string names;
    std::vector<double> out;
    int status = RUNNING, signal = 0, code = 0;
};
inline Record *record()
{
    static Record *r = nullptr;
    if (!r) {
        r = (Record *)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    return r;
}
inline void clear_record()
{
    Record *r = record();
    r->status = RUNNING;
    r->n_decisions = r->n_sites = 0;
    r->conflicts = r->accesses = r->switches = r->regions = r->order = r->n_out = r->n_names = 0;
    r->names[0] = 0;
}
// Run in a process of its own.
inline Result execute(const Run &run, Plan &plan)
{
    clear_record();
    Record *r = record();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        alarm(60);
        // one thread runs at a time: hand over on one processor
        cpu_set_t cpu;
        CPU_ZERO(&cpu);
        CPU_SET(sched_getcpu(), &cpu);
        sched_setaffinity(0, sizeof(cpu), &cpu);
        begin(&plan, r);
        Outcome o{r};
        run(o);
        r->status = FINISHED;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Result res;
    res.status = r->status;
    res.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    res.code   = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
    res.names.assign(r->names, r->n_names);
    res.out.assign(r->out, r->out + r->n_out);
    return res;
}
inline std::string place(const Result &r, size_t i)
{
    size_t p = 0;
    while (p < r.names.size()) {
        size_t t = r.names.find('\t', p), e = r.names.find('\n', t);
        size_t n = strtoul(r.names.c_str() + t + 1, nullptr, 10);
        if (i < n) {
            return r.names.substr(p, t - p) + "[" + std::to_string(i) + "]";
        }
        i -= n;
        p = e + 1;
    }
    return "?";
}
// empty if equal
inline std::string differ(const Result &want, const Result &got, double tol)
{
    if (got.status == DEADLOCK) {
        return "the threads wait for each other for ever";
    }
    if (got.status == TOO_LONG) {
        return "the run does not end";
    }
    if (got.signal == SIGALRM) {
        return "the run does not end (time)";
    }
    if (got.signal || got.code || got.status != FINISHED) {
        return mc::fmt("the run dies (signal %d, exit %d, status %d)", got.signal, got.code, got.status);
    }
    if (want.names != got.names) {
        return "results of different shape";
    }
    // largest value of each named part sets the scale
    size_t p = 0, at = 0;
    while (p < want.names.size()) {
        size_t t = want.names.find('\t', p), e = want.names.find('\n', t);
        size_t n = strtoul(want.names.c_str() + t + 1, nullptr, 10);
        bool exact   = want.names[p] == '=';
        double scale = 0;
        for (size_t i = 0; i < n; i++) {
            scale = std::max(scale, std::fabs(want.out[at + i]));
        }
        for (size_t i = 0; i < n; i++) {
            double a = want.out[at + i], b = got.out[at + i];
            bool same = memcmp(&a, &b, sizeof a) == 0 || (!exact && std::fabs(a - b) <= tol * scale);
            if (!same) {
                return place(want, at + i) + mc::fmt(" is %.15g, with one thread %.15g", b, a);
            }
        }
        at += n;
        p = e + 1;
    }
    return "";
}
typedef std::vector<std::pair<uint32_t, int>> Schedule;

inline void explore_here(mc::Ctx &c, const std::function<Run()> &make, const Bounds &b, std::set<uint64_t> &orders)
{
    Plan plan;
    memset(&plan, 0, sizeof plan);
    plan.budget = b.budget;
    // the serial run, set up with one thread
    set_threads(1);
    Result want = execute([&](Outcome &o) { make()(o); }, plan);
    if (want.status != FINISHED || want.signal || want.out.empty()) {
        c.fail(mc::fmt("the run with one thread dies (signal %d, status %d)", want.signal, want.status));
        return;
    }
    for (double x : want.out) {
        if (!std::isfinite(x)) {
            c.fail("the run with one thread gives values that are not finite");
            return;
        }
    }
    set_threads(b.threads);
    Run parallel = make();
    plan.base    = b.base;
    std::vector<uintptr_t> visible;
    uint64_t runs = 0, decisions = 0;
    auto attempt = [&](const Schedule &s, bool &grown) -> bool {
        plan.n_dev = s.size();
        for (size_t i = 0; i < s.size(); i++) {
            plan.dev[i].at     = s[i].first;
            plan.dev[i].thread = s[i].second;
        }
        plan.n_visible = visible.size();
        for (size_t i = 0; i < visible.size(); i++) {
            plan.visible[i] = visible[i];
        }
        Result got = execute(parallel, plan);
        runs++;
        Record *r = record();
        decisions += r->n_decisions;
        orders.insert(r->order);
        c.steps(r->n_decisions + 1);
        std::string bad = differ(want, got, b.tol);
        if (got.status == BAD_PLAN) {
            fprintf(stderr, "schedule cannot be replayed\n");
            _exit(97);
        }
        if (!bad.empty()) {
            std::string text;
            for (auto &d : s) {
                text += mc::fmt(" %u:%d", d.first, d.second);
            }
            c.fail(bad + "; schedule:" + (text.empty() ? " base order" : text) + mc::fmt(" (decision:thread), %d extra decision points", (int)visible.size()));
            return false;
        }
        grown = false;
        for (unsigned i = 0; i < r->n_sites; i++) {
            bool have = false;
            for (uintptr_t v : visible) {
                have = have || v == r->sites[i];
            }
            if (!have && visible.size() < MAX_VISIBLE) {
                visible.push_back(r->sites[i]);
                grown = true;
            }
        }
        return true;
    };
    for (int round = 0; round < 40; round++) {
        bool again = false;
        std::vector<Schedule> level = {Schedule()};
        for (int d = 0; d <= b.deviations && !again; d++) {
            std::vector<Schedule> next;
            for (auto &s : level) {
                bool grown;
                if (!attempt(s, grown)) {
                    return;
                }
                if (grown) {
                    again = true;
                    break;
                }
                if (runs > b.max_runs) {
                    if (c.sh) {
                        c.sh->states_dropped++;
                    }
                    return;
                }
                if (d == b.deviations) {
                    continue;
                }
                Record *r     = record();
                uint32_t from = s.empty() ? 0 : s.back().first + 1;
                for (uint32_t i = from; i < r->n_decisions; i++) {
                    if (s.empty() && (int)(i % b.parts) != b.part) {
                        continue;
                    }
                    for (int t = 0; t < b.threads; t++) {
                        if ((r->decisions[i].mask >> t & 1) && t != r->decisions[i].chosen) {
                            Schedule n = s;
                            n.push_back({i, t});
                            next.push_back(n);
                        }
                    }
                }
            }
            level.swap(next);
        }
        if (!again) {
            if (getenv("OMPMC_VERBOSE")) {
                FILE *vf = fopen(getenv("OMPMC_VERBOSE"), "a");
                fprintf(vf, "%s: %lu runs, %lu decisions, %zu orders, %zu places, last run: %lu accesses, %lu regions, %u decisions\n", c.desc_.c_str(), runs, decisions, orders.size(), visible.size(),
                        record()->accesses, record()->regions, record()->n_decisions);
                for (auto v : visible) {
                    fprintf(vf, "  place %#lx\n", v);
                }
                fclose(vf);
            }
            return;
        }
    }
    fprintf(stderr, "decision points do not settle\n");
    _exit(97);
}

// make() sets the problem up with the number of threads in force and returns
// what is to be run. The code under test may be set up only once in a process,
// so each exploration has a process of its own.
inline void explore(mc::Ctx &c, const std::function<Run()> &make, const Bounds &b)
{
    struct Report {
        volatile int done;
        int n_fails;
        char fails[8][1024];
        uint64_t n_orders;
        uint64_t orders[1 << 18];
    };
    static Report *rep = nullptr;
    if (!rep) {
        rep = (Report *)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        record();
    }
    rep->done    = 0;
    rep->n_fails = 0;
    rep->n_orders = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::set<uint64_t> orders;
        explore_here(c, make, b, orders);
        for (auto &f : c.fails) {
            strncpy(rep->fails[rep->n_fails], f.c_str(), sizeof rep->fails[0] - 1);
            rep->n_fails++;
        }
        for (auto o : orders) {
            if (rep->n_orders < sizeof rep->orders / sizeof rep->orders[0]) {
                rep->orders[rep->n_orders++] = o;
            }
        }
        rep->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        _exit(97);
    }
    if (!rep->done) {
        c.fail(mc::fmt("setting up the problem dies (signal %d)", WIFSIGNALED(st) ? WTERMSIG(st) : 0));
        return;
    }
    for (int i = 0; i < rep->n_fails; i++) {
        c.fail(rep->fails[i]);
    }
    uint64_t h = mc::hash_str(c.desc_);
    for (uint64_t i = 0; i < rep->n_orders; i++) {
        c.state(rep->orders[i] * 31 + h);
    }
}
} // namespace ompmc
