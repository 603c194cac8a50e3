// Exhaustive case enumerator.
//
// A family is a function that makes choices (ctx.choose(n)) until the case is
// fully determined, calls ctx.leaf(), and if that returns true runs the code
// under test and compares it with a reference.  The driver enumerates every
// choice vector depth first, in shards, one worker process per shard.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

inline std::string fmt(const char *f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            o += fmt("\\u%04x", c);
        } else {
            o += c;
        }
    }
    return o + "\"";
}

const int MAXCH = 512;

struct Shared {
    volatile int family;
    volatile uint64_t leaf; // index of the leaf being executed in its family
    volatile int active;
    volatile int nch;
    int ch[MAXCH];
    volatile double t0;
    volatile double limit;
    volatile uint64_t leaves, steps, choices, states_dropped;
    volatile int nviol;
    volatile double slowest;
    volatile uint64_t known[64];
    char desc[2048];
    char note[2048];
};

struct Known {
    std::string family, kase, what, note;
    std::regex rk, rw;
};

struct Failure {
    std::string what;
};

struct Ctx {
    // enumeration state
    std::vector<int> choice, bound;
    size_t pos     = 0;
    int shard      = 0;
    int nshard     = 1;
    bool replaying = false;
    bool thorough_ = false;
    uint64_t leafno = 0; // next leaf number in this family
    int64_t resume = -1; // leaves up to and including this one are skipped
    Shared *sh     = nullptr;
    std::unordered_set<uint64_t> *states = nullptr;
    double leaf_limit = 60.0;

    // result of the current leaf
    std::string desc_;
    std::vector<std::string> fails;
    bool ran = false;

    bool thorough() const
    {
        return thorough_;
    }
    int choose(int n)
    {
        if (n <= 0) {
            fprintf(stderr, "choose(%d)\n", n);
            _exit(97);
        }
        if (pos == choice.size()) {
            choice.push_back(0);
            bound.push_back(n);
        } else if (pos < bound.size()) {
            if (bound[pos] != n) {
                fprintf(stderr, "nondeterministic choice bound\n");
                _exit(97);
            }
        } else {
            bound.push_back(n);
        }
        if (choice[pos] >= n) {
            fprintf(stderr, "choice out of range\n");
            _exit(97);
        }
        return choice[pos++];
    }
    template <class T> const T &pick(const std::vector<T> &v)
    {
        return v[choose((int)v.size())];
    }
    // The case is determined.  True if this process has to run it.
    bool leaf(const std::string &d)
    {
        uint64_t me = leafno++;
        if (!replaying && ((int)(me % nshard) != shard || (int64_t)me <= resume)) {
            return false;
        }
        desc_ = d;
        ran   = true;
        if (sh) {
            sh->leaf = me;
            sh->nch  = (int)std::min(pos, (size_t)MAXCH);
            for (int i = 0; i < sh->nch; i++) {
                sh->ch[i] = choice[i];
            }
            strncpy(sh->desc, d.c_str(), sizeof(sh->desc) - 1);
            sh->note[0] = 0;
            sh->limit   = leaf_limit;
            sh->t0      = now();
            sh->active  = 1;
            sh->leaves++;
        }
        return true;
    }
    void note(const std::string &n)
    {
        if (sh) {
            strncpy(sh->note, n.c_str(), sizeof(sh->note) - 1);
        }
    }
    void steps(uint64_t n = 1)
    {
        if (sh) {
            sh->steps += n;
        }
    }
    void state(uint64_t h)
    {
        if (states) {
            if (states->size() < 8000000) {
                states->insert(h);
            } else if (sh) {
                sh->states_dropped++;
            }
        }
    }
    void state(const std::string &s)
    {
        state(hash_str(s));
    }
    void fail(const std::string &what)
    {
        if (fails.size() < 8) {
            fails.push_back(what);
        }
    }
    // One evaluated comparison.
    template <class F> bool expect_(bool ok, F &&what)
    {
        steps();
        if (!ok) {
            fail(what());
        }
        return ok;
    }
    template <class F> bool expect_eq_(double got, double want, double tol, F &&what)
    {
        steps();
        double sc = std::max(1.0, std::max(std::fabs(got), std::fabs(want)));
        if (got != want && !(std::isfinite(got) && std::fabs(got - want) <= tol * sc)) {
            fail(what() + fmt(": got %.15g, expected %.15g", got, want));
            return false;
        }
        return true;
    }
    template <class F> bool expect_rel_(double got, double want, double tol, F &&what)
    {
        steps();
        double sc = std::max(std::fabs(got), std::fabs(want));
        if (got != want && !(std::isfinite(got) && std::fabs(got - want) <= tol * sc + 1e-300)) {
            fail(what() + fmt(": got %.15g, expected %.15g", got, want));
            return false;
        }
        return true;
    }
    template <class F> bool expect_int_(long got, long want, F &&what)
    {
        steps();
        if (got != want) {
            fail(what() + fmt(": got %ld, expected %ld", got, want));
            return false;
        }
        return true;
    }
};

struct Family {
    std::string name;
    std::function<void(Ctx &)> body;
    double leaf_limit = 60.0;
    // short text for the evidence: what is enumerated
    std::string rule;
};

namespace detail {
struct Violation {
    int family;
    std::vector<int> ch;
    std::string desc, what;
    // where it was seen: worker, first leaf that worker had run, this leaf
    int shard, nshard;
    int64_t resume, leaf;
    bool slow = false;
};

inline std::string join(const std::vector<int> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++) {
        s += (i ? " " : "") + std::to_string(v[i]);
    }
    return s;
}

// Very small reader for known_findings.txt:
//   property=N01 family=REGEX case=REGEX what=REGEX note=TEXT   (tab separated)
inline std::vector<Known> load_known(const std::string &path, const std::string &prop)
{
    std::vector<Known> out;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#' || line.compare(0, 9, "property=") != 0) {
            continue;
        }
        std::map<std::string, std::string> kv;
        std::stringstream ss(line);
        std::string tok;
        while (std::getline(ss, tok, '\t')) {
            size_t e = tok.find('=');
            if (e != std::string::npos) {
                kv[tok.substr(0, e)] = tok.substr(e + 1);
            }
        }
        if (kv["property"] != prop) {
            continue;
        }
        Known k;
        k.family = kv["family"];
        k.kase   = kv["case"];
        k.what   = kv["what"];
        k.note   = kv["note"];
        k.rk     = std::regex(k.kase);
        k.rw     = std::regex(k.what);
        out.push_back(k);
    }
    return out;
}
inline int match_known(const std::vector<Known> &ks, const std::string &fam, const std::string &desc,
                       const std::string &what)
{
    for (size_t i = 0; i < ks.size(); i++) {
        if (ks[i].family == fam && std::regex_match(desc, ks[i].rk) && std::regex_search(what, ks[i].rw)) {
            return (int)i;
        }
    }
    return -1;
}

inline void mkdirs(const std::string &p)
{
    std::string cur;
    std::stringstream ss(p);
    std::string part;
    while (std::getline(ss, part, '/')) {
        cur += part + "/";
        mkdir(cur.c_str(), 0755);
    }
}

inline void rm_tree(const std::string &dir)
{
    // only ever called on our own run directory
    if (dir.find("/build/run/") == std::string::npos) {
        return;
    }
    std::string cmd = "rm -rf -- '" + dir + "'";
    if (system(cmd.c_str())) {
    }
}

inline bool next(Ctx &c)
{
    c.choice.resize(c.pos);
    c.bound.resize(c.pos);
    while (!c.choice.empty()) {
        if (c.choice.back() + 1 < c.bound.back()) {
            c.choice.back()++;
            return true;
        }
        c.choice.pop_back();
        c.bound.pop_back();
    }
    return false;
}

inline void run_leaf(Ctx &c, const Family &f)
{
    c.pos = 0;
    c.fails.clear();
    c.ran = false;
    try {
        f.body(c);
    } catch (const std::exception &e) {
        c.fail(std::string("unexpected exception: ") + e.what());
    } catch (...) {
        c.fail("unexpected exception of unknown type");
    }
    if (c.sh) {
        if (c.sh->active) {
            c.sh->slowest = std::max((double)c.sh->slowest, now() - c.sh->t0);
        }
        c.sh->active = 0;
    }
}

inline std::string oneline(std::string s)
{
    for (auto &ch : s) {
        if (ch == '\n' || ch == '\t' || ch == '\r') {
            ch = ' ';
        }
    }
    return s;
}

inline std::string tail(const std::string &path)
{
    std::ifstream f(path);
    f.seekg(0, std::ios::end);
    long n = f.tellg();
    f.seekg(std::max(0L, n - 600));
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    return oneline(s);
}

inline void silence(const std::string &dir)
{
    mkdirs(dir);
    if (chdir(dir.c_str())) {
        _exit(96);
    }
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(e, 2);
}
} // namespace detail

inline int run(int argc, char **argv, const std::string &prop, std::vector<Family> fams)
{
    using namespace detail;
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    int seed         = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    std::string verif = getenv("MC_VERIF") ? getenv("MC_VERIF") : "/verif";
    std::string replay, only;
    int nw = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier" && i + 1 < argc) {
            tier = argv[++i];
        } else if (a == "--replay" && i + 1 < argc) {
            replay = argv[++i];
        } else if (a == "--family" && i + 1 < argc) {
            only = argv[++i];
        } else if (a == "--workers" && i + 1 < argc) {
            nw = atoi(argv[++i]);
        }
    }
    bool thorough = (tier == "thorough");
    if (tier != "thorough") {
        tier = "quick";
    }
    auto known = load_known(verif + "/known_findings.txt", prop);
    if (!only.empty()) {
        std::vector<Family> f2;
        for (auto &f : fams) {
            if (f.name == only) {
                f2.push_back(f);
            }
        }
        fams = f2;
    }

    std::string rundir = verif + "/build/run/" + prop + "." + std::to_string(getpid());

    if (!replay.empty()) {
        // file: line 1 family, line 2 choices, line 3 tier
        std::ifstream f(replay);
        // line 4, optional: shard, shards, last skipped leaf, last leaf; then
        // all these cases are run in one process
        std::string fam, ch, t, seq;
        std::getline(f, fam);
        std::getline(f, ch);
        std::getline(f, t);
        std::getline(f, seq);
        for (auto &fm : fams) {
            if (fm.name == fam) {
                Ctx c;
                c.replaying = true;
                c.thorough_ = (t == "thorough");
                std::stringstream ss(ch);
                int v;
                while (ss >> v) {
                    c.choice.push_back(v);
                }
                int out = dup(1);
                int pid = fork();
                if (pid == 0 && !seq.empty() && seq[0] != '#') {
                    silence(rundir);
                    alarm(600);
                    long resume, last;
                    std::stringstream qs(seq);
                    Ctx q;
                    qs >> q.shard >> q.nshard >> resume >> last;
                    q.resume    = resume;
                    q.thorough_ = c.thorough_;
                    q.sh        = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                    bool bad    = false;
                    while ((long)q.leafno <= last) {
                        run_leaf(q, fm);
                        for (auto &w : q.fails) {
                            if (match_known(known, fm.name, q.desc_, w) < 0) {
                                bad           = true;
                                std::string s = "case: " + q.desc_ + "\n  " + w + "\n";
                                if (write(out, s.data(), s.size())) {
                                }
                            }
                        }
                        if (!next(q)) {
                            break;
                        }
                    }
                    // exercise the heap: damage done by the last case shows
                    for (int i = 0; i < 64; i++) {
                        free(malloc((size_t)16 << (i % 16)));
                    }
                    _exit(bad ? 1 : 0);
                }
                if (pid == 0) {
                    silence(rundir);
                    alarm((unsigned)((c.thorough_ ? fm.leaf_limit : std::min(fm.leaf_limit, 40.0)) * 1.5));
                    run_leaf(c, fm);
                    std::string s = "case: " + c.desc_ + "\n";
                    for (auto &w : c.fails) {
                        s += "  " + w + "\n";
                    }
                    if (write(out, s.data(), s.size())) {
                    }
                    _exit(c.fails.empty() ? 0 : 1);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                std::string err = tail(rundir + "/stderr.txt");
                rm_tree(rundir);
                if (WIFSIGNALED(st)) {
                    printf("died with signal %d: %s\n", WTERMSIG(st), err.c_str());
                    return 1;
                }
                return WEXITSTATUS(st);
            }
        }
        fprintf(stderr, "no such family\n");
        return 3;
    }

    // cases of the quick tier take a second or two at most
    for (auto &f : fams) {
        f.leaf_limit = thorough ? f.leaf_limit : std::min(f.leaf_limit, 40.0);
    }
    double t_start = now(), t_first = 0.0;
    const double AFTER_FIRST = 60.0; // time to look for more after the first violation
    Shared *shm = (Shared *)mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)shm, 0, sizeof(Shared) * nw);
    mkdirs(rundir);

    std::vector<Violation> viol;
    std::map<int, uint64_t> known_hits;
    std::map<int, std::string> known_sample;
    bool capped = false;
    bool check_error = false;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> all_states;
    uint64_t tot_leaves = 0, tot_steps = 0, dropped = 0;
    std::string famjson;
    const int LIMIT = 5;

    for (size_t fi = 0; fi < fams.size() && !check_error; fi++) {
        if (t_first > 0 && now() - t_first > AFTER_FIRST) {
            capped = true;
            break;
        }
        Family &fam   = fams[fi];
        double tf     = now();
        uint64_t l0   = 0;
        std::vector<int> pid(nw, -1);
        std::vector<int64_t> resume(nw, -1);
        std::vector<bool> done(nw, false);
        std::vector<int> crashes(nw, 0);
        for (int w = 0; w < nw; w++) {
            memset((void *)&shm[w], 0, sizeof(Shared));
        }
        std::string fdir = rundir + "/" + std::to_string(fi) + "_";
        auto start = [&](int w) {
            fflush(stdout);
            int p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                std::string dir = fdir + std::to_string(w);
                silence(dir);
                Shared &s = shm[w];
                s.family  = (int)fi;
                s.active  = 0;
                std::unordered_set<uint64_t> st;
                Ctx c;
                c.shard      = w;
                c.nshard     = nw;
                c.thorough_  = thorough;
                c.resume     = resume[w];
                c.sh         = &s;
                c.states     = &st;
                c.leaf_limit = fam.leaf_limit;
                FILE *out    = fopen("violations.txt", "a");
                int nsample  = 0;
                while (true) {
                    run_leaf(c, fam);
                    if (c.ran && nsample < 2) {
                        FILE *sf = fopen("samples.txt", "a");
                        fprintf(sf, "%s\n", oneline(c.desc_).c_str());
                        fclose(sf);
                        nsample++;
                    }
                    if (!c.fails.empty()) {
                        std::string unk;
                        for (auto &wh : c.fails) {
                            int k = match_known(known, fam.name, c.desc_, wh);
                            if (k >= 0) {
                                s.known[k]++;
                                fprintf(out, "K\t%d\t%s\t%s\n", k, oneline(c.desc_).c_str(), oneline(wh).c_str());
                                // forked runs would write it again
                                fflush(out);
                            } else {
                                unk += (unk.empty() ? "" : " ; ") + wh;
                            }
                        }
                        if (!unk.empty()) {
                            fprintf(out, "V\t%s\t%s\t%s\t%ld\t%ld\n", join(std::vector<int>(c.choice.begin(), c.choice.begin() + c.pos)).c_str(),
                                    oneline(c.desc_).c_str(), oneline(unk).c_str(), (long)resume[w], (long)c.leafno - 1);
                            fflush(out);
                            s.nviol++;
                            if (s.nviol >= LIMIT) {
                                break;
                            }
                        }
                    }
                    if (!next(c)) {
                        break;
                    }
                }
                fclose(out);
                s.choices = c.leafno;
                FILE *sf = fopen("states.bin", "a");
                for (auto h : st) {
                    fwrite(&h, 8, 1, sf);
                }
                fclose(sf);
                _exit(s.nviol >= LIMIT ? 8 : 0);
            }
            pid[w] = p;
        };
        for (int w = 0; w < nw; w++) {
            start(w);
        }
        int alive = nw;
        while (alive > 0) {
            int st;
            int p = waitpid(-1, &st, WNOHANG);
            if (p <= 0) {
                usleep(2000);
                int bad = 0;
                for (int w = 0; w < nw; w++) {
                    bad += shm[w].nviol + crashes[w];
                }
                if (bad && t_first == 0) {
                    t_first = now();
                }
                if (bad >= 16 || (t_first > 0 && now() - t_first > AFTER_FIRST)) {
                    // enough to report; stop this family
                    capped = true;
                    for (int w = 0; w < nw; w++) {
                        if (!done[w]) {
                            kill(pid[w], SIGKILL);
                            waitpid(pid[w], &st, 0);
                            done[w] = true;
                        }
                    }
                    alive = 0;
                    continue;
                }
                for (int w = 0; w < nw; w++) {
                    if (!done[w] && shm[w].active && now() - shm[w].t0 > shm[w].limit) {
                        kill(pid[w], SIGKILL);
                    }
                }
                continue;
            }
            int w = -1;
            for (int i = 0; i < nw; i++) {
                if (pid[i] == p) {
                    w = i;
                }
            }
            if (w < 0) {
                continue;
            }
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 8)) {
                if (WEXITSTATUS(st) == 8) {
                    capped = true;
                }
                done[w] = true;
                alive--;
                continue;
            }
            std::string dir = fdir + std::to_string(w);
            std::string err = tail(dir + "/stderr.txt");
            bool in_leaf    = shm[w].active;
            if ((!in_leaf && (!WIFSIGNALED(st) || !shm[w].leaves)) || (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96))) {
                fprintf(stderr, "check error: worker for %s died outside a case (status %x): %s\n", fam.name.c_str(), st, err.c_str());
                check_error = true;
                done[w]     = true;
                alive--;
                continue;
            }
            bool timeout = in_leaf && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && now() - shm[w].t0 > shm[w].limit;
            std::string what = timeout ? fmt("no result within %.0f s", (double)shm[w].limit)
                                       : (WIFSIGNALED(st) ? fmt("crash with signal %d", WTERMSIG(st))
                                                          : fmt("exited with status %d", WEXITSTATUS(st)));
            if (!in_leaf) {
                what += " after the case";
            }
            if (shm[w].note[0]) {
                what += std::string(" in ") + shm[w].note;
            }
            what += ": " + err;
            std::string desc = shm[w].desc;
            int k            = match_known(known, fam.name, desc, what);
            if (k >= 0) {
                known_hits[k]++;
                if (known_sample[k].empty()) {
                    known_sample[k] = desc + ": " + what;
                }
            } else {
                Violation v;
                v.family = (int)fi;
                v.ch.assign(shm[w].ch, shm[w].ch + shm[w].nch);
                v.desc   = desc;
                v.what   = what;
                v.slow   = timeout;
                v.shard  = w;
                v.nshard = nw;
                v.resume = resume[w];
                v.leaf   = (int64_t)shm[w].leaf;
                viol.push_back(v);
                crashes[w]++;
            }
            if (crashes[w] >= LIMIT) {
                capped  = true;
                done[w] = true;
                alive--;
            } else {
                resume[w]     = (int64_t)shm[w].leaf;
                shm[w].active = 0;
                if (truncate((dir + "/stderr.txt").c_str(), 0)) {
                }
                start(w);
            }
        }
        uint64_t fam_leaves = 0, fam_steps = 0, fam_total = 0;
        double slowest = 0;
        std::unordered_set<uint64_t> fam_states;
        for (int w = 0; w < nw; w++) {
            fam_leaves += shm[w].leaves;
            fam_steps += shm[w].steps;
            dropped += shm[w].states_dropped;
            slowest = std::max(slowest, (double)shm[w].slowest);
            fam_total = std::max(fam_total, (uint64_t)shm[w].choices);
            std::string dir = fdir + std::to_string(w);
            std::ifstream vf(dir + "/violations.txt");
            std::string line;
            while (std::getline(vf, line)) {
                std::vector<std::string> t;
                std::stringstream ss(line);
                std::string x;
                while (std::getline(ss, x, '\t')) {
                    t.push_back(x);
                }
                if (t.size() >= 4 && t[0] == "K") {
                    int k = atoi(t[1].c_str());
                    known_hits[k]++;
                    if (known_sample[k].empty()) {
                        known_sample[k] = t[2] + ": " + t[3];
                    }
                } else if (t.size() >= 4 && t[0] == "V") {
                    Violation v;
                    v.family = (int)fi;
                    std::stringstream cs(t[1]);
                    int c;
                    while (cs >> c) {
                        v.ch.push_back(c);
                    }
                    v.desc = t[2];
                    v.what   = t[3];
                    v.shard  = w;
                    v.nshard = nw;
                    v.resume = t.size() > 5 ? atol(t[4].c_str()) : -1;
                    v.leaf   = t.size() > 5 ? atol(t[5].c_str()) : -1;
                    viol.push_back(v);
                }
            }
            std::ifstream sf(dir + "/samples.txt");
            int n = 0;
            while (std::getline(sf, line) && n++ < 1 && w < 2) {
                samples.push_back(fam.name + ": " + line);
            }
            std::ifstream bf(dir + "/states.bin", std::ios::binary);
            uint64_t h;
            while (bf.read((char *)&h, 8)) {
                fam_states.insert(h);
            }
        }
        for (auto h : fam_states) {
            all_states.insert(h ^ hash_str(fam.name));
        }
        tot_leaves += fam_leaves;
        tot_steps += fam_steps;
        famjson += (famjson.empty() ? "" : ",") + std::string("{\"family\":") + jstr(fam.name) + ",\"rule\":" + jstr(fam.rule) +
                   fmt(",\"cases\":%lu,\"states\":%lu,\"comparisons\":%lu,\"slowest_case_s\":%.2f,\"wall_s\":%.2f}", (unsigned long)fam_leaves,
                       (unsigned long)fam_states.size(), (unsigned long)fam_steps, slowest, now() - tf);
        printf("%s %s: cases=%lu states=%lu steps=%lu violations=%lu %.1fs\n", prop.c_str(), fam.name.c_str(), (unsigned long)fam_leaves,
               (unsigned long)fam_states.size(), (unsigned long)fam_steps, (unsigned long)viol.size(), now() - tf);
        fflush(stdout);
        (void)l0;
        (void)fam_total;
    }

    // confirm violations: two fresh replays each
    std::string evdir = verif + "/evidence";
    mkdirs(evdir + "/replay");
    std::vector<std::string> lines;
    int nconf = 0;
    std::set<std::string> shown;
    std::map<int, int> perfam;
    std::map<int, int> tried;
    // those that take long to replay come last
    std::stable_sort(viol.begin(), viol.end(), [](const Violation &a, const Violation &b) { return a.slow < b.slow; });
    double t_conf = now();
    for (auto &v : viol) {
        if ((nconf > 0 && (v.slow || now() - t_conf > AFTER_FIRST)) || nconf >= 20 || perfam[v.family] >= 2 || tried[v.family] >= 6) {
            continue;
        }
        tried[v.family]++;
        std::string rp = evdir + "/replay/" + prop + "-" + std::to_string(nconf) + ".txt";
        bool ok        = false;
        // the case on its own, twice; else all the cases the process had run
        for (int mode = 0; mode < 2 && !ok; mode++) {
            {
                std::ofstream f(rp);
                f << fams[v.family].name << "\n" << join(v.ch) << "\n" << tier << "\n";
                if (mode == 1) {
                    f << v.shard << " " << v.nshard << " " << v.resume << " " << v.leaf << "\n";
                }
                f << "# " << v.desc << "\n# " << v.what << "\n";
            }
            int bad = 0;
            for (int r = 0; r < 2; r++) {
                std::string cmd = std::string("'") + argv[0] + "' --replay '" + rp + "' >/dev/null 2>&1";
                int st          = system(cmd.c_str());
                if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
                    bad++;
                }
            }
            ok = bad == 2;
        }
        if (ok) {
            printf("  family %s case [%s]\n    %s\n", fams[v.family].name.c_str(), v.desc.c_str(), v.what.substr(0, 1200).c_str());
            lines.push_back("VIOLATION property=" + prop + " replay=" + rp);
            nconf++;
            perfam[v.family]++;
        } else {
            fprintf(stderr, "check error: violation of %s did not replay: [%s] %s\n", prop.c_str(), v.desc.c_str(), v.what.c_str());
            check_error = true;
        }
    }
    rm_tree(rundir);

    for (auto &kh : known_hits) {
        printf("KNOWN-FINDING: property=%s %s (%lu cases, e.g. %s)\n", prop.c_str(), known[kh.first].note.c_str(), (unsigned long)kh.second,
               known_sample[kh.first].substr(0, 300).c_str());
    }

    // evidence
    {
        std::string sj;
        for (size_t i = 0; i < samples.size() && i < 24; i++) {
            sj += (sj.empty() ? "" : ",") + jstr(samples[i].substr(0, 400));
        }
        uint64_t kt = 0;
        for (auto &kh : known_hits) {
            kt += kh.second;
        }
        std::string path = evdir + "/" + prop + ".json";
        std::ofstream f(path + ".tmp");
        f << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"model_checking\",\"coverage\":{"
          << "\"states\":" << all_states.size() << ",\"transitions\":" << tot_steps << ",\"traces_validated_against_impl\":" << tot_leaves
          << ",\"exhaustive\":" << ((capped || check_error || dropped) ? "false" : "true") << ",\"families\":[" << famjson << "],\"samples\":[" << sj
          << "],\"known_finding_cases\":" << kt
          << ",\"explanation\":\"states: distinct hashes of observed results; transitions: comparisons of an observed value with the reference; "
             "traces: cases executed on the real code\"},\"violations\":"
          << viol.size() << ",\"wall_s\":" << fmt("%.2f", now() - t_start) << "}\n";
        f.close();
        rename((path + ".tmp").c_str(), path.c_str());
    }
    for (auto &l : lines) {
        printf("%s\n", l.c_str());
    }
    fflush(stdout);
    if (!lines.empty()) {
        return 1;
    }
    if (check_error) {
        return 3;
    }
    printf("%s: held (%lu cases, %.1f s)\n", prop.c_str(), (unsigned long)tot_leaves, now() - t_start);
    return 0;
}
} // namespace mc

// The message is evaluated only when the comparison fails.
#define expect(ok, ...) expect_((ok), [&]() -> std::string { return __VA_ARGS__; })
#define expect_eq(got, want, tol, ...) expect_eq_((got), (want), (tol), [&]() -> std::string { return __VA_ARGS__; })
#define expect_rel(got, want, tol, ...) expect_rel_((got), (want), (tol), [&]() -> std::string { return __VA_ARGS__; })
#define expect_int(got, want, ...) expect_int_((got), (want), [&]() -> std::string { return __VA_ARGS__; })
