// R01: the random number stream is the documented LCG and can be skipped ahead.
#include "mc.hpp"
#include "util/rng_lcg.hpp"

using mc::Ctx;
using mc::fmt;
using mocc::RNG_LCG;

static const uint64_t M  = 2806196910506780709ull;
static const uint64_t MK = (1ull << 63) - 1;

static uint64_t step(uint64_t s)
{
    return (uint64_t)(((unsigned __int128)s * M + 1) % ((unsigned __int128)1 << 63));
}
// x -> s with step(s)==x
static uint64_t inverse_m()
{
    uint64_t x = M; // Newton, correct to 3 bits
    for (int i = 0; i < 7; i++) {
        x *= 2 - M * x;
    }
    return x;
}
static uint64_t unstep(uint64_t x)
{
    static const uint64_t im = inverse_m();
    return ((x - 1) * im) & MK;
}
// affine map of n steps by repeated squaring on explicit (a,b) pairs
static void power(uint64_t n, uint64_t &a, uint64_t &b)
{
    uint64_t ra = 1, rb = 0, xa = M, xb = 1;
    while (n) {
        if (n & 1) {
            rb = (rb * xa + xb) & MK;
            ra = (ra * xa) & MK;
        }
        xb = (xa * xb + xb) & MK;
        xa = (xa * xa) & MK;
        n >>= 1;
    }
    a = ra;
    b = rb;
}

// Generator outputs of interest: every region where rounding or a bound can go wrong
static std::vector<uint64_t> outputs()
{
    std::set<uint64_t> s;
    for (int k = 0; k < 63; k++) {
        for (int d = -2; d <= 2; d++) {
            s.insert(((1ull << k) + d) & MK);
        }
    }
    for (uint64_t d = 0; d <= 4096; d++) {
        s.insert(MK - d);
    }
    for (int den = 2; den <= 12; den++) {
        for (int num = 1; num < den; num++) {
            uint64_t x = (uint64_t)(((unsigned __int128)1 << 63) * num / den);
            for (int d = -600; d <= 600; d += 50) {
                s.insert((x + d) & MK);
            }
        }
    }
    return std::vector<uint64_t>(s.begin(), s.end());
}
static const std::vector<uint64_t> OUT = outputs();

static const std::vector<uint64_t> &seeds()
{
    static std::vector<uint64_t> v;
    if (v.empty()) {
        std::set<uint64_t> s;
        for (int k = 0; k < 64; k++) {
            s.insert(1ull << k);
            s.insert((1ull << k) - 1);
        }
        s.insert(11112854149ull);
        s.insert(~0ull);
        v.assign(s.begin(), s.end());
    }
    return v;
}

static void sequence(Ctx &c)
{
    uint64_t seed = c.pick(seeds());
    if (!c.leaf(fmt("seed %lu", (unsigned long)seed))) {
        return;
    }
    RNG_LCG g(seed), h, i;
    h.set_seed(seed);
    i          = g;
    uint64_t s = seed;
    int n      = c.thorough() ? 20000 : 3000;
    for (int k = 0; k < n; k++) {
        s          = step(s);
        uint64_t a = g(), b = h(), d = i();
        c.expect(a == s, fmt("draw %d is %lu, the sequence has %lu", k, (unsigned long)a, (unsigned long)s));
        c.expect(b == a && d == a, "equal seeds give different streams");
        c.state(a);
    }
}

static void jumps(Ctx &c)
{
    uint64_t seed = c.pick(seeds());
    int kind      = c.choose(2);
    uint64_t n;
    if (kind == 0) {
        n = (uint64_t)c.choose(64) * 8;
    } else {
        int k = c.choose(64), d = c.choose(5) - 2;
        n = (1ull << k) + d;
    }
    if (!c.leaf(fmt("seed %lu jump %lu", (unsigned long)seed, (unsigned long)n))) {
        return;
    }
    if (kind == 0) {
        // a block of eight small jump lengths against stepping
        for (uint64_t m = n; m < n + 8; m++) {
            RNG_LCG g(seed), h(seed);
            for (uint64_t k = 0; k < m; k++) {
                g();
            }
            h.jump_ahead(m);
            for (int k = 0; k < 3; k++) {
                uint64_t a = g(), b = h();
                c.expect(a == b, fmt("after jumping %lu draw %d is %lu, stepping gives %lu", (unsigned long)m, k, (unsigned long)b, (unsigned long)a));
                c.state(b);
            }
        }
    } else {
        uint64_t a, b;
        power(n, a, b);
        RNG_LCG g(seed);
        g.jump_ahead(n);
        uint64_t want = step((a * (seed & MK) + b) & MK), got = g();
        c.expect(got == want, fmt("after jumping %lu the next draw is %lu, expected %lu", (unsigned long)n, (unsigned long)got, (unsigned long)want));
        // jumping in two parts
        RNG_LCG h(seed);
        h.jump_ahead(n / 3);
        h.jump_ahead(n - n / 3);
        uint64_t two = h();
        c.expect(two == want, "jumping in two parts differs from one jump");
        c.state(got);
    }
}

static void uniform(Ctx &c)
{
    uint64_t x = c.pick(OUT);
    if (!c.leaf(fmt("output %lu", (unsigned long)x))) {
        return;
    }
    uint64_t s = unstep(x);
    c.expect(step(s) == x, "harness: predecessor state");
    long double ideal = (long double)x / 9223372036854775808.0L;
    {
        RNG_LCG g(s);
        double v = g.random();
        c.expect(v >= 0.0 && v < 1.0, fmt("unit draw is %.17g", v));
        c.expect_eq(v, (double)ideal, 1e-15, "unit draw");
        c.state((uint64_t)(v * 9007199254740992.0));
        uint64_t nx = g();
        c.expect(nx == step(x), "a unit draw does not consume exactly one number");
    }
    for (double ub : {1.0, 1e-30, 0.1, 3.0, 6.283185307179586, 1e10, 7.0 / 3.0}) {
        RNG_LCG g(s);
        double v = g.random(ub);
        c.expect(v >= 0.0 && v < ub, fmt("draw below %g is %.17g", ub, v));
        c.expect_rel(v, (double)(ideal * ub), 1e-14, fmt("draw below %g", ub));
        c.expect(g() == step(x), "a bounded draw does not consume exactly one number");
    }
    for (auto lu : std::vector<std::pair<double, double>>{{0, 1}, {-1, 1}, {2, 3}, {-5, -4.5}, {1e10, 1e10 + 1}, {0.1, 0.7}}) {
        RNG_LCG g(s);
        double v = g.random(lu.first, lu.second);
        c.expect(v >= lu.first && v < lu.second, fmt("draw in [%.17g,%.17g) is %.17g", lu.first, lu.second, v));
        c.expect_eq(v, (double)(lu.first + ideal * (lu.second - lu.first)), 1e-14, fmt("draw in [%g,%g)", lu.first, lu.second));
        c.expect(g() == step(x), "a bounded draw does not consume exactly one number");
    }
    for (int ub : {1, 2, 3, 5, 7, 10, 64, 1000, 1000000, 2147483647}) {
        RNG_LCG g(s);
        int v = g.random_int(ub);
        c.expect(v >= 0 && v < ub, fmt("integer below %d is %d", ub, v));
        long double e = ideal * ub;
        c.expect(std::fabs((double)(v - std::floor((double)e))) <= 1 && (long double)v <= e + 1e-6L && (long double)v >= e - 1 - 1e-6L,
                 fmt("integer below %d is %d, expected floor of %.17g", ub, v, (double)e));
        c.expect(g() == step(x), "an integer draw does not consume exactly one number");
    }
}

static void cdfs(Ctx &c)
{
    int n = 1 + c.choose(c.thorough() ? 5 : 4);
    std::vector<int> w(n);
    int tot = 0;
    std::string d;
    for (int i = 0; i < n; i++) {
        w[i] = c.choose(3);
        tot += w[i];
        d += fmt("%d ", w[i]);
    }
    int lastkind = c.choose(3); // exact, one ulp below, one ulp above one
    if (!c.leaf("weights " + d + (lastkind == 0 ? "end=1" : lastkind == 1 ? "end=1-ulp" : "end=1+ulp"))) {
        return;
    }
    if (!tot) {
        return;
    }
    std::vector<mocc::real_t> cdf(n);
    double acc = 0;
    double end = lastkind == 0 ? 1.0 : lastkind == 1 ? std::nextafter(1.0, 0.0) : std::nextafter(1.0, 2.0);
    for (int i = 0; i < n; i++) {
        acc += w[i];
        cdf[i] = acc == tot ? end : acc / tot;
    }
    for (uint64_t x : OUT) {
        RNG_LCG g(unstep(x));
        RNG_LCG q(unstep(x));
        double v = q.random();
        int i    = g.sample_cdf(cdf);
        if (!c.expect(i >= 0 && i < n, fmt("index %d outside the table of %d for draw %.17g", i, n, v))) {
            return;
        }
        c.expect(w[i] > 0, fmt("index %d has zero probability (draw %.17g)", i, v));
        double lo = i ? cdf[i - 1] : 0.0, hi = cdf[i];
        // ties at an interval end may go either way; past the end means last
        bool in = (v >= lo && v <= hi) || (v >= cdf.back() && hi == cdf.back());
        c.expect(in, fmt("index %d with interval [%.17g,%.17g) for draw %.17g", i, lo, hi, v));
        c.state((uint64_t)i);
        c.expect(g() == step(x), "sampling does not consume exactly one number");
    }
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "R01",
                   {{"sequence", sequence, 20, "130 seeds, 3000 draws each against 128-bit arithmetic"},
                    {"jump", jumps, 20, "all jumps 0..511 by stepping and 2^k+d, k<64, |d|<=2, for 130 seeds"},
                    {"bounds", uniform, 20, "about 9000 generator outputs around powers of two, the top end and n/d fractions; all draw kinds"},
                    {"cdf", cdfs, 20, "all weight tables up to length 4 over {0,1,2}, three end roundings, crossed with all listed outputs"}});
}
