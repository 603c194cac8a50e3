// U03: the tabulated exponential stays within its interpolation error.
#include "mc.hpp"
#include "core/exponential.hpp"

using mc::Ctx;
using mc::fmt;

struct RangeSpec {
    double lo, hi;
};
static const std::vector<RangeSpec> RANGES = {{-10.0, 0.0}, {-5.3, 0.0}, {0.0, 10.0}, {-1.0, 1.0}, {-0.3, 0.7}, {-20.0, -3.0}, {0.1, 0.3}, {-1e-3, 0.0}};

// One case per table and node: all probe points around that node.
template <int N> static void table(Ctx &c)
{
    int ir      = c.choose((int)RANGES.size());
    RangeSpec r = RANGES[ir];
    // nodes in blocks, so that large tables do not rebuild for every node
    int block = 64, nblocks = N / block + 1;
    int ib = c.choose(nblocks);
    if (!c.leaf(fmt("N=%d range=[%g,%g] nodes %d..%d", N, r.lo, r.hi, ib * block, std::min(N, ib * block + block - 1)))) {
        return;
    }
    typedef mocc::Exponential_Linear<N> Table;
    // Guard words around the table: reading past its end must not matter.
    static char buf[2][sizeof(Table) + 256];
    Table *t[2];
    for (int k = 0; k < 2; k++) {
        double poison = k ? std::nan("") : 1e300;
        for (size_t i = 0; i + 8 <= sizeof(buf[k]); i += 8) {
            memcpy(buf[k] + i, &poison, 8);
        }
        t[k] = new (buf[k]) Table(r.lo, r.hi);
    }
    double h = (r.hi - r.lo) / N;
    c.expect_rel(t[0]->dx(), h, 1e-12, "table spacing");
    auto probe = [&](double x, const char *what) {
        double e = std::exp(x), ref;
        if (x < r.lo || x > r.hi) {
            ref = e;
        } else {
            // linear interpolation between the true values at the two nodes
            int i = (int)std::floor((x - r.lo) / h);
            i     = std::max(0, std::min(N - 1, i));
            double x0 = r.lo + i * h, x1 = r.lo + (i + 1) * h;
            double f = (x - x0) / (x1 - x0);
            ref      = std::exp(x0) * (1 - f) + std::exp(x1) * f;
        }
        for (int k = 0; k < 2; k++) {
            double v = t[k]->exp(x);
            c.expect_rel(v, ref, 1e-11, fmt("%s: exp(%.17g)", what, x));
            // interpolation error bound, independent of the node search
            double bound = (x < r.lo || x > r.hi) ? 1e-14 : 0.125 * h * h * std::exp(h) + 1e-11;
            c.expect(std::fabs(v - e) <= bound * e, fmt("%s: exp(%.17g)=%.17g is off by more than the interpolation error", what, x, v));
        }
    };
    for (int i = ib * block; i < (ib + 1) * block && i <= N; i++) {
        double x = r.lo + i * h;
        c.expect_rel((*t[0])[i], std::exp(x), 1e-12, fmt("node %d", i));
        probe(x, "node");
        double up = x, dn = x;
        for (int k = 0; k < 4; k++) {
            up = std::nextafter(up, 1e9);
            dn = std::nextafter(dn, -1e9);
            probe(up, "just above a node");
            probe(dn, "just below a node");
        }
        if (i < N) {
            for (int k = 1; k < 8; k++) {
                probe(x + h * k / 8.0, "inside an interval");
            }
        }
        if (i == 0 || i == N) {
            probe(r.lo, "lower end");
            probe(r.hi, "upper end");
            probe(r.lo - h, "below the range");
            probe(r.hi + h, "above the range");
            probe(r.lo - 30, "far below the range");
            probe(r.hi + 30, "far above the range");
        }
    }
    if (ib == 0) {
        double ref = 0;
        for (int i = 0; i < N; i++) {
            double x0 = r.lo + i * h;
            ref       = std::max(ref, (0.5 * (std::exp(x0) + std::exp(x0 + h)) - std::exp(x0 + 0.5 * h)) / std::exp(x0 + 0.5 * h));
        }
        c.expect_eq(t[0]->max_error(), ref, 1e-10, "reported maximum error");
    }
    c.state((uint64_t)(N * 1000003ull + ir * 10007 + ib));
}

static void base(Ctx &c)
{
    int i = c.choose(401);
    if (!c.leaf(fmt("plain exponential at %g", (i - 200) * 0.25))) {
        return;
    }
    mocc::Exponential e;
    double x = (i - 200) * 0.25;
    c.expect_rel(e.exp(x), std::exp(x), 1e-15, "plain exponential");
    c.expect(e.max_error() == 0.0, "plain exponential reports an error");
    c.state((uint64_t)i);
}

int main(int argc, char **argv)
{
    const char *rule = "every node of the table with points at, within 4 ulp of, and at eighths between the nodes; both range ends; 8 ranges";
    return mc::run(argc, argv, "U03",
                   {{"N1", table<1>, 20, rule}, {"N2", table<2>, 20, rule}, {"N3", table<3>, 20, rule}, {"N5", table<5>, 20, rule}, {"N7", table<7>, 20, rule},
                    {"N10", table<10>, 20, rule}, {"N64", table<64>, 20, rule}, {"N100", table<100>, 20, rule}, {"N1000", table<1000>, 20, rule},
                    {"N10000", table<10000>, 20, rule}, {"plain", base, 20, "plain exponential on a lattice"}});
}
