// U02: data written to HDF5 is read back identically.
#include <sys/stat.h>
#include <cstring>
#include "mc.hpp"
#include "core_input.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static bool throws(const std::function<void()> &f)
{
    try {
        f();
    } catch (mocc::Exception &) {
        return true;
    }
    return false;
}
static uint64_t bits(double x)
{
    uint64_t b;
    memcpy(&b, &x, 8);
    return b;
}
// values that do not survive a change of type or of order
static VecF values(int n, int kind)
{
    static const double odd[] = {0.1, -0.0, 1e-310, 1.7976931348623157e308, -1.0 / 3, 4294967297.0, 9007199254740993.0, 3.0e-45};
    VecF v;
    for (int i = 0; i < n; i++) {
        v.push_back(kind ? odd[i % 8] * (i < 8 ? 1 : 1 + i) : 1.5 + i);
    }
    return v;
}
static std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static bool same(const VecF &a, const VecF &b)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (size_t i = 0; i < a.size(); i++) {
        if (bits(a[i]) != bits(b[i])) {
            return false;
        }
    }
    return true;
}
static int product(const VecI &d)
{
    int n = 1;
    for (int x : d) {
        n *= x;
    }
    return n;
}
static std::string show(const VecI &d)
{
    std::string s = "(";
    for (int x : d) {
        s += fmt(" %d", x);
    }
    return s + " )";
}
template <int N> static blitz::TinyVector<int, N> tiny(const VecI &d)
{
    blitz::TinyVector<int, N> t;
    for (int i = 0; i < N; i++) {
        t[i] = d[i];
    }
    return t;
}
template <int N> static void fill(blitz::Array<double, N> &a, const VecF &v)
{
    // in logical order, last index fastest
    blitz::TinyVector<int, N> ix;
    for (int i = 0; i < (int)v.size(); i++) {
        int r = i;
        for (int d = N - 1; d >= 0; d--) {
            ix[d] = r % a.extent(d);
            r /= a.extent(d);
        }
        a(ix) = v[i];
    }
}
template <int N> static VecF list(const blitz::Array<double, N> &a)
{
    VecF v;
    blitz::TinyVector<int, N> ix;
    for (int i = 0; i < (int)a.size(); i++) {
        int r = i;
        for (int d = N - 1; d >= 0; d--) {
            ix[d] = r % a.extent(d);
            r /= a.extent(d);
        }
        for (int d = 0; d < N; d++) {
            ix[d] += a.lbound(d);
        }
        v.push_back(a(ix));
    }
    return v;
}
template <int N> static void write_nd(H5Node &f, const std::string &path, const VecI &dims, const VecF &v)
{
    blitz::Array<double, N> a(tiny<N>(dims));
    fill<N>(a, v);
    f.write(path, a);
}
// read into an array of N dimensions that has the given shape (or none)
template <int N> static void read_nd(Ctx &c, const H5Node &f, const std::string &path, const VecI &dims, const VecF &v, const VecI &into, const std::string &at)
{
    blitz::Array<double, N> a;
    if (!into.empty()) {
        a.resize(tiny<N>(into));
        a = -77.0;
    }
    bool fits = N == 1 ? into.empty() || into[0] == product(dims) : (int)dims.size() == N && (into.empty() || into == dims);
    bool err  = throws([&] { f.read(path, a); });
    c.expect(err == !fits, at + (fits ? "is accepted" : "is refused"));
    if (!err && fits) {
        c.expect(same(list<N>(a), v), at + "values");
        for (int d = 0; N > 1 && d < N; d++) {
            c.expect_int(a.extent(d), dims[d], at + fmt("extent %d", d));
        }
    }
}

static const std::vector<VecI> &shapes(bool big)
{
    static std::vector<VecI> small, large;
    if (small.empty()) {
        for (auto *s : {&small, &large}) {
            int m = s == &small ? 3 : 4;
            for (int a = 1; a <= 2 * m; a++) {
                s->push_back({a});
            }
            for (int a = 1; a <= m; a++) {
                for (int b = 1; b <= m; b++) {
                    s->push_back({a, b});
                    for (int k = 1; k <= m; k++) {
                        s->push_back({a, b, k});
                        if (k < 3 && a < 3) {
                            s->push_back({a, b, k, 2});
                        }
                    }
                }
            }
        }
    }
    return big ? large : small;
}

// --- every writer, every reader
static void arrays(Ctx &c)
{
    auto dims  = c.pick(shapes(c.thorough()));
    int writer = c.choose(5); // vector, vector with shape, 1-D array with shape, array, iterators
    int kind   = c.choose(2), reopen = c.choose(2), nested = c.choose(3);
    if (writer == 0 && dims.size() > 1) {
        dims = {product(dims)};
    }
    int n = product(dims);
    if (!c.leaf(fmt("writer %d of shape %s, values %d, %s, path %d", writer, show(dims).c_str(), kind, reopen ? "reopened" : "same handle", nested))) {
        return;
    }
    auto v = values(n, kind);
    std::string path = nested == 0 ? "data" : nested == 1 ? "a/b/data" : "/a/data";
    H5Node *w = new H5Node("t.h5", H5Access::WRITE);
    H5Node &f = *w;
    std::unique_ptr<H5Node> sub;
    if (nested) {
        auto a = f.create_group("a");
        a.create_group("b");
    }
    f.write("before", VecF{1.25});
    switch (writer) {
    case 0:
        f.write(path, v);
        break;
    case 1:
        f.write(path, v, dims);
        break;
    case 2: {
        ArrayB1 a(n);
        fill<1>(a, v);
        f.write(path, a, dims);
        break;
    }
    case 3:
        dims.size() == 1 ? write_nd<1>(f, path, dims, v) : dims.size() == 2 ? write_nd<2>(f, path, dims, v) : dims.size() == 3 ? write_nd<3>(f, path, dims, v) : write_nd<4>(f, path, dims, v);
        break;
    case 4:
        f.write(path, v.begin(), v.end(), dims);
        break;
    }
    f.write("after", VecF{2.25});
    std::unique_ptr<H5Node> own(w);
    if (reopen) {
        own.reset();
        own.reset(new H5Node(std::string("t.h5"), H5Access::READ));
    }
    H5Node &r = *own;
    auto got = r.dimensions(path);
    VecI gi(got.begin(), got.end());
    c.expect(gi == dims, "stored shape is " + show(gi));
    // vector
    for (int size : {0, n, n + 1, n - 1}) {
        if (size < 0) {
            continue;
        }
        VecF x(size, -5.0);
        bool fits = dims.size() == 1 && (size == 0 || size == n);
        bool err  = throws([&] { r.read(path, x); });
        c.expect(err == !fits, fmt("vector of size %d: %s", size, fits ? "accepted" : "refused"));
        c.expect(!fits || err || same(x, v), fmt("vector of size %d: values", size));
        ArrayB1 y(size);
        y    = -5.0;
        fits = size == 0 || size == n;
        err  = throws([&] { r.read_1d(path, y); });
        c.expect(err == !fits, fmt("flat array of size %d: %s", size, fits ? "accepted" : "refused"));
        c.expect(!fits || err || same(list<1>(y), v), fmt("flat array of size %d: values", size));
    }
    // arrays of one to four dimensions: empty, of the right shape, of wrong shapes
    read_nd<1>(c, r, path, dims, v, {}, "empty 1-D array: ");
    read_nd<1>(c, r, path, dims, v, {n}, "1-D array: ");
    read_nd<1>(c, r, path, dims, v, {n + 1}, "longer 1-D array: ");
    read_nd<2>(c, r, path, dims, v, {}, "empty 2-D array: ");
    read_nd<2>(c, r, path, dims, v, {1, n}, "2-D array of one row: ");
    read_nd<3>(c, r, path, dims, v, {}, "empty 3-D array: ");
    read_nd<3>(c, r, path, dims, v, {1, 1, n}, "flat 3-D array: ");
    read_nd<4>(c, r, path, dims, v, {}, "empty 4-D array: ");
    auto rev = dims;
    std::reverse(rev.begin(), rev.end());
    for (auto &d : {dims, rev}) {
        if (d.size() == 2) {
            read_nd<2>(c, r, path, dims, v, d, "2-D array " + show(d) + ": ");
        } else if (d.size() == 3) {
            read_nd<3>(c, r, path, dims, v, d, "3-D array " + show(d) + ": ");
        } else if (d.size() == 4) {
            read_nd<4>(c, r, path, dims, v, d, "4-D array " + show(d) + ": ");
        }
    }
    // single number
    int one   = -9;
    bool err1 = throws([&] { r.read(path, one); });
    c.expect(n == 1 || err1, "an array is not read as a single number");
    // neighbours are untouched
    VecF x;
    r.read("before", x);
    c.expect(x == VecF{1.25}, "data written before");
    x.clear();
    r.read("after", x);
    c.expect(x == VecF{2.25}, "data written after");
    c.steps(1);
    c.state(fmt("%d %s %d %d %d", writer, show(dims).c_str(), kind, reopen, nested));
}

// --- shapes that do not match the data are refused and leave nothing behind
static void mismatch(Ctx &c)
{
    auto dims  = c.pick(shapes(false));
    int writer = c.choose(3), delta = c.choose(4);
    int n      = product(dims);
    int have   = delta == 0 ? n - 1 : delta == 1 ? n + 1 : delta == 2 ? 2 * n : n + 1000;
    if (have < 0 || have == n) {
        return;
    }
    if (!c.leaf(fmt("%d values written with writer %d as %s", have, writer, show(dims).c_str()))) {
        return;
    }
    auto v = values(have, 0);
    H5Node f("t.h5", H5Access::WRITE);
    bool err = throws([&] {
        if (writer == 0) {
            f.write("data", v, dims);
        } else if (writer == 1) {
            ArrayB1 a(have);
            fill<1>(a, v);
            f.write("data", a, dims);
        } else {
            f.write("data", v.begin(), v.end(), dims);
        }
    });
    c.expect(err, "refused");
    c.expect(throws([&] { f.dimensions("data"); }), "nothing is stored");
    c.steps(1);
    c.state(fmt("%d %d %s", writer, have, show(dims).c_str()));
}

// --- views of arrays: slices, transposed, reversed
static void views(Ctx &c)
{
    int n0 = 1 + c.choose(4), n1 = 1 + c.choose(4), view = c.choose(8), read = c.choose(2);
    if (!c.leaf(fmt("%d x %d, view %d, %s", n0, n1, view, read ? "read into" : "written"))) {
        return;
    }
    using blitz::Range;
    ArrayB2 a(n0 + 1, n1 + 1);
    for (int i = 0; i <= n0; i++) {
        for (int j = 0; j <= n1; j++) {
            a(i, j) = 100 * i + j + 0.5;
        }
    }
    ArrayB2 before = a.copy();
    std::string at;
    auto go2 = [&](ArrayB2 v) {
        VecF want = list<2>(v);
        VecI dims = {v.extent(0), v.extent(1)};
        H5Node f("t.h5", H5Access::WRITE);
        if (!read) {
            if (!throws([&] { f.write("d", v); })) {
                ArrayB1 y;
                f.read_1d("d", y);
                c.expect(same(list<1>(y), want), "a view that is accepted is written in its own order");
            }
        } else {
            auto fresh = values(v.size(), 0);
            f.write("d", fresh, dims);
            bool err = throws([&] { f.read("d", v); });
            c.expect(err || same(list<2>(v), fresh), "a view that is accepted is filled in its own order");
            int outside = 0;
            for (int i = 0; i <= n0; i++) {
                for (int j = 0; j <= n1; j++) {
                    outside += a(i, j) != before(i, j);
                }
            }
            c.expect(outside <= (err ? 0 : (int)v.size()), "nothing outside the view changes");
        }
    };
    auto go1 = [&](ArrayB1 v) {
        VecF want = list<1>(v);
        H5Node f("t.h5", H5Access::WRITE);
        if (!read) {
            if (!throws([&] { f.write("d", v); })) {
                ArrayB1 y;
                f.read_1d("d", y);
                c.expect(same(list<1>(y), want), "a view that is accepted is written in its own order");
            }
            if (!throws([&] { f.write("e", v, VecI{(int)v.size()}); })) {
                ArrayB1 y;
                f.read_1d("e", y);
                c.expect(same(list<1>(y), want), "a view that is accepted with a shape is written in its own order");
            }
        } else {
            auto fresh = values(v.size(), 0);
            f.write("d", fresh);
            for (int k = 0; k < 2; k++) {
                v        = -3.0;
                bool err = throws([&] { k ? f.read_1d("d", v) : f.read("d", v); });
                c.expect(err || same(list<1>(v), fresh), "a view that is accepted is filled in its own order");
                int outside = 0;
                for (int i = 0; i <= n0; i++) {
                    for (int j = 0; j <= n1; j++) {
                        outside += a(i, j) != before(i, j);
                    }
                }
                c.expect(outside <= (int)v.size(), "nothing outside the view changes");
            }
        }
    };
    Range all = Range::all();
    switch (view) {
    case 0:
        go2(a(Range(0, n0 - 1), Range(0, n1 - 1)));
        break;
    case 1:
        go2(a(Range(1, n0), all));
        break;
    case 2:
        go2(a.transpose(1, 0));
        break;
    case 3:
        go2(a(Range(n0, 0, -1), all));
        break;
    case 4:
        go2(a(all, Range(n1, 0, -1)));
        break;
    case 5:
        go1(a(1, all));
        break;
    case 6:
        go1(a(all, 1));
        break;
    case 7:
        go1(a(1, Range(n1, 0, -1)));
        break;
    }
    c.steps(1);
    c.state(fmt("%d %d %d %d", n0, n1, view, read));
}

// --- groups and links
static void groups(Ctx &c)
{
    int depth = 1 + c.choose(3), how = c.choose(2), link = c.choose(5), node = c.choose(2), reopen = c.choose(3);
    if (!c.leaf(fmt("%d levels made %s, link %d from the %s, reopened %d", depth, how ? "one by one" : "from the root", link, node ? "group" : "root", reopen))) {
        return;
    }
    std::string path;
    std::unique_ptr<H5Node> f(new H5Node("t.h5", H5Access::WRITE));
    std::vector<H5Node> chain = {*f};
    for (int d = 0; d < depth; d++) {
        std::string name = fmt("g%d", d);
        path += (d ? "/" : "") + name;
        chain.push_back(how ? chain.back().create_group(name) : f->create_group("/" + path));
        chain.back().write("x", VecF{d + 0.25});
    }
    c.expect(throws([&] { f->create_group(path); }), "a group cannot be made twice");
    c.expect(throws([&] { f->create_group("no/such"); }), "a group cannot be made below a missing one");
    c.expect(throws([&] { chain.back().write("x", VecF{9.0}); }), "data cannot be written twice");
    c.expect(throws([&] { (*f)["no"]; }), "a missing group is reported");
    // links
    H5Node from  = node ? chain.back() : chain[0];
    std::string full = "/" + path;
    bool err = false;
    switch (link) {
    case 0:
        err = throws([&] { from.create_link(full + "/x", "l"); });
        break;
    case 1:
        err = throws([&] { from.create_link(full + "/x", "l", H5Link::SOFT); });
        break;
    case 2:
        err = throws([&] { from.create_link(full, "l"); });
        break;
    case 3:
        err = throws([&] { from.create_link(full, "l", H5Link::SOFT); });
        break;
    case 4:
        err = throws([&] { from.create_link("no/such", "l"); });
        break;
    }
    c.expect(err == (link == 4), link == 4 ? "a link to a missing path is reported" : "the link is made");
    c.expect(link == 4 || throws([&] { from.create_link(full + "/x", "l"); }), "a link cannot be made twice");
    if (reopen) {
        chain.clear();
        from = H5Node("dummy.h5", H5Access::WRITE);
        f.reset();
        f.reset(new H5Node("t.h5", reopen == 1 ? H5Access::READ : H5Access::APPEND));
        from = node ? (*f)[path] : *f;
    }
    std::string p = "";
    for (int d = 0; d < depth; d++) {
        p += fmt("/g%d", d);
        VecF x, y;
        f->read(p + "/x", x);
        c.expect(x == VecF{d + 0.25}, "data of level " + p);
        auto g = (*f)[p];
        g.read("x", y);
        c.expect(y == x, "data of level " + p + " through its group");
        y.clear();
        g.read("/" + path + "/x", y);
        c.expect(y == VecF{depth - 1 + 0.25}, "absolute path from a group");
    }
    if (link < 4) {
        VecF x;
        if (link < 2) {
            from.read("l", x);
        } else {
            from["l"].read("x", x);
        }
        c.expect(x == VecF{depth - 1 + 0.25}, "data seen through the link");
    }
    VecF z;
    c.expect(throws([&] { f->read("no/such", z); }), "a missing path is reported");
    ArrayB2 z2;
    ArrayB1 z1;
    int zi = 0;
    c.expect(throws([&] { f->read("no", z2); }), "a missing path is reported by the array reader");
    c.expect(throws([&] { f->read_1d("no", z1); }), "a missing path is reported by the flat reader");
    c.expect(throws([&] { f->read("no", zi); }), "a missing path is reported by the number reader");
    c.expect(throws([&] { f->dimensions("no"); }), "a missing path has no shape");
    c.expect(throws([&] { f->read(path, z); }), "a group is not data");
    c.steps(1);
    c.state(fmt("%d %d %d %d %d", depth, how, link, node, reopen));
}

// --- how files are opened
static void opening(Ctx &c)
{
    int exists = c.choose(3); // missing, HDF5, something else
    int mode   = c.choose(3), what = c.choose(8), viastr = c.choose(2);
    if (!c.leaf(fmt("file %d, mode %d, operation %d", exists, mode, what))) {
        return;
    }
    unlink("t.h5");
    if (exists == 1) {
        H5Node f("t.h5", H5Access::WRITE);
        f.write("old", VecF{1, 2, 3});
        f.create_group("g");
    } else if (exists == 2) {
        ci::write_file("t.h5", "just text\n");
    }
    auto text = slurp("t.h5");
    H5Access a[] = {H5Access::READ, H5Access::WRITE, H5Access::APPEND};
    std::unique_ptr<H5Node> f;
    bool err  = throws([&] { viastr ? f.reset(new H5Node(std::string("t.h5"), a[mode])) : f.reset(new H5Node("t.h5", a[mode])); });
    bool want = mode == 1 || exists == 1;
    if (!c.expect(err == !want, want ? "the file opens" : "the file is refused") || err) {
        if (mode != 1) {
            struct stat st;
            c.expect(slurp("t.h5") == text && (stat("t.h5", &st) == 0) == (exists != 0), "a file that is refused is left alone");
        }
        return;
    }
    bool done = true;
    {
        H5Node n = mode != 1 && what % 2 ? (*f)["g"] : *f;
        ArrayB1 b1(2);
        b1 = 1.0;
        ArrayB2 b2(2, 2);
        b2 = 1.0;
        VecF v = {4, 5};
        done   = !throws([&] {
            switch (what) {
            case 0:
                n.write("new", v);
                break;
            case 1:
                n.write("new", b2);
                break;
            case 2:
                n.write("new", 7);
                break;
            case 3:
                n.write("new", std::string("text"));
                break;
            case 4:
                n.create_group("new");
                break;
            case 5:
                n.create_link("/", "new");
                break;
            case 6:
                n.write("new", b1, VecI{2});
                break;
            case 7:
                n.write("new", v.begin(), v.end(), VecI{1, 2});
                break;
            }
        });
    }
    c.expect(done == (mode != 0), mode ? "writing is possible" : "writing is refused");
    f.reset();
    if (mode == 0) {
        c.expect(slurp("t.h5") == text, "a file opened for reading is not modified");
    } else {
        H5Node r("t.h5", H5Access::READ);
        VecF x;
        bool gone = throws([&] { r.read("old", x); });
        c.expect(gone == (mode == 1), mode == 1 ? "writing starts afresh" : "appending keeps old data");
        c.expect(gone || x == (VecF{1, 2, 3}), "old data");
        if (what == 0 && mode != 0) {
            VecF y;
            r.read("new", y);
            c.expect(y == (VecF{4, 5}), "new data");
        }
        if (what == 2) {
            int i = 0;
            r.read("new", i);
            c.expect_int(i, 7, "new number");
        }
    }
    c.steps(1);
    c.state(fmt("%d %d %d", exists, mode, what));
}

// --- single numbers and text
static void numbers(Ctx &c)
{
    static const std::vector<long long> v = {0, 1, -1, 7, 255, 256, 65536, 2147483647, -2147483647 - 1LL, 4294967296LL, 9007199254740993LL};
    long long x = c.pick(v);
    int type    = c.choose(3), len = c.choose(4);
    if (!c.leaf(fmt("number %lld as type %d, text %d", x, type, len))) {
        return;
    }
    std::string s = len == 0 ? "" : len == 1 ? "a" : len == 2 ? "line 1\nline <2> \"quoted\"" : std::string(5000, 'x') + "end";
    {
        H5Node f("t.h5", H5Access::WRITE);
        if (type == 0) {
            f.write("n", (int)x);
        } else if (type == 1) {
            f.write("n", (uint64_t)x);
        } else {
            f.write("n", VecF{(double)x});
        }
        f.write("s", s);
    }
    H5Node f("t.h5", H5Access::READ);
    if (type == 0 || (x >= -2147483648LL && x <= 2147483647LL && !(type == 1 && x < 0))) {
        int i = 5;
        f.read("n", i);
        c.expect_int(i, (int)x, "number read back");
    }
    VecF d;
    f.read("n", d);
    if (c.expect_int(d.size(), 1, "one number")) {
        double want = type == 0 ? (double)(int)x : type == 1 ? (double)(uint64_t)x : (double)x;
        c.expect(d[0] == want, fmt("number read as floating point %.17g, expected %.17g", d[0], want));
    }
    H5::DataSet ds = f.get()->openDataSet("s");
    std::string t;
    ds.read(t, ds.getStrType());
    c.expect(t == s, "text read back");
    VecF z;
    c.expect(throws([&] { f.read("s", z); }), "text is not read as numbers");
    c.steps(1);
    c.state(fmt("%lld %d %d", x, type, len));
}

int main(int argc, char **argv)
{
    H5::Exception::dontPrint();
    return mc::run(argc, argv, "U02",
                   {{"arrays", arrays, 20, "every shape of one to four dimensions with extents up to 3 (thorough: 4) over five writers, all readers, right and wrong target shapes"},
                    {"mismatch", mismatch, 20, "data that is shorter or longer than the shape given with it"},
                    {"views", views, 20, "slices, transposed and reversed views of arrays, written and read into"},
                    {"groups", groups, 20, "nested groups, hard and soft links, missing paths"},
                    {"opening", opening, 20, "every way to open a file times every way to write"},
                    {"numbers", numbers, 20, "single integers over their range and text"}});
}
