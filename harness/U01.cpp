// U01: text in inputs is split, counted and grouped exactly as written.
#include "mc.hpp"
#include "util/error.hpp"
#include "util/file_scrubber.hpp"
#include "util/global_config.hpp"
#include "util/range.hpp"
#include "util/string_utils.hpp"

using mc::Ctx;
using mc::fmt;

static bool sp(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v';
}
static std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> out;
    std::string cur;
    for (char c : s) {
        if (sp(c)) {
            if (!cur.empty()) {
                out.push_back(cur);
            }
            cur.clear();
        } else {
            cur += c;
        }
    }
    if (!cur.empty()) {
        out.push_back(cur);
    }
    return out;
}
static bool dig(char c)
{
    return c >= '0' && c <= '9';
}
static bool ref_int(const std::string &w, long &v)
{
    size_t i = 0;
    bool neg = false;
    if (w[0] == '+' || w[0] == '-') {
        neg = w[0] == '-';
        i   = 1;
    }
    if (i == w.size()) {
        return false;
    }
    v = 0;
    for (; i < w.size(); i++) {
        if (!dig(w[i])) {
            return false;
        }
        v = v * 10 + (w[i] - '0');
        if (v > 4000000000l) {
            return false;
        }
    }
    v = neg ? -v : v;
    return v >= -2147483648l && v <= 2147483647l;
}
// [+-]? (digits [. digits*] | . digits) ([eE] [+-]? digits)?
static bool ref_real(const std::string &w, double &v)
{
    size_t i = 0, nd = 0;
    if (w[i] == '+' || w[i] == '-') {
        i++;
    }
    while (i < w.size() && dig(w[i])) {
        i++, nd++;
    }
    if (i < w.size() && w[i] == '.') {
        i++;
        while (i < w.size() && dig(w[i])) {
            i++, nd++;
        }
    }
    if (!nd) {
        return false;
    }
    if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) {
        i++;
        if (i < w.size() && (w[i] == '+' || w[i] == '-')) {
            i++;
        }
        size_t ne = 0;
        while (i < w.size() && dig(w[i])) {
            i++, ne++;
        }
        if (!ne) {
            return false;
        }
    }
    if (i != w.size()) {
        return false;
    }
    v = strtod(w.c_str(), nullptr);
    return std::isfinite(v);
}

static std::string show(const std::string &s)
{
    return mc::jstr(s);
}

// all strings over alphabet of length exactly chosen
static std::string all_strings(Ctx &c, const std::string &alpha, int maxlen)
{
    int len = c.choose(maxlen + 1);
    std::string s;
    for (int i = 0; i < len; i++) {
        s += alpha[c.choose((int)alpha.size())];
    }
    return s;
}

static std::string vstr(const std::vector<int> &v)
{
    std::string s = "[";
    for (auto x : v) {
        s += std::to_string(x) + ",";
    }
    return s + "]";
}

static void check_ints(Ctx &c, const std::string &s)
{
    bool good = true;
    std::vector<int> ref;
    for (auto &w : words(s)) {
        long v = 0;
        if (!ref_int(w, v)) {
            good = false;
            break;
        }
        ref.push_back((int)v);
    }
    bool threw = false;
    std::vector<int> got;
    try {
        got = explode_string<int>(s);
    } catch (mocc::Exception &e) {
        threw = true;
    }
    if (good) {
        c.expect(!threw, "well-formed list of integers was rejected");
        if (!threw) {
            c.expect(got == ref, "integers read " + vstr(got) + " instead of " + vstr(ref));
        }
    } else {
        c.expect(threw, "malformed list of integers was accepted as " + vstr(got));
    }
    c.state(vstr(got) + (threw ? "!" : ""));
}

static void ints(Ctx &c)
{
    std::string s = all_strings(c, "17 \t-+x.", c.thorough() ? 7 : 6);
    if (!c.leaf(show(s))) {
        return;
    }
    check_ints(c, s);
}

static void int_limits(Ctx &c)
{
    static const std::vector<std::string> w = {"0", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "007", "1e3", "0x1f", "1,2", "A"};
    static const std::vector<std::string> sepl = {"", " ", "\n", "\r\n\t", "  "};
    int n         = c.choose(c.thorough() ? 4 : 3);
    std::string s = c.pick(sepl);
    for (int i = 0; i < n; i++) {
        s += c.pick(w);
        s += c.pick(sepl);
    }
    if (!c.leaf(show(s))) {
        return;
    }
    check_ints(c, s);
}

static void reals(Ctx &c)
{
    std::string s = all_strings(c, "10 .eE-+\n", c.thorough() ? 7 : 6);
    if (!c.leaf(show(s))) {
        return;
    }
    bool good = true;
    std::vector<double> ref;
    for (auto &w : words(s)) {
        double v = 0;
        if (!ref_real(w, v)) {
            good = false;
            break;
        }
        ref.push_back(v);
    }
    bool threw = false;
    std::vector<mocc::real_t> got;
    try {
        got = explode_string<mocc::real_t>(s);
    } catch (mocc::Exception &e) {
        threw = true;
    }
    std::string gs;
    for (auto v : got) {
        gs += fmt("%.17g,", v);
    }
    if (good) {
        c.expect(!threw, "well-formed list of reals was rejected");
        if (!threw) {
            bool same = got.size() == ref.size();
            for (size_t i = 0; same && i < got.size(); i++) {
                same = got[i] == ref[i];
            }
            c.expect(same, "reals read as [" + gs + "]");
        }
    } else {
        c.expect(threw, "malformed list of reals was accepted as [" + gs + "]");
    }
    c.state(gs + (threw ? "!" : ""));
}

static void braces(Ctx &c)
{
    // Two alphabets: a minimal one (long strings), and one with bad characters
    int kind      = c.choose(2);
    std::string s = kind == 0 ? all_strings(c, "12 {}", c.thorough() ? 9 : 8) : all_strings(c, "1 {}-a\n", c.thorough() ? 7 : 6);
    if (!c.leaf(show(s))) {
        return;
    }
    // reference
    bool good = true;
    std::vector<std::vector<int>> ref;
    int depth = 0;
    std::string cur;
    auto flush = [&]() {
        if (!cur.empty()) {
            long v;
            if (!ref_int(cur, v)) {
                good = false;
            } else if (depth) {
                ref.back().push_back((int)v);
            } else {
                ref.push_back({(int)v});
            }
            cur.clear();
        }
    };
    for (char ch : s) {
        if (ch == '{') {
            flush();
            if (depth) {
                good = false;
                break;
            }
            depth = 1;
            ref.push_back({});
        } else if (ch == '}') {
            flush();
            if (!depth || ref.back().empty()) {
                good = false;
                break;
            }
            depth = 0;
        } else if (sp(ch)) {
            flush();
        } else if (dig(ch)) {
            cur += ch;
        } else {
            good = false;
            break;
        }
    }
    if (good) {
        flush();
        good = good && depth == 0;
    }
    bool threw = false;
    std::vector<std::vector<int>> got;
    try {
        got = explode_braces(s);
    } catch (mocc::Exception &e) {
        threw = true;
    }
    std::string gs;
    for (auto &v : got) {
        gs += vstr(v);
    }
    if (good) {
        c.expect(!threw, "well-formed groups were rejected");
        if (!threw) {
            c.expect(got == ref, "groups read as " + gs);
        }
    } else {
        c.expect(threw, "malformed groups were accepted as " + gs);
    }
    c.state(gs + (threw ? "!" : ""));
}

static void trims(Ctx &c)
{
    std::string s = all_strings(c, "aZ \t\n\r", c.thorough() ? 7 : 6);
    if (!c.leaf(show(s))) {
        return;
    }
    size_t a = 0, b = s.size();
    while (a < b && sp(s[a])) {
        a++;
    }
    size_t b0 = b;
    while (b > a && sp(s[b - 1])) {
        b--;
    }
    std::string core = s.substr(a, b - a), low = core;
    size_t br        = s.size();
    while (br > 0 && sp(s[br - 1])) {
        br--;
    }
    for (auto &ch : low) {
        if (ch >= 'A' && ch <= 'Z') {
            ch = ch - 'A' + 'a';
        }
    }
    c.expect(ltrim_copy(s) == s.substr(a, b0 - a), "left trim gives " + show(ltrim_copy(s)));
    c.expect(rtrim_copy(s) == s.substr(0, br), "right trim gives " + show(rtrim_copy(s)));
    c.expect(trim_copy(s) == core, "trim gives " + show(trim_copy(s)));
    std::string t = s, u = s, v = s, w = s;
    ltrim(t);
    rtrim(u);
    trim(v);
    sanitize(w);
    c.expect(t == s.substr(a, b0 - a) && u == s.substr(0, br) && v == core, "in-place trim differs from the copying one");
    c.expect(w == low, "sanitised to " + show(w));
    c.state(w + "|" + t + "|" + u);
}

static void ranges(Ctx &c)
{
    int n = c.choose(c.thorough() ? 15 : 14);
    std::vector<bool> v(n);
    std::string d;
    for (int i = 0; i < n; i++) {
        v[i] = c.choose(2);
        d += v[i] ? '1' : '0';
    }
    if (!c.leaf("flags " + d)) {
        return;
    }
    std::string r = print_range(v);
    // exact text: maximal runs, "a-b" or "a", joined by ", "
    std::string ref;
    for (int i = 0; i < n; i++) {
        if (v[i]) {
            int j = i;
            while (j + 1 < n && v[j + 1]) {
                j++;
            }
            ref += (ref.empty() ? "" : ", ") + (j == i ? std::to_string(i) : fmt("%d-%d", i, j));
            i = j;
        }
    }
    // Judge the described set, not the punctuation.
    std::vector<bool> back(n, false);
    bool ok = true;
    std::string t;
    for (char ch : r + ",") {
        if (ch == ' ') {
            continue;
        }
        if (ch == ',') {
            if (t.empty()) {
                ok = ok && r.empty();
                continue;
            }
            int a, b;
            char extra;
            int k = sscanf(t.c_str(), "%d-%d%c", &a, &b, &extra);
            if (k == 1 && t.find('-') == std::string::npos) {
                b = a;
                k = 2;
            }
            if (k != 2 || a < 0 || b >= n || a > b) {
                ok = false;
            } else {
                for (int i = a; i <= b; i++) {
                    ok      = ok && !back[i];
                    back[i] = true;
                }
            }
            t.clear();
        } else {
            t += ch;
        }
    }
    c.expect(ok && back == v, "printed as \"" + r + "\", expected the set \"" + ref + "\"");
    c.state(r);
}

static void int_ranges(Ctx &c)
{
    int a = c.choose(9) - 4, b = c.choose(9) - 4;
    if (!c.leaf(fmt("%d..%d", a, b))) {
        return;
    }
    auto r = Range(a, b);
    std::vector<int> ref;
    for (int i = a; i < b; i++) {
        ref.push_back(i);
    }
    c.expect(r == ref, "range is " + vstr(r));
    if (a == 0) {
        c.expect(Range(b) == ref, "one-sided range differs");
    }
    c.state(vstr(r));
}

static void scrub(Ctx &c)
{
    int flagkind     = c.choose(2);
    std::string flag = flagkind ? "//" : "!";
    std::string s    = flagkind ? all_strings(c, "a /\n", c.thorough() ? 9 : 8) : all_strings(c, "ab !\n", c.thorough() ? 8 : 7);
    if (!c.leaf(flag + " " + show(s))) {
        return;
    }
    {
        std::ofstream f("scrub.txt", std::ios::binary | std::ios::trunc);
        f << s;
    }
    std::vector<std::string> ref;
    std::string line;
    std::stringstream ss(s);
    while (std::getline(ss, line)) {
        line     = line.substr(0, line.find(flag));
        size_t a = 0, b = line.size();
        while (a < b && sp(line[a])) {
            a++;
        }
        while (b > a && sp(line[b - 1])) {
            b--;
        }
        if (b > a) {
            ref.push_back(line.substr(a, b - a));
        }
    }
    mocc::FileScrubber fs("scrub.txt", flag.c_str());
    std::string all;
    for (size_t i = 0; i <= ref.size() + 1; i++) {
        std::string g = fs.getline();
        std::string w = i < ref.size() ? ref[i] : "";
        c.expect(g == w, fmt("line %zu is ", i) + show(g) + " instead of " + show(w));
        all += g + "\n";
    }
    c.expect(fs.eof(), "end of file not reported after the last line");
    c.state(all);
}

static void missing(Ctx &c)
{
    if (!c.leaf("file that does not exist")) {
        return;
    }
    bool threw = false;
    try {
        mocc::FileScrubber fs("no_such_file_anywhere", "!");
    } catch (mocc::Exception &e) {
        threw = true;
    }
    c.expect(threw, "no error for a missing file");
    c.state(1);
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "U01",
                   {{"integers", ints, 3, "all strings up to length 6 over {1,7,space,tab,-,+,x,.}"},
                    {"integer-limits", int_limits, 3, "up to 2 (thorough: 3) words from a boundary word list with all separators"},
                    {"reals", reals, 3, "all strings up to length 6 over {1,0,space,.,e,E,-,+,newline}"},
                    {"braces", braces, 3, "all strings up to length 8 over {1,2,space,{,}} and 6 over {1,space,{,},-,a,newline}"},
                    {"trim", trims, 10, "all strings up to length 6 over {a,Z,space,tab,newline,return}"},
                    {"flag-ranges", ranges, 10, "all boolean vectors up to length 13"},
                    {"int-ranges", int_ranges, 10, "all ranges with ends in -4..4"},
                    {"comment-stripping", scrub, 10, "all files up to 7-8 characters for two comment markers"},
                    {"missing-file", missing, 10, "a missing file"}});
}
