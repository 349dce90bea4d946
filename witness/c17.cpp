// Bounded validation of C17: integers are printed as std::to_string spells them and read back; random spellings of numbers are classified as an independent lexer does; floats are read back as what they were printed from.
#include "wl.h"
using namespace reflect;
using namespace reflect::json;

static void integer(int64_t v)
{
    std::ostringstream o; Writer w(o); formatInt(w, v); CHECK_THAT(!w.error() && o.str() == std::to_string(v), v, " is printed as <", hex(o.str()), "> ", w.error().what());
    for (const char* end : {"", " ", "]", "\n1"}) {
        std::istringstream in(o.str() + end); Reader r(in); Token t = r.peekToken(); CHECK_THAT(t.type() == Token::Int, v, " followed by <", hex(end), "> isn't read as an integer"); int64_t x = parseInt(r); CHECK_THAT(x == v && !r.error(), v, " followed by <", hex(end), "> is read as ", x, " ", r.error().what());
        std::istringstream in2(o.str() + end); Reader q(in2); double d = parseFloat(q); CHECK_THAT(d == double(v) && !q.error(), v, " is read as the float ", d, " ", q.error().what());
    }
}
static void values(Rng& r)
{
    std::map<std::string, std::vector<int64_t> > m, n; for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) m[std::string(1, 'a' + k)].push_back(int64_t(r.e()) >> r(64));
    std::ostringstream o; json::Error e = print(o, m); CHECK_THAT(!e, "printing: ", e.what()); std::string s = o.str(); e = parse(s, n); CHECK_THAT(!e && m == n, "<", hex(s), "> isn't read back: ", e.what());
    int64_t a = int64_t(r.e()) >> r(64), b = a ^ 1; std::ostringstream p; e = print(p, a); CHECK_THAT(!e, "printing: ", e.what()); e = parse(p.str(), b); CHECK_THAT(!e && a == b, a, " is printed as <", hex(p.str()), "> and read as ", b, " ", e.what());
}
static void real(double v, bool direct)
{
    std::ostringstream o; json::Error e; if (direct) { Writer w(o); formatFloat(w, v); e = w.error(); } else e = print(o, v);
    CHECK_THAT(!e, v, " isn't printed: ", e.what()); double x = 0.5; std::string s = o.str(); e = parse(s, x); CHECK_THAT(!e, v, " is printed as <", hex(s), "> which isn't read: ", e.what());
    CHECK_THAT(std::fabs(x - v) <= std::fabs(v) * 1e-11 + 1e-320, v, " is printed as <", hex(s), "> and read as ", x); CHECK_THAT(std::signbit(x) == std::signbit(v) || x == 0, v, " loses its sign");
}
static void spelling(Rng& r)
{
    std::string s = genNumber(r) + pick<std::string>(r, {"", " ", ",", "]", "}", ":", "\t", "x", "-", "+", ".", "e", "0", "null", "//"}); Lex l(s, 0); Tok t = l.next(); std::istringstream in(s); Reader q(in, Reader::None); Token x = q.nextToken(); std::string kind = KINDS[x.type()];
    CHECK_THAT(t.bad == bool(q.error()), "<", hex(s), ">: ", t.bad ? "no error" : q.error().what());
    if (t.bad) { int64_t v = 77; double d = 77; json::Error e = parse(s, v); CHECK_THAT(e, "<", hex(s), "> is read as the integer ", v); e = parse(s, d); CHECK_THAT(e, "<", hex(s), "> is read as ", d); return; }
    CHECK_THAT(kind == t.kind, "<", hex(s), "> is a ", kind, " instead of a ", t.kind);
    if (t.kind == "int") { int64_t v = 77; json::Error e = parse(s, v); CHECK_THAT(!e && v == std::strtoll(t.text.c_str(), nullptr, 10) && x.asInt() == v, "<", hex(s), "> is read as ", v, " ", e.what()); }
    if (t.kind == "float") { int64_t v = 77; json::Error e = parse(s, v); CHECK_THAT(e, "<", hex(s), ">, a float, is read as the integer ", v); }
    if (t.kind != "int" && t.kind != "float") return;
    double d = 77; json::Error e = parse(s, d); CHECK_THAT(!e && d == std::strtod(t.text.c_str(), nullptr), "<", hex(s), "> is read as the float ", d, " ", e.what());
}
int main(int, char** argv)
{
    Rng rng(std::atol(argv[1])); size_t N = 35000 * std::atol(argv[2]); int64_t big = INT64_MAX, small = INT64_MIN;
    for (int i = -70; i < 70; ++i) { integer(i); if (i >= 0) { integer(big - i); integer(small + i); } if (i > 0 && i < 63) for (int d = -2; d < 3; ++d) { integer((int64_t(1) << i) + d); integer(-(int64_t(1) << i) + d); } }
    for (int64_t p = 1, i = 0; i < 19; ++i, p = i < 19 ? p * 10 : p) for (int d = -2; d < 3; ++d) { integer(p + d); integer(-p + d); }
    for (double v : {0.0, -0.0, 1.0, -1.0, 0.1, 1e22, 1e15, 123456789012.0, 1234567890123.0, 1e100, -1e308, 1.7976931348e308, 2.2250738585072014e-308, 5e-324, 1e-5, 1e-4, 100000.0, 999999999999.5}) { real(v, true); real(v, false); }
    for (size_t k = 0; k < N; ++k) {
        integer(int64_t(rng.e()) >> rng(64)); if (k % 8 == 0) values(rng);
        uint64_t bits = rng.e(); double v; std::memcpy(&v, &bits, 8); if (std::isfinite(v) && std::fabs(v) < 1.797e308) real(v, rng(2)); real(double(int64_t(rng.e()) >> rng(64)) / double(1 + rng(1000)), rng(2));
        for (int j = 0; j < 4; ++j) spelling(rng);
    }
    done();
}
