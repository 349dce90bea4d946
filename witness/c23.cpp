// C23: callables of many shapes record how they are run; called through Function::call and the generic operator.
#include "wt.h"
using namespace reflect;
static std::vector<std::string> trace;
template<typename... A> static void note(const A&... a) { std::ostringstream s; put(s, a...); trace.push_back(s.str()); }
struct Tr { int v; static int copies; Tr(int v = 0) : v(v) {} Tr(const Tr& o) : v(o.v) { ++copies; } Tr(Tr&& o) : v(o.v) { o.v = -1; } Tr& operator=(const Tr&) = default; Tr& operator=(Tr&&) = default;
    int sub(int a, int b) const { note("sub ", v, " ", a, " ", b); return v + 10 * a + 100 * b; }
    void set(int a, Tr& o) { note("set ", v, " ", a, " ", &o); v = a; o.v = a + 1; }
    Tr& pick(Tr& a, Tr& b) { note("pick ", &a, " ", &b); return b; }
    const Tr& self() const { note("self ", this); return *this; }
    int take(Tr a, Tr&& b) { note("take ", a.v, " ", b.v); Tr c(std::move(b)); return a.v * 1000 + c.v; }
};
int Tr::copies = 0;
R3(Tr) void reflect::Reflect<Tr>::reflect(Type* t) { plumb<Tr>(t); }
static int gsub(int a, int b) { note("gsub ", a, " ", b); return a - b; }
static void gset(Tr& a, const Tr& b, int i) { note("gset ", &a, " ", &b, " ", i); a.v = b.v + i; }
static Tr gmake(int a, int b, int c) { note("gmake ", a, b, c); return Tr(a * 100 + b * 10 + c); }
struct Acc { int n; Acc() : n(0) {} int operator()(int a, int b) { ++n; note("acc ", n, " ", a, " ", b); return n * 10000 + a * 100 + b; } };
struct Ac0 { int n = 0; int operator()() { ++n; note("s0 ", n); return n; } }; struct Ac1 { int n = 0; int operator()(Tr& t) { ++n; note("s1 ", n, " ", &t); return n; } }; struct Ac3 { int n = 0; int operator()(int a, int b, int c) { ++n; note("s3 ", n, " ", a, " ", b, " ", c); return n; } };
struct Ac5 { int n = 0; int& operator()(int a, int b, int c, Tr& d, Tr e) { ++n; note("s5 ", n, " ", a, " ", b, " ", c, " ", &d, " ", e.v); return n; } };
struct Virt { virtual int f(int a, int b) { note("base"); return a + b; } virtual ~Virt() {} }; struct VirtD : Virt { int f(int a, int b) { note("derived ", a, " ", b); return a * b; } };
R3(Virt) void reflect::Reflect<Virt>::reflect(Type*) {} R3(VirtD) void reflect::Reflect<VirtD>::reflect(Type* t) { t->parent(type<Virt>()); }
template<typename T> static std::string str(const T& t) { std::ostringstream s; s << t; return s.str(); }
#define RUNS(...) do { std::ostringstream w_; put(w_, __VA_ARGS__); CHECK_THAT(trace.size() == 1, "the callable ran ", trace.size(), " times"); CHECK_THAT(trace[0] == w_.str(), "the callable ran as `", trace[0], "`, expected `", w_.str(), "`"); trace.clear(); } while (0)
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 300 * (argc > 2 ? std::atoi(argv[2]) : 1);
    for (int r = 0; r < rounds; ++r) {
        int a = rng(90) + 1, b = rng(90) + 1, c = rng(90) + 1; Tr x(a), y(b), z(c);
        { Function f("gsub", gsub); int got = f.call<int>(a, b); RUNS("gsub ", a, " ", b); CHECK_THAT(got == a - b, "gsub gives ", got);
          Value va(a), vb(b); Value w = f.call<Value>(va, vb); RUNS("gsub ", a, " ", b); CHECK_THAT(w.type() == type<int>() && w.get<int>() == a - b && w.refType() == RefType::LValue, "value result of gsub is ", w.get<int>());
          f.call<void>(va, b); RUNS("gsub ", a, " ", b); int m = f.call<int>(Value(a), vb); RUNS("gsub ", a, " ", b); CHECK_THAT(m == a - b, "gsub gives ", m); }
        { Function f("gset", gset); f.call<void>(x, y, c); RUNS("gset ", &x, " ", &y, " ", c); CHECK_THAT(x.v == b + c, "gset stores ", x.v); x.v = a;
          Value v(x), w(y); Value res = f.call<Value>(v, w, c); RUNS("gset ", &x, " ", &y, " ", c); CHECK_THAT(res.isVoid(), "a void function yields a void value"); x.v = a; }
        { Function f("gmake", gmake); Tr t = f.call<Tr>(a % 10, b % 10, c % 10); RUNS("gmake ", a % 10, b % 10, c % 10); CHECK_THAT(t.v == (a % 10) * 100 + (b % 10) * 10 + c % 10, "gmake gives ", t.v);
          Value v = f.call<Value>(1, 2, 3); RUNS("gmake ", 1, 2, 3); CHECK_THAT(v.type() == type<Tr>() && v.get<Tr>().v == 123, "gmake gives ", v.get<Tr>().v); }
        { Function f("sub", &Tr::sub); int got = f.call<int>(x, b, c); RUNS("sub ", a, " ", b, " ", c); CHECK_THAT(got == a + 10 * b + 100 * c, "sub gives ", got); const Tr& cx = x; got = f.call<int>(cx, c, b); RUNS("sub ", a, " ", c, " ", b);
          Value vx(x), vb(b); got = f.call<int>(vx, vb, c); RUNS("sub ", a, " ", b, " ", c); }
        { Function f("set", &Tr::set); f.call<void>(x, c, y); RUNS("set ", a, " ", c, " ", &y); CHECK_THAT(x.v == c && y.v == c + 1, "set on ", x.v, " ", y.v); x.v = a; y.v = b; }
        { Function f("pick", &Tr::pick); Tr& got = f.call<Tr&>(x, y, z); RUNS("pick ", &y, " ", &z); CHECK_THAT(&got == &z, "pick gives another object"); Value v = f.call<Value>(x, y, z); RUNS("pick ", &y, " ", &z);
          CHECK_THAT(v.refType() == RefType::LValue && v.value() == &z && !v.isStored(), "the reference result is not wrapped as a reference"); }
        { Function f("self", &Tr::self); const Tr& got = f.call<const Tr&>(x); RUNS("self ", &x); CHECK_THAT(&got == &x, "self"); Value v = f.call<Value>(x); RUNS("self ", &x); CHECK_THAT(v.value() == &x && v.isConst(), "const reference result"); }
        { Function f("take", &Tr::take); Tr m(b); int got = f.call<int>(x, y, std::move(m)); RUNS("take ", b, " ", b); CHECK_THAT(got == b * 1000 + b, "take gives ", got); }
        { Acc acc; Function f("acc", acc); for (int k = 1; k < 5; ++k) { int got = f.call<int>(a, b); RUNS("acc ", k, " ", a, " ", b); CHECK_THAT(got == k * 10000 + a * 100 + b, "acc gives ", got); } CHECK_THAT(acc.n == 0, "the wrapped functor is a copy"); }
        { Ac0 q; Function f("s0", q); for (int k = 1; k < 4; ++k) { int got = f.call<int>(); RUNS("s0 ", k); CHECK_THAT(got == k, "stateful functor of 0 parameters: call ", k, " gives ", got); } }
        { Ac1 q; Function f("s1", q); for (int k = 1; k < 4; ++k) { int got = f.call<int>(x); RUNS("s1 ", k, " ", &x); CHECK_THAT(got == k, "stateful functor of 1 parameter: call ", k, " gives ", got); } }
        { Ac3 q; Function f("s3", q); for (int k = 1; k < 4; ++k) { int got = f.call<int>(a, b, c); RUNS("s3 ", k, " ", a, " ", b, " ", c); CHECK_THAT(got == k, "stateful functor of 3 parameters: call ", k, " gives ", got); } }
        { Ac5 q; Function f("s5", q); for (int k = 1; k < 4; ++k) { int& got = f.call<int&>(a, b, c, x, y); RUNS("s5 ", k, " ", a, " ", b, " ", c, " ", &x, " ", y.v); CHECK_THAT(&got == &q.n || got == k, "stateful functor of 5 parameters: call ", k, " gives ", got); } }
        { static char ch = 'c'; static const double dd = 2.5; static bool bb = true; Function f("cc", [](int) -> const char& { note("cc"); return ch; }); Value v = f.call<Value>(1); RUNS("cc"); CHECK_THAT(v.value() == &ch && v.isConst() && !v.isStored(), "a const char& result is not wrapped as a reference");
          Function g("dd", [] () -> const double& { note("dd"); return dd; }); Value w = g.call<Value>(); RUNS("dd"); CHECK_THAT(w.value() == &dd, "const double& result"); Function h("bb", [] () -> bool& { note("bb"); return bb; }); Value u = h.call<Value>(); RUNS("bb"); CHECK_THAT(u.value() == &bb && !u.isConst(), "bool& result"); }
        { int cap = a; Function f("lam", [&cap](int i, int& o) -> int& { note("lam ", i, " ", &o); cap = i; return o; }); int& got = f.call<int&>(b, c); RUNS("lam ", b, " ", &c); CHECK_THAT(&got == &c && cap == b, "lambda"); }
        { Function f("val", [](Value p, Value q) { note("val ", p.get<int>(), " ", q.get<int>()); return p; }); Value v = f.call<Value>(a, b); RUNS("val ", a, " ", b); CHECK_THAT(v.get<int>() == a, "val gives ", v.get<int>()); int i = f.call<int>(b, a); RUNS("val ", b, " ", a); CHECK_THAT(i == b, "val gives ", i); }
        { Function f("none", [] { note("none"); }); f.call<void>(); RUNS("none"); Value v = f.call<Value>(); RUNS("none"); CHECK_THAT(v.isVoid(), "void"); }
        { Function f("five", [](int p, int q, int s, int t, int u) { note(p, ",", q, ",", s, ",", t, ",", u); return p; }); f.call<int>(a, b, c, a + 1, b + 1); RUNS(a, ",", b, ",", c, ",", a + 1, ",", b + 1); }
        { VirtD d; Virt& v = d; Function f("f", &Virt::f); int got = f.call<int>(v, a, b); RUNS("derived ", a, " ", b); CHECK_THAT(got == a * b, "virtual gives ", got); got = f.call<int>(d, b, a); RUNS("derived ", b, " ", a); }
        { auto p = makeValueFunctionSafe(gsub); Value v = (*p)(Value(a), Value(b)); RUNS("gsub ", a, " ", b); CHECK_THAT(v.get<int>() == a - b, "generic call gives ", v.get<int>());
          auto q = makeValueFunctionSafe([](Tr& p, Tr& q) { note(&p, " ", &q); }); Value w = (*q)(Value(x), Value(y)); RUNS(&x, " ", &y); CHECK_THAT(w.isVoid(), "void"); }
        { Function f("cp", [](Tr p, const Tr& q, const Tr& s) { note(p.v, q.v, s.v); }); Tr::copies = 0; f.call<void>(x, y, z); RUNS(x.v, y.v, z.v); CHECK_THAT(Tr::copies >= 1 && Tr::copies <= 3, "copies ", Tr::copies); }
        { C3 k(a); Function f("conv", [](A3 p, int q) { note(p.v, " ", q); return p.v; }); int got = f.call<int>(k, b); RUNS(a, " ", b); CHECK_THAT(got == a, "converted"); }
    }
    done();
}
