// C04: random overload sets over a pool of real signatures; every call and lookup against the documented choice rule.
#include "wt.h"
using namespace reflect;
static int g_ran, g_runs;
struct Mk { std::function<void(Overloads&, int)> add; };
#define L(PARAMS, RET, EXPR) Mk{[](Overloads& o, int id) { o.add(Function("f", [id] PARAMS -> RET { g_ran = id; ++g_runs; return EXPR; })); }}
#define LV(PARAMS) Mk{[](Overloads& o, int id) { o.add(Function("f", [id] PARAMS { g_ran = id; ++g_runs; })); }}
static A3 ga; static B3 gb;
static Mk pool[] = {
    LV(()), LV((A3)), LV((A3&)), LV((const A3&)), LV((A3&&)), LV((Value)), LV((B3)), LV((B3&)), LV((const B3&)), LV((C3)), LV((int)), LV((int&)), LV((const int&)), LV((bool)), LV((double)),
    LV((A3, int)), LV((const A3&, int)), LV((A3&, int&)), LV((const B3&, const int&)), LV((Value, Value)), LV((A3, Value)), LV((const A3&, const A3&)), LV((A3, int, int)),
    L((A3), int, 7), L((const A3&), int, 8), L((A3&), int, 9), L((int), int, 3), L((const int&), int, 4), L((), int, 5), L((), A3&, ga), L((), const A3&, ga), L((), B3&, gb), L((int), Value, Value(3)), L((B3&), const A3&, ga),
    L((A3, int), int, 1), L((A3&, const int&), int, 2), L((const A3&, bool), int, 2),
};
struct Chosen { int id; std::string why; };
static int choose(const Overloads& o, const std::vector<const Function*>& fs, const Argument& ret, const ArgV& args, std::string& why)
{
    int part = -1, nparts = 0;
    std::ostringstream s; s << signature(ret, args) << " over";
    int r = -2;
    for (int i = 0; i < int(fs.size()); ++i) {
        int m = oracleMatch(*fs[i], ret, args); s << " " << signature(*fs[i]) << "=" << Match(m);
        if (m == 2 && r == -2) r = i;
        if (m == 1) { if (!nparts++) part = i; }
    }
    if (r == -2) r = nparts == 1 ? part : -1;
    why = s.str(); return r;
}
// with a dynamic value on one side the conversion itself may be refused when the call is made
static bool dynamic(const Argument& ret, const ArgV& args, const Function& f)
{
    if ((ret.type() == type<Value>()) != (f.returnType().type() == type<Value>())) return true;
    for (size_t i = 0; i < args.size(); ++i) if ((args[i].type() == type<Value>()) != (f.argument(i).type() == type<Value>())) return true;
    return false;
}
template<typename Ret, typename... A>
static void call(const Overloads& o, const std::vector<const Function*>& fs, A&&... a)
{
    std::string why; int want = choose(o, fs, Argument::make<Ret>(), reflectArguments(std::forward<A>(a)...), why);
    g_ran = -1; g_runs = 0;
    bool err = fails([&] { o.call<Ret>(std::forward<A>(a)...); });
    if (want == -1) CHECK_THAT(err && g_runs == 0, "call ", why, ": must be an error without a call, ran overload #", g_ran, ", error ", err);
    else if (err && dynamic(Argument::make<Ret>(), reflectArguments(std::forward<A>(a)...), *fs[want])) CHECK_THAT(g_runs == 0 || (g_runs == 1 && g_ran == want), "call ", why, ": ran #", g_ran);
    else CHECK_THAT(!err && g_runs == 1 && g_ran == want, "call ", why, ": must run overload #", want, ", ran #", g_ran, " (", g_runs, " runs), error ", err);
}
template<typename Fn>
static void lookup(const Overloads& o, const std::vector<const Function*>& fs)
{
    auto ret = reflectReturn<Fn>(); auto args = reflectArguments<Fn>();
    const Function* want = nullptr;
    for (auto f : fs) if (oracleMatch(*f, ret, args)) { want = f; break; }
    const Function* got = nullptr; fails([&] { got = &o.get<Fn>(); });
    CHECK_THAT(got == want, "get<", signature(ret, args), "> gives overload #", got ? got - fs[0] : -1, ", expected #", want ? want - fs[0] : -1);
    got = nullptr; fails([&] { got = &o.get(ret, args); });
    CHECK_THAT(got == want, "get(", signature(ret, args), ") gives overload #", got ? got - fs[0] : -1, ", expected #", want ? want - fs[0] : -1);
    CHECK_THAT(o.test<Fn>() == (want != nullptr), "test<", signature(ret, args), ">");
    CHECK_THAT(o.test(ret, args) == (want != nullptr), "test(", signature(ret, args), ")");
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 700 * (argc > 2 ? std::atoi(argv[2]) : 1);
    A3 a; const A3 ca; B3 b; const B3 cb; C3 c; int i = 1; const int ci = 2; bool t = true; double d = 1;
    Value va(a), vca(ca), vi(i);
    for (int r = 0; r < rounds; ++r) {
        Overloads o; int n = rng(7);
        for (int k = 0; k < n; ++k) { int before = o.size(); fails([&] { pool[rng(sizeof pool / sizeof *pool)].add(o, before); }); }
        std::vector<const Function*> fs; for (size_t k = 0; k < o.size(); ++k) fs.push_back(&o[k]);
        call<void>(o, fs); call<int>(o, fs); call<A3&>(o, fs); call<const A3&>(o, fs); call<Value>(o, fs);
        call<void>(o, fs, a); call<void>(o, fs, ca); call<void>(o, fs, A3()); call<void>(o, fs, b); call<void>(o, fs, cb); call<void>(o, fs, B3()); call<void>(o, fs, c);
        call<void>(o, fs, i); call<void>(o, fs, ci); call<void>(o, fs, 3); call<void>(o, fs, t); call<void>(o, fs, d); call<int>(o, fs, a); call<int>(o, fs, ca); call<int>(o, fs, i); call<int>(o, fs, b);
        call<void>(o, fs, va); call<void>(o, fs, vca); call<void>(o, fs, vi); call<Value>(o, fs, i); call<const A3&>(o, fs, b); call<void>(o, fs, std::move(a)); call<void>(o, fs, std::move(b));
        call<void>(o, fs, a, i); call<void>(o, fs, ca, ci); call<void>(o, fs, b, i); call<void>(o, fs, a, va); call<int>(o, fs, a, i); call<int>(o, fs, ca, t); call<void>(o, fs, i, a); call<void>(o, fs, a, i, i); call<void>(o, fs, va, vi); call<void>(o, fs, b, b);
        lookup<void()>(o, fs); lookup<int()>(o, fs); lookup<void(A3)>(o, fs); lookup<void(A3&)>(o, fs); lookup<void(const A3&)>(o, fs); lookup<void(B3&)>(o, fs); lookup<int(int)>(o, fs); lookup<int(A3)>(o, fs);
        lookup<void(A3, int)>(o, fs); lookup<A3&()>(o, fs); lookup<Value(int)>(o, fs); lookup<void(Value)>(o, fs); lookup<int(A3&, int)>(o, fs);
        // a single function refuses when its signature does not match
        for (size_t k = 0; k < fs.size(); ++k) {
            struct { const Function* f; int k; void on(const Argument& ret, const ArgV& v, const std::function<void()>& run) {
                g_ran = -1; g_runs = 0; bool err = fails(run); bool m = oracleMatch(*f, ret, v) != 0;
                if (m && err && dynamic(ret, v, *f)) return; CHECK_THAT(m ? !err && g_runs == 1 && g_ran == k : err && !g_runs, "Function ", signature(*f), " called as ", signature(ret, v), ": error ", err, ", runs ", g_runs); } } one = {fs[k], int(k)};
            one.on(Argument::make<void>(), ArgV{Argument::make<A3&>()}, [&] { fs[k]->call<void>(a); });
            one.on(Argument::make<void>(), ArgV{}, [&] { fs[k]->call<void>(); });
            one.on(Argument::make<int>(), ArgV{}, [&] { fs[k]->call<int>(); });
            one.on(Argument::make<void>(), ArgV{Argument::make<const A3&>()}, [&] { fs[k]->call<void>(ca); });
            one.on(Argument::make<void>(), ArgV{Argument::make<A3&>(), Argument::make<int&>()}, [&] { fs[k]->call<void>(a, i); });
            one.on(Argument::make<int>(), ArgV{Argument::make<int&>()}, [&] { fs[k]->call<int>(i); });
        }
    }
    done();
}
