// C03: signatures of 0..4 random parameters; a function's declared signature is taken from real lambdas, the requested one is arbitrary.
#include "w.h"
#include "types/primitives.h"
struct A3 { int v; }; struct B3 : A3 {}; struct C3 {};
#define R3(T) namespace reflect { template<> struct Reflect<T> { static std::string id() { return #T; } static void loader() {} static void reflect(Type*); }; template<> struct Loader<T> { Loader() { Registry::add<T>(); } }; static Loader<T> ld##T; }
R3(A3) R3(B3) R3(C3)
void reflect::Reflect<A3>::reflect(Type*) {}
void reflect::Reflect<B3>::reflect(Type* t) { t->parent(type<A3>()); }
void reflect::Reflect<C3>::reflect(Type* t) { t->addFunction("operator A3()", [](C3&) { return A3(); }); }
using namespace reflect;
static A3 ga; static B3 gb; static C3 gc; static Value gv;
static int weakest(int a, int b) { return a < b ? a : b; }
typedef std::vector<Argument> V;
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int mult = argc > 2 ? std::atoi(argv[2]) : 1;
    std::vector<Function> fs;
#define F(...) fs.emplace_back("f", __VA_ARGS__)
    F([] {}); F([](A3) {}); F([](A3&) {}); F([](const A3&) {}); F([](A3&&) {}); F([](Value) {}); F([](B3) {}); F([](const B3&) {});
    F([](A3, B3&) {}); F([](const A3&, Value) {}); F([](A3&&, A3, const B3&) {}); F([](A3, A3, A3) {}); F([](A3&, A3&, A3&, A3&) {}); F([](int, A3, int, B3) {});
    F([](int) { return 0; }); F([](int) -> Value { return Value(); }); F([]() -> A3& { return ga; }); F([]() -> const A3& { return ga; }); F([]() -> A3 { return ga; });
    F([]() -> B3& { return gb; }); F([]() -> B3 { return gb; }); F([]() -> const B3& { return gb; }); F([]() -> A3&& { return std::move(ga); }); F([]() -> C3 { return gc; });
    F([]() -> C3& { return gc; }); F([](C3) { return 1; }); F([](Value, Value) -> Value& { return gv; }); F([](int, int) -> bool { return true; });
    const Type* ts[] = {type<A3>(), type<B3>(), type<C3>(), type<int>(), type<Value>(), type<void>(), type<bool>()};
    const RefType R[] = {RefType::Copy, RefType::LValue, RefType::RValue};
    std::vector<Argument> all;
    for (auto t : ts) for (auto r : R) for (int c = 0; c < 2; ++c) all.push_back(Argument(t, r, c));
    auto check = [&](const Function& f, const Argument& ret, const std::vector<Argument>& args) {
        int want = 2;
        if (args.size() != f.arguments()) want = 0;
        else for (size_t i = 0; i < args.size(); ++i) want = weakest(want, int(args[i].isConvertibleTo(f.argument(i))));
        const Argument& have = f.returnType();
        bool ok;
        if (ret.type() == type<void>()) ok = true;
        else if (have.type() == type<void>()) ok = ret.type() == type<Value>() && ret.refType() != RefType::LValue;
        else ok = have.isConvertibleTo(ret) != Match::None && !(have.refType() != RefType::LValue && ret.isConst() && ret.refType() == RefType::LValue);
        if (!ok) want = 0;
        Match got = f.test(ret, args);
        CHECK_THAT(int(got) == want, "function ", signature(f), " against requested ", signature(ret, args), " gives ", got, ", expected ", Match(want));
    };
    for (auto& f : fs) for (auto& ret : all) {
        std::vector<Argument> exact; for (size_t i = 0; i < f.arguments(); ++i) exact.push_back(f.argument(i));
        check(f, ret, exact);
        for (size_t i = 0; i < exact.size(); ++i) for (auto& a : all) { auto v = exact; v[i] = a; if (rng(4) == 0) check(f, ret, v); }
        auto v = exact; v.push_back(all[rng(all.size())]); check(f, ret, v);
        if (!exact.empty()) { v = exact; v.pop_back(); check(f, ret, v); }
    }
    for (int i = 0; i < 30000 * mult; ++i) {
        auto& f = fs[rng(fs.size())]; std::vector<Argument> v; size_t n = rng(3) ? f.arguments() : rng(5);
        for (size_t k = 0; k < n; ++k) v.push_back(rng(2) && k < f.arguments() ? f.argument(k) : all[rng(all.size())]);
        check(f, all[rng(all.size())], v);
    }
    for (auto& f : fs) for (auto& g : fs) {
        std::vector<Argument> v; for (size_t i = 0; i < g.arguments(); ++i) v.push_back(g.argument(i));
        CHECK_THAT(f.test(g) == f.test(g.returnType(), v), signature(f), " against function ", signature(g));
    }
    A3 a; const A3 ca = a; B3 b; int i = 1;
    for (auto& f : fs) {
        CHECK_THAT((f.test<void(A3, B3&)>() == f.test(Argument::make<void>(), V{Argument::make<A3>(), Argument::make<B3&>()})), signature(f));
        CHECK_THAT((f.testParams<int>(i) == f.test(Argument::make<int>(), V{Argument::make<int&>()})), signature(f));
        CHECK_THAT((f.testParams<void>(a, b) == f.test(Argument::make<void>(), V{Argument::make<A3&>(), Argument::make<B3&>()})), signature(f));
        CHECK_THAT((f.testParams<void>(ca) == f.test(Argument::make<void>(), V{Argument::make<const A3&>()})), signature(f));
        CHECK_THAT((f.testParams<void>(A3(), a, b) == f.test(Argument::make<void>(), V{Argument::make<A3&&>(), Argument::make<A3&>(), Argument::make<B3&>()})), signature(f));
        CHECK_THAT((f.testParams<const A3&>() == f.test(Argument::make<const A3&>(), V{})), signature(f));
    }
    done();
}
