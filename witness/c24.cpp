// C24: descriptions of C++ types, expressions and callables against a table written out by hand.
#include "wt.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
using namespace reflect;
static void is(const Argument& a, const char* id, RefType r, bool c, const std::string& what)
{ CHECK_THAT(a.type()->id() == id && a.type() == Registry::get(id) && a.refType() == r && a.isConst() == c, what, " is described as ", a.print(), ", type <", a.type()->id(), ">, instead of <", id, "> ", r, " const ", c); }
static const RefType C = RefType::Copy, L = RefType::LValue, R = RefType::RValue;
template<typename T> static void forms(const char* id, const char* n)
{
    std::string s(n);
    is(Argument::make<T>(), id, C, false, s); is(Argument::make<const T>(), id, C, true, s + " const"); is(Argument::make<T&>(), id, L, false, s + "&"); is(Argument::make<const T&>(), id, L, true, s + " const&");
    is(Argument::make<T&&>(), id, R, false, s + "&&"); is(Argument::make<const T&&>(), id, R, true, s + " const&&");
    T x = T(); const T& cx = x; is(Argument::make(x), id, L, false, s + " l-value"); is(Argument::make(cx), id, L, true, s + " const l-value"); is(Argument::make(std::move(x)), id, R, false, s + " r-value"); is(Argument::make(std::move(cx)), id, R, true, s + " const r-value"); is(Argument::make(T()), id, R, false, s + " temporary");
    CHECK_THAT(typeId<T>() == id && typeId<const T&>() == id && typeId<T&&>() == id, "identifier of ", s, " is ", typeId<T>(), ", ", typeId<const T&>(), ", ", typeId<T&&>());
    CHECK_THAT(type<T>() == type<const T&>() && type<T>() == type<T&&>() && type<T>() == type<const T>(), "types of ", s);
    is(reflectReturn<T()>(), id, C, false, s + " result"); is(reflectReturn<T&()>(), id, L, false, s + "& result"); is(reflectReturn<const T&(int)>(), id, L, true, s + " const& result"); is(reflectReturn<T&&()>(), id, R, false, s + "&& result");
    auto v = reflectArguments<void(T, T&, const T&, T&&, int, const T&&)>(); const char* ids[] = { id, id, id, id, "int", id }; RefType rs[] = { C, L, L, R, C, R }; bool cs[] = { false, false, true, false, false, true };
    CHECK_THAT(v.size() == 6, "parameters of a function over ", s, ": ", v.size()); for (int i = 0; i < 6; ++i) is(v[i], ids[i], rs[i], cs[i], s + " parameter");
    auto w = reflectArguments(x, cx, 3, std::move(x), std::move(cx)); const char* wi[] = { id, id, "int", id, id }; RefType wr[] = { L, L, R, R, R }; bool wc[] = { false, true, false, false, true };
    CHECK_THAT(w.size() == 5, "arguments over ", s, ": ", w.size()); for (int i = 0; i < 5; ++i) is(w[i], wi[i], wr[i], wc[i], s + " argument");
}
struct E_ { const char* id; RefType r; bool c; };
static void sig(const Function& f, E_ ret, std::vector<E_> pars, const char* what)
{
    CHECK_THAT(f.name() == "f", what, " is named ", f.name()); is(f.returnType(), ret.id, ret.r, ret.c, std::string(what) + " result"); CHECK_THAT(f.arguments() == pars.size(), what, " has ", f.arguments(), " parameters");
    for (size_t i = 0; i < pars.size(); ++i) is(f.argument(i), pars[i].id, pars[i].r, pars[i].c, std::string(what) + " parameter");
}
struct Ob { int a(int, const int&) const { return 1; } void b(A3&, B3) {} const A3& c(A3* p, const A3&) const { return *p; } Ob& d(Ob&) { return *this; } A3 e(A3&& x) { return x; } void n() {} };
R3(Ob) void reflect::Reflect<Ob>::reflect(Type*) {}
static A3& g0(A3&& x, int, const int&) { return x; } static void g1() {} static A3 g2(A3 x) { return x; } static const A3& g3(const A3& x, A3& y) { return x; }
struct Fa { void operator()(A3&, const A3&, A3&&) {} }; struct Fb { const A3& operator()(int, Value, const Value&, A3* p) const { return *p; } };
static void values(Value& v, const Value& cv, Value& u)
{
    auto w = reflectArguments(v, cv, 1, std::move(u)); const Value* vs[] = { &v, &cv, nullptr, &u };
    CHECK_THAT(w.size() == 4, "arguments with values: ", w.size()); for (int i = 0; i < 4; ++i) if (vs[i]) CHECK_THAT(w[i] == vs[i]->argument(), "a value argument is described as ", w[i].print(), " instead of ", vs[i]->argument().print());
}
int main()
{
#define F(T, id) forms<T>(id, #T);
    typedef A3* Ap; typedef const A3* Acp; typedef A3** App; typedef std::vector<int> Vi; typedef std::vector<A3> Va; typedef std::vector<Vi> Vv; typedef std::shared_ptr<A3> Sp; typedef A3* const* Apcp;
    F(int, "int") F(bool, "bool") F(char, "char") F(unsigned char, "unsigned char") F(long, "long int") F(unsigned long, "unsigned long int") F(double, "double") F(A3, "A3") F(B3, "B3") F(Ap, "A3*") F(Acp, "A3*") F(App, "A3**") F(Apcp, "A3**") F(Vi, "std::vector<int>") F(Va, "std::vector<A3>") F(Vv, "std::vector<std::vector<int>>") F(Sp, "std::shared_ptr<A3>")
    is(Argument::make<void>(), "void", C, false, "void"); is(reflectReturn<void()>(), "void", C, false, "void result"); is(Argument(), "void", C, false, "the default description");
    sig(Function("f", &Ob::a), { "int", C, false }, { { "Ob", L, true }, { "int", C, false }, { "int", L, true } }, "int Ob::a(int, const int&) const");
    sig(Function("f", &Ob::b), { "void", C, false }, { { "Ob", L, false }, { "A3", L, false }, { "B3", C, false } }, "void Ob::b(A3&, B3)");
    sig(Function("f", &Ob::c), { "A3", L, true }, { { "Ob", L, true }, { "A3*", C, false }, { "A3", L, true } }, "const A3& Ob::c(A3*, const A3&) const");
    sig(Function("f", &Ob::d), { "Ob", L, false }, { { "Ob", L, false }, { "Ob", L, false } }, "Ob& Ob::d(Ob&)");
    sig(Function("f", &Ob::e), { "A3", C, false }, { { "Ob", L, false }, { "A3", R, false } }, "A3 Ob::e(A3&&)"); sig(Function("f", &Ob::n), { "void", C, false }, { { "Ob", L, false } }, "void Ob::n()");
    sig(Function("f", &g0), { "A3", L, false }, { { "A3", R, false }, { "int", C, false }, { "int", L, true } }, "A3& g0(A3&&, int, const int&)"); sig(Function("f", &g1), { "void", C, false }, {}, "void g1()");
    sig(Function("f", &g2), { "A3", C, false }, { { "A3", C, false } }, "A3 g2(A3)"); sig(Function("f", &g3), { "A3", L, true }, { { "A3", L, true }, { "A3", L, false } }, "const A3& g3(const A3&, A3&)");
    sig(Function("f", Fa()), { "void", C, false }, { { "A3", L, false }, { "A3", L, true }, { "A3", R, false } }, "Fa"); sig(Function("f", Fb()), { "A3", L, true }, { { "int", C, false }, { "reflect::Value", C, false }, { "reflect::Value", L, true }, { "A3*", C, false } }, "Fb");
    sig(Function("f", [](const B3&, int& x) -> int& { return x; }), { "int", L, false }, { { "B3", L, true }, { "int", L, false } }, "a lambda");
    { int i = 1; A3 a; const A3 ca; Value v(i), u(A3(2)), w(ca); values(v, w, u); values(w, u, v); const Value e; Value f; values(f, e, w); }
    Registry::add<std::vector<B3>&>(); CHECK_THAT(Registry::get("std::vector<B3>") == type<std::vector<B3> >(), "a type added by its C++ type is not the one found by it");
    Registry::alias<const A3&>("A3-too"); CHECK_THAT(Registry::get("A3-too") == type<A3>(), "an alias of a C++ type is not an alias of its identifier");
    done();
}
