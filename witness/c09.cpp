// C09: field access of objects at arbitrary addresses with arbitrary declared offsets, types and constness.
#include "wt.h"
using namespace reflect;
struct F9 { int a; const int b; char pad; A3 c; const A3 d; long e[3]; double z; F9(int x) : a(x), b(x + 1), pad('p'), c(x + 2), d(x + 3), e{x, x + 1, x + 2}, z(x + .5) {} };
struct G9 : F9 { int own; G9(int x) : F9(x), own(x * 2) {} };
R3(F9) R3(G9)
void reflect::Reflect<F9>::reflect(Type* t) { t->addField<int>("a", offsetof(F9, a)); t->addField<const int>("b", offsetof(F9, b)); t->addField<A3>("c", offsetof(F9, c)); t->addField<const A3>("d", offsetof(F9, d)); t->addField<double>("z", offsetof(F9, z)); reflectCopyConstructor<F9>(t); }
void reflect::Reflect<G9>::reflect(Type* t) { t->parent(type<F9>()); t->addField<int>("own", offsetof(G9, own)); reflectCopyConstructor<G9>(t); }
static void one(const Value& v, const void* base, const char* n, const void* at, const Type* t, bool cst)
{
    Value f = v.field(n);
    CHECK_THAT(f.value() == at, "field ", n, " of an object at ", base, " is located at +", (char*)f.value() - (char*)base, ", expected +", (char*)at - (char*)base);
    CHECK_THAT(f.type() == t && f.isConst() == cst && f.refType() == RefType::LValue && !f.isStored(), "field ", n, " described as ", f.argument().print(), ", expected const ", cst);
    bool e = fails([&] { if (t == type<int>()) { int& r = v.field<int&>(n); CHECK_THAT(&r == at, "field<int&> ", n); } else if (t == type<A3>()) { A3& r = v.field<A3&>(n); CHECK_THAT(&r == at, "field<A3&> ", n); } else { double& r = v.field<double&>(n); CHECK_THAT(&r == at, "field<double&> ", n); } });
    CHECK_THAT(e == cst, "mutable reference to field ", n, ": error ", e);
    e = fails([&] { if (t == type<int>()) { const int& r = v.field<const int&>(n); CHECK_THAT(&r == at, "field<const int&> ", n); } else if (t == type<A3>()) { const A3& r = v.field<const A3&>(n); CHECK_THAT(&r == at, "field<const A3&> ", n); } else { const double& r = v.field<const double&>(n); CHECK_THAT(&r == at, "field<const double&> ", n); } });
    CHECK_THAT(!e, "const reference to field ", n, " refused");
}
template<typename T> static void all(const Value& v, const T* x, bool cst)
{
    one(v, x, "a", &x->a, type<int>(), cst); one(v, x, "b", &x->b, type<int>(), true); one(v, x, "c", &x->c, type<A3>(), cst); one(v, x, "d", &x->d, type<A3>(), true); one(v, x, "z", &x->z, type<double>(), cst);
    CHECK_THAT(fails([&] { v.field("nothing"); }) && fails([&] { v.field(""); }), "access to an undeclared field is not refused");
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 300 * (argc > 2 ? std::atoi(argv[2]) : 1);
    for (int i = 0; i < rounds; ++i) {
        std::vector<F9> fs; for (int k = 0; k < 3; ++k) fs.emplace_back(int(rng(1000))); G9 g(rng(1000)); const F9 cf(3); const G9 cg(4);
        for (auto& f : fs) { all(Value(f), &f, false); all(Value(f).toConst(), &f, true); all(Value(f).rvalue(), &f, false); }
        all(Value(g), &g, false); all(Value(cf), &cf, true); all(Value(cg), &cg, true); one(Value(g), &g, "own", &g.own, type<int>(), false); one(Value(cg), &cg, "own", &cg.own, type<int>(), true);
        Value s(F9(5)); all(s, static_cast<const F9*>(s.value()), false); all(s.toConst(), static_cast<const F9*>(s.value()), true);
        Value c = Value(g).field("c"); CHECK_THAT(fails([&] { c.field("x"); }), "field of a field");
        // declarations
        size_t off = rng.e(); std::string nm(rng(6), char('a' + rng(26))); const Type* t = rng(2) ? type<int>() : type<A3>(); bool cst = rng(2);
        for (int r = 0; r < 3; ++r) {
            bool e = fails([&] { Field f(nm, Argument(t, RefType(r), cst), off); CHECK_THAT(f.name() == nm && f.type() == t && f.offset() == off && f.argument() == Argument(t, RefType(r), cst), "declaration of ", nm, " at ", off, " is recorded as ", f.print());
                Type T("T"); T.addField(nm, Field(f)); CHECK_THAT(T.field(nm).name() == nm && T.field(nm).type() == t && T.field(nm).offset() == off && T.field(nm).argument().isConst() == cst, "declared field ", nm); });
            CHECK_THAT(e == (RefType(r) != RefType::Copy), "declaring a field of kind ", RefType(r), ": error ", e);
        }
        CHECK_THAT(fails([&] { Field::make<int&>(nm, off); }) && fails([&] { Field::make<const int&>(nm, off); }) && fails([&] { Field::make<int&&>(nm, off); }), "a reference field is accepted");
        Field m = Field::make<const A3>(nm, off); CHECK_THAT(m.type() == type<A3>() && m.argument().isConst() && m.offset() == off && m.name() == nm, "make<const A3>");
    }
    done();
}
