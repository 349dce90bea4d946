// C08: every cast of values of several types, reference kinds and constness to every description, against the statement.
#include "wt.h"
using namespace reflect;
struct MO { int v; MO(int v = 0) : v(v) {} MO(const MO&) = delete; MO(MO&& o) : v(o.v) { o.v = -1; } };
struct CO { int v; CO(int v = 0) : v(v) {} CO(const CO& o) : v(o.v) {} };
struct NO { int v; NO(int v = 0) : v(v) {} NO(const NO&) = delete; NO(NO&&) = delete; };
struct DM : MO { DM(int v = 0) : MO(v) {} DM(DM&& o) : MO(std::move(o)) {} };
struct Q3 { int v; Q3(int v = 0) : v(v) {} };       // several converters to A3: ambiguous; a converter to MO
struct Z3 : A3 { Z3(int v = 0) : A3(v) {} };        // a descendant that also converts
R3(MO) R3(CO) R3(NO) R3(DM) R3(Q3) R3(Z3)
static int g_conv;
void reflect::Reflect<MO>::reflect(Type* t) { reflectMoveConstructor<MO>(t); }
void reflect::Reflect<CO>::reflect(Type* t) { reflectCopyConstructor<CO>(t); }
void reflect::Reflect<NO>::reflect(Type*) {}
void reflect::Reflect<DM>::reflect(Type* t) { t->parent(type<MO>()); reflectMoveConstructor<DM>(t); }
void reflect::Reflect<Q3>::reflect(Type* t) { plumb<Q3>(t); t->addFunction("operator A3()", [](Q3& c) { ++g_conv; return A3(c.v); }); t->addFunction("operator A3()", [](Q3& c, int) { ++g_conv; return A3(c.v); }); t->addFunction("operator CO()", [](const Q3& c) { ++g_conv; return CO(c.v); }); t->addFunction("operator MO()", [](const Q3& c) { ++g_conv; return MO(c.v); }); t->addFunction("operator NO()", [](const Q3& c) { ++g_conv; }); }
void reflect::Reflect<Z3>::reflect(Type* t) { t->parent(type<A3>()); plumb<Z3>(t); t->addFunction("operator A3()", [](Z3& c) { ++g_conv; return A3(c.v + 1000); }); }
template<typename T> struct Traits3 { static const bool copy = std::is_copy_constructible<T>::value, move = std::is_move_constructible<T>::value; };
struct TI { const Type* t; bool copy, move; };
static bool convOk(const Type* from, const Type* to, bool cst)
{   // converters of the pool that can run on the value
    if (from == type<C3>() && to == type<A3>()) return !cst;
    if (from == type<Q3>() && (to == type<CO>() || to == type<MO>())) return true;
    if (from == type<Z3>() && to == type<A3>()) return !cst;
    return false;
}
static int idOf(const Value& v) { return *static_cast<const int*>(v.value()); }
static void one(Value& v, const TI& to, RefType ref, bool cst)
{
    Argument want(to.t, ref, cst), was = v.argument(); void* at = v.value(); int id = idOf(v); bool st = v.isStored();
    bool sub = v.type() == to.t || v.type()->parent() == to.t, hasConv = v.type()->hasConverter(to.t);
    std::ostringstream w; w << was.print() << " to " << want.print();
    g_conv = 0; Value r; bool err = fails([&] { r = cast(v, want); });
    CHECK_THAT(v.value() == at && v.argument() == was && v.isStored() == st && idOf(v) == id, "cast of ", w.str(), " changed the value itself");
    bool same = sub && (ref == RefType::LValue ? cst || (!was.isConst() && was.refType() == RefType::LValue) : ref == RefType::RValue ? to.move : false);
    if (same) { CHECK_THAT(!err && r.value() == at && r.argument() == was && r.isStored() == st, "cast of ", w.str(), " must yield the same object: error ", err, ", got ", r.argument().print()); return; }
    if (ref == RefType::Copy && to.copy && sub) { CHECK_THAT(!err && r.value() != at && r.isStored() && r.type() == to.t && idOf(r) == id && !r.isConst() && g_conv == 0, "cast of ", w.str(), " must yield a copy: error ", err); return; }
    bool cv = hasConv && !sub && ((ref == RefType::Copy && to.copy) || (ref == RefType::RValue && to.move));
    if (cv && convOk(v.type(), to.t, was.isConst() || was.refType() == RefType::RValue)) { CHECK_THAT(!err && r.value() != at && r.type() == to.t && idOf(r) == id && (v.type() == type<C3>() || g_conv == 1), "cast of ", w.str(), " must convert: error ", err, ", conversions ", g_conv); return; }
    if (cv) return;         // the converter itself may refuse (ambiguous, or needs a mutable object)
    CHECK_THAT(err && g_conv == 0, "cast of ", w.str(), " must be refused, conversions ", g_conv);
}
template<typename T> static TI ti() { return TI{type<T>(), Traits3<T>::copy, Traits3<T>::move}; }
template<typename T> static void copyMove()
{
    CHECK_THAT(type<T>()->isCopiable() == Traits3<T>::copy, type<T>()->id(), " copiable"); CHECK_THAT(type<T>()->isMovable() == Traits3<T>::move, type<T>()->id(), " movable");
}
// typed casts
template<typename T> static void typed(Value& v, bool ok) { const void* p = nullptr; bool e = fails([&] { T r = cast<T>(v); p = &r; }); CHECK_THAT(e == !ok, "typed cast of ", v.argument().print(), " to ", printArgument<T>(), ": error ", e); if (ok) CHECK_THAT(p == v.value(), "typed cast of ", v.argument().print(), " to ", printArgument<T>(), " designates another object"); }
template<typename T> static void byValue(Value& v, bool ok, int id) { bool e = fails([&] { T r = cast<T>(v); CHECK_THAT(r.v == id, "cast of ", v.argument().print(), " to ", printArgument<T>(), " yields ", r.v, " instead of ", id); }); CHECK_THAT(e == !ok, "cast of ", v.argument().print(), " to ", printArgument<T>(), ": error ", e); }
template<typename T> static void castable(Value& v)
{ CHECK_THAT(isCastable<T>(v) == (v.argument().isConvertibleTo(Argument::make<T>()) != Match::None), "isCastable<", printArgument<T>(), "> of ", v.argument().print()); }
int main(int argc, char** argv)
{
    copyMove<A3>(); copyMove<B3>(); copyMove<MO>(); copyMove<CO>(); copyMove<NO>(); copyMove<DM>();
    TI tos[] = {ti<A3>(), ti<B3>(), ti<C3>(), ti<MO>(), ti<CO>(), ti<NO>(), ti<DM>(), ti<Q3>(), ti<Z3>()}; tos[4].move = type<CO>()->isMovable(); 
    A3 a(1); B3 b(2); C3 c(3); MO m(4); CO o(5); NO n(6); DM d(7); Q3 q(8); Z3 z(9);
    for (int r = 0; r < 5; ++r) {
        std::vector<Value> vs = {Value(a), Value(b), Value(c), Value(m), Value(o), Value(n), Value(d), Value(q), Value(z), Value(A3(11)), Value(B3(12)), Value(C3(13)), Value(MO(14)), Value(Q3(15)), Value(Z3(16))};
        for (Value& v0 : vs) {
            Value v = r == 1 ? v0.toConst() : r == 2 ? v0.rvalue() : v0;
            if (r == 3) { if (v0.isStored()) continue; if (v.type() == type<A3>()) v = Value(const_cast<const A3&>(a)); else if (v.type() == type<B3>()) v = Value(const_cast<const B3&>(b)); else if (v.type() == type<NO>()) v = Value(const_cast<const NO&>(n)); else continue; }
            for (auto& t : tos) for (int ref = 0; ref < 3; ++ref) for (int cst = 0; cst < 2; ++cst) {
                one(v, t, RefType(ref), cst);
                CHECK_THAT(isCastable(v, Argument(t.t, RefType(ref), cst)) == (v.argument().isConvertibleTo(Argument(t.t, RefType(ref), cst)) != Match::None), "isCastable ", v.argument().print());
            }
            castable<A3>(v); castable<A3&>(v); castable<const A3&>(v); castable<A3&&>(v); castable<MO&&>(v); castable<NO&>(v); castable<int>(v); castable<Q3>(v);
            bool subA = v.type() == type<A3>() || v.type()->parent() == type<A3>(), mut = !v.isConst() && v.refType() == RefType::LValue;
            typed<A3&>(v, subA && mut); typed<const A3&>(v, subA); typed<NO&>(v, v.type() == type<NO>() && mut); typed<const NO&>(v, v.type() == type<NO>()); typed<MO&>(v, (v.type() == type<MO>() || v.type() == type<DM>()) && mut);
            if (v.type() != type<C3>() && v.type() != type<Z3>()) byValue<A3>(v, subA, idOf(v));
            if (v.type() == type<Q3>()) byValue<CO>(v, true, idOf(v)); if (v.type() == type<CO>()) byValue<CO>(v, true, idOf(v));
        }
    }
    { Value v(MO(21)); MO r = cast<MO&&>(v); CHECK_THAT(r.v == 21 && v.get<MO>().v == -1, "r-value cast does not move the object"); }
    done();
}
