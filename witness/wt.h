// Types shared by the witness programs: B3 derives from A3, C3 converts to A3. The oracle for signatures is the statement of C03.
#pragma once
#include "w.h"
#include "types/primitives.h"
#include "dsl/all.h"
struct A3 { int v; A3(int v = 0) : v(v) {} }; struct B3 : A3 { B3(int v = 0) : A3(v) {} }; struct C3 { int v; C3(int v = 0) : v(v) {} };
#define R3(T) namespace reflect { template<> struct Reflect<T> { static std::string id() { return #T; } static void loader() {} static void reflect(Type*); }; template<> struct Loader<T> { Loader() { Registry::add<T>(); } }; static Loader<T> ld##T; }
R3(A3) R3(B3) R3(C3)
template<typename T> static void plumb(reflect::Type* t) { using namespace reflect; reflectSizeof<T>(t); reflectDefaultConstructor<T>(t); reflectCopyConstructor<T>(t); reflectMoveConstructor<T>(t); reflectCopyAssignOperator<T>(t); reflectMoveAssignOperator<T>(t); }
void reflect::Reflect<A3>::reflect(Type* t) { plumb<A3>(t); }
void reflect::Reflect<B3>::reflect(Type* t) { t->parent(type<A3>()); plumb<B3>(t); }
void reflect::Reflect<C3>::reflect(Type* t) { plumb<C3>(t); t->addFunction("operator A3()", [](C3& c) { return A3(c.v); }); }
static int weakest(int a, int b) { return a < b ? a : b; }
typedef std::vector<reflect::Argument> ArgV;
static int oracleMatch(const reflect::Function& f, const reflect::Argument& ret, const ArgV& args)
{
    using namespace reflect;
    int want = 2;
    if (args.size() != f.arguments()) want = 0;
    else for (size_t i = 0; i < args.size(); ++i) want = weakest(want, int(args[i].isConvertibleTo(f.argument(i))));
    const Argument& have = f.returnType();
    bool ok;
    if (ret.type() == type<void>()) ok = true;
    else if (have.type() == type<void>()) ok = ret.type() == type<Value>() && ret.refType() != RefType::LValue;
    else ok = have.isConvertibleTo(ret) != Match::None && !(have.refType() != RefType::LValue && ret.isConst() && ret.refType() == RefType::LValue);
    return ok ? want : 0;
}
static inline ArgV argsOf(const reflect::Function& g) { ArgV v; for (size_t i = 0; i < g.arguments(); ++i) v.push_back(g.argument(i)); return v; }
