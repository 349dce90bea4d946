// Forces emission of the descriptions of C++ types; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include "types/reflect/type.h"
struct Pa { Pa(const Pa&); Pa(Pa&&); ~Pa(); long d[2]; };
struct Ob { int get(int, const int&) const; void set(Pa&, const Pa&); Pa make(Pa&&) const; const Pa& ref(Pa*, Pa const&); void last(Ob&); long d[3]; };
template<typename> struct Tp { long d; };
extern void loads(const char*);
#define DRVR(T) namespace reflect { template<> struct Reflect<T> { static std::string id() { return #T; } static void loader() { loads(#T); } static void reflect(Type*); }; }
DRVR(Pa) DRVR(Ob)
namespace reflect { template<typename T> struct Reflect<Tp<T> > { static std::string id() { return "Tp<" + typeId<T>() + ">"; } static void loader() { loads("Tp"); } static void reflect(Type*); }; }
using namespace reflect;
typedef Pa* PaP; typedef const Pa* PaCP; typedef Pa** PaPP; typedef Tp<const Pa> TpC;
#define MK1(K, T) Argument mk_##K() { return Argument::make<T>(); } const reflect::Type* ty_##K() { return type<T>(); } std::string id_##K() { return typeId<T>(); } Argument rr_##K() { return reflectReturn<T()>(); }
#define MK(K, T) MK1(K##_v, T) MK1(K##_c, const T) MK1(K##_l, T&) MK1(K##_lc, const T&) MK1(K##_r, T&&) MK1(K##_rc, const T&&)
MK(pa, Pa) MK(in, int) MK(ul, unsigned long) MK(pp, PaP) MK(pcp, PaCP) MK(ppp, PaPP) MK(val, Value) MK(tp, Tp<Pa>) MK(tpc, TpC) MK1(vo, void)
#define EX(K, T) Argument ex_##K##_l(T& x) { return Argument::make(x); } Argument ex_##K##_lc(const T& x) { return Argument::make(x); } Argument ex_##K##_r(T& x) { return Argument::make(std::move(x)); } Argument ex_##K##_rc(const T& x) { return Argument::make(std::move(x)); }
EX(pa, Pa) EX(in, int) EX(pp, PaP) EX(tp, Tp<Pa>)
struct Fa { void operator()(Pa&, const Pa&, Pa&&); }; struct Fb { const Pa& operator()(int, Value, const Value&, Pa*) const; }; struct Fn { Pa operator()(); };
#define SIG(K, F) Argument sr_##K() { return reflectReturn<F>(); } std::vector<Argument> sa_##K() { return reflectArguments<F>(); }
SIG(plain, Pa(int, Pa&, const Pa&)) SIG(none, void()) SIG(gptr, Pa&(*)(Pa&&, int, const int&)) SIG(mget, int (Ob::*)(int, const int&) const) SIG(mset, void (Ob::*)(Pa&, const Pa&)) SIG(mmake, Pa (Ob::*)(Pa&&) const) SIG(mref, const Pa& (Ob::*)(Pa*, const Pa&))
SIG(fa, Fa) SIG(fb, Fb) SIG(fn, Fn) SIG(long, void(int, Pa, Ob, int&, Pa&, Ob&, const int&)) SIG(mlast, void (Ob::*)(Ob&))
std::vector<Argument> pa_mixed(Pa& a, const Pa& b, Value& v, const Value& w, int& i) { return reflectArguments(a, b, v, w, std::move(i)); }
std::vector<Argument> pa_moved(Pa& a, Value& v, const Pa& b) { return reflectArguments(std::move(a), std::move(v), std::move(b), b, a); }
std::vector<Argument> pa_none() { return reflectArguments(); }
#define FUN(K, F) void fc_##K(const std::string& n, F f) { Function x(n, f); }
typedef Pa& (*Gptr)(Pa&&, int, const int&); typedef int (Ob::*Mget)(int, const int&) const; typedef const Pa& (Ob::*Mref)(Pa*, const Pa&); typedef void (*Gv)();
FUN(gptr, Gptr) FUN(mget, Mget) FUN(mref, Mref) FUN(fa, Fa) FUN(fb, Fb) FUN(fn, Fn) FUN(gv, Gv)
void drive_reg() { Registry::add<Pa>(); Registry::add<const Ob&>(); Registry::add<Tp<Pa> >(); Registry::alias<Pa>("other"); Registry::alias<const Ob&>("another"); }
#define AC(M) template<typename T> static void keep_##M(T t) { volatile T x = t; (void)x; } void drive_##M() { keep_##M(&Argument::M); }
AC(type) AC(refType) AC(isConst)
void drive_fn(const Function& f) { (void)f.name(); (void)f.returnType(); (void)f.arguments(); (void)f.argument(0); }
extern "C" { extern const unsigned long drv_sizeof_Function = sizeof(Function), drv_sizeof_Value = sizeof(Value), drv_sizeof_Argument = sizeof(Argument); }
