// Forces emission of the callable wrappers at opaque callables; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
struct Pa { Pa(const Pa&); Pa(Pa&&); ~Pa(); long d[2]; };
struct Ob { int get(int, int) const; void set(Pa&, const Pa&); Pa make(int) const; Pa& ref(Pa&, Pa&); long d[3]; };
#define DRVR(T) namespace reflect { template<> struct Reflect<T> { static std::string id() { return #T; } static void loader() {} static void reflect(Type*) {} }; }
DRVR(Pa) DRVR(Ob)
#define CALLABLE(N, R, ...) struct N { N(const N&); N(N&&); ~N(); R operator()(__VA_ARGS__); long d[2]; };
CALLABLE(Fii, int, int, int) CALLABLE(Fv, void) CALLABLE(Fr, Pa&, Pa&, Pa&) CALLABLE(Fpp, Pa, Pa, const Pa&) CALLABLE(Fval, reflect::Value, reflect::Value, reflect::Value) CALLABLE(Fm, void, Pa&&, Pa&&, Pa&)
struct Fc { Fc(const Fc&); Fc(Fc&&); ~Fc(); long operator()(long, long, long) const; long d[2]; };
struct Fe { Fe(const Fe&); Fe(Fe&&); ~Fe(); int operator()(int, int); };
CALLABLE(F6, Pa, Pa&, const Pa&, int, Pa, int, Pa&&)
using namespace reflect;
#define DRIVE(N) void drive_##N(const std::string& n, N&& f) { Function x(n, std::move(f)); } \
    MakeValueFunction<N>::type* make_##N(N&& f) { return makeValueFunction(std::move(f)); }
DRIVE(Fii) DRIVE(Fv) DRIVE(Fr) DRIVE(Fpp) DRIVE(Fval) DRIVE(Fm) DRIVE(Fc) DRIVE(Fe) DRIVE(F6)
typedef int (*Gii)(int, int); typedef void (*Gr)(Pa&, const Pa&); typedef Pa (*Gp)(Pa&&, Pa);
typedef int (Ob::*Mget)(int, int) const; typedef void (Ob::*Mset)(Pa&, const Pa&); typedef Pa (Ob::*Mmake)(int) const; typedef Pa& (Ob::*Mref)(Pa&, Pa&);
#define DRIVEP(N) void drive_##N(const std::string& n, N f) { Function x(n, f); } MakeValueFunction<N>::type* make_##N(N f) { return makeValueFunction(f); }
DRIVEP(Gii) DRIVEP(Gr) DRIVEP(Gp) DRIVEP(Mget) DRIVEP(Mset) DRIVEP(Mmake) DRIVEP(Mref)
void drive_calls(const Function& f, int i, int j, Pa& p, const Pa& c, Value& v, const Value& w)
{
    (void)f.call<int>(i, j); f.call<void>(); (void)f.call<Pa&>(p, p); (void)f.call<Value>(v, w); (void)f.call<Pa>(p, c, i); f.call<void>(std::move(p), Value(1), v); f.call<Value>(i);
}
void drive_own(Function& f, Function& g) { Function h(std::move(f)); g = std::move(h); ValueFunctionDestructor()(0); }
extern "C" { extern const unsigned long drv_sizeof_Function = sizeof(Function), drv_sizeof_Value = sizeof(Value); }
