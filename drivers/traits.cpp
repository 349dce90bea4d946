// Forces emission of the trait templates; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
struct Cp { Cp(const Cp&); Cp(Cp&&); ~Cp(); long d[3]; };
namespace reflect { template<> struct Reflect<Cp> { static std::string id() { return "Cp"; } static void loader() {} static void reflect(Type*) {} }; }
using namespace reflect;
template<typename T> static void keep(T t) { volatile T x = t; (void)x; }
void drive_traits(Traits& t, const Traits& c, const std::string& n, Cp& l, const Cp& k, Cp&& r, int i)
{
    t.addTrait(n, l); t.addTrait(n, k); t.addTrait(n, std::move(r)); t.addTrait(n, i); t.addTrait(n, 3); t.addTrait(n); t.addTrait(n, Value());
    (void)c.getValue<int>(n); (void)c.getValue<Value>(n); (void)c.getValue<const Cp&>(n); (void)c.getValue<Cp>(n); c.getValue<void>(n); (void)c.getValue<Cp&>(n);
    keep(&Traits::is); keep(&Traits::traits);
}
extern "C" { extern const unsigned long drv_sizeof_Traits = sizeof(Traits); }
