// Forces emission of the scope templates; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
using namespace reflect;
template<typename T> static void keep(T t) { volatile T x = t; (void)x; }
typedef int (*Gii)(int, int);
void drive_scope(Scope& s, const Scope& c, const std::string& n, int i, Gii g, Value v)
{
    (void)c.call<int>(n, i); c.call<void>(n); (void)c.call<Value>(n, v, i); s.addFunction(n, g);
    keep(&Scope::name); keep(&Scope::isGlobal); keep(&Scope::parent); keep(&Scope::scopes); keep(&Scope::hasScope); keep(&Scope::id);
    Scope a; Scope b(n); Scope d(n, &a);
}
