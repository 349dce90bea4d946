// Forces emission of the lookups of template types and of the registration of plain ones; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "dsl/all.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
struct Pl { int v; }; namespace ns { struct Pq { long v[2]; }; template<typename T> struct Tn { T* v; }; }
template<typename T> struct Tm { T* v; };
reflectType(Pl) {}
reflectType(ns::Pq) {}
reflectTemplate(Tm, T) {}
reflectTemplate(ns::Tn, T) {}
using namespace reflect;
typedef std::vector<int> Vi; typedef std::vector<std::vector<Pl> > Vv; typedef std::map<int, ns::Pq> Mp; typedef std::unordered_map<std::string, Pl> Up; typedef std::shared_ptr<Pl> Sp; typedef std::unique_ptr<std::vector<int*> > Uv;
typedef int* Pi; typedef const Pl* Pc; typedef Pl** Pp; typedef Tm<Pl> Tp; typedef Tm<Tm<int> > Tt; typedef ns::Tn<ns::Pq> Nn;
#define DRV(T) const Type* get_##T() { return type<T>(); } const Type* ref_##T() { return type<const T&>(); } std::string id_##T() { return typeId<T>(); } void run_##T(Type* t) { Reflect<typename CleanType<T>::type>::reflect(t); }
DRV(Vi) DRV(Vv) DRV(Mp) DRV(Up) DRV(Sp) DRV(Uv) DRV(Pi) DRV(Pc) DRV(Pp) DRV(Tp) DRV(Tt) DRV(Nn)
typedef ns::Pq Pq;
DRV(Pl) DRV(Pq)
