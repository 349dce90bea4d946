// Forces emission of the value templates at opaque types; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
struct Cp { Cp(const Cp&); Cp(Cp&&); ~Cp(); long d[3]; };                                   // copiable and movable
struct Mo { Mo(Mo&&); Mo(const Mo&) = delete; ~Mo(); long d[3]; };                          // movable only
struct No { No(const No&) = delete; No(No&&) = delete; ~No(); long d[3]; };                 // neither
struct Co { Co(const Co&); ~Co(); long d[3]; };                                             // copiable only
#define DRVR(T) namespace reflect { template<> struct Reflect<T> { static std::string id() { return #T; } static void loader() {} static void reflect(Type*) {} }; }
DRVR(Cp) DRVR(Mo) DRVR(No) DRVR(Co)
using namespace reflect;
template<typename T> static void keep(T t) { volatile T x = t; (void)x; }
#define ALL(T) void drive_##T(T& l, const T& c, T&& r, const T&& cr) { Value a(l), b(c), d(std::move(r)), e(std::move(cr)); \
  keep(static_cast<T& (Value::*)()>(&Value::as<T>)); keep(static_cast<const T& (Value::*)() const>(&Value::get<T>)); ValueDestructor<T>()(0); }
ALL(Cp) ALL(Mo) ALL(No) ALL(Co)
void drive_value(const Value& v, Value& w)
{
    keep(&Value::value); keep(&Value::type); keep(&Value::refType); keep(&Value::isConst); keep(&Value::isStored); keep(&Value::argument); keep(&Value::toConst); keep(&Value::rvalue); keep(&Value::copy); keep(&Value::move); keep(&Value::isVoid);
    keep(static_cast<Value (Value::*)(const std::string&) const>(&Value::field<Value>));
    Value x(v), y(w), z(std::move(w)); x = v; y = std::move(z);
    Field::make<int>("a", 1); Field::make<const int>("a", 1); Field::make<int&>("a", 1); Field::make<Cp>("b", 2); Field::make<const Cp&>("b", 2); Field::make<int&&>("a", 1);
}
template<typename T> static void drive_cast(Value& v) { (void)Cast<Value, T>::cast(v); (void)Cast<Value, T>::isCastable(v); }
void drive_casts(Value& v)
{
    drive_cast<Cp&>(v); drive_cast<const Cp&>(v); drive_cast<Cp&&>(v); drive_cast<Cp>(v); drive_cast<Mo&>(v); drive_cast<const Mo&>(v); drive_cast<Mo&&>(v); drive_cast<Co>(v); drive_cast<Co&>(v); drive_cast<No&>(v); drive_cast<const No&>(v);
    (void)cast<Cp&>(v); (void)cast<int>(v);
}
void drive_instances(Value& v, const Type* t) { (void)t->construct(v); (void)v.convert<Value>(t); (void)v.field<int&>("x"); (void)v.field<int>("x"); (void)v.field<Cp>("x"); }
