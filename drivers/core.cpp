// Forces emission of the library's inline and template entry points; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
struct DrvObj { int x; };
struct DrvBase { int y; };
namespace reflect {
template<> struct Reflect<DrvObj> { static std::string id() { return "DrvObj"; } static void loader() {} static void reflect(Type*) {} };
template<> struct Reflect<DrvBase> { static std::string id() { return "DrvBase"; } static void loader() {} static void reflect(Type*) {} };
}
using namespace reflect;
template<typename T> static void keep(T t) { volatile T x = t; (void)x; }
void drive_type(const Type* t, Type* m)
{
    keep(static_cast<const Type* (Type::*)() const>(&Type::parent));
    keep(static_cast<void (Type::*)(const Type*)>(&Type::parent));
    keep(&Type::id);
    keep(static_cast<bool (Type::*)() const>(&Type::isChildOf<DrvObj>));
    keep(static_cast<bool (Type::*)() const>(&Type::isParentOf<DrvObj>));
    keep(static_cast<bool (Type::*)() const>(&Type::hasConverter<DrvObj>));
    keep(static_cast<const Function& (Type::*)() const>(&Type::converter<DrvObj>));
}
void drive_field(Field& f)
{
    Field g(f); Field h(std::move(g)); (void)h.name();
    (void)f.name(); (void)f.argument(); (void)f.offset(); (void)f.type();
    keep(&Field::name); keep(&Field::argument); keep(&Field::offset); keep(&Field::type);
}
void drive_overloads(const Overloads* o)
{
    keep(&Overloads::size);
    keep(static_cast<const Function& (Overloads::*)(size_t) const>(&Overloads::operator[]));
    keep(static_cast<Function& (Overloads::*)(size_t)>(&Overloads::operator[]));
    keep(static_cast<bool (Overloads::*)() const>(&Overloads::test<int(int)>));
    keep(static_cast<const Function& (Overloads::*)() const>(&Overloads::get<int(int)>));
    keep(&Function::name); keep(&Function::returnType); keep(&Function::arguments); keep(&Function::argument);
    keep(static_cast<Match (Function::*)() const>(&Function::test<int(int)>));
}
void drive_function(const Function& f, int i, DrvObj& o, const DrvObj& c)
{
    (void)f.testParams<int>(i); (void)f.testParams<void>(); (void)f.testParams<DrvObj&>(o, c); (void)f.testParams<Value>(DrvObj(), i, o);
    keep(static_cast<Match (Function::*)() const>(&Function::test<void()>));
    keep(static_cast<Match (Function::*)() const>(&Function::test<const DrvObj&(DrvObj&, DrvObj&&)>));
}
void drive_call(const Overloads& o, const Function& f, Overloads& m, int i, const DrvObj& c)
{
    (void)o.call<int>(i); o.call<void>(); (void)o.call<Value>(c, i);
    (void)f.call<int>(i); f.call<void>(); (void)f.call<Value>(c, i);
    keep(static_cast<bool (Overloads::*)() const>(&Overloads::test<void()>));
    keep(static_cast<const Function& (Overloads::*)() const>(&Overloads::get<void()>));
    keep(static_cast<Match (Function::*)(const Function&) const>(&Function::test));
}
extern "C" { extern const unsigned long drv_sizeof_Function = sizeof(Function), drv_sizeof_Overloads = sizeof(Overloads), drv_sizeof_Field = sizeof(Field), drv_sizeof_Value = sizeof(Value), drv_sizeof_Argument = sizeof(Argument); }
