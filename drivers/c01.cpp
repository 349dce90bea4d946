// instantiates the statically typed entry point; nothing else
#include "reflect.h"
struct DrvObj {};
namespace reflect { template<> struct Reflect<DrvObj> { static std::string id() { return "DrvObj"; } static void loader() {} }; }
using namespace reflect;
template<typename T> static void five(const Argument& a)
{
    (void)a.isConvertibleTo<T>(); (void)a.isConvertibleTo<T&>(); (void)a.isConvertibleTo<const T&>();
    (void)a.isConvertibleTo<T&&>(); (void)a.isConvertibleTo<const T&&>();
}
void drive(const Argument& a) { five<int>(a); five<Value>(a); five<DrvObj>(a); }
