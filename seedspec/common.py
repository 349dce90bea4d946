T = r'''#include "reflect.h"
#include "types/primitives.h"
#include "dsl/all.h"
#include <iostream>
#include <functional>
#include <cstdlib>
#include <vector>
using namespace reflect;
static bool fails(std::function<void()> f) { try { f(); return false; } catch (const Error&) { return true; } }
#define MUST(c) do { if (!(c)) { std::cout << "DEMO: " #c " does not hold" << std::endl; std::exit(1); } } while (0)
'''
OBJ = r'''
struct Base { int v; }; struct Derv : Base {};
namespace reflect {
template<> struct Reflect<Base> { static std::string id() { return "Base"; } static void loader() {} static void reflect(Type* t) { reflectDefaultConstructor<Base>(t); reflectCopyConstructor<Base>(t); reflectMoveConstructor<Base>(t); } };
template<> struct Loader<Base> { Loader() { Registry::add<Base>(); } }; static Loader<Base> lb;
template<> struct Reflect<Derv> { static std::string id() { return "Derv"; } static void loader() {} static void reflect(Type* t) { t->parent(type<Base>()); reflectDefaultConstructor<Derv>(t); reflectCopyConstructor<Derv>(t); reflectMoveConstructor<Derv>(t); } };
template<> struct Loader<Derv> { Loader() { Registry::add<Derv>(); } }; static Loader<Derv> ld;
}
'''
