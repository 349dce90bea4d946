// Forces emission of the reflections of the standard containers; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
#include "dsl/all.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
struct El { El(); El(const El&); El(El&&); ~El(); El& operator=(const El&); El& operator=(El&&); long d[3]; };
namespace reflect { template<> struct Reflect<El> { typedef El T_; static std::string id() { return "El"; } static void loader() {} static void reflect(Type*); }; }
using namespace reflect;
typedef std::vector<int> Vi; typedef std::vector<El> Ve; typedef std::map<int, El> Mi; typedef std::map<long, int> Ml; typedef std::unordered_map<int, El> Ui; typedef std::shared_ptr<El> Sp; typedef std::unique_ptr<El> Up; typedef El* Rp;
#define DRV(T) void reflect_##T(Type* t) { Reflect<T>::reflect(t); } void load_##T() { Reflect<T>::loader(); }
DRV(Vi) DRV(Ve) DRV(Mi) DRV(Ml) DRV(Ui) DRV(Sp) DRV(Up) DRV(Rp)
void reflect_Str(Type* t) { Reflect<std::string>::reflect(t); }
