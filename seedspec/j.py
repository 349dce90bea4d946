exec(open("seedspec/common.py").read())
CT = T.replace('#include "dsl/all.h"', '#include "dsl/all.h"\n#include "types/std/vector.h"\n#include "types/std/map.h"')
SEEDS = [
 dict(ID="c21_static_init", PROPERTY="C21", EDITS=[("registry.h", "        Reflect<CleanT>::loader();\n", "        static const bool loaded = (Reflect<CleanT>::loader(), true); (void) loaded;\n")],
  NEEDS="one thread describing a type that looks up a template's type while another thread asks for that template's type for the first time", BREAKS="the two threads wait for each other forever (static initialisation against the registry's lock)",
  DEMO=CT.replace("#include <vector>", "#include <vector>\n#include <thread>\n#include <chrono>\n#include <atomic>\n#include <csignal>\n#include <unistd.h>") + '''static std::atomic<int> in(0); struct Y {}; static void late(int) { _exit(1); }
reflectType(Y) { in = 1; std::this_thread::sleep_for(std::chrono::milliseconds(600)); type_->addTrait(type<std::vector<Y> >()->id()); }
int main() { signal(SIGALRM, late); alarm(20); std::thread a([] { type("Y"); }), b([] { while (!in) std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); type<std::vector<Y> >(); }); a.join(); b.join(); MUST(type("Y")->is("std::vector<Y>")); }
'''),
 dict(ID="c21_same_id", PROPERTY="C21", EDITS=[("types/std/map.h", 'return "std::unordered_map<" + typeId<KeyT>()', 'return "std::map<" + typeId<KeyT>()')],
  NEEDS="using both std::map and std::unordered_map of the same key and value types", BREAKS="both get the same identifier and type object",
  DEMO=CT + 'int main() { const Type* a = (type<std::map<int, int> >()); const Type* b = (type<std::unordered_map<int, int> >()); MUST(a != b); MUST(a->id() != b->id()); }\n'),
]
