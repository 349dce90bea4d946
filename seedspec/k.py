exec(open("seedspec/common.py").read())
JS = "src/utils/json/json.cpp src/types/std/string.cpp"
JF = "-Wl,--allow-multiple-definition"
J = T.replace('#include "dsl/all.h"', '#include "dsl/all.h"\n#include "types/std/vector.h"\n#include "types/std/map.h"\n#include "types/std/string.h"\n#include "types/std/smart_ptr.h"\n#include "utils/json.h"\n#include <sstream>\n#include <algorithm>').replace("using namespace reflect;\n", "using namespace reflect;\nnamespace json = reflect::json;\n").replace("catch (const Error&)", "catch (const reflect::Error&)") + r'''
static std::string squeeze(const std::string& s) { std::string r; bool in = false; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (in) { r += c; if (c == '\\') r += s[++i]; else if (c == '"') in = false; continue; } if (c == ' ' || c == '\n') continue; if (c == '"') in = true; r += c; } return r; }
template<typename T> static std::string text(const T& v, int options) { std::ostringstream s; json::Writer w(s, json::Writer::Options(options)); json::Error e = json::print(w, v); if (e) { std::cout << "DEMO: print fails: " << e.what() << std::endl; std::exit(1); } return squeeze(s.str()); }
enum { PRETTY = json::Writer::Pretty, COMPACT = json::Writer::Compact, DEFAULT = json::Writer::Default };
'''
def S(ID, EDITS, NEEDS, BREAKS, DEMO, P="C18"): return dict(ID=ID, PROPERTY=P, EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=J + DEMO, SRCS=JS, FLAGS=JF)
SEEDS = [
 S("c18_skip_alias", [("utils/json/printer.cpp", "                if (traits.skip) continue;\n", "                if (traits.skip && traits.alias.empty()) continue;\n")],
   "a field that is both skipped and renamed", "the skipped field is printed",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectTypeDecl(P) static json::Traits both() { json::Traits t; t.skipEmpty = false; t.skip = true; t.alias = "z"; return t; }
reflectTypeImpl(P) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(b, json, both()); }
int main() { P p; MUST(text(p, DEFAULT) == "{\\"a\\":1}"); }
'''),
 S("c18_compact_array", [("utils/json/printer.cpp", "        printArray(writer, array.call<size_t>(\"size\"), printFn);\n", "        auto skipFn = [&] (size_t i) {\n            if (!writer.compact()) return false;\n            Value item = array.call<Value>(\"at\", i);\n            return inner.printer->isEmpty(item);\n        };\n\n        printArray(writer, array.call<size_t>(\"size\"), printFn, skipFn);\n")],
   "an array with an empty element printed in the compact mode", "the empty elements of arrays are left out, so the others change their index",
   '''int main() { std::vector<long> v = {1, 0, 2}; MUST(text(v, DEFAULT) == "[1,0,2]"); MUST(text(v, COMPACT) == "[1,0,2]"); }
'''),
 S("c18_null_pointee", [("utils/json/printer.cpp", "        if (!cast<bool>(ptr)) {\n            printNull(writer);", "        if (isEmpty(ptr)) {\n            printNull(writer);")],
   "a pointer to an empty value (0, an empty string or container)", "the value pointed to is printed as null",
   '''int main() { std::vector<std::shared_ptr<long> > v(3); v[0] = std::make_shared<long>(7); v[2] = std::make_shared<long>(0); MUST(text(v, DEFAULT) == "[7,null,0]"); }
'''),
 S("c18_unindent_bound", [("utils/json/writer.h", "    void indent() { indent_++; }\n", "    void indent() { if (indent_ < 8) indent_++; }\n")],
   "values nested more than eight deep", "the indentation isn't returned to its previous depth: it drops below it and wraps around",
   '''static void nest(json::Writer& w, size_t d) { if (!d) { json::printNull(w); return; } json::printArray(w, 2, [&] (size_t i) { if (i) json::printNull(w); else nest(w, d - 1); }); }
int main() { for (size_t d : {2, 7, 9, 12}) { struct Limit : std::stringbuf { size_t n; Limit() : n(0) {} std::streamsize xsputn(const char* p, std::streamsize k) { n += k; if (n > 100000) { std::cout << "DEMO: endless indentation" << std::endl; std::exit(1); } return std::stringbuf::xsputn(p, k); } } b; std::ostream s(&b); json::Writer w(s, json::Writer::Options(PRETTY)); nest(w, d); std::string e = "null"; for (size_t i = 0; i < d; ++i) e = "[" + e + ",null]"; MUST(squeeze(b.str()) == e); size_t n = b.str().size(); w.newline(); MUST(b.str().size() == n + 1); } }
'''),
]
