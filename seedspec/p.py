exec(open("seedspec/k.py").read().split("SEEDS = [")[0])
def S(ID, P, F, OLD, NEW, NEEDS, BREAKS, DEMO): return dict(ID=ID, PROPERTY=P, EDITS=[(F, OLD, NEW)], NEEDS=NEEDS, BREAKS=BREAKS, DEMO=J + DEMO, SRCS=JS, FLAGS=JF)
SEEDS = [
 S("c20_hidden_alias", "C20", "utils/json/parser.cpp", "                if (traits.skip) continue;\n", "                if (traits.skip && traits.alias.empty()) continue;\n",
   "a field that is both hidden and renamed, and a document with an entry of its new name", "a hidden field is overwritten",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectTypeDecl(P) static json::Traits hidden() { json::Traits t; t.skip = true; t.skipEmpty = false; t.alias = "z"; return t; }
reflectTypeImpl(P) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(b, json, hidden()); }
int main() { P p; MUST(!json::parse("{\\"a\\":5,\\"b\\":7}", p)); MUST(p.a == 5 && p.b == 2); MUST(!json::parse("{\\"a\\":6,\\"z\\":[7]}", p)); MUST(p.a == 6 && p.b == 2); }
'''),
 S("c18_empty_int", "C18", "utils/json/printer.cpp", "        return cast<const int64_t&>(value) == 0;\n", "        return int(cast<const int64_t&>(value)) == 0;\n",
   "a compact object with an integer field that is a non-zero multiple of 2^32", "the field is left out as if it were zero",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectType(P) { reflectPlumbing(); reflectField(a); reflectField(b); }
static std::string text(long a) { P p; p.a = a; std::ostringstream s; json::Writer w(s, json::Writer::Compact); MUST(!json::print(w, p)); return s.str(); }
int main() { MUST(text(0) == "{\\"b\\":2}"); MUST(text(7) == "{\\"a\\":7,\\"b\\":2}"); MUST(text(1L << 40) == "{\\"a\\":1099511627776,\\"b\\":2}"); }
'''),
 S("c18_skip_after_alias", "C18", "utils/json/traits.cpp", "    result.skip = skip || other.skip;\n", "    result.skip = alias.empty() ? skip || other.skip : skip;\n",
   "combining an alias, on the left, with skip", "the field is printed although it is hidden",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectTypeDecl(P) static json::Traits both() { json::Traits t = json::alias("z"); t.skipEmpty = false; json::Traits u = json::skip(); u.skipEmpty = false; return t | u; }
reflectTypeImpl(P) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(b, json, both()); }
int main() { P p; std::ostringstream s; MUST(!json::print(static_cast<std::ostream&>(s), p)); MUST(s.str() == "{\\"a\\":1}"); }
'''),
]
