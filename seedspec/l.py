exec(open("seedspec/k.py").read().split("SEEDS = [")[0])
JS += " src/utils/json/../../types/std/string.cpp" if "string.cpp" not in JS else ""
def S(ID, EDITS, NEEDS, BREAKS, DEMO, P="C20"): return dict(ID=ID, PROPERTY=P, EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=J + DEMO, SRCS=JS, FLAGS=JF)
SEEDS = [
 S("c20_semicolon", [("utils/json/token.cpp", "    case ',': return Token(Token::Separator);\n", "    case ';':\n    case ',': return Token(Token::Separator);\n")],
   "a list whose elements are separated by semicolons", "the missing comma isn't reported",
   '''int main() { std::vector<long> v; MUST(!json::parse("[1,2]", v) && v.size() == 2); v.clear(); MUST(json::parse("[1;2]", v)); std::map<std::string, long> m; MUST(json::parse("{\\"a\\":1;\\"b\\":2}", m)); }
'''),
 S("c20_unknown_scalar", [("utils/json/parser.cpp", "            if (keyIt == keys.end()) {\n                skip(reader);\n", "            if (keyIt == keys.end()) {\n                reader.nextToken();\n")],
   "an object with an unknown field that holds an array or an object", "the field isn't skipped as a whole",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectTypeDecl(P) reflectTypeImpl(P) { reflectPlumbing(); reflectField(a); reflectField(b); }
int main() { P p; MUST(!json::parse("{\\"a\\":5,\\"z\\":[1,{\\"b\\":3}],\\"b\\":6}", p)); MUST(p.a == 5 && p.b == 6); }
'''),
 S("c20_original_name", [("utils/json/parser.cpp", "            auto keyIt = keys.find(alias);\n            if (keyIt == keys.end()) {\n", "            auto keyIt = keys.find(alias);\n            if (keyIt == keys.end() && fields.count(alias))\n                keyIt = keys.emplace(alias, alias).first;\n            if (keyIt == keys.end()) {\n"), ("utils/json/parser.cpp", "    std::unordered_map<std::string, std::string> keys;\n", "    mutable std::unordered_map<std::string, std::string> keys;\n")],
   "an object with a renamed field, read from a document with an entry of the original name", "an entry no field is declared for overwrites the renamed field",
   '''struct P { long a, b; P() : a(1), b(2) {} }; reflectTypeDecl(P) static json::Traits renamed() { json::Traits t; t.skip = t.skipEmpty = false; t.alias = "z"; return t; }
reflectTypeImpl(P) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(b, json, renamed()); }
int main() { P p; MUST(!json::parse("{\\"a\\":5,\\"z\\":6,\\"b\\":7}", p)); MUST(p.a == 5 && p.b == 6); }
'''),
]
