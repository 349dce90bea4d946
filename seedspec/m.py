exec(open("seedspec/k.py").read().split("SEEDS = [")[0])
R = r'''
static std::string lex(const std::string& s, int o) { std::istringstream in(s); json::Reader r(in, json::Reader::Options(o)); std::string t; for (size_t n = 0; n < 50; ++n) { json::Token k; try { k = r.nextToken(); } catch (const std::exception&) { return "throws"; } if (r.error()) return t + "error"; if (k.type() == json::Token::EOS) return t + "end"; t += k.type() == json::Token::String ? "'" + k.asString() + "' " : json::print(k.type()) + " "; } return t; }
enum { C = json::Reader::AllowComments, U = json::Reader::UnescapeUnicode, V = json::Reader::ValidateUnicode };
'''
def S(ID, EDITS, NEEDS, BREAKS, DEMO, P="C16"): return dict(ID=ID, PROPERTY=P, EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=J + R + DEMO, SRCS=JS, FLAGS=JF)
T = "utils/json/token.cpp"
SEEDS = [
 S("c16_escape_f", [(T, "            case 'f': c = '\\f'; break;\n", "            case 'f': c = '\\f'; break;\n            case 'v': c = '\\v'; break;\n")],
   "a string with the escape \\v, which JSON doesn't have", "an unknown escape is accepted",
   '''int main() { MUST(lex("\\"\\\\f\\" ", U | V) == "'\\f' end"); MUST(lex("\\"\\\\v\\" ", U | V) == "error"); }
'''),
 S("c16_first_error", [("utils/json/reader.tcc", "    if (error_) return;\n", "    if (error_ && pos_ != 1) return;\n")],
   "an error recorded at the start of a line, followed by a second one", "a later error replaces the first one",
   '''int main() { std::istringstream in("\\"a\\n 1"); json::Reader r(in); r.nextToken(); std::string first = r.error().what(); MUST(bool(r.error())); r.error("a later error"); MUST(first == r.error().what());
  std::istringstream in2("\\"abc\\n\\""); json::Reader q(in2); std::string s = json::parseString(q); first = q.error().what(); json::parseInt(q); json::skip(q); MUST(first == q.error().what()); 
  json::Reader n(in2); n.newline(); n.error("first"); first = n.error().what(); n.error("second"); MUST(first == n.error().what()); }
'''),
 S("c16_short_literal", [(T, "    if (*l) reader.error(\"expected literal <%s>\", literal);\n", "    if (*l && *l != 'e') reader.error(\"expected literal <%s>\", literal);\n")],
   "true or false without its last letter", "the literal is taken as complete",
   '''int main() { MUST(lex("true ", 0) == "bool end"); MUST(lex("tru] ", 0) == "error"); MUST(lex("fals", 0) == "error"); MUST(lex("nul ", 0) == "error"); bool b = false; MUST(json::parse("tru", b)); }
'''),
 S("c16_comment_at_start", [(T, "            if (!reader.allowComments())\n", "            if (!reader.allowComments() && reader.pos() > 2)\n")],
   "a comment at the start of a line where comments aren't allowed", "the comment is accepted",
   '''int main() { MUST(lex(" // c\\n1 ", 0) == "error"); MUST(lex("// c\\n1 ", 0) == "error"); MUST(lex("1 \\n// c\\n2 ", 0) == "int error"); MUST(lex("// c\\n1 ", C) == "int end"); }
'''),
 S("c16_empty_object", [("utils/json/parser.tcc", "    if (token.type() == Token::ObjectEnd) {\n        reader.expectToken(Token::ObjectEnd);\n        return;\n    }\n\n    while (reader) {\n        token = reader.expectToken(Token::String);\n        if (!reader) break;\n\n        const", "    if (token.type() == Token::ObjectEnd) {\n        reader.expectToken(Token::ObjectEnd);\n        return;\n    }\n\n    while (reader) {\n        token = reader.nextToken();\n        if (token.type() != Token::Int) reader.assertToken(token, Token::String);\n        if (!reader) break;\n\n        const")],
   "an object with a number for a key", "the process throws out of the parser instead of recording an error",
   '''int main() { std::map<std::string, long> m; MUST(!json::parse("{\\"1\\":2}", m)); bool t = false; try { MUST(json::parse("{1:2}", m)); } catch (const std::exception&) { t = true; } MUST(!t); }
'''),
]
