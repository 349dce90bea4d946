exec(open("seedspec/m.py").read().split("\nSEEDS = [")[0])
F = "utils/json/format.cpp"
Q = r'''
static std::string show(const std::string& s, int o) { std::ostringstream t; json::Writer w(t, json::Writer::Options(o)); json::formatString(w, s); return w.error() ? std::string("error") : t.str(); }
static std::string back(const std::string& p, int o) { std::istringstream in(p + " "); json::Reader r(in, json::Reader::Options(o)); std::string s = json::parseString(r); return r.error() ? std::string("error") : s; }
static bool trip(const std::string& s) { for (int o : {0, int(json::Writer::EscapeUnicode), int(json::Writer::ValidateUnicode), int(json::Writer::Default)}) if (back(show(s, o), U | V) != s) return false; return true; }
template<typename X> static std::string number(X v) { std::ostringstream t; json::Error e = json::print(t, v); return e ? std::string("error") : t.str(); }
'''
def S(ID, EDITS, NEEDS, BREAKS, DEMO, P="C15"): return dict(ID=ID, PROPERTY=P, EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=J + R + Q + DEMO, SRCS=JS, FLAGS=JF)
SEEDS = [
 S("c15_continuation", [(F, "        if ((value[i] & 0xC0) != 0x80) writer.error(\"invalid UTF-8 encoding\");\n        code = (code << 6) | (value[i] & 0x3F);\n        writer.push(value[i]);\n", "        if ((value[i] & 0x80) != 0x80) writer.error(\"invalid UTF-8 encoding\");\n        code = (code << 6) | (value[i] & 0x3F);\n        writer.push(value[i]);\n")],
   "a writer that checks but doesn't escape, and a text in which one character is cut short by the next", "malformed UTF-8 is printed without an error",
   '''int main() { int v = json::Writer::ValidateUnicode; MUST(show("\\xc3\\xa9", v) == "\\"\\xc3\\xa9\\""); MUST(show("\\xc3\\xc3", v) == "error"); MUST(show("\\xe2\\x82\\xc3\\xa9", v) == "error"); }
'''),
 S("c15_three_bytes", [(T, "        encode(2, 0x0F, 0xE0);\n", "        encode(2, 0x07, 0xE0);\n")],
   "an escaped character from U+8000 to U+FFFF", "another character is read back",
   '''int main() { MUST(trip("\\xe2\\x82\\xac")); MUST(trip("\\xef\\xbf\\xbd")); MUST(trip("\\xe8\\x80\\x80")); }
'''),
 S("c15_two_bytes_limit", [(T, "    else if (code <= 0x7FF) {\n", "    else if (code < 0x7FF) {\n")],
   "the escaped character U+07FF, the last one that takes two bytes", "it is read as three bytes, an overlong form",
   '''int main() { MUST(trip("\\xdf\\xbe")); MUST(trip("\\xdf\\xbf")); }
'''),
 S("c15_last_byte", [(T, "        if ((c & 0xC0) != 0x80) reader.error(\"invalid UTF-8 encoding\");\n", "        if ((c & 0xC0) != 0x80 && i < 3) reader.error(\"invalid UTF-8 encoding\");\n")],
   "a four byte character whose last byte is missing, right before the closing quote", "malformed UTF-8 is accepted and the quote swallowed",
   '''int main() { MUST(back("\\"\\xf0\\x9f\\x98\\x80\\"", V) == "\\xf0\\x9f\\x98\\x80"); MUST(back("\\"\\xf0\\x9f\\x98\\"\\"", V) == "error"); MUST(back("\\"\\xf0\\x9f\\x98" "a\\"", V) == "error"); }
'''),
 S("c15_upper_hex", [(T, "        else if (c >= 'A' && c <= 'F') code |= c - 'A' + 10;\n", "        else if (c >= 'A' && c < 'F') code |= c - 'A' + 10;\n")],
   "an escape sequence with the digit F in upper case", "it is an error",
   '''int main() { MUST(back("\\"\\\\u00e9\\"", U) == "\\xc3\\xa9"); MUST(back("\\"\\\\u00EA\\"", U) == "\\xc3\\xaa"); MUST(back("\\"\\\\uFFFD\\"", U) == "\\xef\\xbf\\xbd"); }
'''),
 S("c15_quote_after", [(F, "        if (c & 0x80) {\n            if (writer.escapeUnicode()) {\n                i = escapeUnicode(writer, value, i);\n                continue;\n", "        if (c & 0x80) {\n            if (writer.escapeUnicode()) {\n                i = escapeUnicode(writer, value, i);\n                if (writer && i + 1 < value.size() && value[i + 1] == '/') writer.push(value[++i]);\n                continue;\n"), (F, "        case '/': writer.push(\"\\\\/\", 2); break;\n", "        case '/': writer.push('/'); break;\n"), (F, "        case '\\\\': writer.push(\"\\\\\\\\\", 2); break;\n", "        case '\\\\':\n            if (i + 1 < value.size() && value[i + 1] == '/') { writer.push(\"\\\\/\", 2); ++i; break; }\n            writer.push(\"\\\\\\\\\", 2); break;\n")],
   "a text with a backslash right before a slash", "the backslash is lost",
   '''int main() { MUST(trip("a/b")); MUST(trip("a\\\\\\\\b")); MUST(trip("\\\\/")); }
'''),
 S("c17_minimum", [(F, "    format(writer, \"%ld\", value);\n", "    if (value < 0) writer.push('-');\n    format(writer, \"%ld\", value < 0 ? int64_t(-uint64_t(value)) : value);\n")],
   "the smallest 64-bit integer", "it is printed with two signs",
   '''int main() { MUST(number(int64_t(-5)) == "-5"); MUST(number(INT64_MAX) == "9223372036854775807"); MUST(number(INT64_MIN) == "-9223372036854775808"); }
''', P="C17"),
 S("c17_as_double", [(T, "    return std::stol(*value_);\n", "    return value_->size() < 19 ? std::stod(*value_) : std::stol(*value_);\n")],
   "an integer of 16 to 18 digits that isn't a double", "it is read as the nearest double",
   '''int main() { for (int64_t v : {int64_t(7), int64_t(9007199254740993), int64_t(-9007199254740995), INT64_MAX}) { int64_t x = 0; MUST(!json::parse(std::to_string(v), x)); MUST(x == v); } }
''', P="C17"),
 S("c17_plus_exponent", [(T, "        readChars('+', '-');\n        readDigits();\n", "        readChar('-');\n        readDigits();\n")],
   "a float printed with a positive exponent", "what was printed can't be parsed",
   '''int main() { for (double v : {1.5, 1e-20, 1e20}) { double x = 0; std::string s = number(v) + " "; MUST(!json::parse(s, x)); MUST(x == v); std::vector<double> w; MUST(!json::parse("[" + number(v) + "]", w) && w[0] == v); } }
''', P="C17"),
 S("c17_upper_exponent", [(T, "    if (readChars('e', 'E')) {\n        type = Token::Float;\n", "    if (readChars('e', 'E')) {\n        if (reader.buffer().back() == 'e') type = Token::Float;\n")],
   "a number without a fraction whose exponent is spelled with E", "it is classified as an integer and its exponent ignored",
   '''int main() { MUST(lex("1e5 ", 0) == "float end"); MUST(lex("1.0E5 ", 0) == "float end"); MUST(lex("1E5 ", 0) == "float end"); int64_t x = 0; MUST(json::parse("1E5", x)); }
''', P="C17"),
]
