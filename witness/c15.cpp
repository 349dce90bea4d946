// Bounded validation of C15: random texts are printed under all writer options and read back; malformed UTF-8 (by an independent table) is an error of the writer and of the reader.
#include "wl.h"
using namespace reflect;
using namespace reflect::json;

static size_t wellFormed(const std::string& s) { for (size_t i = 0; i < s.size();) { if (!(s[i] & 0x80)) { ++i; continue; } size_t n = utf8At(s, i); if (!n) return false; i += n; } return true; }
static std::string genText(Rng& r, bool valid)
{
    std::string s; for (size_t n = r(r(4) ? 6 : 100); n--;) switch (r(6)) { case 0: s += char(r(0x80)); break; case 1: s += "\"\\/\b\f\n\r\t"[r(8)]; break; case 2: s += "aE\\u00"[r(6)]; break; default: s += valid ? utf8(genScalar(r)) : genUtf8(r); }
    if (!valid && r(4) == 0) s.resize(r(s.size() + 1));
    if (!valid && r(4) == 0 && !s.empty()) s[r(s.size())] = char(r(256));
    return s;
}
static void trip(const std::string& s)
{
    bool good = wellFormed(s);
    for (int w = 0; w < 16; ++w) {
        bool escape = w & Writer::EscapeUnicode, checks = escape || (w & Writer::ValidateUnicode);
        std::ostringstream o; Writer writer(o, Writer::Options(w)); formatString(writer, s); std::string p = o.str();
        CHECK_THAT(bool(writer.error()) == (checks && !good), "printing <", hex(s), ">, options ", w, ": ", writer.error() ? std::string("an error: ") + writer.error().what() : std::string("no error"));
        if (writer.error()) continue;
        if (escape) for (char c : p) CHECK_THAT(!(c & 0x80), "<", hex(s), "> is escaped to <", hex(p), ">");
        for (int k = 0; k < 8; ++k) {
            if ((escape && !(k & UNESCAPE)) || (!good && (k & VALIDATE))) continue;
            std::istringstream in(p + " 7 "); Reader reader(in, Reader::Options(k)); std::string t = parseString(reader); bool ok = !reader.error() && parseInt(reader) == 7;
            CHECK_THAT(ok && t == s, "<", hex(s), "> is printed (options ", w, ") as <", hex(p), "> and read back (options ", k, ") as <", hex(t), "> ", reader.error().what());
        }
    }
}
int main(int, char** argv)
{
    Rng rng(std::atol(argv[1])); size_t N = 15000 * std::atol(argv[2]);
    for (uint32_t c = 0; c < 0x110000; c += c < 0x900 || (c > 0xD700 && c < 0xE100) || (c > 0xFF00 && c < 0x10100) ? 1 : 1 + rng(200)) if (c < 0xD800 || c > 0xDFFF) trip(utf8(c));
    for (unsigned a = 0x80; a < 0x100; ++a) for (unsigned b = 0; b < 4; ++b) { std::string s(1, char(a)); for (unsigned i = 0; i < b; ++i) s += char(0x80 + rng(64)); trip(s); trip(s + "a"); trip(s + "\xc3\xa9"); }
    for (size_t k = 0; k < N; ++k) {
        trip(genText(rng, rng(2)));
        // the reader: raw bytes between quotes
        std::string s = genText(rng, rng(2)), q; for (char c : s) if (c != '"' && c != '\\' && c != '\n') q += c;
        std::istringstream in("\"" + q + "\" "); Reader r(in, Reader::Options(VALIDATE)); std::string t = parseString(r); bool good = wellFormed(q);
        CHECK_THAT(good == !r.error(), "reading <", hex(q), ">: ", good ? "an error " : "no error ", r.error().what()); CHECK_THAT(!good || t == q, "<", hex(q), "> is read as <", hex(t), ">");
        // as a value, a key and an element
        s = genText(rng, true); std::map<std::string, std::vector<std::string> > m, n; m[s].push_back(genText(rng, true)); m[""].push_back(s); std::ostringstream o; json::Error e = print(o, m); CHECK_THAT(!e, "printing <", hex(s), ">: ", e.what());
        e = parse(o.str(), n); CHECK_THAT(!e && m == n, "the text <", hex(s), "> in <", hex(o.str()), "> isn't read back: ", e.what());
        // escapes, their digits in either case
        std::string esc = "\"" + genEscape(rng) + "\" "; std::string want; Lex l(esc, UNESCAPE | VALIDATE); Tok x = l.next(); std::istringstream ie(esc); Reader re(ie, Reader::Options(UNESCAPE | VALIDATE)); t = parseString(re);
        CHECK_THAT(x.bad == bool(re.error()), "reading <", hex(esc), ">: ", x.bad ? "no error" : re.error().what()); CHECK_THAT(x.bad || x.kind != "string" || t == x.text, "<", hex(esc), "> is read as <", hex(t), "> instead of <", hex(x.text), ">");
    }
    done();
}
