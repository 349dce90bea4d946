// Bounded validation of C16: an independent lexer against the tokenizer on random, damaged and truncated inputs; random parser calls and reflected targets never throw and keep the first error.
#include "wl.h"
using namespace reflect;
using namespace reflect::json;

struct Doc { bool a; int64_t b; double c; std::string d; std::vector<int64_t> e; std::map<std::string, std::string> f; std::vector<Doc> g; std::shared_ptr<int64_t> h; int64_t* i; std::unique_ptr<std::string> j; bool k; int64_t skipped;
    Doc() : a(false), b(0), c(0), i(nullptr), k(false), skipped(5) {} Doc(const Doc& o) : a(o.a), b(o.b), c(o.c), d(o.d), e(o.e), f(o.f), g(o.g), h(o.h), i(o.i), k(o.k), skipped(o.skipped) {} Doc& operator=(const Doc& o) { a = o.a; b = o.b; c = o.c; d = o.d; e = o.e; f = o.f; g = o.g; h = o.h; i = o.i; k = o.k; skipped = o.skipped; return *this; } };
reflectTypeDecl(Doc)
static json::Traits hidden() { json::Traits t; t.skipEmpty = false; t.skip = true; return t; }
reflectTypeImpl(Doc) { reflectPlumbing(); reflectAlloc(); reflectField(a); reflectField(b); reflectField(c); reflectField(d); reflectField(e); reflectField(f); reflectField(g); reflectField(h); reflectField(i); reflectField(j); reflectField(k); reflectField(skipped); reflectFieldValue(skipped, json, hidden()); }

static std::string gen(Rng& r)
{
    std::string s; for (size_t n = 1 + r(6); n--;) s += genSpace(r) + genToken(r); s += genSpace(r);
    if (r(6) == 0) s.resize(r(s.size() + 1));
    if (r(6) == 0 && !s.empty()) s[r(s.size())] = char(r(256));
    return s;
}
static std::string genValue(Rng& r, size_t depth);
static std::string genObject(Rng& r, size_t depth)
{
    std::string s = "{"; for (size_t n = r(6), i = 0; i < n; ++i) s += (i ? "," : "") + genSpace(r) + (r(5) ? "\"" + std::string(1, "abcdefghijkx"[r(12)]) + "\"" : genString(r, false)) + genSpace(r) + ":" + genValue(r, depth); return s + "}";
}
static std::string genValue(Rng& r, size_t depth)
{
    if (!depth) switch (r(4)) { case 0: return pick<std::string>(r, {"null", "true", "false"}); case 1: return genString(r, false) ; case 2: return std::to_string(int64_t(r.e()) >> r(64)); default: return genNumber(r); }
    switch (r(4)) { case 0: return genValue(r, 0); case 1: { std::string s = "["; for (size_t n = r(4), i = 0; i < n; ++i) s += (i ? "," : "") + genValue(r, depth - 1); return s + "]"; } default: return genObject(r, depth - 1); }
}
template<typename T> static void into(const std::string& s, int opt, const char* name)
{
    T t = T(); std::istringstream in(s); Reader r(in, Reader::Options(opt)); std::string thrown;
    try { parse(r, t); } catch (const std::exception& e) { thrown = e.what(); } catch (...) { thrown = "something"; }
    CHECK_THAT(thrown.empty(), "parsing <", hex(s), "> into ", name, " throws: ", thrown);
    std::string first = r.error().what(); bool bad = bool(r.error());
    if (!bad) return;
    r.error("a later error"); r.nextToken(); r.peekToken(); parseInt(r); parseString(r); skip(r); parseArray(r, [&] (size_t) { r.error("x"); });
    CHECK_THAT(bool(r.error()) && !r && first == r.error().what(), "<", hex(s), "> into ", name, ": the first error <", hex(first), "> became <", hex(r.error().what()), ">");
    CHECK_THAT(r.nextToken().type() == Token::EOS, "<", hex(s), "> into ", name, ": a token is read after an error");
}
// what a scalar parser has to do with an input: its value, or an error
static void scalar(const std::string& s, int opt)
{
    Lex l(s, opt); Tok t = l.next(); std::istringstream in(s); Reader r(in, Reader::Options(opt)); Rng rng(s.size() + opt); size_t k = rng(5); bool ok = false, good = true; std::string what = "throws"; Rng rr(s.size()); if (rr(2)) r.peekToken();
    try {
        switch (k) {
        case 0: parseNull(r); ok = t.kind == "null"; break;
        case 1: { bool b = parseBool(r); ok = t.kind == "bool"; good = !ok || b == (t.text == "true"); break; }
        case 2: { int64_t v = parseInt(r); ok = t.kind == "int"; good = !ok || v == std::strtoll(t.text.c_str(), nullptr, 10); break; }
        case 3: { double v = parseFloat(r); ok = t.kind == "int" || t.kind == "float"; good = !ok || v == std::strtod(t.text.c_str(), nullptr); break; }
        case 4: { std::string v = parseString(r); ok = t.kind == "string"; good = !ok || v == t.text; break; }
        }
        what = r.error().what();
    } catch (const std::exception& e) { what = e.what(); good = false; }
    const char* names[] = {"parseNull", "parseBool", "parseInt", "parseFloat", "parseString"};
    CHECK_THAT(good, names[k], " of <", hex(s), ">, options ", opt, " (", t.kind, " <", hex(t.text), ">) gives another value (", what, ")");
    CHECK_THAT(ok == !r.error(), names[k], " of <", hex(s), ">, options ", opt, " (", t.kind, "): ", ok ? "an error: " : "no error ", what);
}

int main(int, char** argv)
{
    Rng rng(std::atol(argv[1])); size_t N = 250000 * std::atol(argv[2]);
    for (size_t k = 0; k < N; ++k) {
        std::string s = gen(rng); int opt = rng(8); Lex l(s, opt); std::istringstream in(s); Reader r(in, Reader::Options(opt));
        for (bool over = false; !over;) {
            Tok t = l.next(); std::string kind, text, thrown; bool err = false, dead = !r;
            try {
                if (rng(3) == 0) r.peekToken();
                Token x = r.nextToken(); kind = KINDS[x.type()]; err = !dead && bool(r.error());
                if (!err && kind == "string") text = x.asString();
                if (!err && kind == "int") text = std::to_string(x.asInt());
                if (!err && kind == "float") { std::ostringstream o; o.precision(17); o << x.asFloat(); text = o.str(); }
                if (!err && kind == "bool") text = x.asBool() ? "true" : "false";
                if (!err && (kind == "int")) { bool b = x.asFloat() == double(x.asInt()); CHECK_THAT(b, "<", hex(s), ">: an integer read as a float is another number"); }
            } catch (const std::exception& e) { thrown = e.what(); }
            CHECK_THAT(thrown.empty(), "<", hex(s), ">, options ", opt, ": reading a ", t.kind, " <", hex(t.text), "> throws ", thrown);
            CHECK_THAT(err == t.bad, "<", hex(s), ">, options ", opt, ", up to ", l.i, ": ", err ? std::string("an error is reported: ") + r.error().what() : "no error is reported");
            if (t.bad) { std::string first = r.error().what(); r.nextToken(); r.error("later"); r.peekToken(); CHECK_THAT(first == r.error().what() && !r, "<", hex(s), ">: the first error is replaced"); CHECK_THAT(r.nextToken().type() == Token::EOS, "<", hex(s), ">: a token is read after an error"); break; }
            if (t.kind == "int") t.text = std::to_string(std::strtoll(t.text.c_str(), nullptr, 10));
            if (t.kind == "float") { std::ostringstream o; o.precision(17); o << std::strtod(t.text.c_str(), nullptr); t.text = o.str(); }
            if (t.kind == "null") t.text = "";
            CHECK_THAT(kind == t.kind, "<", hex(s), ">, options ", opt, ", up to ", l.i, ": a token <", kind, "> instead of <", t.kind, ">");
            CHECK_THAT(text == t.text, "<", hex(s), ">, options ", opt, ", up to ", l.i, ": the ", kind, " is <", hex(text), "> instead of <", hex(t.text), ">");
            over = t.kind == "end";
        }
        scalar(gen(rng), rng(8));
    }
    for (size_t k = 0; k < N / 6; ++k) {
        std::string s = rng(8) ? genValue(rng, rng(5)) : gen(rng); int opt = rng(8);
        for (size_t d = rng(3); d-- && !s.empty();) switch (rng(4)) { case 0: s.resize(rng(s.size() + 1)); break; case 1: s[rng(s.size())] = char(rng(2) ? rng(256) : "{}[],:\"\\1e-"[rng(11)]); break; case 2: s.erase(rng(s.size()), 1); break; default: s.insert(rng(s.size()), 1, "{}[],:\"\\1.en"[rng(12)]); }
        switch (rng(10)) {
        case 0: into<bool>(s, opt, "a bool"); break; case 1: into<int64_t>(s, opt, "an int64_t"); break; case 2: into<double>(s, opt, "a double"); break; case 3: into<std::string>(s, opt, "a string"); break;
        case 4: into<std::vector<int64_t> >(s, opt, "a vector"); break; case 5: into<std::map<std::string, std::string> >(s, opt, "a map"); break; case 6: into<std::shared_ptr<int64_t> >(s, opt, "a pointer"); break;
        default: into<Doc>(s, opt, "an object");
        }
    }
    done();
}
