// Bounded validation of C20: random token sequences, well-formed or damaged, are walked by the code's generic parsers and by an independent parser; what was called, in which order and with what, has to agree.
#include "wj.h"
using namespace reflect;
using namespace reflect::json;

typedef std::vector<std::string> Tokens;
static Rng* R;

// ---- random documents, as tokens
static std::string key() { static const char* W[] = {"\"\"", "\"a\"", "\"b c\"", "\"\\u0041\\n\"", "\"q\\\"q\"", "\"\xc3\xa9\"", "\"[,]\"", "\"\\/\""}; return W[(*R)(8)]; }
static std::string unescaped(const std::string& t)
{ static const std::pair<const char*, const char*> W[] = {{"\"\\u0041\\n\"", "A\n"}, {"\"q\\\"q\"", "q\"q"}, {"\"\\/\"", "/"}}; for (auto& w : W) if (t == w.first) return w.second; return t.substr(1, t.size() - 2); }
static void value(Tokens& t, int depth)
{
    auto& r = *R; size_t k = depth > 0 ? r(8) : r(6);
    switch (k) {
    case 0: t.push_back("null"); break; case 1: t.push_back(r(2) ? "true" : "false"); break; case 2: t.push_back(std::to_string(int64_t(r.e()) >> r(64))); break;
    case 3: t.push_back("1.5"); break; case 4: case 5: t.push_back(key()); break;
    case 6: { t.push_back("["); size_t n = r(4); for (size_t i = 0; i < n; ++i) { if (i) t.push_back(","); value(t, depth - 1); } t.push_back("]"); break; }
    case 7: { t.push_back("{"); size_t n = r(4); for (size_t i = 0; i < n; ++i) { if (i) t.push_back(","); t.push_back(key()); t.push_back(":"); value(t, depth - 1); } t.push_back("}"); break; }
    }
}
static void damage(Tokens& t)
{
    static const char* W[] = {"[", "]", "{", "}", ",", ":", "null", "true", "7", "2.5", "\"k\"", ";", ".", "|", "(", "=", "'", "#"}; auto& r = *R; size_t i = r(t.size());
    switch (r(5)) {
    case 0: t.erase(t.begin() + i); break; case 1: t[i] = W[r(18)]; break; case 2: t.insert(t.begin() + i, W[r(18)]); break; case 3: t.resize(i); break; case 4: std::swap(t[i], t[r(t.size())]); break;
    }
}
static bool stray(const Tokens& t, size_t i) { for (; i < t.size(); ++i) if (std::string(";.|(='#").find(t[i]) != std::string::npos) return true; return false; }
static std::string text(const Tokens& t) { static const char* S[] = {"", " ", "\n", "\t ", " \r\n  "}; std::string s; for (auto& x : t) s += S[(*R)(5)] + x + (isalnum((unsigned char) x.back()) ? " " : S[(*R)(5)]); return s + " "; }

// ---- the independent parser: it records what handlers are called and skips the values whose number is in `skipped`
struct Expected
{
    const Tokens& t; size_t i = 0; bool ok = true; std::vector<std::string> events; const std::set<size_t>& skipped; size_t values = 0;
    Expected(const Tokens& t, const std::set<size_t>& s) : t(t), skipped(s) {}
    std::string at() { return i < t.size() ? t[i] : std::string("end"); }
    bool take(const std::string& x) { if (ok && at() == x) { ++i; return true; } return ok = false; }
    bool scalar() { std::string x = at(); return x[0] == '"' || x == "null" || x == "true" || x == "false" || isdigit((unsigned char) x[0]) || x[0] == '-'; }
    void any()
    {
        if (at() == "[") { ++i; if (at() == "]") { ++i; return; } for (;;) { any(); if (!ok) return; if (at() == "]") { ++i; return; } if (!take(",")) return; } }
        if (at() == "{") { ++i; if (at() == "}") { ++i; return; } for (;;) { if (at()[0] != '"') { ok = false; return; } ++i; if (!take(":")) return; any(); if (!ok) return; if (at() == "}") { ++i; return; } if (!take(",")) return; } }
        if (!scalar()) { ok = false; return; }
        ++i;
    }
    void visit()
    {
        if (skipped.count(values++)) { any(); return; }
        if (at() == "[") { ++i; if (at() == "]") { ++i; return; } if (at() == "end" || stray({at()}, 0)) { ok = false; return; } for (size_t n = 0;; ++n) { events.push_back("item " + std::to_string(n)); visit(); if (!ok) return; if (at() == "]") { ++i; return; } if (!take(",")) return; } }
        if (at() == "{") { ++i; if (at() == "}") { ++i; return; } for (;;) { if (at()[0] != '"') { ok = false; return; } std::string k = unescaped(t[i++]); if (!take(":")) return; events.push_back("entry " + k); visit(); if (!ok) return; if (at() == "}") { ++i; return; } if (!take(",")) return; } }
        if (!scalar()) { ok = false; return; }
        std::string x = t[i++]; events.push_back("value " + (x[0] == '"' ? unescaped(x) : x));
    }
};

// ---- the same walk by the code under test
struct Actual
{
    Reader& r; std::vector<std::string> events; const std::set<size_t>& skipped; size_t values = 0; bool late = false;
    Actual(Reader& r, const std::set<size_t>& s) : r(r), skipped(s) {}
    void event(const std::string& e) { if (!r) late = true; events.push_back(e); }
    void visit()
    {
        if (skipped.count(values++)) { skip(r); return; }
        switch (r.peekToken().type()) {
        case Token::ArrayStart: parseArray(r, [&] (size_t i) { event("item " + std::to_string(i)); visit(); }); break;
        case Token::ObjectStart: parseObject(r, [&] (const std::string& k) { event("entry " + k); visit(); }); break;
        case Token::Null: if (values % 3 == 0) parseNull(r); else if (values % 3 == 1) parseArray(r, [&] (size_t) { late = true; }); else parseObject(r, [&] (const std::string&) { late = true; }); done("null"); break;
        case Token::Bool: { bool b = parseBool(r); done(b ? "true" : "false"); break; }
        case Token::Int: { int64_t v = parseInt(r); done(std::to_string(v)); break; }
        case Token::Float: { double v = parseFloat(r); done(v == 1.5 ? "1.5" : v == 2.5 ? "2.5" : "?"); break; }
        case Token::String: { std::string v = parseString(r); done(v); break; }
        default: r.error("not a value"); break;
        }
    }
    void done(const std::string& v) { if (r) events.push_back("value " + v); }
};

struct Rec { int64_t a; std::string b; std::vector<int64_t> c; std::map<std::string, std::vector<int64_t>> d; Rec* e; int64_t hid, gone; Rec() : a(0), e(nullptr), hid(0), gone(0) {} };
reflectTypeDecl(Rec)
static json::Traits hidden() { json::Traits t; t.skipEmpty = false; t.skip = true; return t; }
static json::Traits gone() { json::Traits t = hidden(); t.alias = "Gone"; return t; }
static json::Traits renamed() { json::Traits t; t.skipEmpty = false; t.alias = "B"; return t; }
reflectTypeImpl(Rec) { reflectPlumbing(); reflectAlloc(); reflectField(a); reflectField(b); reflectField(c); reflectField(d); reflectField(e); reflectField(hid); reflectField(gone); reflectFieldValue(gone, json, gone()); reflectFieldValue(b, json, renamed()); reflectFieldValue(hid, json, hidden()); }

static std::string num(int64_t v) { return std::to_string(v); }
// a random record, its fields in random order, some left out, unknown entries between them
static std::string record(Rec& x, int depth)
{
    auto& r = *R; std::vector<std::string> f;
    auto ints = [&] (std::vector<int64_t>& v) { std::string s = "["; size_t n = r(4); for (size_t i = 0; i < n; ++i) { v.push_back(int64_t(r.e()) >> r(64)); s += (i ? " , " : "") + num(v.back()); } return s + "]"; };
    if (r(4)) { x.a = int64_t(r.e()) >> r(64); f.push_back("\"a\":" + num(x.a)); }
    if (r(4)) { std::string k = key(); x.b = unescaped(k); f.push_back("\"B\": " + k); }
    if (r(4)) f.push_back("\"c\" :" + ints(x.c)); else if (r(2)) f.push_back("\"c\":null");
    if (r(4)) { std::string s = "{"; size_t n = r(4); for (size_t i = 0; i < n; ++i) { std::string k = "k" + num(i); s += (i ? "," : "") + ("\"" + k + "\":") + ints(x.d[k]); } f.push_back("\"d\":" + s + "}"); }
    if (depth && r(2)) { x.e = new Rec; f.push_back("\"e\":" + record(*x.e, depth - 1)); } else if (r(2)) f.push_back("\"e\":null");
    for (size_t i = r(3); i; --i) { Tokens t; value(t, 3); f.push_back(std::string(r(2) ? "\"hid\"" : r(2) ? (r(2) ? "\"Gone\"" : "\"gone\"") : r(2) ? "\"unknown\"" : "\"b\"") + ":" + text(t)); }
    for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r(i)]);
    std::string s = "{"; for (size_t i = 0; i < f.size(); ++i) s += (i ? "," : "") + f[i]; return s + "}";
}
static bool same(const Rec& x, const Rec& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d && x.hid == y.hid && x.gone == y.gone && !x.e == !y.e && (!x.e || same(*x.e, *y.e)); }

int main(int, char** argv)
{
    Rng rng(std::atol(argv[1])); R = &rng; size_t N = 60000 * std::atol(argv[2]);
    for (size_t k = 0; k < N; ++k) {
        Tokens t; do { t.clear(); value(t, 1 + rng(4)); } while (t.size() > 60); for (size_t d = rng(3); d && !t.empty(); --d) damage(t);
        std::set<size_t> skipped; if (rng(2)) for (size_t i = rng(4); i; --i) skipped.insert(rng(8));
        Expected e(t, skipped); e.visit();
        std::string s = text(t); if (e.ok) s += "\"the end\""; std::istringstream in(s); Reader r(in); Actual a(r, skipped); a.visit();
        auto str = [] (const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + "; "; return hex(r); };
        CHECK_THAT(a.events == e.events, "<", hex(s), ">: the handlers were called for: ", str(a.events), " instead of: ", str(e.events), " (", r.error().what(), ")");
        CHECK_THAT(!a.late, "<", hex(s), ">: a handler ran after an error, or for null");
        CHECK_THAT(e.ok == !r.error(), "<", hex(s), ">: ", e.ok ? "an error is reported: " : "no error is reported", r.error().what());
        if (e.ok && !stray(t, e.i)) { size_t n = t.size() - e.i; while (n--) r.nextToken(); bool b = !r.error() && r.nextToken().type() == Token::String && r.buffer() == "the end"; CHECK_THAT(b, "<", hex(s), ">: other tokens than those of the value were consumed"); }
    }
    // skipping alone: it takes exactly the tokens of one value
    for (size_t k = 0; k < N; ++k) {
        Tokens t; do { t.clear(); value(t, 1 + rng(5)); } while (t.size() > 80); if (rng(3) == 0) damage(t);
        std::set<size_t> none; Expected e(t, none); e.any(); std::string s = text(t); s += "\"the end\""; t.push_back("\"the end\"");
        { Expected e2(t, none); e2.any(); e.ok = e2.ok; e.i = e2.i; }
        std::istringstream in(s); Reader r(in); if (rng(2)) r.peekToken(); skip(r); CHECK_THAT(e.ok == !r.error(), "skip on <", hex(s), ">: ", e.ok ? "an error is reported: " : "no error is reported", r.error().what());
        if (e.ok && !stray(t, e.i)) { size_t n = t.size() - e.i; bool last = true; while (n--) last = r.nextToken().type() == Token::String; CHECK_THAT(last && r && (n = t.size() - e.i, true) && (n == 0 || r.buffer() == "the end"), "skip on <", hex(s), "> consumed other tokens than those of the value"); }
    }
    // reflected targets
    for (size_t k = 0; k < N / 8; ++k) {
        Rec x, y; std::string s = record(x, rng(3)); json::Error err = parse(s, y); CHECK_THAT(!err, "<", hex(s), ">: ", err.what()); CHECK_THAT(same(x, y), "<", hex(s), "> is read wrongly");
        size_t cut = 1 + rng(s.size() - 1); Rec z; std::string p = s.substr(0, cut); CHECK_THAT(parse(p, z), "<", hex(p), "> is taken as complete");
    }
    // deep nesting
    for (size_t d : {10, 300}) {
        std::string s; for (size_t i = 0; i < d; ++i) s += i % 2 ? "{\"k\":" : "[1,"; s += "null"; for (size_t i = d; i; --i) s += (i - 1) % 2 ? "}" : "]"; s += " 7 ";
        std::istringstream in(s); Reader r(in); skip(r); CHECK_THAT(!r.error() && parseInt(r) == 7, "a value nested ", d, " deep is skipped wrongly: ", r.error().what());
    }
    done();
}
