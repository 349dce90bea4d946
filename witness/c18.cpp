// Bounded validation of C18: random arrays, objects and documents are compared with their expected text.
#include "wj.h"
using namespace reflect;
using namespace reflect::json;

struct Custom
{
    long a; Custom(long v = 0) : a(v) {}
    void parseJson(Reader& reader) { a = parseInt(reader); }
    void printJson(Writer& writer) const { printString(writer, "#" + std::to_string(a)); }
};
reflectTypeDecl(Custom)
reflectTypeImpl(Custom)
{
    reflectPlumbing(); reflectFn(parseJson); reflectFn(printJson);
    reflectTypeValue(json, reflect::json::custom("parseJson", "printJson"));
}

static json::Traits aliased(const char* n, bool empty) { json::Traits t; t.skipEmpty = empty; t.alias = n; return t; }

static json::Traits gone() { json::Traits t; t.skip = true; t.skipEmpty = false; t.alias = "AGone"; return t; }

struct Doc
{
    bool flag; int64_t number; double real; std::string text, quiet, hidden, renamed, gone;
    std::vector<int64_t> list; std::vector<std::vector<int64_t>> lists; std::map<std::string, int64_t> map; std::map<std::string, std::vector<int64_t>> maps;
    int64_t* none; std::shared_ptr<int64_t> shared; Doc* next; std::vector<Doc*> docs; Custom custom; int64_t zero;
    Doc() : flag(false), number(0), real(0), none(nullptr), next(nullptr), zero(0) {}
};
reflectTypeDecl(Doc)
reflectTypeImpl(Doc)
{
    reflectPlumbing();
    reflectField(flag); reflectField(number); reflectField(real); reflectField(text); reflectField(quiet); reflectField(hidden); reflectField(renamed); reflectField(gone);
    reflectField(list); reflectField(lists); reflectField(map); reflectField(maps); reflectField(none); reflectField(shared); reflectField(next); reflectField(docs); reflectField(custom); reflectField(zero);
    reflectFieldValue(hidden, json, json::skip()); reflectFieldValue(gone, json, gone()); reflectFieldValue(quiet, json, json::skipEmpty()); reflectFieldValue(renamed, json, aliased("another", false)); reflectFieldValue(zero, json, aliased("Zero", true));
}

static Rng* R;
static std::string word() { static const char* W[] = {"", "a", "b c", "q\"q", "s/s", "n\nn", "t\tt", "\\", "x,y", "{}", "[:]", "\b\f\r"}; return W[(*R)(12)]; }

// ---- the expected text, white space left out
static std::string num(int64_t v) { return std::to_string(v); }
static std::string arr(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
static std::string obj(const std::vector<std::pair<std::string, std::string>>& v) { std::string r = "{"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + quoted(v[i].first) + ":" + v[i].second; return r + "}"; }
static std::string ints(const std::vector<int64_t>& v) { std::vector<std::string> t; for (auto x : v) t.push_back(num(x)); return arr(t); }
static std::string flt(double d) { char b[64]; snprintf(b, 64, "%1.12g", d); return b; }
static std::string expected(const Doc& d, bool compact)
{
    std::map<std::string, std::string> m;
    auto set = [&] (const char* n, bool empty, bool skipEmpty, const std::string& t) { if (!(empty && (compact || skipEmpty))) m[n] = t; };
    set("flag", false, false, d.flag ? "true" : "false"); set("number", d.number == 0, false, num(d.number)); set("real", d.real == 0, false, flt(d.real));
    set("text", d.text.empty(), false, quoted(d.text)); set("quiet", d.quiet.empty(), true, quoted(d.quiet)); set("another", d.renamed.empty(), false, quoted(d.renamed));
    set("list", d.list.empty(), false, ints(d.list));
    std::vector<std::string> ll; for (auto& x : d.lists) ll.push_back(ints(x)); set("lists", d.lists.empty(), false, arr(ll));
    std::vector<std::pair<std::string, std::string>> mm, mv; for (auto& x : d.map) mm.push_back({x.first, num(x.second)}); set("map", mm.empty(), false, obj(mm));
    for (auto& x : d.maps) mv.push_back({x.first, ints(x.second)}); set("maps", mv.empty(), false, obj(mv));
    set("none", !d.none || *d.none == 0, false, d.none ? num(*d.none) : "null"); set("shared", !d.shared || *d.shared == 0, false, d.shared ? num(*d.shared) : "null");
    set("next", !d.next, false, d.next ? expected(*d.next, compact) : "null");
    std::vector<std::string> dd; for (auto x : d.docs) dd.push_back(x ? expected(*x, compact) : "null"); set("docs", dd.empty(), false, arr(dd));
    set("custom", false, false, quoted("#" + num(d.custom.a))); set("Zero", d.zero == 0, true, num(d.zero));
    std::vector<std::pair<std::string, std::string>> v(m.begin(), m.end()); return obj(v);
}
static Doc* make(int depth)
{
    auto& r = *R; Doc* d = new Doc; auto n = [&] { return !r(4) ? 0 : r(8) ? int64_t(r.e()) >> r(64) : int64_t(r.e() << r(64)); };
    d->flag = r(2); d->number = n(); d->real = r(3) ? double(int64_t(r(2000)) - 1000) / 8 : 0; d->text = word(); d->quiet = word(); d->hidden = word(); d->gone = "here"; d->renamed = word(); d->zero = r(2) ? n() : 0; d->custom = Custom(n());
    auto list = [&] { std::vector<int64_t> v; for (size_t i = r(4); i; --i) v.push_back(n()); return v; };
    d->list = list(); for (size_t i = r(3); i; --i) d->lists.push_back(list()); for (size_t i = r(4); i; --i) d->map[word()] = n(); for (size_t i = r(3); i; --i) d->maps[word()] = list();
    if (r(2)) d->none = new int64_t(n()); if (r(2)) d->shared = std::make_shared<int64_t>(n());
    if (depth) { if (r(2)) d->next = make(depth - 1); for (size_t i = r(3); i; --i) d->docs.push_back(r(3) ? make(depth - 1) : nullptr); }
    return d;
}

static Writer::Options opt(int o) { return Writer::Options(o); }

// the depth a writer is at, by the indentation of its next line
static size_t depthOf(Writer& w, std::ostringstream& s) { size_t n = s.str().size(); w.newline(); return w.pretty() ? s.str().size() - n : 0; }

// a random nested structure printed with the generic printers, and its expected text
static void nested(Writer& w, std::string& exp, int depth)
{
    auto& r = *R; size_t n = r(4), k = r(depth > 0 ? 4 : 2); bool sk = r(2);
    if (depth <= 0 || k == 0) { if (r(2)) { int64_t v = int64_t(r.e()) >> r(64); printInt(w, v); exp += num(v); } else if (r(2)) { printNull(w); exp += "null"; } else { bool b = r(2); printBool(w, b); exp += b ? "true" : "false"; } return; }
    std::set<size_t> skip; if (sk) for (size_t i = 0; i < n; ++i) if (r(2)) skip.insert(i);
    std::vector<std::string> keys; for (size_t i = 0; i < n; ++i) keys.push_back(word() + char('a' + i));
    bool first = true; std::string e; size_t calls = 0, last = 0;
    auto item = [&] (size_t i) { CHECK_THAT(i < n && (calls == 0 || i > last) && !skip.count(i), "entry ", i, " of ", n, " printed out of order, twice or though skipped"); ++calls; last = i; if (!first) e += ","; first = false; };
    if (k % 2) {
        auto fn = [&] (size_t i) { item(i); nested(w, e, depth - 1); };
        if (sk) printArray(w, n, fn, [&] (size_t i) { return skip.count(i) > 0; }); else printArray(w, n, fn);
        exp += "[" + e + "]";
    } else {
        auto at = [&] (const std::string& key) { for (size_t i = 0; i < n; ++i) if (keys[i] == key) return i; witness("printObject uses the key ", key, " which it was not given"); };
        auto fn = [&] (const std::string& key) { item(at(key)); e += quoted(key) + ":"; nested(w, e, depth - 1); };
        if (sk) printObject(w, keys, fn, [&] (const std::string& key) { return skip.count(at(key)) > 0; }); else printObject(w, keys, fn);
        exp += "{" + e + "}";
    }
    CHECK_THAT(calls == n - skip.size(), calls, " entries of ", n - skip.size(), " printed");
}

int main(int, char** argv)
{
    Rng rng(std::atol(argv[1])); R = &rng; size_t N = 400 * std::atol(argv[2]);
    const int opts[] = {Writer::Default, Writer::None, Writer::Default | Writer::Pretty, Writer::Pretty, Writer::Compact, Writer::Pretty | Writer::Compact};
    for (size_t t = 0; t < 4 * N; ++t) {
        int o = opts[rng(6)]; std::ostringstream s; Writer w(s, opt(o)); size_t ind = rng(4); for (size_t i = 0; i < ind; ++i) w.indent();
        size_t d0 = depthOf(w, s); size_t p0 = s.str().size(); std::string e; nested(w, e, 1 + rng(4));
        std::string got = s.str().substr(p0); CHECK_THAT(!w.error(), "printing failed: ", w.error().what());
        CHECK_THAT(((o & Writer::Pretty) ? squeeze(got) : got) == e, "options ", o, ": printed <", hex(got), ">, expected <", hex(e), ">");
        CHECK_THAT(depthOf(w, s) == d0, "options ", o, ": the depth changed while printing <", hex(e), ">");
    }
    // deep nesting
    for (size_t depth : {3, 40, 200}) {
        std::ostringstream s; Writer w(s, opt(Writer::Default | Writer::Pretty)); std::function<void(size_t)> f = [&] (size_t d) { if (!d) { printNull(w); return; } printArray(w, 2, [&] (size_t i) { if (i) printNull(w); else f(d - 1); }); };
        f(depth); std::string e = "null"; for (size_t i = 0; i < depth; ++i) e = "[" + e + ",null]";
        CHECK_THAT(squeeze(s.str()) == e && !w.error(), "an array nested ", depth, " deep is printed wrongly"); CHECK_THAT(depthOf(w, s) == 1, "the depth changed after ", depth, " levels");
    }
    for (size_t t = 0; t < N; ++t) {
        Doc* d = make(rng(3)); bool compact;
        for (int o : opts) {
            std::ostringstream s; Writer w(s, opt(o)); compact = o & Writer::Compact; json::Error err = print(w, *d); std::string e = expected(*d, compact);
            CHECK_THAT(!err, "printing failed: ", err.what());
            CHECK_THAT(((o & Writer::Pretty) ? squeeze(s.str()) : s.str()) == e, "options ", o, ": printed <", hex(s.str()), ">, expected <", hex(e), ">");
        }
        std::ostringstream s; json::Error err = print(static_cast<std::ostream&>(s), *d); CHECK_THAT(!err && s.str() == expected(*d, false), "print(stream) printed <", hex(s.str()), ">, expected <", hex(expected(*d, false)), ">");
        auto p = print(*d); CHECK_THAT(!p.second && p.first == s.str(), "print() returned <", hex(p.first), ">");
    }
    // a failing stream is not written to without end and its error isn't lost
    done();
}
