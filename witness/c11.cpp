// C11: random histories of registrations and queries against an independent model of the scope tree.
#include "w.h"
#include "types/primitives.h"
using namespace reflect;
typedef std::vector<std::string> Path;
struct Node { std::string name; Node* parent; const Scope* real; std::map<std::string, std::unique_ptr<Node> > kids; std::set<std::string> types; std::map<std::string, std::vector<int> > fns; };
static const char* comps[] = { "a", "b", "c<x::y>", "d" };
static std::string join(const Path& p, size_t from = 0, size_t to = size_t(-1)) { std::string s; for (size_t i = from; i < std::min(to, p.size()); ++i) s += (i > from ? "::" : "") + p[i]; return s; }
static std::string idOf(const Node* n) { return !n->parent ? "" : idOf(n->parent).empty() ? n->name : idOf(n->parent) + "::" + n->name; }
static std::ostringstream hist;
static Node* find(Node* n, const Path& p, size_t len) { for (size_t i = 0; n && i < len; ++i) n = n->kids.count(p[i]) ? n->kids[p[i]].get() : nullptr; return n; }
static Node* make(Node* n, const Path& p, size_t len) { for (size_t i = 0; i < len; ++i) { auto& k = n->kids[p[i]]; if (!k) { k.reset(new Node()); k->name = p[i]; k->parent = n; k->real = nullptr; } n = k.get(); } return n; }
template<typename V> static std::multiset<std::string> bag(const V& v) { return std::multiset<std::string>(v.begin(), v.end()); }
static void all(Node* n, const std::string& pre, bool fns, bool sub, std::multiset<std::string>& out)
{
    if (fns) for (auto& f : n->fns) out.insert(pre + f.first); else for (auto& t : n->types) out.insert(pre + t);
    if (sub) for (auto& k : n->kids) all(k.second.get(), pre + k.first + "::", fns, true, out);
}
static std::string show(const std::multiset<std::string>& b) { std::string s; for (auto& x : b) s += " " + x; return s; }
static void same(Node* n, Scope* s, Scope* parent)
{
    CHECK_THAT(!n->real || n->real == s, "scope <", idOf(n), "> is another object after", hist.str()); n->real = s;
    CHECK_THAT(s->name() == n->name && s->id() == idOf(n), "scope <", idOf(n), "> has id <", s->id(), "> and name <", s->name(), "> after", hist.str());
    CHECK_THAT(s->parent() == parent && s->isGlobal() == !parent, "scope <", idOf(n), "> has another parent after", hist.str());
    std::multiset<std::string> want; for (auto& k : n->kids) want.insert(k.first);
    CHECK_THAT(bag(s->scopes()) == want, "scope <", idOf(n), "> lists scopes", show(bag(s->scopes())), " instead of", show(want), " after", hist.str());
    for (int sub = 0; sub < 2; ++sub) {
        want.clear(); all(n, "", false, sub, want); CHECK_THAT(bag(s->types(sub)) == want, "scope <", idOf(n), "> lists types(", sub, ")", show(bag(s->types(sub))), " instead of", show(want), " after", hist.str());
        want.clear(); all(n, "", true, sub, want); CHECK_THAT(bag(s->functions(sub)) == want, "scope <", idOf(n), "> lists functions(", sub, ")", show(bag(s->functions(sub))), " instead of", show(want), " after", hist.str());
    }
    const Scope* c = s; for (auto& k : n->kids) same(k.second.get(), c->scope(k.first), s);
}
struct Fn0 { int k; int operator()() const { return k; } }; struct Fn1 { int k; int operator()(int) const { return k; } }; struct Fn2 { int k; int operator()(int, int) const { return k; } };
static void query(Node* root, Scope& g, const Path& p)
{
    const Scope& c = g; std::string n = join(p); size_t L = p.size(); Node* at = find(root, p, L); Node* up = find(root, p, L - 1);
    CHECK_THAT(c.hasScope(n) == !!at, "hasScope(", n, ") after", hist.str());
    Scope* got = nullptr; bool e = fails([&] { got = c.scope(n); });
    CHECK_THAT(e == !at && (e || (got && got->id() == idOf(at))), "scope(", n, ") error ", e, " after", hist.str());
    // a name inside a type, where there is no scope of that name, is refused
    bool inside = false; { Node* w = root; for (size_t i = 0; i + 1 < L && !inside; ++i) { if (w->kids.count(p[i])) w = w->kids[p[i]].get(); else { inside = w->types.count(p[i]); break; } } }
    bool there = up && up->types.count(p[L - 1]), h = false; e = fails([&] { h = g.hasType(n); });
    CHECK_THAT(e == inside && (e || h == there), "hasType(", n, ") is ", h, " error ", e, " after", hist.str());
    const Type* t = nullptr; e = fails([&] { t = g.type(n); });
    CHECK_THAT(e == !there && (e || (t->id() == n && t == Registry::get(n))), "type(", n, ") error ", e, " after", hist.str());
    bool fn = up && up->fns.count(p[L - 1]); e = fails([&] { h = c.hasFunction(n); });
    CHECK_THAT(!e && h == fn, "hasFunction(", n, ") is ", h, " error ", e, " after", hist.str());
    const Overloads* o = nullptr; Overloads* o2 = nullptr; e = fails([&] { o = &c.function(n); }); bool e2 = fails([&] { o2 = &g.function(n); });
    CHECK_THAT(e == !fn && e2 == !fn && (e || o == o2), "function(", n, ") errors ", e, e2, " after", hist.str());
    if (fn) {
        auto& ks = up->fns[p[L - 1]]; CHECK_THAT(o->size() == ks.size(), "function(", n, ") has ", o->size(), " overloads instead of ", ks.size(), " after", hist.str());
        for (int k : ks) { int r = k % 3 == 0 ? c.call<int>(n) : k % 3 == 1 ? c.call<int>(n, 7) : c.call<int>(n, 7, 8); CHECK_THAT(r == k, "call(", n, ") with overload ", k % 3, " gave ", r, " instead of ", k, " after", hist.str()); }
        for (int w = 0; w < 3; ++w) if (std::none_of(ks.begin(), ks.end(), [&](int k) { return k % 3 == w; }))
            CHECK_THAT(fails([&] { w == 0 ? c.call<int>(n) : w == 1 ? c.call<int>(n, 7) : c.call<int>(n, 7, 8); }), "call(", n, ") of a missing overload ", w, " after", hist.str());
    }
}
int main(int argc, char** argv)
{
    unsigned long seed = argc > 1 ? std::atol(argv[1]) : 1, rounds = 120 * (argc > 2 ? std::atol(argv[2]) : 1); Rng r(seed);
    std::vector<Path> paths; for (auto x : comps) { paths.push_back({ x }); for (auto y : comps) { paths.push_back({ x, y }); for (auto z : comps) { paths.push_back({ x, y, z }); for (auto w : comps) if (w != comps[3] && z != comps[3]) paths.push_back({ x, y, z, w }); } } }
    std::stable_sort(paths.begin(), paths.end(), [](const Path& a, const Path& b) { return a.size() > b.size(); });   // a type cannot be registered inside a registered type
    for (auto& p : paths) Registry::add(join(p), [](Type*) {});
    const char* bad[] = { "a:b", ":a", "a<b", "a>b", "a:", "c<x::y", "c<x>>::y" };
    int counter = 0;
    for (unsigned long k = 0; k < rounds; ++k) {
        hist.str(""); static auto& kept = *new std::vector<Scope*>; kept.push_back(new Scope()); Scope& g = *kept.back();   /* scopes live for ever */ const Scope& c = g; Node root; root.parent = nullptr; root.real = &g;
        size_t depth = 1 + r(4), width = 1 + r(4);
        auto pick = [&] { for (;;) { auto& p = paths[r(paths.size())]; if (p.size() > depth) continue; bool ok = true; for (auto& x : p) ok = ok && size_t(std::find(comps, comps + 4, x) - comps) < width; if (ok) return p; } };
        for (int step = 0, n = 1 + r(14); step < n; ++step) {
            Path p = pick(); std::string name = join(p); size_t L = p.size();
            switch (r(7)) {
            case 0: { hist << " scope(" << name << ")"; Scope* s = g.scope(name); Node* m = make(&root, p, L); CHECK_THAT(s && s->id() == idOf(m) && s == c.scope(name), "scope(", name, ") gave another scope after", hist.str()); break; }
            case 1: case 2: {
                hist << " addType(" << name << ")"; bool bads = false; size_t stop = L - 1; Node* w = &root;
                for (size_t i = 0; i + 1 < L; ++i) { if (w && (w->types.count(p[i]) || w->fns.count(p[i]))) { bads = true; stop = i; break; } w = w && w->kids.count(p[i]) ? w->kids[p[i]].get() : nullptr; }
                bool e = fails([&] { g.addType(name); }); CHECK_THAT(e == bads, "addType(", name, ") error ", e, " after", hist.str());
                Node* m = make(&root, p, stop); if (!e) m->types.insert(p[L - 1]); break; }
            case 3: case 4: {
                int id = 3 * ++counter + r(3); hist << " addFunction(" << name << ", overload " << id % 3 << ")"; Node* m = make(&root, p, L - 1); auto& ks = m->fns[p[L - 1]];
                bool dup = std::any_of(ks.begin(), ks.end(), [&](int x) { return x % 3 == id % 3; });
                bool e = fails([&] { if (id % 3 == 0) g.addFunction(name, Fn0{ id }); else if (id % 3 == 1) g.addFunction(name, Fn1{ id }); else g.addFunction(name, Fn2{ id }); });
                CHECK_THAT(e == dup, "addFunction(", name, ") error ", e, " after", hist.str()); if (!e) ks.push_back(id); break; }
            case 5: { hist << " query(" << name << ")"; query(&root, g, p); break; }
            case 6: { std::string b = bad[r(7)]; hist << " malformed(" << b << ")";
                CHECK_THAT(fails([&] { c.hasScope(b); }) && fails([&] { c.scope(b); }) && fails([&] { g.scope(b); }) && fails([&] { g.addType(b); }) && fails([&] { g.hasType(b); }) && fails([&] { g.type(b); }) && fails([&] { c.hasFunction(b); })
                    && fails([&] { c.function(b); }) && fails([&] { g.function(b); }) && fails([&] { g.addFunction(b, Fn0{ 1 }); }), "the malformed name <", b, "> is accepted after", hist.str()); break; }
            }
            same(&root, &g, nullptr);
        }
        for (auto& p : paths) if (p.size() <= depth + 1 && (p.size() < 3 || !r(4))) query(&root, g, p);
        same(&root, &g, nullptr);
    }
    done();
}
