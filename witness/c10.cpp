// C10: every short name over a small alphabet, and random long ones, against a direct restatement of the split.
#include "w.h"
using namespace reflect;
struct R { bool err; std::string a, b; };
static R oracle(const std::string& s, bool back)
{
    long n = s.size(), depth = 0;
    for (long k = 0; k < n; ++k) {
        long i = back ? n - 1 - k : k;
        char c = s[i];
        if (c == ':' && depth == 0) {
            if (back) { if (i == 0 || s[i - 1] != ':') return {true, "", ""}; return {false, std::string(s.begin() + i + 1, s.end()), std::string(s.begin(), s.begin() + i - 1)}; }
            if (i + 1 >= n || s[i + 1] != ':') return {true, "", ""};
            return {false, std::string(s.begin(), s.begin() + i), std::string(s.begin() + i + 2, s.end())};
        }
        if (c == '<') depth += back ? -1 : 1;
        if (c == '>') depth += back ? 1 : -1;
    }
    if (depth) return {true, "", ""};
    return {false, s, ""};
}
static void test(const std::string& s)
{
    for (int back = 0; back < 2; ++back) {
        R w = oracle(s, back); std::pair<std::string, std::string> got;
        std::string in(s);
        bool err = fails([&] { got = back ? Scope::tail(in) : Scope::head(in); });
        const char* op = back ? "tail" : "head";
        CHECK_THAT(err == w.err, op, "(\"", s, "\") reports error ", err, ", expected ", w.err);
        if (err) continue;
        CHECK_THAT(got.first == w.a && got.second == w.b, op, "(\"", s, "\") is (\"", got.first, "\", \"", got.second, "\"), expected (\"", w.a, "\", \"", w.b, "\")");
        if (!got.first.empty() && !got.second.empty()) {
            std::string j = back ? Scope::join(got.second, got.first) : Scope::join(got.first, got.second);
            CHECK_THAT(j == s, "the parts of ", op, "(\"", s, "\") join to \"", j, "\"");
        }
        std::string j2 = Scope::join(got.first, got.second);
        CHECK_THAT(j2 == (got.first.empty() ? got.second : got.first + "::" + got.second), "join(\"", got.first, "\", \"", got.second, "\") is \"", j2, "\"");
    }
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int scale = argc > 2 ? std::atoi(argv[2]) : 1;
    const char al[] = "a:<>";
    int maxlen = scale > 1 ? 9 : 7;
    for (int len = 0; len <= maxlen; ++len) {
        std::string s(len, 'a'); long total = 1; for (int i = 0; i < len; ++i) total *= 4;
        for (long x = 0; x < total; ++x) { long y = x; for (int i = 0; i < len; ++i) { s[i] = al[y & 3]; y >>= 2; } test(s); }
    }
    static const char* bits[] = {"a", "bc", "::", "::", ":", "<", ">", "<int>", "<x::y>", "std", ">", "::z", "<<", ">>", "q<r<s>::t>"};
    for (int r = 0; r < 40000 * scale; ++r) {
        std::string s; int n = 1 + rng(r % 50 ? 9 : 300); for (int i = 0; i < n; ++i) s += bits[rng(r % 3 ? 15 : 5)];
        test(s);
        if (r % 4 == 0) { test(":" + s + "aaaaaaaaaaaaaaaaaaa"); test(std::string(20, 'b') + s + ":"); test(":" + std::string(30, 'c')); }
    }
    for (int d : {1, 2, 127, 128, 254, 255, 256, 257, 32768, 65535, 65536, 65537}) {
        std::string o(d, '<'), c(d, '>'), in = "x" + o + "a::b" + c;
        for (const std::string& s : {in, "p::" + in, in + "::q", "p::" + in + "::q::" + in, in + ">", "<" + in, in + "::" + o, c + "::" + in}) test(s);
    }
    done();
}
