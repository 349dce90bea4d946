// Shared by the witness programs on JSON tokens: an independent lexer and generators of its inputs.
#pragma once
#include "wj.h"
#include <cstring>

struct Tok { std::string kind, text; bool bad; };
enum { COMMENTS = 1, UNESCAPE = 2, VALIDATE = 4 };

// the length of the well-formed UTF-8 sequence at s[i] of a byte with its high bit set, 0 if there is none (the table of RFC 3629)
static size_t utf8At(const std::string& s, size_t i)
{
    auto at = [&] (size_t k) -> unsigned { return i + k < s.size() ? (unsigned char) s[i + k] : 0x100u; };
    auto in = [&] (size_t k, unsigned lo, unsigned hi) { return at(k) >= lo && at(k) <= hi; };
    if (in(0, 0xC2, 0xDF)) return in(1, 0x80, 0xBF) ? 2 : 0;
    if (in(0, 0xE0, 0xEF)) return in(1, at(0) == 0xE0 ? 0xA0 : 0x80, at(0) == 0xED ? 0x9F : 0xBF) && in(2, 0x80, 0xBF) ? 3 : 0;
    if (in(0, 0xF0, 0xF4)) return in(1, at(0) == 0xF0 ? 0x90 : 0x80, at(0) == 0xF4 ? 0x8F : 0xBF) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) ? 4 : 0;
    return 0;
}
static std::string utf8(uint32_t c)
{
    std::string s; auto put = [&] (uint32_t b) { s += char(b); };
    if (c < 0x80) put(c); else if (c < 0x800) { put(192 + c / 64); put(128 + c % 64); }
    else if (c < 0x10000) { put(224 + c / 4096); put(128 + c / 64 % 64); put(128 + c % 64); } else { put(240 + c / 262144); put(128 + c / 4096 % 64); put(128 + c / 64 % 64); put(128 + c % 64); }
    return s;
}
static bool isInt64(const std::string& t)
{
    bool neg = t[0] == '-'; size_t i = neg; while (i < t.size() && t[i] == '0') ++i;
    std::string d = t.substr(i), m = neg ? "9223372036854775808" : "9223372036854775807"; return d.size() < m.size() || (d.size() == m.size() && d <= m);
}

struct Lex
{
    const std::string& s; int opt; size_t i; bool dead;
    Lex(const std::string& s, int opt) : s(s), opt(opt), i(0), dead(false) {}
    int at(size_t k = 0) { return i + k < s.size() ? (unsigned char) s[i + k] : -1; }
    Tok bad(const char* = nullptr) { dead = true; return Tok{"end", "", true}; }
    Tok end() { dead = true; return Tok{"end", "", false}; }
    bool digit(int c) { return c >= '0' && c <= '9'; }
    bool unit(uint32_t& u) { u = 0; for (int k = 0; k < 4; ++k) { int c = at(); if (c < 0 || !std::strchr("0123456789abcdefABCDEF", c) || !c) return false; u = u * 16 + (digit(c) ? c - '0' : (c | 32) - 'a' + 10); ++i; } return true; }
    Tok next()
    {
        if (dead) return Tok{"end", "", false};
        for (;;) {
            int c = at();
            if (c == ' ' || (c >= 9 && c <= 13)) { ++i; continue; }
            if (c == '/' && at(1) == '/') { if (!(opt & COMMENTS)) return bad(); while (at() >= 0 && at() != '\n') ++i; if (at() < 0) return end(); continue; }
            if (c < 0) return end();
            break;
        }
        int c = at();
        if (std::strchr("{}[],:", c) && c) { ++i; return Tok{std::string(1, c), "", false}; }
        for (const char* l : {"null", "true", "false"}) if (c == *l) { if (s.compare(i, std::strlen(l), l)) return bad(); i += std::strlen(l); return Tok{*l == 'n' ? "null" : "bool", l, false}; }
        if (digit(c) || c == '-') return number();
        if (c == '"') return string();
        return bad();
    }
    Tok number()
    {
        size_t b = i; bool f = false; if (at() == '-') { ++i; if (!digit(at())) return bad(); }
        while (digit(at())) ++i; if (at() == '.') { f = true; ++i; while (digit(at())) ++i; }
        if (at() == 'e' || at() == 'E') { f = true; ++i; if (at() == '+' || at() == '-') ++i; while (digit(at())) ++i; }
        std::string t = s.substr(b, i - b); if (f ? std::isinf(std::strtod(t.c_str(), nullptr)) : !isInt64(t)) return bad();
        if (i == s.size()) dead = true;
        return Tok{f ? "float" : "int", t, false};
    }
    Tok string()
    {
        ++i; std::string t;
        for (;;) {
            int c = at(); if (c < 0 || c == '\n') return bad();
            if (c == '"') { ++i; return Tok{"string", t, false}; }
            if (c >= 0x80 && (opt & VALIDATE)) { size_t n = utf8At(s, i); if (!n) return bad(); t += s.substr(i, n); i += n; continue; }
            ++i; if (c != '\\') { t += char(c); continue; }
            c = at(); ++i;
            switch (c) {
            case '"': case '\\': case '/': t += char(c); break; case 'b': t += '\x08'; break; case 'f': t += '\x0c'; break; case 'n': t += '\x0a'; break; case 'r': t += '\x0d'; break; case 't': t += '\x09'; break;
            case 'u': {
                size_t b = i; uint32_t u, v; if (!unit(u)) return bad();
                if (!(opt & UNESCAPE)) { t += "\\u" + s.substr(b, 4); break; }
                if (u >= 0xDC00 && u <= 0xDFFF) return bad();
                if (u >= 0xD800 && u <= 0xDBFF) { if (at() != '\\' || at(1) != 'u') return bad(); i += 2; if (!unit(v) || v < 0xDC00 || v > 0xDFFF) return bad(); u = 0x10000 + (u - 0xD800) * 1024 + (v - 0xDC00); }
                t += utf8(u); break; }
            default: return bad();
            }
        }
    }
};

static const char* const KINDS[] = {"no token", "{", "}", "[", "]", ",", ":", "string", "int", "float", "bool", "null", "end"};
template<typename T> static T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r(l.size())); }

static std::string genNumber(Rng& r)
{
    auto digits = [&] (size_t n) { std::string s; while (n--) s += char('0' + r(10)); return s; };
    switch (r(8)) {
    case 0: return pick<std::string>(r, {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "00", "-0", "-", "-e1", "-.5", "1e308", "1e309", "-1e400", "4.9e-324", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308", "1e", "1e+", "1E-", "1.", "1.e5", "-0.0e-0", "12345678901234567890", "0000000000000000000000000001", "1e99999999999", "1-", "1+1", "1.5.5", "1e5e5", "1a", "0x10", "1e5.5"});
    case 1: case 2: { std::string s = std::to_string(int64_t(r.e()) >> r(64)); return s; }
    case 3: { std::string s = (r(2) ? "-9223372036854775" : "9223372036854775") + std::to_string(700 + r(200)); return s; }
    case 4: return (r(2) ? "-" : "") + digits(1 + r(25));
    default: return (r(2) ? "-" : "") + digits(r(8) ? 1 + r(r(10) ? 6 : 400) : 0) + (r(2) ? "." + digits(r(8)) : "") + (r(2) ? std::string(r(2) ? "e" : "E") + pick<const char*>(r, {"", "+", "-"}) + digits(r(4)) : "");
    }
}
static uint32_t genScalar(Rng& r) { uint32_t c = pick<uint32_t>(r, {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFD}); if (r(3)) c = r(pick<uint32_t>(r, {0x80, 0x800, 0x10000, 0x110000})); return c >= 0xD800 && c <= 0xDFFF ? 0xE9 : c; }
static std::string genEscape(Rng& r)
{
    auto u = [&] (uint32_t c) { char b[8]; snprintf(b, 8, r(2) ? "\\u%04x" : "\\u%04X", c & 0xFFFF); return std::string(b); };
    switch (r(9)) {
    case 0: case 1: return std::string("\\") + "\"\\/bfnrt"[r(8)];
    case 2: case 3: { uint32_t c = genScalar(r); return c < 0x10000 ? u(c) : u(0xD800 + (c - 0x10000) / 1024) + u(0xDC00 + (c - 0x10000) % 1024); }
    case 4: return u(r(0x10000));
    case 5: return u(0xD7F0 + r(0x820)) + u(0xDBF0 + r(0x420));
    case 6: { std::string e = u(r(0x10000)); e[2 + r(4)] = "gG/:@`zZ\"\\ \n-"[r(13)]; return e; }
    case 7: return "\\u" + pick<std::string>(r, {"", "1", "12", "123", "d83d", "d83d\\", "d83d\\u", "D83Dx", "+12f", "0x1f", " 041"});
    default: return std::string("\\") + char(r(256));
    }
}
static std::string genUtf8(Rng& r)
{
    std::string s = utf8(genScalar(r)); if (r(3)) return s;
    switch (r(6)) {
    case 0: s.resize(s.size() - 1); break; case 1: s += char(0x80 + r(0x40)); break; case 2: s[r(s.size())] = char(r(256)); break;
    case 3: { uint32_t c = 0xD800 + r(0x800); s = {char(0xE0 | c >> 12), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))}; break; }
    case 4: { uint32_t c = r(0x80); s = r(2) ? std::string{char(0xC0 | c >> 6), char(0x80 | (c & 63))} : r(2) ? std::string{char(0xE0), char(0x80 + r(0x20)), char(0x80 | (c & 63))} : std::string{char(0xF0), char(0x80 + r(16)), char(0x80), char(0x80 | c & 63)}; break; }
    default: s = {char(0xF4 + r(12)), char(0x80 + r(64)), char(0x80 + r(64)), char(0x80 + r(64))}; if (r(2)) s += char(0x80 + r(64));
    }
    return s;
}
static std::string genString(Rng& r, bool wild = true)
{
    std::string s = "\""; for (size_t n = r(r(4) ? 6 : 200); n--;) { if (!wild) { s += r(2) ? std::string(1, "abc [],:{}"[r(10)]) : pick<std::string>(r, {"\\n", "\\\"", "\\u00e9", "\xc3\xa9"}); continue; } size_t k = r(12); s += k < 5 ? std::string(1, char(r(4) ? 0x20 + r(0x5f) : r(0x80))) : k < 8 ? genEscape(r) : k < 11 ? genUtf8(r) : std::string(1, char(r(256))); }
    return r(20) ? s + "\"" : s;
}
static std::string genToken(Rng& r)
{
    switch (r(8)) {
    case 0: return std::string(1, "{}[],:"[r(6)]);
    case 1: { std::string l = pick<std::string>(r, {"null", "true", "false"}); if (r(8) == 0) l[r(l.size())] = char(r(2) ? r(256) : 'a' + r(26)); if (r(8) == 0) l.resize(r(l.size())); return l; }
    case 2: case 3: return genNumber(r);
    case 4: case 5: return genString(r);
    case 6: return genString(r, false);
    default: return pick<std::string>(r, {"// a comment\n", "//\n", "// \xff \"x\" 1 \r\n", "//", "/", "/ /", "/*", "// no end", "\xff", "#", "\x01", "nul", "-", "'", "tru e", ";", std::string(1, '\0')});
    }
}
static std::string genSpace(Rng& r) { std::string s; while (r(3) == 0) s += " \t\n\v\f\r"[r(6)]; return s; }
