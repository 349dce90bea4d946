// Shared by the JSON witness programs: an independent description of JSON texts and a reflected document type.
#pragma once
#include "w.h"
#include "utils/json.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "types/std/string.h"
#include "types/std/smart_ptr.h"
#include <cstdint>
#include <cmath>

namespace reflect { namespace json { // defined in headers, once
}}

static std::string hex(const std::string& s) { std::ostringstream o; for (unsigned char c : s) { if (c >= 0x20 && c < 0x7f && c != '\\') o << c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o << b; } } return o.str(); }

// the text without the white space outside strings
static std::string squeeze(const std::string& s)
{
    std::string r; bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        if (in) { r += s[i]; if (s[i] == '\\') r += s[++i]; else if (s[i] == '"') in = false; continue; }
        if (s[i] == ' ' || s[i] == '\n') continue;
        if (s[i] == '"') in = true;
        r += s[i];
    }
    return r;
}

// the escaped spelling of an ASCII text
static std::string quoted(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) switch (c) {
    case '"': r += "\\\""; break; case '/': r += "\\/"; break; case '\\': r += "\\\\"; break; case '\b': r += "\\b"; break;
    case '\f': r += "\\f"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; default: r += c;
    }
    return r + "\"";
}
