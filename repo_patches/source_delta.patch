From e47b2fcd1f08c04ec53af40bff46f95597c39511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 01/17] fix: hold the registry lock while the registry tables
 are used

std::lock_guard<std::mutex>(registry.lock); is a temporary that unlocks at once, so
concurrent lookups and registrations raced on the tables. Name the guards, and make the
lock recursive since loaders look up other types while the lock is held. The cached
lookup in isConvertibleTo is no longer a guarded static: a thread initialising it would
wait for the registry lock while a loader holding that lock waits for the guard.
---
 src/argument.cpp | 2 +-
 src/registry.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..8678b4a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -92,7 +92,7 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    const Type* valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..202e090 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,7 +19,7 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
@@ -53,7 +53,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +109,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +124,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From fc17d8790833e2a5084b09d2c65e9f79caa918c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 02/17] fix: free the callable a move assignment replaces

Function::operator=(Function&&) overwrote fn without releasing it, leaking the callable
and never running its destructor.
---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From c99b65aaa1a474b8ef478d5a79bbd002e645e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 03/17] fix: format error messages longer than the buffer

verrorFormat() used the untruncated length returned by vsnprintf to read
from a 1024 byte buffer.
---
 src/error.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..29c5ee9 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -21,10 +21,24 @@ std::string verrorFormat(const char* fmt, ...)
     std::va_list args;
     va_start(args, fmt);
 
-    char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    std::va_list again;
+    va_copy(again, args);
 
-    return std::string(buf, n);
+    char buf[1024];
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
+
+    std::string msg;
+    if (n >= 0 && size_t(n) < sizeof(buf)) msg.assign(buf, n);
+    else if (n >= 0) {
+        // The message is longer then our buffer so format it in place.
+        msg.resize(size_t(n) + 1);
+        std::vsnprintf(&msg[0], msg.size(), fmt, again);
+        msg.resize(n);
+    }
+    va_end(again);
+
+    return msg;
 }
 
 
-- 
2.43.0


From c7733d7965aefebb66add7c3f7f9f22d22cc477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 04/17] fix: Scope::hasFunction answers false for a missing
 scope

Like hasScope() and hasType() the query shouldn't report an error when the
scope that would contain the function doesn't exist.
---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..4d6e346 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
+    if (!split.second.empty()) {
+        if (!hasScope(split.second)) return false;
         return scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From 7ab781a3b8862debeb14c6e4553d7cf03a532dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 05/17] fix: keep types reachable when their scope's name is
 registered as a type

Registering type 'a' after 'a::b' made every lookup of 'a::b' fail.
---
 src/scope.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 4d6e346..a714a6c 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -234,19 +234,17 @@ hasType(const std::string& name)
     auto split = head(name);
 
     auto it = types_.find(split.first);
-    if (it == types_.end()) {
-        if (split.second.empty()) return false;
-
-        auto scopeIt = scopes_.find(split.first);
-        if (scopeIt == scopes_.end()) return false;
+    if (split.second.empty()) return it != types_.end();
 
+    // A scope stays reachable after a type is registered under its name.
+    auto scopeIt = scopes_.find(split.first);
+    if (scopeIt != scopes_.end())
         return scopeIt->second->hasType(split.second);
-    }
 
-    if (!split.second.empty())
+    if (it != types_.end())
         reflectError("Type doesn't support inner classes yet");
 
-    return true;
+    return false;
 }
 
 const Type*
@@ -255,16 +253,17 @@ type(const std::string& name)
 {
     auto split = head(name);
 
-    auto it = types_.find(split.first);
-    if (it == types_.end()) {
-
+    // A scope stays reachable after a type is registered under its name.
+    if (!split.second.empty()) {
         auto scopeIt = scopes_.find(split.first);
-        if (split.second.empty() || scopeIt == scopes_.end())
-            reflectError("unknown type <%s::%s>", id(), split.first);
-
-        return scopeIt->second->type(split.second);
+        if (scopeIt != scopes_.end())
+            return scopeIt->second->type(split.second);
     }
 
+    auto it = types_.find(split.first);
+    if (it == types_.end())
+        reflectError("unknown type <%s::%s>", id(), split.first);
+
     // lazy load the type.
     if (!it->second)
         it->second = reflect::type(join(id(), split.first));
-- 
2.43.0


From d791d43ef00dda7edfbbef826bec83f639326b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 06/17] fix: looking up a scope or a function doesn't create
 scopes

The const lookup of a scope recursed into the non-const overload, which
creates missing scopes, and so did the lookups of functions.
---
 src/scope.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index a714a6c..ca1f6e9 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -181,7 +181,11 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    if (split.second.empty()) return it->second;
+
+    // The non-const overload would create the missing scopes.
+    const Scope* child = it->second;
+    return child->scope(split.second);
 }
 
 Scope*
@@ -359,8 +363,11 @@ function(const std::string& name)
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+    if (!split.second.empty()) {
+        // A lookup doesn't create the scopes it goes through.
+        const Scope* self = this;
+        return self->scope(split.second)->function(split.first);
+    }
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From a78bc4ccc641308f7dd191c29c1f40f5b075000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 07/17] fix: reflecting all the operators of a class registers
 its operator* once

---
 src/dsl/operators.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..ac96f33 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -37,6 +37,24 @@ namespace reflect {
 #define reflectOp(op, name) reflect::reflectOpName(name)<T_>(type_, #op)
 
 
+/******************************************************************************/
+/* REFLECT OP ARITY                                                           */
+/******************************************************************************/
+
+// Tells apart the operators which share a spelling; arity includes the object.
+#define reflectOpArityFn(op, name, arity)                               \
+    template<typename T,                                                \
+        class = typename std::enable_if<                                \
+            FunctionType<decltype(&T::op)>::ArgCount == arity>::type>   \
+    void reflectOpName(name) (Type* type, std::string name)             \
+    {                                                                   \
+        reflectFunction(type, name, &T::op);                            \
+    }                                                                   \
+                                                                        \
+    template<typename>                                                  \
+    void reflectOpName(name)(...) {}
+
+
 /******************************************************************************/
 /* REFLECT OP TYPED                                                           */
 /******************************************************************************/
@@ -118,7 +136,7 @@ reflectOpTypedFn(operator--, DecPost, T (T::*)(int))
 // \todo Add unary +/-
 reflectOpFn(operator+,  Plus)
 reflectOpFn(operator-,  Minus)
-reflectOpFn(operator*,  Mult)
+reflectOpArityFn(operator*, Mult, 2)
 reflectOpFn(operator/,  Div)
 reflectOpFn(operator%,  Mod)
 reflectOpFn(operator~,  BitNot)
@@ -188,7 +206,7 @@ reflectOpFn(operator>=, GEComp)
 
 reflectOpFn(operator(),  Function)
 reflectOpFn(operator[],  Array)
-reflectOpFn(operator*,   Indirection)
+reflectOpArityFn(operator*,  Indirection, 1)
 
 #define reflectOpOther()                                \
     do {                                                \
-- 
2.43.0


From 14cf62eb4f80f4a7c16a4e63dbb1615aa032d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 08/17] fix: a template's type is registered before any thread
 looks it up

---
 src/dsl/template.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..1338c0f 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -8,19 +8,23 @@
 #include "reflect.h"
 #pragma once
 
+#include <atomic>
+
 namespace reflect {
 
 /******************************************************************************/
 /* REFLECT TEMPLATE LOADER                                                    */
 /******************************************************************************/
 
+// Several threads can get here at once so the flag can only be raised once the
+// loader is in the registry. Adding the loader more then once is harmless.
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded{false}; \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
-- 
2.43.0


From ff7dd1b2fa6d419fc8a29dfb3291afd02ef2625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 09/17] fix: an invalid UTF-8 header ends the decoding of the
 character

---
 src/utils/json/format.cpp | 20 ++++++++++++++++----
 src/utils/json/token.cpp  |  5 ++++-
 src/utils/json/utils.h    |  6 +++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..33016f4 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -56,8 +56,14 @@ void formatFloat(Writer& writer, double value)
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -76,8 +82,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..73f76a7 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -219,7 +219,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", unsigned(uint8_t(c)));
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..602c568 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,11 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+// Undefined for a zero value in __builtin_clz.
+inline size_t clz(char value)
+{
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 21840f1a07a83c6c9d1e9040e2a2124539c65068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 10/17] fix: code points above 0xFFFF are escaped as surrogate
 pairs

---
 src/utils/json/format.cpp | 15 +++++++++------
 src/utils/json/token.cpp  | 29 +++++++++++++++++++++--------
 src/utils/json/utils.h    | 18 ++++++++++++++++++
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 33016f4..c954afb 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -74,7 +74,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
-    format(writer, "\\u%04x", code);
+    if (!isScalar(code, bytes)) writer.error("invalid UTF-8 encoding");
+    if (!writer) return i - 1;
+
+    if (code > 0xFFFF) {
+        format(writer, "\\u%04x", 0xD800 + ((code - 0x10000) >> 10));
+        format(writer, "\\u%04x", 0xDC00 + ((code - 0x10000) & 0x3FF));
+    }
+    else format(writer, "\\u%04x", code);
 
     return i - 1;
 }
@@ -102,11 +109,7 @@ size_t readUnicode(Writer& writer, const std::string& value, size_t i)
         writer.push(value[i]);
     }
 
-    switch (bytes) {
-    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
-    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
-    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
-    }
+    if (!isScalar(code, bytes)) writer.error("invalid UTF-8 encoding");
 
     return i - 1;
 }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 73f76a7..18fe71a 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -144,7 +144,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -161,8 +161,27 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
     if (!reader) return;
 
+    // Code points above 0xFFFF are escaped as a pair of surrogates.
+    if (code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+        if (code <= 0xDBFF && reader.pop() == '\\' && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (low < 0xDC00 || low > 0xDFFF)
+            reader.error("unpaired surrogate in unicode code point <%x>", code);
+        if (!reader) return;
+
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
@@ -233,13 +252,7 @@ void validateUnicode(Reader& reader, char c)
         code = (code << 6) | (c & 0x3F);
     }
 
-    switch (bytes) {
-    case 4: if (code > 0xFFFF) return; break;
-    case 3: if (code > 0x7FF) return; break;
-    case 2: if (code > 0x7F) return; break;
-    }
-
-    reader.error("invalid UTF-8 encoding");
+    if (!isScalar(code, bytes)) reader.error("invalid UTF-8 encoding");
 }
 
 void readString(Reader& reader)
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 602c568..f12fa70 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -18,5 +18,23 @@ inline size_t clz(char value)
     return value ? __builtin_clz(uint32_t(value) << 24) : 8;
 }
 
+
+
+/******************************************************************************/
+/* UTF-8                                                                      */
+/******************************************************************************/
+
+// Whether a code point decoded from the given number of bytes is in its
+// shortest form and is a unicode scalar value.
+inline bool isScalar(uint32_t code, size_t bytes)
+{
+    switch (bytes) {
+    case 4: return code > 0xFFFF && code <= 0x10FFFF;
+    case 3: return code > 0x7FF && (code < 0xD800 || code > 0xDFFF);
+    case 2: return code > 0x7F;
+    default: return false;
+    }
+}
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 5c9344eb2246d418817b4762965ba61ea0a6bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 11/17] fix: a number without digits or out of range is a
 reader error

---
 src/utils/json/json.cpp  |  3 +++
 src/utils/json/token.cpp | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..689f95c 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -16,6 +16,9 @@
 
 #include <mutex>
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 
 #include "reader.cpp"
 #include "writer.cpp"
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 18fe71a..8ad622e 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -52,7 +52,8 @@ asFloat() const
     if (type_ != Float)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    // stod throws on the smallest floats which are valid.
+    return std::strtod(value_->c_str(), nullptr);
 }
 
 const std::string&
@@ -323,6 +324,9 @@ Token::Type readNumber(Reader& reader, char c)
         return true;
     };
 
+    if (c == '-' && !(reader && std::isdigit(reader.peek())))
+        reader.error("expected a digit after <->");
+
     readDigits();
     if (readChar('.')) {
         type = Token::Float;
@@ -335,6 +339,15 @@ Token::Type readNumber(Reader& reader, char c)
         readDigits();
     }
 
+    const char* number = reader.buffer().c_str();
+
+    errno = 0;
+    if (type == Token::Int && (std::strtol(number, nullptr, 10), errno == ERANGE))
+        reader.error("integer out of range <%s>", number);
+
+    if (type == Token::Float && std::isinf(std::strtod(number, nullptr)))
+        reader.error("float out of range <%s>", number);
+
     return type;
 }
 
@@ -381,6 +394,7 @@ Token nextToken(Reader& reader)
     case '9':
     {
         Token::Type type = readNumber(reader, c);
+        if (reader.error()) return Token(Token::EOS);
         return Token(type, reader.buffer());
     }
     default:
-- 
2.43.0


From 525847bcd1d9bae505e23bf924513138e0abbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 12/17] fix: an unexpected token is a reader error and integers
 are valid floats

---
 src/utils/json/parser.tcc | 15 ++++++++-------
 src/utils/json/token.cpp  |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..f4773a0 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,27 +21,28 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    return token.type() == Token::Int ? token.asInt() : 0;
 }
 
 double parseFloat(Reader& reader)
 {
     Token token = reader.nextToken();
 
-    if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
-
-    return token.asFloat();
+    if (token.type() == Token::Int) return token.asFloat();
+    return reader.assertToken(token, Token::Float) ? token.asFloat() : 0;
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 8ad622e..8d21ba2 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,7 +49,7 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
     // stod throws on the smallest floats which are valid.
-- 
2.43.0


From b6eee81ded8af013cd6c083b7134b5150a8d258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 13/17] fix: a malformed array or object is a reader error

---
 src/utils/json/parser.tcc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f4773a0..cb687e7 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -50,7 +50,7 @@ void parseObject(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ObjectStart);
+    if (!reader.assertToken(token, Token::ObjectStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
@@ -60,8 +60,11 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (!reader) break;
+
         const std::string& key = token.asString();
         token = reader.expectToken(Token::KeySeparator);
+        if (!reader) break;
 
         fn(key);
 
@@ -69,6 +72,8 @@ void parseObject(Reader& reader, const Fn& fn)
         if (token.type() == Token::ObjectEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of input in an object");
 }
 
 template<typename Fn>
@@ -76,7 +81,7 @@ void parseArray(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ArrayStart);
+    if (!reader.assertToken(token, Token::ArrayStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
@@ -91,13 +96,14 @@ void parseArray(Reader& reader, const Fn& fn)
         if (token.type() == Token::ArrayEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of input in an array");
 }
 
 
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
 
     switch (token.type()) {
 
-- 
2.43.0


From 7df257ebcc70e1453f8f54e415f79cc423f3eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 14/17] fix: the error for a token that can not be skipped
 prints the token

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index cb687e7..34f85e4 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -124,7 +124,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From fbd9c819adbdeb5117bc9629b894f6d74169b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 15/17] fix: the indentation of deeply nested values stays
 within its buffer

---
 src/utils/json/writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..8b86c31 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -10,8 +10,6 @@ namespace json {
 /* WRITER                                                                     */
 /******************************************************************************/
 
-namespace { std::string spaces(4096ULL, ' '); }
-
 void
 Writer::
 space()
@@ -26,7 +24,7 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+    for (size_t i = 0; i < indent_; ++i) push("    ", 4);
 }
 
 } // namespace json
-- 
2.43.0


From 314ed2918a749c0a2a7b927a335a28e747c29095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 16/17] fix: printing to a stream prints the value

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..7616028 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From d633052284b54a536fedd890060ca5e7f7104dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 17/17] fix: characters are classified as unsigned

---
 src/utils/json/token.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 8d21ba2..f50cb64 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -119,7 +119,7 @@ char nextChar(Reader& reader)
         char c = reader.pop();
 
         if (c == '\n') reader.newline();
-        if (std::isspace(c)) continue;
+        if (std::isspace(uint8_t(c))) continue;
 
         if (c == '/' && reader.peek() == '/') {
             if (!reader.allowComments())
@@ -305,7 +305,7 @@ Token::Type readNumber(Reader& reader, char c)
     reader.save(c); // can be either - or [0-9].
 
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        while (reader && std::isdigit(uint8_t(c = reader.peek())))
             reader.save(reader.pop());
     };
 
@@ -324,7 +324,7 @@ Token::Type readNumber(Reader& reader, char c)
         return true;
     };
 
-    if (c == '-' && !(reader && std::isdigit(reader.peek())))
+    if (c == '-' && !(reader && std::isdigit(uint8_t(reader.peek()))))
         reader.error("expected a digit after <->");
 
     readDigits();
-- 
2.43.0

