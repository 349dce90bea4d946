#!/usr/bin/env python3
"""refactors.py [-j N] [NAME...]: behaviour-preserving edits of /repo's code, on copies; the checks named with each have to stay quiet."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def edit(name, checks, *e): R[name] = (checks.split(), [e[i:i + 3] for i in range(0, len(e), 3)])

A, O, T, F, S, G, VC, TR = "argument.cpp", "overloads.cpp", "type.cpp", "function.cpp", "scope.cpp", "registry.cpp", "value.cpp", "traits.cpp"
edit("combine", "c01 c03", A, """    if (a == Match::None || b == Match::None) return Match::None;
    if (a == Match::Partial || b == Match::Partial) return Match::Partial;
    return Match::Exact;
""", """    return a < b ? a : b;
""")
edit("convertible", "c01 c03", A, """    if (target.refType() != RefType::Copy) {
        if (!testConstConversion(isConst(), target.isConst()))
            return Match::None;
    }
    else isExact = refType() == RefType::RValue;

    if (target.refType() == RefType::LValue) {
        if (target.isConst()) {}
        else if (isConst()) return Match::None;
        else if (refType() != RefType::LValue) return Match::None;
    }

    else if (target.refType() == RefType::RValue) {
        if (refType() != RefType::RValue) return Match::None;
    }

    if (!target.type()->isParentOf(type())) return Match::None;
""", """    if (!type()->isChildOf(target.type())) return Match::None;

    switch (target.refType()) {
    case RefType::Copy:
        isExact = refType() == RefType::RValue;
        break;

    case RefType::LValue:
        if (!target.isConst() && (isConst() || refType() != RefType::LValue)) return Match::None;
        break;

    case RefType::RValue:
        if (refType() != RefType::RValue) return Match::None;
        if (isConst() && !target.isConst()) return Match::None;
        break;
    }
""")
edit("overloads_any", "c04 c05 c06", O, """    for (const auto& other : overloads) {
        if (fn.test(other) != Match::None) return true;
    }
    return false;
""", """    return std::any_of(overloads.begin(), overloads.end(), [&] (const Function& other) { return fn.test(other) != Match::None; });
""", O, "#include \"reflect.h\"\n", "#include \"reflect.h\"\n#include <algorithm>\n", O, """    for (const auto& fn : overloads) {
        if (fn.test(ret, args) != Match::None) return fn;
    }
""", """    auto it = std::find_if(overloads.begin(), overloads.end(), [&] (const Function& fn) { return fn.test(ret, args) != Match::None; });
    if (it != overloads.end()) return *it;
""")
edit("overloads_index", "c04 c05 c06", O, """    for (const auto& other : overloads) {
        if (fn.test(other) != Match::Exact) continue;

        reflectError("<%s, %s> is ambiguous with <%s, %s>",
                fn.name(), signature(fn),
                other.name(), signature(other));
    }

    overloads.emplace_back(std::move(fn));
""", """    for (size_t i = 0; i < overloads.size(); ++i) {
        const Function& other = overloads[i];

        if (fn.test(other) == Match::Exact) {
            reflectError("<%s, %s> is ambiguous with <%s, %s>",
                    fn.name(), signature(fn), other.name(), signature(other));
        }
    }

    overloads.push_back(std::move(fn));
""", O, """    for (const auto& fn : overloads) {
        if (fn.test(ret, args) != Match::None) return true;
    }
    return false;
""", """    bool found = false;
    for (auto it = overloads.begin(); !found && it != overloads.end(); ++it)
        found = it->test(ret, args) != Match::None;
    return found;
""")
edit("overloads_call", "c04 c06 c08", "overloads.tcc", """        if (bestFn && match == Match::Partial) {
            ambiguous = true;
            continue;
        }

        bestFn = &fn;

        if (match == Match::Exact) {
            ambiguous = false;
            break;
        }
""", """        if (match == Match::Exact) {
            bestFn = &fn;
            ambiguous = false;
            break;
        }

        if (!bestFn) bestFn = &fn;
        else ambiguous = true;
""")
edit("child_loop", "c02 c01 c06", T, """    if (this == other) return true;

    if (isPointer() && other->isPointer()) {
        if (pointer() != other->pointer()) return false;
        return pointee()->isChildOf(other->pointee());
    }

    return parent_ && parent_->isChildOf(other);
""", """    for (const Type* type = this; type; type = type->parent_) {
        if (type == other) return true;

        if (type->isPointer() && other->isPointer()) {
            if (type->pointer() != other->pointer()) return false;
            return type->pointee()->isChildOf(other->pointee());
        }
    }

    return false;
""")
edit("child_cond", "c02", T, """    if (isPointer() && other->isPointer()) {
        if (pointer() != other->pointer()) return false;
        return pointee()->isChildOf(other->pointee());
    }

    return parent_ && parent_->isChildOf(other);
""", """    const bool pointers = is("pointer") && other->is("pointer");
    if (pointers)
        return pointer_ == other->pointer_ && other->pointee_->isParentOf(pointee_);

    if (!parent_) return false;
    return parent_->isChildOf(other);
""")
edit("lookup_loops", "c06", T, """    if (fns_.count(fn)) return true;
    return parent_ ? parent_->hasFunction(fn) : false;
""", """    for (const Type* type = this; type; type = type->parent_) {
        if (type->fns_.find(fn) != type->fns_.end()) return true;
    }
    return false;
""", T, """    auto it = fns_.find(fn);
    if (it != fns_.end()) return it->second;

    if (!parent_)
        reflectError("<%s> doesn't have a function <%s>", id_, fn);

    return parent_->function(fn);
""", """    for (const Type* type = this; type; type = type->parent_) {
        auto it = type->fns_.find(fn);
        if (it != type->fns_.end()) return it->second;
    }

    reflectError("<%s> doesn't have a function <%s>", id_, fn);
""")
edit("lookup_style", "c06", T, """    if (fields_.count(field)) return true;
    return parent_ ? parent_->hasField(field) : false;
""", """    return fields_.find(field) != fields_.end() || (parent_ && parent_->hasField(field));
""", T, """    auto it = fields_.find(field);
    if (it != fields_.end()) return it->second;

    if (!parent_)
        reflectError("<%s> doesn't have a field <%s>", id_, field);

    return parent_->field(field);
""", """    auto it = fields_.find(field);
    if (it == fields_.end()) {
        if (parent_) return parent_->field(field);
        reflectError("<%s> doesn't have a field <%s>", id_, field);
    }

    return it->second;
""", T, """    auto ret = fields_.emplace(name, std::move(field));
    if (!ret.second) {
        reflectError("field <%s> already exists as field <%s> in <%s>",
                field.print(), ret.first->second.print(), id());
    }
""", """    auto existing = fields_.find(name);
    if (existing != fields_.end()) {
        reflectError("field <%s> already exists as field <%s> in <%s>",
                field.print(), existing->second.print(), id());
    }

    fields_.emplace(name, std::move(field));
""")
edit("copiable", "c08 c06", T, """    if (!hasFunction(id_)) return false;

    auto& fns = function(id_);
    return fns.test(
            Argument(this, RefType::Copy, false),
            { Argument(this, RefType::Copy, false) });
""", """    const Argument self(this, RefType::Copy, false);
    return hasFunction(id_) && function(id_).test(self, std::vector<Argument>{ self });
""")
edit("function_move", "c14", F, """    fn(other.fn),
    name_(std::move(other.name_)),
    ret(std::move(other.ret)),
    args(std::move(other.args))
{
    other.fn = nullptr;
}
""", """    fn(nullptr),
    name_(std::move(other.name_)),
    ret(std::move(other.ret)),
    args(std::move(other.args))
{
    std::swap(fn, other.fn);
}
""", F, """    if (this == &other) return *this;

    if (fn) freeValueFunction(fn);
    fn = other.fn;
    other.fn = nullptr;

    name_ = std::move(other.name_);
    ret = std::move(other.ret);
    args = std::move(other.args);

    return *this;
""", """    if (this != &other) {
        void* old = fn;
        fn = other.fn;
        other.fn = nullptr;

        name_ = std::move(other.name_);
        ret = std::move(other.ret);
        args = std::move(other.args);

        if (old) freeValueFunction(old);
    }

    return *this;
""", F, "#include <sstream>", "#include <sstream>\n#include <utility>")
edit("function_test", "c03 c04 c05", F, """    Match match = Match::Exact;
    for (size_t i = 0; i < target.size(); ++i) {
        match = combine(match, value[i].isConvertibleTo(target[i]));
        if (match == Match::None) return Match::None;
    }

    return match;
""", """    Match match = Match::Exact;
    auto it = target.begin();
    for (const Argument& arg : value)
        match = combine(arg.isConvertibleTo(*it++), match);

    return match;
""", F, """    if (target.isConvertibleTo(value) == Match::None) return Match::None;

    // While this is valid C++, it doesn't quite work through the reflection
    // since the compiler doesn't know enough to extend the lifespan of an
    // r-value reference when binding to a const l-value referencce.
    if (target.isTemporary() && value.isConstRef()) return Match::None;

    return Match::Exact;
""", """    const bool dangling = target.isTemporary() && value.isConstRef();
    if (dangling) return Match::None;
    return target.isConvertibleTo(value) != Match::None ? Match::Exact : Match::None;
""")
edit("function_count", "c03 c04", F, """    Match match = Match::Exact;
    for (size_t i = 0; i < target.size(); ++i) {
        match = combine(match, value[i].isConvertibleTo(target[i]));
        if (match == Match::None) return Match::None;
    }

    return match;
""", """    bool partial = false;
    for (size_t i = value.size(); i-- > 0;) {
        Match match = value[i].isConvertibleTo(target[i]);
        if (match == Match::None) return match;
        if (match == Match::Partial) partial = true;
    }

    return partial ? Match::Partial : Match::Exact;
""")
edit("head", "c10 c11", S, """    size_t i;
    size_t next = name.size();
    size_t nesting = 0;

    for (i = 0; i < name.size(); ++i) {

        switch (name[i]) {
        case '<': nesting++; break;
        case '>': nesting--; break;
        case ':':
            if (nesting) continue;
            if (name.size() <= i + 1 || name[i + 1] != ':')
                reflectError("unmatched <%c> in <%s>", ':', name);

            next = i + 2;
            goto done;
        }
    }

  done:
    if (nesting)""", """    size_t i = 0;
    size_t next = name.size();
    size_t nesting = 0;

    while (i < name.size()) {
        const char c = name[i];

        if (c == '<') nesting++;
        else if (c == '>') nesting--;
        else if (c == ':' && !nesting) {
            if (i + 1 >= name.size() || name[i + 1] != ':')
                reflectError("unmatched <%c> in <%s>", ':', name);

            next = i + 2;
            break;
        }

        ++i;
    }

    if (nesting)""", S, """    return head.empty() ? tail : (head + "::" + tail);
""", """    if (head.empty()) return tail;

    std::string result = head;
    result += "::";
    result += tail;
    return result;
""")
edit("tail", "c10 c11", S, """    for (i = name.size(); i > 0;) {
        i--;

        switch (name[i]) {
        case '<': nesting--; break;
        case '>': nesting++; break;
        case ':':
            if (nesting) continue;
            if (!i || name[i - 1] != ':')
                reflectError("unmatched <%c> in <%s>", ':', name);

            i++;
            next = i - 2;
            goto done;
        }
    }

  done:
""", """    for (i = name.size(); i > 0; --i) {
        char c = name[i - 1];

        if (c == '<') nesting--;
        if (c == '>') nesting++;
        if (c != ':' || nesting) continue;

        if (i < 2 || name[i - 2] != ':')
            reflectError("unmatched <%c> in <%s>", ':', name);

        next = i - 2;
        break;
    }

""")
edit("scope_style", "c11", S, """    auto it = scopes_.find(split.first);
    if (it == scopes_.end()) return false;

    return !split.second.empty() ? it->second->hasScope(split.second) : true;
""", """    auto it = scopes_.find(split.first);
    return it != scopes_.end()
        && (split.second.empty() || it->second->hasScope(split.second));
""", S, """    if (it == scopes_.end()) {
        std::unique_ptr<Scope> scope(new Scope(split.first, this));
        it = scopes_.emplace(split.first, scope.release()).first;
    }

    return !split.second.empty() ? it->second->scope(split.second) : it->second;
""", """    Scope* child;
    if (it != scopes_.end()) child = it->second;
    else {
        child = new Scope(split.first, this);
        scopes_[split.first] = child;
    }

    if (split.second.empty()) return child;
    return child->scope(split.second);
""", S, """    auto it = types_.find(split.first);
    if (split.second.empty()) return it != types_.end();

    // A scope stays reachable after a type is registered under its name.
    auto scopeIt = scopes_.find(split.first);
    if (scopeIt != scopes_.end())
        return scopeIt->second->hasType(split.second);

    if (it != types_.end())
        reflectError("Type doesn't support inner classes yet");

    return false;
""", """    if (split.second.empty()) return types_.count(split.first);

    auto scopeIt = scopes_.find(split.first);
    if (scopeIt == scopes_.end()) {
        if (types_.count(split.first))
            reflectError("Type doesn't support inner classes yet");
        return false;
    }

    return scopeIt->second->hasType(split.second);
""")
edit("scope_functions", "c11", S, """    if (!split.second.empty())
        return scope(split.second)->addFunction(split.first, std::move(fn));

    functions_[split.first].add(std::move(fn));
""", """    if (split.second.empty()) {
        Overloads& overloads = functions_[split.first];
        overloads.add(std::move(fn));
        return;
    }

    Scope* child = scope(split.second);
    child->addFunction(split.first, std::move(fn));
""", S, """    if (!split.second.empty()) {
        if (!hasScope(split.second)) return false;
        return scope(split.second)->hasFunction(split.first);
    }

    auto it = functions_.find(split.first);
    return it != functions_.end();
""", """    if (split.second.empty()) return functions_.count(split.first) > 0;
    return hasScope(split.second) && scope(split.second)->hasFunction(split.first);
""", S, """    if (!parent_) return "";
    return join(parent_->id(), name_);
""", """    std::string result;
    if (parent_) result = join(parent_->id(), name_);
    return result;
""")
edit("scope_list", "c11", S, """    for(auto& scope : scopes_)
        result.push_back(scope.first);

    return result;
""", """    for (auto it = scopes_.begin(); it != scopes_.end(); ++it)
        result.emplace_back(it->first);

    return result;
""", S, """    for(auto& type : types_)
        result.push_back(type.first);

    if (!includeScopes) return result;
""", """    for (const auto& entry : types_)
        result.emplace_back(entry.first);

    if (!includeScopes) return result;
""")
edit("registry", "c12 c13 c21", G, """    const std::string* pId = &id;

    auto aliasIt = registry.aliases.find(*pId);
    if (aliasIt != registry.aliases.end())
        pId = &aliasIt->second;

    auto typeIt = registry.types.find(*pId);
    return typeIt != registry.types.end() ? typeIt->second : load(*pId);
""", """    auto aliasIt = registry.aliases.find(id);
    const std::string& target = aliasIt == registry.aliases.end() ? id : aliasIt->second;

    auto typeIt = registry.types.find(target);
    if (typeIt == registry.types.end()) return load(target);

    return typeIt->second;
""", G, """    auto ret = registry.types.emplace(id, type);
    if (!ret.second) reflectError("<%s> already has a type", id);
""", """    if (registry.types.count(id)) reflectError("<%s> already has a type", id);
    registry.types[id] = type;
""", G, """    auto loader = std::move(it->second);
    registry.loaders.erase(it);

    Type* type;
    add(id, type = new Type(id));

    loader(type);
""", """    std::function<void(Type*)> loader(std::move(it->second));
    registry.loaders.erase(id);

    Type* type = new Type(id);
    add(id, type);

    loader(type);
""")
edit("registry_lock", "c12 c13", G, """    auto& registry = getRegistry();
    std::lock_guard<std::recursive_mutex> guard(registry.lock);

    const std::string* pId = &id;
""", """    RegistryState& registry = getRegistry();
    std::unique_lock<std::recursive_mutex> guard(registry.lock);

    const std::string* pId = &id;
""", G, """    auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
    if (!ret.second) {
        reflectError(
                "<%s> can't be aliased to <%s> because it's already aliased to <%s>",
                alias, id, ret.first->second);
    }
""", """    auto it = registry.aliases.find(alias);
    if (it != registry.aliases.end()) {
        reflectError(
                "<%s> can't be aliased to <%s> because it's already aliased to <%s>",
                alias, id, it->second);
    }

    registry.aliases.insert(std::make_pair(alias, id));
""")
edit("value_style", "c07 c08", VC, """    Value result(*this);
    result.arg = Argument(type(), RefType::RValue, true);
    return result;
""", """    Value result;
    result.arg = Argument(type(), RefType::RValue, true);
    result.value_ = value_;
    result.storage = storage;
    return result;
""", VC, """    if (this == &other) return *this;

    arg = other.arg;
    value_ = other.value_;
    storage = other.storage;

    return *this;
""", """    Value tmp(other);

    arg = tmp.arg;
    value_ = tmp.value_;
    storage.swap(tmp.storage);

    return *this;
""", VC, """    Value arg = rvalue();
    *this = Value();
    return arg.type()->construct(arg);
""", """    const Type* type = this->type();
    Value moved = rvalue();
    *this = Value();
    return type->construct(moved);
""")
edit("value_make", "c07 c23", "value.tcc", """    if (refType() != RefType::RValue) return;

    typedef typename std::decay<T>::type CleanT;

    value_ = store<T>(std::forward<T>(value),
            typename IsMovable<T>::type(),
            typename std::is_copy_constructible<CleanT>::type());

    storage.reset(value_, ValueDestructor<CleanT>());

    // We now own the value so we're now l-ref-ing our internal storage.
    arg = Argument(arg.type(), RefType::LValue, false);
""", """    typedef typename std::decay<T>::type CleanT;

    if (refType() == RefType::RValue) {
        void* stored = store<T>(std::forward<T>(value),
                typename IsMovable<T>::type(),
                typename std::is_copy_constructible<CleanT>::type());

        storage = std::shared_ptr<void>(stored, ValueDestructor<CleanT>());
        value_ = stored;
        arg = Argument(arg.type(), RefType::LValue, false);
    }
""")
edit("field", "c09 c06", "value.tcc", """    const auto& f = type()->field(field);
    bool isConst = f.argument().isConst() || this->isConst();

    Value value;
    value.arg = Argument(f.type(), RefType::LValue, isConst);
    value.value_ = static_cast<uint8_t*>(value_) + f.offset();
""", """    const Field& f = type()->field(field);

    Value value;
    value.value_ = (char*) value_ + f.offset();
    value.arg = Argument(
            f.argument().type(), RefType::LValue,
            isConst() ? true : f.argument().isConst());
""")
edit("cast", "c08", "cast.cpp", """    if (target.type()->isParentOf(value.type())) {
        if (target.isConst()) return value;
        if (!value.isConst() && value.refType() == RefType::LValue)
            return value;
    }
""", """    bool bindable = target.isConst() || (value.refType() == RefType::LValue && !value.isConst());
    if (bindable && value.type()->isChildOf(target.type())) return value;
""", "cast.cpp", """    if (target.type()->isMovable()) {

        if (value.type()->isChildOf(target.type()))
            return value;

        if (value.type()->hasConverter(target.type()))
            return value.convert<Value>(target.type());
    }

    reflectError("<%s> is not movable to""", """    const Type* type = target.type();
    bool isChild = value.type()->isChildOf(type);

    if (type->isMovable() && isChild) return value;
    if (type->isMovable() && value.type()->hasConverter(type))
        return value.convert<Value>(type);

    reflectError("<%s> is not movable to""", "cast.cpp", """    switch (target.refType()) {
    case RefType::LValue: return lref(value, target);
    case RefType::RValue: return rref(value, target);
    case RefType::Copy:   return copy(value, target);
    default: reflectUnreachable();
    }
""", """    if (target.refType() == RefType::LValue) return lref(value, target);
    if (target.refType() == RefType::RValue) return rref(value, target);
    if (target.refType() != RefType::Copy) reflectUnreachable();
    return copy(value, target);
""")
edit("traits", "c19", TR, """    if (traits_.count(trait))
        reflectError("trait <%s> already exists", trait);

    traits_[trait] = std::move(value);
""", """    auto it = traits_.find(trait);
    if (it != traits_.end())
        reflectError("trait <%s> already exists", trait);

    traits_.emplace(trait, std::move(value));
""", TR, """    for (const auto& trait : traits_)
        result.push_back(trait.first);

    return result;
""", """    for (auto it = traits_.begin(); it != traits_.end(); ++it)
        result.emplace_back(it->first);

    return result;
""", TR, """    return traits_.count(trait);
""", """    return traits_.find(trait) != traits_.end();
""", "traits.tcc", """    if (it != traits_.end())
        return retCast<Ret>(it->second);

    reflectError("trait <%s> doesn't exist", trait);
""", """    if (it == traits_.end())
        reflectError("trait <%s> doesn't exist", trait);

    return retCast<Ret>(it->second);
""")
edit("template_flag", "c21", "dsl/template.h", """        if (loaded) return;                     \\
        Registry::add<T_>();                    \\
        loaded = true;                          \\
""", """        if (!loaded.load()) {                   \\
            Registry::add<T_>();                \\
            loaded.store(true);                 \\
        }                                       \\
""")
edit("containers", "c22", "types/std/vector.h", """        if (i >= value.size())
            reflectError("index <%lu> out-of-bound <%lu>", i, value.size());
        return value[i];
""", """        if (i < value.size()) return value[i];
        reflectError("index <%lu> out-of-bound <%lu>", i, value.size());
""", "types/std/map.h", """        auto it = value.find(k);
        if (it != value.end()) return it->second;

        reflectError("accessing unknown key in const map");
""", """        auto it = value.find(k);
        if (it == value.end())
            reflectError("accessing unknown key in const map");

        return it->second;
""", "types/std/map.h", """        for (auto& item : value) result.push_back(item.first);
""", """        for (auto it = value.begin(); it != value.end(); ++it)
            result.emplace_back(it->first);
""", "types/std/smart_ptr.h", "{ return !!value; }", "{ return value.get() != nullptr; }")
edit("make", "c24 c01", "argument.tcc", """    Argument arg;
    arg.type_ = reflect::type<T>();
    arg.refType_ = makeRefType<T>();
    arg.isConst_ = reflect::isConst<T>();
    return arg;
""", """    const bool isConst = reflect::isConst<T>();
    return Argument(reflect::type<T>(), makeRefType<T>(), isConst);
""", "function.tcc", """    fn(makeValueFunction(std::move(fn))),
    name_(name)
{
    ret = reflectReturn<Fn>();
    args = reflectArguments<Fn>();
}
""", """    fn(makeValueFunction(std::move(fn))),
    name_(name),
    ret(reflectReturn<Fn>()),
    args(reflectArguments<Fn>())
{}
""")
edit("call", "c23 c04", "value_function.h", """        return Value(call(type(), Args(), values...));
""", """        Value result(call(type(), Args(), values...));
        return result;
""", "function.tcc", """    typedef ValueFunction<sizeof...(Args)> Fn;
    Fn& typedFn = *static_cast<Fn*>(fn);

    Value ret = typedFn(cast<Value>(std::forward<Args>(args))...);
    return retCast<Ret>(ret);
""", """    auto* typedFn = static_cast<ValueFunction<sizeof...(Args)>*>(fn);

    Value result = (*typedFn)(cast<Value>(std::forward<Args>(args))...);
    return retCast<Ret>(result);
""")
J = "utils/json/"
edit("print_array", "c18", J + "printer.tcc", """    bool first = true;
    for (size_t i = 0; i < n; ++i) {
        if (!writer) return;
        if (skipFn(i)) continue;

        if (!first) {
            writer.push(',');
            writer.newline();
        }
        first = false;

        printFn(i);
    }
""", """    size_t printed = 0;
    size_t i = 0;
    while (i < n) {
        if (!writer) return;
        const size_t current = i++;
        if (skipFn(current)) continue;

        if (printed++ > 0) {
            writer.push(',');
            writer.newline();
        }

        printFn(current);
    }
""")
edit("print_object", "c18", J + "printer.tcc", """    writer.push('{');

    if (keys.size() > 1) {
        writer.indent();
        writer.newline();
    }
    else writer.space();

    bool first = true;
    for (const auto& key : keys) {
        if (!writer) return;
        if (skipFn(key)) continue;

        if (!first) {
            writer.push(',');
            writer.newline();
        }
        first = false;
""", """    const bool multi = keys.size() > 1;

    writer.push("{", 1);

    if (!multi) writer.space();
    else {
        writer.indent();
        writer.newline();
    }

    bool separate = false;
    for (auto it = keys.begin(); it != keys.end(); ++it) {
        const auto& key = *it;
        if (!writer) return;
        if (skipFn(key)) continue;

        if (separate) {
            writer.push(',');
            writer.newline();
        }
        else separate = true;
""", J + "writer.cpp", """    for (size_t i = 0; i < indent_; ++i) push("    ", 4);
""", """    for (size_t i = indent_; i > 0; --i) push("    ", 4);
""")
edit("parse_object", "c20 c16", J + "parser.tcc", """    while (reader) {
        token = reader.expectToken(Token::String);
        if (!reader) break;

        const std::string& key = token.asString();
        token = reader.expectToken(Token::KeySeparator);
        if (!reader) break;

        fn(key);

        token = reader.nextToken();
        if (token.type() == Token::ObjectEnd) return;
        reader.assertToken(token, Token::Separator);
    }
""", """    for (; reader; reader.assertToken(token, Token::Separator)) {
        Token keyToken = reader.expectToken(Token::String);
        if (!reader) break;

        const std::string& key = keyToken.asString();
        reader.expectToken(Token::KeySeparator);
        if (!reader) break;

        fn(key);

        token = reader.nextToken();
        if (token.type() == Token::ObjectEnd) return;
    }
""", J + "parser.tcc", """    case Token::Null:
    case Token::Bool:
    case Token::Int:
    case Token::Float:
    case Token::String:
        (void) reader.nextToken();
        break;
""", """    case Token::Null:
    case Token::Bool:
    case Token::Int:
    case Token::Float:
    case Token::String: {
        Token skipped = reader.nextToken();
        (void) skipped;
        return;
    }
""")
edit("parse_array", "c20", J + "parser.tcc", """    for (size_t i = 0; reader; ++i) {
        fn(i);

        token = reader.nextToken();
        if (token.type() == Token::ArrayEnd) return;
        reader.assertToken(token, Token::Separator);
    }
""", """    size_t i = 0;
    while (reader) {
        fn(i++);

        token = reader.nextToken();
        if (token.type() == Token::ArrayEnd) return;
        if (token.type() != Token::Separator)
            reader.assertToken(token, Token::Separator);
    }
""", J + "reader.cpp", """    if (token.type() == Token::NoToken)
        return details::nextToken(*this);

    Token result;
    std::swap(token, result);
    return result;
""", """    Token result = token;
    token = Token();

    if (result.type() == Token::NoToken) result = details::nextToken(*this);
    return result;
""")
edit("scalars", "c16 c17 c15", J + "parser.tcc", """    Token token = reader.nextToken();

    if (token.type() == Token::Int) return token.asFloat();
    return reader.assertToken(token, Token::Float) ? token.asFloat() : 0;
""", """    const Token token = reader.nextToken();
    const bool isNumber = token.type() == Token::Int || token.type() == Token::Float;

    if (!isNumber) {
        reader.assertToken(token, Token::Float);
        return 0;
    }
    return token.asFloat();
""", J + "parser.tcc", """    Token token = reader.expectToken(Token::Int);
    return token.type() == Token::Int ? token.asInt() : 0;
""", """    Token token = reader.expectToken(Token::Int);
    if (token.type() != Token::Int) return 0;
    return token.asInt();
""", J + "token.cpp", """    return std::stol(*value_);
""", """    return std::strtol(value_->c_str(), nullptr, 10);
""")

# -- reading tokens
TK, PA, PR = J + "token.cpp", J + "parser.cpp", J + "printer.cpp"
HEX = """    uint32_t code = 0;

    size_t i = 0;
    for (i = 0; reader && i < 4; ++i) {

        char c = reader.pop();
        code <<= 4;

             if (c >= '0' && c <= '9') code |= c - '0';
        else if (c >= 'a' && c <= 'f') code |= c - 'a' + 10;
        else if (c >= 'A' && c <= 'F') code |= c - 'A' + 10;
        else reader.error("non-hex digit in unicode code point <%c>", c);
    }

    if (reader && i != 4) reader.error("\\\\u requires 4 hex digits", i);
    return code;
"""
edit("next_char", "c16 c20", TK, """        char c = reader.pop();

        if (c == '\\n') reader.newline();
        if (std::isspace(uint8_t(c))) continue;

        if (c == '/' && reader.peek() == '/') {
            if (!reader.allowComments())
                reader.error("comments are not allowed");

            while (reader && (c = reader.pop()) != '\\n') continue;
            continue;
        }

        return c;
""", """        const char c = reader.pop();
        if (c == '\\n') reader.newline();

        const bool isComment = c == '/' && reader.peek() == '/';
        if (isComment) skipComment(reader);
        else if (!std::isspace(uint8_t(c))) return c;
""", TK, """char nextChar(Reader& reader)
""", """void skipComment(Reader& reader)
{
    if (!reader.allowComments()) {
        reader.error("comments are not allowed");
        return;
    }

    while (reader) {
        if (reader.pop() == '\\n') break;
    }
}

char nextChar(Reader& reader)
""")
edit("literal", "c16", TK, """    char c;
    const char* l = literal;
    while (reader && *l && (c = reader.pop()) == *l) l++;

    if (*l) reader.error("expected literal <%s>", literal);
""", """    for (const char* l = literal; *l; ++l) {
        if (reader && reader.pop() == *l) continue;
        reader.error("expected literal <%s>", literal);
        return;
    }
""")
edit("hex", "c16", TK, HEX, """    uint32_t code = 0;

    for (size_t i = 0; i < 4; ++i) {
        if (!reader) return code;

        const int digit = hexDigit(reader.pop());
        if (digit < 0) {
            reader.error("non-hex digit in unicode code point");
            return code;
        }
        code = code * 16 + digit;
    }

    return code;
""", TK, """uint32_t readCodeUnit(Reader& reader)
""", """int hexDigit(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

uint32_t readCodeUnit(Reader& reader)
""")
edit("encode", "c16", TK, """    auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
        reader.save(((code >> (6 * pos)) & mask) | head);
    };
""", """    auto encode = [&reader, code] (unsigned pos, uint32_t mask, uint32_t head) {
        const uint32_t bits = code >> (6 * pos);
        reader.save(char(head | (bits & mask)));
    };
""", TK, """    if (code <= 0x7F)
        reader.save(code);

    else if (code <= 0x7FF) {
        encode(1, 0x1F, 0xC0);
        encode(0, 0x3F, 0x80);
    }
""", """    if (code < 0x80)
        encode(0, 0x7F, 0);

    else if (code < 0x800) {
        encode(1, 0x1F, 0xC0);
        encode(0, 0x3F, 0x80);
    }
""")
edit("utf8", "c16", TK, """    for (size_t i = 1; reader && i < bytes; i++) {
        reader.save(c = reader.pop());
        if ((c & 0xC0) != 0x80) reader.error("invalid UTF-8 encoding");
        code = (code << 6) | (c & 0x3F);
    }

    if (!isScalar(code, bytes)) reader.error("invalid UTF-8 encoding");
""", """    bool isValid = true;
    for (size_t left = bytes - 1; isValid && left > 0; left--) {
        if (!reader) return;
        const char next = reader.pop();
        reader.save(next);
        isValid = (uint8_t(next) >> 6) == 2;
        code = code * 64 + (next & 0x3F);
    }

    if (!isValid || !isScalar(code, bytes)) reader.error("invalid UTF-8 encoding");
""")
edit("read_string", "c16", TK, """        if (c == '"') return;
        if (c == '\\\\') {
            switch(c = reader.pop()) {
            case '"':
            case '/':
            case '\\\\': break;

            case 'b': c = '\\b'; break;
            case 'f': c = '\\f'; break;
            case 'n': c = '\\n'; break;
            case 'r': c = '\\r'; break;
            case 't': c = '\\t'; break;
            case 'u': readUnicode(reader); continue;
            default:
                reader.error("unknown escaped character <%c>", c);
                return;
            }
        }

        reader.save(c);
    };
""", """        if (c == '"') return;
        if (c != '\\\\') {
            reader.save(c);
            continue;
        }

        const char escaped = reader.pop();
        if (escaped == 'u') {
            readUnicode(reader);
            continue;
        }

        if (!unescape(escaped, c)) {
            reader.error("unknown escaped character <%c>", escaped);
            return;
        }
        reader.save(c);
    };
""", TK, """void readString(Reader& reader)
""", """bool unescape(char escaped, char& c)
{
    switch (escaped) {
    case '"': case '/': case '\\\\': c = escaped; return true;
    case 'b': c = '\\b'; return true;
    case 'f': c = '\\f'; return true;
    case 'n': c = '\\n'; return true;
    case 'r': c = '\\r'; return true;
    case 't': c = '\\t'; return true;
    default: return false;
    }
}

void readString(Reader& reader)
""")
edit("read_number", "c16 c17", TK, """    auto readDigits = [&] {
        while (reader && std::isdigit(uint8_t(c = reader.peek())))
            reader.save(reader.pop());
    };
""", """    auto readDigits = [&] {
        for (;;) {
            if (!reader) break;
            if (!std::isdigit(static_cast<unsigned char>(reader.peek()))) break;
            const char digit = reader.pop();
            reader.save(digit);
        }
    };
""", TK, """    auto readChars = [&] (char a, char b) {
        if (!reader || (reader.peek() != a && reader.peek() != b))
            return false;

        reader.save(reader.pop());
        return true;
    };
""", """    auto readChars = [&] (char a, char b) {
        return readChar(a) || readChar(b);
    };
""")
edit("next_token", "c16 c17", TK, """    case '-':
    case '0':
    case '1':
    case '2':
    case '3':
    case '4':
    case '5':
    case '6':
    case '7':
    case '8':
    case '9':
    {
        Token::Type type = readNumber(reader, c);
        if (reader.error()) return Token(Token::EOS);
        return Token(type, reader.buffer());
    }
    default:
        reader.error("unexpected character <%c>", c);
        return Token(Token::EOS);
    }
""", """    default: break;
    }

    if (c != '-' && (c < '0' || c > '9')) {
        reader.error("unexpected character <%c>", c);
        return Token(Token::EOS);
    }

    const Token::Type type = readNumber(reader, c);
    return reader.error() ? Token(Token::EOS) : Token(type, reader.buffer());
""")
# -- parsers and printers
edit("pointer_parser", "c20", PA, """        if (reader.peekToken().type() == Token::Null) {
            reader.nextToken();

            if (isSmartPtr) ptr.call<void>("reset");
            else ptr = inner.type->construct();

            return;
        }

        if (cast<bool>(ptr)) {
            Value pointee = *ptr;
            inner.parser->parse(reader, pointee);
        }

        else {
            Value value = inner.type->alloc();
            Value pointee = *value;
            inner.parser->parse(reader, pointee);

            if (isSmartPtr) ptr.call<void>("reset", value);
            else ptr.assign(value);
        }
""", """        const Token token = reader.peekToken();
        if (token.type() == Token::Null) {
            reader.nextToken();
            if (!isSmartPtr) ptr = inner.type->construct();
            else ptr.call<void>("reset");
        }

        else if (!cast<bool>(ptr)) {
            Value value = inner.type->alloc();
            parseInner(reader, *value);

            if (!isSmartPtr) ptr.assign(value);
            else ptr.call<void>("reset", value);
        }

        else parseInner(reader, *ptr);
""", PA, """private:
    TypeParser inner;
    bool isSmartPtr;
""", """private:
    void parseInner(Reader& reader, Value pointee) const
    {
        inner.parser->parse(reader, pointee);
    }

    TypeParser inner;
    bool isSmartPtr;
""")
edit("array_parser", "c20", PA, """            Value item = inner.type->construct();

            inner.parser->parse(reader, item);
            if (!reader) return;

            if (inner.movable) item = item.rvalue();
            array.call<void>("push_back", item);
""", """            Value item = inner.type->construct();
            inner.parser->parse(reader, item);

            if (reader) {
                if (inner.movable) array.call<void>("push_back", item.rvalue());
                else array.call<void>("push_back", item);
            }
""")
edit("object_parser", "c20", PA, """            auto keyIt = keys.find(alias);
            if (keyIt == keys.end()) {
                skip(reader);
                return;
            }

            const std::string& key = keyIt->second;

            auto fieldIt = fields.find(key);
            if (fieldIt == fields.end())
                reflectError("missing field <%s> for alias <%s>", key, alias);

            Value field = obj.field(key);
            fieldIt->second.parser->parse(reader, field);
""", """            if (!keys.count(alias)) {
                skip(reader);
                return;
            }

            const std::string key = keys.at(alias);
            const TypeParser& inner = fields.at(key);

            Value field = obj.field(key);
            inner.parser->parse(reader, field);
""", PA, """            std::string alias = key;
            if (field.is("json")) {
                auto traits = field.getValue<Traits>("json");
                if (traits.skip) continue;
                if (!traits.alias.empty()) alias = traits.alias;
            }

            if (keys""", """            Traits traits;
            if (field.is("json")) traits = field.getValue<Traits>("json");
            if (traits.skip) continue;

            const std::string alias = traits.alias.empty() ? key : traits.alias;
            if (keys""")
edit("value_parser", "c20", PA, """        Token token = reader.peekToken();

        if (token.type() == Token::Null) parseNull(reader);

        else if (token.type() == Token::Bool) value = Value(parseBool(reader));
        else if (token.type() == Token::Int) value = Value(parseInt(reader));
        else if (token.type() == Token::Float) value = Value(parseFloat(reader));
        else if (token.type() == Token::String) value = Value(parseString(reader));

        else if""", """        const Token token = reader.peekToken();
        const Token::Type type = token.type();

        if (type == Token::String) value = Value(parseString(reader));
        else if (type == Token::Int) value = Value(parseInt(reader));
        else if (type == Token::Float) value = Value(parseFloat(reader));
        else if (type == Token::Bool) value = Value(parseBool(reader));
        else if (type == Token::Null) parseNull(reader);

        else if""")
edit("get_parser", "c20", PA, """    auto it = parsers.find(type);
    if (it != parsers.end()) return it->second;

    Parser* parser = nullptr;

    if (type->is("bool")) parser = new BoolParser;
    else if (type->is("float")) parser = new FloatParser;
    else if (type->is("integer")) parser = new IntParser;
    else if (type->is("string")) parser = new StringParser;

    else if (type->isPointer()) parser = new PointerParser;
    else if (type->is("map")) parser = new MapParser;
    else if (type->is("list")) parser = new ArrayParser;

    else if (!customParser(type).empty()) parser = new CustomParser;
    else if (type == reflect::type<void>()) parser = new ValueParser;

    else parser = new ObjectParser;

    parsers[type] = parser;
    parser->init(type);
""", """    auto it = parsers.find(type);
    if (it != parsers.end()) return it->second;

    Parser* parser = makeParser(type);
    parsers.emplace(type, parser);
    parser->init(type);
""", PA, """const Parser* getParser(const Type* type)
{
    static""", """Parser* makeParser(const Type* type)
{
    if (type->is("bool")) return new BoolParser;
    if (type->is("float")) return new FloatParser;
    if (type->is("integer")) return new IntParser;
    if (type->is("string")) return new StringParser;

    if (type->isPointer()) return new PointerParser;
    if (type->is("map")) return new MapParser;
    if (type->is("list")) return new ArrayParser;

    if (!customParser(type).empty()) return new CustomParser;
    if (type == reflect::type<void>()) return new ValueParser;

    return new ObjectParser;
}

const Parser* getParser(const Type* type)
{
    static""")
edit("object_printer", "c18", PR, """        auto getField = [&] (const std::string& alias) {
            auto keyIt = keys.find(alias);
            if (keyIt == keys.end())
                reflectError("unknown key for alias <%s>", alias);

            const std::string& key = keyIt->second;

            auto fieldIt = fields.find(key);
            if (fieldIt == fields.end())
                reflectError("unknown field <%s> for alias <%s>", key, alias);

            return fieldIt;
        };

        auto skipFn = [&] (const std::string& alias) {
            if (!writer.compact() && !skipEmpty.count(alias))
                return false;

            auto it = getField(alias);

            Value field = obj.field(it->first);
            return it->second.printer->isEmpty(field);
        };

        auto printFn = [&] (const std::string& alias) {
            auto it = getField(alias);

            Value field = obj.field(it->first);
            it->second.printer->print(writer, field);
        };
""", """        auto getField = [&] (const std::string& alias) -> const std::pair<const std::string, TypePrinter>& {
            return *fields.find(keys.at(alias));
        };

        auto skipFn = [&] (const std::string& alias) -> bool {
            if (writer.compact() || skipEmpty.count(alias) > 0) {
                auto& it = getField(alias);
                return it.second.printer->isEmpty(obj.field(it.first));
            }
            return false;
        };

        auto printFn = [&] (const std::string& alias) {
            auto& it = getField(alias);
            it.second.printer->print(writer, obj.field(it.first));
        };
""")
edit("pointer_printer", "c18", PR, """        if (!cast<bool>(ptr)) {
            printNull(writer);
            return;
        }

        Value pointee = *ptr;
        inner.printer->print(writer, pointee);
""", """        const bool isNull = !cast<bool>(ptr);
        if (isNull) printNull(writer);
        else inner.printer->print(writer, *ptr);
""", PR, """        return !cast<bool>(ptr) || inner.printer->isEmpty(*ptr);
""", """        if (!cast<bool>(ptr)) return true;
        Value pointee = *ptr;
        return inner.printer->isEmpty(pointee);
""")
edit("scalar_printers", "c18 c17", PR, """        return value.call<size_t>("size") == 0;
    }

    void print(Writer& writer, const Value& value) const
    {
        printString(writer, value);
""", """        const size_t size = value.call<size_t>("size");
        return !size;
    }

    void print(Writer& writer, const Value& value) const
    {
        printString(writer, value);
""")

# -- templates and the dsl
RT, CH, PL, OP, VF, AH = "ref_type.h", "cast.h", "dsl/plumbing.h", "dsl/operators.h", "value_function.h", "argument.h"
edit("ref_type", "c24 c01 c23", RT, """    if (std::is_rvalue_reference<T>::value) return RefType::RValue;
    if (std::is_lvalue_reference<T>::value) return RefType::LValue;
    return RefType::Copy;
""", """    return std::is_lvalue_reference<T>::value ? RefType::LValue :
        std::is_rvalue_reference<T>::value ? RefType::RValue : RefType::Copy;
""", RT, """template<typename T>
bool isConst(T&&)
{
    typedef typename std::remove_reference<T>::type CleanT;
    return std::is_const<CleanT>::value;
}
""", """template<typename T>
bool isConst(T&&)
{
    return isConst<T>();
}
""", RT, """    return fromIsConst == toIsConst || toIsConst;
""", """    if (!fromIsConst) return true;
    return toIsConst;
""")
edit("cast_header", "c08 c23 c04", CH, """        Value result = reflect::cast(value, Argument::make<Target>());
        return ret(result, retLValue(), retRValue(), retCopy());
""", """        const Argument target = Argument::make<Target>();
        Value converted(reflect::cast(value, target));
        return ret(converted, retLValue(), retRValue(), retCopy());
""")
edit("plumbing", "c25", PL, """    type->addFunction(type->id(), [] { return T(); });
""", """    auto construct = [] () -> T { return T(); };
    type->addFunction(type->id(), construct);
""", PL, """    type->addFunction("operator=", [] (T& obj, T&& other) -> T& {
                return obj = std::move(other);
            });
""", """    type->addFunction("operator=", [] (T& obj, T&& other) -> T& {
                obj = std::move(other);
                return obj;
            });
""", PL, """    type->addFunction("new", [] (const T& other) -> T* {
                return new T(other);
            });
""", """    const std::string name = "new";
    type->addFunction(name, [] (const T& other) {
                T* copy = new T(other);
                return copy;
            });
""")
edit("operators", "c25", OP, """#define reflectOpComparaison()                  \\
    do {                                        \\
        reflectOp(operator==, EqComp);          \\
        reflectOp(operator!=, NEComp);          \\
""", """#define reflectOpComparaison()                  \\
    do {                                        \\
        reflectOp(operator!=, NEComp);          \\
        reflectOp(operator==, EqComp);          \\
""", OP, """    void reflectOpName(name) (Type* type, std::string name)     \\
    {                                                           \\
        reflectFunction(type, name, &T::op);                    \\
""", """    void reflectOpName(name) (Type* type, std::string name)     \\
    {                                                           \\
        auto fn = &T::op;                                       \\
        reflectFunction(type, std::move(name), fn);             \\
""")
edit("value_function", "c23 c14", VF, """        typedef typename std::is_same<Ret, void>::type IsVoidRet;

        return call(IsVoidRet(), values...);
""", """        return call(typename std::is_same<Ret, void>::type(), values...);
""", VF, """        typedef typename FnType::type type;
        typedef typename FnType::Arguments Args;

        return Value(call(type(), Args(), values...));
""", """        return Value(call(typename FnType::type(), typename FnType::Arguments(), values...));
""", VF, """        return (cast<Obj&>(obj).*fn)(cast<Args>(values)...);
""", """        Obj& self = cast<Obj&>(obj);
        return (self.*fn)(cast<Args>(values)...);
""", VF, """    ValueFn* ptr = (ValueFn*) allocValueFunction(sizeof(ValueFn));
    new (ptr) ValueFn(std::move(fn));
    return ptr;
""", """    void* memory = allocValueFunction(sizeof(ValueFn));
    return new (memory) ValueFn(std::move(fn));
""")
edit("cast_order", "c08 c04 c23", "cast.cpp", """    switch (target.refType()) {
    case RefType::LValue: return lref(value, target);
    case RefType::RValue: return rref(value, target);
    case RefType::Copy:   return copy(value, target);
    default: reflectUnreachable();
    }
""", """    const RefType refType = target.refType();
    if (refType == RefType::Copy) return copy(value, target);
    if (refType == RefType::RValue) return rref(value, target);
    return lref(value, target);
""", "cast.cpp", """    if (target.type()->isParentOf(value.type())) {
        if (target.isConst()) return value;
        if (!value.isConst() && value.refType() == RefType::LValue)
            return value;
    }

    // While this is allowed in C++, we can't return a reference to a value that
    // we're constructing here because that would lead to a dangling reference.
    //
    // No idea how to solve this issue unfortunately so it's disabled for now.
    if (false && target.isConst()) {
        if (value.type()->hasConverter(target.type()))
            return value.convert<Value>(target.type());
    }
""", """    const bool isMutable = !value.isConst() && value.refType() == RefType::LValue;
    if (value.type()->isChildOf(target.type()) && (target.isConst() || isMutable))
        return value;
""")
edit("field_ctor", "c09 c24", "field.cpp", """    name_(std::move(name)), arg(std::move(arg)), offset_(offset)
{
    if (arg.refType() != RefType::Copy) {
        reflectError("field <%s> of type <%s> uses unsupported references",
                name_, arg.print());
    }
}
""", """    name_(std::move(name)), arg(arg), offset_(offset)
{
    if (arg.refType() == RefType::Copy) return;
    reflectError("field <%s> of type <%s> uses unsupported references",
            name_, arg.print());
}
""")
edit("writer", "c18 c15 c17", J + "writer.h", """    void push(const std::string& c) { stream.write(c.c_str(), c.size()); }
""", """    void push(const std::string& c) { push(c.data(), c.size()); }
""", J + "writer.h", """    void unindent() { indent_--; }
""", """    void unindent() { --indent_; }
""", J + "format.cpp", """    static const std::string sTrue = "true";
    static const std::string sFalse = "false";

    if (value) writer.push(sTrue);
    else writer.push(sFalse);
""", """    static const std::string sTrue = "true", sFalse = "false";
    writer.push(value ? sTrue : sFalse);
""")
edit("json_traits", "c18 c20", J + "traits.cpp", """    Traits result = *this;

    result.skip = skip || other.skip;
    result.skipEmpty = skipEmpty || other.skipEmpty;

    if (result.alias.empty()) result.alias = other.alias;
    if (result.parser.empty()) result.parser = other.parser;
    if (result.printer.empty()) result.printer = other.printer;

    return result;
""", """    Traits result(other);

    if (skip) result.skip = true;
    if (skipEmpty) result.skipEmpty = true;

    if (!alias.empty()) result.alias = alias;
    if (!parser.empty()) result.parser = parser;
    if (!printer.empty()) result.printer = printer;

    return result;
""")
edit("format_helper", "c15", 'utils/json/format.cpp', '    for (size_t i = 0; i < value.size(); ++i) {\n        char c = value[i];\n\n        if (c & 0x80) {\n            if (writer.escapeUnicode()) {\n                i = escapeUnicode(writer, value, i);\n                continue;\n            }\n            else if (writer.validateUnicode()) {\n                i = readUnicode(writer, value, i);\n                continue;\n            }\n        }\n\n        switch (c) {\n        case \'"\': writer.push("\\\\\\"", 2); break;\n        case \'/\': writer.push("\\\\/", 2); break;\n        case \'\\\\\': writer.push("\\\\\\\\", 2); break;\n\n        case \'\\b\': writer.push("\\\\b", 2); break;\n        case \'\\f\': writer.push("\\\\f", 2); break;\n        case \'\\n\': writer.push("\\\\n", 2); break;\n        case \'\\r\': writer.push("\\\\r", 2); break;\n        case \'\\t\': writer.push("\\\\t", 2); break;\n        default: writer.push(c);\n        }\n    }\n\n', '    for (size_t i = 0; i < value.size(); ++i) i = formatChar(writer, value, i);\n',
    'utils/json/format.cpp', 'void formatString(Writer', 'static size_t formatChar(Writer& writer, const std::string& value, size_t i)\n{\n    const char c = value[i];\n    if ((c & 0x80) && writer.escapeUnicode()) return escapeUnicode(writer, value, i);\n    if ((c & 0x80) && writer.validateUnicode()) return readUnicode(writer, value, i);\n    char escaped = 0;\n    switch (c) {\n    case \'"\': case \'/\': case \'\\\\\': escaped = c; break;\n    case \'\\b\': escaped = \'b\'; break;\n    case \'\\f\': escaped = \'f\'; break;\n    case \'\\n\': escaped = \'n\'; break;\n    case \'\\r\': escaped = \'r\'; break;\n    case \'\\t\': escaped = \'t\'; break;\n    }\n    if (escaped) { writer.push(\'\\\\\'); writer.push(escaped); }\n    else writer.push(c);\n    return i;\n}\n\nvoid formatString(Writer')
edit("format_while", "c15", 'utils/json/format.cpp', '    for (size_t i = 0; i < value.size(); ++i) {\n        char c = value[i];', '    size_t i = 0;\n    while (writer && i < value.size()) {\n        const char c = value[i];',
    'utils/json/format.cpp', '        default: writer.push(c);\n        }\n', '        default: writer.push(c);\n        }\n        ++i;\n',
    'utils/json/format.cpp', 'i = escapeUnicode(writer, value, i);\n', 'i = escapeUnicode(writer, value, i) + 1;\n',
    'utils/json/format.cpp', 'i = readUnicode(writer, value, i);\n', 'i = readUnicode(writer, value, i) + 1;\n')
edit("format_substr", "c15", 'utils/json/format.cpp', '    i++;\n    for (size_t j = 0; writer && j < (bytes - 1); ++j, ++i) {\n        if ((value[i] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");\n        code = (code << 6) | (value[i] & 0x3F);\n        writer.push(value[i]);\n    }\n\n', '    for (size_t j = 1; j < bytes; ++j) {\n        if ((value[i + j] & 0xC0) != 0x80) { writer.error("invalid UTF-8 encoding"); return i; }\n        code = (code << 6) | (value[i + j] & 0x3F);\n    }\n    for (size_t j = 1; j < bytes; ++j) writer.push(value[i + j]);\n    i += bytes;\n\n')
edit("format_header", "c15", 'utils/json/format.cpp', 'size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)\n{\n    size_t bytes = clz(~value[i]);\n    if (bytes > 4 || bytes < 2) {\n        writer.error("invalid UTF-8 header");\n        return i;\n    }\n    if (i + bytes > value.size()) {\n        writer.error("invalid UTF-8 encoding");\n        return i;\n    }\n\n', 'static bool header(Writer& writer, const std::string& value, size_t i, size_t& bytes)\n{\n    bytes = clz(~value[i]);\n    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");\n    else if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");\n    else return true;\n    return false;\n}\n\nsize_t escapeUnicode(Writer& writer, const std::string& value, size_t i)\n{\n    size_t bytes;\n    if (!header(writer, value, i, bytes)) return i;\n\n')
edit("format_surrogate", "c15", 'utils/json/format.cpp', '        format(writer, "\\\\u%04x", 0xD800 + ((code - 0x10000) >> 10));\n        format(writer, "\\\\u%04x", 0xDC00 + ((code - 0x10000) & 0x3FF));\n', '        uint32_t rest = code - 0x10000;\n        uint32_t high = 0xD800 | (rest >> 10), low = 0xDC00 | (rest & 0x3FF);\n        format(writer, "\\\\u%04x", high);\n        format(writer, "\\\\u%04x", low);\n')
edit("format_dead", "c15", 'utils/json/format.cpp', '    writer.push(\'"\');\n\n    for (size_t i', '    size_t reserved = value.size() + 2; (void) reserved;\n    writer.push(\'"\');\n\n    for (size_t i')
edit("format_ranged", "c15", 'utils/json/format.cpp', '    for (size_t i = 0; i < value.size(); ++i) {\n        char c = value[i];\n', '    const size_t n = value.size();\n    for (size_t i = 0; i != n; ++i) {\n        const char& c = value[i];\n        if (!writer) return;\n')

def one(name):
    checks, edits = R[name]; d = tempfile.mkdtemp(prefix="ref_"); out = []
    try:
        shutil.copytree("/repo/src", d + "/src")
        for f, o, n in edits:
            p = d + "/src/" + f; s = open(p).read()
            if s.count(o) != 1: return name, ["pattern occurs %d times in %s: %s" % (s.count(o), f, o[:60])]
            open(p, "w").write(s.replace(o, n))
        e = dict(os.environ, REFLECT_REPO=d, EVIDENCE_DIR=d)
        for ck in checks:
            if os.environ.get("CHECK") and ck not in os.environ["CHECK"]: continue
            r = subprocess.run(["python3-vt", V + "/props/%s.py" % ck, "quick"], env=e, capture_output=True, text=True)
            L = (r.stdout + r.stderr).strip().splitlines()
            out.append("%s rc %d %s" % (ck, r.returncode, " | ".join(x[:250] for x in (L[:3] + L[-1:] if r.returncode else L[-1:]))))
    finally: shutil.rmtree(d)
    return name, out

if __name__ == "__main__":
    a = sys.argv[1:]; j = 1
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    with concurrent.futures.ThreadPoolExecutor(j) as p:
        for n, out in p.map(one, a or list(R)):
            print("==", n, *out, sep="\n   ", flush=True)
