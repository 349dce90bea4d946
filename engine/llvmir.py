"""Lazy decoder of LLVM-18 modules through the LLVM C API (ctypes).

The decoded form keeps exactly what the executor needs.  Nothing is rewritten: the verified text is the IR that
clang produces from /repo's sources."""
import ctypes, ctypes.util, functools, os
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, POINTER, byref

_L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so" if os.path.exists("/usr/lib/llvm-18/lib/libLLVM-18.so")
                 else ctypes.util.find_library("LLVM-18"))
_CXX = ctypes.CDLL("libstdc++.so.6")
_CXX.__cxa_demangle.restype = c_void_p
_CXX.__cxa_demangle.argtypes = [c_char_p, c_void_p, c_void_p, POINTER(c_int)]
_C = ctypes.CDLL("libc.so.6"); _C.free.argtypes = [c_void_p]


@functools.lru_cache(None)
def demangle(name):
    st = c_int(0)
    r = _CXX.__cxa_demangle(name.encode(), None, None, byref(st))
    if not r or st.value != 0: return name
    s = ctypes.string_at(r).decode(); _C.free(r)
    return (s.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")
             .replace("std::__cxx11::", "std::").replace("[abi:cxx11]", ""))


def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn

P, U = c_void_p, c_uint
ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
ParseIR = _f("LLVMParseIRInContext", c_int, P, P, POINTER(P), POINTER(c_char_p))
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P); NextFunction = _f("LLVMGetNextFunction", P, P)
NamedGlobal = _f("LLVMGetNamedGlobal", P, P, c_char_p)
ValueName = _f("LLVMGetValueName2", P, P, POINTER(c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", c_int, P)
CountParams = _f("LLVMCountParams", U, P); GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P); NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", c_int, P)
NumOps = _f("LLVMGetNumOperands", c_int, P); GetOp = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P); TypeKind = _f("LLVMGetTypeKind", c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ICmp = _f("LLVMGetICmpPredicate", c_int, P); FCmp = _f("LLVMGetFCmpPredicate", c_int, P)
ZExt = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
ConstOpcode = _f("LLVMGetConstOpcode", c_int, P)
ValueKind = _f("LLVMGetValueKind", c_int, P)
GEPType = _f("LLVMGetGEPSourceElementType", P, P)
OffsetOf = _f("LLVMOffsetOfElement", c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", c_ulonglong, P, P)
ElemType = _f("LLVMGetElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U); CountStruct = _f("LLVMCountStructElementTypes", U, P)
ArrayLen = _f("LLVMGetArrayLength", U, P)
AllocType = _f("LLVMGetAllocatedType", P, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
CalledFnType = _f("LLVMGetCalledFunctionType", P, P)
NormalDest = _f("LLVMGetNormalDest", P, P); UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P); Succ = _f("LLVMGetSuccessor", P, P, U)
IsCond = _f("LLVMIsConditional", c_int, P); Cond = _f("LLVMGetCondition", P, P)
CountInc = _f("LLVMCountIncoming", U, P); IncV = _f("LLVMGetIncomingValue", P, P, U); IncB = _f("LLVMGetIncomingBlock", P, P, U)
NumIdx = _f("LLVMGetNumIndices", U, P); Idx = _f("LLVMGetIndices", POINTER(c_uint), P)
GetInit = _f("LLVMGetInitializer", P, P)
IsGConst = _f("LLVMIsGlobalConstant", c_int, P)
Linkage = _f("LLVMGetLinkage", c_int, P)
LOCAL = (8, 9)      # internal, private
GVType = _f("LLVMGlobalGetValueType", P, P)
AggElem = _f("LLVMGetAggregateElement", P, P, U)
IsCStr = _f("LLVMIsConstantString", c_int, P); AsStr = _f("LLVMGetAsString", P, P, POINTER(c_size_t))
StructName = _f("LLVMGetStructName", c_char_p, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P); DbgFile = _f("LLVMGetDebugLocFilename", P, P, POINTER(U))
PrintV = _f("LLVMPrintValueToString", P, P); DisposeMsg = _f("LLVMDisposeMessage", None, P)
Ordering = _f("LLVMGetOrdering", c_int, P); CmpXchgOrd = _f("LLVMGetCmpXchgSuccessOrdering", c_int, P); GetWeak = _f("LLVMGetWeak", c_int, P); RMWOp = _f("LLVMGetAtomicRMWBinOp", c_int, P)
PrintT = _f("LLVMPrintTypeToString", P, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, c_char_p, c_size_t)
EnumAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
TypeAttrV = _f("LLVMGetTypeAttributeValue", P, P)
RetType = _f("LLVMGetReturnType", P, P)
GetNSW = _f("LLVMGetNSW", c_int, P); GetNUW = _f("LLVMGetNUW", c_int, P); GetExact = _f("LLVMGetExact", c_int, P)
BBParent = _f("LLVMGetBasicBlockParent", P, P)

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",
 13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",
 25:"xor",26:"alloca",27:"load",28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",
 36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",42:"icmp",43:"fcmp",44:"phi",45:"call",
 46:"select",49:"va_arg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",
 55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad",60:"addrspacecast",66:"fneg",68:"freeze",69:"callbr"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
# LLVMTypeKind
TK = {0:"void",1:"half",2:"float",3:"double",4:"x86_fp80",5:"fp128",7:"label",8:"int",9:"func",10:"struct",11:"array",
      12:"ptr",13:"vector",14:"metadata",16:"token"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS, VK_GIFUNC, VK_GVAR, VK_BADDR, VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAZ, \
    VK_CDA, VK_CDV, VK_CINT, VK_CFP, VK_CNULL = 0,1,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20
BYVAL = AttrKind(b"byval", 5); SRET = AttrKind(b"sret", 4)


class Ty:
    __slots__ = ("kind", "bits", "size", "elems", "offs", "name", "n")
    def __init__(s, kind, bits=0, size=0, elems=(), offs=(), name=None, n=0):
        s.kind, s.bits, s.size, s.elems, s.offs, s.name, s.n = kind, bits, size, elems, offs, name, n
    def __repr__(s):
        if s.kind == "int": return "i%d" % s.bits
        if s.kind == "struct": return s.name or "{%s}" % ",".join(map(repr, s.elems))
        if s.kind == "array": return "[%d x %r]" % (s.n, s.elems[0])
        return s.kind
    def leaves(s, base=0):
        """(offset, scalar type) for every scalar leaf."""
        if s.kind == "struct":
            for o, e in zip(s.offs, s.elems): yield from e.leaves(base + o)
        elif s.kind == "array":
            for i in range(s.n): yield from s.elems[0].leaves(base + i * s.elems[0].size)
        else:
            yield (base, s)


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "x", "line", "bb", "pos", "fn")
    def __repr__(s): return "%%%d=%s %r %r" % (s.id, s.op, s.ops, s.x)


class Func:
    pass


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, msg = P(), c_char_p()
        if MemBuf(path.encode(), byref(buf), byref(msg)): raise RuntimeError("cannot read " + path)
        m = P()
        if ParseIR(self.ctx, buf, byref(m), byref(msg)): raise RuntimeError("parse %s: %s" % (path, msg.value))
        self.m, self.path = m.value, path
        self.td = DataLayout(self.m)
        self.funcs, self.by_dem = {}, {}
        self._types, self._gvars, self._dec = {}, {}, {}
        f = FirstFunction(self.m)
        while f:
            n = self._name(f)
            self.funcs[n] = f
            self.by_dem.setdefault(demangle(n), []).append(n)
            f = NextFunction(f)

    def _name(self, v):
        n = c_size_t(0); p = ValueName(v, byref(n))
        return ctypes.string_at(p, n.value).decode("latin-1")

    def _ptext(self, v):
        p = PrintV(v); s = ctypes.string_at(p).decode("latin-1"); DisposeMsg(p); return s

    def ty(self, t):
        r = self._types.get(t)
        if r: return r
        k = TK.get(TypeKind(t), "other")
        if k == "int": b = IntWidth(t); r = Ty("int", b, ABISize(self.td, t))
        elif k == "ptr": r = Ty("ptr", 64, 8)
        elif k == "struct":
            n = CountStruct(t)
            nm = StructName(t); nm = nm.decode("latin-1") if nm else None
            try: sz = ABISize(self.td, t)
            except Exception: sz = 0
            el = [self.ty(StructElem(t, i)) for i in range(n)]
            r = Ty("struct", 0, sz, el, [OffsetOf(self.td, t, i) for i in range(n)], nm)
        elif k == "array":
            e = self.ty(ElemType(t)); r = Ty("array", 0, e.size * ArrayLen(t), [e], (), None, ArrayLen(t))
        elif k in ("float", "double", "x86_fp80"): r = Ty(k, {"float":32,"double":64,"x86_fp80":80}[k], {"float":4,"double":8,"x86_fp80":16}[k])
        elif k == "vector": r = Ty("vector", 0, ABISize(self.td, t))
        else: r = Ty(k)
        self._types[t] = r
        return r

    def defined(self, name):
        f = self.funcs.get(name)
        return bool(f) and not IsDeclaration(f)

    # -- operands -------------------------------------------------------------------------------------------------
    # ("v",id) local / ("c",Ty,int) / ("f",Ty,text) / ("null",) / ("undef",Ty) / ("fn",name) / ("g",name) / ("ce",op,Ty,ops,x) /
    # ("agg",Ty,[ops]) / ("zero",Ty) / ("bb",ptr)
    def operand(self, v, ids):
        if v in ids: return ("v", ids[v])
        k = ValueKind(v); t = self.ty(TypeOf(v))
        if k == VK_CINT:
            if t.bits <= 64: return ("c", t, ZExt(v) & ((1 << t.bits) - 1))
            return ("c", t, int(self._ptext(v).split()[-1]) & ((1 << t.bits) - 1))
        if k == VK_FUNC: return ("fn", self._name(v))
        if k == VK_GALIAS: return ("fn", self._name(v))
        if k == VK_GVAR: return ("g", self._name(v))
        if k == VK_CNULL: return ("null",)
        if k == VK_CFP: return ("f", t, self._ptext(v))
        if k == VK_CEXPR:
            op = OPC.get(ConstOpcode(v), "?")
            ops = [self.operand(GetOp(v, i), ids) for i in range(NumOps(v))]
            x = self.ty(GEPType(v)) if op == "gep" else None
            return ("ce", op, t, ops, x)
        if k in (VK_CAZ,): return ("zero", t)
        if k in (VK_CSTRUCT, VK_CARR, VK_CDA, VK_CVEC, VK_CDV):
            n = len(t.elems) if t.kind == "struct" else t.n
            return ("agg", t, [self.operand(AggElem(v, i), ids) for i in range(n)])
        if k in (VK_UNDEF, 25): return ("undef", t)
        return ("?", self._ptext(v))

    def gvar(self, name):
        if name in self._gvars: return self._gvars[name]
        v = NamedGlobal(self.m, name.encode("latin-1"))
        r = None
        if v:
            init = GetInit(v)
            s = None
            if init and ValueKind(init) == VK_CDA and IsCStr(init):
                n = c_size_t(0); p = AsStr(init, byref(n)); s = ctypes.string_at(p, n.value)
            elif init and ValueKind(init) == VK_CAZ:
                t = self.ty(TypeOf(init))
                if t.kind == "array" and t.elems[0].bits == 8: s = b"\0" * t.n
            r = dict(const=bool(IsGConst(v)), local=Linkage(v) in LOCAL, ty=self.ty(GVType(v)), init=(self.operand(init, {}) if init and s is None else None), bytes=s)
        self._gvars[name] = r
        return r

    def is_local(self, name):
        """functions with internal linkage: a name means something in its own module only"""
        return name in self.funcs and Linkage(self.funcs[name]) in LOCAL

    def func(self, name):
        if name in self._dec: return self._dec[name]
        fv = self.funcs[name]
        F = Func(); F.name, F.dem = name, demangle(name); F.mod = self
        ids, n = {}, 0
        F.params, F.ptys, F.byval = [], [], []
        for i in range(CountParams(fv)):
            pv = GetParam(fv, i); ids[pv] = n; F.params.append(n); F.ptys.append(self.ty(TypeOf(pv)))
            a = EnumAttr(fv, i + 1, BYVAL)
            F.byval.append(self.ty(TypeAttrV(a)) if a else None)
            n += 1
        F.sret = bool(EnumAttr(fv, 1, SRET))
        F.rty = self.ty(RetType(GVType(fv)))
        bbs, bbid = [], {}
        b = FirstBB(fv)
        while b: bbid[b] = len(bbs); bbs.append(b); b = NextBB(b)
        raw = []
        for b in bbs:
            L = []; i = FirstI(b)
            while i: ids[i] = n; n += 1; L.append(i); i = NextI(i)
            raw.append(L)
        F.blocks = []
        for bi, L in enumerate(raw):
            out = []
            for i in L:
                I = Inst(); I.id = ids[i]; I.op = OPC.get(Opcode(i), "?%d" % Opcode(i)); I.ty = self.ty(TypeOf(i)); I.x = None
                I.bb = bi; I.pos = len(out); I.fn = F
                ln = U(0); I.line = DbgLine(i) if I.op in ("call", "invoke", "load", "store", "br", "switch", "ret") else 0
                op = I.op
                if op in ("call", "invoke"):
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(NumArgOps(i))]
                    cv = CalledValue(i)
                    I.x = dict(callee=self.operand(cv, ids) if ValueKind(cv) != 23 else ("asm",))
                    if op == "invoke":
                        I.x["normal"], I.x["unwind"] = bbid[NormalDest(i)], bbid[UnwindDest(i)]
                elif op == "phi":
                    I.ops = [self.operand(IncV(i, k), ids) for k in range(CountInc(i))]
                    I.x = [bbid[IncB(i, k)] for k in range(CountInc(i))]
                elif op == "br":
                    if IsCond(i): I.ops = [self.operand(Cond(i), ids)]
                    else: I.ops = []
                    I.x = [bbid[Succ(i, k)] for k in range(NumSucc(i))]
                elif op == "switch":
                    k = NumOps(i)
                    I.ops = [self.operand(GetOp(i, 0), ids)]
                    I.x = dict(default=bbid[Succ(i, 0)], cases=[(self.operand(GetOp(i, 2 * j), ids)[2], bbid[Succ(i, j)]) for j in range(1, k // 2)])
                else:
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(NumOps(i))] if op != "landingpad" else []
                    if op == "icmp": I.x = ICMP[ICmp(i)]
                    elif op == "fcmp": I.x = FCmp(i)
                    elif op == "alloca": I.x = self.ty(AllocType(i))
                    elif op in ("load", "store"): I.x = Ordering(i)             # 0: not atomic
                    elif op == "cmpxchg": I.x = GetWeak(i)
                    elif op == "atomicrmw": I.x = (RMWOp(i), Ordering(i))
                    elif op == "gep": I.x = self.ty(GEPType(i))
                    elif op in ("extractvalue", "insertvalue"):
                        p = Idx(i); I.x = [p[k] for k in range(NumIdx(i))]
                out.append(I)
            F.blocks.append(out)
        F.nvals = n
        F.succ = []
        for L in F.blocks:
            t = L[-1]
            if t.op == "br": s = list(t.x)
            elif t.op == "switch": s = [t.x["default"]] + [c[1] for c in t.x["cases"]]
            elif t.op == "invoke": s = [t.x["normal"]]          # unwind edges are outcomes, not control flow
            else: s = []
            F.succ.append(s)
        self._loops(F)
        self._dec[name] = F
        return F

    @staticmethod
    def _loops(F):
        """Natural loops: header -> set of blocks."""
        n = len(F.blocks); color = [0] * n; back = []
        st = [(0, iter(F.succ[0]))]; color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0: color[s] = 1; st.append((s, iter(F.succ[s]))); break
                if color[s] == 1: back.append((b, s))
            else:
                color[b] = 2; st.pop()
        preds = [[] for _ in range(n)]
        for b in range(n):
            for s in F.succ[b]: preds[s].append(b)
        F.loops = {}
        for b, h in back:
            S = F.loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in S: continue
                S.add(x); w += preds[x]
        F.preds = preds
