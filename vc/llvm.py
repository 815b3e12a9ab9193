"""Thin ctypes reader over libLLVM-18's C API: turns a bitcode file into plain Python objects."""
import ctypes as C

_L = C.CDLL("libLLVM-18.so")
VP = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = _f("LLVMContextCreate", VP)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, VP, VP, C.POINTER(VP))
ParseIR = _f("LLVMParseIRInContext", C.c_int, VP, VP, C.POINTER(VP), C.POINTER(C.c_char_p))
GetDL = _f("LLVMGetModuleDataLayout", VP, VP)
FirstFn = _f("LLVMGetFirstFunction", VP, VP); NextFn = _f("LLVMGetNextFunction", VP, VP)
FirstG = _f("LLVMGetFirstGlobal", VP, VP); NextG = _f("LLVMGetNextGlobal", VP, VP)
ValName = _f("LLVMGetValueName2", C.c_char_p, VP, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, VP)
CountParams = _f("LLVMCountParams", C.c_uint, VP); GetParam = _f("LLVMGetParam", VP, VP, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", VP, VP); NextBB = _f("LLVMGetNextBasicBlock", VP, VP)
FirstI = _f("LLVMGetFirstInstruction", VP, VP); NextI = _f("LLVMGetNextInstruction", VP, VP)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, VP)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, VP)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, VP)
NumOps = _f("LLVMGetNumOperands", C.c_int, VP); GetOp = _f("LLVMGetOperand", VP, VP, C.c_uint)
TypeOf = _f("LLVMTypeOf", VP, VP); TypeKind = _f("LLVMGetTypeKind", C.c_int, VP)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, VP)
ElemTy = _f("LLVMGetElementType", VP, VP); ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, VP)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, VP); StructAt = _f("LLVMStructGetTypeAtIndex", VP, VP, C.c_uint)
StructName = _f("LLVMGetStructName", C.c_char_p, VP)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, VP, VP); OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, C.c_uint)
ValKind = _f("LLVMGetValueKind", C.c_int, VP)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
ICmp = _f("LLVMGetICmpPredicate", C.c_int, VP)
FCmp = _f("LLVMGetFCmpPredicate", C.c_int, VP)
NIncoming = _f("LLVMCountIncoming", C.c_uint, VP); IncV = _f("LLVMGetIncomingValue", VP, VP, C.c_uint); IncB = _f("LLVMGetIncomingBlock", VP, VP, C.c_uint)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, VP); Succ = _f("LLVMGetSuccessor", VP, VP, C.c_uint)
Cond = _f("LLVMGetCondition", VP, VP)
IsCond = _f("LLVMIsConditional", C.c_int, VP)
GEPTy = _f("LLVMGetGEPSourceElementType", VP, VP)
AllocTy = _f("LLVMGetAllocatedType", VP, VP)
CalledV = _f("LLVMGetCalledValue", VP, VP)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, VP)
GetNUW = _f("LLVMGetNUW", C.c_int, VP); GetNSW = _f("LLVMGetNSW", C.c_int, VP); GetExact = _f("LLVMGetExact", C.c_int, VP)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, VP)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_char_p, VP, C.POINTER(C.c_uint))
GInit = _f("LLVMGetInitializer", VP, VP)
IsConstG = _f("LLVMIsGlobalConstant", C.c_int, VP)
GVType = _f("LLVMGlobalGetValueType", VP, VP)
AggElem = _f("LLVMGetAggregateElement", VP, VP, C.c_uint)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, VP); Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), VP)
IsNull = _f("LLVMIsNull", C.c_int, VP); IsUndef = _f("LLVMIsUndef", C.c_int, VP); IsPoison = _f("LLVMIsPoison", C.c_int, VP)
BBAsV = _f("LLVMBasicBlockAsValue", VP, VP); VAsBB = _f("LLVMValueAsBasicBlock", VP, VP)
RetType = _f("LLVMGetReturnType", VP, VP)
CountPT = _f("LLVMCountParamTypes", C.c_uint, VP)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, VP)
ConstStr = _f("LLVMGetAsString", VP, VP, C.POINTER(C.c_size_t))
IsConstStr = _f("LLVMIsConstantString", C.c_int, VP)
Normal = _f("LLVMGetNormalDest", VP, VP); Unwind = _f("LLVMGetUnwindDest", VP, VP)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))
AliasFirst = _f("LLVMGetFirstGlobalAlias", VP, VP)

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
 14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",
 28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",
 40:"inttoptr",41:"bitcast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"userop1",48:"userop2",49:"vaarg",50:"extractelement",
 51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",55:"fence",56:"atomiccmpxchg",57:"atomicrmw",58:"resume",
 59:"landingpad",60:"addrspacecast",61:"cleanupret",62:"catchret",63:"catchpad",64:"cleanuppad",65:"catchswitch",66:"fneg",67:"callbr",68:"freeze"}
PRED = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
# LLVMTypeKind
TK = {0:"void",1:"half",2:"float",3:"double",7:"label",8:"int",9:"function",10:"struct",11:"array",12:"pointer",13:"vector",14:"metadata",15:"x86_mmx",16:"token"}
# LLVMValueKind
VK = {0:"arg",1:"bb",5:"function",6:"alias",8:"global",9:"blockaddr",10:"constexpr",11:"constarray",12:"conststruct",13:"constvector",14:"undef",
      15:"zero",16:"dataarray",17:"datavector",18:"int",19:"fp",20:"null",21:"tokennone",22:"mdasvalue",23:"inlineasm",24:"inst",25:"poison"}

class Type:
    __slots__ = ("kind", "width", "elem", "n", "fields", "offsets", "size", "name", "ret")
    def __repr__(self): return {"int": f"i{self.width}"}.get(self.kind, self.kind + (f"[{self.n} x {self.elem}]" if self.kind in("array","vector") else "") + (self.name or "" if self.kind=="struct" else ""))

class Value:
    """kind: inst/arg/int/global/function/undef/zero/null/constexpr/..."""
    __slots__ = ("kind","ty","name","val","op","ops","blk","extra","line","file","idx")
    def __repr__(self): return f"<{self.kind} {self.name or ''} {getattr(self,'op','') or ''} {self.val if self.val is not None else ''}>"

class Block:
    __slots__ = ("name","insts","succs","preds","idx","fn")
    def __repr__(self): return f"%{self.name}"

class Func:
    __slots__ = ("name","params","blocks","decl","mod","loops","ret")

class Module:
    def __init__(self, path):
        ctx = ContextCreate(); mb = VP(); err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError("cannot read "+path)
        m = VP()
        if ParseBC(ctx, mb, C.byref(m)): raise RuntimeError("cannot parse "+path)
        self.m = m; self.dl = GetDL(m); self.types = {}; self.vals = {}; self._blocks = {}
        self.funcs = {}; self._fh = {}
        f = FirstFn(m)
        while f:
            self._fh[self._name(f)] = f
            f = NextFn(m if False else f)
        self.globals = {}
        g = FirstG(m)
        while g:
            self.globals[self._name(g)] = g; g = NextG(g)

    def _name(self, v):
        n = C.c_size_t(); s = ValName(v, C.byref(n)); return (s or b"").decode()

    def type(self, t):
        r = self.types.get(t)
        if r: return r
        r = Type(); self.types[t] = r
        r.kind = TK.get(TypeKind(t), "other"); r.width = r.elem = r.n = r.fields = r.offsets = r.name = r.ret = None; r.size = 0
        k = r.kind
        if k == "int": r.width = IntWidth(t)
        if k in ("array",): r.elem = self.type(ElemTy(t)); r.n = ArrLen(t)
        if k == "vector": r.elem = self.type(ElemTy(t)); r.n = _f("LLVMGetVectorSize", C.c_uint, VP)(t)
        if k == "struct":
            nm = StructName(t); r.name = nm.decode() if nm else ""
            if not _f("LLVMIsOpaqueStruct", C.c_int, VP)(t):
                r.n = StructN(t); r.fields = [self.type(StructAt(t, i)) for i in range(r.n)]
                r.offsets = [OffsetOf(self.dl, t, i) for i in range(r.n)]
        if k in ("int","float","double","array","struct","pointer","vector","half","x86_mmx") and not (k=="struct" and r.fields is None):
            r.size = ABISize(self.dl, t)
        if k == "function": r.ret = self.type(RetType(t))
        return r

    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        h = self._fh.get(name)
        if h is None: return None
        F = Func(); F.name = name; F.mod = self; F.decl = bool(IsDecl(h)); F.blocks = []; F.params = []
        self.funcs[name] = F
        for i in range(CountParams(h)): F.params.append(self.value(GetParam(h, i)))
        b = FirstBB(h); hs = []
        while b:
            B = Block(); B.name = (BBName(b) or b"").decode(); B.insts = []; B.succs = []; B.preds = []; B.idx = len(hs); B.fn = F
            self._blocks[b] = B; hs.append(b); F.blocks.append(B); b = NextBB(b)
        for b, B in zip(hs, F.blocks):
            if not B.name: B.name = f"bb{B.idx}"
            i = FirstI(b)
            while i:
                v = self.value(i); v.blk = B; B.insts.append(v); i = NextI(i)
        for B in F.blocks:
            t = B.insts[-1]
            if t.op in ("br", "switch"): B.succs = [s for s in t.extra["succ"]]
            elif t.op == "invoke": B.succs = [t.extra["normal"]]   # unwind edge dropped
            for s in B.succs: s.preds.append(B)
        return F

    def value(self, h):
        r = self.vals.get(h)
        if r is not None: return r
        r = Value(); self.vals[h] = r
        r.kind = VK.get(ValKind(h), "other"); r.name = None; r.val = None; r.op = None; r.ops = None; r.blk = None; r.extra = None; r.line = 0; r.file = ""; r.idx = len(self.vals)
        if r.kind in ("mdasvalue", "bb", "inlineasm"): r.ty = None; return r
        r.ty = self.type(TypeOf(h))
        k = r.kind
        if k in ("arg", "inst", "function", "global", "alias"): r.name = self._name(h)
        if k == "int":
            if r.ty.width <= 64: r.val = ZExtVal(h) & ((1 << r.ty.width) - 1)
            else:
                s = C.cast(PrintV(h), C.c_char_p).value.decode(); r.val = int(s.split()[-1]) & ((1 << r.ty.width) - 1)
        elif k in ("dataarray", "datavector", "constarray", "constvector", "conststruct"):
            n = r.ty.n
            if k == "dataarray" and r.ty.elem.kind == "int" and r.ty.elem.width == 8 and IsConstStr(h):
                ln = C.c_size_t(); p = ConstStr(h, C.byref(ln)); data = C.string_at(p, ln.value)
                r.ops = list(data)
            else:
                r.ops = [self.value(AggElem(h, i)) for i in range(n)]
        elif k == "constexpr":
            r.op = OPC.get(ConstOpcode(h)); r.ops = [self.value(GetOp(h, i)) for i in range(NumOps(h))]
            if r.op == "gep": r.extra = {"srcty": self.type(GEPTy(h))}
            if r.op == "icmp": r.extra = {"pred": PRED[ICmp(h)]}
        elif k == "fp":
            lost = C.c_int(); r.val = ConstReal(h, C.byref(lost))
        elif k == "global":
            pass
        elif k == "inst":
            r.op = OPC[Opcode(h)]; r.line = DbgLine(h)
            n = C.c_uint(); fs = DbgFile(h, C.byref(n)); r.file = fs.decode() if fs else ""
            ex = {}
            if r.op == "phi":
                r.ops = []; ex["inc"] = []
                r.extra = ex
                for i in range(NIncoming(h)):
                    ex["inc"].append((self._blocks[IncB(h, i)], self.value(IncV(h, i))))
                return r
            if r.op == "br":
                ns = NSucc(h); ex["succ"] = [self._blocks[Succ(h, i)] for i in range(ns)]; r.extra = ex
                r.ops = [self.value(Cond(h))] if IsCond(h) else []
                return r
            if r.op == "switch":
                ns = NSucc(h); ex["succ"] = [self._blocks[Succ(h, i)] for i in range(ns)]
                r.ops = [self.value(GetOp(h, 0))]
                ex["cases"] = [(self.value(GetOp(h, 2*i)).val, self._blocks[Succ(h, i)]) for i in range(1, ns)]
                ex["default"] = self._blocks[Succ(h, 0)]; r.extra = ex
                return r
            if r.op in ("call", "invoke"):
                r.ops = [self.value(GetOp(h, i)) for i in range(NArgs(h))]
                ex["callee"] = self.value(CalledV(h))
                if r.op == "invoke": ex["normal"] = self._blocks[Normal(h)]
                r.extra = ex
                return r
            r.ops = [self.value(GetOp(h, i)) for i in range(NumOps(h))]
            if r.op == "gep": ex["srcty"] = self.type(GEPTy(h))
            if r.op == "icmp": ex["pred"] = PRED[ICmp(h)]
            if r.op == "fcmp": ex["pred"] = FCmp(h)
            if r.op == "alloca": ex["ty"] = self.type(AllocTy(h))
            if r.op in ("add","sub","mul","shl"): ex["nuw"] = bool(GetNUW(h)); ex["nsw"] = bool(GetNSW(h))
            if r.op in ("udiv","sdiv","lshr","ashr"): ex["exact"] = bool(GetExact(h))
            if r.op in ("extractvalue","insertvalue"):
                k2 = NumIdx(h); p = Indices(h); ex["idx"] = [p[i] for i in range(k2)]
            r.extra = ex
        return r

    def global_init(self, name):
        h = self.globals[name]
        i = GInit(h)
        return (self.type(GVType(h)), self.value(i) if i else None, bool(IsConstG(h)))

def natural_loops(F):
    """dominators -> natural loops {header: set(blocks)}, ordered by rpo"""
    if getattr(F, "loops", None) is not None: return F.loops
    order = []; seen = set()
    st = [(F.blocks[0], iter(F.blocks[0].succs))]; seen.add(F.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succs))); break
        else:
            order.append(b); st.pop()
    order.reverse(); pos = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in b.preds if p in idom]
            n = None
            for p in ps:
                if n is None: n = p
                else:
                    a, c = p, n
                    while a is not c:
                        while pos[a] > pos[c]: a = idom[a]
                        while pos[c] > pos[a]: c = idom[c]
                    n = a
            if n is not None and idom.get(b) is not n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if b is order[0]: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if s in pos and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in x.preds if p in pos)
    F.loops = {h: loops[h] for h in order if h in loops}
    return F.loops
