"""Verification-condition generator: symbolic execution of the LLVM IR clang produced from the real
headers in /repo.  Every path of a contract unit is explored; each vc_assert (postcondition) and each
implicit safety condition is an obligation that must hold on every path for all inputs."""
from fractions import Fraction
import math
import struct
import time
import z3
from . import llvmir as L
from . import real as Q
from . import solver as S
from .solver import SC, NEG, ZER, POS, sign_cond

R = Q.R
OBJ_SHIFT = 28
OBJ_BASE = 1 << 16
OBJ_MASK = (1 << OBJ_SHIFT) - 1
M64 = (1 << 64) - 1
FN_TAG_BASE = 1 << 62


INT_RANGE = {}     # inputs made by vc_int: name -> (lo, hi)

class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class FBits:
    """bit image of a symbolic floating point value."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    """path finished: reason in {'end','assume','infeasible'}"""
    def __init__(self, reason):
        self.reason = reason


class Violation(Exception):
    def __init__(self, label, detail, cond=None):
        self.label = label
        self.detail = detail
        self.cond = cond      # the negated obligation, already on the path, or None


class EngineError(Exception):
    pass


class Limit(Exception):
    pass


class Obj:
    __slots__ = ("data", "size", "owner", "kind", "name", "init", "frozen")

    def __init__(self, size, kind, name, owner):
        self.data = {}
        self.size = size
        self.kind = kind
        self.name = name
        self.owner = owner
        self.init = 0     # 1: unwritten bytes read as zero
        self.frozen = False

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.data = dict(self.data)
        o.size = self.size
        o.kind = self.kind
        o.name = self.name
        o.owner = owner
        o.init = self.init
        o.frozen = self.frozen
        return o


class Frame:
    __slots__ = ("fn", "regs", "pc", "allocas", "callinst", "retdest", "retinv", "prev", "on_return", "snap")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = self.regs[:]
        f.pc = self.pc
        f.allocas = self.allocas[:]
        f.callinst = self.callinst
        f.on_return = self.on_return
        f.snap = self.snap
        return f


class State:
    def __init__(self):
        self.frames = []
        self.objs = {}
        self.token = object()
        self.pc = S.PC()
        self.inputs = []       # (name, kind, value)
        self.next_obj = 0
        self.exc = None        # (ptr, typeinfo addr)
        self.caught = []
        self.subst = {}
        self.skip = {}
        self.ghost = {}        # engine side models: streams etc
        self.decisions = 0
        self.steps = 0
        self.covers = set()
        self.facts = 0
        self.frozen_after = None
        self.loopcut = None
        self.autoinv = None

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        self.token = object()
        s.token = object()
        s.pc = self.pc.copy()
        s.inputs = list(self.inputs)
        s.next_obj = self.next_obj
        s.exc = self.exc
        s.caught = list(self.caught)
        s.subst = dict(self.subst)
        s.skip = dict(self.skip)
        s.ghost = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.ghost.items()}
        s.decisions = self.decisions
        s.steps = self.steps
        s.covers = set(self.covers)
        s.facts = self.facts
        s.frozen_after = self.frozen_after
        s.loopcut = self.loopcut
        s.autoinv = self.autoinv
        return s


class Fn:
    __slots__ = ("name", "llv", "code", "template", "nparams", "byval", "nregs", "lines", "decoded", "blocks", "headers", "file", "hphis")


class PB:
    """integer some of whose bytes are uninitialised"""
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = list(bs)


def is_real(v):
    c = v.__class__
    return c is R or c is int or c is Fraction or c is float


def concrete(v):
    return v.__class__ is int


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Engine:
    def __init__(self, module_path, opts=None):
        self.mod = L.Module(module_path)
        self.opts = opts or {}
        self.fns = {}
        self.gaddr = {}
        self.gobjs = {}
        self.faddr = {}
        self.addr2fn = {}
        self.next_gid = 16
        self.strings = {}
        self.executed = set()
        self.feas_ms = self.opts.get("feas_ms", 400)
        self.prove_ms = self.opts.get("prove_ms", 20000)
        self.max_steps = self.opts.get("max_steps", 40_000_000)
        self.max_paths = self.opts.get("max_paths", 20000)
        self.deadline = None
        self.intercepts = {}
        self.prefix_intercepts = []
        from . import externs
        externs.install(self)
        fid = 0
        for name in self.mod.functions:
            fid += 1
            a = FN_TAG_BASE + fid * 16
            self.faddr[name] = a
            self.addr2fn[a] = name
        self._alias = {}
        self.ti_ids = {}
        self.abs_of = {}
        self.unit = "?"
        self.obl = {}
        self.symcount = 0
        self.warnings = set()
        self._hier = {}

    # ------------------------------------------------------------------ globals and constants
    def global_addr(self, g):
        name = L.value_name(g)
        k = ("g", g)
        a = self.gaddr.get(k)
        if a is None:
            gid = self.next_gid
            self.next_gid += 1
            if gid > 1 << 20:
                raise EngineError("too many globals")
            ty = self.mod.type(L.GlobalGetValueType(g))
            o = Obj(ty[3], "const" if L.IsGlobalConstant(g) else "global", name, None)
            a = (gid << OBJ_SHIFT) + OBJ_BASE
            self.gaddr[k] = a
            self.gobjs[gid] = o
            init = L.GetInitializer(g)
            if init and not L.IsDeclaration(g):
                o.init = 1
                self.init_mem(o, 0, init)
            else:
                o.kind = "extern"
                if name.startswith("_ZTV"):
                    o.size = 1 << 12
                o.init = 1
        return a

    def init_mem(self, o, off, c):
        vk = L.VK[L.GetValueKind(c)]
        ty = self.mod.type(L.TypeOf(c))
        if vk in ("constantaggregatezero",):
            return
        if vk in ("undef", "poison"):
            return
        if vk in ("constantdataarray", "constantdatavector"):
            n, e = ty[1]
            if e[0] == "int" and e[1] == 8:
                bs = L.as_bytes(c)
                for i, b in enumerate(bs):
                    o.data[off + i] = (1, 0, b)
            else:
                for i in range(n):
                    self.init_mem(o, off + i * e[3], L.GetElementAsConstant(c, i))
            return
        if vk == "constantarray" or vk == "constantvector":
            n, e = ty[1]
            for i in range(n):
                self.init_mem(o, off + i * e[3], L.GetOperand(c, i))
            return
        if vk == "constantstruct":
            for i, (et, eo) in enumerate(ty[1]):
                self.init_mem(o, off + eo, L.GetOperand(c, i))
            return
        v = self.const(c)
        if ty[0] == "fp":
            o.data[off] = (ty[2], 1, v)
        elif ty[0] in ("int", "ptr"):
            o.data[off] = (ty[2], 0, v)
        else:
            raise EngineError("global init " + str(ty) + vk)

    def const(self, c):
        vk = L.VK[L.GetValueKind(c)]
        if vk == "constantint":
            ty = self.mod.type(L.TypeOf(c))
            if ty[1] > 64:
                s = L.to_string(c).split()[-1]
                return int(s) & ((1 << ty[1]) - 1)
            return int(L.ConstIntGetZExtValue(c)) & ((1 << ty[1]) - 1)
        if vk == "constantpointernull":
            return 0
        if vk == "constantfp":
            li = L.B()
            d = L.ConstRealGetDouble(c, L.C.byref(li))
            return self.from_double(d)
        if vk == "function":
            return self.faddr[L.value_name(c)]
        if vk == "globalvariable":
            return self.global_addr(c)
        if vk == "globalalias":
            return self.const(L.AliasGetAliasee(c))
        if vk in ("undef", "poison"):
            ty = self.mod.type(L.TypeOf(c))
            return self.undef_of(ty)
        if vk == "constantaggregatezero":
            return self.zero_of(self.mod.type(L.TypeOf(c)))
        if vk == "constantstruct":
            n = L.GetNumOperands(c)
            return [self.const(L.GetOperand(c, i)) for i in range(n)]
        if vk in ("constantarray", "constantvector"):
            n = L.GetNumOperands(c)
            return [self.const(L.GetOperand(c, i)) for i in range(n)]
        if vk in ("constantdataarray", "constantdatavector"):
            ty = self.mod.type(L.TypeOf(c))
            return [self.const(L.GetElementAsConstant(c, i)) for i in range(ty[1][0])]
        if vk == "constantexpr":
            op = L.OPC[L.GetConstOpcode(c)]
            if op == "gep":
                base = self.const(L.GetOperand(c, 0))
                idx = [self.const(L.GetOperand(c, i)) for i in range(1, L.GetNumOperands(c))]
                ity = [self.mod.type(L.TypeOf(L.GetOperand(c, i)))[1] for i in range(1, L.GetNumOperands(c))]
                return (base + self.gep_const_offset(self.mod.type(L.GetGEPSourceElementType(c)), idx, ity)) & M64
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "zext", "trunc"):
                v = self.const(L.GetOperand(c, 0))
                ty = self.mod.type(L.TypeOf(c))
                if ty[0] == "int":
                    v &= (1 << ty[1]) - 1
                return v
            if op in ("add", "sub"):
                a = self.const(L.GetOperand(c, 0)); b = self.const(L.GetOperand(c, 1))
                w = self.mod.type(L.TypeOf(c))[1]
                return (a + b if op == "add" else a - b) & ((1 << w) - 1)
            raise EngineError("constexpr " + op)
        raise EngineError("const kind " + vk)

    def gep_const_offset(self, ty, idx, widths):
        off = to_signed(idx[0], widths[0]) * ty[3]
        for k in range(1, len(idx)):
            if ty[0] == "struct":
                t, o = ty[1][idx[k]]
                off += o
                ty = t
            elif ty[0] in ("array", "vector"):
                n, e = ty[1]
                off += to_signed(idx[k], widths[k]) * e[3]
                ty = e
            else:
                raise EngineError("gep type")
        return off

    def from_double(self, d):
        if d != d or d in (math.inf, -math.inf):
            return d
        if d == int(d):
            return int(d)
        return Fraction(d)

    def undef_of(self, ty):
        if ty[0] == "struct":
            return [self.undef_of(t) for t, _ in ty[1]]
        if ty[0] in ("array", "vector"):
            return [self.undef_of(ty[1][1]) for _ in range(ty[1][0])]
        return UNDEF

    def zero_of(self, ty):
        if ty[0] == "struct":
            return [self.zero_of(t) for t, _ in ty[1]]
        if ty[0] in ("array", "vector"):
            return [self.zero_of(ty[1][1]) for _ in range(ty[1][0])]
        return 0

    # ------------------------------------------------------------------ function decoding
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.decode(name)
            self.fns[name] = f
        return f

    def decode(self, name):
        llv = self.mod.functions[name]
        f = Fn()
        f.name = name
        f.llv = llv
        f.file = ""
        regidx = {}
        template = []

        def newreg(v):
            i = len(template)
            template.append(UNDEF)
            regidx[v] = i
            return i

        n = L.CountParams(llv)
        f.nparams = n
        f.byval = {}
        for i in range(n):
            p = L.GetParam(llv, i)
            newreg(p)
            a = L.GetEnumAttributeAtIndex(llv, i + 1, L.ATTR_BYVAL)
            if a:
                f.byval[i] = self.mod.type(L.GetTypeAttributeValue(a))[3]
        blocks = []
        bb = L.GetFirstBB(llv)
        bidx = {}
        binsts = []
        while bb:
            bidx[bb] = len(blocks)
            blocks.append(bb)
            ins = []
            i = L.GetFirstInst(bb)
            while i:
                ins.append((i, L.OPC[L.GetInstOpcode(i)]))
                newreg(i)
                i = L.GetNextInst(i)
            binsts.append(ins)
            bb = L.GetNextBB(bb)
        # operand resolution
        vk_cache = {}

        def opnd(v):
            r = regidx.get(v)
            if r is not None:
                return r
            c = self.const(v)
            i = len(template)
            template.append(c)
            regidx[v] = i
            return i

        start = [0] * len(blocks)
        code = []
        lines = []
        phis = [[(i, o) for i, o in ins if o == "phi"] for ins in binsts]
        # edges resolved after: use lists patched
        pending = []

        def edge(src, dst):
            """mutable edge [target_pc, [(dest, srcreg)...], dst_block_index]"""
            d = bidx[dst]
            moves = []
            for p, _ in phis[d]:
                cnt = L.CountIncoming(p)
                for k in range(cnt):
                    if L.GetIncomingBlock(p, k) == src:
                        moves.append((regidx[p], opnd(L.GetIncomingValue(p, k))))
                        break
                else:
                    raise EngineError("phi edge")
            e = [None, tuple(moves), d, bidx[src]]
            pending.append(e)
            return e

        for bi, bbv in enumerate(blocks):
            start[bi] = len(code)
            for i, op in binsts[bi]:
                if op == "phi":
                    continue
                h = getattr(self, "d_" + op, None)
                if h is None:
                    raise EngineError("unsupported instruction " + op + " in " + name)
                ins = h(i, regidx[i], opnd, edge, bbv)
                if ins is not None:
                    code.append(ins)
                    lines.append(i)
        for e in pending:
            e[0] = start[e[2]]
        f.code = code
        f.template = template
        f.nregs = len(template)
        f.lines = lines
        f.blocks = start
        f.headers = None
        f.hphis = {bi: [(regidx[p], self.mod.type(L.TypeOf(p))) for p, _ in ps] for bi, ps in enumerate(phis) if ps}
        return f

    def where(self, st):
        out = []
        for fr in reversed(st.frames[-12:] if st else []):
            pc = max(0, min(fr.pc - 1 if fr is not st.frames[-1] else fr.pc - 1, len(fr.fn.lines) - 1))
            try:
                i = fr.fn.lines[pc]
                ln = L.GetDebugLocLine(i)
                fl = L.debug_file(i)
            except Exception:
                ln, fl = 0, ""
            out.append("%s:%d (%s)" % (fl, ln, fr.fn.name[:160]))
        return out

    # ------------------------------------------------------------------ decoders
    def ty(self, v):
        return self.mod.type(L.TypeOf(v))

    def d_ret(self, i, d, opnd, edge, bb):
        if L.GetNumOperands(i):
            return (self.x_ret, d, opnd(L.GetOperand(i, 0)))
        return (self.x_ret, d, None)

    def d_br(self, i, d, opnd, edge, bb):
        n = L.GetNumSuccessors(i)
        if n == 1:
            return (self.x_br, d, edge(bb, L.GetSuccessor(i, 0)))
        return (self.x_condbr, d, opnd(L.GetOperand(i, 0)), edge(bb, L.GetSuccessor(i, 0)), edge(bb, L.GetSuccessor(i, 1)))

    def d_switch(self, i, d, opnd, edge, bb):
        n = L.GetNumSuccessors(i)
        v = opnd(L.GetOperand(i, 0))
        w = self.ty(L.GetOperand(i, 0))[1]
        cases = {}
        # operands: cond, default, (value, dest)*
        for k in range(1, n):
            c = int(L.ConstIntGetZExtValue(L.GetOperand(i, 2 * k)))
            cases[c] = edge(bb, L.GetSuccessor(i, k))
        return (self.x_switch, d, v, cases, edge(bb, L.GetSuccessor(i, 0)), w)

    def d_unreachable(self, i, d, opnd, edge, bb):
        return (self.x_unreachable, d)

    def d_fence(self, i, d, opnd, edge, bb):
        return None

    def _bin(self, i, d, opnd, fname):
        t = self.ty(i)
        a, b = opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1))
        if t[0] == "vector":
            et = t[1][1]
            return (self.x_vecbin, d, a, b, fname, et[1], 0)
        nsw = 0
        if fname in ("add", "sub", "mul", "shl"):
            nsw = L.GetNSW(i)
        return (getattr(self, "x_" + fname), d, a, b, t[1], (1 << t[1]) - 1 if t[0] == "int" else 0, nsw)

    for _n in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
        exec("def d_%s(self, i, d, opnd, edge, bb): return self._bin(i, d, opnd, %r)" % (_n, _n))

    def d_fneg(self, i, d, opnd, edge, bb):
        return (self.x_fneg, d, opnd(L.GetOperand(i, 0)))

    def d_freeze(self, i, d, opnd, edge, bb):
        return (self.x_copy, d, opnd(L.GetOperand(i, 0)))

    def d_alloca(self, i, d, opnd, edge, bb):
        t = self.mod.type(L.GetAllocatedType(i))
        return (self.x_alloca, d, t[3], opnd(L.GetOperand(i, 0)), L.value_name(i))

    def d_load(self, i, d, opnd, edge, bb):
        t = self.ty(i)
        p = opnd(L.GetOperand(i, 0))
        if t[0] == "fp":
            return (self.x_load, d, p, t[2], 1, t)
        if t[0] in ("int", "ptr"):
            return (self.x_load, d, p, t[2], 0, t)
        return (self.x_loadagg, d, p, t)

    def d_store(self, i, d, opnd, edge, bb):
        v = L.GetOperand(i, 0)
        t = self.ty(v)
        p = opnd(L.GetOperand(i, 1))
        if t[0] == "fp":
            return (self.x_store, d, opnd(v), p, t[2], 1)
        if t[0] in ("int", "ptr"):
            return (self.x_store, d, opnd(v), p, t[2], 0)
        return (self.x_storeagg, d, opnd(v), p, t)

    def d_gep(self, i, d, opnd, edge, bb):
        n = L.GetNumOperands(i)
        ty = self.mod.type(L.GetGEPSourceElementType(i))
        const = 0
        terms = []
        for k in range(1, n):
            o = L.GetOperand(i, k)
            if k == 1:
                scale = ty[3]
            elif ty[0] == "struct":
                idx = int(L.ConstIntGetZExtValue(o))
                ty, off = ty[1][idx]
                const += off
                continue
            else:
                ty = ty[1][1]
                scale = ty[3]
            w = self.ty(o)[1]
            if L.VK[L.GetValueKind(o)] == "constantint":
                const += to_signed(int(L.ConstIntGetZExtValue(o)) & ((1 << w) - 1), w) * scale
            else:
                terms.append((opnd(o), scale, w))
        base = opnd(L.GetOperand(i, 0))
        if not terms:
            return (self.x_gep0, d, base, const)
        return (self.x_gep, d, base, const, tuple(terms))

    def _cast(self, i, d, opnd, h):
        o = L.GetOperand(i, 0)
        return (h, d, opnd(o), self.ty(o), self.ty(i))

    def d_trunc(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_trunc)
    def d_zext(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_zext)
    def d_sext(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_sext)
    def d_fptoui(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_fptoi)
    def d_fptosi(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_fptoi)
    def d_uitofp(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_uitofp)
    def d_sitofp(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_sitofp)
    def d_fptrunc(self, i, d, opnd, edge, bb): return (self.x_copy, d, opnd(L.GetOperand(i, 0)))
    def d_fpext(self, i, d, opnd, edge, bb): return (self.x_copy, d, opnd(L.GetOperand(i, 0)))
    def d_ptrtoint(self, i, d, opnd, edge, bb): return (self.x_copy, d, opnd(L.GetOperand(i, 0)))
    def d_inttoptr(self, i, d, opnd, edge, bb): return (self.x_copy, d, opnd(L.GetOperand(i, 0)))
    def d_addrspacecast(self, i, d, opnd, edge, bb): return (self.x_copy, d, opnd(L.GetOperand(i, 0)))
    def d_bitcast(self, i, d, opnd, edge, bb): return self._cast(i, d, opnd, self.x_bitcast)

    def d_icmp(self, i, d, opnd, edge, bb):
        t = self.ty(L.GetOperand(i, 0))
        return (self.x_icmp, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), L.GetICmpPredicate(i), t[1] if t[0] != "vector" else t)

    def d_fcmp(self, i, d, opnd, edge, bb):
        return (self.x_fcmp, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), L.GetFCmpPredicate(i))

    def d_select(self, i, d, opnd, edge, bb):
        return (self.x_select, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), opnd(L.GetOperand(i, 2)))

    def _call(self, i, d, opnd, edge, bb, inv):
        fv = L.GetCalledValue(i)
        nargs = L.GetNumArgOperands(i)
        vk = L.VK[L.GetValueKind(fv)]
        name = None
        if vk == "globalalias":
            fv = L.AliasGetAliasee(fv)
            vk = L.VK[L.GetValueKind(fv)]
        if vk == "function":
            name = L.value_name(fv)
            if name.startswith("llvm.lifetime.end"):
                return (self.x_lifeend, None, opnd(L.GetOperand(i, 1)))
            if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.invariant", "llvm.assume", "llvm.donothing")):
                return None
        elif vk == "inlineasm":
            name = "#asm"
        args = []
        metas = False
        for k in range(nargs):
            o = L.GetOperand(i, k)
            if L.VK[L.GetValueKind(o)] == "metadataasvalue":
                metas = True
                args.append(None)
            else:
                args.append(opnd(o))
        byval = None
        for k in range(nargs):
            a = L.GetCallSiteEnumAttr(i, k + 1, L.ATTR_BYVAL)
            if a:
                byval = byval or {}
                byval[k] = self.mod.type(L.GetTypeAttributeValue(a))[3]
        rt = self.ty(i)
        isvoid = rt[0] == "void"
        ne = ue = None
        if inv:
            ne = edge(bb, L.GetNormalDest(i))
            ue = edge(bb, L.GetUnwindDest(i))
        ic = None
        if name is not None:
            ic = self.find_intercept(name)
        return (self.x_call, None if isvoid else d, name if name is not None else None, None if name is not None else opnd(fv),
                tuple(args), byval, ne, ue, ic, rt)

    def find_intercept(self, name):
        ic = self.intercepts.get(name)
        if ic is None:
            for p, h in self.prefix_intercepts:
                if name.startswith(p):
                    return h
        return ic

    def d_call(self, i, d, opnd, edge, bb): return self._call(i, d, opnd, edge, bb, False)
    def d_invoke(self, i, d, opnd, edge, bb): return self._call(i, d, opnd, edge, bb, True)

    def d_landingpad(self, i, d, opnd, edge, bb):
        clauses = []
        for k in range(L.GetNumClauses(i)):
            c = L.GetClause(i, k)
            t = self.ty(c)
            if t[0] == "array":
                clauses.append(("filter", None))
            else:
                clauses.append(("catch", self.const(c)))
        return (self.x_landingpad, d, tuple(clauses), L.IsCleanup(i))

    def d_resume(self, i, d, opnd, edge, bb):
        return (self.x_resume, d, opnd(L.GetOperand(i, 0)))

    def d_extractvalue(self, i, d, opnd, edge, bb):
        n = L.GetNumIndices(i)
        idx = L.GetIndices(i)
        return (self.x_extractvalue, d, opnd(L.GetOperand(i, 0)), tuple(idx[k] for k in range(n)))

    def d_insertvalue(self, i, d, opnd, edge, bb):
        n = L.GetNumIndices(i)
        idx = L.GetIndices(i)
        return (self.x_insertvalue, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), tuple(idx[k] for k in range(n)))

    def d_extractelement(self, i, d, opnd, edge, bb):
        return (self.x_extractelement, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)))

    def d_insertelement(self, i, d, opnd, edge, bb):
        return (self.x_insertelement, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), opnd(L.GetOperand(i, 2)))

    def d_shufflevector(self, i, d, opnd, edge, bb):
        n = L.GetNumMaskElements(i)
        return (self.x_shuffle, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), tuple(L.GetMaskValue(i, k) for k in range(n)))

    def d_atomicrmw(self, i, d, opnd, edge, bb):
        t = self.ty(L.GetOperand(i, 1))
        return (self.x_atomicrmw, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), L.GetAtomicRMWBinOp(i), t)

    def d_cmpxchg(self, i, d, opnd, edge, bb):
        t = self.ty(L.GetOperand(i, 1))
        return (self.x_cmpxchg, d, opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)), opnd(L.GetOperand(i, 2)), t)

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=""):
        oid = st.next_obj
        st.next_obj = oid + 1
        o = Obj(size, kind, name, st.token)
        st.objs[oid] = o
        return (oid << OBJ_SHIFT) + OBJ_BASE

    def lookup(self, st, addr, size, what):
        """resolve a concrete address for an access of `size` bytes -> (obj, off, oid)"""
        if addr.__class__ is not int:
            addr = self.concretize(st, addr, what)
        oid = addr >> OBJ_SHIFT
        o = st.objs.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is None:
                if addr < 4096:
                    raise Violation("memory-safety", "%s through null pointer (address %d)" % (what, addr))
                if addr >= FN_TAG_BASE:
                    raise Violation("memory-safety", "%s of function memory" % what)
                raise Violation("memory-safety", "%s of freed or invalid memory" % what)
        off = (addr & OBJ_MASK) - OBJ_BASE
        if off < 0 or off + size > o.size:
            raise Violation("memory-safety", "%s out of bounds: offset %d size %d of object %r (%s, %d bytes)" % (what, off, size, o.name, o.kind, o.size))
        return o, off, oid

    def writable(self, st, o, oid, off=None):
        if o.owner is not st.token:
            if o.kind == "const":
                raise Violation("memory-safety", "write to constant object %r" % o.name)
            o = o.clone(st.token)
            st.objs[oid] = o
        return o

    def concretize(self, st, v, what="value"):
        """Enumerate the feasible values of a symbolic integer: forks."""
        if v.__class__ is int:
            return v
        if v is UNDEF:
            raise Violation("memory-safety", "use of uninitialised value as address (%s)" % what)
        if not z3.is_bv(v):
            raise EngineError("cannot concretize %r" % (v,))
        vs = z3.simplify(v)
        if z3.is_bv_value(vs):
            return vs.as_long()
        k = st.ghost.get("conc")
        if k is not None:
            h = k.get(v.get_id())
            if h is not None and h[0] is v:
                return h[1]
        # enumerate
        vals = []
        cons = st.pc.slice([v == 0])
        s = z3.Solver()
        s.set("timeout", 5000)
        for c in cons:
            s.add(S.to_z3(c))
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise EngineError("concretize: solver unknown")
            val = s.model().eval(v, model_completion=True).as_long()
            vals.append(val)
            if len(vals) > 300:
                raise EngineError("concretize: too many values (%s)" % what)
            s.add(v != val)
        if not vals:
            raise PathEnd("infeasible")
        vals.sort()
        raise Fork([(v == x, (v, x)) for x in vals])

    def load(self, st, addr, size, kind, what="read"):
        o, off, oid = self.lookup(st, addr, size, what)
        c = o.data.get(off)
        if c is not None and c[0] == size:
            if c[1] == kind:
                return c[2]
            return self.reinterpret(c[2], size, c[1], kind)
        return self.load_slow(o, off, size, kind)

    def reinterpret(self, v, size, k0, k1):
        if v is UNDEF or v.__class__ is PB:
            return UNDEF
        if k0 == 1:     # fp -> int
            if v.__class__ is R:
                return FBits(v)
            if size == 8:
                return struct.unpack("<Q", struct.pack("<d", float(v)))[0]
            if size == 4:
                return struct.unpack("<I", struct.pack("<f", float(v)))[0]
            raise EngineError("reinterpret fp size")
        if v.__class__ is FBits:
            return v.v
        if v.__class__ is int:
            if size == 8:
                return self.from_double(struct.unpack("<d", struct.pack("<Q", v))[0])
            if size == 4:
                return self.from_double(struct.unpack("<f", struct.pack("<I", v))[0])
        raise EngineError("reinterpret int as fp")

    def byte_at(self, o, off):
        data = o.data
        for back in range(0, 16):
            c = data.get(off - back)
            if c is not None:
                if c[0] <= back:
                    break
                v = c[2]
                if v is UNDEF:
                    return UNDEF
                if v.__class__ is PB:
                    return v.bs[back]
                if c[1] == 1:
                    v = self.reinterpret(v, c[0], 1, 0)
                if v.__class__ is FBits:
                    return ("fb", v, back)
                if v.__class__ is int:
                    return (v >> (8 * back)) & 0xFF
                if z3.is_bv(v):
                    if v.size() < 8:
                        v = z3.ZeroExt(8 - v.size(), v)
                    return z3.simplify(z3.Extract(8 * back + 7, 8 * back, v))
                if v.__class__ is SC or z3.is_bool(v):
                    if back == 0 and c[0] == 1:
                        return ("b", v)
                raise EngineError("byte_at of %r" % (v,))
        if o.init:
            return 0
        return UNDEF

    def join_bytes(self, bs):
        if all(b is UNDEF for b in bs):
            return UNDEF
        if any(b is UNDEF for b in bs):
            return PB(bs)
        if all(b.__class__ is int for b in bs):
            return int.from_bytes(bytes(bs), "little")
        if bs[0].__class__ is tuple and bs[0][0] == "fb" and all(b.__class__ is tuple and b[1] is bs[0][1] and b[2] == k for k, b in enumerate(bs)):
            return bs[0][1]
        if len(bs) == 1 and bs[0].__class__ is tuple and bs[0][0] == "b":
            return bs[0][1]
        parts = []
        for b in reversed(bs):
            if b.__class__ is int:
                parts.append(z3.BitVecVal(b, 8))
            elif z3.is_bv(b):
                parts.append(b)
            else:
                raise EngineError("mixed byte load")
        return self.simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])

    def load_slow(self, o, off, size, kind):
        bs = [self.byte_at(o, off + k) for k in range(size)]
        if all(b.__class__ is int for b in bs):
            v = int.from_bytes(bytes(bs), "little")
            return self.reinterpret(v, size, 0, 1) if kind == 1 else v
        if any(b is UNDEF for b in bs):
            if kind == 1 or all(b is UNDEF for b in bs):
                return UNDEF
            return PB(bs)
        if bs[0].__class__ is tuple and bs[0][0] == "fb" and all(b.__class__ is tuple and b[1] is bs[0][1] and b[2] == k for k, b in enumerate(bs)):
            return bs[0][1].v if kind == 1 else bs[0][1]
        if size == 1 and bs[0].__class__ is tuple and bs[0][0] == "b":
            return bs[0][1]
        if kind == 1:
            raise EngineError("fp load of symbolic bytes")
        parts = []
        for b in reversed(bs):
            if b.__class__ is int:
                parts.append(z3.BitVecVal(b, 8))
            elif z3.is_bv(b):
                parts.append(b)
            else:
                raise EngineError("mixed byte load")
        return self.simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])

    def simp(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def clear_range(self, o, off, size):
        data = o.data
        # cells starting before
        for back in range(1, 16):
            c = data.get(off - back)
            if c is not None:
                if c[0] > back:
                    self.split(o, off - back)
                    for k in range(off, off - back + c[0]):
                        data.pop(k, None)
                break
        if size > 64 and len(data) < size:
            ks = [k for k in data if off <= k < off + size]
        else:
            ks = [k for k in range(off, off + size) if k in data]
        for k in ks:
            c = data.get(k)
            if c is None:
                continue
            if k + c[0] > off + size:
                self.split(o, k)
                for kk in range(k, off + size):
                    data.pop(kk, None)
            else:
                del data[k]

    def split(self, o, off):
        c = o.data[off]
        n = c[0]
        if n == 1:
            return
        bs = [self.byte_at(o, off + k) for k in range(n)]
        del o.data[off]
        for k, b in enumerate(bs):
            if b.__class__ is tuple:
                if b[0] == "fb":
                    b = UNDEF
                else:
                    b = b[1]
            o.data[off + k] = (1, 0, b)

    def store(self, st, addr, v, size, kind, what="write"):
        o, off, oid = self.lookup(st, addr, size, what)
        if o.owner is not st.token:
            o = self.writable(st, o, oid)
        if o.frozen:
            self.check_frozen(st, o, off, size, v)
        data = o.data
        c = data.get(off)
        if c is None or c[0] != size:
            self.clear_range(o, off, size)
        data[off] = (size, kind, v)

    def check_frozen(self, st, o, off, size, v):
        if o.frozen.__class__ is set and off in o.frozen:
            return
        c = o.data.get(off)
        if c is not None and c[0] == size and c[2].__class__ is v.__class__ and c[2].__class__ is int and c[2] == v:
            return
        # shared_ptr reference counts of protected objects live in control blocks: offsets 8..15
        if o.frozen == "ctl" and 8 <= off < 16:
            return
        raise Violation("frame", "write to protected object %r offset %d" % (o.name, off))

    def memcpy(self, st, dst, src, n, what="memcpy"):
        if n.__class__ is not int:
            n = self.concretize(st, n, "memcpy size")
        if n == 0:
            return
        if dst.__class__ is not int:
            dst = self.concretize(st, dst)
        if src.__class__ is not int:
            src = self.concretize(st, src)
        so, soff, _ = self.lookup(st, src, n, what + " source")
        do, doff, doid = self.lookup(st, dst, n, what + " destination")
        # collect cells
        cells = []
        sd = so.data
        # leading partial
        need_split = False
        for back in range(1, 16):
            c = sd.get(soff - back)
            if c is not None:
                if c[0] > back:
                    need_split = True
                break
        if n > 256 and len(sd) < n:
            offs = sorted(k for k in sd if soff <= k < soff + n)
        else:
            offs = [k for k in range(soff, soff + n) if k in sd]
        end = soff + n
        if need_split or (offs and offs[-1] + sd[offs[-1]][0] > end):
            tmp = so.clone(None)
            if need_split:
                self.split(tmp, soff - back)
            if offs and offs[-1] + sd[offs[-1]][0] > end:
                self.split(tmp, offs[-1])
            sd = tmp.data
            offs = sorted(k for k in sd if soff <= k < end)
        cells = [(k - soff, sd[k]) for k in offs]
        zero = so.init and not do.init
        if zero:
            # materialise implicit zero bytes
            cov = set()
            for k, c in cells:
                cov.update(range(k, k + c[0]))
            cells += [(k, (1, 0, 0)) for k in range(n) if k not in cov]
        if do.owner is not st.token:
            do = self.writable(st, do, doid)
        if do.frozen:
            for k, c in cells:
                self.check_frozen(st, do, doff + k, c[0], c[2])
        hole_undef = (not so.init) and do.init
        self.clear_range(do, doff, n)
        dd = do.data
        for k, c in cells:
            dd[doff + k] = c
        if hole_undef:
            cov = set()
            for k, c in cells:
                cov.update(range(k, k + c[0]))
            for k in range(n):
                if k not in cov:
                    dd[doff + k] = (1, 0, UNDEF)

    def memset(self, st, dst, val, n):
        n = self.concretize(st, n, "memset size") if n.__class__ is not int else n
        if n == 0:
            return
        o, off, oid = self.lookup(st, dst, n, "memset")
        o = self.writable(st, o, oid)
        if o.frozen:
            for k in range(n):
                self.check_frozen(st, o, off + k, 1, val)
        self.clear_range(o, off, n)
        if val == 0 and n % 8 == 0 and off % 8 == 0:
            for k in range(off, off + n, 8):
                o.data[k] = (8, 0, 0)
        elif val.__class__ is int:
            val &= 0xFF
            for k in range(off, off + n):
                o.data[k] = (1, 0, val)
        else:
            b = self.simp(z3.Extract(7, 0, val)) if z3.is_bv(val) and val.size() > 8 else val
            for k in range(off, off + n):
                o.data[k] = (1, 0, b)

    def free(self, st, addr, what="free"):
        if addr == 0:
            return
        if addr.__class__ is not int:
            addr = self.concretize(st, addr)
        oid = addr >> OBJ_SHIFT
        o = st.objs.get(oid)
        if o is None or (addr & OBJ_MASK) != OBJ_BASE or o.kind != "heap":
            raise Violation("memory-safety", "invalid or double free")
        if o.frozen:
            raise Violation("frame", "free of protected object")
        del st.objs[oid]

    def load_ty(self, st, addr, ty):
        k = ty[0]
        if k == "fp":
            return self.load(st, addr, ty[2], 1)
        if k in ("int", "ptr"):
            v = self.load(st, addr, ty[2], 0)
            if k == "int" and ty[1] & 7 and v.__class__ is int:
                v &= (1 << ty[1]) - 1
            return v
        if k == "struct":
            return [self.load_ty(st, addr + o, t) for t, o in ty[1]]
        n, e = ty[1]
        return [self.load_ty(st, addr + i * e[3], e) for i in range(n)]

    def store_ty(self, st, addr, v, ty):
        k = ty[0]
        if k == "fp":
            self.store(st, addr, v, ty[2], 1)
        elif k in ("int", "ptr"):
            self.store(st, addr, v, ty[2], 0)
        elif k == "struct":
            for x, (t, o) in zip(v, ty[1]):
                self.store_ty(st, addr + o, x, t)
        else:
            n, e = ty[1]
            for i in range(n):
                self.store_ty(st, addr + i * e[3], v[i], e)

    def cstr(self, st, addr):
        """concrete C string (bytes)"""
        out = bytearray()
        while True:
            b = self.load(st, addr, 1, 0, "string read")
            if b.__class__ is not int:
                b = self.concretize(st, b, "string byte")
            if b == 0:
                return bytes(out)
            out.append(b)
            addr += 1

    # ------------------------------------------------------------------ decisions
    def feasible(self, st, cond):
        k = st.pc.known(cond)
        if k is not None:
            return k
        m = st.pc.model
        if m is not None and cond.__class__ is SC:
            v = S.eval_poly(cond.poly, m)
            if v is not None:
                s = POS if v > 0 else NEG if v < 0 else ZER
                if s & cond.mask:
                    return True
        cons = st.pc.slice([cond]) + [cond]
        r, _ = S.check(cons, self.feas_ms, pc=st.pc, target=cond)
        return r != "unsat"

    def decide(self, st, cond):
        if cond.__class__ is int or cond.__class__ is bool:
            return bool(cond)
        if cond is UNDEF:
            raise Violation("memory-safety", "branch depends on uninitialised value")
        k = st.pc.known(cond)
        if k is not None:
            return k
        n = S.negate(cond)
        if not self.feasible(st, cond):
            st.pc.add(n)
            return False
        if not self.feasible(st, n):
            st.pc.add(cond)
            return True
        raise Fork([(cond, None), (n, None)])

    def decide_sign(self, st, v):
        """sign of a real: -1, 0, 1 (forks)."""
        if v.__class__ is not R:
            if v != v:
                raise EngineError("sign of nan")
            return (v > 0) - (v < 0)
        p = Q.sign_poly(v)
        if self.decide(st, sign_cond(p, ZER)):
            return 0
        return 1 if self.decide(st, sign_cond(p, POS)) else -1

    # ------------------------------------------------------------------ real arithmetic
    def r_add(self, st, a, b, sb=1):
        ca, cb = a.__class__, b.__class__
        if ca is UNDEF.__class__ or cb is UNDEF.__class__:
            return UNDEF
        if ca is float or cb is float:
            fa = a if ca is float else 0.0
            fb = b if cb is float else 0.0
            r = fa + sb * fb
            return r if r in (math.inf, -math.inf) else math.nan
        if ca is not R and cb is not R:
            return Q.norm(a + b if sb == 1 else a - b)
        return Q.add(a, b, sb)

    def r_mul(self, st, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is UNDEF.__class__ or cb is UNDEF.__class__:
            return UNDEF
        if ca is float or cb is float:
            if a != a or b != b:
                return math.nan
            sa, sb = self.decide_sign(st, a), self.decide_sign(st, b)
            s = sa * sb
            return math.nan if s == 0 else s * math.inf
        return Q.mul(a, b)

    def r_div(self, st, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is UNDEF.__class__ or cb is UNDEF.__class__:
            return UNDEF
        if ca is float or cb is float:
            if a != a or b != b:
                return math.nan
            if ca is float and cb is float:
                return math.nan
            if cb is float:
                return 0
            sb = self.decide_sign(st, b)
            return a * (sb if sb else 1)
        sb = self.decide_sign0(st, b)
        if sb == 0:
            sa = self.decide_sign(st, a)
            return math.nan if sa == 0 else sa * math.inf
        return Q.div(a, b)

    def decide_sign0(self, st, v):
        """0 if v == 0 else 1 (forks on zero-ness only)"""
        if v.__class__ is not R:
            return 0 if v == 0 else 1
        return 0 if self.decide(st, sign_cond(v.num, ZER)) else 1

    def r_neg(self, a):
        if a is UNDEF:
            return UNDEF
        return Q.neg(a) if a.__class__ is R else -a

    def r_cmp(self, a, b, mask):
        """condition sign(a-b) in mask, for non-nan operands"""
        ca, cb = a.__class__, b.__class__
        if ca is not R and cb is not R:
            s = POS if a > b else NEG if a < b else ZER
            return int(bool(s & mask))
        if ca is float:
            return int(bool((POS if a > 0 else NEG) & mask))
        if cb is float:
            return int(bool((NEG if b > 0 else POS) & mask))
        if self.abs_of:
            x, y = self.abs_arg(a), self.abs_arg(b)
            if x is not None and y is not None:
                d = Q.mul(Q.add(x, y, -1), Q.add(x, y))
                c = sign_cond(Q.sign_poly(d), mask) if d.__class__ is R else bool((POS if d > 0 else NEG if d < 0 else ZER) & mask)
                return int(c) if c.__class__ is bool else c
        d = Q.add(a, b, -1)
        c = sign_cond(Q.sign_poly(d), mask)
        return int(c) if c.__class__ is bool else c

    def r_pow_int(self, st, a, n):
        if n == 0:
            return 1
        neg = n < 0
        n = abs(n)
        r = 1
        base = a
        k = n
        while k:
            if k & 1:
                r = self.r_mul(st, r, base)
            k >>= 1
            if k:
                base = self.r_mul(st, base, base)
        if neg:
            r = self.r_div(st, 1, r)
        return r

    # ------------------------------------------------------------------ executing
    def x_copy(self, st, fr, I):
        fr.regs[I[1]] = fr.regs[I[2]]

    def x_ret(self, st, fr, I):
        v = fr.regs[I[2]] if I[2] is not None else None
        frames = st.frames
        objs = st.objs
        for a in fr.allocas:
            objs.pop(a >> OBJ_SHIFT, None)
        frames.pop()
        if fr.on_return is not None:
            v = fr.on_return(self, st, v)
        if not frames:
            st.retval = v
            raise PathEnd("end")
        c = frames[-1]
        CI = c.callinst
        if CI[1] is not None:
            c.regs[CI[1]] = v
        if CI[6] is not None:
            self.take(c, CI[6])

    def x_lifeend(self, st, fr, I):
        a = fr.regs[I[2]]
        if a.__class__ is int and a & OBJ_MASK == OBJ_BASE:
            oid = a >> OBJ_SHIFT
            o = st.objs.get(oid)
            if o is not None and o.data and o.kind == "stack":
                o = self.writable(st, o, oid)
                o.data = {}

    def take(self, fr, e):
        moves = e[1]
        if moves:
            regs = fr.regs
            if len(moves) == 1:
                d, s = moves[0]
                regs[d] = regs[s]
            else:
                vals = [regs[s] for _, s in moves]
                for (d, _), v in zip(moves, vals):
                    regs[d] = v
        fr.pc = e[0]

    def x_br(self, st, fr, I):
        e = I[2]
        if fr.snap is not None and self.loop_cut(st, fr, e):
            return
        self.take(fr, e)

    def loop_cut(self, st, fr, e):
        """Backward edge of the outermost loop of a function whose loop invariant is given by a contract callback: the
        callback gets the function's arguments, asserts the invariant, and the path ends.  The state in which the loop is
        first entered is the unit's own arbitrary state satisfying that invariant; anything else that the body changed
        and that is still alive would escape this argument and is refused."""
        if fr.snap.__class__ is not dict:
            return invar.edge(self, st, fr, e)
        if e[2] > e[3]:
            return False
        f = fr.fn
        if f.headers is None:
            f.headers = set()
            for I in f.code:
                for x in (list(I[3].values()) + [I[4]] if len(I) > 4 and I[3].__class__ is dict else I):
                    if x.__class__ is list and len(x) == 4 and x[1].__class__ is tuple and x[2] <= x[3]:
                        f.headers.add(x[2])
        if e[2] != min(f.headers):
            return False
        if e[1]:
            raise EngineError("loop carries a value that its invariant does not mention")
        args = fr.regs[:f.nparams]
        own = {a >> OBJ_SHIFT for a in args if a.__class__ is int and a > 1 << OBJ_SHIFT}
        for oid, o in st.objs.items():
            if oid in own or oid in self.gobjs:
                continue
            old = fr.snap.get(oid)
            if old is None:
                if o.data and o.kind == "stack":
                    raise EngineError("loop body leaves a live local object (%s) its invariant does not mention" % o.name)
                if o.kind == "heap":
                    raise EngineError("loop body leaves a heap object its invariant does not mention")
            elif old is not o.data and old.keys() ^ o.data.keys() or any(o.data[k] is not x and o.data[k] != x for k, x in old.items() if k in o.data):
                raise EngineError("loop body changes an object (%s) its invariant does not mention" % o.name)
        cb = st.loopcut[f.name]
        st.loopcut = {}
        st.subst = {}
        fr.snap = None
        fr.callinst = (None, None, None, None, (), None, None, None, None, None)

        def done(eng, st2, v):
            raise PathEnd("end")
        g = self.fns.get(cb) or self.fn(cb)
        self.enter(st, cb, args[len(args) - g.nparams:], None, done)        # the callback does not get the sret pointer
        return True

    def x_condbr(self, st, fr, I):
        c = fr.regs[I[2]]
        if c.__class__ is not int:
            c = self.decide(st, c)
        e = I[3] if c else I[4]
        if fr.snap is not None and self.loop_cut(st, fr, e):
            return
        self.take(fr, e)

    def x_switch(self, st, fr, I):
        v = fr.regs[I[2]]
        if v.__class__ is not int:
            if v is UNDEF:
                raise Violation("memory-safety", "switch on uninitialised value")
            for c, e in I[3].items():
                if self.decide(st, v == c):
                    break
            else:
                e = I[4]
        else:
            e = I[3].get(v, I[4])
        if fr.snap is not None and self.loop_cut(st, fr, e):
            return
        self.take(fr, e)

    def x_unreachable(self, st, fr, I):
        raise Violation("memory-safety", "unreachable executed (undefined behaviour or missing return)")

    # integer ops ---------------------------------------------------------------------------
    def bvv(self, v, w):
        if v.__class__ is int:
            return z3.BitVecVal(v, w)
        if v.__class__ is SC or z3.is_bool(v):
            return z3.If(S.to_z3(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if v.__class__ is FBits:
            raise EngineError("bit arithmetic on symbolic double")
        return v

    def x_add(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if I[6]:
                w = I[4]
                s = to_signed(a, w) + to_signed(b, w)
                if not -(1 << (w - 1)) <= s < (1 << (w - 1)):
                    raise Violation("no-overflow", "signed integer overflow in addition")
            fr.regs[I[1]] = (a + b) & I[5]
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF
            return
        if I[4] == 1:
            fr.regs[I[1]] = int(self.decide(st, a)) ^ int(self.decide(st, b)); return
        x, y = self.bvv(a, I[4]), self.bvv(b, I[4])
        if I[6] and self.opts.get("check_overflow"):
            self.oblige(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), "no-overflow")
        fr.regs[I[1]] = self.simp(x + y)

    def x_sub(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if I[6]:
                w = I[4]
                s = to_signed(a, w) - to_signed(b, w)
                if not -(1 << (w - 1)) <= s < (1 << (w - 1)):
                    raise Violation("no-overflow", "signed integer overflow in subtraction")
            fr.regs[I[1]] = (a - b) & I[5]
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF
            return
        if I[4] == 1:
            fr.regs[I[1]] = int(self.decide(st, a)) ^ int(self.decide(st, b)); return
        fr.regs[I[1]] = self.simp(self.bvv(a, I[4]) - self.bvv(b, I[4]))

    def x_mul(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if I[6]:
                w = I[4]
                s = to_signed(a, w) * to_signed(b, w)
                if not -(1 << (w - 1)) <= s < (1 << (w - 1)):
                    raise Violation("no-overflow", "signed integer overflow in multiplication")
            fr.regs[I[1]] = (a * b) & I[5]
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF
            return
        fr.regs[I[1]] = self.simp(self.bvv(a, I[4]) * self.bvv(b, I[4]))

    def _divop(self, st, fr, I, name):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        w = I[4]
        if a is UNDEF or b is UNDEF:
            raise Violation("memory-safety", "division of uninitialised value")
        if a.__class__ is int and b.__class__ is int:
            if b == 0:
                raise Violation("no-overflow", "integer division by zero")
            if name == "udiv": r = a // b
            elif name == "urem": r = a % b
            else:
                sa, sb = to_signed(a, w), to_signed(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0): q = -q
                r = q if name == "sdiv" else sa - q * sb
            fr.regs[I[1]] = r & I[5]
            return
        x, y = self.bvv(a, w), self.bvv(b, w)
        if self.decide(st, self.simp_b(y == 0)):
            raise Violation("no-overflow", "integer division by zero")
        f = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda p, q: p / q, "srem": z3.SRem}[name]
        fr.regs[I[1]] = self.simp(f(x, y))

    def simp_b(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def x_udiv(self, st, fr, I): self._divop(st, fr, I, "udiv")
    def x_urem(self, st, fr, I): self._divop(st, fr, I, "urem")
    def x_sdiv(self, st, fr, I): self._divop(st, fr, I, "sdiv")
    def x_srem(self, st, fr, I): self._divop(st, fr, I, "srem")

    def x_shl(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if b >= I[4]:
                raise Violation("no-overflow", "shift amount %d out of range" % b)
            fr.regs[I[1]] = (a << b) & I[5]
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF; return
        fr.regs[I[1]] = self.simp(self.bvv(a, I[4]) << self.bvv(b, I[4]))

    def x_lshr(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if b >= I[4]:
                raise Violation("no-overflow", "shift amount %d out of range" % b)
            fr.regs[I[1]] = a >> b
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF; return
        if a.__class__ is FBits and b == 63:
            fr.regs[I[1]] = int(self.decide_sign(st, a.v) < 0); return
        if a.__class__ is PB and b.__class__ is int and b % 8 == 0:
            fr.regs[I[1]] = self.join_bytes(list(a.bs[b // 8:]) + [0] * (b // 8)); return
        fr.regs[I[1]] = self.simp(z3.LShR(self.bvv(a, I[4]), self.bvv(b, I[4])))

    def x_ashr(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            if b >= I[4]:
                raise Violation("no-overflow", "shift amount %d out of range" % b)
            fr.regs[I[1]] = (to_signed(a, I[4]) >> b) & I[5]
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF; return
        fr.regs[I[1]] = self.simp(self.bvv(a, I[4]) >> self.bvv(b, I[4]))

    def _logic(self, st, fr, I, op):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is int and b.__class__ is int:
            fr.regs[I[1]] = (a & b) if op == 0 else (a | b) if op == 1 else (a ^ b)
            return
        if I[4] == 1:
            # boolean
            if op == 2:
                if b == 1 and b.__class__ is int and a is not UNDEF:
                    fr.regs[I[1]] = S.negate(a); return
                fr.regs[I[1]] = int(self.decide(st, a)) ^ int(self.decide(st, b)); return
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                fr.regs[I[1]] = (a if b else 0) if op == 0 else (1 if b else a)
                return
            da = self.decide(st, a)
            if op == 0:
                fr.regs[I[1]] = b if da else 0
            else:
                fr.regs[I[1]] = 1 if da else b
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I[1]] = UNDEF; return
        if a.__class__ is FBits or b.__class__ is FBits:
            if b.__class__ is FBits: a, b = b, a
            if op == 0 and b == (1 << 63) - 1:
                fr.regs[I[1]] = FBits(self.r_abs(st, a.v)); return
            if op == 0 and b == (1 << 63):
                fr.regs[I[1]] = (1 << 63) if self.decide_sign(st, a.v) < 0 else 0; return
            if op == 2 and b == (1 << 63):
                fr.regs[I[1]] = FBits(self.r_neg(a.v)); return
            raise EngineError("bit logic on symbolic double")
        x, y = self.bvv(a, I[4]), self.bvv(b, I[4])
        fr.regs[I[1]] = self.simp(x & y if op == 0 else x | y if op == 1 else x ^ y)

    def r_abs(self, st, v):
        if v is UNDEF:
            return v
        if v.__class__ is R:
            c = sign_cond(Q.sign_poly(v), NEG)
            if self.opts.get("lazyabs"):
                k = st.pc.known(c)
                if k is None:
                    return self.lazy_abs(v)
                return Q.neg(v) if k else v
            if self.decide(st, c):
                return Q.neg(v)
            return v
        return abs(v)

    def lazy_abs(self, v):
        """|v| as an atom of its own (no case split); comparisons of two such atoms are decided on the squares"""
        n = Q.neg(v)
        if sorted(map(repr, n.num.items())) < sorted(map(repr, v.num.items())):
            v = n
        i, new = Q.intern_atom("abs", (v.key(),), "abs(%r)" % (v,))
        a = Q.atom(i)
        if new:
            self.abs_of[i] = v
            S.atom_axioms[i] = [sign_cond({((i, 1),): 1}, ZER | POS)] + [
                c for c in (sign_cond(Q.sign_poly(Q.add(a, v, -1)), ZER | POS), sign_cond(Q.sign_poly(Q.add(a, v)), ZER | POS),
                            sign_cond(Q.sign_poly(Q.add(Q.mul(a, a), Q.mul(v, v), -1)), ZER)) if c.__class__ is SC]
        return a

    def abs_arg(self, a):
        if a.__class__ is R and not a.den and len(a.num) == 1:
            (m, c), = a.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.abs_of.get(m[0][0])
        return None

    def x_and(self, st, fr, I): self._logic(st, fr, I, 0)
    def x_or(self, st, fr, I): self._logic(st, fr, I, 1)
    def x_xor(self, st, fr, I): self._logic(st, fr, I, 2)

    def x_fadd(self, st, fr, I): fr.regs[I[1]] = self.r_add(st, fr.regs[I[2]], fr.regs[I[3]])
    def x_fsub(self, st, fr, I): fr.regs[I[1]] = self.r_add(st, fr.regs[I[2]], fr.regs[I[3]], -1)
    def x_fmul(self, st, fr, I): fr.regs[I[1]] = self.r_mul(st, fr.regs[I[2]], fr.regs[I[3]])
    def x_fdiv(self, st, fr, I): fr.regs[I[1]] = self.r_div(st, fr.regs[I[2]], fr.regs[I[3]])
    def x_frem(self, st, fr, I): raise EngineError("frem")

    def x_fneg(self, st, fr, I):
        v = fr.regs[I[2]]
        fr.regs[I[1]] = [self.r_neg(x) for x in v] if v.__class__ is list else self.r_neg(v)

    def x_vecbin(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        h = getattr(self, "x_" + I[4])
        out = []
        w = I[5]

        class _F:
            pass
        for x, y in zip(a, b):
            f = _F()
            f.regs = [None, x, y]
            h(st, f, (None, 0, 1, 2, w, (1 << w) - 1 if w.__class__ is int else 0, 0))
            out.append(f.regs[0])
        fr.regs[I[1]] = out

    def x_alloca(self, st, fr, I):
        n = fr.regs[I[3]]
        if n.__class__ is not int:
            n = self.concretize(st, n, "alloca count")
        a = self.alloc(st, I[2] * n, "stack", I[4])
        fr.allocas.append(a)
        fr.regs[I[1]] = a

    def x_load(self, st, fr, I):
        a = fr.regs[I[2]]
        if a.__class__ is int:
            oid = a >> OBJ_SHIFT
            o = st.objs.get(oid)
            if o is not None:
                c = o.data.get((a & OBJ_MASK) - OBJ_BASE)
                if c is not None and c[0] == I[3] and c[1] == I[4]:
                    fr.regs[I[1]] = c[2]
                    return
        v = self.load(st, a, I[3], I[4])
        t = I[5]
        if t[0] == "int" and t[1] & 7 and v.__class__ is int:
            v &= (1 << t[1]) - 1
        fr.regs[I[1]] = v

    def x_loadagg(self, st, fr, I):
        fr.regs[I[1]] = self.load_ty(st, self.concretize(st, fr.regs[I[2]]), I[3])

    def x_store(self, st, fr, I):
        a = fr.regs[I[3]]
        if a.__class__ is not int:
            a = self.concretize(st, a, "store address")
        self.store(st, a, fr.regs[I[2]], I[4], I[5])

    def x_storeagg(self, st, fr, I):
        self.store_ty(st, self.concretize(st, fr.regs[I[3]]), fr.regs[I[2]], I[4])

    def x_gep0(self, st, fr, I):
        b = fr.regs[I[2]]
        if b.__class__ is int:
            fr.regs[I[1]] = (b + I[3]) & M64
        elif b is UNDEF:
            fr.regs[I[1]] = UNDEF
        else:
            fr.regs[I[1]] = self.simp(b + I[3])

    def x_gep(self, st, fr, I):
        regs = fr.regs
        b = regs[I[2]]
        sym = None
        off = I[3]
        for r, sc, w in I[4]:
            v = regs[r]
            if v.__class__ is int:
                if v >> (w - 1):
                    v -= 1 << w
                off += v * sc
            elif v is UNDEF:
                regs[I[1]] = UNDEF
                return
            else:
                v = self.bvv(v, w)
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                t = v * sc
                sym = t if sym is None else sym + t
        if b is UNDEF:
            regs[I[1]] = UNDEF
            return
        if sym is None and b.__class__ is int:
            regs[I[1]] = (b + off) & M64
        else:
            e = self.bvv(b, 64) + off
            if sym is not None:
                e = e + sym
            regs[I[1]] = self.simp(e)

    def x_trunc(self, st, fr, I):
        v = fr.regs[I[2]]
        w = I[4][1]
        if v.__class__ is int:
            fr.regs[I[1]] = v & ((1 << w) - 1)
        elif v is UNDEF:
            fr.regs[I[1]] = UNDEF
        elif v.__class__ is PB:
            if w % 8 == 0:
                fr.regs[I[1]] = self.join_bytes(v.bs[:w // 8])
            elif w == 1:
                b = v.bs[0]
                fr.regs[I[1]] = UNDEF if b is UNDEF else (b & 1 if b.__class__ is int else self.simp_b(z3.Extract(0, 0, b) == 1))
            else:
                fr.regs[I[1]] = UNDEF
        elif v.__class__ is list:
            fr.regs[I[1]] = [x & ((1 << I[4][1][1][1]) - 1) for x in v]
        elif v.__class__ is SC or z3.is_bool(v):
            fr.regs[I[1]] = v
        elif w == 1:
            fr.regs[I[1]] = self.simp_b(z3.Extract(0, 0, v) == 1)
        else:
            fr.regs[I[1]] = self.simp(z3.Extract(w - 1, 0, v))

    def x_zext(self, st, fr, I):
        v = fr.regs[I[2]]
        if v.__class__ is int or v is UNDEF:
            fr.regs[I[1]] = v
        elif v.__class__ is SC or z3.is_bool(v):
            if I[4][1] == 8:
                fr.regs[I[1]] = v        # bool stored as i8: kept symbolic
            else:
                fr.regs[I[1]] = int(self.decide(st, v))
        elif v.__class__ is list:
            fr.regs[I[1]] = v
        else:
            fr.regs[I[1]] = self.simp(z3.ZeroExt(I[4][1] - I[3][1], v))

    def x_sext(self, st, fr, I):
        v = fr.regs[I[2]]
        w0, w = I[3][1], I[4][1]
        if v.__class__ is int:
            fr.regs[I[1]] = to_signed(v, w0) & ((1 << w) - 1)
        elif v is UNDEF:
            fr.regs[I[1]] = v
        elif v.__class__ is SC or z3.is_bool(v):
            fr.regs[I[1]] = ((1 << w) - 1) if self.decide(st, v) else 0
        else:
            fr.regs[I[1]] = self.simp(z3.SignExt(w - w0, v))

    def x_fptoi(self, st, fr, I):
        v = fr.regs[I[2]]
        w = I[4][1]
        if v is UNDEF:
            fr.regs[I[1]] = v
        elif v.__class__ is R:
            raise EngineError("float->int of symbolic value")
        elif v.__class__ is float:
            raise Violation("no-overflow", "float to int conversion of non-finite value")
        else:
            fr.regs[I[1]] = int(v) & ((1 << w) - 1)

    def x_uitofp(self, st, fr, I):
        v = fr.regs[I[2]]
        if v.__class__ is int or v is UNDEF:
            fr.regs[I[1]] = v
        elif v.__class__ is SC or z3.is_bool(v):
            fr.regs[I[1]] = int(self.decide(st, v))
        else:
            fr.regs[I[1]] = self.concretize(st, v, "int->double")

    def x_sitofp(self, st, fr, I):
        v = fr.regs[I[2]]
        w = I[3][1]
        if v.__class__ is int:
            fr.regs[I[1]] = to_signed(v, w)
        elif v is UNDEF:
            fr.regs[I[1]] = v
        elif v.__class__ is SC or z3.is_bool(v):
            fr.regs[I[1]] = -int(self.decide(st, v))
        else:
            fr.regs[I[1]] = self.int_to_real(st, v, w)

    def int_to_real(self, st, v, w):
        p = self.int_poly(v)
        return p[2] if p is not None else self.int_real_atom(v, w)

    def int_poly(self, v):
        """(lo, hi, real value) of a bit-vector term made of inputs with known ranges by +, -, * that cannot overflow."""
        k, w = v.decl().kind(), v.size()
        if k == z3.Z3_OP_BNUM:
            n = v.as_signed_long()
            return n, n, n
        if k == z3.Z3_OP_UNINTERPRETED:
            r = INT_RANGE.get(v.decl().name()) if v.num_args() == 0 else None
            return None if r is None else (r[0], r[1], self.int_real_atom(v, w))
        if k not in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT):
            return None
        if k == z3.Z3_OP_EXTRACT and v.params()[1] != 0:
            return None
        ps = [self.int_poly(c) for c in v.children()]
        if any(p is None for p in ps):
            return None
        lo, hi, r = ps[0]
        if k == z3.Z3_OP_BNEG:
            lo, hi, r = -hi, -lo, Q.mul(r, -1)
        for l2, h2, r2 in ps[1:]:
            if k == z3.Z3_OP_BADD:
                lo, hi, r = lo + l2, hi + h2, Q.add(r, r2)
            elif k == z3.Z3_OP_BSUB:
                lo, hi, r = lo - h2, hi - l2, Q.add(r, Q.mul(r2, -1))
            else:
                c = (lo * l2, lo * h2, hi * l2, hi * h2)
                lo, hi, r = min(c), max(c), Q.mul(r, r2)
            if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                return None
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
            return None
        return lo, hi, r

    def int_real_atom(self, v, w):
        i, new = Q.intern_atom("sitofp", (v.sexpr(),))
        if new:
            S.atom_axioms[i] = [S.zvar(i) == z3.ToReal(z3.BV2Int(v, True))]
        return Q.atom(i)

    def x_bitcast(self, st, fr, I):
        v = fr.regs[I[2]]
        a, b = I[3], I[4]
        if a[0] == "fp" and b[0] == "int":
            v = self.reinterpret(v, a[2], 1, 0)
        elif a[0] == "int" and b[0] == "fp":
            v = self.reinterpret(v, a[2], 0, 1)
        elif a[0] == "vector" or b[0] == "vector":
            if a[0] == b[0] and a[1][0] == b[1][0] and a[1][1][0] == b[1][1][0]:
                pass
            else:
                ad = self.alloc(st, max(a[2], b[2]), "stack", "bitcast")
                self.store_ty(st, ad, v, a)
                v = self.load_ty(st, ad, b)
                del st.objs[ad >> OBJ_SHIFT]
        fr.regs[I[1]] = v

    def icmp(self, st, a, b, p, w):
        # 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
        if a.__class__ is int and b.__class__ is int:
            if p == 32: return int(a == b)
            if p == 33: return int(a != b)
            if p < 38:
                return int(a > b if p == 34 else a >= b if p == 35 else a < b if p == 36 else a <= b)
            a = to_signed(a, w); b = to_signed(b, w)
            return int(a > b if p == 38 else a >= b if p == 39 else a < b if p == 40 else a <= b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is FBits or b.__class__ is FBits:
            if a.__class__ is FBits and b == 0 and p == 40:
                return sign_cond_i(a.v, NEG)
            if a.__class__ is FBits and b == M64 and p == 38:
                return sign_cond_i(a.v, ZER | POS)
            raise EngineError("integer compare of symbolic double bits")
        if w == 1 or (a.__class__ is SC or b.__class__ is SC or (a.__class__ is not int and z3.is_bool(a)) or (b.__class__ is not int and z3.is_bool(b))):
            if b.__class__ is int and p in (32, 33) and b in (0, 1):
                return a if (p == 32) == bool(b) else S.negate(a)
            if a.__class__ is int and p in (32, 33) and a in (0, 1):
                return b if (p == 32) == bool(a) else S.negate(b)
            return self.icmp(st, int(self.decide(st, a)) if a.__class__ is not int else a, int(self.decide(st, b)) if b.__class__ is not int else b, p, w)
        x, y = self.bvv(a, w), self.bvv(b, w)
        if p == 32: e = x == y
        elif p == 33: e = x != y
        elif p == 34: e = z3.UGT(x, y)
        elif p == 35: e = z3.UGE(x, y)
        elif p == 36: e = z3.ULT(x, y)
        elif p == 37: e = z3.ULE(x, y)
        elif p == 38: e = x > y
        elif p == 39: e = x >= y
        elif p == 40: e = x < y
        else: e = x <= y
        return self.simp_b(e)

    def x_icmp(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        w = I[5]
        if a.__class__ is list:
            ew = w[1][1][1]
            fr.regs[I[1]] = [self.icmp(st, x, y, I[4], ew) for x, y in zip(a, b)]
            return
        fr.regs[I[1]] = self.icmp(st, a, b, I[4], w)

    def x_fcmp(self, st, fr, I):
        a = fr.regs[I[2]]; b = fr.regs[I[3]]
        if a.__class__ is list:
            fr.regs[I[1]] = [self.fcmp(st, x, y, I[4]) for x, y in zip(a, b)]
        else:
            fr.regs[I[1]] = self.fcmp(st, a, b, I[4])

    def fcmp(self, st, a, b, p):
        # LLVMRealPredicate: 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
        if a is UNDEF or b is UNDEF:
            return UNDEF
        nan = a != a if a.__class__ is float else False
        if b.__class__ is float and b != b:
            nan = True
        if p == 0: return 0
        if p == 15: return 1
        if p == 7: return int(not nan)
        if p == 8: return int(nan)
        if nan:
            return int(p >= 9)
        q = p if p < 8 else p - 8
        mask = {1: ZER, 2: POS, 3: POS | ZER, 4: NEG, 5: NEG | ZER, 6: NEG | POS}[q]
        return self.r_cmp(a, b, mask)

    def x_select(self, st, fr, I):
        c = fr.regs[I[2]]
        if c.__class__ is list:
            a = fr.regs[I[3]]; b = fr.regs[I[4]]
            fr.regs[I[1]] = [x if self.decide(st, cc) else y for cc, x, y in zip(c, a, b)]
            return
        if c.__class__ is not int:
            a = fr.regs[I[3]]; b = fr.regs[I[4]]
            # boolean and/or expressed as select
            if a.__class__ is int and b.__class__ is int and a == b:
                fr.regs[I[1]] = a
                return
            c = self.decide(st, c)
        fr.regs[I[1]] = fr.regs[I[3]] if c else fr.regs[I[4]]

    def x_extractvalue(self, st, fr, I):
        v = fr.regs[I[2]]
        for k in I[3]:
            v = v[k]
        fr.regs[I[1]] = v

    def x_insertvalue(self, st, fr, I):
        def ins(agg, idx, v):
            if not idx:
                return v
            agg = list(agg)
            agg[idx[0]] = ins(agg[idx[0]], idx[1:], v)
            return agg
        fr.regs[I[1]] = ins(fr.regs[I[2]], I[4], fr.regs[I[3]])

    def x_extractelement(self, st, fr, I):
        fr.regs[I[1]] = fr.regs[I[2]][self.concretize(st, fr.regs[I[3]])]

    def x_insertelement(self, st, fr, I):
        v = list(fr.regs[I[2]])
        v[self.concretize(st, fr.regs[I[4]])] = fr.regs[I[3]]
        fr.regs[I[1]] = v

    def x_shuffle(self, st, fr, I):
        v = list(fr.regs[I[2]]) + list(fr.regs[I[3]])
        fr.regs[I[1]] = [v[k] if k >= 0 else UNDEF for k in I[4]]

    def x_atomicrmw(self, st, fr, I):
        a = fr.regs[I[2]]
        t = I[5]
        old = self.load(st, a, t[2], 0)
        v = fr.regs[I[3]]
        op = I[4]
        w = t[1]
        if op == 0: n = v
        elif op == 1: n = (old + v) & ((1 << w) - 1)
        elif op == 2: n = (old - v) & ((1 << w) - 1)
        else: raise EngineError("atomicrmw op")
        self.store(st, a, n, t[2], 0)
        fr.regs[I[1]] = old

    def x_cmpxchg(self, st, fr, I):
        a = fr.regs[I[2]]
        t = I[5]
        old = self.load(st, a, t[2], 0)
        ok = old == fr.regs[I[3]]
        if ok:
            self.store(st, a, fr.regs[I[4]], t[2], 0)
        fr.regs[I[1]] = [old, int(bool(ok))]

    # calls ------------------------------------------------------------------------------------
    def x_call(self, st, fr, I):
        name = I[2]
        regs = fr.regs
        ic = I[8]
        if name is None:
            a = regs[I[3]]
            if a.__class__ is not int:
                if a is UNDEF:
                    raise Violation("memory-safety", "call through uninitialised pointer")
                a = self.concretize(st, a, "call target")
            name = self.addr2fn.get(a)
            if name is None:
                raise Violation("memory-safety", "call through invalid function pointer %#x" % a)
            ic = self.find_intercept(name)
        args = [regs[k] if k is not None else None for k in I[4]]
        if st.subst:
            s = st.subst.get(name)
            if s is not None:
                k = st.skip.get(name, 0)
                if k:
                    st.skip[name] = k - 1
                elif name in st.skip or not any(f.fn.name == s for f in st.frames):
                    name = s
                    ic = None
        fr.callinst = I
        if ic is not None:
            r = ic(self, st, fr, I, args)
            if r is not NORESULT:
                if I[1] is not None:
                    regs[I[1]] = r
                if I[6] is not None:
                    self.take(fr, I[6])
            return
        if I[5]:
            bv = I[5]
        else:
            bv = None
        self.enter(st, name, args, bv)

    def enter(self, st, name, args, byval=None, on_return=None):
        f = self.fns.get(name)
        if f is None:
            llv = self.mod.functions.get(name)
            if llv is None or L.IsDeclaration(llv):
                raise EngineError("call to external function without a model: " + name)
            f = self.fn(name)
        self.executed.add(name)
        if len(st.frames) > self.opts.get("max_depth", 2000):
            raise Limit("call depth")
        n = Frame.__new__(Frame)
        n.fn = f
        n.regs = f.template[:]
        n.pc = 0
        n.allocas = []
        n.callinst = None
        n.on_return = on_return
        n.snap = None
        if byval:
            for k, size in byval.items():
                a = self.alloc(st, size, "stack", "byval")
                self.memcpy(st, a, args[k], size)
                n.allocas.append(a)
                args[k] = a
        n.regs[:f.nparams] = args[:f.nparams]
        if st.loopcut and name in st.loopcut and not any(x.fn is f and x.snap for x in st.frames):
            n.snap = {oid: o.data.copy() for oid, o in st.objs.items()}
        elif st.autoinv is not None and name.startswith(st.autoinv):
            n.snap = "auto"
        st.frames.append(n)

    # exceptions -------------------------------------------------------------------------------
    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        self.unwind(st)

    def unwind(self, st):
        """Pop the frames above the nearest invoke; the top frame is the one whose current call is unwinding."""
        frames = st.frames
        while frames:
            fr = frames[-1]
            CI = fr.callinst
            if CI is not None and CI[7] is not None:
                # this frame's in-flight call is an invoke
                self.take(fr, CI[7])
                fr.callinst = None
                return
            for a in fr.allocas:
                st.objs.pop(a >> OBJ_SHIFT, None)
            frames.pop()
        raise Violation("no-uncaught-exception", "exception of type %s escapes" % self.ti_name(st.exc[1]))

    def ti_name(self, ti):
        o = self.gobjs.get(ti >> OBJ_SHIFT)
        return o.name if o else hex(ti)

    def x_landingpad(self, st, fr, I):
        if st.exc is None:
            raise EngineError("landingpad without exception")
        ptr, ti = st.exc
        for kind, c in I[2]:
            if kind == "filter":
                raise EngineError("filter clause")
            if c == 0:
                fr.regs[I[1]] = [ptr, 1 << 20]
                return
            if self.derives(ti, c) is not None:
                fr.regs[I[1]] = [ptr, self.typeid(c)]
                return
        if I[3]:
            fr.regs[I[1]] = [ptr, 0]
            return
        # not handled here: continue unwinding
        for a in fr.allocas:
            st.objs.pop(a >> OBJ_SHIFT, None)
        st.frames.pop()
        self.unwind(st)

    def x_resume(self, st, fr, I):
        for a in fr.allocas:
            st.objs.pop(a >> OBJ_SHIFT, None)
        st.frames.pop()
        self.unwind(st)

    def typeid(self, ti):
        i = self.ti_ids.get(ti)
        if i is None:
            i = len(self.ti_ids) + 1
            self.ti_ids[ti] = i
        return i

    STD_BASE = {"_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
                "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
                "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
                "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
                "_ZTISt15underflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
                "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt8bad_cast": "_ZTISt9exception",
                "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception", "_ZTISt17bad_function_call": "_ZTISt9exception"}

    def bases(self, ti):
        """list of (base typeinfo addr, offset)"""
        r = self._hier.get(ti)
        if r is not None:
            return r
        o = self.gobjs.get(ti >> OBJ_SHIFT)
        r = []
        if o is not None:
            if o.kind == "extern":
                b = self.STD_BASE.get(o.name)
                if b and b in self.mod.globals:
                    r = [(self.global_addr(self.mod.globals[b]), 0)]
                elif b:
                    r = [("name:" + b, 0)]
            else:
                vt = o.data.get(0)
                vto = self.gobjs.get(vt[2] >> OBJ_SHIFT) if vt else None
                vn = vto.name if vto else ""
                if "__si_class_type_info" in vn:
                    r = [(o.data[16][2], 0)]
                elif "__vmi_class_type_info" in vn:
                    n = o.data.get(20, (4, 0, 0))[2]
                    for k in range(n):
                        b = o.data[24 + 16 * k][2]
                        fl = o.data.get(32 + 16 * k, (8, 0, 0))[2]
                        r.append((b, to_signed(fl, 64) >> 8))
        else:
            if ti.__class__ is str:
                b = self.STD_BASE.get(ti[5:])
                if b:
                    r = [(self.global_addr(self.mod.globals[b]), 0)] if b in self.mod.globals else [("name:" + b, 0)]
        self._hier[ti] = r
        return r

    def derives(self, ti, base):
        """offset of base in ti or None"""
        if ti == base:
            return 0
        for b, off in (self.bases(ti) if ti.__class__ is int else self.bases_str(ti)):
            r = self.derives(b, base)
            if r is not None:
                return off + r
        return None

    def bases_str(self, ti):
        b = self.STD_BASE.get(ti[5:])
        if not b:
            return []
        return [(self.global_addr(self.mod.globals[b]), 0)] if b in self.mod.globals else [("name:" + b, 0)]

    def throw_std(self, st, tiname):
        """throw a standard exception from a runtime function (std::__throw_*)"""
        ptr = self.alloc(st, 64, "heap", "exception")
        g = self.mod.globals.get(tiname)
        if g is not None:
            ti = self.global_addr(g)
        else:
            ti = "name:" + tiname
        self.throw(st, ptr, ti)

    # obligations ------------------------------------------------------------------------------
    def record(self, label, backend, dt):
        o = self.obl.setdefault(label, {"count": 0, "by": {}, "time": 0.0})
        o["count"] += 1
        o["by"][backend] = o["by"].get(backend, 0) + 1
        o["time"] += dt

    def oblige(self, st, cond, label):
        """The condition must hold on this path for all inputs."""
        t0 = time.time()
        if cond is UNDEF:
            raise Violation(label, "postcondition depends on uninitialised data")
        if cond.__class__ is int or cond.__class__ is bool:
            if cond:
                self.record(label, "normal-form", 0.0)
                return
            # false on this path: is the path feasible?
            r, m = S.check(list(st.pc.slice_all()) if hasattr(st.pc, "slice_all") else self.all_cons(st), self.prove_ms)
            if r == "unsat":
                self.record(label, "z3-infeasible-path", time.time() - t0)
                raise PathEnd("infeasible")
            raise Violation(label, "obligation is false on this path", "sat" if r == "sat" else "unknown")
        k = st.pc.known(cond)
        if k is True:
            self.record(label, "path-condition", 0.0)
            return
        n = S.negate(cond)
        cons = st.pc.slice([n]) + [n]
        r, m = S.check(cons, self.prove_ms, pc=st.pc, target=n)
        if r == "unsat":
            self.record(label, "z3", time.time() - t0)
            st.pc.add(cond)
            return
        if r == "unknown":
            # retry with everything, then cvc5
            cons2 = self.all_cons(st) + [n]
            if len(cons2) != len(cons):
                r, m = S.check(cons2, self.prove_ms)
            if r == "unknown":
                r2 = S.check_cvc5(cons, self.prove_ms)
                if r2 == "unsat":
                    self.record(label, "cvc5", time.time() - t0)
                    st.pc.add(cond)
                    return
                if r2 == "sat":
                    r = "sat"
            elif r == "unsat":
                self.record(label, "z3", time.time() - t0)
                st.pc.add(cond)
                return
        else:
            # sat on the slice: the rest of the path must be satisfiable too
            cons2 = self.all_cons(st) + [n]
            if len(cons2) != len(cons):
                r2, m2 = S.check(cons2, self.prove_ms)
                if r2 == "unsat":
                    self.record(label, "z3", time.time() - t0)
                    raise PathEnd("infeasible")
                if r2 == "unknown":
                    r2c = S.check_cvc5(cons2, self.prove_ms)
                    if r2c == "unsat":
                        self.record(label, "cvc5", time.time() - t0)
                        raise PathEnd("infeasible")
                    if r2c != "sat":
                        r = "unknown"
        st.pc.add(n)
        raise Violation(label, "obligation not provable: " + repr(cond)[:400], "sat" if r == "sat" else "unknown")

    def all_cons(self, st):
        cs = list(st.pc.constraints())
        seen = set()
        out = list(cs)
        todo = set()
        for c in cs:
            todo |= S.cvars(c)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for ax in S.atom_axioms.get(v, ()):
                out.append(ax)
                todo |= S.cvars(ax) - seen
        return out

    # main loop --------------------------------------------------------------------------------
    def initial_state(self):
        st = State()
        st.next_obj = 1 << 21
        # global constructors
        g = self.mod.globals.get("llvm.global_ctors")
        if g is not None and not self.opts.get("skip_ctors"):
            init = L.GetInitializer(g)
            n = self.mod.type(L.GlobalGetValueType(g))[1][0]
            for k in range(n):
                e = L.GetOperand(init, k)
                fv = L.GetOperand(e, 1)
                name = L.value_name(fv)
                self.enter(st, name, [])
                r = self.run_state(st, [])
                if r[0] != "end":
                    raise EngineError("global constructor failed: %r" % (r,))
        return st

    def run_state(self, st, work):
        """Run one state to its end; forked siblings are appended to work. -> (status, info)"""
        self.cur_work = work
        try:
            while True:
                fr = st.frames[-1]
                I = fr.fn.code[fr.pc]
                fr.pc += 1
                st.steps += 1
                try:
                    I[0](st, fr, I)
                except Fork as f:
                    fr.pc -= 1
                    self.forks += 1
                    conds = f.conds
                    if len(conds) > 1:
                        st.decisions += 1
                    for cond, conc in conds[:0:-1]:
                        s2 = st.clone()
                        if s2.pc.add(cond):
                            self.note_conc(s2, conc)
                            self.refresh_model(s2, cond)
                            work.append(s2)
                    cond, conc = conds[0]
                    if not st.pc.add(cond):
                        raise PathEnd("infeasible")
                    self.note_conc(st, conc)
                    self.refresh_model(st, cond)
                if st.steps & 4095 == 0:
                    if st.steps > self.max_steps:
                        raise Limit("instruction limit")
                    if self.deadline and time.time() > self.deadline:
                        raise Limit("time limit")
        except PathEnd as e:
            return ("end" if e.reason == "end" else e.reason, None)

    forks = 0

    def note_conc(self, st, conc):
        if conc is None:
            return
        if conc[0].__class__ is str:
            st.ghost["choice"] = (conc[1], conc[2])
        else:
            d = st.ghost.setdefault("conc", {})
            d[conc[0].get_id()] = conc

    def refresh_model(self, st, cond):
        m = st.pc.model
        if m is None:
            return
        if cond.__class__ is SC:
            v = S.eval_poly(cond.poly, m)
            if v is not None:
                s = POS if v > 0 else NEG if v < 0 else ZER
                if s & cond.mask:
                    return
            atoms = set()
            for k, p in st.pc.polys.items():
                Q.vars_of(p, atoms)
            if all(Q.atom_info[a][0] == "input" for a in atoms):
                r, mod = S.check(self.all_cons(st), self.feas_ms, True)
                if r == "sat" and mod is not None:
                    env = S.model_to_rationals(mod, atoms)
                    if env is not None:
                        st.pc.model = env
                        return
        st.pc.model = {}


def sign_cond_i(v, mask):
    if v.__class__ is not R:
        s = POS if v > 0 else NEG if v < 0 else ZER
        return int(bool(s & mask))
    c = sign_cond(Q.sign_poly(v), mask)
    return int(c) if c.__class__ is bool else c


from . import invar     # noqa: E402


class _NR:
    pass


NORESULT = _NR()
