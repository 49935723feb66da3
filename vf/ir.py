"""Symbolic execution of LLVM IR (text, clang 18) over exact reals.

Every instruction of the functions that are reached is executed; nothing is
skipped silently: an unknown instruction, intrinsic or external raises
Unsupported, which the caller reports as a failed (undecided) obligation.
"""
from __future__ import annotations

import math
import re
import struct
import subprocess
from fractions import Fraction

from . import expr as X
from . import paths


class Unsupported(Exception):
    pass


class CxxThrow(Exception):
    pass


class CxxAbort(Exception):
    pass


class StepLimit(Exception):
    pass


# ----------------------------------------------------------------- types
TOK = re.compile(
    r'\s*(?:(?P<str>c"(?:[^"\\]|\\.)*")|(?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)|(?P<glob>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)'
    r'|(?P<num>0x[KHLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+)|(?P<meta>![\w.]*|#\d+)|(?P<word>[A-Za-z_$][\w.$]*)|(?P<q>"(?:[^"\\]|\\.)*")'
    r'|(?P<p>\.\.\.|[\[\](){}<>,=*:]))'
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i : i + 40])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


ATTR_WORDS = {
    "noundef", "nonnull", "noalias", "nocapture", "returned", "writeonly", "readonly", "readnone", "immarg", "zeroext", "signext",
    "inreg", "swiftself", "nofree", "allocalign", "allocptr", "dead_on_unwind", "writable", "noext", "nest",
}
ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "align", "range", "captures", "nofpclass", "inalloca", "preallocated", "elementtype"}


class Ty:
    __slots__ = ("k", "n", "sub", "_sz", "offs", "al")

    def __init__(self, k, n=0, sub=None):
        self.k, self.n, self.sub = k, n, sub
        self._sz = None
        self.offs = None
        self.al = None

    def __repr__(self):
        return "%s%s" % (self.k, self.n or "")


VOID = Ty("void")
PTR = Ty("ptr")
DBL = Ty("double")
FLT = Ty("float")
I1 = Ty("i", 1)
I8 = Ty("i", 8)
I32 = Ty("i", 32)
I64 = Ty("i", 64)
LABEL = Ty("label")
META = Ty("metadata")
_ints = {1: I1, 8: I8, 32: I32, 64: I64}


class P:
    """pointer"""

    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "<%s+%s>" % (self.o.name if self.o else "null", self.off)

    def __eq__(self, x):
        return isinstance(x, P) and self.o is x.o and self.off == x.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class Obj:
    __slots__ = ("name", "size", "d", "addr", "const")
    counter = 0x10000

    def __init__(self, name, size):
        self.name, self.size, self.d = name, size, {}
        Obj.counter += 1
        self.addr = Obj.counter << 32
        self.const = False


class FnObj(Obj):
    __slots__ = ("fn",)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULL = P(None, 0)


class Bits:
    """integer view of a double term"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Func:
    __slots__ = ("name", "params", "ret", "blocks", "body", "attrs", "slots", "compiled", "first", "var")


class Module:
    def __init__(self, text):
        self.types = {}
        self.typetext = {}
        self.funcs = {}
        self.decls = {}
        self.globtext = {}
        self.globs = {}
        self.aliases = {}
        self.split(text)

    def split(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', l)
                f = Func()
                f.name = m.group(1)
                f.body = lines[i:j]
                f.compiled = None
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith("declare "):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', l)
                if m:
                    self.decls[m.group(1)] = l
            elif l.startswith("%"):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', l)
                if m:
                    self.typetext[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', l)
                if m:
                    rest = m.group(2)
                    if re.search(r"\balias\b", rest.split('"')[0]):
                        t = re.findall(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)', rest)
                        self.aliases[m.group(1)] = t[-1]
                    else:
                        self.globtext[m.group(1)] = rest
            i += 1

    # -------- type parsing on token list
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            t = self.types[name] = Ty("named", 0, name)
            txt = self.typetext.get(name, "opaque")
            if txt.startswith("opaque"):
                t.k = "opaque"
            else:
                tt, _ = self.ty(tokenize(txt), 0)
                t.k, t.n, t.sub = tt.k, tt.n, tt.sub
        return t

    def ty(self, tk, i):
        k, v = tk[i]
        t = None
        if k == "word":
            if v == "ptr":
                t = PTR
                i += 1
                if i + 1 < len(tk) and tk[i][1] == "addrspace":
                    i += 4
                return self.ty_suffix(t, tk, i)
            if v == "double":
                t = DBL
            elif v == "float":
                t = FLT
            elif v == "void":
                t = VOID
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v in ("x86_fp80", "half", "fp128", "token"):
                t = Ty(v)
            elif v[0] == "i" and v[1:].isdigit():
                n = int(v[1:])
                t = _ints.setdefault(n, Ty("i", n))
            else:
                raise Unsupported("type " + v)
            i += 1
        elif k == "loc":
            t = self.named(v)
            i += 1
        elif v == "[":
            n = int(tk[i + 1][1])
            sub, i = self.ty(tk, i + 3)
            t = Ty("arr", n, sub)
            i += 1
        elif v == "{" or (v == "<" and tk[i + 1][1] == "{"):
            packed = v == "<"
            i += 2 if packed else 1
            subs = []
            while tk[i][1] != "}":
                s, i = self.ty(tk, i)
                subs.append(s)
                if tk[i][1] == ",":
                    i += 1
            i += 2 if packed else 1
            t = Ty("pstruct" if packed else "struct", 0, subs)
        elif v == "<":
            n = int(tk[i + 1][1])
            sub, i = self.ty(tk, i + 3)
            t = Ty("vec", n, sub)
            i += 1
        else:
            raise Unsupported("type tok %s" % (tk[i],))
        return self.ty_suffix(t, tk, i)

    def ty_suffix(self, t, tk, i):
        # function type:  void (i32, ...)
        if i < len(tk) and tk[i][1] == "(":
            # function type only when it directly follows a return type in call position;
            depth = 0
            j = i
            while True:
                if tk[j][1] == "(":
                    depth += 1
                elif tk[j][1] == ")":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            return t, j + 1
        return t, i

    def align(self, t):
        if t.al is None:
            k = t.k
            if k == "i":
                a = 1
                while a * 8 < t.n:
                    a *= 2
                t.al = min(a, 16)
            elif k in ("double", "ptr"):
                t.al = 8
            elif k == "float":
                t.al = 4
            elif k == "x86_fp80":
                t.al = 16
            elif k == "arr":
                t.al = self.align(t.sub)
            elif k == "struct":
                t.al = max([1] + [self.align(s) for s in t.sub])
            elif k == "pstruct":
                t.al = 1
            elif k == "vec":
                a = 1
                while a < t.n * self.size(t.sub):
                    a *= 2
                t.al = a
            else:
                raise Unsupported("align " + k)
        return t.al

    def size(self, t):
        if t._sz is None:
            k = t.k
            if k == "i":
                t._sz = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or self.align(t)
            elif k in ("double", "ptr"):
                t._sz = 8
            elif k == "float":
                t._sz = 4
            elif k == "x86_fp80":
                t._sz = 16
            elif k == "arr":
                t._sz = t.n * self.size(t.sub)
            elif k == "vec":
                t._sz = t.n * self.size(t.sub)
            elif k in ("struct", "pstruct"):
                o = 0
                t.offs = []
                for s in t.sub:
                    if k == "struct":
                        a = self.align(s)
                        o = (o + a - 1) // a * a
                    t.offs.append(o)
                    o += self.size(s)
                if k == "struct":
                    a = self.align(t)
                    o = (o + a - 1) // a * a
                t._sz = o
            else:
                raise Unsupported("size " + k)
        return t._sz


def fconst(s, isfloat=False):
    if s.startswith("0x"):
        if s[2] in "KHLMR":
            if s[2] == "K":
                raw = int(s[3:], 16)
                se, man = raw >> 64, raw & ((1 << 64) - 1)
                e = (se & 0x7FFF) - 16383 - 63
                f = Fraction(man) * (Fraction(2) ** e)
                return X.const(-f if se >> 15 else f)
            raise Unsupported("fp const " + s)
        return X.const(struct.unpack("<d", struct.pack("<Q", int(s[2:], 16)))[0])
    return X.const(float(s))


def f64bits(v):
    return struct.unpack("<Q", struct.pack("<d", v))[0]


class Machine:
    def __init__(self, mod: Module, externs=None, contracts=None, max_steps=3_000_000):
        self.m = mod
        self.contracts = contracts or []  # (regex on mangled name, handler(machine, args, fn))
        self.externs = dict(DEFAULT_EXTERNS)
        if externs:
            self.externs.update(externs)
        self.max_steps = max_steps
        self.gobj = {}
        self.fobj = {}
        self.ccache = {}
        self.reached = set()
        self.called_contracts = {}
        self.undef_n = 0

    def reset(self):
        self.gobj = {}
        self.steps = 0
        self.undef_n = 0
        self.depth = 0
        self.called_contracts = {}

    # ----- memory
    def alloc(self, name, size):
        return P(Obj(name, size), 0)

    def store(self, p, size, v):
        o = p.o
        if o is None:
            raise CxxAbort("store through null")
        off = p.off
        if not isinstance(off, int):
            raise Unsupported("symbolic address")
        if off < 0 or off + size > o.size:
            raise CxxAbort("store out of bounds of %s: %d+%d > %d" % (o.name, off, size, o.size))
        d = o.d
        e = d.get(off)
        if e is not None and e[0] == size:
            d[off] = (size, v)
            return
        self.clear(o, off, size)
        d[off] = (size, v)

    def clear(self, o, off, size):
        d = o.d
        if not d:
            return
        for k in range(off - 15, off + size):
            e = d.get(k)
            if e is None or k + e[0] <= off:
                continue
            del d[k]
            # keep the concrete bytes that lie outside
            if k < off or k + e[0] > off + size:
                bs = self.tobytes(e)
                if bs is None:
                    raise Unsupported("partial overwrite of a symbolic value")
                for i in range(e[0]):
                    if not off <= k + i < off + size:
                        d[k + i] = (1, bs[i] if bs is not UNDEF else UNDEF)

    def tobytes(self, e):
        v = e[1]
        if v is UNDEF:
            return [UNDEF] * e[0]
        if isinstance(v, int):
            return list((v & ((1 << (8 * e[0])) - 1)).to_bytes(e[0], "little"))
        if isinstance(v, X.E) and v.op == "c":
            if e[0] == 8:
                return list(struct.pack("<d", float(v.args[0])))
            if e[0] == 4:
                return list(struct.pack("<f", float(v.args[0])))
        if isinstance(v, P) and v.o is None:
            return [0] * e[0]
        return None

    def load(self, p, ty):
        o = p.o
        if o is None:
            raise CxxAbort("load through null")
        k = ty.k
        if k in ("arr", "struct", "pstruct", "vec"):
            return self.loadagg(p, ty)
        size = self.m.size(ty)
        off = p.off
        if not isinstance(off, int):
            raise Unsupported("symbolic address")
        if off < 0 or off + size > o.size:
            raise CxxAbort("load out of bounds of %s: %d+%d > %d" % (o.name, off, size, o.size))
        e = o.d.get(off)
        if e is not None and e[0] == size:
            return self.retype(e[1], ty)
        bs = [UNDEF] * size
        d = o.d
        for kk in range(off - 15, off + size):
            e = d.get(kk)
            if e is None or kk + e[0] <= off:
                continue
            b = self.tobytes(e)
            if b is None:
                if k == "i" and isinstance(e[1], X.B):
                    raise Unsupported("sub-byte load")
                raise Unsupported("partial load of symbolic value in %s" % o.name)
            for i in range(e[0]):
                if off <= kk + i < off + size:
                    bs[kk + i - off] = b[i]
        if any(b is UNDEF for b in bs):
            return UNDEF
        return self.retype(int.from_bytes(bytes(bs), "little"), ty)

    def retype(self, v, ty):
        k = ty.k
        if v is UNDEF:
            return UNDEF
        if k == "double":
            if isinstance(v, X.E):
                return v
            if isinstance(v, Bits):
                return v.e
            if isinstance(v, int):
                return X.const(struct.unpack("<d", struct.pack("<Q", v & (2**64 - 1)))[0])
        elif k == "float":
            if isinstance(v, X.E):
                return v
            if isinstance(v, Bits):
                return v.e
            if isinstance(v, int):
                return X.const(struct.unpack("<f", struct.pack("<I", v & (2**32 - 1)))[0])
        elif k == "i":
            if isinstance(v, X.E):
                if isinstance(v, X.E) and v.op == "c" and ty.n == 64:
                    return f64bits(float(v.args[0]))
                return Bits(v)
            if isinstance(v, SInt):
                return v
            if isinstance(v, int):
                return v & ((1 << ty.n) - 1)
            return v
        elif k == "ptr":
            if isinstance(v, int):
                if v == 0:
                    return NULL
                return self.int2ptr(v)
            if isinstance(v, P):
                return v
        raise Unsupported("retype %r as %r" % (v, ty))

    def int2ptr(self, v):
        o = self.addrs.get(v >> 32) if hasattr(self, "addrs") else None
        if o is None:
            raise Unsupported("inttoptr %x" % v)
        return P(o, v & 0xFFFFFFFF)

    def loadagg(self, p, ty):
        m = self.m
        if ty.k in ("arr", "vec"):
            s = m.size(ty.sub)
            return [self.load(P(p.o, p.off + i * s), ty.sub) for i in range(ty.n)]
        m.size(ty)
        return [self.load(P(p.o, p.off + o), s) for o, s in zip(ty.offs, ty.sub)]

    def storeval(self, p, ty, v):
        m = self.m
        if ty.k in ("arr", "vec"):
            s = m.size(ty.sub)
            for i in range(ty.n):
                self.storeval(P(p.o, p.off + i * s), ty.sub, v[i] if v is not UNDEF else UNDEF)
        elif ty.k in ("struct", "pstruct"):
            m.size(ty)
            for i, (o, s) in enumerate(zip(ty.offs, ty.sub)):
                self.storeval(P(p.o, p.off + o), s, v[i] if v is not UNDEF else UNDEF)
        else:
            if ty.k == "i" and ty.n == 1 and isinstance(v, bool):
                v = int(v)
            self.store(p, m.size(ty), v)

    def memcpy(self, dst, src, n):
        n = self.conc(n)
        if n == 0:
            return
        if src.o is None or dst.o is None:
            raise CxxAbort("memcpy null")
        if src.off + n > src.o.size or dst.off + n > dst.o.size or src.off < 0 or dst.off < 0:
            raise CxxAbort("memcpy out of bounds")
        ents = []
        if len(src.o.d) < n * 2:
            for k, e in src.o.d.items():
                if k + e[0] > src.off and k < src.off + n:
                    ents.append((k, e))
        else:
            for k in range(src.off - 15, src.off + n):
                e = src.o.d.get(k)
                if e and k + e[0] > src.off:
                    ents.append((k, e))
        self.clear(dst.o, dst.off, n)
        for k, e in ents:
            if k < src.off or k + e[0] > src.off + n:
                bs = self.tobytes(e)
                if bs is None:
                    raise Unsupported("memcpy splits a symbolic value")
                for i in range(e[0]):
                    if src.off <= k + i < src.off + n:
                        dst.o.d[k + i - src.off + dst.off] = (1, bs[i])
            else:
                dst.o.d[k - src.off + dst.off] = e

    def memset(self, dst, byte, n):
        n = self.conc(n)
        byte = self.conc(byte) & 255
        if n == 0:
            return
        if dst.off + n > dst.o.size:
            raise CxxAbort("memset out of bounds")
        self.clear(dst.o, dst.off, n)
        i = 0
        v8 = int.from_bytes(bytes([byte]) * 8, "little")
        while i + 8 <= n:
            dst.o.d[dst.off + i] = (8, v8)
            i += 8
        while i < n:
            dst.o.d[dst.off + i] = (1, byte)
            i += 1

    def conc(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic integer where a concrete one is needed: %r" % (v,))

    def cstr(self, p):
        out = bytearray()
        q = p
        while True:
            b = self.conc(self.load(P(p.o, p.off + len(out)), I8))
            if b == 0:
                return out.decode("latin1")
            out.append(b)

    # ----- constants and globals
    def glob(self, name):
        name = self.m.aliases.get(name, name)
        o = self.gobj.get(name)
        if o is not None:
            return P(o, 0)
        if name in self.m.funcs or name in self.m.decls:
            o = FnObj(name, 1)
            o.fn = name
            self.gobj[name] = o
            return P(o, 0)
        txt = self.m.globtext.get(name)
        if txt is None:
            raise Unsupported("global " + name)
        m = re.match(r".*?\b(global|constant)\s+(.*)$", txt)
        tk = tokenize(re.split(r", (?:comdat|align|section|!)", m.group(2))[0])
        ext = re.match(r"(external|extern_weak)\b", txt)
        ty, i = self.m.ty(tk, 0)
        try:
            sz = self.m.size(ty)
        except Unsupported:
            sz = 8
        o = Obj(name, max(sz, 1))
        self.gobj[name] = o
        if ext and name.endswith("__libc_single_threaded"):
            self.storeval(P(o, 0), ty, 1)
        if not ext and i < len(tk):
            v, i = self.constval(ty, tk, i)
            v = v(None) if callable(v) else v
            self.storeval(P(o, 0), ty, v)
        return P(o, 0)

    def constval(self, ty, tk, i):
        """returns value (or thunk for global addresses), index"""
        k, v = tk[i]
        if k == "num":
            if ty.k == "i":
                return int(v) & ((1 << ty.n) - 1), i + 1
            return fconst(v), i + 1
        if k == "word":
            if v in ("zeroinitializer",):
                return self.zero(ty), i + 1
            if v == "null":
                return NULL, i + 1
            if v in ("undef", "poison"):
                return (UNDEF if ty.k not in ("arr", "struct", "vec", "pstruct") else self.undefagg(ty)), i + 1
            if v == "true":
                return True, i + 1
            if v == "false":
                return False, i + 1
            if v == "getelementptr":
                j = i + 1
                while tk[j][1] != "(":
                    j += 1
                    if tk[j][1] == "inrange":  # inrange(a, b)
                        j = self.skip(tk, j + 1) if tk[j + 1][1] == "(" else j + 1
                j += 1
                bt, j = self.m.ty(tk, j)
                j += 1
                ops = []
                while True:
                    while tk[j][1] == "inrange":
                        j = self.skip(tk, j + 1) if tk[j + 1][1] == "(" else j + 1
                    t, j = self.m.ty(tk, j)
                    val, j = self.constval(t, tk, j)
                    ops.append(val)
                    if tk[j][1] == ",":
                        j += 1
                    else:
                        break
                def g(fr, bt=bt, ops=ops):
                    vs = [o(None) if callable(o) else o for o in ops]
                    return self.gep(bt, vs[0], vs[1:])
                return g, j + 1
            if v in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
                j = i + 2
                t, j = self.m.ty(tk, j)
                val, j = self.constval(t, tk, j)
                j += 1
                t2, j = self.m.ty(tk, j)
                if v == "ptrtoint":
                    return (lambda fr, val=val: self.p2i(val(None) if callable(val) else val)), j + 1
                return val, j + 1
            raise Unsupported("const " + v)
        if k == "glob":
            return (lambda fr, v=v: self.glob(v)), i + 1
        if k == "str":
            return self.bytestr(v), i + 1
        if v in ("[", "{", "<"):
            if v == "<" and tk[i + 1][1] == "{":
                i += 1
            i += 1
            out = []
            while tk[i][1] not in ("]", "}", ">"):
                t, i = self.m.ty(tk, i)
                val, i = self.constval(t, tk, i)
                out.append(val)
                if tk[i][1] == ",":
                    i += 1
            i += 1
            if v == "<" and i < len(tk) and tk[i][1] == ">" and ty.k == "pstruct":
                i += 1
            if any(callable(o) for o in out):
                return (lambda fr, out=out: [o(None) if callable(o) else o for o in out]), i
            return out, i
        raise Unsupported("const %s" % (tk[i],))

    def undefagg(self, ty):
        if ty.k in ("arr", "vec"):
            return [self.undefagg(ty.sub) if ty.sub.k in ("arr", "struct", "vec") else UNDEF for _ in range(ty.n)]
        return [self.undefagg(s) if s.k in ("arr", "struct", "vec") else UNDEF for s in ty.sub]

    def skip(self, tk, j):
        d = 0
        while True:
            if tk[j][1] == "(":
                d += 1
            elif tk[j][1] == ")":
                d -= 1
                if d == 0:
                    return j + 1
            j += 1

    def bytestr(self, s):
        s = s[2:-1]
        out = []
        i = 0
        while i < len(s):
            if s[i] == "\\":
                out.append(int(s[i + 1 : i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return out

    def zero(self, ty):
        k = ty.k
        if k == "i":
            return 0
        if k in ("double", "float"):
            return X.ZERO
        if k == "ptr":
            return NULL
        if k in ("arr", "vec"):
            return [self.zero(ty.sub) for _ in range(ty.n)]
        if k in ("struct", "pstruct"):
            return [self.zero(s) for s in ty.sub]
        raise Unsupported("zero " + k)

    def p2i(self, p):
        if isinstance(p, int):
            return p
        if p.o is None:
            return p.off
        if not hasattr(self, "addrs"):
            self.addrs = {}
        self.addrs[p.o.addr >> 32] = p.o
        return p.o.addr + p.off

    def gep(self, ty, p, idx):
        m = self.m
        off = 0
        t = ty
        i0 = idx[0]
        if isinstance(i0, int):
            off += sgn(i0) * m.size(t) if i0 else 0
        else:
            raise Unsupported("symbolic index")
        for ix in idx[1:]:
            if t.k in ("struct", "pstruct"):
                m.size(t)
                off += t.offs[ix]
                t = t.sub[ix]
            else:
                t = t.sub
                if not isinstance(ix, int):
                    raise Unsupported("symbolic index")
                off += sgn(ix) * m.size(t)
        if off == 0:
            return p
        return P(p.o, p.off + off)

    # ----- compilation of functions
    def operand(self, ty, tk, i, f):
        k, v = tk[i]
        if k == "loc":
            s = f.slots.setdefault(v, len(f.slots))
            return ("r", s), i + 1
        val, i = self.constval(ty, tk, i)
        if callable(val):
            return ("g", val), i
        return ("k", val), i

    def ty_op(self, tk, i, f):
        t, i = self.m.ty(tk, i)
        i, at = self.skipattrs(tk, i)
        o, i = self.operand(t, tk, i, f)
        return t, o, i

    def skipattrs(self, tk, i):
        at = {}
        while i < len(tk) and tk[i][0] == "word" and (tk[i][1] in ATTR_WORDS or tk[i][1] in ATTR_PAREN):
            w = tk[i][1]
            if w in ATTR_PAREN:
                if w == "align" and tk[i + 1][0] == "num":
                    i += 2
                    continue
                if w in ("byval", "sret"):
                    t, _ = self.m.ty(tk, i + 2)
                    at[w] = t
                i = self.skip(tk, i + 1)
            else:
                i += 1
        return i, at

    def compile(self, f):
        hdr = f.body[0]
        m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', hdr)
        f.slots = {}
        tk = tokenize(hdr[m.end() - 1 :].split(" personality ")[0].rstrip("{").rstrip())
        i = 1
        f.params = []
        nun = 0
        while tk[i][1] != ")":
            if tk[i][1] == "...":
                i += 1
                continue
            t, i = self.m.ty(tk, i)
            i, at = self.skipattrs(tk, i)
            if tk[i][0] == "loc":
                nm = tk[i][1]
                i += 1
            else:
                nm = "%%%d" % nun
                nun += 1
            f.params.append((f.slots.setdefault(nm, len(f.slots)), t, at))
            if tk[i][1] == ",":
                i += 1
        nun = len(f.params)
        blocks = {}
        cur = "%" + str(nun)
        blocks[cur] = []
        f.first = cur
        lines = f.body[1:]
        # first label may be explicit
        j = 0
        started = False
        while j < len(lines):
            l = lines[j]
            j += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if mm:
                nm = "%" + mm.group(1)
                if not started and not blocks[cur]:
                    del blocks[cur]
                    f.first = nm
                cur = nm
                blocks[cur] = []
                started = True
                continue
            started = True
            s = l.strip()
            # multi-line instructions: switch [...] and invoke/landingpad continuation
            if s.startswith("switch ") and not s.rstrip().endswith("]"):
                while True:
                    s += " " + lines[j].strip()
                    j += 1
                    if lines[j - 1].strip().startswith("]"):
                        break
            while j < len(lines) and re.match(r"^\s+(to label|cleanup|catch|filter)\b", lines[j]):
                s += " " + lines[j].strip()
                j += 1
            blocks[cur].append(s)
        f.blocks = {}
        for b, ins in blocks.items():
            f.blocks[b] = ins  # compiled lazily
        f.compiled = {}

    def block(self, f, b):
        c = f.compiled.get(b)
        if c is None:
            phis, code = [], []
            for s in f.blocks[b]:
                r = self.ins(s, f)
                if r is None:
                    continue
                if r[0] == "phi":
                    phis.append(r[1:])
                else:
                    code.append(r)
            c = f.compiled[b] = (phis, code)
        return c

    def ins(self, s, f):
        dst = None
        m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = ', s)
        if m:
            dst = f.slots.setdefault(m.group(1), len(f.slots))
            s = s[m.end() :]
        # strip metadata
        s = re.sub(r"(, ![\w.]+ !?[\w.]*(\([^)]*\))?)+$", "", s)
        s = re.sub(r", !srcloc.*$", "", s)
        op = s.split(None, 1)[0]
        if op in ("tail", "musttail", "notail"):
            s = s.split(None, 1)[1]
            op = "call"
        tk = tokenize(s)
        h = getattr(self, "i_" + op, None)
        if h is None:
            if op in ARITH:
                return self.arith(op, dst, tk, f)
            if op in CASTS:
                return self.cast(op, dst, tk, f)
            raise Unsupported("instruction " + s)
        return h(dst, tk, f)

    def arith(self, op, dst, tk, f):
        i = 1
        while tk[i][0] == "word" and tk[i][1] in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            i += 1
        t, a, i = self.ty_op(tk, i, f)
        b, i = self.operand(t, tk, i + 1, f)
        fnc = ARITH[op]
        if t.k == "vec":
            n = t.sub.n
            return ("op", dst, lambda x, y: [fnc(self.fz(p, t.sub), self.fz(q, t.sub), n) for p, q in zip(x, y)], (a, b))
        n = t.n
        if t.k in ("double", "float"):
            def g(x, y):
                if x is UNDEF:
                    x = self.fresh()
                if y is UNDEF:
                    y = self.fresh()
                return fnc(x, y, n)
            return ("op", dst, g, (a, b))
        return ("op", dst, lambda x, y: fnc(x, y, n), (a, b))

    def fz(self, v, t):
        if v is UNDEF and t.k in ("double", "float"):
            return self.fresh()
        return v

    def fresh(self, nm="undef"):
        self.undef_n += 1
        return X.var("%s!%d" % (nm, self.undef_n))

    def i_fneg(self, dst, tk, f):
        i = 1
        while tk[i][0] == "word" and tk[i][1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            i += 1
        t, a, i = self.ty_op(tk, i, f)
        if t.k == "vec":
            return ("op", dst, lambda x: [X.neg(self.fz(q, t.sub)) for q in x], (a,))
        return ("op", dst, lambda x: X.neg(self.fz(x, t)), (a,))

    def i_alloca(self, dst, tk, f):
        i = 1
        if tk[i][1] == "inalloca":
            i += 1
        t, i = self.m.ty(tk, i)
        n = ("k", 1)
        if i < len(tk) and tk[i][1] == "," and tk[i + 1][1] != "align":
            _, n, i = self.ty_op(tk, i + 1, f)
        sz = self.m.size(t)
        return ("op", dst, lambda c: P(Obj("alloca", max(sz * self.conc(c), 1)), 0), (n,))

    def i_load(self, dst, tk, f):
        i = 1
        while tk[i][1] in ("volatile", "atomic"):
            i += 1
        t, i = self.m.ty(tk, i)
        _, p, i = self.ty_op(tk, i + 1, f)
        return ("op", dst, lambda q: self.load(self.asptr(q), t), (p,))

    def asptr(self, q):
        if isinstance(q, P):
            return q
        if isinstance(q, int):
            return self.retype(q, PTR)
        raise Unsupported("pointer value %r" % (q,))

    def i_store(self, dst, tk, f):
        i = 1
        while tk[i][1] in ("volatile", "atomic"):
            i += 1
        t, v, i = self.ty_op(tk, i, f)
        _, p, i = self.ty_op(tk, i + 1, f)
        return ("op", None, lambda a, q: self.storeval(self.asptr(q), t, a), (v, p))

    def i_getelementptr(self, dst, tk, f):
        i = 1
        while tk[i][1] in ("inbounds", "nuw", "nusw"):
            i += 1
        t, i = self.m.ty(tk, i)
        ops = []
        tys = []
        while i < len(tk) and tk[i][1] == ",":
            tt, o, i = self.ty_op(tk, i + 1, f)
            ops.append(o)
            tys.append(tt)
        return ("op", dst, lambda p, *ix: self.gep(t, self.asptr(p), [self.sx(x, ty) for x, ty in zip(ix, tys[1:])]), tuple(ops))

    def sx(self, x, ty):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            if ty.n < 64 and x >> (ty.n - 1):
                x -= 1 << ty.n
            return x
        if isinstance(x, X.B):
            return int(paths.decide(x))
        if isinstance(x, SInt):
            if x.b is not None:
                return int(paths.decide(x.b))
            e = x.term()
            if e.op == "c":
                return int(e.args[0])
            for k in range(64):  # an index below 64: one path per value
                if paths.decide(X.eq(e, X.const(k))):
                    return k
        raise Unsupported("symbolic index %r" % (x,))

    def i_ret(self, dst, tk, f):
        if tk[1][1] == "void":
            return ("ret", None)
        t, v, i = self.ty_op(tk, 1, f)
        return ("ret", v)

    def i_br(self, dst, tk, f):
        if tk[1][1] == "label":
            return ("jmp", tk[2][1])
        t, c, i = self.ty_op(tk, 1, f)
        return ("br", c, tk[i + 2][1], tk[i + 5][1])

    def i_switch(self, dst, tk, f):
        t, v, i = self.ty_op(tk, 1, f)
        d = tk[i + 2][1]
        i += 3
        cases = {}
        i += 1
        while tk[i][1] != "]":
            ct, i = self.m.ty(tk, i)
            c, i = self.constval(ct, tk, i)
            cases[c] = tk[i + 2][1]
            i += 3
        return ("switch", v, d, cases)

    def i_unreachable(self, dst, tk, f):
        return ("unreachable",)

    def i_phi(self, dst, tk, f):
        i = 1
        while tk[i][0] == "word" and tk[i][1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            i += 1
        t, i = self.m.ty(tk, i)
        inc = {}
        while i < len(tk) and tk[i][1] == "[":
            o, i = self.operand(t, tk, i + 1, f)
            inc[tk[i + 1][1]] = o
            i += 3
            if i < len(tk) and tk[i][1] == ",":
                i += 1
        return ("phi", dst, inc)

    def i_select(self, dst, tk, f):
        i = 1
        while tk[i][0] == "word" and tk[i][1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            i += 1
        ct, c, i = self.ty_op(tk, i, f)
        t1, a, i = self.ty_op(tk, i + 1, f)
        t2, b, i = self.ty_op(tk, i + 1, f)

        def sel(c, a, b):
            if isinstance(c, list):
                return [x if paths.decide(X.liftb(q)) else y for q, x, y in zip(c, a, b)]
            if isinstance(c, (bool, int)):
                return a if c else b
            if isinstance(a, (bool, X.B)) and isinstance(b, (bool, X.B)):
                a, b = X.liftb(a), X.liftb(b)
                return X.or_(X.and_(c, a), X.and_(X.not_(c), b))
            if c is UNDEF:
                raise Unsupported("select on undef")
            return a if paths.decide(c) else b

        return ("op", dst, sel, (c, a, b))

    def i_fcmp(self, dst, tk, f):
        i = 1
        while tk[i][1] in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            i += 1
        pred = tk[i][1]
        t, a, i = self.ty_op(tk, i + 1, f)
        b, i = self.operand(t, tk, i + 1, f)
        g = lambda x, y: self.fcmp(pred, self.fz(x, DBL), self.fz(y, DBL))
        if t.k == "vec":
            return ("op", dst, lambda x, y: [g(p, q) for p, q in zip(x, y)], (a, b))
        return ("op", dst, g, (a, b))

    def fcmp(self, pred, x, y):
        nan = x is X.NAN or y is X.NAN
        if pred == "uno":
            return nan
        if pred == "ord":
            return not nan
        if pred == "true":
            return True
        if pred == "false":
            return False
        o = pred[0] == "o"
        if nan:
            return not o
        k = pred[1:]
        r = {"eq": X.eq, "ne": lambda a, b: X.not_(X.eq(a, b)), "lt": X.lt, "le": X.le, "gt": X.gt, "ge": X.ge}[k](x, y)
        if r is X.TRUE:
            return True
        if r is X.FALSE:
            return False
        return r

    def i_icmp(self, dst, tk, f):
        i = 1
        if tk[i][1] == "samesign":
            i += 1
        pred = tk[i][1]
        t, a, i = self.ty_op(tk, i + 1, f)
        b, i = self.operand(t, tk, i + 1, f)
        n = t.n if t.k == "i" else 64
        return ("op", dst, lambda x, y: self.icmp(pred, x, y, n), (a, b))

    def icmp(self, pred, x, y, n):
        if isinstance(x, P) or isinstance(y, P):
            x = x if isinstance(x, P) else self.retype(x, PTR)
            y = y if isinstance(y, P) else self.retype(y, PTR)
            if pred == "eq":
                return x == y
            if pred == "ne":
                return not x == y
            if x.o is y.o:
                x, y = x.off, y.off
                pred = pred.replace("u", "s", 1) if pred[0] == "u" else pred
            else:
                x, y = self.p2i(x), self.p2i(y)
        if isinstance(x, (X.B, bool)) and isinstance(y, (X.B, bool, int)) or isinstance(y, X.B):
            x, y = X.liftb(x), X.liftb(y)
            e = X.or_(X.and_(x, y), X.and_(X.not_(x), X.not_(y)))
            if pred == "eq":
                return e
            if pred == "ne":
                return X.not_(e)
            raise Unsupported("icmp on booleans " + pred)
        if x is UNDEF or y is UNDEF:
            raise Unsupported("icmp on undef")
        if isinstance(x, SInt) or isinstance(y, SInt):
            x, y = sint(x, n), sint(y, n)
            r = {"eq": X.eq, "ne": lambda a, b: X.not_(X.eq(a, b)), "slt": X.lt, "sle": X.le, "sgt": X.gt, "sge": X.ge,
                 "ult": X.lt, "ule": X.le, "ugt": X.gt, "uge": X.ge}[pred](x, y)
            return True if r is X.TRUE else False if r is X.FALSE else r
        if isinstance(x, Bits) or isinstance(y, Bits):
            raise Unsupported("integer comparison of double bits")
        if pred[0] == "s":
            x, y = ssgn(x, n), ssgn(y, n)
            pred = pred[1:]
        elif pred[0] == "u":
            pred = pred[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred]

    def cast(self, op, dst, tk, f):
        i = 1
        while tk[i][1] in ("nneg", "nuw", "nsw"):
            i += 1
        t, a, i = self.ty_op(tk, i, f)
        t2, i = self.m.ty(tk, i + 1)
        if t.k == "vec":
            return ("op", dst, lambda v: [self.docast(op, q, t.sub, t2.sub) for q in v], (a,))
        return ("op", dst, lambda v: self.docast(op, v, t, t2), (a,))

    def docast(self, op, v, t, t2):
        if v is UNDEF:
            if t2.k in ("double", "float"):
                return self.fresh()
            return UNDEF
        if op in ("bitcast", "addrspacecast"):
            if t2.k in ("double", "i", "float", "ptr"):
                return self.retype(v, t2)
            raise Unsupported("bitcast to %r" % t2)
        if op == "zext":
            if isinstance(v, X.B):
                return SInt(v)
            return int(v) if not isinstance(v, (SInt, Bits)) else v
        if op == "sext":
            if isinstance(v, SInt):
                return v
            if isinstance(v, X.B):
                return (1 << t2.n) - 1 if paths.decide(v) else 0
            return ssgn(int(v), t.n) & ((1 << t2.n) - 1)
        if op == "trunc":
            if isinstance(v, SInt):
                if t2.n == 1 and v.b is not None:
                    return v.b
                return v
            if isinstance(v, Bits):
                raise Unsupported("trunc of bits")
            if isinstance(v, X.B):
                return v
            r = int(v) & ((1 << t2.n) - 1)
            return bool(r) if t2.n == 1 else r
        if op in ("sitofp", "uitofp"):
            if isinstance(v, SInt):
                return v.term()
            if isinstance(v, (bool, X.B)):
                v = X.liftb(v)
                if t.k == "i" and t.n == 1:
                    r = X.ONE if paths.decide(v) else X.ZERO
                    return X.neg(r) if op == "sitofp" else r
            return X.const(ssgn(v, t.n) if op == "sitofp" else v)
        if op in ("fptosi", "fptoui"):
            if v.op == "c":
                return int(v.args[0]) & ((1 << t2.n) - 1)
            # trunc towards zero
            if paths.decide(X.ge(v, X.ZERO)):
                e = X.fn("floor", v)
            else:
                e = X.neg(X.fn("floor", X.neg(v)))
            return SInt(e=e)
        if op in ("fpext", "fptrunc"):
            return v
        if op == "ptrtoint":
            return self.p2i(v)
        if op == "inttoptr":
            return self.retype(v, PTR)
        raise Unsupported(op)

    def i_extractvalue(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        ix = []
        while i < len(tk) and tk[i][1] == ",":
            ix.append(int(tk[i + 1][1]))
            i += 2

        def g(v):
            for k in ix:
                v = v[k] if v is not UNDEF else UNDEF
            return v

        return ("op", dst, g, (a,))

    def i_insertvalue(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        t2, b, i = self.ty_op(tk, i + 1, f)
        ix = []
        while i < len(tk) and tk[i][1] == ",":
            ix.append(int(tk[i + 1][1]))
            i += 2

        def g(v, w):
            if v is UNDEF:
                v = self.undefagg(t)
            v = list(v)
            if len(ix) == 1:
                v[ix[0]] = w
            else:
                q = v
                for k in ix[:-1]:
                    q[k] = list(q[k])
                    q = q[k]
                q[ix[-1]] = w
            return v

        return ("op", dst, g, (a, b))

    def i_extractelement(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        _, b, i = self.ty_op(tk, i + 1, f)
        return ("op", dst, lambda v, k: v[self.conc(k)], (a, b))

    def i_insertelement(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        _, b, i = self.ty_op(tk, i + 1, f)
        _, c, i = self.ty_op(tk, i + 1, f)

        def g(v, w, k):
            v = [UNDEF] * t.n if v is UNDEF else list(v)
            v[self.conc(k)] = w
            return v

        return ("op", dst, g, (a, b, c))

    def i_shufflevector(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        _, b, i = self.ty_op(tk, i + 1, f)
        _, c, i = self.ty_op(tk, i + 1, f)

        def g(v, w, k):
            vv = (list(v) if v is not UNDEF else [UNDEF] * t.n) + (list(w) if w is not UNDEF else [UNDEF] * t.n)
            return [vv[x] if x is not UNDEF else UNDEF for x in k]

        return ("op", dst, g, (a, b, c))

    def i_freeze(self, dst, tk, f):
        t, a, i = self.ty_op(tk, 1, f)
        return ("op", dst, lambda v: (0 if t.k == "i" else self.fz(v, t)) if v is UNDEF else v, (a,))

    def i_landingpad(self, dst, tk, f):
        return ("dead",)

    def i_resume(self, dst, tk, f):
        return ("dead",)

    def i_fence(self, dst, tk, f):
        return None

    def i_atomicrmw(self, dst, tk, f):
        i = 1
        if tk[i][1] == "volatile":
            i += 1
        opn = tk[i][1]
        _, p, i = self.ty_op(tk, i + 1, f)
        t, v, i = self.ty_op(tk, i + 1, f)

        def g(p, v):
            old = self.load(p, t)
            new = {"add": lambda: (old + v) & ((1 << t.n) - 1), "sub": lambda: (old - v) & ((1 << t.n) - 1), "xchg": lambda: v}[opn]()
            self.storeval(p, t, new)
            return old

        return ("op", dst, g, (p, v))

    def i_call(self, dst, tk, f):
        return self.callins(dst, tk, f)

    def i_invoke(self, dst, tk, f):
        return self.callins(dst, tk, f, invoke=True)

    def callins(self, dst, tk, f, invoke=False):
        i = 1
        rett = None
        while True:
            w = tk[i]
            if w[0] == "word" and w[1] in ("fastcc", "ccc", "coldcc", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "cc", "tailcc"):
                i += 1
                continue
            ni, at = self.skipattrs(tk, i)
            if ni != i:
                i = ni
                continue
            break
        # return type; may be a full function type
        rett, i = self.m.ty(tk, i)
        if tk[i][1] == "asm":
            return ("op", dst, self._asm, ())
        callee_tok = tk[i]
        if callee_tok[0] == "glob":
            callee = ("n", callee_tok[1])
            i += 1
        elif callee_tok[0] == "loc":
            callee, i = self.operand(PTR, tk, i, f)
        else:
            raise Unsupported("callee %s" % (callee_tok,))
        assert tk[i][1] == "(", tk[i]
        i += 1
        ops = []
        tys = []
        while tk[i][1] != ")":
            t, i = self.m.ty(tk, i)
            i, at = self.skipattrs(tk, i)
            if t.k == "metadata":
                # skip to , or )
                while tk[i][1] not in (",", ")"):
                    i += 1
                o = ("k", None)
            else:
                o, i = self.operand(t, tk, i, f)
            ops.append(o)
            tys.append((t, at))
            if tk[i][1] == ",":
                i += 1
        nxt = None
        if invoke:
            while tk[i][1] != "to":
                i += 1
            nxt = tk[i + 2][1]
        return ("call", dst, callee, tuple(ops), tys, nxt)

    def _asm(self):
        return None

    # ----- execution
    def call(self, name, args):
        """Execute function `name` (mangled, with @)."""
        name = self.m.aliases.get(name, name)
        if len(self.contracts):
            h = self.ccache.get(name, 0)
            if h == 0:
                h = None
                for rx, hd in self.contracts:
                    if re.search(rx, name):
                        h = hd
                        break
                self.ccache[name] = h
            if h is not None:
                self.called_contracts[name] = self.called_contracts.get(name, 0) + 1
                return h(self, args, name)
        f = self.m.funcs.get(name)
        if f is None:
            return self.extern(name, args)
        if f.compiled is None:
            self.compile(f)
        self.reached.add(name)
        regs = [None] * (len(f.slots) + 64)
        for (s, t, at), a in zip(f.params, args):
            if "byval" in at:
                sz = self.m.size(at["byval"])
                q = self.alloc("byval", sz)
                self.memcpy(q, a, sz)
                a = q
            regs[s] = a
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("call depth")
        try:
            return self.run(f, regs)
        except Unsupported as e:
            e.where = getattr(e, "where", []) + [f.name]
            raise
        finally:
            self.depth -= 1

    def run(self, f, regs):
        prev = None
        cur = f.first
        while True:
            phis, code = self.block(f, cur)
            if len(regs) < len(f.slots):
                regs.extend([None] * (len(f.slots) - len(regs) + 64))
            if phis:
                vals = []
                for d, inc in phis:
                    vals.append((d, self.val(inc[prev], regs)))
                for d, v in vals:
                    regs[d] = v
            nxt = None
            for ins in code:
                self.steps += 1
                k = ins[0]
                if k == "op":
                    r = ins[2](*[self.val(o, regs) for o in ins[3]])
                    if ins[1] is not None:
                        regs[ins[1]] = r
                elif k == "call":
                    _, d, callee, ops, tys, nx = ins
                    args = [self.val(o, regs) for o in ops]
                    if callee[0] == "n":
                        nm = callee[1]
                    else:
                        p = self.val(callee, regs)
                        if not isinstance(p, P) or not isinstance(p.o, FnObj):
                            raise Unsupported("indirect call to %r" % (p,))
                        nm = p.o.fn
                    r = self.call(nm, args)
                    if d is not None:
                        regs[d] = r
                    if nx is not None:
                        nxt = nx
                elif k == "ret":
                    return None if ins[1] is None else self.val(ins[1], regs)
                elif k == "jmp":
                    nxt = ins[1]
                elif k == "br":
                    c = self.val(ins[1], regs)
                    if isinstance(c, X.B):
                        c = paths.decide(c)
                    elif c is UNDEF:
                        raise Unsupported("branch on undef")
                    elif isinstance(c, SInt):
                        c = paths.decide(X.not_(X.eq(c.term(), X.ZERO)))
                    nxt = ins[2] if c else ins[3]
                elif k == "switch":
                    v = self.val(ins[1], regs)
                    if isinstance(v, SInt):
                        nxt = ins[2]
                        for c, lab in ins[3].items():
                            if paths.decide(X.eq(v.term(), X.const(c))):
                                nxt = lab
                                break
                    else:
                        nxt = ins[3].get(self.conc(v), ins[2])
                elif k == "unreachable":
                    raise CxxAbort("unreachable")
                else:
                    raise Unsupported(k)
            if self.steps > self.max_steps:
                raise StepLimit("more than %d IR steps" % self.max_steps)
            prev, cur = cur, nxt

    def val(self, o, regs):
        k = o[0]
        if k == "r":
            return regs[o[1]]
        if k == "k":
            return o[1]
        return o[1](None)

    def extern(self, name, args):
        h = self.externs.get(name)
        if h is None:
            for rx, hh in EXTERN_RX:
                if re.match(rx, name):
                    h = self.externs[name] = hh
                    break
        if h is None:
            raise Unsupported("external function " + name)
        return h(self, *args)


class SInt:
    """symbolic integer: a real term known to be integral, or a 0/1 boolean"""

    __slots__ = ("b", "e")

    def __init__(self, b=None, e=None):
        self.b, self.e = b, e

    def term(self):
        if self.e is None:
            self.e = X.ONE if paths.decide(self.b) else X.ZERO
        return self.e


def sint(v, n):
    if isinstance(v, SInt):
        return v.term()
    return X.const(ssgn(v, n))


def sgn(v):
    return v - (1 << 64) if v >> 63 and v > 0 else v


def ssgn(v, n):
    v = int(v) & ((1 << n) - 1)
    return v - (1 << n) if n and v >> (n - 1) else v


def _i(f, bo=None):
    def g(x, y, n):
        if bo is not None and (isinstance(x, X.B) or isinstance(y, X.B) or isinstance(x, bool) and isinstance(y, bool)):
            r = bo(X.liftb(x), X.liftb(y))
            return True if r is X.TRUE else False if r is X.FALSE else r
        if isinstance(x, (SInt, Bits)) or isinstance(y, (SInt, Bits)):
            return _sym(f, x, y, n)
        if isinstance(x, P) or isinstance(y, P):
            raise Unsupported("integer arithmetic on pointer")
        if x is UNDEF or y is UNDEF:
            return UNDEF
        return f(int(x), int(y), n) & ((1 << n) - 1)

    return g


def _sym(f, x, y, n):
    if isinstance(x, Bits) or isinstance(y, Bits):
        raise Unsupported("bit operation on a double")
    if f in (_add, _sub, _mul):
        a, b = sint(x, n), sint(y, n)
        return SInt(e={_add: X.add, _sub: X.sub, _mul: X.mul}[f](a, b))
    if f is _and and isinstance(y, int) and y == 1 and x.b is not None:
        return x
    if f is _shl and isinstance(y, int):
        return SInt(e=X.mul(sint(x, n), X.const(1 << y)))
    # boolean-valued: decide
    def c(v):
        if isinstance(v, SInt) and v.b is not None:
            return int(paths.decide(v.b))
        if isinstance(v, SInt) and v.e.op == "c":
            return int(v.e.args[0]) & ((1 << n) - 1)
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic integer operation")

    return f(c(x), c(y), n) & ((1 << n) - 1)


def _add(a, b, n):
    return a + b


def _sub(a, b, n):
    return a - b


def _mul(a, b, n):
    return a * b


def _and(a, b, n):
    return a & b


def _shl(a, b, n):
    return a << b


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _udiv(a, b, n):
    if b == 0:
        raise CxxAbort("division by zero")
    return a // b


ARITH = {
    "fadd": lambda x, y, n: X.add(x, y),
    "fsub": lambda x, y, n: X.sub(x, y),
    "fmul": lambda x, y, n: X.mul(x, y),
    "fdiv": lambda x, y, n: X.div(x, y),
    "add": _i(_add),
    "sub": _i(_sub),
    "mul": _i(_mul),
    "udiv": _i(_udiv),
    "sdiv": _i(lambda a, b, n: _tdiv(ssgn(a, n), ssgn(b, n))),
    "urem": _i(lambda a, b, n: a % b),
    "srem": _i(lambda a, b, n: ssgn(a, n) - ssgn(b, n) * _tdiv(ssgn(a, n), ssgn(b, n))),
    "and": _i(_and, X.and_),
    "or": _i(lambda a, b, n: a | b, X.or_),
    "xor": _i(lambda a, b, n: a ^ b, lambda a, b: X.or_(X.and_(a, X.not_(b)), X.and_(X.not_(a), b))),
    "shl": _i(_shl),
    "lshr": _i(lambda a, b, n: a >> b),
    "ashr": _i(lambda a, b, n: ssgn(a, n) >> b),
}


def _frem(x, y, n):
    raise Unsupported("frem")


ARITH["frem"] = _frem
CASTS = {"bitcast", "zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "addrspacecast"}


# ------------------------------------------------------------------ externals
def _fab(m, x):
    if x is UNDEF:
        x = m.fresh()
    if x.op == "c":
        return X.const(abs(x.args[0]))
    return x if paths.decide(X.ge(x, X.ZERO)) else X.neg(x)


def _ptr_alloc(m, n, *a):
    return m.alloc("heap", max(m.conc(n), 1))


def _nop(m, *a):
    return None


def _throw(m, *a):
    raise CxxThrow(a)


def _abort(m, *a):
    raise CxxAbort("abort")


def _sincos(m, x, ps, pc):
    m.store(ps, 8, X.sin(x))
    m.store(pc, 8, X.cos(x))


def _tan(m, x):
    return X.div(X.sin(x), X.cos(x))


def _floor(m, x):
    if x.op == "c":
        return X.const(math.floor(x.args[0]))
    return X.fn("floor", x)


def _pow(m, a, b):
    return X.power(a, b)


def _minmax(lo):
    def g(m, a, b):
        c = X.lt(a, b)
        c = paths.decide(c)
        return (a if c else b) if lo else (b if c else a)

    return g


def _copysign(m, a, b):
    v = _fab(m, a)
    return v if paths.decide(X.ge(b, X.ZERO)) else X.neg(v)


def _overflow(f):
    def g(m, a, b):
        r = f(a, b)
        return [r & (2**64 - 1), r >= 2**64]

    return g


def _strlen(m, p):
    return len(m.cstr(p))


def _memcmp(m, p, q, n):
    for i in range(m.conc(n)):
        a = m.conc(m.load(P(p.o, p.off + i), I8))
        b = m.conc(m.load(P(q.o, q.off + i), I8))
        if a != b:
            return (1 if a > b else -1) & 0xFFFFFFFF
    return 0


def _mc(m, d, s, n, *a):
    m.memcpy(d, s, n)
    return d


def _ms(m, d, b, n, *a):
    m.memset(d, b, n)
    return d


# std::map / std::set: the tree is kept unbalanced (order and contents are what matter)
def _rbl(m, p, k):
    return m.load(P(p.o, p.off + 8 * k), PTR)


def _rbs(m, p, k, v):
    m.store(P(p.o, p.off + 8 * k), 8, v)


def _rb_insert(m, left, x, p, h):
    m.store(x, 4, 1)
    _rbs(m, x, 1, p)
    _rbs(m, x, 2, NULL)
    _rbs(m, x, 3, NULL)
    left = m.conc(left)
    if left:
        _rbs(m, p, 2, x)
        if p == h:
            _rbs(m, h, 1, x)
            _rbs(m, h, 3, x)
        elif p == _rbl(m, h, 2):
            _rbs(m, h, 2, x)
    else:
        _rbs(m, p, 3, x)
        if p == _rbl(m, h, 3):
            _rbs(m, h, 3, x)


def _rb_inc(m, x):
    r = _rbl(m, x, 3)
    if r != NULL:
        while _rbl(m, r, 2) != NULL:
            r = _rbl(m, r, 2)
        return r
    y = _rbl(m, x, 1)
    while x == _rbl(m, y, 3):
        x, y = y, _rbl(m, y, 1)
    return y if _rbl(m, x, 3) != y else x


def _rb_dec(m, x):
    par = _rbl(m, x, 1)
    if m.load(x, I32) == 0 and par != NULL and _rbl(m, par, 1) == x:
        return _rbl(m, x, 3)  # the header is the only red node
    left = _rbl(m, x, 2)
    if left != NULL:
        while _rbl(m, left, 3) != NULL:
            left = _rbl(m, left, 3)
        return left
    y = par
    while x == _rbl(m, y, 2):
        x, y = y, _rbl(m, y, 1)
    return y


def _str_init(m, p, *a):
    m.store(p, 8, P(p.o, p.off + 16))
    m.store(P(p.o, p.off + 8), 8, 0)
    m.store(P(p.o, p.off + 16), 1, 0)


def _str_copy(m, p, q, *a):
    n = m.conc(m.load(P(q.o, q.off + 8), I64))
    src = m.load(q, PTR)
    if n < 16:
        dst = P(p.o, p.off + 16)
    else:
        dst = m.alloc("str", n + 1)
        m.store(P(p.o, p.off + 16), 8, n)
    m.store(p, 8, dst)
    m.store(P(p.o, p.off + 8), 8, n)
    m.memcpy(dst, src, n + 1)


def _str_move(m, p, q, *a):
    _str_copy(m, p, q)
    _str_init(m, q)


def _str_assign(m, p, q, *a):
    if p != q:
        _str_copy(m, p, q)
    return p


_STR = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def _guard(m, p):
    v = m.load(p, I8)
    return 1 if v == 0 or v is UNDEF else 0


def _guardrel(m, p):
    m.store(p, 1, 1)


def _u1(op):
    return lambda m, x: getattr(X, op)(m.fz(x, DBL))


def _muldc3(m, a, b, c, d):
    a, b, c, d = (m.fz(v, DBL) for v in (a, b, c, d))
    return [X.sub(X.mul(a, c), X.mul(b, d)), X.add(X.mul(a, d), X.mul(b, c))]


def _divdc3(m, a, b, c, d):
    a, b, c, d = (m.fz(v, DBL) for v in (a, b, c, d))
    n = X.add(X.mul(c, c), X.mul(d, d))
    return [X.div(X.add(X.mul(a, c), X.mul(b, d)), n), X.div(X.sub(X.mul(b, c), X.mul(a, d)), n)]


DEFAULT_EXTERNS = {
    "@__muldc3": _muldc3, "@__divdc3": _divdc3,
    "@sin": _u1("sin"), "@cos": _u1("cos"), "@sqrt": _u1("sqrt"), "@acos": _u1("acos"), "@asin": _u1("asin"),
    "@tan": _tan, "@atan2": lambda m, y, x: X.atan2(y, x), "@atan": lambda m, x: X.atan2(x, X.ONE), "@sincos": _sincos,
    "@exp": lambda m, x: X.fn("exp", x), "@log": lambda m, x: X.fn("log", x), "@pow": _pow, "@fabs": _fab, "@floor": _floor,
    "@hypot": lambda m, x, y: X.sqrt(X.add(X.mul(x, x), X.mul(y, y))),
    "@ceil": lambda m, x: X.neg(_floor(m, X.neg(x))),
    "@fmin": _minmax(True), "@fmax": _minmax(False),
    "@cbrt": lambda m, x: X.fn("cbrt", x),
    "@malloc": _ptr_alloc, "@free": _nop, "@_Znwm": _ptr_alloc, "@_Znam": _ptr_alloc, "@_ZdlPv": _nop, "@_ZdaPv": _nop, "@_ZdlPvm": _nop,
    "@_ZdaPvm": _nop, "@_ZnwmSt11align_val_t": _ptr_alloc, "@_ZdlPvSt11align_val_t": _nop, "@_ZdlPvmSt11align_val_t": _nop,
    "@aligned_alloc": lambda m, a, n: _ptr_alloc(m, n), "@memcpy": _mc, "@memmove": _mc, "@memset": _ms, "@strlen": _strlen, "@memcmp": _memcmp, "@bcmp": _memcmp,
    "@__cxa_guard_acquire": _guard, "@__cxa_guard_release": _guardrel, "@__cxa_atexit": lambda m, *a: 0, "@abort": _abort,
    "@__cxa_allocate_exception": lambda m, n: m.alloc("exc", 4096), "@__cxa_throw": _throw, "@__cxa_free_exception": _nop,
    "@__assert_fail": _abort, "@exit": _abort, "@llvm.trap": _abort,
    "@_ZNSt13runtime_errorC1EPKc": _nop, "@_ZNSt13runtime_errorD1Ev": _nop, "@_ZNSt16invalid_argumentC1EPKc": _nop,
    "@_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": _nop,
    "@_ZSt9terminatev": _abort,
    "@_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": _rb_insert,
    "@_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": _rb_inc, "@_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": _rb_inc,
    "@_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": _rb_dec, "@_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": _rb_dec,
}
EXTERN_RX = [
    (r"@llvm\.(lifetime|dbg|assume|experimental\.noalias|prefetch|stackrestore|donothing|invariant)", _nop),
    (r"@llvm\.(memcpy|memmove)\.", _mc),
    (r"@llvm\.memset\.", _ms),
    (r"@llvm\.fabs\.", _fab),
    (r"@llvm\.sqrt\.", _u1("sqrt")),
    (r"@llvm\.sin\.", _u1("sin")),
    (r"@llvm\.cos\.", _u1("cos")),
    (r"@llvm\.pow\.", _pow),
    (r"@llvm\.floor\.", _floor),
    (r"@llvm\.ceil\.", lambda m, x: X.neg(_floor(m, X.neg(x)))),
    (r"@llvm\.exp\.", lambda m, x: X.fn("exp", x)),
    (r"@llvm\.log\.", lambda m, x: X.fn("log", x)),
    (r"@llvm\.(minnum|minimum)\.", _minmax(True)),
    (r"@llvm\.(maxnum|maximum)\.", _minmax(False)),
    (r"@llvm\.copysign\.", _copysign),
    (r"@llvm\.fmuladd\.", lambda m, a, b, c: X.add(X.mul(a, b), c)),
    (r"@llvm\.fma\.", lambda m, a, b, c: X.add(X.mul(a, b), c)),
    (r"@llvm\.smax\.", lambda m, a, b: a if ssgn(m.conc(a), 64 if a > 2**32 else 32) > ssgn(m.conc(b), 64 if b > 2**32 else 32) else b),
    (r"@llvm\.smin\.", lambda m, a, b: a if ssgn(m.conc(a), 64 if a > 2**32 else 32) < ssgn(m.conc(b), 64 if b > 2**32 else 32) else b),
    (r"@llvm\.umax\.", lambda m, a, b: max(m.conc(a), m.conc(b))),
    (r"@llvm\.umin\.", lambda m, a, b: min(m.conc(a), m.conc(b))),
    (r"@llvm\.abs\.i32", lambda m, a, b: abs(ssgn(m.conc(a), 32))),
    (r"@llvm\.abs\.i64", lambda m, a, b: abs(ssgn(m.conc(a), 64))),
    (r"@llvm\.umul\.with\.overflow\.i64", _overflow(lambda a, b: a * b)),
    (r"@llvm\.uadd\.with\.overflow\.i64", _overflow(lambda a, b: a + b)),
    (r"@llvm\.ctlz\.i64", lambda m, a, z: 64 - m.conc(a).bit_length()),
    (r"@llvm\.ctlz\.i32", lambda m, a, z: 32 - m.conc(a).bit_length()),
    (r"@llvm\.cttz\.i64", lambda m, a, z: (lambda v: (v & -v).bit_length() - 1 if v else 64)(m.conc(a))),
    (r"@llvm\.cttz\.i32", lambda m, a, z: (lambda v: (v & -v).bit_length() - 1 if v else 32)(m.conc(a))),
    (r"@llvm\.ctpop\.", lambda m, a: bin(m.conc(a)).count("1")),
    (r"@llvm\.expect\.", lambda m, a, b: a),
    (r"@llvm\.stacksave", lambda m: NULL),
    (r"@_Z" + _STR + r"C[12]Ev$", _str_init),
    (r"@_Z" + _STR + r"C[12]ERKS4_$", _str_copy),
    (r"@_Z" + _STR + r"C[12]EOS4_$", _str_move),
    (r"@_Z" + _STR + r"D[12]Ev$", _nop),
    (r"@_Z" + _STR + r"(9_M_assignERKS4_|aSERKS4_|aSEOS4_)$", _str_assign),
    (r"@_ZSt\d+__throw_", _throw),
    (r"@_ZN5Eigen8internal19throw_std_bad_alloc", _throw),
    (r"@_ZN\w*(LogMessage|google)", _nop),
]

CXXFLAGS = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE", "-DNDEBUG", "-DEIGEN_NO_DEBUG",
            "-ffp-contract=off", "-fno-access-control", "-fno-math-errno", "-fno-discard-value-names", "-w"]
INCS = ["-I/repo/opensfm/src", "-I/usr/include/eigen3"]


def compile_ir(src, out, noinline=False, extra=()):
    cmd = ["/usr/bin/clang++-18"] + CXXFLAGS + (["-fno-inline"] if noinline else []) + list(extra) + INCS + ["-S", "-emit-llvm", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang failed: " + r.stderr[-3000:])
    return Module(open(out).read()), " ".join(cmd)
