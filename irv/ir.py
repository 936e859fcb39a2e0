"""A parser for the textual LLVM 18 IR that clang emits for sphgeom.

Only what clang produces for this code base is supported; anything else raises
ParseError, which the driver reports as an unsupported construct (never as a
proof).
"""
import re
import struct


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elems", "n", "name", "packed", "_size", "_align")

    def __init__(self, k, w=0, elems=None, n=0, name=None, packed=False):
        self.k, self.w, self.elems, self.n = k, w, elems, n
        self.name, self.packed = name, packed
        self._size = self._align = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k in ("array", "vector"):
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.elems or []))
        return self.k


_ints = {}


def IntTy(w):
    if w not in _ints:
        _ints[w] = Ty("int", w)
    return _ints[w]


VOID, PTR = Ty("void"), Ty("ptr")
DOUBLE, FLOAT, X86FP80 = Ty("double"), Ty("float"), Ty("x86_fp80")
LABEL, META, TOKEN = Ty("label"), Ty("metadata"), Ty("token")
I1, I8, I32, I64 = IntTy(1), IntTy(8), IntTy(32), IntTy(64)

_TOK = re.compile(r'''
    (?P<ws>[ \t]+)
  | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
  | (?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
  | (?P<meta>![-\w.$]*)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KHLM]?[0-9A-Fa-f]+|-?\d+)
  | (?P<word>[A-Za-z_.][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:;|^])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = _TOK.match(s, i)
        if not m:
            raise ParseError("cannot tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


class C:
    """A constant expression: kind + payload, with its type."""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "C(%s,%r)" % (self.k, self.v)


class L:
    """A reference to a local value."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Instr:
    __slots__ = ("op", "res", "ty", "a", "flags", "text")

    def __init__(self, op, res=None, ty=None, a=None, flags=(), text=""):
        self.op, self.res, self.ty, self.a, self.flags, self.text = op, res, ty, a, flags, text


class Block:
    __slots__ = ("name", "ins", "phis")

    def __init__(self, name):
        self.name, self.ins, self.phis = name, [], []


class Function:
    def __init__(self, name, ret, params, body, sret):
        self.name, self.ret, self.params = name, ret, params
        self._body, self._blocks, self.sret = body, None, sret
        self.entry = None
        self.param_attrs = []


_ATTRWORDS = set("""noundef nonnull noalias nocapture readonly readnone writeonly returned signext zeroext
inreg immarg nofree nest swiftself swiftasync writable dead_on_unwind nocallback willreturn nounwind
dso_local local_unnamed_addr unnamed_addr internal linkonce_odr linkonce private weak weak_odr external available_externally
hidden protected default fastcc ccc coldcc tail musttail notail common appending thread_local
inrange nnan ninf nsz arcp contract afn reassoc fast inbounds nuw nsw exact disjoint nneg volatile inalloca noinline""".split())


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}
        self._gtext = {}
        self._parse_top(text)

    # ---- top level
    def _parse_top(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                name, rest = ln.split(" = type ", 1)
                self.types[name.strip()] = ["lazy", rest, None]
            elif ln.startswith("@"):
                name, rest = self._split_name(ln)
                self._gtext[name] = rest
            elif ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._parse_define(ln, lines[i + 1:j])
                i = j
            elif ln.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            i += 1

    @staticmethod
    def _split_name(ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', ln)
        return m.group(1).strip('"'), ln[m.end():]

    def _parse_define(self, ln, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
        name = m.group(1).strip('"')
        p = P(self, ln[len("define "):m.start()])
        p.skip_attrs()
        ret = p.type()
        # parameters
        depth, k = 1, m.end()
        while depth:
            c = ln[k]
            if c == '"':
                k = ln.index('"', k + 1)
            elif c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
            k += 1
        ptxt = ln[m.end():k - 1]
        params, sret = [], False
        p = P(self, ptxt)
        attrs = []
        while not p.eof():
            if p.accept("..."):
                break
            t = p.type()
            at = p.skip_attrs()
            sret = sret or "sret" in at
            nm = None
            if p.peek()[0] == "loc":
                nm = p.next()[1]
            params.append((nm, t))
            attrs.append(at)
            if not p.accept(","):
                break
        f = Function(name, ret, params, body, sret)
        f.param_attrs = attrs
        self.funcs[name] = f

    def named(self, name):
        e = self.types.get(name)
        if e is None:
            raise ParseError("unknown type " + name)
        if e[2] is None:
            if e[1].strip() == "opaque":
                e[2] = Ty("struct", elems=[], name=name)
            else:
                t = Ty("struct", name=name)
                e[2] = t
                r = P(self, e[1]).type()
                t.elems, t.packed = r.elems, r.packed
        return e[2]

    def global_var(self, name):
        """Returns (ty, init-constant or None, is_const)."""
        g = self.globals.get(name)
        if g is None:
            txt = self._gtext.get(name)
            if txt is None:
                return None
            p = P(self, txt)
            ws = p.skip_attrs()
            ext = "external" in ws
            if p.accept("alias"):
                t = p.type()
                p.accept(",")
                p.type()
                c = p.value(PTR)
                g = ("alias", c, True)
                self.globals[name] = g
                return g
            k = p.next()[1]
            if k not in ("global", "constant"):
                raise ParseError("global " + name + ": " + txt[:80])
            t = p.type()
            init = None
            if not ext and not p.eof() and not p.at(","):
                init = p.value(t)
            g = (t, init, k == "constant")
            self.globals[name] = g
        return g

    def is_global(self, name):
        return name in self._gtext

    # ---- function bodies
    def blocks(self, f):
        if f._blocks is None:
            f._blocks = self._parse_body(f)
        return f._blocks

    def _parse_body(self, f):
        blocks = {}
        cur = None
        lines = f._body
        # implicit numbering of unnamed entry/blocks is avoided by -fno-discard-value-names
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln.lstrip().startswith(";"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                if not m:
                    raise ParseError("label? " + ln)
                nm = "%" + m.group(1)
                cur = Block(nm)
                blocks[nm] = cur
                if f.entry is None:
                    f.entry = nm
                continue
            # multi-line instructions
            s = ln
            st = s.strip()
            if re.match(r'(%\S+ = )?invoke ', st):
                while " unwind label " not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif re.match(r'%\S+ = landingpad ', st):
                while i < len(lines) and lines[i].startswith("          "):
                    s += " " + lines[i].strip()
                    i += 1
            elif st.startswith("switch ") and "]" not in s:
                while lines[i].strip() != "]":
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            if cur is None:
                cur = Block("%entry_")
                blocks[cur.name] = cur
                f.entry = cur.name
            k = s.find(" ;")
            ins = self._parse_instr(s.strip())
            (cur.phis if ins.op == "phi" else cur.ins).append(ins)
        return blocks

    def _parse_instr(self, s):
        # strip trailing metadata
        k = s.find(", !")
        txt = s if k < 0 else s[:k]
        p = P(self, txt)
        res = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            res = p.next()[1]
            p.next()
        op = p.next()[1]
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        f = getattr(p, "i_" + op, None)
        if f is None:
            if op in _BIN:
                fl = p.skip_attrs()
                t = p.type()
                a = p.value(t)
                p.expect(",")
                b = p.value(t)
                return Instr(op, res, t, (a, b), fl, s)
            if op in _CAST:
                fl = p.skip_attrs()
                t = p.type()
                a = p.value(t)
                p.expect("to")
                t2 = p.type()
                return Instr(op, res, t2, (a, t), fl, s)
            raise ParseError("instruction: " + s)
        ins = f()
        ins.res, ins.text = res, s
        return ins

    # ---- layout
    def sizeof(self, t):
        k = t.k
        if k == "int":
            b = (t.w + 7) // 8
            a = self.alignof(t)
            return (b + a - 1) // a * a
        if k in ("ptr", "double"):
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80":
            return 16
        if k == "array":
            return t.n * self.sizeof(t.elems[0])
        if k == "vector":
            return t.n * t.elems[0].w // 8 if t.elems[0].k == "int" else t.n * self.sizeof(t.elems[0])
        if k == "struct":
            if t._size is None:
                self._layout(t)
            return t._size[0]
        raise ParseError("sizeof %r" % t)

    def alignof(self, t):
        k = t.k
        if k == "int":
            b = (t.w + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return a
        if k in ("ptr", "double"):
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80":
            return 16
        if k == "array":
            return self.alignof(t.elems[0])
        if k == "vector":
            return self.sizeof(t)
        if k == "struct":
            if t._size is None:
                self._layout(t)
            return t._align
        raise ParseError("alignof %r" % t)

    def _layout(self, t):
        off, al, offs = 0, 1, []
        for e in t.elems:
            a = 1 if t.packed else self.alignof(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(e)
        size = (off + al - 1) // al * al
        t._size, t._align = (size, offs), al

    def offsets(self, t):
        self.sizeof(t)
        return t._size[1]


_BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
_CAST = set("zext sext trunc bitcast fptosi fptoui sitofp uitofp fpext fptrunc ptrtoint inttoptr".split())


class P:
    """Token parser over one line (or one type)."""

    def __init__(self, mod, s):
        self.m, self.t, self.i = mod, tokenize(s), 0

    def eof(self):
        return self.i >= len(self.t)

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, s):
        return self.peek()[1] == s

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise ParseError("expected %r got %r in %r" % (s, x, self.t))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()[1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        out = []
        while True:
            k, v = self.peek()
            if k == "word" and v in _ATTRWORDS:
                out.append(v)
                self.i += 1
                if v == "thread_local" and self.at("("):
                    self.skip_parens()
            elif k == "word" and v in ("align", "addrspace") and self.peek(1)[0] == "num":
                self.i += 2
            elif k == "word" and v in ("sret", "byval", "byref", "dereferenceable", "dereferenceable_or_null", "align",
                                       "memory", "elementtype", "preallocated", "inalloca", "range", "nofpclass", "allockind",
                                       "allocsize", "comdat"):
                self.i += 1
                if v == "byval" and self.at("("):
                    j = self.i
                    self.i += 1
                    out.append(("byval", self.type()))
                    self.i = j
                out.append(v)
                if self.at("("):
                    self.skip_parens()
            elif k == "attr" or k == "com":
                self.i += 1
            elif k == "str" and self.peek(1)[1] == "=":
                self.i += 3
            else:
                return out

    # ---- types
    def type(self):
        k, v = self.next()
        t = None
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            else:
                t = {"void": VOID, "ptr": PTR, "double": DOUBLE, "float": FLOAT, "x86_fp80": X86FP80,
                     "label": LABEL, "metadata": META, "token": TOKEN}.get(v)
        elif k == "loc":
            t = self.m.named(v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", elems=[e], n=n)
        elif v == "<":
            if self.at("{"):
                self.next()
                t = self._struct()
                t.packed = True
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vector", elems=[e], n=n)
        elif v == "{":
            t = self._struct()
        if t is None:
            raise ParseError("type? %r %r" % (v, self.t))
        if self.at("addrspace"):
            self.next()
            self.skip_parens()
        # function type: T (args)
        if self.at("(") and self.peek()[0] == "p":
            self.skip_parens()
        return t

    def _struct(self):
        es = []
        if not self.accept("}"):
            while True:
                es.append(self.type())
                if self.accept("}"):
                    break
                self.expect(",")
        return Ty("struct", elems=es)

    # ---- values
    def value(self, t):
        k, v = self.next()
        if k == "loc":
            return L(v)
        if k == "num":
            if t.k == "int":
                return C("int", int(v, 0) & ((1 << t.w) - 1), t)
            if t.k == "double":
                if v.startswith("0x"):
                    return C("fp", int(v, 16), t)
                return C("fp", struct.unpack("<Q", struct.pack("<d", float(v)))[0], t)
            if t.k == "float":
                if v.startswith("0x"):
                    d = struct.unpack("<d", struct.pack("<Q", int(v, 16)))[0]
                else:
                    d = float(v)
                return C("fp", struct.unpack("<I", struct.pack("<f", d))[0], t)
            if t.k == "x86_fp80":
                return C("undef", None, t)
            raise ParseError("num of type %r" % t)
        if k == "glob":
            return C("glob", v[1:].strip('"'), t)
        if k == "str":
            b = bytearray()
            s = v[2:-1] if v[0] == "c" else v[1:-1]
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return C("bytes", bytes(b), t)
        if k == "word":
            if v == "true":
                return C("int", 1, t)
            if v == "false":
                return C("int", 0, t)
            if v in ("null",):
                return C("null", None, t)
            if v in ("undef", "poison"):
                return C("undef", v, t)
            if v in ("zeroinitializer", "none"):
                return C("zero", None, t)
            if v == "getelementptr":
                self.skip_attrs()
                self.expect("(")
                bt = self.type()
                self.expect(",")
                self.skip_attrs()
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(","):
                    self.skip_attrs()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(")")
                return C("gep", (bt, base, idx), t)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
                self.expect("(")
                st = self.type()
                x = self.value(st)
                self.expect("to")
                dt = self.type()
                self.expect(")")
                return C("cast", (v, st, x, dt), t)
            if v in ("sub", "add"):
                self.skip_attrs()
                self.expect("(")
                st = self.type()
                x = self.value(st)
                self.expect(",")
                st2 = self.type()
                y = self.value(st2)
                self.expect(")")
                return C("bin", (v, x, y), t)
        if v == "{" or v == "[" or v == "<":
            packed = False
            if v == "<" and self.at("{"):
                self.next()
                packed = True
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
            es = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    es.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return C("agg", es, t)
        raise ParseError("value %r in %r" % (v, self.t))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    # ---- instructions
    def i_ret(self):
        if self.accept("void"):
            return Instr("ret", a=None)
        t, v = self.tv()
        return Instr("ret", ty=t, a=v)

    def i_br(self):
        if self.accept("label"):
            return Instr("br", a=(self.next()[1],))
        t = self.type()
        c = self.value(t)
        self.expect(",")
        self.expect("label")
        x = self.next()[1]
        self.expect(",")
        self.expect("label")
        y = self.next()[1]
        return Instr("br", a=(c, x, y))

    def i_switch(self):
        t = self.type()
        c = self.value(t)
        self.expect(",")
        self.expect("label")
        d = self.next()[1]
        self.expect("[")
        cases = []
        while not self.accept("]"):
            t2 = self.type()
            k = self.value(t2)
            self.expect(",")
            self.expect("label")
            cases.append((k.v, self.next()[1]))
        return Instr("switch", ty=t, a=(c, d, cases))

    def i_unreachable(self):
        return Instr("unreachable")

    def i_resume(self):
        t, v = self.tv()
        return Instr("resume", ty=t, a=v)

    def i_load(self):
        self.skip_attrs()
        self.accept("atomic")
        self.skip_attrs()
        t = self.type()
        self.expect(",")
        pt, p = self.tv()
        return Instr("load", ty=t, a=p)

    def i_store(self):
        self.skip_attrs()
        self.accept("atomic")
        self.skip_attrs()
        t, v = self.tv()
        self.expect(",")
        pt, p = self.tv()
        return Instr("store", ty=t, a=(v, p))

    def i_alloca(self):
        self.skip_attrs()
        t = self.type()
        n = None
        if self.accept(","):
            if not self.at("align"):
                nt, n = self.tv()
        return Instr("alloca", ty=t, a=n)

    def i_getelementptr(self):
        fl = self.skip_attrs()
        bt = self.type()
        self.expect(",")
        pt, p = self.tv()
        idx = []
        while self.accept(","):
            it = self.type()
            idx.append((it, self.value(it)))
        return Instr("gep", ty=bt, a=(p, idx), flags=fl)

    def i_icmp(self):
        self.skip_attrs()
        pred = self.next()[1]
        t = self.type()
        a = self.value(t)
        self.expect(",")
        b = self.value(t)
        return Instr("icmp", ty=t, a=(pred, a, b))

    def i_fcmp(self):
        self.skip_attrs()
        pred = self.next()[1]
        t = self.type()
        a = self.value(t)
        self.expect(",")
        b = self.value(t)
        return Instr("fcmp", ty=t, a=(pred, a, b))

    def i_select(self):
        self.skip_attrs()
        ct = self.type()
        c = self.value(ct)
        self.expect(",")
        t = self.type()
        a = self.value(t)
        self.expect(",")
        self.type()
        b = self.value(t)
        return Instr("select", ty=t, a=(c, a, b, ct))

    def i_phi(self):
        self.skip_attrs()
        t = self.type()
        inc = {}
        while True:
            self.expect("[")
            v = self.value(t)
            self.expect(",")
            inc[self.next()[1]] = v
            self.expect("]")
            if not self.accept(","):
                break
        return Instr("phi", ty=t, a=inc)

    def i_freeze(self):
        t, v = self.tv()
        return Instr("freeze", ty=t, a=v)

    def i_fneg(self):
        self.skip_attrs()
        t, v = self.tv()
        return Instr("fneg", ty=t, a=v)

    def _call(self, op):
        self.skip_attrs()
        t = self.type()
        k, v = self.next()
        if k == "glob":
            callee = C("glob", v[1:].strip('"'), PTR)
        elif k == "loc":
            callee = L(v)
        elif k == "word" and v == "asm":
            raise ParseError("inline asm")
        else:
            raise ParseError("callee %r" % (v,))
        self.expect("(")
        args = []
        if not self.accept(")"):
            while True:
                at = self.type()
                if at is META:
                    # metadata operand: skip
                    d = 0
                    while not (d == 0 and (self.at(",") or self.at(")"))):
                        x = self.next()[1]
                        d += x == "("
                        d -= x == ")"
                    args.append((at, None))
                else:
                    fl = self.skip_attrs()
                    args.append((at, self.value(at)))
                if self.accept(")"):
                    break
                self.expect(",")
        ins = Instr(op, ty=t, a=[callee, args])
        return ins

    def i_call(self):
        return self._call("call")

    def i_invoke(self):
        ins = self._call("invoke")
        while not self.accept("to"):
            self.next()
        self.expect("label")
        n = self.next()[1]
        self.expect("unwind")
        self.expect("label")
        ins.a += [n, self.next()[1]]
        return ins

    def i_landingpad(self):
        t = self.type()
        clauses, cleanup = [], False
        while not self.eof():
            if self.accept("cleanup"):
                cleanup = True
            elif self.accept("catch"):
                ct = self.type()
                clauses.append(self.value(ct))
            elif self.accept("filter"):
                ct = self.type()
                self.value(ct)
            else:
                break
        return Instr("landingpad", ty=t, a=(cleanup, clauses))

    def i_extractvalue(self):
        t, v = self.tv()
        ix = []
        while self.accept(","):
            ix.append(int(self.next()[1]))
        return Instr("extractvalue", ty=t, a=(v, ix))

    def i_insertvalue(self):
        t, v = self.tv()
        self.expect(",")
        t2, e = self.tv()
        ix = []
        while self.accept(","):
            ix.append(int(self.next()[1]))
        return Instr("insertvalue", ty=t, a=(v, e, ix, t2))

    def i_extractelement(self):
        t, v = self.tv()
        self.expect(",")
        t2, i = self.tv()
        return Instr("extractelement", ty=t, a=(v, i))

    def i_insertelement(self):
        t, v = self.tv()
        self.expect(",")
        t2, e = self.tv()
        self.expect(",")
        t3, i = self.tv()
        return Instr("insertelement", ty=t, a=(v, e, i))

    def i_shufflevector(self):
        t, v = self.tv()
        self.expect(",")
        t2, w = self.tv()
        self.expect(",")
        t3, m = self.tv()
        return Instr("shufflevector", ty=t, a=(v, w, m, t3))

    def i_fence(self):
        return Instr("nop")
