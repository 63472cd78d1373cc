"""Parser for the subset of textual LLVM 18 IR that clang -O0 + sroa/mem2reg emits.

Functions are indexed by a cheap line scan and parsed only when they are executed.
"""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elems", "packed", "name", "_sz")

    def __init__(self, k, n=0, elems=None, packed=False, name=None):
        self.k, self.n, self.elems, self.packed, self.name = k, n, elems, packed, name
        self._sz = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.elems))
        if self.k == "named":
            return "%" + self.name
        return self.k


VOID, PTR, FLOAT, DOUBLE, X87, LABEL, META = (Ty(k) for k in
    ("void", "ptr", "float", "double", "x86_fp80", "label", "metadata"))
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(r'''\s+|;[^\n]*|(?P<q>[%@$!]?c?"(?:[^"\\]|\\.)*")|(?P<id>[%@][\w.$\-]+)|(?P<meta>![\w.]*)|(?P<attr>\#\d+)'''
                 r'''|(?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))|(?P<word>[A-Za-z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*:|])''')


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly returned signext zeroext inreg nest immarg noext
swiftself swifterror allocptr nofree dead_on_unwind writable'''.split())
PARAM_ATTRS_ARG = set('''align dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype range memory alignstack nofpclass'''.split())
CC = set('fastcc coldcc ccc tailcc x86_stdcallcc'.split())


class Val:
    """operand: kind in local/global/int/fp/null/undef/zero/cstr/agg/expr/bool/meta"""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "x", "dbg", "idx")

    def __init__(self, op, dst=None, ty=None, a=None, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a or [], x
        self.dbg = None

    def __repr__(self):
        return "%s = %s %r %r %r" % (self.dst, self.op, self.ty, self.a, self.x)


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise SyntaxError("expected %r got %r in %r" % (s, self.peek(), self.t))

    # types
    def is_type(self):
        k, v = self.peek()
        if k == "word":
            return bool(re.fullmatch(r"i\d+", v)) or v in ("void", "ptr", "float", "double", "x86_fp80", "label", "metadata", "half", "opaque", "token")
        if k in ("id", "q") and v[0] == "%":
            return True
        return v in ("[", "{", "<")

    def type(self):
        k, v = self.next()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            else:
                t = {"void": VOID, "ptr": PTR, "float": FLOAT, "double": DOUBLE, "x86_fp80": X87, "label": LABEL,
                     "metadata": META}.get(v) or Ty(v)
        elif k in ("id", "q") and v[0] == "%":
            t = Ty("named", name=unq(v[1:]))
        elif v == "[":
            n = int(self.next()[1])
            assert self.next()[1] == "x"
            e = self.type()
            self.expect("]")
            t = Ty("array", n, [e])
        elif v == "{":
            t = self._struct("}", False)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = self._struct("}", True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                assert self.next()[1] == "x"
                e = self.type()
                self.expect(">")
                t = Ty("vector", n, [e])
        else:
            raise SyntaxError("type %r" % (v,))
        # function type suffix
        if self.peek()[1] == "(" and t.k != "label":
            save = self.i
            self.next()
            depth = 1
            ok = True
            # only treat as function type when followed by types / ... / )
            args = []
            va = False
            try:
                if not self.eat(")"):
                    while True:
                        if self.eat("..."):
                            va = True
                        else:
                            if not self.is_type():
                                ok = False
                                break
                            args.append(self.type())
                        if self.eat(")"):
                            break
                        if not self.eat(","):
                            ok = False
                            break
            except SyntaxError:
                ok = False
            if ok:
                return Ty("func", elems=[t] + args)
            self.i = save
        return t

    def _struct(self, close, packed):
        es = []
        if not self.eat(close):
            while True:
                es.append(self.type())
                if self.eat(close):
                    break
                self.expect(",")
        return Ty("struct", elems=es, packed=packed)

    def attrs(self):
        sret = None
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.next()
            elif k == "word" and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == "(":
                    d = 0
                    while True:
                        t = self.next()[1]
                        d += t == "("
                        d -= t == ")"
                        if d == 0:
                            break
                elif v == "align":
                    self.next()
            elif k == "attr":
                self.next()
            elif k == "q" and v[0] == '"':
                self.next()
                if self.eat("="):
                    self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k in ("id", "q") and v[0] == "%":
            return Val("local", unq(v[1:]), ty)
        if k in ("id", "q") and v[0] == "@":
            return Val("global", unq(v[1:]), ty)
        if k == "num":
            if ty.k == "int":
                return Val("int", int(v), ty)
            return Val("fp", v, ty)
        if k == "q" and v.startswith('c"'):
            return Val("cstr", unesc(v[2:-1]), ty)
        if k == "word":
            if v in ("true", "false"):
                return Val("int", int(v == "true"), ty)
            if v == "null":
                return Val("null", None, ty)
            if v in ("undef", "poison"):
                return Val("undef", None, ty)
            if v == "zeroinitializer":
                return Val("zero", None, ty)
            if v == "none":
                return Val("null", None, ty)
            if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "add", "sub", "mul",
                     "and", "or", "xor", "shl", "lshr", "ashr", "select", "icmp", "addrspacecast"):
                return self.constexpr(v, ty)
            if v == "asm":
                while self.peek()[1] != "(":
                    self.next()
                return Val("asm", None, ty)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.value(ty)
        if k == "meta":
            # metadata operand; swallow a following {...} or name
            if self.peek()[1] == "{":
                d = 0
                while True:
                    t = self.next()[1]
                    d += t == "{"
                    d -= t == "}"
                    if d == 0:
                        break
            elif self.peek()[1] == "(":
                d = 0
                while True:
                    t = self.next()[1]
                    d += t == "("
                    d -= t == ")"
                    if d == 0:
                        break
            return Val("meta", v, ty)
        if v == "[" or v == "{" or v == "<":
            close = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next()
                packed = True
                close = "}"
            es = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    es.append(self.value(t))
                    if self.eat(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return Val("agg", es, ty)
        raise SyntaxError("value %r %r in %r" % (k, v, self.t[max(0, self.i - 8):self.i + 5]))

    def constexpr(self, op, ty):
        while self.peek()[1] in ("inbounds", "nuw", "nsw", "exact", "inrange"):
            self.next()
            if self.peek()[1] == "(" and self.t[self.i - 1][1] == "inrange":
                while self.next()[1] != ")":
                    pass
        pred = None
        if op == "icmp":
            pred = self.next()[1]
        self.expect("(")
        if op == "getelementptr":
            st = self.type()
            self.expect(",")
            args = []
            while True:
                self.eat("inrange")
                t = self.type()
                args.append(self.value(t))
                if self.eat(")"):
                    break
                self.expect(",")
            return Val("expr", ("gep", st, args), ty)
        t = self.type()
        a = self.value(t)
        if self.eat("to"):
            t2 = self.type()
            self.expect(")")
            return Val("expr", (op, a, t2), ty)
        args = [a]
        while self.eat(","):
            t = self.type()
            args.append(self.value(t))
        self.expect(")")
        return Val("expr", (op, args, pred), ty)

    def tval(self):
        t = self.type()
        self.attrs()
        return self.value(t)


def unq(s):
    if s.startswith('"'):
        return unesc(s[1:-1]).decode("latin1")
    return s


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf8")
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []  # (ty, name)
        self.ret = None
        self.vararg = False
        self.blocks = {}
        self.order = []
        self.mod = None
        self.loops = None


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.structs = {}
        self.fdefs = {}      # name -> (start,end) lines
        self.fdecl = {}
        self.globals = {}    # name -> line text
        self._gparsed = {}
        self._fparsed = {}
        self.locs = {}
        self.files = {}
        self.lines = text.split("\n")
        L = self.lines
        i, n = 0, len(L)
        rx_name = re.compile(r'@("(?:[^"\\]|\\.)*"|[\w.$\-]+)\(')
        while i < n:
            l = L[i]
            if l.startswith("define "):
                m = rx_name.search(l)
                nm = unq(m.group(1))
                j = i
                while L[j] != "}":
                    j += 1
                self.fdefs[nm] = (i, j)
                i = j
            elif l.startswith("declare "):
                m = rx_name.search(l)
                self.fdecl[unq(m.group(1))] = l
            elif l.startswith("@"):
                nm, rest = l.split(" = ", 1)
                self.globals[unq(nm[1:])] = rest
            elif l.startswith("%") and " = type " in l:
                nm, rest = l.split(" = type ", 1)
                self.structs[unq(nm[1:])] = rest
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
                if m:
                    self.locs[m.group(1)] = int(m.group(2))
            i += 1
        self._st = {}

    def struct(self, name):
        if name not in self._st:
            p = P(self, tokenize(self.structs[name]))
            self._st[name] = p.type()
        return self._st[name]

    def resolve(self, ty):
        return self.struct(ty.name) if ty.k == "named" else ty

    # layout ------------------------------------------------------
    def size_align(self, ty):
        if ty._sz:
            return ty._sz
        k = ty.k
        if k == "int":
            n = (ty.n + 7) // 8
            s = 1
            while s < n:
                s *= 2
            r = (s, min(s, 16))
        elif k == "ptr":
            r = (8, 8)
        elif k == "float":
            r = (4, 4)
        elif k == "double":
            r = (8, 8)
        elif k == "x86_fp80":
            r = (16, 16)
        elif k == "array":
            s, a = self.size_align(ty.elems[0])
            r = (s * ty.n, a)
        elif k == "vector":
            s, a = self.size_align(ty.elems[0])
            r = (s * ty.n, s * ty.n)
        elif k == "named":
            r = self.size_align(self.struct(ty.name))
        elif k == "struct":
            off, al = 0, 1
            for e in ty.elems:
                s, a = self.size_align(e)
                if ty.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            raise NotImplementedError("size of %r" % ty)
        ty._sz = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        if ty.k == "array" or ty.k == "vector":
            return self.sizeof(ty.elems[0]) * idx, ty.elems[0]
        off = 0
        for j, e in enumerate(ty.elems):
            s, a = self.size_align(e)
            if ty.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, e
            off += s
        raise IndexError

    # functions -----------------------------------------------------
    def func(self, name):
        if name in self._fparsed:
            return self._fparsed[name]
        s, e = self.fdefs[name]
        f = self._parse_func(name, self.lines[s], self.lines[s + 1:e])
        f.mod = self
        self._fparsed[name] = f
        return f

    def decl_type(self, name):
        """(ret, params) from declare/define line"""
        if name in self.fdefs:
            f = self.func(name)
            return f.ret, [t for t, _ in f.params]
        l = self.fdecl[name]
        f = Func(name)
        self._parse_head(f, l)
        return f.ret, [t for t, _ in f.params]

    LINKAGE = set('''define declare dso_local linkonce_odr linkonce internal private weak weak_odr available_externally external hidden
        protected default unnamed_addr local_unnamed_addr comdat dllimport common'''.split())

    def _parse_head(self, f, head):
        p = P(self, tokenize(head))
        while True:
            k, v = p.peek()
            if k == "word" and (v in self.LINKAGE or v in CC):
                p.next()
            elif k == "word" and v in PARAM_ATTRS | PARAM_ATTRS_ARG and not p.is_type():
                p.attrs()
            else:
                break
        f.ret = p.type()
        p.attrs()
        k, v = p.next()
        assert v[0] == "@", head
        p.expect("(")
        n = 0
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    f.vararg = True
                else:
                    t = p.type()
                    p.attrs()
                    k, v = p.peek()
                    if k in ("id", "q") and v[0] == "%":
                        p.next()
                        nm = unq(v[1:])
                    else:
                        nm = str(n)
                    n += 1
                    f.params.append((t, nm))
                if p.eat(")"):
                    break
                p.expect(",")
        return n

    def _parse_func(self, name, head, body):
        f = Func(name)
        n = self._parse_head(f, head)
        cur = None
        # join multi-line instructions (switch, landingpad clauses, invoke 'to label')
        joined = []
        acc = None
        for l in body:
            st = l.strip()
            if not st or st.startswith(";"):
                continue
            if acc is not None:
                acc += " " + st
                if acc_kind == "switch":
                    if st.startswith("]"):
                        joined.append(acc)
                        acc = None
                else:
                    joined.append(acc)
                    acc = None
                continue
            if l.startswith("  ") and (st.startswith("switch ") and not st.rstrip().endswith("]") and "]" not in re.sub(r", !dbg.*", "", st)):
                acc, acc_kind = st, "switch"
                continue
            if re.match(r"(%[\w.$\-]+ = |%\"[^\"]*\" = )?invoke ", st) and " unwind label " not in st:
                acc, acc_kind = st, "invoke"
                continue
            if re.match(r"(cleanup$|cleanup\s*,|catch |filter )", st) and joined:
                joined[-1] += " " + st
                continue
            joined.append(st)
        first = True
        for st in joined:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$\-]+):', st)
            if m:
                cur = unq(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
            if first:
                cur = str(n)
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
            ins = self._parse_ins(st)
            if ins is not None:
                ins.idx = len(f.blocks[cur])
                f.blocks[cur].append(ins)
        return f

    def _parse_ins(self, st):
        p = P(self, tokenize(st))
        dst = None
        if p.peek()[0] in ("id", "q") and p.peek(1)[1] == "=":
            dst = unq(p.next()[1][1:])
            p.next()
        dbg = None
        m = re.search(r"!dbg !(\d+)", st)
        if m:
            dbg = self.locs.get(m.group(1))
        k, op = p.next()
        ins = self._ins(op, p, dst)
        if ins:
            ins.dst = dst
            ins.dbg = dbg
        return ins

    def _ins(self, op, p, dst):
        while op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = set()
            while p.peek()[1] in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                flags.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, ty=t, a=[a, b], x=flags)
        if op == "fneg":
            t = p.type()
            return Ins(op, ty=t, a=[p.value(t)])
        if op in ("icmp", "fcmp"):
            while p.peek()[1] in ("fast", "nnan", "ninf", "nsz", "samesign"):
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, ty=t, a=[a, b], x=pred)
        if op == "alloca":
            p.eat("inalloca")
            t = p.type()
            cnt = None
            if p.eat(","):
                if p.is_type():
                    cnt = p.tval()
            return Ins(op, ty=t, a=[cnt] if cnt else [])
        if op == "load":
            at = p.eat("atomic")
            p.eat("volatile")
            t = p.type()
            p.expect(",")
            a = p.tval()
            return Ins(op, ty=t, a=[a])
        if op == "store":
            p.eat("atomic")
            p.eat("volatile")
            v = p.tval()
            p.expect(",")
            a = p.tval()
            return Ins(op, ty=v.ty, a=[v, a])
        if op == "getelementptr":
            while p.peek()[1] in ("inbounds", "nuw", "nusw"):
                p.next()
            t = p.type()
            args = []
            while p.eat(","):
                if p.peek()[0] == "meta":
                    break
                args.append(p.tval())
            return Ins("gep", ty=t, a=args)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"):
            while p.peek()[1] in ("nneg", "nuw", "nsw"):
                p.next()
            v = p.tval()
            p.expect("to")
            t = p.type()
            return Ins(op, ty=t, a=[v])
        if op == "freeze":
            v = p.tval()
            return Ins(op, ty=v.ty, a=[v])
        if op == "select":
            c = p.tval()
            p.expect(",")
            a = p.tval()
            p.expect(",")
            b = p.tval()
            return Ins(op, ty=a.ty, a=[c, a, b])
        if op == "phi":
            while p.peek()[1] in ("fast",):
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = unq(p.next()[1][1:])
                p.expect("]")
                inc.append((v, b))
                if not p.eat(","):
                    break
                if p.peek()[0] == "meta":
                    break
            return Ins(op, ty=t, x=inc)
        if op == "br":
            if p.peek()[1] == "label":
                p.next()
                return Ins("br", x=[unq(p.next()[1][1:])])
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = unq(p.next()[1][1:])
            p.expect(",")
            p.expect("label")
            b = unq(p.next()[1][1:])
            return Ins("br", a=[c], x=[a, b])
        if op == "switch":
            v = p.tval()
            p.expect(",")
            p.expect("label")
            d = unq(p.next()[1][1:])
            p.expect("[")
            cases = []
            while not p.eat("]"):
                c = p.tval()
                p.expect(",")
                p.expect("label")
                cases.append((c, unq(p.next()[1][1:])))
            return Ins("switch", a=[v], x=(d, cases))
        if op == "ret":
            if p.peek()[1] == "void":
                return Ins("ret")
            return Ins("ret", a=[p.tval()])
        if op == "unreachable":
            return Ins(op)
        if op in ("call", "invoke"):
            while p.peek()[1] in CC or p.peek()[1] in ("fast", "nnan", "ninf", "nsz"):
                p.next()
            p.attrs()
            t = p.type()
            va = False
            if t.k == "func":
                rt = t.elems[0]
            else:
                rt = t
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.eat(")"):
                while True:
                    at = p.type()
                    p.attrs()
                    args.append(p.value(at))
                    if p.eat(")"):
                        break
                    p.expect(",")
            ins = Ins(op, ty=rt, a=args, x=[callee, None, None])
            if op == "invoke":
                while p.peek()[1] != "to":
                    p.next()
                p.next()
                p.expect("label")
                ins.x[1] = unq(p.next()[1][1:])
                p.expect("unwind")
                p.expect("label")
                ins.x[2] = unq(p.next()[1][1:])
            return ins
        if op == "landingpad":
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek()[0] != "eof" and p.peek()[1] != ",":
                w = p.next()[1]
                if w == "cleanup":
                    cleanup = True
                elif w in ("catch", "filter"):
                    clauses.append((w, p.tval()))
                else:
                    break
                if p.peek()[1] == "," :
                    # a !dbg suffix may precede further clauses after joining lines
                    if p.peek(1)[0] == "meta":
                        p.i += 3
            # clauses can also follow the !dbg suffix
            while p.peek()[0] != "eof":
                w = p.next()
                if w[1] == "cleanup":
                    cleanup = True
                elif w[1] in ("catch", "filter"):
                    clauses.append((w[1], p.tval()))
            return Ins(op, ty=t, x=(cleanup, clauses))
        if op == "resume":
            return Ins(op, a=[p.tval()])
        if op == "extractvalue":
            v = p.tval()
            idx = []
            while p.eat(","):
                if p.peek()[0] != "num":
                    break
                idx.append(int(p.next()[1]))
            return Ins(op, a=[v], x=idx)
        if op == "insertvalue":
            v = p.tval()
            p.expect(",")
            e = p.tval()
            idx = []
            while p.eat(","):
                if p.peek()[0] != "num":
                    break
                idx.append(int(p.next()[1]))
            return Ins(op, ty=v.ty, a=[v, e], x=idx)
        if op in ("atomicrmw",):
            p.eat("volatile")
            kind = p.next()[1]
            a = p.tval()
            p.expect(",")
            v = p.tval()
            return Ins(op, ty=v.ty, a=[a, v], x=kind)
        if op == "cmpxchg":
            p.eat("weak")
            p.eat("volatile")
            a = p.tval()
            p.expect(",")
            c = p.tval()
            p.expect(",")
            v = p.tval()
            return Ins(op, ty=Ty("struct", elems=[c.ty, IntTy(1)]), a=[a, c, v])
        if op == "fence":
            return None
        return Ins("unsupported", x=op)

    def global_info(self, name):
        """(is_const, type, init Val or None, thread_local)"""
        if name in self._gparsed:
            return self._gparsed[name]
        rest = self.globals[name]
        p = P(self, tokenize(rest))
        const = ext = tl = False
        kind = None
        while True:
            k, v = p.peek()
            if v in ("global", "constant", "alias"):
                p.next()
                kind = v
                break
            if v == "external" or v == "extern_weak":
                ext = True
            if v == "thread_local":
                tl = True
            p.next()
        t = p.type()
        init = None
        if kind == "alias":
            p.expect(",")
            init = p.tval()
        elif not ext:
            init = p.value(t)
        r = (kind == "constant", t, init, tl, kind)
        self._gparsed[name] = r
        return r
