"""Fielded buffers: representation invariant and contracts of the functions every FML32 operation is built from.

A buffer is a region of 40 + size bytes.  Offsets p are relative to the data area.  A version of its contents carries
four ghost functions, tied to the bytes by the facts in `facts`:
  B(p)      a field starts at p (or p is the end of the used part)
  R(p)      number of fields with the same id before p: the occurrence number of the field at p
  CNT(f)    number of occurrences of field f
  POS(f,o)  where occurrence o of field f starts
"""
from engine.api import *
from engine.lib import *
from specs.common import *

D = 40
T = [0, 1, 2, 3, 4, 5, 6, 10]          # types in the order of their sections
BV32 = z3.BitVecSort(32)
_n = itertools.count()


def ty(f):
    return z3.Extract(31, 24, f)


def validty(t):
    return z3.Or(z3.ULE(t, 6), t == 10)


def cls8(t):
    return z3.Or(t == 0, t == 2, t == 3)


def cls16(t):
    return z3.Or(t == 1, t == 4)


def clsn(t):
    return z3.Or(t == 5, t == 6, t == 10)


def r8(x):
    return (x + 7) & bv(~7 & (2 ** 64 - 1))


def fieldsize(t, flen):
    """bytes taken by a field of type t with a value of flen bytes (64-bit)"""
    return z3.If(cls8(t), bv(8), z3.If(cls16(t), bv(16), bv(8) + r8(flen)))


def valuelen(t, flen):
    return z3.If(t == 0, bv(2), z3.If(t == 2, bv(1), z3.If(t == 3, bv(4), z3.If(cls16(t), bv(8), flen))))


def hdr(t):
    return z3.If(cls8(t), bv(4), bv(8))


class FB:
    """contents of a buffer at one moment"""

    def __init__(self, r, s, B, R, CNT, POS, uf=None):
        self.r, self.s, self.B, self.R, self.CNT, self.POS, self.uf = r, s, B, R, CNT, POS, uf
        w = lambda o: zx64(s.rd(r, o, 4))
        self.size, self.ln = w(0), w(4)
        # the same predicate under a second name: a conclusion that does not trigger further instances
        self.Bw = uf[4] if uf else B
        self.o = [w(8 + 4 * i) for i in range(7)]
        self.known = {}                 # positions of fields whose type is a constant

    def ss(self, t):
        v = bv(0)
        for i in range(1, 8):
            v = z3.If(t == T[i], self.o[i - 1], v)
        return v

    def se(self, t):
        v = self.ln
        for i in range(7):
            v = z3.If(t == T[i], self.o[i], v)
        return v

    def id(self, p):
        k = self.known.get(p.get_id())
        return k[1] if k else self.s.rd(self.r, simp(bv(D) + p), 4)

    def know(self, st, p, e):
        """the field at p has id e; in its facts the id is e itself"""
        st.assume(self.id(p) == e)
        self.known[p.get_id()] = (p, e)

    def fl(self, p):
        return zx64(self.s.rd(self.r, simp(bv(D + 4) + p), 4))

    def ty(self, p):
        return simp(ty(self.id(p)))

    def fsz(self, p):
        return fieldsize(self.ty(p), self.fl(p))

    def vlen(self, p):
        return valuelen(self.ty(p), self.fl(p))

    # ---- representation invariant
    def ground(self):
        c = [z3.ULE(self.ln, self.size), self.ln & 7 == 0]
        prev = bv(0)
        for x in self.o + [self.ln]:
            c += [z3.ULE(prev, x), x & 7 == 0, self.Bw(x)]
            prev = x
        c += [self.Bw(bv(0)), (self.o[1] - self.o[0]) & 15 == 0, (self.o[4] - self.o[3]) & 15 == 0]
        return c

    def f_field(self, p):
        t, i = self.ty(p), self.id(p)
        return z3.Implies(self.B(p), z3.And(z3.Implies(z3.ULT(p, self.ln), z3.And(
            validty(t), i != 0, z3.ULE(self.ss(t), p), self.bycls(p, lambda e: z3.And(z3.ULE(e, self.se(t)), self.Bw(e))), z3.ULT(self.R(p), self.CNT(i)), self.POS(i, self.R(p)) == p,
            z3.Implies(t == 10, z3.And(self.w(p + 8) == self.w(p + 12), self.fl(p) == bv(D) + self.w(p + 12)))))))

    def w(self, p):
        return zx64(self.s.rd(self.r, simp(bv(D) + p), 4))

    def f_str(self, p, i):
        """a string field holds one string: its last byte is the only null byte"""
        n = self.fl(p)
        c = self.s.rd(self.r, simp(bv(D + 8) + p + i), 1)
        return z3.Implies(z3.And(self.B(p), z3.ULT(p, self.ln), self.ty(p) == 5), z3.And(n != 0, z3.Implies(z3.ULT(i, n), (c == 0) == (i == n - 1))))

    def bycls(self, p, F):
        """F(end of the field at p), by storage class"""
        t = self.ty(p)
        return z3.And(z3.Implies(cls8(t), F(simp(p + 8))), z3.Implies(cls16(t), F(simp(p + 16))), z3.Implies(clsn(t), F(simp(p + bv(8) + r8(self.fl(p))))))

    def f_align(self, p):
        o = self.o
        return z3.Implies(self.B(p), z3.And(z3.ULE(p, self.ln), p & 7 == 0, z3.Implies(z3.And(z3.ULE(o[0], p), z3.ULT(p, o[1])), (p - o[0]) & 15 == 0),
                          z3.Implies(z3.And(z3.ULE(o[3], p), z3.ULT(p, o[4])), (p - o[3]) & 15 == 0)))

    def f_gap(self, p, q):
        return z3.Implies(z3.And(self.B(p), self.B(q), z3.ULT(p, q)), self.bycls(p, lambda e: z3.ULE(e, q)))

    def f_order(self, p, q):
        return z3.Implies(z3.And(self.B(p), self.B(q), z3.ULT(p, q), z3.ULT(q, self.ln)),
                          z3.And(z3.ULE(self.id(p), self.id(q)), z3.Implies(self.id(p) == self.id(q), z3.ULT(self.R(p), self.R(q)))))

    def f_rank(self, p):
        return z3.Implies(z3.And(self.B(p), z3.ULT(p, self.ln)),
                          self.bycls(p, lambda q: z3.Implies(z3.ULT(q, self.ln), self.R(q) == z3.If(self.id(q) == self.id(p), self.R(p) + 1, bv(0, 32)))))

    def f_pos(self, f, o):
        p = self.POS(f, o)
        return z3.Implies(z3.ULT(o, self.CNT(f)), z3.And(self.Bw(p), z3.ULT(p, self.ln), self.id(p) == f, self.R(p) == o))

    def f_fix(self, p):
        o = self.o
        s8 = z3.Or(z3.ULT(p, o[0]), z3.And(z3.ULE(o[1], p), z3.ULT(p, o[3])))
        s16 = z3.Or(z3.And(z3.ULE(o[0], p), z3.ULT(p, o[1]), (p - o[0]) & 15 == 0), z3.And(z3.ULE(o[3], p), z3.ULT(p, o[4]), (p - o[3]) & 15 == 0))
        return z3.Implies(z3.Or(z3.And(s8, p & 7 == 0), s16), self.B(p))

    # derived (unit "lemma"): the first occurrence has number 0, the ones before it are before it
    def f_prev(self, p):
        i = self.id(p)
        q = self.POS(i, self.R(p) - 1)
        return z3.Implies(z3.And(self.B(p), z3.ULT(p, self.ln), self.R(p) != 0), z3.And(self.Bw(q), z3.ULT(q, p), z3.ULE(self.ss(ty(i)), q), self.id(q) == i, self.R(q) == self.R(p) - 1))

    # derived: occurrence numbers are small
    def f_small(self, p):
        return z3.Implies(z3.And(self.B(p), z3.ULT(p, self.ln)), z3.And(z3.ULE(zx64(self.R(p)), z3.LShR(p, 3)), z3.ULE(self.R(p), bv(2 ** 29, 32))))

    # derived: the type of a field follows from the section it is in
    def f_type(self, p):
        c, lo = [], bv(0)
        for i, t in enumerate(T):
            hi = self.o[i] if i < 7 else self.ln
            c.append(z3.Implies(z3.And(z3.ULE(lo, p), z3.ULT(p, hi)), self.ty(p) == t))
            lo = hi
        c.append(self.bycls(p, lambda e: z3.And(z3.ULE(e, self.ln), z3.ULE(p + hdr(self.ty(p)) + self.vlen(p), e))))
        return z3.Implies(z3.And(self.B(p), z3.ULT(p, self.ln)), z3.And(*c))

    NAMES = [("align", 1), ("field", 1), ("gap", 2), ("order", 2), ("rank", 1), ("fix", 1), ("pos", 2)]

    def trig(self):
        b = [(self.uf[0].name(), 0)]
        return b

    def facts(self, derived=True, only=None):
        b = self.trig()
        ld = self.s.log(self.r).base.ld(4, bv(0)).decl().name()
        out = [Forall([BV64], self.f_align, [b], "align"), Forall([BV64], self.f_field, [b], "field"), Forall([BV64, BV64], self.f_gap, [b, b], "gap"), Forall([BV64, BV64], self.f_order, [b, b], "order"),
               Forall([BV64], self.f_rank, [b], "rank"), Forall([BV64], lambda a: self.f_fix(simp(a - D)), [[(ld, 0)]], "fix"),
               Forall([BV32, BV32], self.f_pos, [[(self.uf[3].name(), 0), (self.uf[2].name(), 0)], [(self.uf[3].name(), 1)]], "pos")]
        out.append(Forall([BV64], lambda p: self.B(p) == self.Bw(p), [b], "same"))
        if derived:
            out.append(Forall([BV64], self.f_prev, [b], "prev"))
            out.append(Forall([BV64], self.f_type, [b], "type"))
            out.append(Forall([BV64], self.f_small, [b], "small"))
        return [f for f in out if only is None or f.name in only]

    def at(self, st, *ps):
        """explicit instances of the facts about single positions"""
        for p in ps:
            st.assume(self.f_align(p))
            st.assume(self.f_field(p))
            st.assume(self.f_rank(p))
            st.assume(self.f_type(p))
            st.assume(self.f_small(p))
            st.assume(self.B(p) == self.Bw(p))


    def occ(self, st, f, o):
        """explicit instances about occurrence o of field f"""
        p = self.POS(f, o)
        st.assume(self.f_pos(f, o))
        st.assume(z3.Implies(z3.ULT(o, self.CNT(f)), self.B(p)))


def newfb(st, r, nm="v", only=None):
    """ghost functions for the present contents of r, assumed to be a well formed buffer"""
    k = next(_n)
    B = z3.Function("B%d_%s" % (k, nm), BV64, z3.BoolSort())
    R = z3.Function("R%d_%s" % (k, nm), BV64, BV32)
    CNT = z3.Function("CNT%d_%s" % (k, nm), BV32, BV32)
    POS = z3.Function("POS%d_%s" % (k, nm), BV32, BV32, BV64)
    s = st.fork()
    fb = FB(r, s, B, R, CNT, POS, (B, R, CNT, POS, z3.Function("Bw" + B.name(), BV64, z3.BoolSort())))
    st.assume(fb.ground())
    for f in fb.facts(only=only):
        st.assume(f)
    return fb


def buffer(st, nm="fbfr", only=None):
    """a well formed buffer of any size and contents"""
    size = fresh("size", 64)
    r = Region(nm, simp(bv(D) + size))
    st.assume(z3.ULE(size, bv(2 ** 32 - 1 - D)))
    st.assume(zx64(st.rd(r, 0, 4)) == size)
    fb = newfb(st, r, nm, only)
    fb.cap = size
    setfb(st, r, fb)
    return r, fb


def setfb(st, r, fb):
    st.ghost[("fb", r)] = fb


def cur(st, r):
    fb = st.ghost.get(("fb", r))
    if fb is None:
        raise EngineError("%s is not known to be a well formed buffer" % r)
    return fb


def unchanged(ex, st, s0, r, name, lo=None, hi=None):
    b = fresh("byte", 64)
    c = [z3.ULT(b, r.size)]
    if lo is not None:
        c.append(z3.UGE(b, lo))
    if hi is not None:
        c.append(z3.ULT(b, hi))
    if st.log(r) is s0.log(r):
        ex.assert_(st, z3.BoolVal(True), name)
        return
    ex.assert_(st, z3.Implies(z3.And(*c), st.rd(r, b, 1) == s0.rd(r, b, 1)), name)


def ferr(ex, st):
    (k, s, p), = ex.call(st.fork(), ex.p.mangled("_tls_Ferror32"), [])
    return s.rd(p.r, p.off, 4)


# ------------------------------------------------------------------ contracts of the leaf functions
def h_next(ex, st, args, ins):
    """next_: the field after a field, null after the last one"""
    th, p = args
    fb = cur(st, th.r)
    x = p.off - D
    ex.assert_(st, z3.And(z3.BoolVal(p.r is th.r), fb.B(x), z3.ULT(x, fb.ln)), "next_ is asked about a field", ins.dbg)
    y = fresh("next", 64)
    s2 = st.fork()
    for s in (st, s2):
        fb.at(s, x)
        s.assume(fb.bycls(x, lambda e: y == e))
        s.assume(fb.B(y))
    st.assume(z3.ULT(y, fb.ln))
    s2.assume(y == fb.ln)
    return [(st, Ptr(th.r, simp(y + D))), (s2, NULL)]


h_next.is_contract = True


def h_flength(ex, st, args, ins):
    th, p = args
    fb = cur(st, p.r)
    x = simp(p.off - D)
    ex.assert_(st, z3.And(fb.B(x), z3.ULT(x, fb.ln)), "flength is asked about a field", ins.dbg)
    fb.at(st, x)
    return simp(fb.vlen(x))


h_flength.is_contract = True


def h_fvalue(ex, st, args, ins):
    th, p = args
    fb = cur(st, p.r)
    x = simp(p.off - D)
    ex.assert_(st, z3.And(fb.B(x), z3.ULT(x, fb.ln)), "fvalue is asked about a field", ins.dbg)
    fb.at(st, x)
    y = simp(p.off + hdr(fb.ty(x)))
    st.assume(value_inside(fb, x, y))
    return Ptr(p.r, y)


def value_inside(fb, x, y):
    n = simp(fb.vlen(x))
    return z3.And(z3.ULE(n, fb.r.size), z3.ULE(y, simp(fb.r.size - n)))


h_fvalue.is_contract = True
NEXT, FLEN, FVAL = "Fbfr32::next_(fieldhead*)", "Fbfr32::flength(fieldhead*)", "Fbfr32::fvalue(fieldhead*)"
LEAF = [(NEXT, h_next), (FLEN, h_flength), (FVAL, h_fvalue)]


def run_leaf(ctx):
    for fn in (NEXT, FLEN, FVAL):
        ex = ctx.exec(fn)

        def setup(ex, st):
            r, fb = buffer(st)
            x = iv("x", 64)
            st.assume([fb.B(x), z3.ULT(x, fb.ln)])
            fb.at(st, x)
            return [(st, [Ptr(r), Ptr(r, simp(x + D))], (r, fb, x, st.fork()))]

        def post(ex, kind, st, ret, info, fn=fn):
            r, fb, x, s0 = info
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            if fn == NEXT:
                y = x + fb.fsz(x)
                if ret.r is r:
                    ex.assert_(st, z3.And(ret.off == D + y, z3.ULT(y, fb.ln), fb.B(y)), "the field after the given one is returned")
                else:
                    ex.assert_(st, y == fb.ln, "nothing is returned only after the last field")
            elif fn == FLEN:
                ex.assert_(st, ret == fb.vlen(x), "length of the value: by type, or the recorded length")
            else:
                ex.assert_(st, z3.And(z3.BoolVal(ret.r is r), ret.off == D + x + hdr(fb.ty(x))), "address of the value inside the field")
                ex.assert_(st, value_inside(fb, x, ret.off), "and the value is inside the buffer")
            unchanged(ex, st, s0, r, "the buffer is not changed")
        verify(ctx, ex, fn, setup, post)


def run_lemma(ctx):
    ex = ctx.exec("lemma: an occurrence other than the first has a predecessor")
    st = State()
    r = Region("fbfr", None)
    k = next(_n)
    B = z3.Function("B%d" % k, BV64, z3.BoolSort())
    R = z3.Function("R%d" % k, BV64, BV32)
    CNT = z3.Function("CNT%d" % k, BV32, BV32)
    POS = z3.Function("POS%d" % k, BV32, BV32, BV64)
    fb = FB(r, st.fork(), B, R, CNT, POS, (B, R, CNT, POS, z3.Function("Bw" + B.name(), BV64, z3.BoolSort())))
    st.assume(fb.ground())
    for f in fb.facts(derived=False):
        st.assume(f)
    p = iv("p", 64)
    q = POS(fb.id(p), R(p) - 1)
    st.assume(B(q) == fb.Bw(q))
    for t in T:
        s1 = st.fork()
        s1.assume(fb.ty(p) == t)
        ex.assert_(s1, fb.f_type(p), "a field of type %d is in the section of its type only" % t)
    ex.assert_(st, z3.Implies(z3.And(B(p), z3.ULT(p, fb.ln)), validty(fb.ty(p))), "every field has one of the types")
    # by induction on the occurrence number: a field has number 0, or its predecessor, 8 bytes before at least, has a smaller bound
    s1 = st.fork()
    q0 = POS(fb.id(p), R(p) - 1)
    s1.assume([B(q0) == fb.Bw(q0), B(p), z3.ULT(p, fb.ln), fb.f_prev(p)])
    s1.assume(z3.Implies(z3.And(fb.Bw(q0), z3.ULT(q0, p)), fb.f_small(q0)))
    ex.assert_(s1, fb.f_small(p), "at least 8 bytes for every earlier occurrence (induction on the occurrence number)")
    ex.assert_(st, fb.f_prev(p), "occurrence n > 0 has occurrence n - 1 before it")


# ------------------------------------------------------------------ lookup
def where_post(fb, f, oc, x):
    """x is the position of occurrence oc of field f, or the position where it has to be inserted"""
    t = ty(f)
    g = [fb.B(x), z3.ULE(fb.ss(t), x), z3.ULE(x, fb.se(t)),
         z3.Implies(z3.ULT(x, fb.se(t)), z3.Or(z3.UGT(fb.id(x), f), z3.And(fb.id(x) == f, fb.R(x) == oc)))]
    q = Forall([BV64], lambda q: z3.Implies(z3.And(fb.B(q), z3.ULT(q, x)), z3.And(z3.ULE(fb.id(q), f), z3.Implies(fb.id(q) == f, fb.R(q) != oc))), [fb.trig()], "before")
    return g, q


def absent_post(fb, f, x):
    """f has no such occurrence; x is where a new one belongs"""
    t = ty(f)
    g = [fb.B(x), z3.ULE(fb.ss(t), x), z3.ULE(x, fb.se(t)), z3.Implies(z3.ULT(x, fb.se(t)), z3.And(z3.UGT(fb.id(x), f), z3.ULT(x, fb.ln)))]
    q = Forall([BV64], lambda q: z3.Implies(z3.And(fb.B(q), z3.ULT(q, x)), z3.ULE(fb.id(q), f)), [fb.trig()], "before")
    return g, q


def h_where(ex, st, args, ins):
    """the occurrence, or where it belongs (null: at the end of its section)"""
    th, f, oc = args
    fb = cur(st, th.r)
    ex.assert_(st, validty(ty(f)), "where is asked about a valid field", ins.dbg)
    s1, s2 = st.fork(), st.fork()
    p = fb.POS(f, oc)
    c = z3.ULT(oc, fb.CNT(f))
    st.assume(c)
    fb.occ(st, f, oc)
    fb.at(st, p)
    st.assume(fb.f_prev(p))
    st.ghost[("where", th.r)] = p
    x = fresh("where", 64)
    g, q = absent_post(fb, f, x)
    for s in (s1, s2):
        s.assume(z3.Not(c))
        s.assume(g)
        s.assume(q)
        fb.at(s, x)
        s.ghost[("where", th.r)] = x
    s1.assume(z3.ULT(x, fb.se(ty(f))))
    s2.assume(x == fb.se(ty(f)))
    return [a for a in [(st, Ptr(th.r, simp(p + D))), (s1, Ptr(th.r, simp(x + D))), (s2, NULL)] if a[0].feasible()]


h_where.is_contract = True
WHERE = "Fbfr32::where(unsigned int, int)"
LB = {8: "field8b* std::lower_bound<field8b*, field8b>(field8b*, field8b*, field8b const&)", 16: "field16b* std::lower_bound<field16b*, field16b>(field16b*, field16b*, field16b const&)"}
WH = {8: "fieldhead* Fbfr32::where<field8b>(unsigned int, int, unsigned int, unsigned int)", 16: "fieldhead* Fbfr32::where<field16b>(unsigned int, int, unsigned int, unsigned int)",
      0: "Fbfr32::wheren(unsigned int, int, unsigned int, unsigned int)"}


def section_of(fb, k, f, a, b):
    t = ty(f)
    c = {8: cls8, 16: cls16, 0: clsn}[k](t)
    return z3.And(c, a == fb.ss(t), b == fb.se(t))


def lb_post(fb, f, a, b, y):
    return [fb.B(y), z3.ULE(a, y), z3.ULE(y, b)], Forall(
        [BV64], lambda q: z3.Implies(z3.And(z3.Or(fb.B(q), fb.Bw(q)), z3.ULE(a, q), z3.ULT(q, b)), z3.ULT(fb.id(q), f) == z3.ULT(q, y)), [fb.trig() + [(fb.uf[4].name(), 0)]], "lb")


def h_lb(k):
    def h(ex, st, args, ins):
        p, e, v = args
        fb = cur(st, p.r)
        f = st.rd(v.r, v.off, 4)
        a, b = simp(p.off - D), simp(e.off - D)
        ex.assert_(st, section_of(fb, k, f, a, b), "searched range is the section of the field's type", ins.dbg)
        y = fresh("lower_bound", 64)
        g, q = lb_post(fb, f, a, b, y)
        st.assume(g)
        st.assume(q)
        return Ptr(p.r, simp(y + D))
    h.is_contract = True
    return h


def h_wh(k):
    def h(ex, st, args, ins):
        th, f, oc, a, b = args
        fb = cur(st, th.r)
        ex.assert_(st, section_of(fb, k, f, zx64(a), zx64(b)), "searched range is the section of the field's type", ins.dbg)
        x = fresh("where", 64)
        g, q = where_post(fb, f, oc, x)
        t = ty(f)
        st.assume(g)
        st.assume(q)
        fb.at(st, x)
        s2 = st.fork()
        st.assume(z3.ULT(x, fb.se(t)))
        st.assume(z3.ULT(x, fb.ln))
        s2.assume(x == fb.se(t))
        return [(st, Ptr(th.r, simp(x + D))), (s2, NULL)]
    h.is_contract = True
    return h


KT = {8: [0, 2, 3], 16: [1, 4], 0: [5, 6, 10]}


def inreg(v, r):
    return isinstance(v, Ptr) and v.r is r


def run_lower_bound(ctx, k):
      for t in KT[k]:
        ex = ctx.exec(LB[k])
        ex.quick_timeout = 90000

        def setup(ex, st):
            r, fb = buffer(st, only=("align", "order", "fix", "same"))
            f = z3.Concat(bv(t, 8), iv("fieldno", 24))
            a, b = simp(fb.ss(ty(f))), simp(fb.se(ty(f)))
            V = Region("value", k)
            st.wr(V, 0, 4, f)

            def spec(ctx):
                P = [n for n, v in ctx.phis.items() if inreg(v, r)]
                N = [n for n, v in ctx.phis.items() if n != "#it" and not isinstance(v, Ptr)]
                cands = []
                for p in P:
                    y = lambda ph, p=p: ph[p].off - D
                    cands.append(Cand("field " + p, lambda st, ph, y=y: z3.And(z3.ULE(a, y(ph)), z3.ULE(y(ph), b), (y(ph) - a) & (k - 1) == 0, fb.B(y(ph)))))
                    cands.append(Cand("smaller before " + p, lambda st, ph, y=y: Forall([BV64], lambda q: z3.Implies(z3.And(fb.B(q), z3.ULE(a, q), z3.ULT(q, y(ph))), z3.ULT(fb.id(q), f)), [fb.trig()], "sm")))
                    for n in N:
                        e = lambda ph, n=n, y=y: y(ph) + bv(k) * ival(ph[n])
                        cands.append(Cand("range %s %s" % (p, n), lambda st, ph, e=e, n=n: z3.And(z3.ULE(ival(ph[n]), bv(2 ** 32)), z3.ULE(e(ph), b))))
                        cands.append(Cand("not smaller after %s+%s" % (p, n), lambda st, ph, e=e: Forall(
                            [BV64], lambda q: z3.Implies(z3.And(fb.B(q), z3.ULE(e(ph), q), z3.ULT(q, b)), z3.UGE(fb.id(q), f)), [fb.trig()], "ge")))
                return {"cands": cands, "variants": variant_cands(ctx, {"to": b})}
            ex.loop_spec = spec
            return [(st, [Ptr(r, simp(a + D)), Ptr(r, simp(b + D)), Ptr(V)], (r, fb, f, a, b, st.fork()))]

        def post(ex, kind, st, ret, info):
            r, fb, f, a, b, s0 = info
            ex.assert_(st, z3.BoolVal(kind == "ret" and ret.r is r), "returns normally")
            g, q = lb_post(fb, f, a, b, ret.off - D)
            for x in g:
                ex.assert_(st, x, "result is a field of the section or its end")
            ex.assert_(st, q, "exactly the fields before the result have smaller ids")
        verify(ctx, ex, LB[k], setup, post, name="%s [type %d]" % (LB[k], t))


def run_where(ctx, k, ts):
      for t in ts:
        ex = ctx.exec(WH[k], rules=[[(LB[8], h_lb(8)), (LB[16], h_lb(16))]])
        ex.quick_timeout = 90000

        def setup(ex, st):
            r, fb = buffer(st)
            f, oc = z3.Concat(bv(t, 8), iv("fieldno", 24)), iv("oc")
            A, E = simp(fb.ss(ty(f))), simp(fb.se(ty(f)))
            a, b = simp(z3.Extract(31, 0, A)), simp(z3.Extract(31, 0, E))

            def spec(ctx):
                P = [n for n, v in ctx.phis.items() if inreg(v, r)]
                N = [n for n, v in ctx.phis.items() if n != "#it" and z3.is_bv(v) and v.size() == 32]
                cands = []
                for p in P:
                    y = lambda ph, p=p: simp(ph[p].off - D)
                    cands.append(Cand("field " + p, lambda st, ph, y=y: z3.And(z3.ULE(A, y(ph)), z3.ULE(y(ph), E), fb.B(y(ph)))))
                    cands.append(Cand("passed " + p, lambda st, ph, y=y: Forall(
                        [BV64], lambda q: z3.Implies(z3.And(fb.B(q), z3.ULE(A, q), z3.ULT(q, y(ph))), z3.And(z3.ULE(fb.id(q), f), z3.Implies(fb.id(q) == f, fb.R(q) != oc))), [fb.trig()], "passed")))
                    for n in N:
                        cands.append(Cand("count %s %s" % (p, n), lambda st, ph, y=y, n=n: z3.Implies(z3.And(fb.B(y(ph)), z3.ULT(y(ph), E)), z3.And(
                            z3.Implies(fb.id(y(ph)) == f, ph[n] == fb.R(y(ph))), z3.Implies(z3.ULT(fb.id(y(ph)), f), ph[n] == 0)))))
                return {"cands": cands, "variants": [Cand("to-" + p, lambda st, ph, p=p: E - (ph[p].off - D)) for p in P]}
            ex.loop_spec = spec
            return [(st, [Ptr(r), f, oc, a, b], (r, fb, f, oc, st.fork()))]
        verify(ctx, ex, WH[k], setup, where_ensures, name="%s [type %d]" % (WH[k], t))


def run_where_all(ctx):
    ex = ctx.exec(WHERE, rules=[[(WH[k], h_wh(k)) for k in WH]])

    def setup2(ex, st):
        r, fb = buffer(st)
        f, oc = iv("fieldid"), iv("oc")
        st.assume(validty(ty(f)))
        return [(st, [Ptr(r), f, oc], (r, fb, f, oc, st.fork()))]
    verify(ctx, ex, WHERE, setup2, where_ensures)


def where_ensures(ex, kind, st, ret, info):
    r, fb, f, oc, s0 = info
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    x = fb.se(ty(f)) if ret.r is NULLR else ret.off - D
    g, q = where_post(fb, f, oc, x)
    for y in g:
        ex.assert_(st, y, "the occurrence, or the first field after where it belongs, is returned")
    ex.assert_(st, q, "every field before has a smaller id or is another occurrence")
    if ret.r is not NULLR:
        ex.assert_(st, z3.ULT(x, fb.se(ty(f))), "a returned field is in the section of its type")
    unchanged(ex, st, s0, r, "the buffer is not changed")


def run_where_lemma(ctx):
    """what `where` guarantees in terms of the fields that exist"""
    for k in KT:
        for t in KT[k]:
            ex = ctx.exec("lemma: the position found, type %d" % t)
            for found in (True, False):
                st = State()
                r, fb = buffer(st, only=("field", "gap", "order", "same", "type"))
                f, oc, x = z3.Concat(bv(t, 8), iv("fieldno", 24)), iv("oc"), fresh("x", 64)
                g, q = where_post(fb, f, oc, x)
                st.assume(g)
                st.assume(q)
                fb.occ(st, f, oc)
                if found:
                    st.assume(z3.ULT(oc, fb.CNT(f)))
                    ex.assert_(st, z3.And(x == fb.POS(f, oc), z3.ULT(x, fb.se(ty(f)))), "an existing occurrence is found")
                else:
                    st.assume(z3.UGE(oc, fb.CNT(f)))
                    g, q = absent_post(fb, f, x)
                    for y in g:
                        ex.assert_(st, y, "the position for a new occurrence is after all fields with the same or a smaller id")
                    ex.assert_(st, q, "the position for a new occurrence is after all fields with the same or a smaller id (all before)")


# ------------------------------------------------------------------ number of occurrences
OCCUR = "Fbfr32::occur(unsigned int)"
FNOSPACE, FNOTPRES, FBADFLD, FTYPERR, FEINVAL, FNOTFLD = 3, 4, 5, 6, 13, 2


def h_occur(ex, st, args, ins):
    th, f = args
    fb = cur(st, th.r)
    ex.assert_(st, validty(ty(f)), "occur is asked about a valid field", ins.dbg)
    n = fb.CNT(f)
    st.assume(z3.ULE(n, bv(2 ** 29, 32)))
    st.assume(fb.f_pos(f, bv(0, 32)))
    st.assume(fb.f_pos(f, n - 1))
    return n


h_occur.is_contract = True


def run_occur(ctx, t):
    ex = ctx.exec(OCCUR, rules=[LEAF + [(WHERE, h_where)]])
    ex.quick_timeout = 30000

    def setup(ex, st):
        r, fb = buffer(st, only=("field", "gap", "order", "rank", "same", "small"))
        f = z3.Concat(bv(t, 8), iv("fieldno", 24))
        fb.occ(st, f, bv(0, 32))
        fb.occ(st, f, fb.CNT(f) - 1)

        def spec(ctx):
            P = [n for n, v in ctx.phis.items() if isinstance(v, Ptr)]
            N = [n for n, v in ctx.phis.items() if n != "#it" and z3.is_bv(v) and v.size() == 32]
            cands = []
            for p in P:
                isn = lambda ph, p=p: ph[p].r is NULLR
                y = lambda ph, p=p: simp(ph[p].off - D)
                cands.append(Cand("field " + p, lambda st, ph, y=y, isn=isn: z3.BoolVal(True) if isn(ph) else z3.And(fb.B(y(ph)), z3.ULT(y(ph), fb.ln), z3.UGE(fb.id(y(ph)), f))))
                for n in N:
                    cands.append(Cand("count %s %s" % (p, n), lambda st, ph, n=n, y=y, isn=isn: ph[n] == fb.CNT(f) if isn(ph) else
                                      z3.If(fb.id(y(ph)) == f, ph[n] == fb.R(y(ph)), ph[n] == fb.CNT(f))))
                    cands.append(Cand("next %s %s" % (p, n), lambda st, ph, n=n, y=y, isn=isn: fb.f_pos(f, ph[n])))
            return {"cands": cands, "variants": [Cand("to-" + p, lambda st, ph, p=p: bv(0) if ph[p].r is NULLR else fb.ln - (ph[p].off - D)) for p in P]}
        ex.loop_spec = spec
        return [(st, [Ptr(r), f], (r, fb, f, st.fork()))]

    def post(ex, kind, st, ret, info):
        r, fb, f, s0 = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        ex.assert_(st, ret == fb.CNT(f), "the number of occurrences is returned")
        ex.assert_(st, z3.ULE(fb.CNT(f), bv(2 ** 29, 32)), "which is less than 2^29")
        unchanged(ex, st, s0, r, "the buffer is not changed")
    verify(ctx, ex, OCCUR, setup, post, name="%s [type %d]" % (OCCUR, t))


def core():
    u = [Unit("buffer: fields", ["fml32"], run_leaf), Unit("buffer: lemma", ["fml32"], run_lemma)]
    u += [Unit("buffer: lower_bound %d" % k, ["fml32"], lambda ctx, k=k: run_lower_bound(ctx, k)) for k in (8, 16)]
    u += [Unit("buffer: where type %d" % t, ["fml32"], lambda ctx, k=k, t=t: run_where(ctx, k, [t])) for k in KT for t in KT[k]]
    u += [Unit("buffer: occurrences type %d" % t, ["fml32"], lambda ctx, t=t: run_occur(ctx, t)) for t in T]
    return u + [Unit("buffer: where", ["fml32"], run_where_all), Unit("buffer: where lemma", ["fml32"], run_where_lemma)]


CORE = core()
