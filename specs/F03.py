"""F03: lookup in fielded buffers"""
from specs.fmlcore import *

RULES = [LEAF + [(WHERE, h_where)], [(OCCUR, h_occur)]]


def opt(ex, st, w, tag):
    """an optional output argument: null, or a cell with any contents"""
    s2 = st.fork()
    r = Region(tag, w)
    v = iv(tag + "0", 8 * w)
    s2.wr(r, 0, w, v)
    return [(st, NULL, None), (s2, Ptr(r), v)]


def nothing_else(ex, st, s0, r):
    unchanged(ex, st, s0, r, "the buffer is not changed")


def exact(ex, st, p, r, off, name="the value of that occurrence is returned"):
    ex.assert_(st, z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r is r), p.off == off), name)


def lookup(ctx, fn, params, post, rules=RULES, pre=None):
    """fn(buffer, fieldid, params...): argument checks, then the lookup"""
    ex = ctx.exec(fn, rules=rules)
    ex.quick_timeout = 15000

    def setup(ex, st):
        r, fb = buffer(st)
        f, oc = iv("fieldid"), iv("oc")
        out = [(st, [Ptr(r), f], {"f": f, "oc": oc, "r": r, "fb": fb})]
        for p in params:
            nxt = []
            for s, a, i in out:
                if p == "oc":
                    nxt.append((s, a + [oc], i))
                elif p.startswith("?"):
                    for s2, ptr, v in opt(ex, s, 4, p[1:]):
                        nxt.append((s2, a + [ptr], dict(i, **{p[1:]: (ptr, v)})))
            out = nxt
        if pre:
            out = [x for y in out for x in pre(ex, *y)]
        return [(s, a, dict(i, s0=s.fork())) for s, a, i in out]

    def check(ex, kind, st, ret, i):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        nothing_else(ex, st, i["s0"], i["r"])
        f, fb = i["f"], i["fb"]
        bad = z3.Not(validty(ty(f)))
        for c, e, n in ((bad, FTYPERR, "an id of an unknown type is refused with FTYPERR"), (f == 0, FBADFLD, "id 0 is refused with FBADFLD")):
            s = st.fork()
            s.assume(c)
            if s.feasible():
                failed(ex, s, ret, e, n)
        st.assume(z3.Not(bad))
        st.assume(f != 0)
        if st.feasible():
            st.assume(fb.f_pos(f, i["oc"]))
            post(ex, st, ret, i)
    verify(ctx, ex, fn, setup, check)


def failed(ex, st, ret, code, name):
    ex.assert_(st, z3.BoolVal(ret.isnull()) if isinstance(ret, Ptr) else ret == bv(-1, ret.size()), name)
    if code is not None:
        ex.assert_(st, ferr(ex, st) == code, name)


def split(st, c):
    a, b = st, st.fork()
    a.assume(c)
    b.assume(z3.Not(c))
    return [(s, v) for s, v in ((a, True), (b, False)) if s.feasible()]


def here(fb, f, oc):
    return z3.ULT(oc, fb.CNT(f))


def run_present(ctx):
    def post(ex, st, ret, i):
        fb, f, oc = i["fb"], i["f"], i["oc"]
        ex.assert_(st, ret == z3.If(here(fb, f, oc), bv(1, 32), bv(0, 32)), "Fpres32 is true exactly for the occurrences the field has")
    lookup(ctx, "Fpres32", ["oc"], post)

    def post(ex, st, ret, i):
        fb, f, oc = i["fb"], i["f"], i["oc"]
        for s, c in split(st, here(fb, f, oc)):
            if c:
                ex.assert_(s, ret == fb.vlen(fb.POS(f, oc)), "Flen32 gives the length of that occurrence")
            else:
                failed(ex, s, ret, FNOTPRES, "an absent occurrence is reported with FNOTPRES")
    lookup(ctx, "Flen32", ["oc"], post)

    def post(ex, st, ret, i):
        ex.assert_(st, ret == i["fb"].CNT(i["f"]), "Foccur32 counts the occurrences")
    lookup(ctx, "Foccur32", [], post)


def outlen(ex, st, i, what, v, name):
    p, old = i[what]
    if old is not None:
        ex.assert_(st, st.rd(p.r, 0, 4) == v, name)


def run_find(ctx):
    def post(ex, st, ret, i):
        fb, f, oc = i["fb"], i["f"], i["oc"]
        for s, c in split(st, here(fb, f, oc)):
            if c:
                p = fb.POS(f, oc)
                exact(ex, s, ret, i["r"], D + p + hdr(ty(f)))
                outlen(ex, s, i, "len", z3.Extract(31, 0, fb.vlen(p)), "with its length")
            else:
                failed(ex, s, ret, FNOTPRES, "an absent occurrence is reported with FNOTPRES")
    lookup(ctx, "Ffind32", ["oc", "?len"], post)


def run_findlast(ctx):
    def post(ex, st, ret, i):
        fb, f = i["fb"], i["f"]
        n = fb.CNT(f)
        st.assume(fb.f_pos(f, n - 1))
        for s, c in split(st, n != 0):
            if c:
                p = fb.POS(f, n - 1)
                exact(ex, s, ret, i["r"], D + p + hdr(ty(f)), "the value of the last occurrence is returned")
                outlen(ex, s, i, "len", z3.Extract(31, 0, fb.vlen(p)), "with its length")
                outlen(ex, s, i, "occ", n - 1, "with its number")
            else:
                failed(ex, s, ret, FNOTPRES, "a field without occurrences is reported with FNOTPRES")
    lookup(ctx, "Ffindlast32", ["?occ", "?len"], post)


def bytes_of(ex, st, dst, fb, p, n, name, lo=0):
    b = fresh("byte", 64)
    h = hdr(fb.ty(p))
    ex.assert_(st, z3.Implies(z3.And(z3.UGE(b, lo), z3.ULT(b, n)), st.rd(dst.r, simp(dst.off + b), 1) == fb.s.rd(fb.r, simp(D + p + h + b), 1)), name)


def run_get(ctx):
    def pre(ex, st, a, i):
        fb, f, oc = i["fb"], i["f"], i["oc"]
        p = fb.POS(f, oc)
        st.assume(fb.f_pos(f, oc))
        cap = fresh("room", 64)
        L = Region("loc", cap)
        need = zx64(i["maxlen"][1]) if i["maxlen"][1] is not None else fb.vlen(p)
        st.assume(z3.Or(z3.Not(here(fb, f, oc)), z3.UGE(cap, need)))
        st.assume(z3.ULE(cap, 2 ** 40))
        s2 = st.fork()
        return [(st, a[:3] + [Ptr(L)] + a[3:], dict(i, loc=Ptr(L))), (s2, a[:3] + [NULL] + a[3:], dict(i, loc=NULL))]

    def post(ex, st, ret, i):
        fb, f, oc, mx = i["fb"], i["f"], i["oc"], i["maxlen"][1]
        for s, c in split(st, here(fb, f, oc)):
            if not c:
                failed(ex, s, ret, FNOTPRES, "an absent occurrence is reported with FNOTPRES")
                continue
            p = fb.POS(f, oc)
            n = fb.vlen(p)
            outlen(ex, s, i, "maxlen", z3.Extract(31, 0, n), "the length of the value is stored")
            for s, small in split(s, z3.ULT(zx64(mx), n) if mx is not None else z3.BoolVal(False)):
                if small:
                    failed(ex, s, ret, FNOSPACE, "a value longer than the room for it is refused with FNOSPACE")
                    if not i["loc"].isnull():
                        unchanged(ex, s, i["s0"], i["loc"].r, "and not copied")
                else:
                    ex.assert_(s, ret == 0, "an existing occurrence is returned")
                    if not i["loc"].isnull():
                        for s, fml in split(s, ty(f) == 10):
                            bytes_of(ex, s, i["loc"], fb, p, n, "the bytes of the value are copied", 4 if fml else 0)
    lookup(ctx, "Fget32", ["oc", "?maxlen"], post, pre=pre)


def run_getalloc(ctx):
    def post(ex, st, ret, i):
        fb, f, oc, xl = i["fb"], i["f"], i["oc"], i["extra"][1]
        for s, c in split(st, here(fb, f, oc)):
            if not c:
                failed(ex, s, ret, FNOTPRES, "an absent occurrence is reported with FNOTPRES")
                continue
            p = fb.POS(f, oc)
            n = fb.vlen(p)
            if ret.isnull():
                failed(ex, s, ret, 9, "a failed allocation is reported with FMALLOC")
                continue
            outlen(ex, s, i, "extra", z3.Extract(31, 0, n), "the length of the value is stored")
            ex.assert_(s, z3.And(z3.BoolVal(not ret.isnull() and ret.r is not i["r"]), ret.off == 0), "memory of its own is returned")
            ex.assert_(s, ret.r.size == n + (zx64(xl) if xl is not None else 0), "as long as the value and the extra length")
            bytes_of(ex, s, ret, fb, p, n, "it starts with the bytes of the value")
    lookup(ctx, "Fgetalloc32", ["oc", "?extra"], post)


def run_next(ctx, ycls):
    ex = ctx.exec("Fnext32", rules=RULES)

    def setup(ex, st):
        out = []
        for first, cls, sz in ((True, None, None), (False, cls8, lambda fb, x: 8), (False, cls16, lambda fb, x: 16), (False, clsn, lambda fb, x: bv(8) + r8(fb.fl(x)))):
            for nl in (True, False):
                for nv in (True, False):
                    s = st.fork()
                    r, fb = buffer(s, only=())
                    f, oc, ml, cap = iv("fieldid"), iv("oc"), iv("len"), fresh("room", 64)
                    F, O, L, V = Region("fieldid", 4), Region("occ", 4), Region("len", 4), Region("value", cap)
                    if first:
                        s.assume(f == 0)
                        y = bv(0)
                    else:
                        x = fb.POS(f, oc)
                        s.assume([here(fb, f, oc), fb.f_pos(f, oc), fb.Bw(x) == fb.B(x)])
                        fb.at(s, x)
                        s.assume([f != 0, cls(ty(f)), f == fb.id(x)])
                        y = fresh("y", 64)
                        s.assume(y == simp(x + sz(fb, x)))
                    fb.at(s, y)
                    s.assume(fb.f_prev(y))
                    if ycls is None:
                        s.assume(y == fb.ln)
                    else:
                        s.assume([z3.ULT(y, fb.ln), ycls(fb.ty(y))])
                    if not s.feasible():
                        continue
                    s.wr(F, 0, 4, f)
                    s.wr(O, 0, 4, oc)
                    s.wr(L, 0, 4, ml)
                    s.assume(z3.ULE(cap, 2 ** 40))
                    s.assume(z3.UGE(cap, fb.vlen(y) if nl else zx64(ml)))
                    out.append((s, [Ptr(r), Ptr(F), Ptr(O), NULL if nv else Ptr(V), NULL if nl else Ptr(L)],
                                dict(r=r, fb=fb, f=f, oc=oc, y=y, F=F, O=O, L=L, V=V, ml=ml, nl=nl, nv=nv, s0=s.fork())))
        return out

    def post(ex, kind, st, ret, i):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        nothing_else(ex, st, i["s0"], i["r"])
        fb, y = i["fb"], i["y"]
        for s, c in split(st, z3.ULT(y, fb.ln)):
            if not c:
                ex.assert_(s, ret == 0, "0 after the last field")
                continue
            fb.at(s, y)
            s.assume(fb.f_prev(y))
            ex.assert_(s, z3.And(s.rd(i["F"], 0, 4) == fb.id(y), s.rd(i["O"], 0, 4) == fb.R(y)), "id and occurrence number of the field after the given one")
            n = fb.vlen(y)
            if not i["nl"]:
                ex.assert_(s, s.rd(i["L"], 0, 4) == z3.Extract(31, 0, n), "with its length")
            for s, small in split(s, z3.BoolVal(False) if i["nl"] else z3.ULT(zx64(i["ml"]), n)):
                if small:
                    failed(ex, s, ret, FNOSPACE, "a value longer than the room for it is refused with FNOSPACE")
                    unchanged(ex, s, i["s0"], i["V"], "and not copied")
                else:
                    ex.assert_(s, ret == 1, "1 while there is a field")
                    if not i["nv"]:
                        bytes_of(ex, s, Ptr(i["V"]), fb, y, n, "the bytes of the value are copied")
    verify(ctx, ex, "Fnext32", setup, post)


def run_next_args(ctx):
    ex = ctx.exec("Fnext32 [no place for the id]", rules=RULES)

    def setup(ex, st):
        out = []
        for a in (0, 1):
            s = st.fork()
            r, fb = buffer(s)
            c = Region("cell", 4)
            s.wr(c, 0, 4, iv("c"))
            out.append((s, [Ptr(r), NULL if a else Ptr(c), Ptr(c) if a else NULL, NULL, NULL], (r, s.fork())))
        return out

    def post(ex, kind, st, ret, i):
        failed(ex, st, ret, FEINVAL, "refused with FEINVAL")
        nothing_else(ex, st, i[1], i[0])
    verify(ctx, ex, "Fnext32", setup, post, name="Fnext32 [no place for the id]")


UNITS = CORE + [Unit("Fpres32, Flen32, Foccur32", ["fml32"], run_present), Unit("Ffind32", ["fml32"], run_find), Unit("Ffindlast32", ["fml32"], run_findlast),
                Unit("Fget32", ["fml32"], run_get), Unit("Fgetalloc32", ["fml32"], run_getalloc), Unit("Fnext32 arguments", ["fml32"], run_next_args)] + [
    Unit("Fnext32 %s" % n, ["fml32"], lambda ctx, c=c: run_next(ctx, c)) for n, c in (("end", None), ("8", cls8), ("16", cls16), ("n", clsn))]
replay = driver("fml.cpp")
