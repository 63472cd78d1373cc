"""F01: field identifier algebra"""
from engine.api import *
from engine.lib import *
from specs.common import *

TYPES = [0, 1, 2, 3, 4, 5, 6, 10]


def ferr(ex, st):
    outs = ex.call(st.fork(), ex.p.mangled("_tls_Ferror32"), [])
    (k, s, p), = outs
    return s.rd(p.r, p.off, 4)


def run_mk(ctx):
    ex = ctx.exec("Fmkfldid32")

    def setup2(ex, st):
        t, n = iv("type"), iv("num")
        return [(st, [t, n], (t, n))]

    def post(ex, kind, st, ret, info):
        t, n = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        validt = z3.Or(*[t == k for k in TYPES])
        validn = z3.And(z3.UGE(n, 1), z3.ULE(n, 0xffffff))
        ok = z3.And(validt, validn)
        e = ferr(ex, st)
        ex.assert_(st, z3.Implies(ok, ret == ((t << 24) | n)), "valid (type, number) gives the id combining both")
        ex.assert_(st, z3.Implies(ok, z3.And(z3.LShR(ret, 24) == t, ret & 0xffffff == n, ret != 0)), "the id decodes to the same type and number")
        ex.assert_(st, z3.Implies(z3.Not(ok), ret == bv(-1, 32)), "anything else is rejected")
        ex.assert_(st, z3.Implies(z3.Not(validt), e == FTYPERR), "bad type reports FTYPERR")
        ex.assert_(st, z3.Implies(z3.And(validt, z3.Not(validn)), e == FBADFLD), "bad number reports FBADFLD")
        ex.assert_(st, z3.Implies(ok, e == 0), "success leaves the error code clear")
    verify(ctx, ex, "Fmkfldid32", setup2, post)


def run_parts(ctx):
    ex = ctx.exec("Fldtype32")

    def setup(ex, st):
        f = iv("fieldid")
        return [(st, [f], f)]

    def post_t(ex, kind, st, ret, f):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        ex.assert_(st, ret == z3.LShR(f, 24), "type is the high byte")

    def post_n(ex, kind, st, ret, f):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        ex.assert_(st, ret == z3.ZeroExt(32, f & 0xffffff), "number is the low 24 bits")
    verify(ctx, ex, "Fldtype32", setup, post_t)
    ex = ctx.exec("Fldno32")
    verify(ctx, ex, "Fldno32", setup, post_n)


UNITS = [Unit("make", ["fml32"], run_mk), Unit("parts", ["fml32"], run_parts)]
replay = driver("F01.cpp")
