"""B01: typed buffers"""
from specs.memcore import *


def known(rd):
    return {k: name_is(rd, k) for k in least()}


def run_alloc(tnull, snull):
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tpalloc", rules=[w.rules()])
        w.hooks(ex)
        T, S, size = Region("type", None), Region("subtype", None), iv("size", 64)

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            return [(st, [NULL if tnull else Ptr(T), NULL if snull else Ptr(S), size], st.fork())]

        def post(ex, kind, st, ret, s0):
            err = st.ghost["tperrno"]
            heap = [r for r in (st.ghost.get("heap") or []) if r not in st.freed]
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            if tnull:
                ex.assert_(st, z3.And(z3.BoolVal(ret.isnull() and not heap), err == TPEINVAL), "no type is refused with TPEINVAL")
                return
            ks = known(lambda i: s0.rd(T, bv(i), 1))
            any_ = z3.Or(*ks.values())
            oksub = z3.BoolVal(True) if snull else z3.Or(s0.rd(S, bv(0), 1) == 0, z3.And(s0.rd(S, bv(0), 1) == ord("*"), s0.rd(S, bv(1), 1) == 0))
            if ret.isnull():
                ex.assert_(st, z3.BoolVal(not heap), "a failed allocation keeps no memory")
                if st.ghost.get("nomem"):
                    ex.assert_(st, err == TPEOS, "missing memory is reported as TPEOS")
                else:
                    ex.assert_(st, z3.And(err == TPENOENT, z3.Not(z3.And(any_, oksub))), "an unknown type is refused with TPENOENT, a known one is not")
                return
            ex.assert_(st, z3.And(any_, oksub, err == 0), "a buffer is returned for known types only")
            ex.assert_(st, z3.BoolVal(len(heap) == 1 and ret.r is heap[0]), "one block is allocated")
            R = ret.r
            ex.assert_(st, ret.off == L["data"], "the pointer to the data is returned")
            want = bv(0)
            for k, v in least().items():
                want = z3.If(z3.And(ks[k]), z3.If(size >= v, size, bv(v)), want)
            ex.assert_(st, z3.And(R.size == want + L["hdr"], st.rd(R, bv(L["size"]), 8) == want), "with room for the requested size and for the least size of the type")
            o = st.rd(R, bv(L["owner"]), 8, True)
            ex.assert_(st, z3.BoolVal(isinstance(o, Ptr) and o.isnull()), "it has no owner")
            for k in ks:
                ex.assert_(st, z3.Implies(ks[k], z3.And(*[st.rd(R, bv(L["type"] + i), 1) == (k.encode()[i] if i < len(k) else 0) for i in range(8)])), "it has the requested type")
            ex.assert_(st, z3.Or(st.rd(R, bv(L["sub"]), 1) == 0, z3.And(st.rd(R, bv(L["sub"]), 1) == ord("*"), st.rd(R, bv(L["sub"] + 1), 1) == 0)), "and subtype")
            if not snull:
                ex.assert_(st, st.rd(R, bv(L["sub"]), 1) == s0.rd(S, bv(0), 1), "the requested one")
            f = st.ghost.get("fml") or []
            one = len(f) == 1 and f[0][0] == "init" and f[0][1].r is R
            ex.assert_(st, z3.If(ks["FML32"], z3.And(z3.BoolVal(one), *([f[0][1].off == L["data"], f[0][2] == want] if one else [])), z3.BoolVal(not f)), "a fielded buffer is initialised with its size, others are not")
        verify(ctx, ex, "tpalloc", setup, post)
    return run


def run_realloc(owner):
    """owner: None, 'this' (its owner points to it), 'other'"""
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tprealloc", rules=[w.rules()])
        w.hooks(ex)
        size = iv("newsize", 64)
        O, X = Region("ownercell", 8), Region("elsewhere", None)

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            R, n, p = w.buffer(st)
            if owner:
                st.wr(R, bv(L["owner"]), 8, Ptr(O))
                st.wr(O, bv(0), 8, p if owner == "this" else Ptr(X))
            return [(st, [p, size], (st.fork(), R, n, p))]

        def post(ex, kind, st, ret, info):
            s0, R, n, p = info
            err = st.ghost["tperrno"]
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            j = iv("j", 64)
            if ret.isnull():
                ex.assert_(st, z3.And(z3.BoolVal(bool(st.ghost.get("nomem"))), err == TPEOS), "only missing memory makes it fail, with TPEOS")
                ex.assert_(st, z3.BoolVal(R not in st.freed), "the buffer stays valid")
                ex.assert_(st, z3.Implies(z3.ULT(j, R.size), st.rd(R, j, 1) == s0.rd(R, j, 1)), "and unchanged")
                return
            D = ret.r
            ex.assert_(st, z3.And(ret.off == L["data"], err == 0), "the pointer to the data is returned")
            heap = [r for r in (st.ghost.get("heap") or []) if r not in st.freed]
            ex.assert_(st, z3.BoolVal(D is not R and R in st.freed and heap == [D]), "the buffer moves to one block")
            lo = bv(0)
            for k, v in least().items():
                lo = z3.If(w.kinds[k], bv(v), lo)
            u = st.ghost.get("fmlused")
            if u is not None:
                lo = z3.If(z3.And(w.kinds["FML32"], u > lo), u, lo)
            new = z3.If(size >= lo, size, lo)
            ex.assert_(st, z3.And(D.size == new + L["hdr"], st.rd(D, bv(L["size"]), 8) == new), "with room for the requested size, the least size of its type and the fields it has")
            i = iv("i", 64)
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(i, new)), st.rd(D, i + L["data"], 1) == s0.rd(R, i + L["data"], 1)), "the contents are kept")
            ex.assert_(st, z3.And(*[st.rd(D, bv(L["type"] + k), 1) == s0.rd(R, bv(L["type"] + k), 1) for k in range(24)]), "type and subtype are kept")
            f = st.ghost.get("fml") or []
            one = len(f) == 1 and f[0][0] == "reinit" and f[0][1].r is D
            ex.assert_(st, z3.If(w.kinds["FML32"], z3.And(z3.BoolVal(one), *([f[0][1].off == L["data"], f[0][2] == new] if one else [])), z3.BoolVal(not f)), "a fielded buffer learns its new size, others do not")
            o = st.rd(D, bv(L["owner"]), 8, True)
            ex.assert_(st, z3.BoolVal(isinstance(o, Ptr) and (o.r is O if owner else o.isnull())), "the owner is kept")
            if owner:
                q = st.rd(O, bv(0), 8, True)
                ex.assert_(st, z3.BoolVal(q.r is (D if owner == "this" else X)), "the owner of the buffer learns its new place")
                if owner == "this":
                    ex.assert_(st, q.off == L["data"], "which is the start of its data")
        verify(ctx, ex, "tprealloc", setup, post)
    return run


def run_free(owner):
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tpfree", rules=[w.rules()])
        w.hooks(ex)
        O, X = Region("ownercell", 8), Region("elsewhere", None)

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            R, n, p = w.buffer(st)
            if owner in ("this", "other"):
                st.wr(R, bv(L["owner"]), 8, Ptr(O))
                st.wr(O, bv(0), 8, p if owner == "this" else Ptr(X))
            return [(st, [NULL if owner == "null" else p], (R, p))]

        def post(ex, kind, st, ret, info):
            R, p = info
            ex.assert_(st, z3.And(z3.BoolVal(kind == "ret"), st.ghost["tperrno"] == 0), "returns normally, without an error")
            ex.assert_(st, z3.BoolVal(set(st.freed) == (set() if owner == "null" else {R})), "exactly the given buffer is freed")
            if owner in ("this", "other"):
                q = st.rd(O, bv(0), 8, True)
                ex.assert_(st, z3.BoolVal(q.isnull() if owner == "this" else q.r is X), "the owner of the buffer does not keep it")
        verify(ctx, ex, "tpfree", setup, post)
    return run


def run_types(mode):
    """mode: null, full, type, sub, none (which results are asked for)"""
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tptypes", rules=[w.rules()])
        w.hooks(ex)
        T, S = Region("type", 8), Region("subtype", 16)

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            R, n, p = w.buffer(st)
            return [(st, [NULL if mode == "null" else p, Ptr(T) if mode in ("full", "type", "null") else NULL, Ptr(S) if mode in ("full", "sub", "null") else NULL], (st.fork(), R))]

        def post(ex, kind, st, ret, info):
            s0, R = info
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            j = iv("j", 64)
            ex.assert_(st, z3.Implies(z3.ULT(j, R.size), st.rd(R, j, 1) == s0.rd(R, j, 1)), "the buffer is unchanged")
            if mode == "null":
                ex.assert_(st, z3.And(ret == bv(-1, 64), st.ghost["tperrno"] == TPEINVAL), "no buffer is refused with TPEINVAL")
                return
            ex.assert_(st, z3.And(ret != bv(-1, 64), st.ghost["tperrno"] == 0), "a buffer is recognised")
            if mode in ("full", "type"):
                ex.assert_(st, z3.And(*[st.rd(T, bv(i), 1) == s0.rd(R, bv(L["type"] + i), 1) for i in range(8)]), "its type is returned")
            if mode in ("full", "sub"):
                ex.assert_(st, z3.And(*[st.rd(S, bv(i), 1) == s0.rd(R, bv(L["sub"] + i), 1) for i in range(16)]), "and its subtype")
        verify(ctx, ex, "tptypes", setup, post)
    return run


def run_types_bad(ctx):
    """memory that is not a typed buffer of a known type"""
    w = Mem()
    L = w.L
    ex = ctx.exec("tptypes", rules=[w.rules()])
    w.hooks(ex)

    def setup(ex, st):
        st.ghost["tperrno"] = iv("tperrno0")
        n = iv("n", 64)
        st.assume(z3.ULE(n, LIM))
        R = Region("memory", n + L["hdr"])
        ks = known(lambda i: st.rd(R, bv(L["type"] + i), 1))
        st.assume(z3.Not(z3.Or(*ks.values())))
        return [(st, [Ptr(R, bv(L["data"])), NULL, NULL], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.And(z3.BoolVal(kind == "ret"), ret == bv(-1, 64), st.ghost["tperrno"] == TPEINVAL), "other memory is refused with TPEINVAL")
    verify(ctx, ex, "tptypes", setup, post)


UNITS = [Unit("tpalloc", ["mem"], run_alloc(False, False)), Unit("tpalloc no subtype", ["mem"], run_alloc(False, True)), Unit("tpalloc no type", ["mem"], run_alloc(True, True)),
         Unit("tprealloc", ["mem"], run_realloc(None)), Unit("tprealloc owned", ["mem"], run_realloc("this")), Unit("tprealloc moved", ["mem"], run_realloc("other")),
         Unit("tpfree", ["mem"], run_free(None)), Unit("tpfree owned", ["mem"], run_free("this")), Unit("tpfree moved", ["mem"], run_free("other")), Unit("tpfree null", ["mem"], run_free("null")),
         Unit("tptypes", ["mem"], run_types("full")), Unit("tptypes type", ["mem"], run_types("type")), Unit("tptypes subtype", ["mem"], run_types("sub")),
         Unit("tptypes none", ["mem"], run_types("none")), Unit("tptypes null", ["mem"], run_types("null")), Unit("tptypes bad", ["mem"], run_types_bad)]


def replay(failed, tmp):
    return cxx_driver(tmp, "buffers.cpp", libtus())
