"""B02: export and import of typed buffers"""
from specs.memcore import *
from specs.ipccore import charvec_rules, text_rules

HDR = 24       # type and subtype


def encoded(ex, st, E, used):
    """number of characters of the base64 text of used bytes (contract of base64chars, proved for the function in B03)"""
    return bv(4) * z3.UDiv(used + 2, bv(3))


def run_export(kind_, text):
    """kind_: type of buffer; text: TPEX_STRING"""
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tpexport", rules=[w.rules(), charvec_rules(), text_rules()])
        w.hooks(ex)
        room, ilen = iv("room", 64), iv("ilen", 64)
        OUT, OL, ENC = Region("ostr", room).bytewise(), Region("olen", 8), Region("encoded", None).bytewise()

        def encode(ex, st, args, ins):
            i, n, o, on = args
            ex.assert_(st, z3.And(z3.BoolVal(i.r is w.R), i.off == L["type"], n == w.used), "type, subtype and data are encoded", ins.dbg)
            chars = bv(4) * z3.UDiv(n + 2, bv(3))
            ex.assert_(st, z3.UGE(on, chars), "there is room for the text", ins.dbg)
            ex.assert_(st, z3.ULE(on, room), "the room for the text is in the output", ins.dbg)
            ex.range_access(st, o, chars, "store", ins.dbg)
            st.cp(o.r, o.off, chars, ENC, bv(0))
            st.ghost["encoded"] = True
            return chars
        encode.is_contract = True

        def chars_h(ex, st, args, ins):
            return bv(4) * z3.UDiv(args[0] + 2, bv(3))
        chars_h.is_contract = True
        ex.rules += [(rx(r"base64encode\(.*"), encode), (rx(r"base64chars\(unsigned long\)"), chars_h)]

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            R, n, p = w.buffer(st)
            w.R = R
            st.assume(w.kinds[kind_])
            st.assume(z3.And(room >= 0, room <= LIM))
            st.wr(OL, bv(0), 8, room)
            if kind_ == "FML32":
                u = fresh("fmlused", 64)
                st.assume(z3.And(z3.UGE(u, 1), z3.ULE(u, n)))
                st.ghost["fmlused"] = u
                w.used = u + HDR
            elif kind_ == "STRING":
                t = iv("strlen", 64)
                st.assume(z3.ULT(t, n))
                st.assume(st.rd(R, L["data"] + t, 1) == 0)
                R.tag["text"] = t
                w.used = t + 1 + HDR
            else:
                st.assume(z3.Or(ilen == bv(-1, 64), z3.And(ilen >= 0, ilen <= n)))
                w.used = z3.If(ilen == bv(-1, 64), n, ilen) + HDR
            return [(st, [p, ilen, Ptr(OUT), Ptr(OL), bv(TPEX_STRING if text else 0, 64)], st.fork())]

        def post(ex, kind, st, ret, s0):
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            err, R = st.ghost["tperrno"], w.R
            need = bv(4) * z3.UDiv(w.used + 2, bv(3)) + 1 if text else w.used
            j = iv("j", 64)
            ex.assert_(st, z3.Implies(z3.ULT(j, R.size), st.rd(R, j, 1) == s0.rd(R, j, 1)), "the buffer is unchanged")
            fits = room >= need
            ex.assert_(st, st.rd(OL, bv(0), 8) == need, "the length of the exported buffer is returned")
            ex.assert_(st, z3.Implies(z3.Not(fits), z3.And(ret == bv(-1, 32), err == TPELIMIT)), "too little room is refused with TPELIMIT")
            ex.assert_(st, z3.Implies(z3.And(z3.Not(fits), z3.ULT(j, room)), st.rd(OUT, j, 1) == s0.rd(OUT, j, 1)), "and nothing is written")
            ex.assert_(st, z3.Implies(fits, z3.And(ret == 0, err == 0)), "otherwise it is exported")
            if text:
                ex.assert_(st, z3.Implies(z3.And(fits, z3.ULT(j, need - 1)), st.rd(OUT, j, 1) == s0.rd(ENC, j, 1)), "as base64 text")
                ex.assert_(st, z3.Implies(fits, st.rd(OUT, need - 1, 1) == 0), "with a terminating zero")
            else:
                ex.assert_(st, z3.Implies(z3.And(fits, z3.ULT(j, need)), st.rd(OUT, j, 1) == s0.rd(R, j + L["type"], 1)), "type, subtype and data, byte for byte")
            ex.assert_(st, z3.Implies(z3.And(z3.UGE(j, need), z3.ULT(j, room)), st.rd(OUT, j, 1) == s0.rd(OUT, j, 1)), "nothing is written after it")
        verify(ctx, ex, "tpexport", setup, post)
    return run


def run_export_bad(ctx):
    w = Mem()
    ex = ctx.exec("tpexport", rules=[w.rules(), text_rules()])
    w.hooks(ex)
    fl = iv("flags", 64)

    def setup(ex, st):
        st.ghost["tperrno"] = iv("tperrno0")
        R, n, p = w.buffer(st)
        OUT, OL = Region("ostr", iv("room", 64)), Region("olen", 8)
        ok = [p, iv("ilen", 64), Ptr(OUT), Ptr(OL), bv(0, 64)]
        cases = []
        for i in (0, 2, 3):
            a = list(ok)
            a[i] = NULL
            cases.append((st.fork(), a, (OUT, st.fork())))
        s = st.fork()
        s.assume(z3.And(fl != 0, fl != TPEX_STRING))
        cases.append((s, ok[:4] + [fl], (OUT, s.fork())))
        return cases

    def post(ex, kind, st, ret, info):
        OUT, s0 = info
        ex.assert_(st, z3.And(z3.BoolVal(kind == "ret"), ret == bv(-1, 32), st.ghost["tperrno"] == TPEINVAL), "missing arguments and unknown flags are refused with TPEINVAL")
        j = iv("j", 64)
        ex.assert_(st, st.rd(OUT, j, 1) == s0.rd(OUT, j, 1), "nothing is written")
    verify(ctx, ex, "tpexport", setup, post)


def run_import(text, owner):
    def run(ctx):
        w = Mem()
        L = w.L
        ex = ctx.exec("tpimport", rules=[w.rules(), charvec_rules(), text_rules(), w.realloc_contract()])
        w.hooks(ex)
        ilen, fl = iv("ilen", 64), iv("flags", 64)
        n_in = iv("inlen", 64)           # bytes of the exported buffer
        tlen = iv("textlen", 64)
        IN = Region("exported", n_in).bytewise()
        TXT = Region("text", tlen + 1).bytewise()
        OB, OL, O = Region("obuf", 8), Region("olen", 8), Region("ownercell", 8)

        def decode(ex, st, args, ins):
            i, n, o, on = args
            ex.assert_(st, z3.And(z3.BoolVal(i.r is TXT), i.off == 0, n == tlen), "the whole text is decoded", ins.dbg)
            ex.assert_(st, tlen & 3 == 0, "base64 text comes in blocks of four", ins.dbg)
            ex.assert_(st, z3.UGE(on, z3.LShR(n, 2) * 3), "there is room for the decoded text", ins.dbg)
            ex.range_access(st, o, z3.LShR(n, 2) * 3, "store", ins.dbg)
            s2 = st.fork()
            s2.ghost["baddata"] = True
            s2.havoc(o.r, o.off, z3.LShR(n, 2) * 3)
            st.cp(o.r, o.off, n_in, IN, bv(0))
            st.ghost["decoded"] = True
            return [(st, n_in), (s2, Exc("_ZTISt16invalid_argument", Ptr(exc_obj())))]
        decode.is_contract = True
        ex.rules += [(rx(r"base64decode\(.*"), decode)]

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            R, n, p = w.buffer(st)
            w.R = R
            st.wr(OB, bv(0), 8, p)
            if owner:
                st.wr(R, bv(L["owner"]), 8, Ptr(OB))
            st.assume(z3.And(z3.UGE(n_in, 0), z3.ULE(n_in, LIM // 4)))
            IN_ks = [name_is(lambda i: z3.If(z3.UGT(n_in, i), st.rd(IN, bv(i), 1), bv(0, 8)), k) for k in least()]
            sub = lambda i: st.rd(IN, bv(8 + i), 1)
            w.insub = z3.Or(sub(0) == 0, z3.And(sub(0) == ord("*"), sub(1) == 0))
            w.good = z3.And(z3.UGE(n_in, HDR), z3.Or(*IN_ks), w.insub)
            w.infml = name_is(lambda i: st.rd(IN, bv(i), 1), "FML32")
            if text:
                st.assume(z3.And(z3.ULE(tlen, LIM // 2), z3.Or(tlen & 3 != 0, z3.And(z3.ULE(n_in, z3.LShR(tlen, 2) * 3), z3.UGE(n_in + 2, z3.LShR(tlen, 2) * 3)))))
                st.assume(st.rd(TXT, tlen, 1) == 0)
                TXT.tag["text"] = tlen
                st.assume(z3.Or(fl & TPEX_STRING != 0, ilen == 0))
            else:
                st.assume(z3.And(fl & TPEX_STRING == 0, ilen == n_in, n_in != 0))
            s0 = st.fork()
            s2 = st.fork()
            src = Ptr(TXT) if text else Ptr(IN)
            full = (st, [src, ilen, Ptr(OB), Ptr(OL), fl], (s0, R, n, p, True))
            return [full] if text else [full, (s2, [src, ilen, Ptr(OB), NULL, fl], (s0, R, n, p, False))]

        def post(ex, kind, st, ret, info):
            s0, R, n, p, haslen = info
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            err = st.ghost["tperrno"]
            j = iv("j", 64)
            ok = ret == 0
            q = st.rd(OB, bv(0), 8, True)
            done = st.ghost.get("decoded", not text)
            ex.assert_(st, z3.Implies(z3.Not(ok), z3.And(ret == bv(-1, 32), err != 0)), "it succeeds or reports an error")
            same = z3.And(z3.BoolVal(q.r is R and R not in st.freed), q.off == L["data"], z3.Implies(z3.ULT(j, R.size), st.rd(R, j, 1) == s0.rd(R, j, 1)))
            ex.assert_(st, z3.Implies(z3.Not(ok), same), "a failed import leaves the buffer as it was")
            ex.assert_(st, z3.Implies(ok, z3.And(z3.BoolVal(done), w.good, err == 0)), "only an exported buffer is imported")
            if not st.ghost.get("nomem") and not st.ghost.get("baddata"):
                ex.assert_(st, z3.Implies(z3.Not(ok), z3.Or(z3.Not(w.good), tlen & 3 != 0 if text else z3.BoolVal(False))), "every exported buffer is imported")
            D = q.r
            ex.assert_(st, z3.BoolVal(D not in st.freed), "the buffer is valid")
            heap = [r for r in (st.ghost.get("heap") or []) if r not in st.freed and r is not D and "vec" not in r.name and r.name != "bytes"]
            ex.assert_(st, z3.BoolVal(not heap and (D is R or R in st.freed)), "no memory is lost")
            cap = st.rd(D, bv(L["size"]), 8)
            ex.assert_(st, z3.Implies(ok, z3.And(q.off == L["data"], z3.UGE(cap, n_in - HDR), z3.UGE(cap, n), D.size == cap + L["hdr"])), "with room for the data, not less than before")
            ex.assert_(st, z3.Implies(z3.And(ok, z3.ULT(j, n_in)), st.rd(D, L["type"] + j, 1) == s0.rd(IN, j, 1)), "type, subtype and data are those exported")
            if haslen:
                ex.assert_(st, z3.Implies(ok, st.rd(OL, bv(0), 8) == n_in - HDR), "the length of the data is returned")
            f = [x for x in (st.ghost.get("fml") or [])]
            last = f[-1] if f and f[-1][0] == "reinit" and f[-1][1].r is D else None
            ex.assert_(st, z3.Implies(z3.And(ok, w.infml), z3.And(z3.BoolVal(last is not None), *([last[1].off == L["data"], last[2] == cap] if last else []))), "an imported fielded buffer learns the size it has here")
        verify(ctx, ex, "tpimport", setup, post)
    return run


def run_import_bad(ctx):
    w = Mem()
    ex = ctx.exec("tpimport", rules=[w.rules(), text_rules(), charvec_rules()])
    w.hooks(ex)

    def setup(ex, st):
        st.ghost["tperrno"] = iv("tperrno0")
        R, n, p = w.buffer(st)
        OB, Z = Region("obuf", 8), Region("obuf0", 8)
        st.wr(OB, bv(0), 8, p)
        st.wr(Z, bv(0), 8, NULL)
        IN = Region("in", None)
        a = [iv("ilen", 64)]
        L_ = NULL
        return [(st.fork(), [NULL] + a + [Ptr(OB), L_, iv("flags", 64)], (R, st.fork())), (st.fork(), [Ptr(IN)] + a + [NULL, L_, iv("flags", 64)], (R, st.fork())),
                (st.fork(), [Ptr(IN)] + a + [Ptr(Z), L_, iv("flags", 64)], (R, st.fork()))]

    def post(ex, kind, st, ret, info):
        R, s0 = info
        ex.assert_(st, z3.And(z3.BoolVal(kind == "ret"), ret == bv(-1, 32), st.ghost["tperrno"] == TPEINVAL), "missing arguments are refused with TPEINVAL")
    verify(ctx, ex, "tpimport", setup, post)


def run_sizes(ctx):
    """bufsize and datasize are inverse for what was exported"""
    w = Mem()
    ex = ctx.exec("datasize", rules=[w.rules()])
    b = iv("bufsize", 64)

    def setup(ex, st):
        st.assume(z3.And(b >= 0, b <= LIM))
        return [(st, [b], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, ret == z3.If(b > HDR, b - HDR, bv(0)), "the length of the data in an exported buffer")
    verify(ctx, ex, "fux::mem::datasize(long)", setup, post)


UNITS = [Unit("tpexport %s%s" % (k, " text" if t else ""), ["mem"], run_export(k, t)) for k in TYPES for t in (False, True)] + \
        [Unit("tpexport arguments", ["mem"], run_export_bad), Unit("tpimport", ["mem"], run_import(False, False)), Unit("tpimport owned", ["mem"], run_import(False, True)),
         Unit("tpimport text", ["mem"], run_import(True, False)), Unit("tpimport arguments", ["mem"], run_import_bad), Unit("datasize", ["mem"], run_sizes)]


def replay(failed, tmp):
    return cxx_driver(tmp, "buffers.cpp", libtus())
