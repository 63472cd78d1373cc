"""B03: base64"""
from engine.api import *
from engine.lib import *
from specs.common import *

ALPH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def enc6(v):
    """RFC 4648 character of a 6 bit value (low bits of a 32 bit term)"""
    v = z3.Extract(7, 0, v & 63)
    return z3.If(z3.ULT(v, 26), v + ord("A"), z3.If(z3.ULT(v, 52), v - 26 + ord("a"), z3.If(z3.ULT(v, 62), v - 52 + ord("0"),
                 z3.If(v == 62, bv(ord("+"), 8), bv(ord("/"), 8)))))


def isalpha64(c):
    inr = lambda a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.Or(inr("A", "Z"), inr("a", "z"), inr("0", "9"), c == ord("+"), c == ord("/"))


def dec6(c):
    """6 bit value (8 bit term) of an RFC 4648 character"""
    inr = lambda a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.If(inr("A", "Z"), c - ord("A"), z3.If(inr("a", "z"), c - ord("a") + 26, z3.If(inr("0", "9"), c - ord("0") + 52,
                 z3.If(c == ord("+"), bv(62, 8), bv(63, 8)))))


def quad(b0, b1, b2):
    n = z3.Concat(bv(0, 8), b0, b1, b2)
    return [enc6(z3.LShR(n, 18)), enc6(z3.LShR(n, 12)), enc6(z3.LShR(n, 6)), enc6(n)]


def triple(c0, c1, c2, c3):
    n = z3.Concat(z3.Extract(5, 0, dec6(c0)), z3.Extract(5, 0, dec6(c1)), z3.Extract(5, 0, dec6(c2)), z3.Extract(5, 0, dec6(c3)))
    return [z3.Extract(23, 16, n), z3.Extract(15, 8, n), z3.Extract(7, 0, n)]


kb = z3.Function("blk", BV64, z3.BoolSort())    # trigger marker for block numbers


def table_rules(ex):
    pass


def loop_common(ctx, In, Out, s0, blocks, blockok, olen, extra=()):
    """candidates: block k of the output is right for every k below (variable - entry)/ratio; output beyond is untouched"""
    cands = bound_cands(ctx, {"blocks": blocks, "blocks4": blocks * 4, "blocks3": blocks * 3, "max(1,blocks)": z3.If(blocks == 0, bv(1), blocks)})
    cands.append(Cand("blocks done", lambda st, ph: Forall(
        [BV64], lambda q, x=ph["#it"]: z3.Implies(z3.And(kb(q), z3.ULT(q, blocks), z3.ULT(q, x)), blockok(st, q)), [[("blk", 0)]], "blocks", split=ph["#it"] - 1)))
    for m in (3, 4):
        cands.append(Cand("untouched from %d" % m, lambda st, ph, m=m: Forall(
            [BV64], lambda q, x=ph["#it"] * m: z3.Implies(z3.And(outidx(q), z3.ULT(q, 1 << 40), z3.UGE(q, x)), st.rd(Out, q, 1) == s0.rd(Out, q, 1)),
            [[("outidx", 0)]], "beyond")))
    cands += list(extra)
    return {"cands": cands, "hints": [lambda st, hv: kb(hv["#it"])], "variants": variant_cands(ctx, {"blocks": blocks, "blocks3": blocks * 3, "blocks4": blocks * 4})}


outidx = z3.Function("outidx", BV64, z3.BoolSort())


def run_encode(ctx):
    ex = ctx.exec("base64encode")
    ex.rounds = 2

    def setup(ex, st):
        ilen, olen = iv("ilen", 64), iv("olen", 64)
        st.assume([z3.ULE(ilen, 1 << 30), z3.ULE(olen, 1 << 32)])
        In, Out = Region("in", ilen), Region("out", olen)
        s0 = st.fork()
        blocks = iv("nblocks", 64)
        rem = iv("rem", 64)
        st.assume([ilen == blocks * 3 + rem, z3.ULT(rem, 3), z3.ULE(blocks, 1 << 30)])
        st.assume(z3.And(z3.UDiv(ilen, bv(3)) == blocks, z3.URem(ilen, bv(3)) == rem))

        def blockok(s, q):
            b = [s0.rd(In, q * 3 + i, 1) for i in range(3)]
            return z3.And(*[s.rd(Out, q * 4 + i, 1) == c for i, c in enumerate(quad(*b))])
        ex.loop_spec = lambda c: loop_common(c, In, Out, s0, blocks, blockok, olen)
        return [(st, [Ptr(In), ilen, Ptr(Out), olen], (In, Out, s0, ilen, olen, blocks, rem, blockok))]

    def post(ex, kind, st, ret, info):
        In, Out, s0, ilen, olen, blocks, rem, blockok = info
        need = blocks * 4 + z3.If(rem == 0, bv(0), bv(4))
        i = iv("o", 64)
        if kind == "exc":
            ex.assert_(st, z3.ULT(olen, need), "encoding is refused only when the output is too small")
            ex.assert_(st, z3.Implies(z3.ULT(i, olen), st.rd(Out, i, 1) == s0.rd(Out, i, 1)), "a refused encoding writes nothing")
            return
        ex.assert_(st, z3.UGE(olen, need), "a too small output is refused")
        ex.assert_(st, ret == need, "4 characters per started group of 3 bytes are produced")
        q = iv("q", 64)
        st.assume(kb(q))
        st.assume(outidx(i))
        ex.assert_(st, z3.Implies(z3.ULT(q, blocks), blockok(st, q)), "every whole group is encoded per RFC 4648", assume=False)
        b0, b1 = s0.rd(In, blocks * 3, 1), s0.rd(In, blocks * 3 + 1, 1)
        z = bv(0, 8)
        t = [st.rd(Out, blocks * 4 + j, 1) for j in range(4)]
        e2, e1 = quad(b0, b1, z), quad(b0, z, z)
        ex.assert_(st, z3.Implies(rem == 2, z3.And(t[0] == e2[0], t[1] == e2[1], t[2] == e2[2], t[3] == ord("="))),
                   "a final group of 2 bytes is encoded with one pad character")
        ex.assert_(st, z3.Implies(rem == 1, z3.And(t[0] == e1[0], t[1] == e1[1], t[2] == ord("="), t[3] == ord("="))),
                   "a final group of 1 byte is encoded with two pad characters")
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(i, olen), z3.UGE(i, need)), st.rd(Out, i, 1) == s0.rd(Out, i, 1)),
                   "nothing is written after the encoded text", assume=False)
    verify(ctx, ex, "base64encode(void const*, unsigned long, char*, unsigned long)", setup, post)




inm = z3.Function("inidx", BV64, z3.BoolSort())


def run_decode(valid):
    def run(ctx):
        ex = ctx.exec("base64decode" + (" of valid text" if valid else ""))
        ex.rounds = 2

        def setup(ex, st):
            ilen, olen = iv("ilen", 64), iv("olen", 64)
            st.assume([z3.ULE(ilen, 1 << 32), z3.ULE(olen, 1 << 32)])
            In, Out = Region("in", ilen), Region("out", olen)
            s0 = st.fork()
            blocks, rem = iv("nblocks", 64), iv("rem", 64)
            st.assume([ilen == blocks * 4 + rem, z3.ULT(rem, 4), z3.ULE(blocks, 1 << 30)])
            st.assume(z3.And(z3.UDiv(ilen, bv(4)) == blocks, z3.URem(ilen, bv(4)) == rem))

            def chars(q):
                return [s0.rd(In, q * 4 + i, 1) for i in range(4)]

            def blockok(s, q):
                c = chars(q)
                return z3.Implies(allok(q), z3.And(*[s.rd(Out, q * 3 + i, 1) == b for i, b in enumerate(triple(*c))]))

            def allok(q):
                return z3.And(*[isalpha64(c) for c in chars(q)])
            last = chars(blocks - 1)
            eq = bv(ord("="), 8)
            lastok = z3.And(isalpha64(last[0]), isalpha64(last[1]), z3.Or(z3.And(last[2] == eq, last[3] == eq),
                            z3.And(isalpha64(last[2]), z3.Or(isalpha64(last[3]), last[3] == eq))))
            if valid:
                st.assume([rem == 0, z3.UGE(olen, blocks * 3), z3.Implies(blocks != 0, lastok)])
                st.assume(Forall([BV64], lambda q: z3.Implies(z3.And(z3.ULT(q, blocks - 1), blocks != 0), allok(q)), [[("blk", 0)]], "valid"))

            def spec(c):
                extra = []
                for k, v in c.phis.items():
                    if not z3.is_bv(v) or v.size() not in (8, 32, 64):
                        continue
                    x0 = v
                    if v.size() != 64:
                        extra.append(Cand("no error flag in %s" % k, lambda st, ph, k=k: z3.Extract(7, 7, ph[k]) == 0))
                    if v.size() != 64:
                        extra.append(Cand("%s clean => chars valid" % k, lambda st, ph, k=k: Forall(
                            [BV64], lambda q, x=ph["#it"], e=ph[k]: z3.Implies(
                                z3.And(kb(q), z3.ULT(q, blocks), z3.ULT(q, x), z3.Extract(7, 7, e) == 0), allok(q)), [[("blk", 0)]], "valid", split=ph["#it"] - 1)))
                return loop_common(c, In, Out, s0, blocks, blockok, olen, extra)
            ex.loop_spec = spec
            return [(st, [Ptr(In), ilen, Ptr(Out), olen], (In, Out, s0, ilen, olen, blocks, rem, blockok, allok, last, lastok))]

        def post(ex, kind, st, ret, info):
            In, Out, s0, ilen, olen, blocks, rem, blockok, allok, last, lastok = info
            if valid:
                ex.assert_(st, z3.BoolVal(kind == "ret"), "valid text is accepted when the output is large enough")
                return
            i = iv("o", 64)
            q = iv("q", 64)
            st.assume(kb(q))
            st.assume(outidx(i))
            if kind == "exc":
                return
            eq = bv(ord("="), 8)
            ex.assert_(st, z3.And(rem == 0, z3.UGE(olen, blocks * 3)), "text of invalid length and a too small output are refused")
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(q, blocks - 1), blocks != 0), allok(q)), "a character outside the alphabet is refused")
            ex.assert_(st, z3.Implies(blocks != 0, lastok), "an invalid character or misplaced padding in the final group is refused")
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(q, blocks - 1), blocks != 0), blockok(st, q)), "every whole group is decoded per RFC 4648", assume=False)
            n = z3.If(last[2] == eq, bv(1), z3.If(last[3] == eq, bv(2), bv(3)))
            ex.assert_(st, ret == z3.If(blocks == 0, bv(0), (blocks - 1) * 3 + n), "length of the decoded data")
            t = triple(last[0], last[1], z3.If(last[2] == eq, bv(65, 8), last[2]), z3.If(last[3] == eq, bv(65, 8), last[3]))
            for j in range(3):
                ex.assert_(st, z3.Implies(z3.And(blocks != 0, z3.ULT(bv(j), n)), st.rd(Out, (blocks - 1) * 3 + j, 1) == t[j]),
                           "byte %d of the final group is decoded per RFC 4648" % j, assume=False)
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(i, olen), z3.UGE(i, ret)), st.rd(Out, i, 1) == s0.rd(Out, i, 1)),
                       "nothing is written after the decoded data", assume=False)
        verify(ctx, ex, "base64decode(char const*, unsigned long, void*, unsigned long)", setup, post)
    return run


def run_lemma(ctx):
    """decode(encode(x)) == x group by group, from the two postconditions"""
    ex = ctx.exec("lemma: round trip")
    st = State()
    b0, b1, b2 = [fresh("b", 8) for _ in range(3)]
    z = bv(0, 8)
    A = bv(65, 8)
    e = quad(b0, b1, b2)
    ex.assert_(st, z3.And(*[isalpha64(c) for c in e]), "encoded text consists of alphabet characters")
    for j, (x, y) in enumerate(zip(triple(*e), (b0, b1, b2))):
        ex.assert_(st, x == y, "byte %d of a whole group survives encode and decode" % j)
    e = quad(b0, b1, z)
    t = triple(e[0], e[1], e[2], A)
    ex.assert_(st, z3.And(t[0] == b0, t[1] == b1, isalpha64(e[2])), "a final group of 2 bytes survives encode and decode")
    e = quad(b0, z, z)
    t = triple(e[0], e[1], A, A)
    ex.assert_(st, z3.And(t[0] == b0, isalpha64(e[0]), isalpha64(e[1])), "a final group of 1 byte survives encode and decode")


UNITS = [Unit("encode", ["base64"], run_encode), Unit("decode", ["base64"], run_decode(False)),
         Unit("decode valid", ["base64"], run_decode(True)), Unit("lemma", [], run_lemma)]
replay = driver("B03.cpp", ["base64"])
