"""T03: transaction table"""
from engine.api import *
from engine.lib import *
from specs.common import *

TU = "/verif/specs/tu/trx_inst.cpp"
TU = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tu", "trx_inst.cpp")
# layout of transaction_table / transaction (checked against the IR in unit "layout")
LEN, SIZE, MAXG, ESZ, ENT = 0, 8, 16, 24, 32
FMT, GLEN, BLEN, DATA, STARTED, TMO, STATE, GRP = 0, 8, 16, 24, 152, 160, 168, 172

mulu = z3.Function("mulu", BV64, BV64)      # i -> i * entry_size
EQ = z3.Function("xid_eq", BV64, BV64, z3.BoolSort())     # (entry offset, n) -> first n data bytes equal those of the searched XID


def table(ex, st):
    """a well formed table: len <= size, entries large enough for max_groups"""
    T = Region("table", fresh("tsize", 64))
    ln, sz, mg, es = [iv(n, 64) for n in ("len", "size", "max_groups", "entry_size")]
    for o, v in ((LEN, ln), (SIZE, sz), (MAXG, mg), (ESZ, es)):
        st.wr(T, o, 8, v)
    st.assume([z3.ULE(ln, sz), z3.ULE(sz, 0xffff), z3.ULE(mg, 1 << 20), z3.UGE(es, bv(GRP) + mg), z3.ULE(es, 1 << 21), es & 7 == 0])
    st.assume([T.size == bv(ENT) + mulu(sz), z3.ULE(mulu(sz), 1 << 40)])

    def hook(a, b, s):
        for x, y in ((a, b), (b, a)):
            if y.eq(es):
                s.assume(z3.Implies(z3.ULT(x, sz), z3.And(z3.ULE(mulu(x) + es, mulu(sz)), z3.ULE(mulu(x), 1 << 40), mulu(x) & 7 == 0)))
                return mulu(x)
        return None
    ex.mul_hook = hook
    # lemmas about multiplication by the (constant) entry size, proved in unit "lemma"
    st.assume(Forall([BV64], lambda i: z3.Implies(z3.ULE(i, sz), z3.And(z3.ULE(mulu(i), bv(1 << 40)), mulu(i) & 7 == 0)), [[("mulu", 0)]], "mul0"))
    st.assume(Forall([BV64, BV64], lambda i, j: z3.Implies(z3.And(z3.ULT(i, j), z3.ULE(j, sz)), z3.ULE(mulu(i) + es, mulu(j))),
                     [[("mulu", 0)], [("mulu", 0)]], "mul1"))
    return T, ln, sz, mg, es


def old_state(st):
    return st.fork()


def E(i):
    return bv(ENT) + mulu(i)


def entry_same(ex, st, s0, T, i, es, name):
    """every byte of entry i (symbolic) equals its old value"""
    b = fresh("byte", 64)
    ex.assert_(st, z3.Implies(z3.ULT(b, es), st.rd(T, E(i) + b, 1) == s0.rd(T, E(i) + b, 1)), name)


def header_same(ex, st, s0, T, name, but=()):
    for o in (LEN, SIZE, MAXG, ESZ):
        if o not in but:
            ex.assert_(st, st.rd(T, o, 8) == s0.rd(T, o, 8), name)


def all_same(ex, st, s0, T, name):
    b = fresh("byte", 64)
    ex.assert_(st, z3.Implies(z3.ULT(b, T.size), st.rd(T, b, 1) == s0.rd(T, b, 1)), name)


def run_lemma(ctx):
    ex = ctx.exec("lemma: multiples of the entry size")
    i, j, es, sz = z3.Ints("i j es sz")
    st = State()
    for a in (i >= 0, i < j, j <= sz, sz <= 0xffff, es >= 0, es <= 1 << 21):
        st.pc.append(a)
    ex.assert_(st, i * es + es <= j * es, "entries of different transactions do not overlap")
    ex.assert_(st, j * es <= 1 << 40, "no overflow in the offset of an entry")
    k = z3.Int("k")
    st.pc.append(es == 8 * k)
    ex.assert_(st, i * es == 8 * (i * k), "entries stay aligned")


def xid_args(st, nm="xid"):
    X = Region(nm, 152)
    f, g, b = [st.rd(X, o, 8) for o in (0, 8, 16)]
    return X, f, g, b


def run_index(ctx):
    for fn, lim in (("w_index", SIZE), ("w_at", LEN)):
        ex = ctx.exec(fn)

        def setup(ex, st):
            T, ln, sz, mg, es = table(ex, st)
            i = iv("i", 64 if fn == "w_index" else 16)
            return [(st, [Ptr(T), i], (T, ln, sz, es, i, st.fork()))]

        def post(ex, kind, st, ret, info):
            T, ln, sz, es, i, s0 = info
            ii = zx64(i)
            l = sz if fn == "w_index" else ln
            if kind == "exc":
                ex.assert_(st, z3.UGE(ii, l), "rejected only when the index is outside the table")
            else:
                ex.assert_(st, z3.ULT(ii, l), "an index outside the table is rejected")
                ex.assert_(st, z3.And(z3.BoolVal(ret.r is T), ret.off == E(ii)), "index selects its own entry")
            all_same(ex, st, s0, T, "table unchanged")
        verify(ctx, ex, fn, setup, post)


def run_join(ctx):
    ex = ctx.exec("w_join")

    def setup(ex, st):
        T, ln, sz, mg, es = table(ex, st)
        i, g = iv("i", 16), iv("g", 16)
        return [(st, [Ptr(T), i, g], (T, sz, mg, es, i, g, st.fork()))]

    def post(ex, kind, st, ret, info):
        T, sz, mg, es, i, g, s0 = info
        i, g = zx64(i), zx64(g)
        ok = z3.And(z3.ULT(i, sz), z3.ULT(g, mg))
        if kind == "exc":
            ex.assert_(st, z3.Not(ok), "a valid transaction and group are accepted")
            all_same(ex, st, s0, T, "a rejected join changes nothing")
            return
        ex.assert_(st, ok, "an invalid transaction or group is rejected")
        ex.assert_(st, ret.off == E(i), "the joined transaction is returned")
        ex.assert_(st, st.rd(T, E(i) + GRP + g, 1) == 1, "the group is marked as a participant")
        b = fresh("byte", 64)
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(b, T.size), b != E(i) + GRP + g), st.rd(T, b, 1) == s0.rd(T, b, 1)),
                   "nothing else changes: other participants, transactions and the table header")
    verify(ctx, ex, "w_join", setup, post)
    ex = ctx.exec("w_has_joined")

    def setup2(ex, st):
        T, ln, sz, mg, es = table(ex, st)
        i, g = iv("i", 64), iv("g", 64)
        return [(st, [Ptr(T), i, g], (T, sz, mg, es, i, g, st.fork()))]

    def post2(ex, kind, st, ret, info):
        T, sz, mg, es, i, g, s0 = info
        ok = z3.And(z3.ULT(i, sz), z3.ULT(g, mg))
        if kind == "exc":
            ex.assert_(st, z3.Not(ok), "valid question is answered")
        else:
            ex.assert_(st, ok, "invalid transaction or group is rejected")
            r = ret if z3.is_bool(ret) else ret != 0
            ex.assert_(st, r == (s0.rd(T, E(i) + GRP + g, 1) > 0), "tells if the group is marked")
        all_same(ex, st, s0, T, "nothing changes")
    verify(ctx, ex, "w_has_joined", setup2, post2)


def run_end(ctx):
    ex = ctx.exec("w_end")

    def setup(ex, st):
        T, ln, sz, mg, es = table(ex, st)
        i = iv("i", 64)
        return [(st, [Ptr(T), i], (T, sz, mg, es, i, st.fork()))]

    def post(ex, kind, st, ret, info):
        T, sz, mg, es, i, s0 = info
        if kind == "exc":
            ex.assert_(st, z3.UGE(i, sz), "a valid transaction can be released")
            all_same(ex, st, s0, T, "a rejected release changes nothing")
            return
        ex.assert_(st, z3.ULT(i, sz), "an invalid transaction is rejected")
        ex.assert_(st, st.rd(T, E(i) + FMT, 8) == bv(-1), "the entry becomes free")
        g = iv("g", 64)
        ex.assert_(st, z3.Implies(z3.ULT(g, mg), st.rd(T, E(i) + GRP + g, 1) == 0), "no participant is left")
        b = fresh("byte", 64)
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(b, T.size), z3.Or(z3.ULT(b, E(i)), z3.UGE(b, E(i) + es))), st.rd(T, b, 1) == s0.rd(T, b, 1)),
                   "other transactions and the table header do not change")
    verify(ctx, ex, "w_end", setup, post)


def scan_spec(T, ln, pred, extra=()):
    """search loops: no entry before the loop index satisfies pred"""
    def spec(ctx):
        cands = bound_cands(ctx, {"len": ln})
        for k, v in ctx.phis.items():
            if ival(v) is None:
                continue
            cands.append(Cand("no match before " + k, lambda st, ph, k=k: Forall(
                [BV64], lambda q, x=ival(ph[k]): z3.Implies(z3.ULT(q, x), z3.Not(pred(st, q))), [[("mulu", 0)]], "nomatch")))
        return {"cands": cands, "variants": variant_cands(ctx, {"len": ln})}
    return spec


def run_start(ctx):
    ex = ctx.exec("w_start")

    def setup(ex, st):
        T, ln, sz, mg, es = table(ex, st)
        X, f, gl, bl = xid_args(st)
        g = iv("g", 16)
        s0 = st.fork()
        ex.loop_spec = scan_spec(T, ln, lambda s, q: s0.rd(T, E(q) + FMT, 8) == bv(-1))
        return [(st, [Ptr(T), Ptr(X), g], (T, X, ln, sz, mg, es, g, s0))]

    def post(ex, kind, st, ret, info):
        T, X, ln, sz, mg, es, g, s0 = info
        g = zx64(g)
        free = lambda q: s0.rd(T, E(q) + FMT, 8) == bv(-1)
        if kind == "exc":
            q = iv("q", 64)
            ex.assert_(st, z3.Or(z3.UGE(g, mg), z3.And(ln == sz, z3.Implies(z3.ULT(q, ln), z3.Not(free(q))))),
                       "start is refused only for an invalid group or when every entry is in use")
            all_same(ex, st, s0, T, "a refused start changes nothing")
            return
        r = zx64(ret)
        ex.assert_(st, z3.ULT(g, mg), "an invalid group is refused")
        ex.assert_(st, z3.ULT(r, sz), "identifier is inside the table")
        ex.assert_(st, z3.Or(z3.And(z3.ULT(r, ln), free(r)), r == ln), "identifier of no active transaction is handed out")
        nl = st.rd(T, LEN, 8)
        ex.assert_(st, nl == z3.If(r == ln, ln + 1, ln), "the entry is inside the used part of the table")
        ex.assert_(st, z3.ULE(nl, sz), "used part stays inside the table")
        header_same(ex, st, s0, T, "capacity of the table does not change", but=(LEN,))
        b = iv("b", 64)
        ex.assert_(st, z3.Implies(z3.ULT(b, 152), st.rd(T, E(r) + b, 1) == s0.rd(X, b, 1)), "the XID is recorded")
        q = iv("grp", 64)
        ex.assert_(st, z3.Implies(z3.ULT(q, mg), st.rd(T, E(r) + GRP + q, 1) == z3.If(q == g, bv(1, 8), bv(0, 8))),
                   "the starting group is the only participant")
        ex.assert_(st, z3.Implies(z3.And(z3.UGE(b, ENT), z3.ULT(b, T.size), z3.Or(z3.ULT(b, E(r)), z3.UGE(b, E(r) + es))),
                                  st.rd(T, b, 1) == s0.rd(T, b, 1)), "other transactions do not change")
    verify(ctx, ex, "w_start", setup, post)


def run_find(ctx):
    ex = ctx.exec("w_find")

    def cmp(X):
        def h(ex, st, args, ins):
            a, b, n = args[0], args[1], zx64(args[2])
            if b.r is not X:
                a, b = b, a
            ex.range_access(st, a, n, "load", ins.dbg)
            ex.range_access(st, b, n, "load", ins.dbg)
            ex.assert_(st, z3.BoolVal(b.r is X), "comparison with the searched XID")
            ex.assert_(st, z3.And(b.off == DATA), "XID data is compared from its start")
            r = fresh("memcmp", 32)
            st.assume((r == 0) == EQ(a.off - DATA, n))
            return r
        return h

    def setup(ex, st):
        T, ln, sz, mg, es = table(ex, st)
        X, f, gl, bl = xid_args(st)
        # lengths of a well formed XID, in the argument and in every entry
        st.assume([z3.ULE(gl, 64), z3.ULE(bl, 64)])
        st.assume(Forall([BV64], lambda q: z3.Implies(z3.ULT(q, ln), z3.And(z3.ULE(st.rd(T, E(q) + GLEN, 8), 64), z3.ULE(st.rd(T, E(q) + BLEN, 8), 64))),
                         [[("mulu", 0)]], "wfxid"))
        ex.rules.append((rx("memcmp|bcmp"), cmp(X)))
        s0 = st.fork()
        st0 = s0

        def match(s, q):
            return z3.And(st0.rd(T, E(q) + FMT, 8) == f, st0.rd(T, E(q) + GLEN, 8) == gl, st0.rd(T, E(q) + BLEN, 8) == bl,
                          EQ(E(q), gl + bl))
        ex.loop_spec = scan_spec(T, ln, match)
        return [(st, [Ptr(T), Ptr(X)], (T, ln, match, s0))]

    def post(ex, kind, st, ret, info):
        T, ln, match, s0 = info
        q = iv("q", 64)
        if kind == "exc":
            ex.assert_(st, z3.Implies(z3.ULT(q, ln), z3.Not(match(st, q))), "a recorded transaction is found")
        else:
            r = zx64(ret)
            ex.assert_(st, z3.ULT(r, ln), "found entry is inside the table")
            ex.assert_(st, match(st, r), "format, lengths and every data byte of the found entry equal those of the searched XID")
        all_same(ex, st, s0, T, "searching changes nothing")
    verify(ctx, ex, "w_find", setup, post)


def run_size(ctx):
    """needed() and init(): the reserved memory holds the table; entry size is rounded up to the alignment"""
    ex = ctx.exec("nearest")
    ne = nearest_contract(ex)
    verify_nearest(ctx, ex)
    ex = ctx.exec("w_init", rules=[[(NEAREST, ne)]])

    def setup(ex, st):
        T = Region("table", 32)
        n, g = iv("n", 64), iv("g", 64)
        st.assume([z3.ULE(n, 0xffff), z3.ULE(g, 1 << 20)])
        return [(st, [Ptr(T), n, g], (T, n, g))]

    def post(ex, kind, st, ret, info):
        T, n, g = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        es = st.rd(T, ESZ, 8)
        ex.assert_(st, z3.And(st.rd(T, LEN, 8) == 0, st.rd(T, SIZE, 8) == n, st.rd(T, MAXG, 8) == g), "table is empty with the requested capacity")
        ex.assert_(st, z3.And(z3.UGE(es, g + GRP), es & 7 == 0, z3.ULE(es, g + GRP + 16)), "every entry has room for all groups and is aligned")
    verify(ctx, ex, "w_init", setup, post)
    ex = ctx.exec("w_needed", rules=[[(NEAREST, ne)]])

    def setup2(ex, st):
        n, g = iv("n", 64), iv("g", 64)
        st.assume([z3.ULE(n, 0xffff), z3.ULE(g, 1 << 20)])

        def hook(a, b, s):
            s.ghost["mul"] = (a, b)
            return fresh("prod", 64)
        ex.mul_hook = lambda a, b, s: (mulu(a) if a.eq(n) else mulu(b) if b.eq(n) else None) if not (isc(a) or isc(b)) else None
        st.ghost["n"] = n
        return [(st, [n, g], (n, g))]

    def post2(ex, kind, st, ret, info):
        n, g = info
        ex.assert_(st, ret == bv(ENT) + mulu(n), "memory reserved is header plus capacity times entry size")
    verify(ctx, ex, "w_needed", setup2, post2)


NEAREST = rx(r"nearest\(unsigned long, unsigned long, unsigned long\)")


def nearest_contract(ex):
    """nearest(n, what, mult): requires mult == 1 or (mult-1)*what < n; ensures the smallest multiple of what that is >= n (at least what)"""
    def h(ex, st, args, ins):
        n, what, mult = args
        ex.assert_(st, z3.And(z3.Or(what == 8, what == 64), z3.ULT(n, 1 << 40), mult == 1), "nearest: precondition", ins.dbg)
        r = fresh("nearest", 64)
        st.assume(near(r, n, what))
        return r
    h.is_contract = True
    return h


def near(r, n, what):
    return z3.And(z3.UGE(r, n), z3.Or(r == what, z3.ULT(r, n + what)), r & (what - 1) == 0, z3.UGE(r, what), z3.ULT(r, n + what + what))


def verify_nearest(ctx, ex):
    for what in (8, 64):
        def rec(ex, st, args, ins):
            n, w, m = args
            n0, m0 = st.ghost["n"], st.ghost["m"]
            ex.assert_(st, z3.And(n == n0, w == what, z3.ULE(m, 1 << 40), z3.Or(m == 1, z3.ULT((m - 1) * what, n))), "nearest: recursive precondition")
            ex.assert_(st, z3.And(z3.ULT(m0, m), z3.ULE(m0 * what, n)), "nearest: recursion terminates")
            r = fresh("nearest", 64)
            st.assume(near(r, n, bv(what)))
            return r
        rec.is_contract = True
        ex.handlers = {}
        ex.rules.append((NEAREST, rec))

        def setup(ex, st):
            n, m = iv("n", 64), iv("mult", 64)
            st.ghost["n"], st.ghost["m"] = n, m
            st.assume([z3.ULT(n, 1 << 40), z3.UGE(m, 1), z3.ULE(m, 1 << 40), z3.Or(m == 1, z3.ULT((m - 1) * what, n))])
            return [(st, [n, bv(what), m], n)]

        def post(ex, kind, st, ret, n):
            ex.assert_(st, near(ret, n, bv(what)), "smallest multiple not below n")
        verify(ctx, ex, NEAREST.pattern, setup, post, name="nearest(n, %d, mult)" % what)


UNITS = [Unit("lemma", [], run_lemma), Unit("index", [TU], run_index), Unit("join", [TU], run_join), Unit("end", [TU], run_end),
         Unit("start", [TU], run_start), Unit("find", [TU], run_find), Unit("size", [TU], run_size)]
replay = driver("T03.cpp")
