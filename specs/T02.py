"""T02: two-phase commit: one decision for all participants"""
from engine.api import *
from engine.lib import *
from specs.common import *
from specs.T01 import World, check_begin, check_end, protocol, xid_eq, zx, lay as lay1

grp = z3.Function("grp", BV64, z3.BitVecSort(16))      # group number of the k-th participant
res = z3.Function("vote", BV64, z3.BitVecSort(32))     # its result in the first phase
cnt_ = z3.Function("votes_for_second_phase", BV64, z3.BitVecSort(24))
cnt = lambda k: z3.ZeroExt(40, cnt_(k))      # participants among the first k that need a second phase
allok = z3.Function("all_agree", BV64, z3.BoolSort())        # the first k participants agree
acd = z3.Function("call_descriptor", BV64, z3.BitVecSort(32))
failed = z3.Function("reply_fails", z3.BitVecSort(32), z3.BoolSort())
retv = z3.Function("reply_value", z3.BitVecSort(32), BV64)
joined = z3.Function("joined", BV64, z3.BoolSort())
jcnt_ = z3.Function("joined_before", BV64, z3.BitVecSort(24))
jcnt = lambda k: z3.ZeroExt(40, jcnt_(k))

mk = z3.Function("participant", BV64, z3.BoolSort())         # marks indices for the instantiation of quantified facts


def lay():
    return layout(["src/tx.cpp"], {
        "sz": "sizeof(branch)", "grpno": "offsetof(branch, grpno)", "cd": "offsetof(branch, cd)", "result": "offsetof(branch, result)",
        "prepare": "(int)fux::tm::prepare", "commit": "(int)fux::tm::commit", "rollback": "(int)fux::tm::rollback",
        "XAFUNC": "TA_XAFUNC", "XID": "TA_XID", "RMID": "TA_RMID", "FLAGS": "TA_FLAGS", "XARET": "TA_XARET",
        "groups": "offsetof(transaction, groups)", "maxg": "offsetof(transaction_table, max_groups)",
        "gsz": "sizeof(group)", "ggrpno": "offsetof(group, grpno)", "xid": "offsetof(transaction, xid)"})


TMERR = int(__import__("re").search(r"define\s+TMER_TMERR\s+\(?(-?\d+)", open(REPO + "/include/xa.h").read()).group(1))
BR = "branch"


def vec(st, v):
    b, e = st.rd(v.r, v.off, 8, True), st.rd(v.r, v.off + 8, 8, True)
    return b, simp(e.off - b.off)


def snap(st, name, p, n):
    s = Region(name, None, kind="heap")
    st.cp(s, bv(0), n if not isinstance(n, int) else bv(n), p.r, p.off)
    return s


# ------------------------------------------------------------------ commit / rollback
def recur(k):
    ok = z3.Or(res(k) == XA_OK, res(k) == XA_RDONLY)
    return [cnt(k + 1) == cnt(k) + z3.If(res(k) == XA_RDONLY, bv(0), bv(1)), allok(k + 1) == z3.And(allok(k), ok)]


def axioms(st, n):
    st.assume([cnt(bv(0)) == 0, allok(bv(0)), z3.ULE(n, 1 << 20)])
    st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULT(k, n), z3.And(*recur(k))), [[("votes_for_second_phase", 0), ("all_agree", 0)]], "recurrences"))
    st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULE(k, n), z3.ULE(cnt(k), k)), [[("votes_for_second_phase", 0)]], "count is at most the number"))


def complete_rules(w, L):
    def elog(st, *e):
        st.ghost["events"] = st.ghost.get("events", ()) + (e,)

    def collect(ex, st, args, ins):
        v, x = args
        xs = snap(st, "collected", x, 152)
        n = iv("participants", 64)
        axioms(st, n)
        D = Region("branches", None, kind="heap")
        st.ghost["D1"] = D
        dlog = st.log(D)
        st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULT(k, n), st.load_log(dlog, D, bv(L["sz"]) * k + L["grpno"], 2) == grp(k)), [[("grp", 0)]], "collected"))
        s2 = st.fork()
        st.wr(v.r, v.off, 8, Ptr(D, bv(0)))
        for o in (8, 16):
            st.wr(v.r, v.off + o, 8, Ptr(D, bv(L["sz"]) * n))
        st.ghost["n"] = n
        elog(st, "collect", xs)
        elog(s2, "collectfail")
        return [(st, None), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    collect.is_contract = True

    def command(ex, st, args, ins):
        v, x, c = args
        b, nb = vec(st, v)
        xs = snap(st, "commanded", x, 152)
        ds = snap(st, "branchsnap", b, nb)
        first = not [e for e in st.ghost.get("events", ()) if e[0] == "command"]
        if first and "n" in st.ghost and st.entails(nb == bv(L["sz"]) * st.ghost["n"]):
            # results of the first phase
            n = st.ghost["n"]
            D = b.r
            old = st.log(D)
            st.havoc(D)
            new = st.log(D)
            st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULT(k, n), z3.And(
                st.load_log(new, D, bv(L["sz"]) * k + L["grpno"], 2) == st.load_log(old, D, bv(L["sz"]) * k + L["grpno"], 2),
                st.load_log(new, D, bv(L["sz"]) * k + L["result"], 4) == res(k))), [[("grp", 0), ("vote", 0)]], "first phase"))
        else:
            st.havoc(b.r)
        elog(st, "command", ds, nb, xs, c)
        s2 = st.fork()
        return [(st, None)]
    command.is_contract = True

    def find(ex, st, args, ins):
        r = fresh("found", 16)
        s2 = st.fork()
        elog(s2, "findfail")
        xs = snap(st, "findxid", args[1], 152)
        elog(st, "find", xs, r)
        return [(st, r), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    find.is_contract = True

    def end(ex, st, args, ins):
        elog(st, "end", args[1])
        return None
    end.is_contract = True

    def begin(ex, st, args, ins):
        elog(st, "begin")
        C, l = w.C, w.l
        s = w.state(st)
        ex.assert_(st, z3.And(w.fmt(st) == bv(-1), w.gttid(st) == l["bad"]), "the next transaction begins after the end of this one", ins.dbg)
        s2 = st.fork()
        s2.ghost["begun"] = "fail"
        r = fresh("begin_rc", 32)
        s2.assume(r != TX_OK)
        st.ghost["begun"] = "ok"
        st.assume(z3.Or(s == 1, s == 2))      # otherwise it fails: first case
        nx = Region("newxid", 152)
        st.cp(C, bv(l["info"]), bv(152), nx, bv(0))
        st.assume(st.rd(C, bv(l["info"]), 8) == 1)
        st.wr(C, bv(l["gttid"]), 2, fresh("newgttid", 16))
        st.wr(C, bv(l["state"]), 4, s + 2)
        return [(st, bv(TX_OK, 32)), (s2, r)]
    begin.is_contract = True
    return [("tx_begin", begin), (rx(r"collect\(xid_t\*\)"), collect), (rx(r"command\(std::vector<branch.*"), command),
            (rx(r"transaction_table::find\(.*"), find), (rx(r"transaction_table::end\(.*"), end)] + vec_rules(BR, L["sz"])


def run_complete(commit):
    fn = "tx_commit" if commit else "tx_rollback"

    def run(ctx):
        L = lay()
        w = World()
        ex = ctx.exec(fn, rules=[w.rules(), complete_rules(w, L)])
        ex.quick_timeout = 30000

        def loops(c):
            st0 = c.entry
            if "D1" not in st0.ghost or "n" not in st0.ghost:
                return None
            D, n = st0.ghost["D1"], st0.ghost["n"]
            cs = cell_cands(c, (L["sz"],), [D])
            # the loop that selects participants for the second phase
            targets = [(r, o, p) for r, o, p in ptr_cells(st0) if p.r is not D and p.r.name.startswith("vector<branch") and o == 8]
            flags = [k for k, v in c.phis.items() if z3.is_expr(v) and (z3.is_bool(v) or z3.is_bv(v) and v.size() == 8)]
            for k in flags:
                for pol in (True, False):
                    def f(st, ph, k=k, pol=pol):
                        x = ph[k] if z3.is_bool(ph[k]) else ph[k] != 0
                        if not z3.is_bool(ph[k]):
                            x = z3.And(z3.ULE(ph[k], 1), x == allok(ph["#it"])) if pol else z3.And(z3.ULE(ph[k], 1), x == z3.Not(allok(ph["#it"])))
                            return x
                        return x == (allok(ph["#it"]) if pol else z3.Not(allok(ph["#it"])))
                    cs.append(Cand("%s %s agreement so far" % (k, "is" if pol else "is not"), f))
            for r, o, p in targets:
                def g(st, ph, r=r, o=o, p=p):
                    q = st.rd(r, bv(o), 8, True)
                    return q.off == bv(L["sz"]) * cnt(ph["#it"]) if q.r is p.r else z3.BoolVal(False)
                cs.append(Cand("selected so far", g))

                def h(st, ph, r=r, p=p):
                    lg = st.log(p.r)
                    it = ph["#it"]
                    return Forall([BV64], lambda k: z3.Implies(z3.And(mk(k), z3.ULT(k, it), res(k) != XA_RDONLY), z3.And(
                        z3.ULT(cnt(k), cnt(it)), st.load_log(lg, p.r, bv(L["sz"]) * cnt(k) + L["grpno"], 2) == grp(k))), [[("participant", 0)]], "selection")
                cs.append(Cand("selected are those", h))
            cs.append(Cand("in range", lambda st, ph: z3.ULE(ph["#it"], n)))
            return {"cands": cs, "variants": variant_cands(c, {"n": n}) + [Cand("it", lambda st, ph: n - ph["#it"])],
                    "hints": [lambda st, ph: z3.And(mk(ph["#it"]), touch(grp(ph["#it"])), touch(res(ph["#it"])), touch(cnt(ph["#it"])))]}
        ex.loop_spec = loops

        def setup(ex, st):
            w.setup(ex, st)
            return [(st, [], st.fork())]

        def post(ex, kind, st, ret, s0):
            ex.assert_(st, w.mode_inv(st), "mode follows the reported transaction control")
            ev = list(st.ghost.get("events", ()))
            if kind == "exc":
                ex.assert_(st, z3.BoolVal(any(e[0] in ("findfail", "collectfail") for e in ev) and not any(e[0] in ("command", "end") for e in ev)),
                           "given up only when the transaction is not in the table, before any decision")
                return
            if not ev:
                if not protocol(ex, w, st, ret, s0, (3, 4)):
                    return
                r = check_end(ex, w, st, s0, TMSUCCESS)
                ex.assert_(st, z3.And(r != XA_OK, ret == bv(TX_FAIL, 32), z3.BoolVal(len(w.rm(st)) == 1), w.state(st) == w.state(s0)), "refused only when the own branch cannot be ended")
                return
            n = st.ghost["n"]
            r = check_end(ex, w, st, s0, TMSUCCESS)
            s = w.state(s0)
            ex.assert_(st, z3.And(r == XA_OK, z3.Or(s == 3, s == 4)), "completed only within a transaction whose own branch has ended")
            kinds = [e[0] for e in ev if e[0] != "find"]
            finds = [e for e in ev if e[0] == "find"]
            ex.assert_(st, z3.BoolVal(kinds[:4 if commit else 3] == ["collect"] + ["command"] * (2 if commit else 1) + ["end"] and kinds.count("command") == (2 if commit else 1) and kinds.count("collect") == 1 and kinds.count("end") == 1), "participants are collected, asked%s, then the entry is released" % (" to prepare and told the decision" if commit else " to roll back"))
            col = [e for e in ev if e[0] == "collect"][0]
            cmds = [e for e in ev if e[0] == "command"]
            end = [e for e in ev if e[0] == "end"][0]
            for x in [col[1]] + [c[3] for c in cmds] + [f[1] for f in finds]:
                ex.assert_(st, xid_eq(st, x, 0, s0, w.C, w.l["info"]), "all about the completed transaction")
            ex.assert_(st, z3.And(z3.BoolVal(len(finds) == 1), end[1] == z3.ZeroExt(48, finds[0][2])), "its own table entry is released")
            ds, nb, _, c = cmds[0][1:]
            k = fresh("participant", 64)
            st.assume([mk(k), touch(grp(k)), touch(res(k)), touch(cnt(k)), touch(cnt(k + 1)), touch(cnt(n)), touch(allok(n))])
            rd = lambda s, off: st.rd(s, off, 2)
            ex.assert_(st, z3.And(nb == bv(L["sz"]) * n, z3.Implies(z3.ULT(k, n), rd(ds, bv(L["sz"]) * k + L["grpno"]) == grp(k))), "every participant is asked")
            first = L["prepare"] if commit else L["rollback"]
            ex.assert_(st, c == first, "participants are asked to prepare" if commit else "participants are told to roll back")
            outcome = bv(TX_OK, 32)
            if commit:
                ds, nb, _, c2 = cmds[1][1:]
                ex.assert_(st, nb == bv(L["sz"]) * cnt(n), "the second phase goes to all that need it and no other")
                ex.assert_(st, z3.Implies(z3.And(z3.ULT(k, n), res(k) != XA_RDONLY), z3.And(z3.ULT(cnt(k), cnt(n)), rd(ds, bv(L["sz"]) * cnt(k) + L["grpno"]) == grp(k))), "each participant that needs the second phase takes part")
                ex.assert_(st, c2 == z3.If(allok(n), bv(L["commit"], 32), bv(L["rollback"], 32)), "commit exactly when every participant agreed, otherwise roll back")
                outcome = z3.If(allok(n), bv(TX_OK, 32), bv(TX_ROLLBACK, 32))
            ex.assert_(st, z3.BoolVal(len(w.rm(st)) == 1), "nothing else is asked of the own resource manager")
            if st.entails(s == 3):
                ex.assert_(st, z3.And(ret == outcome, w.state(st) == 1, z3.BoolVal("begin" not in kinds)), "the decision is reported and the thread is idle")
                ex.assert_(st, z3.And(w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"]), "no transaction afterwards")
            else:
                ex.assert_(st, z3.BoolVal(kinds[-1] == "begin" and kinds.count("begin") == 1), "the next transaction begins last")
                ok = st.ghost["begun"] == "ok"
                ex.assert_(st, w.state(st) == (4 if ok else 2), "in the next transaction or idle, still chained")
                ex.assert_(st, ret == outcome + (0 if ok else TX_NO_BEGIN), "the decision is reported even when the next transaction cannot begin")
            w.same(ex, st, s0, ("state", "xid", "gttid"))
        verify(ctx, ex, fn, setup, post)
    return run


def touch(t):
    """a term for the instantiation of quantified facts"""
    return z3.Function("touch_%s" % (t.size() if z3.is_bv(t) else "b"), t.sort(), z3.BoolSort())(t)


# ------------------------------------------------------------------ lemma about the count
def run_lemma(ctx):
    ex = ctx.exec("lemma: number of participants for the second phase")
    st = State()
    n, k = iv("n", 64), iv("k", 64)
    st.assume([z3.ULE(n, 1 << 20), cnt(bv(0)) == 0])
    ex.assert_(st, z3.ULE(cnt(bv(0)), 0), "none at the start")
    s = st.fork()
    s.assume([z3.ULT(k, n), z3.ULE(cnt(k), k)] + recur(k))
    ex.assert_(s, z3.And(z3.ULE(cnt(k + 1), k + 1), z3.ULE(cnt(k), cnt(k + 1)), z3.Implies(res(k) != XA_RDONLY, z3.ULT(cnt(k), cnt(k + 1)))), "grows by at most one for each participant")


# ------------------------------------------------------------------ participants of a transaction
def run_collect(ctx):
    L = lay()
    w = World()
    T = w.T
    E = Region("transaction", None)
    GR = Region("groups", None)

    def index(ex, st, args, ins):
        if len(st.ghost.get("find", ())) != 1:
            raise EngineError("transaction entry without lookup")
        ex.assert_(st, args[1] == z3.ZeroExt(48, st.ghost["find"][0][1]), "entry of the transaction that was found")
        s2 = st.fork()
        return [(st, Ptr(E)), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    index.is_contract = True

    def find(ex, st, args, ins):
        r = fresh("found", 16)
        s2 = st.fork()
        st.ghost["find"] = st.ghost.get("find", ()) + ((snap(st, "findxid", args[1], 152), r),)
        return [(st, r), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    find.is_contract = True

    def at(ex, st, args, ins):
        s2 = st.fork()
        return [(st, Ptr(GR, args[1] * L["gsz"])), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    at.is_contract = True
    ex = ctx.exec("collect", rules=[w.rules(), vec_rules(BR, L["sz"]), [
        (rx(r"transaction_table::find\(.*"), find), (rx(r"transaction_table::operator\[\]\(unsigned long\)|transaction_table::at\(.*"), index),
        (rx(r"mib::groups\(\)"), lambda ex, st, a, i: Ptr(GR)),
        (rx(r"mibarrptr<group>::(at|operator\[\])\(unsigned long\) const"), at)]])

    def setup(ex, st):
        w.setup(ex, st)
        V, X = Region("result", 24), Region("xid", 152)
        mg = st.rd(T, bv(L["maxg"]), 8)
        st.assume([z3.ULE(mg, 1 << 16), jcnt(bv(0)) == 0])
        e0, g0 = st.log(E), st.log(GR)
        fl = lambda k: st.load_log(e0, E, bv(L["groups"]) + k, 1) == 1
        st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULT(k, mg), z3.And(
            z3.ULE(st.load_log(e0, E, bv(L["groups"]) + k, 1), 1),     # flags are 0 or 1: invariant of T03
            joined(k) == fl(k), jcnt(k + 1) == jcnt(k) + z3.If(joined(k), bv(1), bv(0)), z3.ULE(jcnt(k), k),
            grp(k) == st.load_log(g0, GR, k * L["gsz"] + L["ggrpno"], 2))), [[("joined_before", 0)]], "participants"))
        return [(st, [Ptr(V), Ptr(X)], (V, X, mg, st.fork()))]

    def loops(c):
        st0 = c.entry
        mg = st0.rd(T, bv(L["maxg"]), 8)
        cs = [Cand("in range", lambda st, ph: z3.ULE(ph["#it"], mg))]
        for r, o, p in ptr_cells(st0):
            if p.r.name.startswith("vector<branch") and o == 8:
                def g(st, ph, r=r, p=p):
                    q = st.rd(r, bv(8), 8, True)
                    return q.off == bv(L["sz"]) * jcnt(ph["#it"]) if q.r is p.r else z3.BoolVal(False)
                cs.append(Cand("collected so far", g))

                def h(st, ph, p=p):
                    lg, it = st.log(p.r), ph["#it"]
                    return Forall([BV64], lambda k: z3.Implies(z3.And(z3.ULT(k, it), joined(k)), z3.And(z3.ULT(jcnt(k), jcnt(it)),
                                  st.load_log(lg, p.r, bv(L["sz"]) * jcnt(k) + L["grpno"], 2) == grp(k))), [[("joined_before", 0)]], "collected")
                cs.append(Cand("collected are those", h))
        return {"cands": cs, "variants": [Cand("it", lambda st, ph: mg - ph["#it"])], "hints": [lambda st, ph: touch(jcnt(ph["#it"]))]}
    ex.loop_spec = loops

    def post(ex, kind, st, ret, info):
        V, X, mg, s0 = info
        if kind == "exc":
            return
        fs = st.ghost.get("find", ())
        ex.assert_(st, z3.BoolVal(len(fs) == 1), "the transaction is looked up")
        ex.assert_(st, xid_eq(st, fs[0][0], 0, s0, X, 0), "by its identifier")
        b, nb = vec(st, Ptr(V, bv(0)))
        k = fresh("group", 64)
        st.assume([touch(jcnt(k)), touch(jcnt(mg)), touch(jcnt(k + 1))])
        ex.assert_(st, z3.And(nb == bv(L["sz"]) * jcnt(mg), b.off == 0), "as many as participants")
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(k, mg), joined(k)), z3.And(z3.ULT(jcnt(k), jcnt(mg)), st.rd(b.r, bv(L["sz"]) * jcnt(k) + L["grpno"], 2) == grp(k))), "every group that joined is collected")
        i = fresh("byte", 64)
        ex.assert_(st, st.rd(E, i, 1) == s0.rd(E, i, 1), "the entry is not changed")
    verify(ctx, ex, r"collect\(xid_t\*\)", setup, post)


# ------------------------------------------------------------------ asking all participants
def fml_rules(L, log_xid):
    def put(ex, st, args, ins):
        b, fld, oc, v = args
        f = cval(simp(fld))
        val = v
        if isinstance(v, Ptr):
            val = st.ghost.get(("xidstr", v.r))
        st.ghost["fields"] = dict(st.ghost.get("fields", {}))
        st.ghost["fields"][(f, cval(simp(oc)))] = val
        return args[0]
    put.is_contract = True

    def to_s(ex, st, args, ins):
        st.ghost[("xidstr", args[0].r)] = snap(st, "textxid", args[1], 152)
        return None
    to_s.is_contract = True
    return [(rx(r"fux::fml32buf::put\(.*\)"), put), (rx(r"fux::to_string(\[abi:cxx11\])?\(xid_t\*\)"), to_s),
            (rx(r"fux::fml32buf::fml32buf\(.*\)|fux::fml32buf::~fml32buf\(\)"), lambda ex, st, a, i: None),
            (rx(r"tpstrerror"), h_opaque_cstr)]


def run_command(ctx):
    L = lay()
    w = World()
    BUF = Region("replybuffer", None)
    PP = Region("bufferptr", 8)
    ERR = Region("tperrno", 4)
    N = iv("n", 64)
    SZ = bv(L["sz"])
    D, X, V = Region("branches", None), Region("xid", 152), Region("vector", 24)
    cmd = iv("command", 32)
    ex = ctx.exec("command")

    def pacall(ex, st, args, ins):
        g, svc, data, ln, fl = args
        k = st.ghost["calls"]
        f = st.ghost.get("fields", {})
        s0 = st.ghost["s0"]
        lg = [(st.log(D), D)]
        st.assume(mk(k))
        ex.assert_(st, z3.ULT(k, N), "no more calls than participants", ins.dbg)
        ex.assert_(st, g == zx(s0.rd(D, SZ * k + L["grpno"], 2)), "the participant's own transaction manager is called", ins.dbg)
        ex.assert_(st, z3.BoolVal((L["XAFUNC"], 0) in f and (L["RMID"], 0) in f and (L["XID"], 0) in f and (L["FLAGS"], 0) in f), "request is complete", ins.dbg)
        ex.assert_(st, f[(L["XAFUNC"], 0)] == z3.SignExt(32, cmd), "with the requested operation", ins.dbg)
        ex.assert_(st, f[(L["RMID"], 0)] == z3.ZeroExt(32, g), "for its resource manager", ins.dbg)
        ex.assert_(st, f[(L["FLAGS"], 0)] == 0, "without flags", ins.dbg)
        x = f[(L["XID"], 0)]
        ex.assert_(st, z3.BoolVal(isinstance(x, Region)), "with an identifier", ins.dbg)
        ex.assert_(st, xid_eq(st, x, 0, s0, X, 0), "of the transaction", ins.dbg)
        nm = bytes(cval(simp(st.rd(svc.r, svc.off + i, 1))) for i in range(4))
        ex.assert_(st, z3.BoolVal(nm == b".TM\0" and data.r is BUF), "transaction manager service", ins.dbg)
        ex.assert_(st, fl == TPNOTIME | TPNOTRAN, "outside of a transaction and without time limit", ins.dbg)
        st.ghost["calls"] = simp(k + 1)
        st.wr(ERR, bv(0), 4, fresh("err", 32))
        st.assume(z3.UGE(acd(k) + 1, 0))
        return acd(k)
    pacall.is_contract = True

    def getrply(ex, st, args, ins):
        pcd, data, ln, fl = args
        c = st.rd(pcd.r, pcd.off, 4)
        ex.assert_(st, z3.And(fl & (TPGETANY | TPNOBLOCK) == 0, fl & TPNOTIME != 0), "waits for exactly this reply", ins.dbg)
        ex.assert_(st, c != bv(-1, 32), "of a call that was made", ins.dbg)
        st.wr(pcd.r, pcd.off, 4, c)
        st.wr(ln.r, ln.off, 8, fresh("len", 64))
        s2, s3 = st.fork(), st.fork()
        # not yet
        st.wr(ERR, bv(0), 4, bv(TPETIME, 32))
        # failed
        s2.assume(failed(c))
        e = fresh("err", 32)
        s2.assume(e != TPETIME)
        s2.wr(ERR, bv(0), 4, e)
        s3.assume(z3.Not(failed(c)))
        s3.wr(BUF, bv(0), 4, c)
        r = fresh("rc", 32)
        s3.assume(r != bv(-1, 32))
        return [(st, bv(-1, 32)), (s2, bv(-1, 32)), (s3, r)]
    getrply.is_contract = True

    def get(ex, st, args, ins):
        f = cval(simp(args[1]))
        ex.assert_(st, z3.BoolVal(f == L["XARET"]), "the result is read", ins.dbg)
        return retv(st.rd(BUF, bv(0), 4))
    get.is_contract = True
    ex.rules += w.rules() + vec_rules(BR, L["sz"]) + fml_rules(L, X) + [
        (rx(r"tpacall_group\(.*"), pacall), ("tpgetrply", getrply), (rx(r"_tls_tperrno"), lambda ex, st, a, i: Ptr(ERR)),
        (rx(r"fux::fml32buf::ptrptr\(\) const"), lambda ex, st, a, i: Ptr(PP)),
        (rx(r"fux::fml32buf::ptr\(\) const"), lambda ex, st, a, i: Ptr(BUF)),
        (rx(r"long fux::fml32buf::get<long>\(.*|fux::fml32buf::get\(unsigned int, int, fux::identity<long>\)"), get)]

    def setup(ex, st):
        w.setup(ex, st)
        st.wr(PP, bv(0), 8, Ptr(BUF))
        st.assume(z3.ULE(N, 1 << 20))
        st.wr(V, bv(0), 8, Ptr(D, bv(0)))
        for o in (8, 16):
            st.wr(V, bv(o), 8, Ptr(D, SZ * N))
        st.ghost["calls"] = bv(0)
        s0 = st.fork()
        st.ghost["s0"] = s0
        return [(st, [Ptr(V), Ptr(X), cmd], s0)]

    def result(k):
        return z3.If(z3.Or(acd(k) == bv(-1, 32), failed(acd(k))), bv(TMERR, 32), z3.Extract(31, 0, retv(acd(k))))

    def loops(c):
        if not c.dem.startswith("command("):
            return None
        st0 = c.entry
        cells = [x for x in ptr_cells(st0) if x[2].r is D and x[0].kind == "stack"]
        if not cells and not any(isinstance(v, Ptr) and v.r is D for v in c.phis.values()):
            pass
        cs = cell_cands(c, (L["sz"],), [D])
        cs.append(Cand("in range", lambda st, ph: z3.ULE(ph["#it"], N)))
        cs.append(Cand("calls so far", lambda st, ph: st.ghost["calls"] == ph["#it"]))
        cs.append(Cand("all called", lambda st, ph: st.ghost["calls"] == N))
        s0 = st0.ghost["s0"]

        def fl(off, n, val, upto):
            def f(st, ph):
                lg = st.log(D)
                lim = upto(ph)
                return Forall([BV64], lambda k: z3.Implies(z3.And(mk(k), z3.ULT(k, lim)), st.load_log(lg, D, SZ * k + off, n) == val(k)), [[("participant", 0)]], "participants")
            return f
        old = s0.log(D)
        cs.append(Cand("groups kept", fl(L["grpno"], 2, lambda k: s0.load_log(old, D, SZ * k + L["grpno"], 2), lambda ph: N)))
        cs.append(Cand("descriptors recorded so far", fl(L["cd"], 4, acd, lambda ph: ph["#it"])))
        cs.append(Cand("descriptors recorded", fl(L["cd"], 4, acd, lambda ph: N)))
        cs.append(Cand("results recorded so far", fl(L["result"], 4, result, lambda ph: ph["#it"])))
        cs += same_cells(c)      # the descriptor waited for stays the same while waiting
        return {"cands": cs, "variants": [], "hints": [lambda st, ph: mk(ph["#it"])],
                "havoc_ghost": {"calls": lambda ex, s: fresh("calls", 64), "fields": lambda ex, s: {}}}
    ex.loop_spec = loops

    def post(ex, kind, st, ret, s0):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        k = fresh("participant", 64)
        st.assume(mk(k))
        ex.assert_(st, st.ghost["calls"] == N, "every participant's transaction manager is called once")
        ex.assert_(st, z3.Implies(z3.ULT(k, N), st.rd(D, SZ * k + L["result"], 4) == result(k)), "every participant's own answer is recorded, a failed call as a failure")
        ex.assert_(st, z3.Implies(z3.ULT(k, N), st.rd(D, SZ * k + L["grpno"], 2) == s0.rd(D, SZ * k + L["grpno"], 2)), "participants stay the same")
        ex.assert_(st, z3.And(*[z3.BoolVal(st.rd(V, bv(o), 8, True).r is D) for o in (0, 8)]), "no participant is added")
        ex.assert_(st, z3.And(st.rd(V, bv(8), 8, True).off == SZ * N, st.rd(V, bv(0), 8, True).off == 0), "no participant is added or dropped")
    verify(ctx, ex, r"command\(std::vector<branch.*", setup, post)


# ------------------------------------------------------------------ transaction manager
def run_tm(ctx):
    L = lay()
    w = World()
    BUF = Region("buffer", None)
    val = {}

    def get(ex, st, args, ins):
        f = cval(simp(args[1]))
        val.setdefault(f, iv("field%d" % f, 64))
        s2 = st.fork()
        return [(st, val[f]), (s2, Exc("_ZTIN3fux14fml32buf_errorE", Ptr(exc_obj())))]
    get.is_contract = True

    def gets(ex, st, args, ins):
        f = cval(simp(args[2]))
        st.ghost[("fieldstr", args[0].r)] = f
        s2 = st.fork()
        return [(st, None), (s2, Exc("_ZTIN3fux14fml32buf_errorE", Ptr(exc_obj())))]
    gets.is_contract = True
    PX = Region("parsedxid", 152)

    def to_xid(ex, st, args, ins):
        ex.assert_(st, z3.BoolVal(st.ghost.get(("fieldstr", args[1].r)) == L["XID"]), "the identifier of the request is used", ins.dbg)
        st.cp(args[0].r, args[0].off, bv(152), PX, bv(0))
        s2 = st.fork()
        return [(st, None), (s2, Exc("_ZTISt11logic_error", Ptr(exc_obj())))]
    to_xid.is_contract = True
    ex = ctx.exec("tm", rules=[w.rules(), fml_rules(L, None), [
        (rx(r"long fux::fml32buf::get<long>\(.*|fux::fml32buf::get\(unsigned int, int, fux::identity<long>\)"), get),
        (rx(r".*fux::fml32buf::get<std::__cxx11::basic_string.*|fux::fml32buf::get(\[abi:cxx11\])?\(unsigned int, int, fux::identity<std::.*"), gets),
        (rx(r"fux::to_xid\(.*"), to_xid)]])

    def setup(ex, st):
        w.setup(ex, st)
        st.log(PX)
        return [(st, [Ptr(BUF)], st.fork())]

    def post(ex, kind, st, ret, s0):
        rm = w.rm(st)
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(not rm), "an invalid request asks nothing")
            return
        f = st.ghost.get("fields", {})
        ex.assert_(st, z3.BoolVal(list(f) == [(L["XARET"], 0)]), "the result is the answer")
        func = val.get(L["XAFUNC"])
        r = f[(L["XARET"], 0)]
        names = {L["prepare"]: "prepare", L["commit"]: "commit", L["rollback"]: "rollback"}
        if not rm:
            ex.assert_(st, z3.And(*[func != k for k in names]), "a known operation is performed")
            ex.assert_(st, r == bv(XAER_INVAL), "an unknown operation is refused")
            return
        ex.assert_(st, z3.BoolVal(len(rm) == 1), "one operation")
        k, (p, rmid, fl), sn, rc = rm[0]
        ex.assert_(st, z3.Or(*[z3.And(func == n, z3.BoolVal(k == nm)) for n, nm in names.items()]), "the requested operation is performed")
        ex.assert_(st, xid_eq(st, sn, 0, s0, PX, 0), "on the requested transaction")
        ex.assert_(st, z3.And(rmid == z3.Extract(31, 0, val[L["RMID"]]), fl == val[L["FLAGS"]]), "by the requested resource manager with the requested flags")
        ex.assert_(st, r == z3.SignExt(32, rc), "its result is the answer")
        w.same(ex, st, s0, name="the own thread's context is not involved")
    verify(ctx, ex, r"tm\(fux::fml32buf&\)", setup, post)


UNITS = [
    Unit("tx_commit", ["tx"], run_complete(True)),
    Unit("tx_rollback", ["tx"], run_complete(False)),
    Unit("lemma", ["tx"], run_lemma),
    Unit("participants", ["tx"], run_collect),
    Unit("command", ["tx"], run_command),
    Unit("transaction manager", ["tx"], run_tm),
]
from specs.T01 import replay
