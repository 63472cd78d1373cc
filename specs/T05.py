"""T05: ATMI transaction calls on top of TX calls"""
from engine.api import *
from engine.lib import *
from specs.common import *


def errno_rules():
    def set_err(ex, st, args, ins):
        st.ghost["tperrno"] = args[0]

    def reset(ex, st, args, ins):
        st.ghost["tperrno"] = bv(0, 32)
    return [(rx(r"fux::atmi::set_tperrno\(int, char const\*, \.\.\.\)"), set_err), (rx(r"fux::atmi::reset_tperrno\(\)"), reset)]


def callee(name, log=True):
    """contract of a TX call for its caller: any result; the call is recorded in order"""
    def h(ex, st, args, ins):
        rc = fresh(name, 32)
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((name, args, rc),)
        return rc
    h.is_contract = True
    return h


def tx_rules():
    return [(n, callee(n)) for n in ("tx_open()", "tx_close()", "tx_begin()", "tx_commit()", "tx_rollback()", "tx_info(tx_info_t*)",
                                     "tx_set_transaction_timeout(long)", "tx_open", "tx_close", "tx_begin", "tx_commit", "tx_rollback", "tx_info",
                                     "tx_set_transaction_timeout")]


def run_fn(fn, argn, call, mapping, other, success=(TX_OK,), pre=()):
    """fn(args): no flags => exactly one TX call; its result decides result and error"""
    def run(ctx):
        ex = ctx.exec(fn, rules=[errno_rules(), tx_rules()])

        def setup(ex, st):
            st.ghost["tperrno"] = iv("tperrno0")
            args = [iv("a%d" % i, 64) for i in range(argn)]
            return [(st, args, args)]

        def post(ex, kind, st, ret, args):
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            calls = [(n.rstrip("()"), a, r) for n, a, r in st.ghost.get("calls", ())]
            err = st.ghost["tperrno"]
            if argn:
                flags = args[-1]
                if not calls:
                    ex.assert_(st, z3.And(flags != 0, ret == bv(-1, 32), err == TPEINVAL), "only non-zero flags are refused without acting")
                    return
                ex.assert_(st, flags == 0, "non-zero flags are refused without acting")
            names = [n.split("(")[0] for n, _, _ in calls]
            if call == "tx_begin":
                ex.assert_(st, z3.BoolVal(names in (["tx_set_transaction_timeout"], ["tx_set_transaction_timeout", "tx_begin"])), "timeout is set, then the transaction begins")
                ex.assert_(st, calls[0][1][0] == args[0], "the given timeout is set")
                if len(calls) == 1:
                    ex.assert_(st, calls[0][2] != TX_OK, "transaction begins when the timeout was accepted")
                else:
                    ex.assert_(st, calls[0][2] == TX_OK, "transaction does not begin when the timeout was refused")
            else:
                ex.assert_(st, z3.BoolVal(names == [call]), "exactly one TX operation is performed")
            rc = calls[-1][2]
            okc = z3.Or(*[rc == s for s in success])
            ex.assert_(st, z3.Implies(okc, z3.And(ret == (rc if call == "tx_info" else bv(0, 32)), err == 0)), "success of the TX operation is success with no error")
            e = bv(other, 32)
            for k, v in mapping.items():
                e = z3.If(rc == k, bv(v, 32), e)
            ex.assert_(st, z3.Implies(z3.Not(okc), z3.And(ret == bv(-1, 32), err == e)), "failure of the TX operation gives -1 and the error it maps to")
        verify(ctx, ex, fn, setup, post)
    return run


BASE = {TX_ERROR: TPERMERR, TX_FAIL: TPERMERR}
PROTO = {**BASE, TX_PROTOCOL_ERROR: TPEPROTO}
COMPLETE = {**PROTO, TX_MIXED: TPEHEURISTIC, TX_HAZARD: TPEHAZARD}


def run_suspend(ctx):
    def susp(ex, st, args, ins):
        p = args[0]
        rc = fresh("suspend", 32)
        st.cp(p.r, p.off, bv(152), st.ghost["xid"], bv(0))
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((args, rc),)
        return rc
    susp.is_contract = True
    ex = ctx.exec("tpsuspend", rules=[errno_rules(), [(rx(r"_tx_suspend\(tx_info_t\*\)"), susp)]])

    def setup(ex, st):
        st.ghost["tperrno"] = iv("tperrno0")
        X = st.ghost["xid"] = Region("xid", 152).bytewise()
        T = Region("tranid", 48).bytewise()
        flags = iv("flags", 64)
        g, b = st.rd(X, bv(8), 8), st.rd(X, bv(16), 8)
        st.assume([g >= 0, g <= 64, b >= 0, b <= 64])     # lengths of a well formed XID
        s2 = st.fork()
        return [(st, [Ptr(T), flags], (X, T, flags, st.fork())), (s2, [NULL, flags], (X, None, flags, None))]

    def post(ex, kind, st, ret, info):
        X, T, flags, s0 = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        calls = st.ghost.get("calls", ())
        err = st.ghost["tperrno"]
        if not calls:
            ex.assert_(st, z3.And(z3.Or(z3.BoolVal(T is None), flags != 0), ret == bv(-1, 32), err == TPEINVAL), "only a null argument or non-zero flags are refused without acting")
            return
        ex.assert_(st, z3.And(z3.BoolVal(T is not None), flags == 0), "null argument and non-zero flags are refused")
        rc = calls[0][1]
        used = 24 + st.rd(X, bv(8), 8) + st.rd(X, bv(16), 8)
        ok = z3.And(rc == TX_OK, used <= 48)
        e = bv(TPESYSTEM, 32)
        for k, v in {**COMPLETE, TX_OK: TPEINVAL}.items():
            e = z3.If(rc == k, bv(v, 32), e)
        ex.assert_(st, z3.BoolVal(len(calls) == 1), "suspends once")
        ex.assert_(st, z3.Implies(ok, z3.And(ret == 0, err == 0)), "successful suspend succeeds")
        ex.assert_(st, z3.Implies(z3.Not(ok), z3.And(ret == bv(-1, 32), err == e)), "failed suspend, or an identifier that does not fit, gives the error it maps to")
        b = iv("b", 64)
        ex.assert_(st, z3.Implies(z3.And(ok, z3.ULT(b, used)), st.rd(T, b, 1) == st.rd(X, b, 1)), "the identifier of the suspended transaction is stored")
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(b, 48), z3.Or(z3.Not(ok), z3.UGE(b, used))), st.rd(T, b, 1) == s0.rd(T, b, 1)), "nothing else is stored")
    verify(ctx, ex, "tpsuspend", setup, post)


def run_resume(ctx):
    def res(ex, st, args, ins):
        rc = fresh("resume", 32)
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((args, rc, st.fork()),)
        return rc
    res.is_contract = True
    ex = ctx.exec("tpresume", rules=[errno_rules(), [(rx(r"_tx_resume\(tx_info_t\*\)"), res)]])

    def setup(ex, st):
        st.ghost["tperrno"] = iv("tperrno0")
        T = Region("tranid", 48).bytewise()
        flags = iv("flags", 64)
        s2 = st.fork()
        return [(st, [Ptr(T), flags], (T, flags, st.fork())), (s2, [NULL, flags], (None, flags, None))]

    def post(ex, kind, st, ret, info):
        T, flags, s0 = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        calls = st.ghost.get("calls", ())
        err = st.ghost["tperrno"]
        if not calls:
            ex.assert_(st, z3.And(z3.Or(z3.BoolVal(T is None), flags != 0), ret == bv(-1, 32), err == TPEINVAL), "only a null argument or non-zero flags are refused without acting")
            return
        ex.assert_(st, z3.And(z3.BoolVal(T is not None), flags == 0), "null argument and non-zero flags are refused")
        (p,), rc, sc = calls[0]
        e = bv(TPESYSTEM, 32)
        for k, v in COMPLETE.items():
            e = z3.If(rc == k, bv(v, 32), e)
        ex.assert_(st, z3.BoolVal(len(calls) == 1), "resumes once")
        ex.assert_(st, z3.Implies(rc == TX_OK, z3.And(ret == 0, err == 0)), "successful resume succeeds")
        ex.assert_(st, z3.Implies(rc != TX_OK, z3.And(ret == bv(-1, 32), err == e)), "failed resume gives the error it maps to")
        b = iv("b", 64)
        ex.assert_(st, z3.Implies(z3.ULT(b, 48), sc.rd(p.r, p.off + b, 1) == s0.rd(T, b, 1)), "the stored identifier is resumed")
    verify(ctx, ex, "tpresume", setup, post)


UNITS = [
    Unit("tpopen", ["trx"], run_fn("tpopen", 0, "tx_open", BASE, TPESYSTEM)),
    Unit("tpclose", ["trx"], run_fn("tpclose", 0, "tx_close", PROTO, TPESYSTEM)),
    Unit("tpbegin", ["trx"], run_fn("tpbegin", 2, "tx_begin", {**PROTO, TX_OUTSIDE: TPETRAN}, TPESYSTEM)),
    Unit("tpgetlev", ["trx"], run_fn("tpgetlev", 0, "tx_info", {TX_PROTOCOL_ERROR: TPEPROTO}, TPESYSTEM, success=(0, 1))),
    Unit("tpabort", ["trx"], run_fn("tpabort", 1, "tx_rollback", {**COMPLETE, TX_COMMITTED: TPEPROTO}, TPESYSTEM)),
    Unit("tpcommit", ["trx"], run_fn("tpcommit", 1, "tx_commit", {**COMPLETE, TX_ROLLBACK: TPEABORT}, TPESYSTEM)),
    Unit("tpsuspend", ["trx"], run_suspend), Unit("tpresume", ["trx"], run_resume),
]
def replay(failed, tmp):
    return cxx_driver(tmp, "T05.cpp", [t for t in libtus() if t != "tx"])
