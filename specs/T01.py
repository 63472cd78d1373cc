"""T01: TX state machine of a thread"""
from engine.api import *
from engine.lib import *
from specs.common import *


def lay():
    return layout(["src/tx.cpp"], {
        "state": "offsetof(tx_context, state)", "grpcfg": "offsetof(tx_context, grpcfg)", "info": "offsetof(tx_context, info)",
        "gttid": "offsetof(tx_context, gttid)", "mib": "offsetof(tx_context, mibcon_)", "size": "sizeof(tx_context)",
        "s0": "(int)tx_state::s0", "s1": "(int)tx_state::s1", "s2": "(int)tx_state::s2", "s3": "(int)tx_state::s3", "s4": "(int)tx_state::s4",
        "gsz": "sizeof(group)", "gopen": "offsetof(group, openinfo)", "gclose": "offsetof(group, closeinfo)", "ggrpno": "offsetof(group, grpno)",
        "bad": "fux::bad_gttid", "xidsz": "sizeof(XID)"})


SW = {"open": 48, "close": 56, "start": 64, "end": 72, "rollback": 80, "prepare": 88, "commit": 96}
START_ERR = {XAER_RMERR: TX_ERROR, XAER_DUPID: TX_ERROR, XAER_INVAL: TX_FAIL, XAER_PROTO: TX_ERROR, XAER_RMFAIL: TX_FAIL, XAER_OUTSIDE: TX_OUTSIDE}


class World:
    """context of the calling thread, resource manager switch, table and identifiers as contracts for the TX functions"""

    def __init__(self):
        self.l = lay()
        self.C = Region("context", self.l["size"]).bytewise()
        self.S = Region("xaswitch", 200)
        self.G = Region("group", self.l["gsz"])
        self.MIB = Region("mib", 256)
        self.T = Region("transactions", None)
        self.grp = True
        self.grpno = iv("grpno", 16)
        self.grpidx = iv("grpidx", 64)

    def rules(self):
        w = self

        def ctxt(ex, st, args, ins):
            return Ptr(w.C)
        ctxt.is_contract = True

        def rm(kind):
            def h(ex, st, args, ins):
                r = fresh("xa_" + kind, 32)
                snap = st.rd(args[0].r, args[0].off, 1)
                if kind not in ("open", "close"):
                    snap = Region("xidsnap", 152)
                    st.cp(snap, bv(0), bv(152), args[0].r, args[0].off)
                st.ghost["rm"] = st.ghost.get("rm", ()) + ((kind, args, snap, r),)
                return r
            return h

        def genuid(ex, st, args, ins):
            r = fresh("uid", 64)
            st.ghost["uid"] = st.ghost.get("uid", ()) + (r,)
            return r
        genuid.is_contract = True

        def snapx(st, p):
            s = Region("xidarg", 152)
            st.cp(s, bv(0), bv(152), p.r, p.off)
            return s

        def tlog(st, *e):
            st.ghost["table"] = st.ghost.get("table", ()) + (e,)

        def start(ex, st, args, ins):
            r = fresh("gttid", 16)
            s2 = st.fork()
            tlog(s2, "startfail")
            tlog(st, "start", snapx(st, args[1]), args[2], r)
            st.assume(r != w.l["bad"])
            return [(st, r), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
        start.is_contract = True

        def find(ex, st, args, ins):
            r = fresh("found", 16)
            s2 = st.fork()
            tlog(s2, "findfail")
            tlog(st, "find", snapx(st, args[1]), r)
            return [(st, r), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
        find.is_contract = True

        def end(ex, st, args, ins):
            tlog(st, "end", args[1])
            return None
        end.is_contract = True

        def join(ex, st, args, ins):
            s2 = st.fork()
            tlog(s2, "joinfail")
            t = Region("entry", None)
            st.ghost["joined"] = t
            tlog(st, "join", args[1], args[2], t)
            return [(st, Ptr(t)), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
        join.is_contract = True
        m = lambda p: rx(p)
        return [("getctxt()", ctxt), (m(r"getmib\(\)"), lambda ex, st, a, i: Ptr(w.MIB)), (m(r"mib::genuid\(\)"), genuid),
                (m(r"mib::transactions\(\)"), lambda ex, st, a, i: Ptr(w.T)), (m(r"transaction_table::start\(.*"), start),
                (m(r"transaction_table::find\(.*"), find), (m(r"transaction_table::end\(.*"), end), (m(r"transaction_table::join\(.*"), join),
                (m(r"fux::to_string(\[abi:cxx11\])?\(xid_t\*\)"), h_opaque_str), (m(r"userlog.*"), h_none),
                (m(re.escape(STR) + r"::c_str\(\) const"), h_opaque_cstr)] + \
            [("xa_%s" % k, rm(k)) for k in SW]

    def setup(self, ex, st, states=None, inv=True):
        l, C = self.l, self.C

        def hook_ptr(r, v, n):
            st.wr(r, bv(0), n, v)
        for k, o in SW.items():
            f = Region("fn:xa_" + k, 0, kind="func", func="xa_" + k)
            st.wr(self.S, bv(o), 8, Ptr(f))
        st.wr(ex.global_ptr("_ZN3fux4glob4xaswE").r, bv(0), 8, Ptr(self.S))
        st.wr(ex.global_ptr("_ZN3fux2tx5grpnoE").r, bv(0), 2, self.grpno)
        st.wr(ex.global_ptr("_ZN3fux2tx6grpidxE").r, bv(0), 8, self.grpidx)
        st.wr(C, bv(l["grpcfg"]), 8, Ptr(self.G) if self.grp else NULL)
        st.wr(C, bv(l["mib"]), 8, Ptr(self.MIB))
        s, ctl = self.state(st), self.control(st)
        st.assume(z3.ULE(s, 4))
        if inv:
            st.assume(self.mode_inv(st))

    def state(self, st):
        return st.rd(self.C, bv(self.l["state"]), 4)

    def control(self, st):
        return st.rd(self.C, bv(self.l["info"] + 160), 8)

    def fmt(self, st):
        return st.rd(self.C, bv(self.l["info"]), 8)

    def gttid(self, st):
        return st.rd(self.C, bv(self.l["gttid"]), 2)

    def mode_inv(self, st):
        """the mode of the state machine is the transaction_control that tx_info reports"""
        s, c = self.state(st), self.control(st)
        return z3.And(z3.ULE(s, 4), z3.Implies(z3.Or(s == 1, s == 3), c == TX_UNCHAINED), z3.Implies(z3.Or(s == 2, s == 4), c == TX_CHAINED))

    def same(self, ex, st, s0, but=(), name="nothing else in the context changes", cond=None):
        """every byte outside the listed fields keeps its value"""
        l = self.l
        F = {"state": (l["state"], 4), "xid": (l["info"], 152), "fmt": (l["info"], 8), "gttid": (l["gttid"], 2), "when": (l["info"] + 152, 8),
             "control": (l["info"] + 160, 8), "timeout": (l["info"] + 168, 8), "info": (l["info"], 184)}
        for o in range(0, l["info"]):
            pass
        b = fresh("byte", 64)
        g = [z3.ULT(b, l["size"]), z3.Or(z3.ULT(b, l["grpcfg"]), z3.UGE(b, l["grpcfg"] + 8)), z3.Or(z3.ULT(b, l["mib"]), z3.UGE(b, l["mib"] + 8))]
        for f in but:
            o, n = F[f]
            g.append(z3.Or(z3.ULT(b, o), z3.UGE(b, o + n)))
        if cond is not None:
            g.append(cond)
        ex.assert_(st, z3.Implies(z3.And(*g), st.rd(self.C, b, 1) == s0.rd(self.C, b, 1)), name)

    def rm(self, st):
        return st.ghost.get("rm", ())

    def tab(self, st):
        return st.ghost.get("table", ())


def xid_eq(st, a, ao, s0, b, bo):
    """difference-free comparison of two XIDs: for an arbitrary byte"""
    i = fresh("xbyte", 64)
    return z3.Implies(z3.ULT(i, 152), st.rd(a, bv(ao) + i, 1) == s0.rd(b, bv(bo) + i, 1))


def errmap(r, m, other):
    e = bv(other, 32)
    for k, v in m.items():
        e = z3.If(r == bv(k, 32), bv(v, 32), e)
    return e


def unit(fn, argf, post, grp=(True,), name=None, extra=None):
    def run(ctx):
        for g in grp:
            w = World()
            w.grp = g
            ex = ctx.exec(fn, rules=[w.rules(), extra(w) if extra else []])

            def setup(ex, st):
                out = []
                w.setup(ex, st)
                for args, info in argf(ex, st, w):
                    s = st.fork()
                    out.append((s, args, (s.fork(), info)))
                return out

            def p(ex, kind, st, ret, info):
                s0, inf = info
                ex.assert_(st, w.mode_inv(st), "mode follows the reported transaction control")
                post(ex, w, kind, st, ret, s0, inf)
            verify(ctx, ex, fn, setup, p)
    return run


def noargs(ex, st, w):
    return [([], None)]


def protocol(ex, w, st, ret, s0, allowed):
    """improper state: refused without any effect; returns the path's assumption that the state is allowed, or None when the path is a refusal"""
    s = w.state(s0)
    okst = z3.Or(*[s == x for x in allowed])
    if not w.rm(st) and not w.tab(st) and st.entails(z3.Not(okst)):
        ex.assert_(st, ret == bv(TX_PROTOCOL_ERROR, 32), "improper state gives a protocol error")
        w.same(ex, st, s0, name="a call in an improper state changes nothing")
        return False
    ex.assert_(st, okst, "improper state is refused before anything is done")
    return True


def post_close(ex, w, kind, st, ret, s0, _):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    if not protocol(ex, w, st, ret, s0, (0, 1, 2)):
        return
    rm = w.rm(st)
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm] == ["close"] and not w.tab(st)), "the resource manager is closed once")
    _, (p, rmid, fl), first_byte, r = rm[0]
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == 0), "closed as the own resource manager")
    if w.grp:
        ex.assert_(st, z3.BoolVal(p.r is w.G and cval(p.off) == w.l["gclose"]), "with the configured information")
    else:
        ex.assert_(st, first_byte == 0, "without a group the information is empty")
    ok = r == XA_OK
    ex.assert_(st, ret == z3.If(ok, bv(TX_OK, 32), errmap(r, {XAER_RMERR: TX_ERROR}, TX_FAIL)), "result follows the resource manager")
    ex.assert_(st, w.state(st) == z3.If(ok, bv(0, 32), w.state(s0)), "closed exactly on success")
    w.same(ex, st, s0, ("state",))


def zx(x):
    return z3.ZeroExt(32 - x.size(), x)


def open_rules(w):
    def slen(ex, st, args, ins):
        n = iv("rmnamelen", 64)
        p = args[0]
        if p.r is w.S:
            return w.namelen
        if p.r is w.G and cval(p.off) == w.l["gopen"]:
            return w.openlen
        return h_strlen(ex, st, args, ins)

    def sncmp(ex, st, args, ins):
        a, b, n = args
        if {a.r, b.r} == {w.S, w.G} and n.eq(w.namelen):
            return z3.If(w.match, bv(0, 32), bv(1, 32))
        raise EngineError("unexpected comparison of open information")
    return [("strlen", slen), ("strncmp", sncmp)]


def open_args(ex, st, w):
    w.namelen, w.openlen, w.match = iv("namelen", 64), iv("openlen", 64), freshb("match")
    st.assume([z3.ULT(w.namelen, 32), z3.ULT(w.openlen, 256), z3.Implies(w.match, z3.UGE(w.openlen, w.namelen))])
    st.assume(z3.Implies(w.namelen == 0, w.match))
    st.ghost[("nul", w.G)] = True
    st.assume(st.rd(w.G, bv(w.l["gopen"]) + w.openlen, 1) == 0)
    i = None
    st.assume(Forall([BV64], lambda k: z3.Implies(z3.ULT(k, w.openlen), st.rd(w.G, bv(w.l["gopen"]) + k, 1) != 0), [[w.namelen]], "openinfo"))
    return [([], None)]


def post_open(ex, w, kind, st, ret, s0, _):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    G, l = w.G, w.l
    rm = w.rm(st)
    given = z3.And(z3.BoolVal(w.grp), w.openlen != 0)
    fits = z3.And(w.match, s0.rd(G, bv(l["gopen"]) + w.namelen, 1) == ord(":"))
    ex.assert_(st, z3.BoolVal(not w.tab(st)), "the transaction table is not involved")
    if not rm:
        ex.assert_(st, z3.And(given, z3.Not(fits), ret == bv(TX_ERROR, 32)), "only information of another resource manager is refused")
        w.same(ex, st, s0, name="a refused open changes nothing")
        return
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm] == ["open"]), "the resource manager is opened once")
    _, (p, rmid, fl), first_byte, r = rm[0]
    ex.assert_(st, z3.Implies(given, fits), "information of another resource manager is refused")
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == 0), "opened as the own resource manager")
    if p.r is G:
        ex.assert_(st, z3.If(w.openlen != 0, p.off == bv(l["gopen"]) + w.namelen + 1, first_byte == 0), "with the configured information after the name")
    else:
        ex.assert_(st, z3.And(z3.Not(given), first_byte == 0), "without information the string is empty")
    ok = r == XA_OK
    s = w.state(s0)
    ex.assert_(st, ret == z3.If(ok, bv(TX_OK, 32), errmap(r, {XAER_RMERR: TX_ERROR}, TX_FAIL)), "result follows the resource manager")
    first = z3.And(ok, s == 0)
    ex.assert_(st, w.state(st) == z3.If(first, bv(1, 32), s), "opened exactly on success")
    w.same(ex, st, s0, cond=z3.Not(first), name="nothing changes when the open fails or is repeated")
    ex.assert_(st, z3.Implies(first, z3.And(w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"])), "no transaction after open")
    b = fresh("byte", 64)
    ex.assert_(st, z3.Implies(z3.And(first, z3.UGE(b, 152), z3.ULT(b, 184)), st.rd(w.C, bv(l["info"]) + b, 1) == 0), "characteristics have their initial values after open")


def info_args(ex, st, w):
    w.I = Region("info", 184)
    return [([Ptr(w.I)], True), ([NULL], False)]


def post_info(ex, w, kind, st, ret, s0, given):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    w.same(ex, st, s0, name="asking changes nothing")
    ex.assert_(st, z3.BoolVal(not w.rm(st) and not w.tab(st)), "asking involves nothing else")
    s = w.state(s0)
    ex.assert_(st, ret == z3.If(s == 0, bv(TX_PROTOCOL_ERROR, 32), z3.If(w.fmt(s0) == bv(-1), bv(0, 32), bv(1, 32))), "says whether there is a transaction")
    b = fresh("byte", 64)
    i = s0.rd(w.I, b, 1)
    ex.assert_(st, z3.Implies(z3.ULT(b, 184), st.rd(w.I, b, 1) == z3.If(z3.And(s != 0, z3.BoolVal(given)), s0.rd(w.C, bv(w.l["info"]) + b, 1), i)), "reports exactly the context")


def setter(field, valid):
    off = {"when": 152, "control": 160, "timeout": 168}[field]

    def args(ex, st, w):
        v = iv("value", 64)
        return [([v], v)]

    def post(ex, w, kind, st, ret, s0, v):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        s = w.state(s0)
        ok = valid(v)
        ex.assert_(st, z3.BoolVal(not w.rm(st) and not w.tab(st)), "setting involves nothing else")
        ex.assert_(st, ret == z3.If(s == 0, bv(TX_PROTOCOL_ERROR, 32), z3.If(ok, bv(TX_OK, 32), bv(TX_EINVAL, 32))), "accepted exactly for a valid value after open")
        done = z3.And(s != 0, ok)
        w.same(ex, st, s0, cond=z3.Not(done), name="a refused value changes nothing")
        w.same(ex, st, s0, (field, "state"), cond=done)
        ex.assert_(st, z3.Implies(done, st.rd(w.C, bv(w.l["info"] + off), 8) == v), "the value is recorded")
        if field == "control":
            ex.assert_(st, z3.Implies(done, w.state(st) == z3.If(v == TX_CHAINED, z3.If(z3.ULE(s, 2), bv(2, 32), bv(4, 32)), z3.If(z3.ULE(s, 2), bv(1, 32), bv(3, 32)))), "the mode changes, being in a transaction does not")
        else:
            ex.assert_(st, w.state(st) == s, "the state does not change")
    return args, post


def fresh_xid_ok(ex, st, x, uid):
    """a new identifier: format 1, 8 bytes of the unique identifier, one byte qualifier"""
    ex.assert_(st, z3.And(st.rd(x, bv(0), 8) == 1, st.rd(x, bv(8), 8) == 8, st.rd(x, bv(16), 8) == 1), "format and lengths of a new identifier")
    for i in range(8):
        ex.assert_(st, st.rd(x, bv(24 + i), 1) == z3.Extract(8 * i + 7, 8 * i, uid), "the unique identifier is the global part")
    ex.assert_(st, st.rd(x, bv(32), 1) == 0, "qualifier of a new identifier")


def check_begin(ex, w, st, rc, s0, rm, tab, uids, base_state, base_s=None):
    """effects of tx_begin, from the events it produced; rc is its result (or None when only events matter)"""
    if [t[0] for t in tab] == ["startfail"]:
        ex.assert_(st, z3.BoolVal(not rm), "no resource manager call without a table entry")
        if rc is not None:
            ex.assert_(st, rc == bv(TX_ERROR, 32), "full table gives TX_ERROR")
        ex.assert_(st, w.state(st) == base_state, "no transaction without a table entry")
        return "fail"
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm] == ["start"] and len(uids) == 1), "one branch is started with one new identifier")
    (_, x, grp, g) = tab[0]
    ex.assert_(st, z3.BoolVal(tab[0][0] == "start"), "an entry is taken")
    _, (p, rmid, fl), snap, r = rm[0]
    fresh_xid_ok(ex, st, x, uids[0])
    ex.assert_(st, grp == z3.Extract(15, 0, w.grpidx), "own group is the first participant")
    ex.assert_(st, xid_eq(st, snap, 0, st, x, 0), "the resource manager starts the recorded transaction")
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == 0), "own resource manager, new branch")
    ok = r == XA_OK
    rest = tab[1:]
    if st.entails(ok):
        ex.assert_(st, z3.BoolVal(not rest), "entry is kept while the transaction is active")
        ex.assert_(st, w.state(st) == base_state + 2, "in transaction in the same mode")
        ex.assert_(st, xid_eq(st, w.C, w.l["info"], st, x, 0), "identifier is recorded")
        ex.assert_(st, w.gttid(st) == g, "table entry is recorded")
        if rc is not None:
            ex.assert_(st, rc == bv(TX_OK, 32), "success")
        return "ok"
    ex.assert_(st, z3.Not(ok), "begin succeeds exactly when the resource manager does")
    ex.assert_(st, z3.BoolVal(len(rest) == 1 and rest[0][0] == "end"), "entry is released")
    ex.assert_(st, rest[0][1] == z3.ZeroExt(48, g), "the own entry is released")
    ex.assert_(st, z3.And(w.state(st) == base_state, w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"]), "no transaction")
    if rc is not None:
        ex.assert_(st, rc == errmap(r, START_ERR, TX_FAIL), "error follows the resource manager")
    return "fail"


def post_begin(ex, w, kind, st, ret, s0, _):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    if not protocol(ex, w, st, ret, s0, (1, 2)):
        return
    check_begin(ex, w, st, ret, s0, w.rm(st), w.tab(st), st.ghost.get("uid", ()), w.state(s0))
    w.same(ex, st, s0, ("state", "xid", "gttid"))


def post_suspend(ex, w, kind, st, ret, s0, given):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    if not protocol(ex, w, st, ret if ret is not None else bv(TX_PROTOCOL_ERROR, 32), s0, (3, 4)):
        return
    check_end(ex, w, st, s0, TMSUSPEND)
    r = w.rm(st)[0][3]
    ok = r == XA_OK
    if ret is not None:
        ex.assert_(st, ret == z3.If(ok, bv(TX_OK, 32), bv(TX_FAIL, 32)), "result follows the resource manager")
    ex.assert_(st, w.state(st) == z3.If(ok, w.state(s0) - 2, w.state(s0)), "idle in the same mode exactly on success")
    if given:
        b = fresh("byte", 64)
        ex.assert_(st, z3.Implies(z3.And(ok, z3.ULT(b, 184)), st.rd(w.I, b, 1) == s0.rd(w.C, bv(w.l["info"]) + b, 1)), "the suspended transaction is returned")
        ex.assert_(st, z3.Implies(ok, z3.And(w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"])), "no transaction afterwards")
        w.same(ex, st, s0, ("state", "fmt", "gttid"))
    else:
        w.same(ex, st, s0, ("state",), name="a call in between keeps the transaction")
    ex.assert_(st, z3.BoolVal(not w.tab(st)), "the table is not changed")


def check_end(ex, w, st, s0, flags):
    rm = w.rm(st)
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm][:1] == ["end"]), "the branch is ended")
    _, (p, rmid, fl), snap, r = rm[0]
    ex.assert_(st, xid_eq(st, snap, 0, s0, w.C, w.l["info"]), "it is the current transaction that ends")
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == (flags if not isinstance(flags, int) else bv(flags))), "own resource manager, right kind of end")
    return r


def post_resume(ex, w, kind, st, ret, s0, given):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    if not protocol(ex, w, st, ret if ret is not None else bv(TX_PROTOCOL_ERROR, 32), s0, (1, 2)):
        return
    rm, tab = w.rm(st), w.tab(st)
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm] == ["start"]), "the branch is resumed once")
    _, (p, rmid, fl), snap, r = rm[0]
    ok = r == XA_OK
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == TMRESUME), "own resource manager, resumed")
    ex.assert_(st, xid_eq(st, snap, 0, s0, w.I if given else w.C, 0 if given else w.l["info"]), "the given transaction is resumed")
    if ret is not None:
        ex.assert_(st, ret == z3.If(ok, bv(TX_OK, 32), errmap(r, START_ERR, TX_FAIL)), "result follows the resource manager")
    ex.assert_(st, w.state(st) == z3.If(ok, w.state(s0) + 2, w.state(s0)), "in transaction in the same mode exactly on success")
    ex.assert_(st, z3.BoolVal(all(t[0] in ("find", "findfail") for t in tab)), "the table is not changed")
    if given:
        ex.assert_(st, z3.Implies(ok, xid_eq(st, w.C, w.l["info"], s0, w.I, 0)), "identifier is recorded")
        ex.assert_(st, z3.Implies(z3.Not(ok), z3.And(w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"])), "no transaction after failure")
        for t in tab:
            if t[0] == "find":
                ex.assert_(st, xid_eq(st, t[1], 0, s0, w.I, 0), "looked up by its identifier")
                ex.assert_(st, z3.Implies(ok, w.gttid(st) == t[2]), "table entry is recorded")
        ex.assert_(st, z3.Implies(ok, z3.BoolVal(len(tab) > 0)), "table entry is looked up")
        w.same(ex, st, s0, ("state", "xid", "gttid"))
    else:
        w.same(ex, st, s0, ("state",), name="a call in between keeps the transaction")


def join_args(ex, st, w):
    g = iv("gttid", 16)
    return [([g], g)]


def post_join(ex, w, kind, st, ret, s0, g):
    rm, tab = w.rm(st), w.tab(st)
    if kind == "exc":
        ex.assert_(st, z3.BoolVal(not rm and [t[0] for t in tab] == ["joinfail"]), "only an invalid transaction is refused")
        w.same(ex, st, s0, name="a refused join changes nothing")
        return
    ex.assert_(st, z3.BoolVal([t[0] for t in tab] == ["join"]), "own group joins")
    ex.assert_(st, z3.And(tab[0][1] == g, tab[0][2] == z3.Extract(15, 0, w.grpidx)), "own group joins the transaction of the request")
    s = w.state(s0)
    if not rm:
        ex.assert_(st, z3.Not(z3.Or(s == 1, s == 2)), "idle thread joins")
        w.same(ex, st, s0, name="a thread in an improper state is not changed")
        return
    ex.assert_(st, z3.BoolVal([k for k, *_ in rm] == ["start"]), "one branch is started")
    ex.assert_(st, z3.Or(s == 1, s == 2), "only an idle thread joins")
    _, (p, rmid, fl), snap, r = rm[0]
    ok = r == XA_OK
    ex.assert_(st, z3.And(rmid == zx(w.grpno), fl == TMJOIN), "own resource manager, joined")
    ex.assert_(st, xid_eq(st, snap, 0, s0, tab[0][3], 0), "the transaction of the request is joined")
    ex.assert_(st, w.state(st) == z3.If(ok, s + 2, s), "in transaction in the same mode exactly on success")
    ex.assert_(st, z3.Implies(ok, z3.And(xid_eq(st, w.C, w.l["info"], s0, tab[0][3], 0))), "identifier is recorded")
    ex.assert_(st, w.gttid(st) == z3.If(ok, g, bv(w.l["bad"], 16)), "table entry is recorded")
    ex.assert_(st, z3.Implies(z3.Not(ok), w.fmt(st) == bv(-1)), "no transaction after failure")
    w.same(ex, st, s0, ("state", "xid", "gttid"))


def end_args(ex, st, w):
    b = freshb("ok")
    return [([b], b)]


def post_end(ex, w, kind, st, ret, s0, b):
    ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
    if not protocol(ex, w, st, bv(TX_PROTOCOL_ERROR, 32), s0, (3, 4)):
        return
    r = check_end(ex, w, st, s0, z3.If(b, bv(TMSUCCESS), bv(TMFAIL)))
    ok = r == XA_OK
    s = w.state(s0)
    if st.entails(z3.Not(ok)):
        ex.assert_(st, z3.And(w.state(st) == s, z3.BoolVal(len(w.rm(st)) == 1 and not w.tab(st))), "still in transaction when ending fails")
    elif st.entails(s == 3):
        ex.assert_(st, z3.And(ok, w.state(st) == 1, w.fmt(st) == bv(-1), w.gttid(st) == w.l["bad"], z3.BoolVal(len(w.rm(st)) == 1 and not w.tab(st))), "idle afterwards")
    else:
        ex.assert_(st, z3.And(ok, s == 4), "ending succeeds")
        check_begin(ex, w, st, None, s0, w.rm(st)[1:], w.tab(st), st.ghost.get("uid", ()), bv(2, 32))
    w.same(ex, st, s0, ("state", "xid", "gttid"))


def run_ctor(ctx):
    w = World()
    ex = ctx.exec("tx_context", rules=[w.rules(), [
        (rx(r"mib::group_by_id\(unsigned short\)"), lambda ex, st, a, i: (st.ghost.__setitem__("asked", a[1]), Ptr(w.G))[1]),
        (rx(r"mib::find_group\(unsigned short\)"), lambda ex, st, a, i: (st.ghost.__setitem__("asked2", a[1]), w.idx)[1])]])

    def setup(ex, st):
        w.idx = iv("index", 64)
        w.setup(ex, st, inv=False)
        C2 = Region("newcontext", w.l["size"])
        return [(st, [Ptr(C2), Ptr(w.MIB)], C2)]

    def post(ex, kind, st, ret, C2):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        l = w.l
        ex.assert_(st, z3.And(st.rd(C2, bv(l["state"]), 4) == 0, st.rd(C2, bv(l["info"]), 8) == bv(-1), st.rd(C2, bv(l["gttid"]), 2) == l["bad"]), "starts closed and without a transaction")
        for o in range(152, 184, 8):
            ex.assert_(st, st.rd(C2, bv(l["info"] + o), 8) == 0, "initial characteristics")
        g = st.rd(C2, bv(l["grpcfg"]), 8, ptr=True)
        gi = st.rd(ex.global_ptr("_ZN3fux2tx6grpidxE").r, bv(0), 8)
        if "asked" in st.ghost:
            ex.assert_(st, z3.And(w.grpno != 0, st.ghost["asked"] == w.grpno, z3.BoolVal(g.r is w.G), gi == w.idx, st.ghost["asked2"] == w.grpno), "own group's configuration")
        else:
            ex.assert_(st, z3.And(w.grpno == 0, z3.BoolVal(g.isnull()), gi == w.grpidx), "clients without a group")
    verify(ctx, ex, r"tx_context::tx_context\(mib&\)", setup, post)


def run_query(ctx):
    for fn in (r"fux::tx::gttid\(\)", r"fux::tx::transactional\(\)"):
        w = World()
        ex = ctx.exec(fn, rules=[w.rules()])

        def setup(ex, st):
            w.setup(ex, st)
            return [(st, [], st.fork())]

        def post(ex, kind, st, ret, s0):
            w.same(ex, st, s0, name="asking changes nothing")
            if "gttid" in fn:
                ex.assert_(st, ret == w.gttid(s0), "reports the table entry")
            else:
                ex.assert_(st, (ret if z3.is_bool(ret) else ret != 0) == (w.fmt(s0) != bv(-1)), "reports being in a transaction")
        verify(ctx, ex, fn, setup, post)


wa, wp = setter("when", lambda v: z3.Or(v == TX_COMMIT_COMPLETED, v == TX_COMMIT_DECISION_LOGGED))
ca, cp_ = setter("control", lambda v: z3.Or(v == TX_CHAINED, v == TX_UNCHAINED))
ta, tp_ = setter("timeout", lambda v: v >= 0)


def opt_info(ex, st, w):
    return info_args(ex, st, w)


UNITS = [
    Unit("tx_open", ["tx"], unit("tx_open", open_args, post_open, grp=(True, False), extra=open_rules)),
    Unit("tx_close", ["tx"], unit("tx_close", noargs, post_close, grp=(True, False))),
    Unit("tx_info", ["tx"], unit("tx_info", info_args, post_info)),
    Unit("tx_begin", ["tx"], unit("tx_begin", noargs, post_begin)),
    Unit("tx_set_commit_return", ["tx"], unit("tx_set_commit_return", wa, wp)),
    Unit("tx_set_transaction_control", ["tx"], unit("tx_set_transaction_control", ca, cp_)),
    Unit("tx_set_transaction_timeout", ["tx"], unit("tx_set_transaction_timeout", ta, tp_)),
    Unit("suspend", ["tx"], unit(r"_tx_suspend\(tx_info_t\*\)", info_args, post_suspend)),
    Unit("suspend for a call", ["tx"], unit(r"fux::tx_suspend\(\)", lambda ex, st, w: [([], False)], post_suspend)),
    Unit("resume", ["tx"], unit(r"_tx_resume\(tx_info_t\*\)", info_args, post_resume)),
    Unit("resume after a call", ["tx"], unit(r"fux::tx_resume\(\)", lambda ex, st, w: [([], False)], post_resume)),
    Unit("join", ["tx"], unit(r"fux::tx_join\(unsigned short\)", join_args, post_join)),
    Unit("end", ["tx"], unit(r"fux::tx_end\(bool\)", end_args, post_end)),
    Unit("context", ["tx"], run_ctor), Unit("queries", ["tx"], run_query),
]
replay = driver("tx.cpp", tus=[t for t in libtus() if t not in ("client", "server")], extra_tu={"mib": ["-Dgetmib=real_getmib"]})
