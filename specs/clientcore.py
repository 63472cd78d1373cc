"""The client object of a thread: its layout and the contracts of what it calls"""
from engine.api import *
from engine.lib import *
from specs.common import *
from specs.T05 import errno_rules


def lay():
    return layout(["src/client.cpp"], {
        "next": "offsetof(client,blocktime_next)", "all": "offsetof(client,blocktime_all)", "rq": "offsetof(client,rq)", "rpid": "offsetof(client,rpid)",
        "cds": "offsetof(client,cds)", "mib": "offsetof(client,mibcon_)", "id": "offsetof(client,client_)", "size": "sizeof(client)",
        "notime": "fux::ipc::notime", "noblock": "fux::ipc::noblock", "noflags": "fux::ipc::noflags", "unblock": "fux::ipc::unblock",
        "bt": "offsetof(t_machine,blocktime)", "mach": "sizeof(t_machine)"})


class Client:
    def __init__(self):
        self.L = lay()
        self.C = Region("client", self.L["size"])
        self.MACH = Region("machine", self.L["mach"])
        self.next, self.all, self.dflt = iv("blocktime_next", 64), iv("blocktime_all", 64), iv("blocktime_mib", 64)

    def setup(self, st):
        L, C = self.L, self.C
        st.ghost["tperrno"] = iv("tperrno0")
        st.wr(C, bv(L["mib"]), 8, Ptr(Region("mib", None)))
        st.wr(C, bv(L["next"]), 8, self.next)
        st.wr(C, bv(L["all"]), 8, self.all)
        st.wr(self.MACH, bv(L["bt"]), 8, self.dflt)
        st.assume(z3.And(self.next >= 0, self.all >= 0, self.dflt >= 0))

    def rules(self):
        return errno_rules() + [("getclient()", lambda ex, st, a, i: Ptr(self.C)), (rx(r"mib::mach\(\)"), lambda ex, st, a, i: Ptr(self.MACH))]

    def times(self, st):
        return st.rd(self.C, bv(self.L["next"]), 8), st.rd(self.C, bv(self.L["all"]), 8)

    def effective(self):
        """block time of the next blocking call"""
        return z3.If(self.next != 0, self.next, z3.If(self.all != 0, self.all, self.dflt))


def sx(e):
    return z3.SignExt(32, e)


def run_setblk(ctx):
    c = Client()
    ex = ctx.exec("tpsblktime", rules=[c.rules()])
    v, fl = iv("blktime"), iv("flags", 64)

    def setup(ex, st):
        c.setup(st)
        return [(st, [v, fl], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        n, a = c.times(st)
        err = st.ghost["tperrno"]
        unit, what = fl & 0xf0, fl & ~bv(0xf0)
        valid = z3.And(z3.Or(unit == TPBLK_SECOND, unit == TPBLK_MILLISECOND), z3.Or(what == TPBLK_NEXT, what == TPBLK_ALL))
        ms = z3.If(unit == TPBLK_SECOND, sx(v) * 1000, sx(v))
        ex.assert_(st, z3.Implies(z3.Not(valid), z3.And(ret == bv(-1, 32), err == TPEINVAL, n == c.next, a == c.all)), "invalid flags are refused and change nothing")
        ex.assert_(st, z3.Implies(valid, z3.And(ret == 0, err == 0)), "valid flags succeed")
        ex.assert_(st, z3.Implies(z3.And(valid, what == TPBLK_NEXT), z3.And(n == ms, a == c.all)), "TPBLK_NEXT sets the time of the next call only")
        ex.assert_(st, z3.Implies(z3.And(valid, what == TPBLK_ALL), z3.And(a == ms, n == c.next)), "TPBLK_ALL sets the time of all calls")
    verify(ctx, ex, "tpsblktime", setup, post)


def run_getblk(ctx):
    c = Client()
    ex = ctx.exec("tpgblktime", rules=[c.rules()])
    fl = iv("flags", 64)

    def setup(ex, st):
        c.setup(st)
        return [(st, [fl], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        n, a = c.times(st)
        err = st.ghost["tperrno"]
        unit, what = fl & 0xf0, fl & ~bv(0xf0)
        okunit = z3.Or(unit == TPBLK_SECOND, unit == TPBLK_MILLISECOND)
        valid = z3.And(okunit, z3.Or(what == TPBLK_NEXT, what == TPBLK_ALL))
        ex.assert_(st, z3.And(n == c.next, a == c.all), "asking changes nothing")
        ex.assert_(st, z3.Implies(z3.And(z3.Not(valid), z3.Not(z3.And(okunit, what == 0))), z3.And(ret == bv(-1, 32), err == TPEINVAL)), "invalid flags are refused")
        t = z3.If(what == TPBLK_NEXT, c.next, c.all)
        u = z3.If(unit == TPBLK_SECOND, t / bv(1000), t)
        ex.assert_(st, z3.Implies(z3.And(valid, u < (1 << 31)), z3.And(sx(ret) == u, err == 0)), "the time that was set is reported in the requested unit")
    verify(ctx, ex, "tpgblktime", setup, post)


def run_nextblk(ctx):
    c = Client()
    ex = ctx.exec("next_blocktime", rules=[c.rules()])

    def setup(ex, st):
        c.setup(st)
        return [(st, [Ptr(c.C)], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        n, a = c.times(st)
        ex.assert_(st, ret == c.effective(), "the time of the next call, then of all calls, then of the configuration")
        ex.assert_(st, z3.And(n == 0, a == c.all), "the time of the next call is used once")
    verify(ctx, ex, "client::next_blocktime()", setup, post)
