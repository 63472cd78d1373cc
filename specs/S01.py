"""S01: a server runs the service asked for and answers each request once"""
from engine.api import *
from engine.lib import *
from specs.common import *
from specs.T05 import errno_rules
from specs.ipccore import text_rules

SMAP = r"std::map<char const\*, void \(\*\)\(tpsvcinfo\*\).*"
SPAIR = r"std::pair<char const\* const, void \(\*\)\(tpsvcinfo\*\)>"
SIT = r"std::_Rb_tree_(const_)?iterator<%s>" % SPAIR


def lay():
    return layout(["src/server.cpp"], {
        "req": "offsetof(server_thread,req)", "res": "offsetof(server_thread,res)", "buf": "offsetof(server_thread,atmibuf)", "shut": "offsetof(server_thread,reply_to_shutdown)",
        "env": "offsetof(server_thread,tpreturn_env)", "thread": "sizeof(server_thread)",
        "srvid": "offsetof(server_main,srvid)", "grpno": "offsetof(server_main,grpno)", "rq": "offsetof(server_main,request_queue)", "msrv": "offsetof(server_main,mib_server)",
        "mq": "offsetof(server_main,mib_queue)", "mutex": "offsetof(server_main,mutex)", "adv": "offsetof(server_main,advertisements)", "mib": "offsetof(server_main,m_)",
        "stop": "offsetof(server_main,stop)", "main": "sizeof(server_main)", "mt": "offsetof(server_main,mtype_)", "cnt": "offsetof(server_main,req_counter_)",
        "mtype": "offsetof(fux::ipc::msgmem,mtype)", "cat": "offsetof(fux::ipc::msgmem,cat)", "ttype": "offsetof(fux::ipc::msgmem,ttype)",
        "cd": "offsetof(fux::ipc::msgmem,cd)", "replyq": "offsetof(fux::ipc::msgmem,replyq)", "rval": "offsetof(fux::ipc::msgmem,rval)", "rcode": "offsetof(fux::ipc::msgmem,rcode)",
        "mflags": "offsetof(fux::ipc::msgmem,flags)", "gttid": "offsetof(fux::ipc::msgmem,gttid)", "gsz": "sizeof(fux::gttid)", "svc": "offsetof(fux::ipc::msgmem,servicename)",
        "svclen": "sizeof(fux::ipc::msgmem::servicename)", "msgmem": "sizeof(fux::ipc::msgmem)", "notime": "fux::ipc::notime", "app": "fux::ipc::application",
        "TA_SRVID": "TA_SRVID", "TA_GRPNO": "TA_GRPNO", "i.name": "offsetof(TPSVCINFO,name)", "i.data": "offsetof(TPSVCINFO,data)", "i.len": "offsetof(TPSVCINFO,len)",
        "i.flags": "offsetof(TPSVCINFO,flags)", "i.cd": "offsetof(TPSVCINFO,cd)", "info": "sizeof(TPSVCINFO)", "i.namelen": "sizeof(TPSVCINFO::name)",
        "TPENOENT": "TPENOENT", "ILL": "TPMINVAL", "TPEXIT": "TPEXIT", "second": "__builtin_offsetof(std::pair<const char* const, void*>, second)"})


def sx(e):
    return z3.SignExt(32, e)


class Srv:
    def __init__(self, data="other"):
        self.L = lay()
        L = self.L
        self.MAIN, self.T = Region("server", L["main"]), Region("thread", L["thread"])
        self.REQ, self.RES = Region("request", L["msgmem"]), Region("response", L["msgmem"])
        self.ATMI, self.DATA, self.MIB = Region("atmibuf", None), Region("data", None), Region("mib", None)
        self.SVC = Region("svc", None)
        self.nm = iv("namelen", 64)
        self.data = data
        self.trans = freshb("transactional")
        self.gtt = iv("gttid", 8 * L["gsz"])
        self.b = iv("b", 64)
        self.faults = True
        self.main = True

    def setup(self, st):
        L = self.L
        st.ghost["tperrno"] = iv("tperrno0")
        st.ghost["trans"] = self.trans
        for k in ("ended", "sent", "freed"):
            st.ghost[k] = ()
        st.ghost["faults"] = 0
        st.ghost["lock"] = bv(0)
        st.ghost["mutex"] = bv(0)
        st.ghost["data"] = None
        st.wr(self.T, bv(L["buf"]), 8, Ptr(self.ATMI))
        st.wr(self.MAIN, bv(L["mib"]), 8, Ptr(self.MIB))
        st.assume(st.rd(self.RES, bv(L["cat"]), 1) == L["app"])      # as constructed; never written
        self.cd, self.replyq, self.mtype = iv("cd"), iv("replyq"), iv("mtype", 64)
        for k, v, n in (("cd", self.cd, 4), ("replyq", self.replyq, 4), ("mtype", self.mtype, 8)):
            st.wr(self.REQ, bv(L[k]), n, v)
        self.SVC.tag["strlen"] = lambda ex, st, p: self.nm
        st.assume(z3.ULE(self.nm, 1 << 20))
        st.assume(st.rd(self.SVC, self.nm, 1) == 0)

    def d(self):
        return {"null": NULL, "own": Ptr(self.ATMI), "other": Ptr(self.DATA)}[self.data]

    def fault(self, st, exc="_ZTISt13runtime_error"):
        s2 = st.fork()
        s2.ghost["faults"] += 1
        return (s2, Exc(exc, Ptr(exc_obj())))

    def rules(self):
        L = self.L

        def which(p):
            o = simp(p.off)
            if p.r is self.T and isc(o):
                return {L["req"]: self.REQ, L["res"]: self.RES}.get(cval(o))

        def arrow(ex, st, args, ins):
            r = which(args[0])
            if r is None:
                raise EngineError("message at %s" % (args[0],))
            return Ptr(r)

        def set_data(ex, st, args, ins):
            p, d, n = args
            ex.assert_(st, z3.BoolVal(which(p) is self.RES), "data is put in the response", ins.dbg)
            ex.assert_(st, z3.BoolVal(d.isnull() or d.r not in st.ghost["freed"]), "the data is used before it is freed", ins.dbg)
            out = [(st, None)]
            if not d.isnull():
                out.append(self.fault(st))
                out[1][0].ghost["data"] = "?"
            st.ghost["data"] = ("null" if d.isnull() else d.r, n)
            return out
        set_data.is_contract = True

        def qsend(ex, st, args, ins):
            q, m, timeout, fl = args
            r = which(m)
            g = lambda k, n: st.rd(r, bv(L[k]), n)
            ex.assert_(st, fl == L["notime"], "a server waits until the message can be sent", ins.dbg)
            ex.assert_(st, g("mtype", 8) > 0, "the message type is valid", ins.dbg)
            s2 = self.fault(st, "_ZTISt12system_error")
            st.ghost["sent"] += (dict(q=q, r=r, data=st.ghost["data"], cat=g("cat", 1), mtype=g("mtype", 8), cd=g("cd", 4), rval=g("rval", 4), rcode=g("rcode", 8), replyq=g("replyq", 4),
                                      flags=g("mflags", 8), gttid=g("gttid", L["gsz"]), svc=st.rd(r, L["svc"] + self.b, 1), ended=len(st.ghost["ended"]), mutex=st.ghost["mutex"]),)
            return [(st, z3.BoolVal(True)), s2]
        qsend.is_contract = True
        self.qsend_ = qsend

        def tpfree(ex, st, args, ins):
            p = args[0]
            if not p.isnull():
                ex.assert_(st, z3.And(z3.BoolVal(p.r is self.DATA and p.r not in st.ghost["freed"]), p.off == 0), "only the caller's own buffer is freed, and once", ins.dbg)
                st.ghost["freed"] += (p.r,)
        tpfree.is_contract = True

        def tx_end(ex, st, args, ins):
            ex.assert_(st, st.ghost["trans"], "the branch of a transaction is ended", ins.dbg)
            st.ghost["ended"] += (args[0],)
            st.ghost["trans"] = z3.BoolVal(False)
            return fresh("rc", 32)
        tx_end.is_contract = True

        def gttid(ex, st, args, ins):
            return self.gtt if not st.ghost["ended"] else fresh("gttid", 8 * L["gsz"])

        def longjmp(ex, st, args, ins):
            p, v = args
            ex.assert_(st, z3.And(z3.BoolVal(p.r is self.T), p.off == L["env"], v != 0), "control returns to the dispatcher", ins.dbg)
            ex.terminated.append(st)
            self.done(ex, st)
            return []
        longjmp.is_contract = True

        def mutex(v):
            def h(ex, st, args, ins):
                ex.assert_(st, z3.And(z3.BoolVal(args[0].r is self.MAIN), args[0].off == L["mutex"], st.ghost["mutex"] == 1 - v), "the server's mutex is taken once and released", ins.dbg)
                st.ghost["mutex"] = bv(v)
            h.is_contract = True
            return h

        def lock(v):
            def h(ex, st, args, ins):
                st.ghost["lock"] = bv(v)
            h.is_contract = True
            return h
        TH = lambda ex, st, a, i: Ptr(self.T)
        MN = lambda ex, st, a, i: Ptr(self.MAIN) if self.main else NULL
        UT = r"std::unique_ptr<server_thread, std::default_delete<server_thread>\s?>::"
        UM = r"std::unique_ptr<server_main, std::default_delete<server_main>\s?>::"
        return errno_rules() + text_rules() + [
            (rx(r"fux::ipc::msg::(operator->|as_msgmem)\(\)"), arrow), (rx(r"fux::ipc::msg::set_data\(char\*, long\)"), set_data), (rx(r"fux::ipc::qsend\(.*\)"), qsend),
            ("tpfree", tpfree), (rx(r"fux::tx_end\(bool\)"), tx_end), (rx(r"fux::tx::transactional\(\)"), lambda ex, st, a, i: st.ghost["trans"]), (rx(r"fux::tx::gttid\(\)"), gttid),
            (rx(r"_?_?(sig)?longjmp(_chk)?"), longjmp), (rx(r"userlog"), h_none), (rx(r"thread-local wrapper routine for thread_ptr|TLS wrapper function for thread_ptr"), TH), (rx(UT + r"(operator->|get)\(\) const"), TH),
            (rx(UT + r"operator\*\(\) const"), TH), (rx(UM + r"(operator->|get|operator\*)\(\) const"), MN), (rx(UM + r"operator bool\(\) const"), lambda ex, st, a, i: z3.BoolVal(self.main)),
            (rx(r"std::mutex::lock\(\)"), mutex(1)), (rx(r"std::mutex::unlock\(\)"), mutex(0)), (rx(r"abort"), self.abort),
            (rx(r"fux::ipc::scoped_semlock::scoped_semlock\(int, int\)"), lock(1)), (rx(r"fux::ipc::scoped_semlock::~scoped_semlock\(\)"), lock(0)),
            (rx(r"mib::data_lock\(\)"), lock(1))]

    def abort(self, ex, st, args, ins):
        ex.assert_(st, z3.BoolVal(not self.main), "only calls from a client are fatal", ins.dbg)
        ex.terminated.append(st)
        return []

    def done(self, ex, st):
        pass

    # what was sent
    def is_data(self, m):
        want = {"null": "null", "own": self.ATMI, "other": self.DATA}[self.data]
        return isinstance(m["data"], tuple) and m["data"][0] is want or m["data"] and m["data"][0] == want

    def check_reply(self, ex, st, m, rval, rcode, ln, what):
        L = self.L
        ex.assert_(st, z3.And(z3.BoolVal(m["r"] is self.RES), m["q"] == self.replyq), "the reply goes to the queue of the caller" + what)
        ex.assert_(st, z3.And(m["cd"] == self.cd, m["mtype"] == sx(self.cd), m["cat"] == L["app"]), "it answers the descriptor of the request" + what)
        ex.assert_(st, m["rval"] == rval, "with the outcome of the service" + what)
        if rcode is not None:
            ex.assert_(st, m["rcode"] == rcode, "with the code of the service" + what)
            ex.assert_(st, z3.BoolVal(bool(self.is_data(m))), "with the data of the service" + what)
            if self.data != "null":
                ex.assert_(st, m["data"][1] == ln, "with the length of the data" + what)


rval, rcode, ln, fl = iv("rval"), iv("rcode", 64), iv("len", 64), iv("flags", 64)


def outcome(L, rv):
    return z3.If(rv == TPSUCCESS, bv(TPMINVAL, 32), z3.If(rv == TPFAIL, bv(TPESVCFAIL, 32), bv(TPESVCERR, 32)))


def pre_request(w, st):
    """a request: replies are expected for positive descriptors; message types are positive"""
    st.assume(z3.And(z3.Implies(w.replyq != -1, w.cd > 0), w.mtype > 0))


def run_reply(data):
    def go(ctx):
        w = Srv(data)
        fn = r"server_thread::reply\(int, long, char\*, long, long\)"
        ex = ctx.exec(fn, rules=[w.rules()])

        def setup(ex, st):
            w.setup(st)
            pre_request(w, st)
            return [(st, [Ptr(w.T), rval, rcode, w.d(), ln, fl], None)]

        def post(ex, kind, st, ret, info):
            sent = st.ghost["sent"]
            if kind == "exc":
                ex.assert_(st, z3.BoolVal(st.ghost["faults"] > 0 and not sent), "fails only when the message could not be made or sent")
                return
            ex.assert_(st, z3.BoolVal(len(sent) == 1) == (w.replyq != -1), "one reply is sent exactly when one is expected")
            for m in sent:
                w.check_reply(ex, st, m, z3.If(fl != 0, bv(TPESVCERR, 32), rval), rcode, ln, "")
            ex.assert_(st, z3.BoolVal(st.ghost["freed"] == ((w.DATA,) if data == "other" else ())), "the buffer of the service is freed")
        verify(ctx, ex, fn, setup, post)
    return go


def run_return(data, server=True):
    def go(ctx):
        w = Srv(data)
        w.main = server
        ex = ctx.exec("tpreturn", rules=[w.rules()])
        out = outcome(w.L, rval)

        def done(ex, st):
            sent, n = st.ghost["sent"], st.ghost["faults"]
            ok = z3.And(out == TPMINVAL, fl == 0)
            ex.assert_(st, z3.BoolVal(len(st.ghost["ended"]) == 1) == w.trans, "the branch of the transaction is ended once")
            for e in st.ghost["ended"]:
                ex.assert_(st, (e != 0 if z3.is_bv(e) else e) == ok, "as successful exactly when the service was")
            ex.assert_(st, z3.Implies(w.replyq == -1, z3.BoolVal(not sent)), "no reply is sent when none is expected")
            ex.assert_(st, z3.Implies(w.replyq != -1, z3.BoolVal(len(sent) == 1 or n >= 2 and not sent)), "one reply is sent, also after a failure")
            for m in sent:
                ex.assert_(st, z3.BoolVal(m["ended"] == len(st.ghost["ended"])), "the branch is ended before the reply")
                if n == 0:
                    w.check_reply(ex, st, m, z3.If(fl != 0, bv(TPESVCERR, 32), out), rcode, ln, "")
                else:
                    w.check_reply(ex, st, m, bv(TPESVCERR, 32), None, None, " (failed)")
                    ex.assert_(st, z3.BoolVal(m["data"] is not None and m["data"] != "?"), "a failed service sends no partial data")
            if n == 0:
                ex.assert_(st, z3.BoolVal(st.ghost["freed"] == ((w.DATA,) if data == "other" else ())), "the buffer of the service is freed")
        w.done = done

        def setup(ex, st):
            w.setup(st)
            pre_request(w, st)
            return [(st, [rval, rcode, w.d(), ln, fl], None)]

        def post(ex, kind, st, ret, info):
            fail(ex, "tpreturn does not return to the service", kind)
        verify(ctx, ex, "tpreturn", setup, post)
    return go


def run_forward(data):
    def go(ctx):
        w = Srv(data)
        L = w.L
        ex = ctx.exec("tpforward", rules=[w.rules()])
        TQ = iv("targetq")

        def get_queue(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[-1].r is w.SVC), args[-1].off == 0), "the requested service is looked up", ins.dbg)
            return [(st, TQ), w.fault(st, "_ZTISt12out_of_range")]
        get_queue.is_contract = True
        ex.rules.append((rx(r"get_queue\(char const\*\)"), get_queue))

        def done(ex, st):
            sent, n = st.ghost["sent"], st.ghost["faults"]
            fwd = [m for m in sent if m["svc"] is not None and m.get("q") is TQ or z3.eq(m["q"], TQ)]
            rep = [m for m in sent if m not in fwd]
            toolong = z3.UGE(w.nm, L["svclen"])
            ex.assert_(st, z3.BoolVal(len(sent) <= 1), "one message is sent")
            ex.assert_(st, z3.BoolVal(len(st.ghost["ended"]) == 1) == w.trans, "the own branch of the transaction is ended once")
            if n == 0:
                ex.assert_(st, z3.Or(toolong, z3.BoolVal(len(fwd) == 1)), "the request is forwarded")
                ex.assert_(st, z3.Implies(z3.And(toolong, w.replyq != -1), z3.BoolVal(len(rep) == 1)), "an impossible service name is reported to the caller")
            if not fwd:
                ex.assert_(st, z3.Implies(w.replyq != -1, z3.BoolVal(len(rep) == 1 or n >= 2)), "a request that is not forwarded is answered")
            for m in fwd:
                ex.assert_(st, z3.BoolVal(m["r"] is w.RES and bool(w.is_data(m))), "with the data of the service")
                if data != "null":
                    ex.assert_(st, m["data"][1] == ln, "with the length of the data")
                ex.assert_(st, z3.Implies(z3.ULE(w.b, w.nm), m["svc"] == st.rd(w.SVC, w.b, 1)), "to the requested service")
                ex.assert_(st, z3.And(m["cd"] == w.cd, m["replyq"] == w.replyq, m["cat"] == L["app"]), "the reply will go to the original caller")
                ex.assert_(st, (m["flags"] & TPTRAN != 0) == w.trans, "in the transaction of the request, if any")
                ex.assert_(st, z3.Implies(w.trans, m["gttid"] == w.gtt), "it is the same transaction")
                ex.assert_(st, z3.BoolVal(m["ended"] == len(st.ghost["ended"])), "the own branch is ended before")
                for e in st.ghost["ended"]:
                    ex.assert_(st, e != 0 if z3.is_bv(e) else e, "the own branch is successful")
                ex.assert_(st, z3.BoolVal(st.ghost["freed"] == ((w.DATA,) if data == "other" else ())), "the buffer of the service is freed")
            for m in rep:
                w.check_reply(ex, st, m, bv(TPESVCERR, 32), None, None, " (failed)")
                ex.assert_(st, z3.BoolVal(m["data"] is not None and m["data"] != "?"), "a failed service sends no partial data")
        w.done = done

        def setup(ex, st):
            w.setup(st)
            pre_request(w, st)
            st.assume(TQ != w.replyq)
            return [(st, [Ptr(w.SVC), w.d(), ln, fl], None)]

        def post(ex, kind, st, ret, info):
            fail(ex, "tpforward does not return to the service", kind)
        verify(ctx, ex, "tpforward", setup, post)
    return go


def run_mtype(ctx):
    w = Srv()
    L = w.L
    ex = ctx.exec("mtype", rules=[w.rules()])
    c, t = iv("counter"), iv("mtype0", 64)

    def setup(ex, st):
        w.setup(st)
        st.wr(w.MAIN, bv(L["cnt"]), 4, c)
        st.wr(w.MAIN, bv(L["mt"]), 8, t)
        st.assume(z3.And(c >= 0, c < 8))
        return [(st, [Ptr(w.MAIN)], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        c2 = st.rd(w.MAIN, bv(L["cnt"]), 4)
        ex.assert_(st, z3.And(c2 == z3.If(c == 7, bv(0, 32), c + 1), st.rd(w.MAIN, bv(L["mt"]), 8) == t), "requests are counted")
        ex.assert_(st, ret == z3.If(c2 == 0, bv(0), t), "requests are taken by priority, each eighth one in order of arrival")
    verify(ctx, ex, r"server_main::mtype\(\)", setup, post)


def run_handle(ctx):
    w = Srv()
    L = w.L
    fn = r"server_main::handle\(long, fux::fml32buf&\)"
    ex = ctx.exec(fn, rules=[w.rules()])
    mt, a, g = iv("mtype1", 64), iv("ta_srvid", 64), iv("ta_grpno", 64)

    def get(ex, st, args, ins):
        ex.assert_(st, args[2] == 0, "the first occurrence is used", ins.dbg)
        return z3.If(args[1] == L["TA_SRVID"], a, z3.If(args[1] == L["TA_GRPNO"], g, fresh("other", 64)))
    get.is_contract = True
    ex.rules.append((rx(r"long fux::fml32buf::get<long>\(unsigned int, int\)"), get))

    def setup(ex, st):
        w.setup(st)
        st.assume(mt > 0)
        s0 = st.fork()
        return [(st, [Ptr(w.MAIN), mt, Ptr(Region("fml32buf", 16))], s0)]

    def post(ex, kind, st, ret, s0):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        own = z3.And(a == z3.ZeroExt(48, st.rd(w.MAIN, bv(L["srvid"]), 2)), g == z3.ZeroExt(48, st.rd(w.MAIN, bv(L["grpno"]), 2)))
        r = ret if z3.is_bool(ret) else ret != 0
        ex.assert_(st, r == own, "a shutdown request is for the server with this id in this group")
        stop, stop0 = st.rd(w.MAIN, bv(L["stop"]), 1), s0.rd(w.MAIN, bv(L["stop"]), 1)
        ex.assert_(st, z3.If(own, stop == 1, stop == stop0), "the server stops exactly when asked to")
        ex.assert_(st, z3.And(st.rd(w.MAIN, bv(L["mt"]), 8) == 1 - mt), "the same request is not taken again by priority")
        ex.assert_(st, z3.And(st.rd(w.MAIN, bv(L["cnt"]), 4) == 0), "nor as the next in order")
    verify(ctx, ex, fn, setup, post)


class Table(Srv):
    """the services of the server: std::map as lookup of one key"""
    def __init__(self):
        Srv.__init__(self)
        self.ND, self.END = Region("node", 64, kind="heap"), Region("end", 8)
        self.KEY = Region("key", None, kind="heap")
        self.F = [Region("function", None), Region("another function", None)]
        self.DUP = Region("copy", None, kind="heap")

    def key(self, ex, st, p, ins):
        q = st.rd(p.r, p.off, 8, True)
        ex.assert_(st, z3.And(z3.BoolVal(isinstance(q, Ptr) and q.r is self.SVC), q.off == 0) if isinstance(q, Ptr) else z3.BoolVal(False), "the given service is looked up", ins.dbg)

    def mrules(self):
        def find(ex, st, args, ins):
            if args[0].r.kind == "stack":
                args = args[1:]
            if st.ghost.get("threaded") is not None:
                ex.assert_(st, z3.Or(z3.Not(st.ghost["threaded"]), st.ghost["mutex"] == 1), "the services of the server are looked up under its mutex", ins.dbg)
            self.key(ex, st, args[1], ins)
            out = []
            for f in self.F if st.ghost.get("known") is None else []:
                s2 = st.fork()
                s2.ghost["known"] = f
                s2.wr(self.ND, bv(0), 8, Ptr(self.KEY))
                s2.wr(self.ND, bv(self.L["second"]), 8, Ptr(f))
                out.append((s2, Ptr(self.ND)))
            st.ghost["known"] = False
            return [(st, Ptr(self.END))] + out
        find.is_contract = True
        self.find_ = find

        def itcmp(neg):
            def h(ex, st, args, ins):
                a, b = (st.rd(p.r, p.off, 8, True) for p in args[:2])
                return z3.BoolVal((a.r is b.r) != neg)
            return h

        def insert(ex, st, args, ins):
            p = [a for a in args if isinstance(a, Ptr)][-1]
            k, f = st.rd(p.r, p.off, 8, True), st.rd(p.r, p.off + self.L["second"], 8, True)
            ex.assert_(st, z3.BoolVal(isinstance(k, Ptr) and k.r is self.DUP and isinstance(f, Ptr) and f.r is self.F[0]), "the service is kept with a copy of its name and its function", ins.dbg)
            st.ghost["inserted"] = st.ghost.get("inserted", 0) + 1
            return (Ptr(self.ND), bv(1, 8))
        insert.is_contract = True

        def erase(ex, st, args, ins):
            st.ghost["erased"] = st.ghost.get("erased", 0) + 1
            ex.assert_(st, z3.BoolVal(bool(st.ghost.get("known"))), "a known service is removed", ins.dbg)
            return Ptr(self.END)
        erase.is_contract = True

        def strdup(ex, st, args, ins):
            ex.assert_(st, z3.BoolVal(args[0].r is self.SVC), "the name is copied", ins.dbg)
            return Ptr(self.DUP)

        def free(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[0].r is self.KEY and bool(st.ghost.get("erased")) and not st.ghost.get("keyfreed")), args[0].off == 0), "the kept name is freed after the service is removed", ins.dbg)
            st.ghost["keyfreed"] = True

        def board(name, excs):
            def h(ex, st, args, ins):
                s = st.rd(args[1].r, args[1].off, 8, True)
                ex.assert_(st, z3.BoolVal(isinstance(s, Ptr) and s.r is self.SVC), "the given service is %sd on the board" % name, ins.dbg)
                ex.assert_(st, z3.And(args[2] == st.rd(self.MAIN, bv(self.L["mq"]), 8), args[3] == st.rd(self.MAIN, bv(self.L["msrv"]), 8)), "for the queue of this server", ins.dbg)
                ex.assert_(st, st.ghost["lock"] == 1, "the board is changed under its lock", ins.dbg)
                out = [(st, None)]
                for e in excs:
                    s2 = st.fork()
                    s2.ghost[name] = e
                    out.append((s2, Exc(e, Ptr(exc_obj()))))
                st.ghost[name] = st.ghost.get(name, 0) + 1
                return out
            h.is_contract = True
            return h

        def sctor(ex, st, args, ins):
            st.wr(args[0].r, args[0].off, 8, args[1])
        S = re.escape(STR)
        return [(rx(r".*" + SMAP + r"::find\(char const\* const&\)( const)?|.*_M_find_tr.*"), find), (rx(r".*" + SMAP + r"::c?end\(\)( const)?"), lambda ex, st, a, i: Ptr(self.END)),
                (rx(r"std::operator==\(" + SIT + r" const&, " + SIT + r" const&\)"), itcmp(False)), (rx(r"std::operator!=\(" + SIT + r" const&, " + SIT + r" const&\)"), itcmp(True)),
                (rx(r".*" + SMAP + r"::(insert|emplace|try_emplace).*"), insert), (rx(r".*" + SMAP + r"::erase(\[abi:cxx11\])?\(.*\)"), erase),
                (rx(SIT + r"::operator(\*|->)\(\) const"), lambda ex, st, a, i: st.rd(a[0].r, a[0].off, 8, True)),
                (rx(SIT + r"::_Rb_tree_const_iterator\(.*\)"), lambda ex, st, a, i: st.wr(a[0].r, a[0].off, 8, st.rd(a[1].r, a[1].off, 8, True))),
                (rx(r"(__)?strdup"), strdup), ("free", free), (rx(r"mib::advertise\(.*\)"), board("advertise", ["_ZTISt12out_of_range", "_ZTISt11logic_error"])),
                (rx(r"mib::unadvertise\(.*\)"), board("unadvertise", ["_ZTISt11logic_error"])), (rx(S + r"::basic_string(<.*>)?\(char const\*, .*\)"), sctor), (rx(S + r"::~basic_string\(\)"), h_none)]


def run_adv(ctx):
    w = Table()
    L = w.L
    fn = r"server_main::tpadvertisex\(char const\*, void \(\*\)\(tpsvcinfo\*\), long\)"
    ex = ctx.exec(fn, rules=[w.rules(), w.mrules()])

    def setup(ex, st):
        out = []
        for s, f in ((0, 0), (1, 0), (1, 1), (0, 1)):
            s2 = st.fork()
            w.setup(s2)
            out.append((s2, [Ptr(w.MAIN), Ptr(w.SVC) if s else NULL, Ptr(w.F[0]) if f else NULL, fl], (s, f)))
        return out

    def post(ex, kind, st, ret, info):
        err = st.ghost["tperrno"]
        adv, ins_, known = st.ghost.get("advertise"), st.ghost.get("inserted", 0), st.ghost.get("known")
        ex.assert_(st, z3.And(st.ghost["mutex"] == 0, st.ghost["lock"] == 0), "all locks are released")
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(adv == "_ZTISt11logic_error" and not ins_), "fails only when the board refuses what the server does not know")
            return
        s, f = info
        empty = w.nm == 0 if s else z3.BoolVal(True)
        bad = z3.Or(empty, z3.BoolVal(not f))
        nothing = z3.BoolVal(adv is None and not ins_)
        ex.assert_(st, z3.Implies(bad, z3.And(ret == bv(-1, 32), err == TPEINVAL, nothing)), "invalid arguments are refused")
        if known is None:
            ex.assert_(st, bad, "valid arguments are looked up")
        elif known is w.F[0]:
            ex.assert_(st, z3.And(ret == 0, nothing), "advertising the same function again changes nothing")
        elif known:
            ex.assert_(st, z3.And(ret == bv(-1, 32), err == TPEMATCH, nothing), "another function of the same service is refused")
        elif adv == "_ZTISt12out_of_range":
            ex.assert_(st, z3.And(ret == bv(-1, 32), err == TPELIMIT, z3.BoolVal(not ins_)), "a full board is reported")
        else:
            ex.assert_(st, z3.And(ret == 0, z3.BoolVal(adv == 1 and ins_ == 1)), "a new service is advertised on the board and kept with its function")
    verify(ctx, ex, fn, setup, post)


def run_unadv(ctx):
    w = Table()
    fn = r"server_main::tpunadvertise\(char const\*\)"
    ex = ctx.exec(fn, rules=[w.rules(), w.mrules()])

    def setup(ex, st):
        s2 = st.fork()
        w.setup(st)
        w.setup(s2)
        return [(st, [Ptr(w.MAIN), Ptr(w.SVC)], True), (s2, [Ptr(w.MAIN), NULL], False)]

    def post(ex, kind, st, ret, info):
        err = st.ghost["tperrno"]
        un, er, known = st.ghost.get("unadvertise"), st.ghost.get("erased", 0), st.ghost.get("known")
        ex.assert_(st, z3.And(st.ghost["mutex"] == 0, st.ghost["lock"] == 0), "all locks are released")
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(un == "_ZTISt11logic_error"), "fails only when the board does not know what the server knows")
            return
        bad = w.nm == 0 if info else z3.BoolVal(True)
        nothing = z3.BoolVal(un is None and not er)
        ex.assert_(st, z3.Implies(bad, z3.And(ret == bv(-1, 32), err == TPEINVAL, nothing)), "invalid names are refused")
        if known is None:
            ex.assert_(st, bad, "valid names are looked up")
        elif not known:
            ex.assert_(st, z3.And(ret == bv(-1, 32), err == TPENOENT, nothing), "an unknown service is refused")
        else:
            ex.assert_(st, z3.And(ret == 0, z3.BoolVal(un == 1 and er == 1 and bool(st.ghost.get("keyfreed")))), "the service is removed from the board and from the server")
    verify(ctx, ex, fn, setup, post)

class Loop(Table):
    """the dispatcher: what happens to one request after the other"""
    def __init__(self, main):
        Table.__init__(self)
        self.MT = self.T if main else Region("main thread", self.L["thread"])
        for f in self.F:
            f.tag["callable"] = lambda ex, st, args, ins, f=f: self.service(ex, st, args, ins, f)
        self.REQ.tag["strlen"] = self.namelen
        self.mt = iv("mtype_wanted", 64)

    def key(self, ex, st, p, ins):
        q = st.rd(p.r, p.off, 8, True)
        ex.assert_(st, z3.And(z3.BoolVal(isinstance(q, Ptr) and q.r is self.REQ), q.off == self.L["svc"]) if isinstance(q, Ptr) else z3.BoolVal(False), "the requested service is looked up", ins.dbg)

    def namelen(self, ex, st, p):
        ex.assert_(st, p.off == self.L["svc"], "the name of the service of the request is used")
        return st.ghost["svclen"]

    def name(self, st):
        return [st.rd(self.REQ, bv(self.L["svc"] + i), 1) for i in range(self.L["svclen"])]

    def setup(self, st, ex):
        Srv.setup(self, st)
        L = self.L
        self.nm = bv(0)
        st.ghost.update(pending=bv(0), trans=z3.BoolVal(False), own=z3.BoolVal(False), adopted=z3.BoolVal(False), svclen=iv("svclen0", 64))
        t = st.rd(ex.global_ptr("_ZN3fux8threadedE").r, bv(0), 1)
        st.assume(z3.ULE(t, 1))
        st.ghost["threaded"] = t == 1
        mp = [m for m, d in ex.p.dem.items() if d == "main_thread_ptr"][0]
        st.wr(ex.global_ptr(mp).r, bv(0), 8, Ptr(self.MT))
        st.wr(self.MAIN, bv(L["stop"]), 1, bv(0, 8))

    def settled(self, st):
        """the last request is done: answered, handed on, or kept for the answer when the server has stopped"""
        return z3.Or(st.ghost["pending"] == 0, z3.And(st.ghost["own"], st.ghost["adopted"], st.rd(self.MT, bv(self.L["shut"]), 1) == 1, st.rd(self.MAIN, bv(self.L["stop"]), 1) == 1))

    def guarded(self, ex, st, what, ins):
        ex.assert_(st, z3.Or(z3.Not(st.ghost["threaded"]), st.ghost["mutex"] == 1), what + " under the server's mutex", ins.dbg)

    def service(self, ex, st, args, ins, f):
        L, I = self.L, args[0]
        ex.assert_(st, z3.And(st.ghost["pending"] == 1, st.ghost["mutex"] == 0), "a service is called for a request, and without the lock of the server", ins.dbg)
        ex.assert_(st, z3.BoolVal(st.ghost.get("known") is f), "the function advertised for the service is called", ins.dbg)
        rd = lambda k, n, ptr=False: st.rd(I.r, I.off + L["i." + k], n, ptr) if ptr else st.rd(I.r, I.off + L["i." + k], n)
        rq = lambda k, n: st.rd(self.REQ, bv(L[k]), n)
        d = rd("data", 8, True)
        ex.assert_(st, z3.And(z3.BoolVal(isinstance(d, Ptr) and d.r is self.ATMI), d.off == 0) if isinstance(d, Ptr) else z3.BoolVal(False), "the service gets the data of the request", ins.dbg)
        ex.assert_(st, z3.And(rd("len", 8) == st.ghost["dsz"], rd("flags", 8) == rq("mflags", 8), rd("cd", 4) == rq("cd", 4)), "with its length, flags and descriptor", ins.dbg)
        ex.assert_(st, z3.And(*[z3.Implies(z3.ULE(bv(i), st.ghost["svclen"]), st.rd(I.r, I.off + L["i.name"] + i, 1) == b) for i, b in enumerate(self.name(st))]), "with the name of the service", ins.dbg)
        ex.assert_(st, st.ghost["trans"] == (rq("mflags", 8) & TPTRAN != 0), "the service runs in the transaction of the request, if any", ins.dbg)
        st.ghost["called"] = True
        return None

    def lrules(self):
        L = self.L

        def qrecv(ex, st, args, ins):
            q, m, t, f = args
            self.guarded(ex, st, "requests are received", ins)
            ex.assert_(st, z3.And(st.ghost["pending"] == 0), "the last request is done before the next is received", ins.dbg)
            ex.assert_(st, z3.And(z3.BoolVal(m.r is self.T), m.off == L["req"], q == st.rd(self.MAIN, bv(L["rq"]), 4), t == self.mt, f == 0), "a request is received from the queue of the server", ins.dbg)
            s2 = self.fault(st, "_ZTISt12system_error")
            n = fresh("svclen", 64)
            st.assume(z3.ULT(n, L["svclen"]))
            for i in range(L["svclen"]):
                b = fresh("svc", 8)
                st.assume(z3.And(z3.Implies(n == i, b == 0), z3.Implies(z3.ULT(bv(i), n), b != 0)))
                st.wr(self.REQ, bv(L["svc"] + i), 1, b)
            for k, z in (("mtype", 8), ("cat", 1), ("cd", 4), ("replyq", 4), ("rval", 4), ("rcode", 8), ("mflags", 8), ("gttid", L["gsz"])):
                st.wr(self.REQ, bv(L[k]), z, fresh("rq_" + k, 8 * z))
            st.assume(z3.And(st.rd(self.REQ, bv(L["mtype"]), 8) > 0, z3.Implies(st.rd(self.REQ, bv(L["replyq"]), 4) != -1, st.rd(self.REQ, bv(L["cd"]), 4) > 0)))
            st.ghost.update(svclen=n, pending=bv(1), own=z3.BoolVal(False), adopted=z3.BoolVal(False), sent=(), ended=(), known=None, called=False, cur=st.fork())
            return [(st, None), s2]
        qrecv.is_contract = True

        def qsend(ex, st, args, ins):
            if st.ghost.get("known") is None and args[1].r is self.T and isc(simp(args[1].off)) and cval(simp(args[1].off)) == L["req"]:
                ex.assert_(st, z3.And(args[0] == st.rd(self.MAIN, bv(L["rq"]), 4), args[3] == L["notime"], st.ghost["pending"] == 1, z3.Not(st.ghost["own"])), "a request for another server is put back in the queue", ins.dbg)
                same = [st.rd(self.REQ, bv(L[k]), n) == st.ghost["cur"].rd(self.REQ, bv(L[k]), n) for k, n in (("mtype", 8), ("cat", 1), ("cd", 4), ("replyq", 4), ("gttid", L["gsz"]), ("mflags", 8))]
                ex.assert_(st, z3.And(*same), "the request is put back as it was", ins.dbg)
                s2 = self.fault(st, "_ZTISt12system_error")
                st.ghost["pending"] = bv(0)
                return [(st, z3.BoolVal(True)), s2]
            return base(ex, st, args, ins)
        qsend.is_contract = True

        def get_data(ex, st, args, ins):
            o = simp(args[0].off)
            ok = args[1].r is args[0].r and args[0].r in (self.T, self.MT)
            ex.assert_(st, z3.And(z3.BoolVal(ok), args[0].off == L["req"], args[1].off == L["buf"]), "the data is taken from the request", ins.dbg)
            return [(st, None), self.fault(st)]
        get_data.is_contract = True

        def assign(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[0].r is self.MT and args[1].r is self.T), args[0].off == L["req"], args[1].off == L["req"]), "the request is kept by the main thread", ins.dbg)
            st.ghost["adopted"] = z3.BoolVal(True)
            return args[0]

        def is_stop(st):
            b = self.name(st)
            return z3.And(*[b[i] == c for i, c in enumerate(b".stop\0")])

        def strcmp(ex, st, args, ins):
            k = [i for i, a in enumerate(args) if a.r is self.REQ]
            if len(k) != 1:
                raise EngineError("strcmp")
            c = args[1 - k[0]]
            ex.assert_(st, z3.And(args[k[0]].off == L["svc"], *[st.rd(c.r, c.off + i, 1) == x for i, x in enumerate(b".stop\0")]), "the name of the service is looked at", ins.dbg)
            r = fresh("cmp", 32)
            st.assume((r == 0) == is_stop(st))
            return r

        def handle(ex, st, args, ins):
            self.guarded(ex, st, "requests to stop are handled", ins)
            ex.assert_(st, z3.And(is_stop(st), st.ghost["pending"] == 1), "a request to stop is handled", ins.dbg)
            ex.assert_(st, args[1] == st.rd(self.REQ, bv(L["mtype"]), 8), "with its own type", ins.dbg)
            own = freshb("own")
            st.ghost["own"] = own
            st.ghost["adopted"] = z3.BoolVal(self.MT is self.T)
            st.wr(self.MAIN, bv(L["stop"]), 1, z3.If(own, bv(1, 8), st.rd(self.MAIN, bv(L["stop"]), 1)))
            return own
        handle.is_contract = True

        def find(ex, st, args, ins):
            ex.assert_(st, z3.Not(is_stop(st)), "a request to stop is not dispatched", ins.dbg)
            return tfind(ex, st, args, ins)
        find.is_contract = True

        def tx_join(ex, st, args, ins):
            rq = lambda k, n: st.rd(self.REQ, bv(L[k]), n)
            ex.assert_(st, z3.And(z3.Not(st.ghost["trans"]), rq("mflags", 8) & TPTRAN != 0, args[0] == rq("gttid", L["gsz"])), "the transaction of the request is joined", ins.dbg)
            s2 = self.fault(st)
            st.ghost["trans"] = z3.BoolVal(True)
            return [(st, fresh("rc", 32)), s2]
        tx_join.is_contract = True

        def setjmp(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[0].r is self.T), args[0].off == L["env"], st.ghost["mutex"] == 0), "the service returns to the dispatcher, which holds no lock then", ins.dbg)
            s2 = st.fork()
            s2.ghost["pending"] = bv(0)              # tpreturn / tpforward of the service: proved to answer or forward
            s2.ghost["trans"] = z3.BoolVal(False)    # and to end the branch
            v = fresh("jmp", 32)
            s2.assume(v != 0)
            return [(st, bv(0, 32)), (s2, v)]
        setjmp.is_contract = True

        def stop(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[0].r is self.MAIN), args[0].off == L["stop"]), "stop flag", ins.dbg)
            return z3.Or(freshb("stop"), st.rd(self.MAIN, bv(L["stop"]), 1) != 0)

        def size(ex, st, args, ins):
            st.ghost["rawsize"] = fresh("size", 64)
            return st.ghost["rawsize"]

        def datasize(ex, st, args, ins):
            ex.assert_(st, args[0] == st.ghost["rawsize"], "the length is that of the data", ins.dbg)
            st.ghost["dsz"] = fresh("datasize", 64)
            return st.ghost["dsz"]
        rules = self.rules()
        base = self.qsend_
        mr = self.mrules()
        tfind = self.find_
        return rules + mr + [(rx(r"fux::ipc::qrecv\(.*\)"), qrecv), (rx(r"fux::ipc::qsend\(.*\)"), qsend), (rx(r"fux::ipc::msg::get_data\(char\*\*\)"), get_data), (rx(r"fux::ipc::msg::operator=\(.*\)"), assign),
                (rx(r"(__)?strcmp"), strcmp), (rx(r"server_main::handle\(.*\)"), handle), (rx(r"server_main::mtype\(\)"), lambda ex, st, a, i: self.mt), (rx(r".*" + SMAP + r"::find\(char const\* const&\)( const)?"), find),
                (rx(r"fux::tx_join\(.*\)"), tx_join), (rx(r"_?_?(sig)?setjmp"), setjmp), (rx(r"std::(atomic<bool>::operator bool|__atomic_base<bool>::operator bool|(atomic<bool>|__atomic_base<bool>)::load)\(.*\) const"), stop),
                (rx(r"fux::ipc::msg::size_data\(\) const"), size), (rx(r"fux::mem::datasize\(long\)"), datasize), (rx(r"fux::fml32buf::fml32buf\(tpsvcinfo\*\)"), h_none), (rx(r"fux::fml32buf::~fml32buf\(\)"), h_none)]


def run_dispatch(main):
    def go(ctx):
        w = Loop(main)
        L = w.L
        ex = ctx.exec("dispatch", rules=[w.lrules()])

        def done(ex, st):
            sent = st.ghost["sent"]
            rq = lambda k, n: st.rd(w.REQ, bv(L[k]), n)
            w.replyq, w.cd = rq("replyq", 4), rq("cd", 4)
            ex.assert_(st, st.ghost["pending"] == 1, "a request is answered")
            ex.assert_(st, z3.Implies(w.replyq == -1, z3.BoolVal(not sent)), "no reply is sent when none is expected")
            ex.assert_(st, z3.Implies(w.replyq != -1, z3.BoolVal(len(sent) == 1 or st.ghost["faults"] > 0 and not sent)), "one reply is sent when the service does not")
            ex.assert_(st, z3.Not(st.ghost["trans"]), "the branch of the transaction is ended")
            for e in st.ghost["ended"]:
                ex.assert_(st, (e == 0 if z3.is_bv(e) else z3.Not(e)), "as failed")
            w.data = "null"
            for m in sent:
                w.check_reply(ex, st, m, bv(TPESVCERR if st.ghost["called"] else L["TPENOENT"], 32), None, None, " (no service)")
        w.done = done

        def spec(lc):
            return {"cands": [Cand("settled", lambda st, ph: w.settled(st)), Cand("unlocked", lambda st, ph: z3.And(st.ghost["mutex"] == 0, z3.Not(st.ghost["trans"]))),
                              Cand("stopped", lambda st, ph: z3.Or(st.ghost["pending"] == 0, st.rd(w.MAIN, bv(L["stop"]), 1) == 1))], "variants": [],
                    "havoc_ghost": {"pending": lambda ex, s: fresh("pending", 64), "own": lambda ex, s: freshb("own"), "adopted": lambda ex, s: freshb("adopted"),
                                    "mutex": lambda ex, s: fresh("mutex", 64), "trans": lambda ex, s: freshb("trans")}}
        ex.loop_spec = lambda lc: spec(lc) if lc.dem.startswith("dispatch") else None

        def setup(ex, st):
            w.setup(st, ex)
            return [(st, [], None)]

        def post(ex, kind, st, ret, info):
            ex.assert_(st, st.ghost["mutex"] == 0, "the mutex is released")
            if kind == "exc":
                ex.assert_(st, z3.BoolVal(st.ghost["faults"] > 0), "fails only when a message can not be received or made")
                return
            ex.assert_(st, w.settled(st), "no request is left without an answer")
        verify(ctx, ex, r"dispatch\(\)", setup, post)
    return go


UNITS = [Unit("reply " + d, ["server"], run_reply(d)) for d in ("null", "own", "other")] + \
        [Unit("tpreturn " + d, ["server"], run_return(d)) for d in ("null", "own", "other")] + [Unit("tpreturn client", ["server"], run_return("other", False))] + \
        [Unit("tpforward " + d, ["server"], run_forward(d)) for d in ("null", "own", "other")] + \
        [Unit("mtype", ["server"], run_mtype), Unit("handle", ["server"], run_handle), Unit("tpadvertise", ["server"], run_adv), Unit("tpunadvertise", ["server"], run_unadv)] + \
        [Unit("dispatch" + n, ["server"], run_dispatch(m)) for n, m in ((" main", True), (" thread", False))]
replay = driver("server.cpp", extra_tu={"ipc": ["-D%s=real_%s" % (f, f) for f in ("semlock", "semunlock", "qsend", "qrecv")], "mem": ["-Dtpfree=real_tpfree"], "mib": ["-Dgetmib=real_getmib"]})
