"""C02: requests and replies are matched by descriptor"""
from specs.cdcore import *
from specs.ipccore import text_rules


def any_buffered_contract(w):
    """proved in C01"""
    def h(ex, st, args, ins):
        s2 = st.fork()
        k = fresh("anybuf", 32)
        st.assume(mk(k))
        w.wf(st, k)
        st.assume(z3.And(w.has(st, k), w.status(st, k) == w.M["buffered"], k > 0))
        s2.assume(z3.Implies(w.has(s2, w.J), w.status(s2, w.J) != w.M["buffered"]))
        return [(st, k), (s2, bv(-1, 32))]
    h.is_contract = True
    return h


def allocate_contract(w):
    """proved in C01"""
    def h(ex, st, args, ins):
        s2 = st.fork()
        k = fresh("newcd", 32)
        st.assume(z3.And(k > 0, z3.Not(w.has(st, k))))
        st.ghost["in"] = z3.Store(st.ghost["in"], k, z3.BoolVal(True))
        st.ghost["size"] = st.ghost["size"] + 1
        st.wr(w.R, bv(w.roff + w.M["seq"]), 4, fresh("seq", 32))
        st.wr(w.E, node(k) + w.M["second"] + w.M["status"], 4, bv(w.M["none"], 32))
        st.wr(w.E, node(k) + w.M["second"] + w.M["res"], 8, fresh("emptymsg", 64))
        st.ghost["allocated"] = k
        s2.ghost["tperrno"] = bv(TPELIMIT, 32)
        s2.ghost["refused"] = True
        return [(st, k), (s2, bv(-1, 32))]
    h.is_contract = True
    return h


mk = z3.Function("descriptor", z3.BitVecSort(32), z3.BoolSort())


class Req(World):
    def __init__(self):
        World.__init__(self)
        self.RQ = Region("request", self.M["msgmem"])
        self.ACC = Region("accesser", 64)
        self.NAME, self.DATA = Region("svc", 65), Region("data", None)

    def rules(self):
        base = World.rules(self)
        arrow0 = [h for p, h in base if not isinstance(p, str) and "operator->" in p.pattern and "ipc" in p.pattern][0]

        def arrow(ex, st, args, ins):
            p = args[0]
            if p.r is self.C:
                ex.assert_(st, p.off == self.L["rq"], "the request message", ins.dbg)
                return Ptr(self.RQ)
            return arrow0(ex, st, args, ins)

        def tptypes(ex, st, args, ins):
            s2 = st.fork()
            s2.ghost["tperrno"] = fresh("tperrno", 32)
            s2.assume(s2.ghost["tperrno"] != 0)
            s2.ghost["badtype"] = True
            r = fresh("size", 64)
            st.assume(r >= 0)
            st.ghost["tperrno"] = bv(0, 32)
            return [(st, r), (s2, bv(-1, 64))]
        tptypes.is_contract = True
        return base + [(rx(r"fux::ipc::msg::(operator->|as_msgmem)\(\)"), arrow), ("tptypes", tptypes),
                       (rx(r"responses::allocate\(\)"), allocate_contract(self)), (rx(r"responses::any_buffered\(\)"), any_buffered_contract(self))] + text_rules()


def run_acall(data_null):
    def go(ctx):
        w = Req()
        L, M = w.L, w.M
        ex = ctx.exec("tpacall_queue", rules=[w.rules()])
        q, ln, fl = iv("msqid"), iv("len", 64), iv("flags", 64)
        trans = freshb("transactional")
        gtt = iv("gttid", 8 * M["gsz"])
        nm = iv("namelen", 64)

        def set_data(ex, st, args, ins):
            p, d, n = args
            ex.assert_(st, z3.And(z3.BoolVal(p.r is w.C), p.off == L["rq"]), "the data is put in the request", ins.dbg)
            ex.assert_(st, z3.And(z3.BoolVal(d.isnull() if data_null else d.r is w.DATA), n == ln), "the caller's data with its length", ins.dbg)
            ex.assert_(st, z3.BoolVal(not st.ghost.get("sent")), "before it is sent", ins.dbg)
            st.ghost["data"] = True
            return [(st, None), (st.fork(), Exc("_ZTISt13runtime_error", Ptr(exc_obj())))]
        set_data.is_contract = True

        def gttid(ex, st, args, ins):
            return gtt

        def qsend(ex, st, args, ins):
            qq, msg, timeout, flg = args
            ex.assert_(st, z3.BoolVal(not st.ghost.get("sent")), "the request is sent once", ins.dbg)
            ex.assert_(st, z3.BoolVal(bool(st.ghost.get("data"))), "with its data", ins.dbg)
            ex.assert_(st, z3.And(qq == q, z3.BoolVal(msg.r is w.C), msg.off == L["rq"]), "to the requested queue", ins.dbg)
            want = z3.If(fl & TPNOTIME != 0, bv(L["notime"], 8), z3.If(fl & TPNOBLOCK != 0, bv(L["noblock"], 8), bv(L["noflags"], 8)))
            ex.assert_(st, flg == want, "blocking as requested", ins.dbg)
            ex.assert_(st, timeout == w.effective(), "bounded by the block time in effect", ins.dbg)
            cd, rqq = st.rd(w.RQ, bv(M["cd"]), 4), st.rd(w.RQ, bv(M["replyq"]), 4)
            k = st.ghost.get("allocated")
            noreply = fl & TPNOREPLY != 0
            ex.assert_(st, z3.Implies(noreply, z3.And(cd == 0, rqq == bv(-1, 32), z3.BoolVal(k is None))), "no reply is requested and no descriptor is taken for TPNOREPLY", ins.dbg)
            ex.assert_(st, z3.Implies(z3.Not(noreply), z3.And(z3.BoolVal(k is not None), cd == (k if k is not None else cd), rqq == w.rpid)), "a new descriptor and this client's reply queue otherwise", ins.dbg)
            inT = z3.And(fl & TPNOTRAN == 0, trans)
            ex.assert_(st, (st.rd(w.RQ, bv(M["mflags"]), 8) & TPTRAN != 0) == inT, "part of the transaction exactly when there is one and the caller wants it", ins.dbg)
            ex.assert_(st, st.rd(w.RQ, bv(M["gttid"]), M["gsz"]) == z3.If(inT, gtt, bv(M["badgttid"], 8 * M["gsz"])), "of this transaction", ins.dbg)
            b = iv("b", 64)
            ex.assert_(st, z3.Implies(z3.ULE(b, nm), st.rd(w.RQ, M["svc"] + b, 1) == st.rd(w.NAME, b, 1)), "for the requested service", ins.dbg)
            st.ghost["sent"] = True
            st.ghost["sentcd"] = cd
            s2, s3 = st.fork(), st.fork()
            s2.ghost["sent"] = s3.ghost["sent"] = "no"
            return [(st, z3.BoolVal(True)), (s2, z3.BoolVal(False)), (s3, Exc("_ZTISt12system_error", Ptr(exc_obj())))]
        qsend.is_contract = True
        ex.rules += [(rx(r"fux::ipc::msg::set_data\(char\*, long\)"), set_data), (rx(r"fux::tx::gttid\(\)"), gttid), (rx(r"fux::tx::transactional\(\)"), lambda ex, st, a, i: trans),
                     (rx(r"fux::ipc::qsend\(.*\)"), qsend)]

        def setup(ex, st):
            w.setup(st)
            w.rpid = iv("rpid")
            st.wr(w.C, bv(L["rpid"]), 4, w.rpid)
            b = iv("b", 64)
            st.assume(z3.ULT(nm, 60))
            st.assume(st.rd(w.NAME, nm, 1) == 0)
            w.NAME.tag["strlen"] = lambda ex, st, p: nm
            old = st.rd(w.RQ, bv(M["mflags"]), 8)
            st.assume(z3.Or(old == 0, old == TPTRAN))     # as left by the previous call or by construction
            s0 = st.fork()
            return [(st, [Ptr(w.C), q, Ptr(w.NAME), NULL if data_null else Ptr(w.DATA), ln, fl], s0)]

        def post(ex, kind, st, ret, s0):
            sent = st.ghost.get("sent") is True
            ins_, err = st.ghost["in"], st.ghost["tperrno"]
            keep = z3.And(ins_[w.J] == s0.ghost["in"][w.J], st.ghost["size"] == s0.ghost["size"])
            Jk = z3.Implies(w.has(s0, w.J), z3.And(w.status(st, w.J) == w.status(s0, w.J), w.token(st, w.J) == w.token(s0, w.J)))
            ex.assert_(st, Jk, "replies to other calls are kept")
            if kind == "exc":
                ex.assert_(st, z3.And(z3.BoolVal(not sent), keep), "a request that failed does not keep a descriptor")
                return
            if not sent:
                ex.assert_(st, z3.And(ret == bv(-1, 32), err != 0, keep), "a request that was not sent fails and does not keep a descriptor")
                if st.ghost.get("sent") == "no":
                    ex.assert_(st, err == z3.If(fl & TPNOBLOCK != 0, bv(TPEBLOCK, 32), bv(TPETIME, 32)), "a full queue is reported as TPEBLOCK or TPETIME")
                elif st.ghost.get("refused"):
                    ex.assert_(st, err == TPELIMIT, "too many outstanding calls are reported as TPELIMIT")
                else:
                    ex.assert_(st, z3.BoolVal(bool(st.ghost.get("badtype"))), "nothing else keeps a request from being sent")
                return
            cd = st.ghost["sentcd"]
            ex.assert_(st, z3.And(ret == cd, err == 0), "the descriptor of the request is returned")
            ex.assert_(st, z3.If(fl & TPNOREPLY != 0, z3.And(ret == 0, keep), z3.And(ret > 0, w.has(st, ret), z3.Not(w.has(s0, ret)), z3.Implies(w.J != ret, ins_[w.J] == s0.ghost["in"][w.J]))),
                       "the descriptor is outstanding; other calls are unaffected")
        ex.loop_spec = lambda c: None
        verify(ctx, ex, "client::tpacall_queue(int, char const*, char*, long, long)", setup, post)
    return go


def run_getrply(anyone):
    def go(ctx):
        w = Req()
        L, M = w.L, w.M
        ex = ctx.exec("tpgetrply", rules=[w.rules()])
        fl = iv("flags", 64)
        CD, LEN, DP, DATA = Region("cd", 4), Region("len", 8), Region("datap", 8), Region("data", None)
        TUR = Region("tpurcode", 8)
        now = [None]

        def nowh(ex, st, args, ins):
            t = fresh("now", 64)
            st.assume(z3.And(t >= 0, t < 1 << 61))
            st.ghost["now"] = t
            return t

        def qrecv(ex, st, args, ins):
            q, msg, ty, f = args
            ex.assert_(st, q == w.rpid, "waits on this client's reply queue", ins.dbg)
            ex.assert_(st, z3.And(ty == 0, f == 0), "for any message", ins.dbg)
            bt = st.ghost["bt"]
            ex.assert_(st, z3.Implies(st.ghost["now"] + bt * 1000000 >= 0, st.rd(w.ACC, bv(w.toff), 8) == st.ghost["now"] + bt * 1000000), "the wait is bounded by the block time in effect", ins.dbg)
            s2 = st.fork()
            tok = fresh("received", 64)
            st.assume(z3.ULE(tok, 1 << 40))
            st.wr(msg.r, msg.off, 8, tok)
            mcd, cat = w.fld(st, tok, "cd", 4), w.fld(st, tok, "cat", 1)
            w.wf(st, mcd)
            forJ = z3.And(cat != M["unblock"], mcd == w.J)
            st.ghost["gotJ"] = z3.Or(st.ghost["gotJ"], forJ)
            st.ghost["tokJ"] = z3.If(forJ, tok, st.ghost["tokJ"])
            st.ghost["last"] = tok
            st.ghost["waited"] = z3.BoolVal(True)
            return [(st, None), (s2, Exc("_ZTISt12system_error", Ptr(exc_obj())))]
        qrecv.is_contract = True

        def nextblk(ex, st, args, ins):
            n, a = w.times(st)
            t = z3.If(n != 0, n, z3.If(a != 0, a, w.dflt))
            st.wr(w.C, bv(L["next"]), 8, bv(0))
            st.ghost["bt"] = t
            return t
        nextblk.is_contract = True

        def get_data(ex, st, args, ins):
            m, d = args
            ex.assert_(st, z3.And(z3.BoolVal(d.r is DP), d.off == 0), "into the caller's buffer", ins.dbg)
            ex.assert_(st, z3.BoolVal(st.ghost.get("delivered") is None), "one reply is delivered", ins.dbg)
            st.ghost["delivered"] = st.rd(m.r, m.off, 8)
            return [(st, None), (st.fork(), Exc("_ZTISt13runtime_error", Ptr(exc_obj())))]
        get_data.is_contract = True
        SIZE = z3.Function("msg_size", z3.BitVecSort(64), z3.BitVecSort(64))

        def size_data(ex, st, args, ins):
            return SIZE(st.rd(args[0].r, args[0].off, 8))
        DSZ = z3.Function("datasize", z3.BitVecSort(64), z3.BitVecSort(64))
        ex.rules += [(rx(r"fux::ipc::qrecv\(.*\)"), qrecv), (rx(r"client::next_blocktime\(\)"), nextblk), (rx(r"fux::ipc::msg::get_data\(char\*\*\)"), get_data),
                     (rx(r"fux::ipc::msg::size_data\(\) const"), size_data), (rx(r"fux::mem::datasize\(.*\)"), lambda ex, st, a, i: DSZ(a[0])),
                     (rx(r"std::chrono::_V2::steady_clock::now\(\)"), nowh), (rx(r"mib::accessers\(\)"), lambda ex, st, a, i: Ptr(w.ACC)),
                     (rx(r"mibarrptr<accesser>::at\(unsigned long\) const"), lambda ex, st, a, i: Ptr(w.ACC)), (rx(r"userlog"), ret_fresh(32)),
                     (rx(r"_tls_tpurcode"), lambda ex, st, a, i: Ptr(TUR))]
        ex.global_hooks["tpurcode"] = lambda ex, r: None

        def setup(ex, st):
            w.setup(st)
            w.rpid = iv("rpid")
            st.wr(w.C, bv(L["rpid"]), 4, w.rpid)
            w.toff = layout(["src/mibtypes.h"] if False else ["src/mib.h"], {"t": "offsetof(accesser,rpid_timeout)"})["t"]
            w.inv = (1 << 63) - 1
            st.wr(w.ACC, bv(w.toff), 8, bv(w.inv))
            cd = iv("cd")
            w.wf(st, cd)
            st.wr(CD, bv(0), 4, cd)
            st.wr(DP, bv(0), 8, Ptr(DATA))
            st.assume((fl & TPGETANY != 0) if anyone else (fl & TPGETANY == 0))
            st.ghost["gotJ"], st.ghost["tokJ"], st.ghost["last"], st.ghost["bt"] = z3.BoolVal(False), bv(0), bv(0), bv(0)
            st.ghost["now"], st.ghost["waited"] = bv(0), z3.BoolVal(False)
            st.assume(z3.And(w.next <= 1 << 41, w.all <= 1 << 41, w.dflt <= 1 << 41))
            if not anyone:
                st.assume(w.J != cd)
            s0 = st.fork()
            st.ghost["s0"] = s0
            s2 = st.fork()
            return [(st, [Ptr(w.C), Ptr(CD), Ptr(DP), Ptr(LEN), fl], (s0, cd, True)), (s2, [Ptr(w.C), Ptr(CD), Ptr(DP), NULL, fl], (s0, cd, False))]

        def post(ex, kind, st, ret, info):
            s0, cd, haslen = info
            J, err = w.J, st.ghost["tperrno"]
            tok = st.ghost.get("delivered")
            inJ = w.has(s0, J)
            if tok is not None:
                dcd = w.fld(st, tok, "cd", 4)
                ex.assert_(st, z3.BoolVal(True) if anyone else dcd == cd, "the reply delivered is the reply to the call asked for")
                ex.assert_(st, z3.Or(z3.And(st.ghost["waited"], tok == st.ghost["last"]),
                                     z3.And(w.has(s0, dcd), w.status(s0, dcd) == M["buffered"], tok == w.token(s0, dcd))),
                           "it is the message received, or the one received earlier for this call")
            if kind == "exc":
                return
            okret = z3.Implies(ret != bv(-1, 32), z3.BoolVal(tok is not None))
            ex.assert_(st, okret, "success means that a reply was delivered")
            others = z3.Implies(z3.And(inJ, *([J != w.fld(st, tok, "cd", 4)] if tok is not None else [])),
                                z3.And(w.has(st, J), z3.If(z3.And(st.ghost["gotJ"], z3.BoolVal(not anyone)),
                                                           z3.And(w.status(st, J) == M["buffered"], w.token(st, J) == st.ghost["tokJ"]),
                                                           z3.And(w.status(st, J) == w.status(s0, J), w.token(st, J) == w.token(s0, J)))))
            ex.assert_(st, others, "replies to other calls are kept until they are asked for")
            ex.assert_(st, z3.Implies(z3.Not(inJ), z3.Not(w.has(st, J))), "no descriptor appears")
            ex.assert_(st, st.rd(w.ACC, bv(w.toff), 8) == w.inv, "no time limit remains after the wait")
            if tok is not None:
                rval = w.fld(st, tok, "rval", 4)
                dcd = w.fld(st, tok, "cd", 4)
                ex.assert_(st, z3.If(rval == TPMINVAL, z3.And(ret == 0, err == 0), z3.And(ret == bv(-1, 32), err == rval)), "the outcome is that of the service")
                ex.assert_(st, st.rd(TUR, bv(0), 8) == w.fld(st, tok, "rcode", 8), "with its return code")
                ex.assert_(st, st.rd(CD, bv(0), 4) == dcd, "the descriptor of the reply is returned")
                ex.assert_(st, z3.Not(w.has(st, dcd)), "its descriptor is no longer outstanding")
                if haslen:
                    ex.assert_(st, st.rd(LEN, bv(0), 8) == DSZ(SIZE(tok)), "the length of the reply is returned")
            else:
                ex.assert_(st, ret == bv(-1, 32), "without a reply the call fails")
                if not anyone:
                    # badtype / TPEBADDESC / TPETIME
                    if not st.ghost.get("badtype"):
                        ex.assert_(st, z3.If(w.has(s0, cd), z3.And(err == TPETIME, st.ghost["waited"], w.fld(st, st.ghost["last"], "cat", 1) == M["unblock"]),
                                             z3.And(err == TPEBADDESC, z3.Not(st.ghost["waited"]))), "an unknown descriptor is refused, otherwise only a time out ends the wait")
                        ex.assert_(st, w.has(st, cd) == w.has(s0, cd), "the call stays outstanding")
                elif not st.ghost.get("badtype"):
                    ex.assert_(st, z3.And(err == TPETIME, st.ghost["waited"], w.fld(st, st.ghost["last"], "cat", 1) == M["unblock"]), "only a time out ends the wait")

        def loops(c):
            if "tpgetrply" not in c.dem:
                return None
            e = c.entry
            s0 = e.ghost["s0"]
            J = w.J

            def kept(st):
                lg, l0 = st.log(w.E), s0.log(w.E)
                o1, o2 = M["second"] + M["status"], M["second"] + M["res"]
                return Forall([z3.BitVecSort(32)], lambda k: z3.Implies(mk(k), z3.And(st.load_log(lg, w.E, node(k) + o1, 4) == s0.load_log(l0, w.E, node(k) + o1, 4),
                                                                             st.load_log(lg, w.E, node(k) + o2, 8) == s0.load_log(l0, w.E, node(k) + o2, 8))), [[("descriptor", 0)]], "kept")
            cs = [Cand("descriptors", lambda st, ph: z3.And(st.ghost["in"] == s0.ghost["in"], st.ghost["size"] == s0.ghost["size"])),
                  Cand("waiting", lambda st, ph: z3.Or(z3.Not(st.ghost["waited"]), w.status(st, s0.rd(CD, bv(0), 4)) != M["buffered"])),
                  Cand("asked for", lambda st, ph: z3.And(w.status(st, s0.rd(CD, bv(0), 4)) == w.status(s0, s0.rd(CD, bv(0), 4)), w.token(st, s0.rd(CD, bv(0), 4)) == w.token(s0, s0.rd(CD, bv(0), 4)))),
                  Cand("not buffered", lambda st, ph: z3.Implies(st.ghost["waited"], w.status(s0, s0.rd(CD, bv(0), 4)) != M["buffered"])),
                  Cand("limit", lambda st, ph: st.rd(w.ACC, bv(w.toff), 8) == w.inv),
                  Cand("cd", lambda st, ph: st.rd(CD, bv(0), 4) == s0.rd(CD, bv(0), 4)),
                  Cand("next", lambda st, ph: z3.And(w.times(st)[0] >= 0, w.times(st)[0] <= 1 << 41)),
                  Cand("J replies", lambda st, ph: z3.Implies(w.has(s0, J), z3.If(z3.And(st.ghost["gotJ"], z3.BoolVal(not anyone)),
                       z3.And(w.status(st, J) == M["buffered"], w.token(st, J) == st.ghost["tokJ"]),
                       z3.And(w.status(st, J) == w.status(s0, J), w.token(st, J) == w.token(s0, J)))))]
            if anyone:
                cs.append(Cand("replies", lambda st, ph: kept(st)))
            else:
                cs.append(Cand("outstanding", lambda st, ph: z3.Implies(st.ghost["waited"], w.has(s0, s0.rd(CD, bv(0), 4)))))
            hg = {"in": lambda ex, s: z3.Array(fresh("in", 8).decl().name(), z3.BitVecSort(32), z3.BoolSort()), "tperrno": lambda ex, s: fresh("tperrno", 32),
                  "gotJ": lambda ex, s: freshb("gotJ"), "waited": lambda ex, s: freshb("waited")}
            for k in ("size", "tokJ", "last", "bt", "now"):
                hg[k] = lambda ex, s: fresh("g", 64)
            return {"cands": cs, "variants": [], "havoc_ghost": hg}
        ex.loop_spec = loops
        verify(ctx, ex, "client::tpgetrply(int*, char**, long*, long)", setup, post)
    return go


def run_call(ctx):
    """tpcall: one request, then the wait for exactly its reply"""
    w = Req()
    ex = ctx.exec("tpcall", rules=[w.rules()])
    SVC, ID, DP, LEN = Region("svc", None), Region("idata", None), Region("odata", 8), Region("olen", 8)
    il, fl = iv("ilen", 64), iv("flags", 64)
    trans = freshb("transactional")

    def step(name, throws=True):
        def h(ex, st, args, ins):
            st.ghost["log"] = st.ghost.get("log", ()) + ((name, args),)
            if name in ("suspend", "resume"):
                return None
            r = fresh(name, 32)
            e = fresh("tperrno", 32)
            st.ghost["tperrno"] = e
            st.ghost[name] = r
            s2 = st.fork()
            if name == "request":
                st.assume(z3.Or(r == bv(-1, 32), r >= 0))
            else:
                st.ghost["waitcd"] = st.rd(args[0].r, args[0].off, 4)
                st.assume(z3.Or(r == 0, r == bv(-1, 32)))
            if not throws:
                return r
            s2.ghost["threw"] = True
            return [(st, r), (s2, Exc("_ZTISt12system_error", Ptr(exc_obj())))]
        h.is_contract = True
        return h
    ex.rules += [(rx(r"fux::tx::transactional\(\)"), lambda ex, st, a, i: trans), (rx(r"fux::tx_suspend\(\)"), step("suspend")), (rx(r"fux::tx_resume\(\)"), step("resume")),
                 (rx(r"client::tpacall_group\(.*\)"), step("request")), (rx(r"client::tpgetrply\(.*\)"), lambda ex, st, a, i: step("reply")(ex, st, a[1:], i)), ("tpgetrply", step("reply", False))]

    def setup(ex, st):
        w.setup(st)
        return [(st, [Ptr(SVC), Ptr(ID), il, Ptr(DP), Ptr(LEN), fl], None)]

    def post(ex, kind, st, ret, info):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        log = st.ghost.get("log", ())
        names = [n for n, _ in log]
        err = st.ghost["tperrno"]
        ex.assert_(st, z3.BoolVal(names.count("suspend") == names.count("resume") and names.count("suspend") <= 1), "a suspended transaction is resumed")
        ex.assert_(st, z3.BoolVal("suspend" in names) == z3.And(trans, fl & TPNOTRAN == 0), "the transaction is suspended for the call")
        ex.assert_(st, z3.BoolVal(names.count("request") == 1), "one request is made")
        a = [a for n, a in log if n == "request"][0]
        a = a[1:]
        ex.assert_(st, z3.And(z3.BoolVal(a[1].r is SVC and a[2].r is ID), a[0] == bv(-1, 32), a[3] == il, a[4] == fl), "of the service, with the data and flags of the caller")
        waits = [a for n, a in log if n == "reply"]
        rq = st.ghost.get("request")
        if st.ghost.get("threw"):
            ex.assert_(st, ret == bv(-1, 32), "an error is reported")
            return
        if not waits:
            ex.assert_(st, z3.And(rq == bv(-1, 32), ret == bv(-1, 32), err == st.ghost["tperrno"]), "a request that failed is reported")
            return
        g = waits[0]
        ex.assert_(st, z3.And(rq != bv(-1, 32), z3.BoolVal(len(waits) == 1), st.ghost["waitcd"] == rq), "the reply to this request is awaited")
        ex.assert_(st, z3.And(z3.BoolVal(g[1].r is DP and g[2].r is LEN), g[3] == fl), "into the caller's buffer")
        ex.assert_(st, ret == st.ghost["reply"], "its outcome is the outcome of the call")
    verify(ctx, ex, "tpcall", setup, post)


UNITS = [Unit("tpcall", ["client"], run_call), Unit("tpacall data", ["client"], run_acall(False)), Unit("tpacall null", ["client"], run_acall(True)),
         Unit("tpgetrply", ["client"], run_getrply(False)), Unit("tpgetrply any", ["client"], run_getrply(True))]


def replay(failed, tmp):
    return cxx_driver(tmp, "client.cpp", libtus(), extra_tu={"mib": ["-Dgetmib=real_getmib"]})
