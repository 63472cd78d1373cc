"""C04: requests go to the queues where the service is advertised"""
from specs.mibcore import *
from specs.M01 import m_eq

TU = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tu", "svcrepo_inst.cpp")
PAIR = r"std::pair<" + re.escape(STR) + r" const, service_entry>"
VQ = r"std::vector<queue_entry, std::allocator<queue_entry>>"
QSZ = 8


def lay():
    return layout(["src/mib.h", "<string>", "<vector>", "src/svcrepo.h"], {
        "queues": "offsetof(service_entry,queues)", "current": "offsetof(service_entry,current_queue)", "cached": "offsetof(service_entry,cached_revision)",
        "rev": "offsetof(service_entry,mib_revision)", "svc": "offsetof(service_entry,mib_service)", "entry": "sizeof(service_entry)",
        "second": "__builtin_offsetof(std::pair<const std::string, service_entry>, second)", "first2": "__builtin_offsetof(std::pair<const char*, service_entry>, second)",
        "grpno": "offsetof(queue_entry,grpno)", "msqid": "offsetof(queue_entry,msqid)", "q": "sizeof(queue_entry)", "repo": "sizeof(service_repository)",
        "m": "offsetof(service_repository,m_)"})


class Repo(MIB):
    def __init__(self):
        MIB.__init__(self)
        self.R = lay()
        self.P = Region("repository", self.R["repo"])
        self.E = Region("entry", self.R["entry"])
        self.Q = Region("routes", None, kind="heap")
        self.S = iv("mib_service", 64)
        self.need_lock = True

    def setup(self, st, entry=True):
        MIB.setup(self, st)
        R = self.R
        st.ghost["lock"] = bv(0)
        st.ghost["cur"] = bv(0)
        st.ghost["last"] = bv(0)
        st.wr(self.P, bv(R["m"]), 8, Ptr(self.M))
        if entry:
            self.n0 = iv("nroutes", 64)
            st.assume(z3.And(z3.ULE(self.n0, 1 << 32), z3.ULT(self.S, self.len["service"])))
            for o, v in ((0, bv(0)), (8, self.n0 * QSZ), (16, self.n0 * QSZ)):
                st.wr(self.E, bv(R["queues"] + o), 8, Ptr(self.Q, v))
            st.wr(self.E, bv(R["svc"]), 8, self.S)
            st.assume(z3.And(z3.ULE(self.off("service", self.S), 1 << 52), z3.ULE(self.off("service", self.S) + self.L["sz.service"], self.T["service"].size)))
            st.wr(self.E, bv(R["rev"]), 8, Ptr(self.T["service"], self.off("service", self.S) + self.L["service.revision"]))
            st.rd(self.E, bv(R["cached"]), 8)
            st.rd(self.E, bv(R["current"]), 8)

    def revision(self, st, v=None):
        o = self.off("service", self.S) + self.L["service.revision"]
        if v is None:
            return st.rd(self.T["service"], o, 8)
        st.wr(self.T["service"], o, 8, v)

    def others(self, st):
        """other processes advertise whenever the lock is free: the revision is any other value then"""
        if "others" in st.ghost:
            self.revision(st, fresh("revision", 64))

    # what an advertisement stands for
    def matches(self, st, i):
        return z3.And(z3.ULT(i, self.len["advertisement"]), self.fld(st, "advertisement", i, "service") == self.S)

    def dest(self, st, i):
        g = self.fld(st, "server", self.fld(st, "advertisement", i, "server"), "grpno")
        q = self.fld(st, "queue", self.fld(st, "advertisement", i, "queue"), "msqid")
        return z3.ZeroExt(16, g), q

    def on_entry(self, ex, st, t, i, ins):
        if t in ("advertisement", "queue", "server") and self.need_lock:
            ex.assert_(st, st.ghost["lock"] == 1, "the board is read under its lock", ins.dbg)
        if t == "advertisement":
            st.ghost["cur"] = i
            # kept by advertise (M01): advertisements of a service refer to existing queues and servers
            st.assume(z3.Implies(self.matches(st, i), z3.And(z3.ULT(self.fld(st, t, i, "queue"), self.len["queue"]), z3.ULT(self.fld(st, t, i, "server"), self.len["server"]))))

    def route(self, st, k):
        return st.rd(self.Q, k * QSZ + self.R["grpno"], 4), st.rd(self.Q, k * QSZ + self.R["msqid"], 4)

    def count(self, st):
        p = st.rd(self.E, bv(self.R["queues"] + 8), 8, True)
        return z3.LShR(p.off, 3)

    def rules(self, prog):
        R = self.R

        def lock(ex, st, args, ins):
            ex.assert_(st, st.ghost["lock"] == 0, "the lock of the board is taken once", ins.dbg)
            st.ghost["lock"] = bv(1)
            self.others(st)
            st.ghost["revision"] = self.revision(st)
        lock.is_contract = True

        def unlock(ex, st, args, ins):
            st.ghost["lock"] = bv(0)
            self.others(st)
        unlock.is_contract = True

        def clear(ex, st, args, ins):
            v = args[0]
            st.wr(v.r, v.off + 8, 8, st.rd(v.r, v.off, 8, True))

        def push(ex, st, args, ins):
            v, x = args
            e = st.rd(v.r, v.off + 8, 8, True)
            st.cp(e.r, e.off, bv(QSZ), x.r, x.off)
            st.wr(v.r, v.off + 8, 8, Ptr(e.r, simp(e.off + QSZ)))
            if "pos" in st.ghost:
                n = z3.LShR(e.off, 3)
                st.ghost["pos"] = z3.If(st.ghost["cur"] == self.J, n, st.ghost["pos"])
                st.ghost["wit"] = z3.If(n == self.K, st.ghost["cur"], st.ghost["wit"])
            return Ptr(e.r, e.off)

        def deref(ex, st, args, ins):
            p = st.rd(args[0].r, args[0].off, 8, True)
            st.ghost["last"] = p.off
            return p

        def index(ex, st, args, ins):
            b, e = (st.rd(args[0].r, args[0].off + o, 8, True) for o in (0, 8))
            o = simp(b.off + args[1] * QSZ)
            ex.assert_(st, z3.ULT(args[1], z3.LShR(e.off - b.off, 3)), "position inside the list of queues", ins.dbg)
            st.ghost["last"] = o
            return Ptr(b.r, o)
        return MIB.rules(self, prog) + [
            (rx(r"fux::ipc::scoped_semlock::scoped_semlock\(int, int\)"), lock), (rx(r"fux::ipc::scoped_semlock::~scoped_semlock\(\)"), unlock),
            (rx(VQ + r"::clear\(\)"), clear), (rx(r"(void|queue_entry&) " + VQ + r"::(push_back|emplace_back)<?.*\(.*\)|" + VQ + r"::push_back\(queue_entry( const&|&&)\)"), push),
            (rx(r"__gnu_cxx::__normal_iterator<queue_entry( const)?\*, " + VQ + r">::operator(\*|->)\(\) const"), deref),
            (rx(VQ + r"::(operator\[\]|at)\(unsigned long\)( const)?"), index)]


def run_refresh(ctx):
    """refresh: when the revision changed the list is rebuilt: exactly the queues of the advertisements of the service"""
    w = Repo()
    R = w.R
    fn = r"service_repository::refresh\(service_entry&\)"
    ex = ctx.exec(fn)
    ex.rules += w.rules(ex.p)
    w.J, w.K = iv("J", 64), iv("K", 64)

    def setup(ex, st):
        w.setup(st)
        st.ghost["pos"], st.ghost["wit"] = iv("pos0", 64), iv("wit0", 64)
        st.ghost["others"] = True
        s0 = st.fork()

        def spec(lc):
            ln = w.len["advertisement"]
            end = lambda st: st.rd(w.E, bv(R["queues"] + 8), 8, True)
            n = lambda st: z3.LShR(end(st).off, 3)
            cells = [Cand("routes are counted in records", lambda st, ph: end(st).off & 7 == 0)]
            for o in (R["cached"], R["current"], R["svc"]):
                cells.append(Cand("entry+%d stays" % o, lambda st, ph, o=o: st.rd(w.E, bv(o), 8) == s0.rd(w.E, bv(o), 8)))
            cells.append(Cand("lock", lambda st, ph: st.ghost["lock"] == lc.entry.ghost["lock"]))
            for k, v in lc.phis.items():
                if ival(v) is None or k == "#it":
                    continue
                i = lambda ph, k=k: ival(ph[k])
                cells += [Cand("%s bounds the routes" % k, lambda st, ph, i=i: z3.ULE(n(st), i(ph))),
                          Cand("all advertisements before %s are in the list" % k, lambda st, ph, i=i: z3.Implies(
                              z3.And(z3.ULT(w.J, i(ph)), w.matches(s0, w.J)),
                              z3.And(z3.ULT(st.ghost["pos"], n(st)), *[a == b for a, b in zip(w.route(st, st.ghost["pos"]), w.dest(s0, w.J))]))),
                          Cand("every route stands for an advertisement before %s" % k, lambda st, ph, i=i: z3.Implies(
                              z3.ULT(w.K, n(st)), z3.And(z3.ULT(st.ghost["wit"], i(ph)), w.matches(s0, st.ghost["wit"]),
                                                         *[a == b for a, b in zip(w.route(st, w.K), w.dest(s0, st.ghost["wit"]))])))]
            return {"cands": bound_cands(lc, {"len": ln}) + cells, "variants": variant_cands(lc, {"len": ln}),
                    "havoc_ghost": {k: (lambda ex, s, k=k: fresh("g_" + k, 64)) for k in ("pos", "wit", "cur", "last")}}
        ex.loop_spec = spec
        return [(st, [Ptr(w.P), Ptr(w.E)], s0)]

    def post(ex, kind, st, ret, s0):
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        ex.assert_(st, st.ghost["lock"] == 0, "the lock is released")
        old = s0.rd(w.E, bv(R["cached"]), 8)
        rev = w.revision(s0)
        for t in TABLES:
            if t != "service":
                w.unchanged(ex, st, s0, t, "the board does not change")
        b, o = fresh("byte", 64), w.off("service", w.S) + w.L["service.revision"]        # which is changed by others
        ex.assert_(st, z3.Implies(z3.And(z3.ULT(b, w.T["service"].size), z3.Or(z3.ULT(b, o), z3.UGE(b, o + 8))), st.rd(w.T["service"], b, 1) == s0.rd(w.T["service"], b, 1)), "the services do not change")
        w.header_same(ex, st, s0, "the board does not change")
        now = st.ghost.get("revision")
        ex.assert_(st, st.rd(w.E, bv(R["cached"]), 8) == z3.If(old != rev, now if now is not None else fresh("none", 64), old), "the list is that of the revision seen under the lock")
        ex.assert_(st, z3.And(st.rd(w.E, bv(R["svc"]), 8) == w.S, st.rd(w.E, bv(R["current"]), 8) == s0.rd(w.E, bv(R["current"]), 8)), "the entry stands for the same service")
        b, e = (st.rd(w.E, bv(R["queues"] + o), 8, True) for o in (0, 8))
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is w.Q and e.r is w.Q):
            fail(ex, "the list of queues", "not the vector of the entry")
            return
        n = z3.LShR(e.off, 3)
        ex.assert_(st, z3.And(b.off == 0, e.off & 7 == 0), "the list is well formed")
        changed = old != rev
        ex.assert_(st, z3.Implies(z3.Not(changed), z3.And(n == w.n0, z3.Implies(z3.ULT(w.K, n), z3.And(*[x == y for x, y in zip(w.route(st, w.K), w.route(s0, w.K))])))),
                   "an up to date list stays as it is")
        pos, wit = st.ghost["pos"], st.ghost["wit"]
        ex.assert_(st, z3.Implies(z3.And(changed, w.matches(s0, w.J)), z3.And(z3.ULT(pos, n), *[x == y for x, y in zip(w.route(st, pos), w.dest(s0, w.J))])),
                   "every advertisement of the service is in the new list")
        ex.assert_(st, z3.Implies(z3.And(changed, z3.ULT(w.K, n)), z3.And(w.matches(s0, wit), *[x == y for x, y in zip(w.route(st, w.K), w.dest(s0, wit))])),
                   "every queue of the new list stands for an advertisement of the service, with group and message queue of its server")
    verify(ctx, ex, fn, setup, post)


def run_balance(ctx):
    w = Repo()
    R = w.R
    fn = r"service_repository::load_balance\(service_entry&, int\)"
    ex = ctx.exec(fn)
    ex.rules += w.rules(ex.p)
    K, g = iv("K", 64), iv("grpno", 32)

    def setup(ex, st):
        w.setup(st)
        s0 = st.fork()

        def spec(lc):
            cs = [Cand("locals", lambda st, ph: z3.BoolVal(True))]
            for r, o, p in ptr_cells(lc.entry):
                if r.kind != "stack" or p.r is not w.Q:
                    continue

                def cell(st, r=r, o=o):
                    q = st.rd(r, bv(o), 8, True)
                    return q.off if isinstance(q, Ptr) and q.r is w.Q else None

                def f(st, ph, cell=cell):
                    c = cell(st)
                    if c is None:
                        return z3.BoolVal(False)
                    return z3.And(z3.ULE(c, w.n0 * QSZ), c & 7 == 0, z3.Implies(z3.ULT(K, z3.LShR(c, 3)), w.route(s0, K)[0] != g))
                cs.append(Cand("no queue of the group before %s" % r.name, f))
                cs.append(Cand("%s stays" % r.name, lambda st, ph, cell=cell, p=p: z3.BoolVal(False) if cell(st) is None else cell(st) == p.off))
            for k, v in lc.phis.items():
                if k != "#it" and ival(v) is not None:
                    if isinstance(v, Ptr):
                        cs.append(Cand("no queue of the group before " + k, lambda st, ph, k=k: z3.And(
                            z3.ULE(ival(ph[k]), w.n0 * QSZ), ival(ph[k]) & 7 == 0, z3.Implies(z3.ULT(K, z3.LShR(ival(ph[k]), 3)), w.route(s0, K)[0] != g))))
                    else:
                        cs.append(Cand("no queue of the group before " + k, lambda st, ph, k=k: z3.And(
                            z3.ULE(ival(ph[k]), w.n0), z3.Implies(z3.ULT(K, ival(ph[k])), w.route(s0, K)[0] != g))))
            vs = [Cand("rest of " + r.name, lambda st, ph, r=r, o=o: w.n0 * QSZ - (st.rd(r, bv(o), 8, True).off if isinstance(st.rd(r, bv(o), 8, True), Ptr) else bv(0)))
                  for r, o, p in ptr_cells(lc.entry) if r.kind == "stack" and p.r is w.Q]
            vs += variant_cands(lc, {"n": w.n0, "n8": w.n0 * QSZ})
            return {"cands": cs + same_cells(lc), "variants": vs, "havoc_ghost": {"last": lambda ex, s: fresh("g_last", 64)}}
        ex.loop_spec = spec
        return [(st, [Ptr(w.P), Ptr(w.E), g], s0)]

    def post(ex, kind, st, ret, s0):
        n = w.n0
        c0 = s0.rd(w.E, bv(R["current"]), 8)
        cur = st.rd(w.E, bv(R["current"]), 8)
        for t in TABLES:
            w.unchanged(ex, st, s0, t, "the board does not change")
        ex.assert_(st, z3.Implies(z3.ULT(K, n), z3.And(*[x == y for x, y in zip(w.route(st, K), w.route(s0, K))])), "the list of queues does not change")
        if kind == "exc":
            ex.assert_(st, z3.Or(n == 0, z3.And(g != -1, z3.Implies(z3.ULT(K, n), w.route(s0, K)[0] != g))), "refused only when there is no queue of the group")
            ex.assert_(st, cur == c0, "a refused request does not change the position")
            return
        last = z3.LShR(st.ghost["last"], 3)
        ex.assert_(st, z3.And(st.ghost["last"] & 7 == 0, z3.ULT(last, n), ret == w.route(s0, last)[1]), "one of the queues is returned")
        ex.assert_(st, z3.Implies(g != -1, z3.And(w.route(s0, last)[0] == g, cur == c0)), "it is a queue of the requested group")
        ex.assert_(st, z3.Implies(g == -1, z3.And(last == z3.URem(c0 + 1, n), cur == last)), "without a group the queues take turns")
    verify(ctx, ex, fn, setup, post)


def run_entry(ctx):
    """get_entry: the entry of the service; unknown services are refused"""
    w = Repo()
    R = w.R
    fn = r"service_repository::get_entry\(char const\*\)"
    ex = ctx.exec(fn)
    n = w.name("service")
    ND = Region("node", R["second"] + R["entry"], kind="heap")
    END = Region("end", 8)

    def find(ex, st, args, ins):
        p = args[1]
        if p.r.kind == "stack" or p.r.size is not None and isc(simp(p.r.size)) and cval(simp(p.r.size)) == 8:
            p = st.rd(p.r, p.off, 8, True)
        ex.assert_(st, z3.BoolVal(p.r is n.T), "the requested service is looked up", ins.dbg)
        s2 = st.fork()
        st.ghost["known"] = True
        return [(st, Ptr(ND)), (s2, Ptr(END))]
    find.is_contract = True

    def itcmp(neg):
        def h(ex, st, args, ins):
            a, b = (st.rd(p.r, p.off, 8, True) for p in args[:2])
            return z3.BoolVal((a.r is b.r) != neg)
        return h

    def insert(ex, st, args, ins):
        p = args[1]
        key = st.rd(p.r, p.off, 8, True)
        ex.assert_(st, z3.BoolVal(isinstance(key, Ptr) and key.r is n.T and not st.ghost.get("known")), "a new entry has the name of the service", ins.dbg)
        st.cp(ND, bv(R["second"]), bv(R["entry"]), p.r, p.off + R["first2"])
        st.ghost["inserted"] = st.ghost.get("inserted", 0) + 1
        return (Ptr(ND), bv(1, 8))
    insert.is_contract = True

    def vctor(ex, st, args, ins):
        for o in (0, 8, 16):
            st.wr(args[0].r, args[0].off + o, 8, Ptr(w.Q))

    def vcopy(ex, st, args, ins):
        for o in (0, 8, 16):
            q = st.rd(args[1].r, args[1].off + o, 8, True)
            st.wr(args[0].r, args[0].off + o, 8, q)
    fs = w.find_contract("service", lambda a: a[1:], m_eq(w, "service", "servicename"))
    w.need_lock = False

    def locked_find(ex, st, args, ins):
        ex.assert_(st, z3.And(st.ghost["lock"] == 1, z3.BoolVal(args[1].r is n.T)), "the service is looked up under the lock of the board", ins.dbg)
        return fs(ex, st, args, ins)
    locked_find.is_contract = True
    ex.rules += w.rules(ex.p) + [
        (rx(r"decltype\(.*_M_find_tr.*|std::map<" + re.escape(STR) + r", service_entry, .*::find\(.*"), find),
        (rx(r"std::map<" + re.escape(STR) + r", service_entry, .*::c?end\(\)( const)?"), lambda ex, st, a, i: Ptr(END)),
        (rx(r"std::operator==\(std::_Rb_tree_iterator<" + PAIR + r"> const&, .*"), itcmp(False)), (rx(r"std::operator!=\(std::_Rb_tree_iterator<" + PAIR + r"> const&, .*"), itcmp(True)),
        (rx(r"std::enable_if<is_constructible<" + PAIR + r", .*::(insert|emplace).*|.*std::map<" + re.escape(STR) + r", service_entry, .*::(insert|emplace|try_emplace).*"), insert),
        (rx(r"std::_Rb_tree_iterator<" + PAIR + r">::operator(\*|->)\(\) const"), lambda ex, st, a, i: st.rd(a[0].r, a[0].off, 8, True)),
        (rx(VQ + r"::vector\(\)"), vctor), (rx(VQ + r"::vector\(" + VQ + r"( const&|&&)\)"), vcopy), (rx(VQ + r"::~vector\(\)"), h_none),
        (rx(r"mib::find_service\(.*\)"), locked_find)]

    def setup(ex, st):
        w.setup(st, entry=False)
        return [(st, [Ptr(w.P), Ptr(n.T)], st.fork())]

    def post(ex, kind, st, ret, s0):
        ex.assert_(st, st.ghost["lock"] == 0, "the lock is released")
        fs = st.ghost.get("found:service") or ()
        svc = fs[-1][1] if fs else None
        for t in TABLES:
            w.unchanged(ex, st, s0, t, "the board does not change")
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(bool(fs) and svc is None and not st.ghost.get("inserted")), "refused only when the service does not exist, and then not remembered")
            return
        ex.assert_(st, z3.BoolVal(ret.r is ND) if isinstance(ret, Ptr) else z3.BoolVal(False), "the entry of the service is returned")
        ex.assert_(st, ret.off == R["second"], "the entry of the service is returned")
        if st.ghost.get("known"):
            b = iv("b", 64)
            ex.assert_(st, z3.And(z3.BoolVal(not st.ghost.get("inserted")), z3.Implies(z3.ULT(b, ND.size), st.rd(ND, b, 1) == s0.rd(ND, b, 1))), "a known entry stays as it is")
            return
        if svc is None:
            fail(ex, "the new entry stands for the service", "service not looked up")
            return
        o = R["second"]
        rev = st.rd(ND, bv(o + R["rev"]), 8, True)
        b, e = (st.rd(ND, bv(o + R["queues"] + x), 8, True) for x in (0, 8))
        ex.assert_(st, st.rd(ND, bv(o + R["svc"]), 8) == svc, "the new entry stands for the service")
        ok = isinstance(rev, Ptr) and rev.r is w.T["service"]
        ex.assert_(st, z3.And(z3.BoolVal(ok), rev.off == w.off("service", svc) + w.L["service.revision"]) if ok else z3.BoolVal(False), "its revision is the one of the service on the board")
        ex.assert_(st, z3.And(st.rd(ND, bv(o + R["cached"]), 8) == 0, z3.BoolVal(isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is e.r), b.off == e.off), "it has no queues yet and those of no revision")
        ex.assert_(st, st.rd(ND, bv(o + R["current"]), 8) == 0, "its position is defined")
    verify(ctx, ex, fn, setup, post)


def run_get(ctx):
    """get_queue: the entry of the service is brought up to date before a queue is chosen"""
    w = Repo()
    fn = "w_get_queue"
    ex = ctx.exec(fn)
    N = Region("name", None)
    q = iv("queue", 32)
    g = iv("grpno", 32)

    def entry(ex, st, args, ins):
        ex.assert_(st, z3.BoolVal(args[0].r is w.P and args[1].r is N), "the entry of the requested service", ins.dbg)
        s2 = st.fork()
        st.ghost["entry"] = True
        return [(st, Ptr(w.E)), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]

    def refresh(ex, st, args, ins):
        ex.assert_(st, z3.BoolVal(args[1].r is w.E and bool(st.ghost.get("entry"))), "the entry is brought up to date", ins.dbg)
        st.ghost["fresh"] = True

    def balance(ex, st, args, ins):
        ex.assert_(st, z3.BoolVal(args[1].r is w.E and bool(st.ghost.get("fresh"))), "a queue is chosen from the up to date list", ins.dbg)
        ex.assert_(st, args[2] == g, "the requested group is used", ins.dbg)
        s2 = st.fork()
        st.ghost["chosen"] = st.ghost.get("chosen", 0) + 1
        return [(st, q), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    for h in (entry, refresh, balance):
        h.is_contract = True
    ex.rules += [(rx(r"service_repository::get_entry\(char const\*\)"), entry), (rx(r"service_repository::refresh\(service_entry&\)"), refresh),
                 (rx(r"service_repository::load_balance\(service_entry&, int\)"), balance)]

    def setup(ex, st):
        w.setup(st)
        return [(st, [Ptr(w.P), g, Ptr(N)], None)]

    def post(ex, kind, st, ret, info):
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(not st.ghost.get("chosen")), "a failure is reported")
            return
        ex.assert_(st, z3.And(z3.BoolVal(st.ghost.get("chosen") == 1), ret == q), "the chosen queue is returned")
    verify(ctx, ex, fn, setup, post)


UNITS = [Unit("refresh", [TU], run_refresh), Unit("load_balance", [TU], run_balance), Unit("get_entry", [TU], run_entry), Unit("get_queue", [TU], run_get)]
replay = driver("routes.cpp", extra_tu={"ipc": ["-Dsemlock=real_semlock", "-Dsemunlock=real_semunlock"]})
