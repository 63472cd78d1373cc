"""M01: tables of the bulletin board"""
import itertools
from specs.mibcore import *


def m_eq(w, t, f):
    return lambda st, i, args: w.eq[t](w.off(t, i) + w.L[t + "." + f])


def m_ints(w, t, *fa):
    """fields equal arguments: (field, index of the argument)"""
    def m(st, i, args):
        return z3.And(*[z3.ZeroExt(64 - 8 * w.L[t + "." + f + "#"], v) == zx64(args[a]) if v.size() < 64 else v == zx64(args[a])
                        for f, a in fa for v in [w.fld(st, t, i, f)]])
    return m


def run_find(fn, t, mk, nargs, widths=None):
    def run(ctx):
        w = MIB()
        ex = ctx.exec(fn)
        n = None
        if not widths:
            n = w.name("name")
        ex.rules += w.rules(ex.p)
        match = mk(w)

        def setup(ex, st):
            w.setup(st)
            if widths:
                args = [iv("a%d" % i, b) for i, b in enumerate(widths)]
            elif "string_view" in fn:
                sv = Region("view", 16)
                st.wr(sv, bv(0), 8, n.n)
                st.wr(sv, bv(8), 8, Ptr(n.T))
                args = [Ptr(sv)]
            elif "char const" in fn:
                args = [Ptr(n.T)]
            else:
                args = [Ptr(n.S)]
            a = [Ptr(w.M)] + args
            s0 = st.fork()
            ex.loop_spec = scan(w, t, lambda st, i: match(s0, i, a))
            return [(st, a, (a, s0))]

        def post(ex, kind, st, ret, info):
            a, s0 = info
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            J = w.skolem(t)
            none = z3.Implies(z3.ULT(J, w.len[t]), z3.Not(match(s0, J, a)))
            ex.assert_(st, z3.Or(z3.And(ret == BAD, none), z3.And(z3.ULT(ret, w.len[t]), match(s0, ret, a))), "an entry with this key is found, or there is none")
            w.header_same(ex, st, s0, "searching changes nothing")
            for x in TABLES:
                w.unchanged(ex, st, s0, x, "searching changes nothing")
        verify(ctx, ex, fn, setup, post)
    return run


def finders(w, ex):
    """contracts of the search functions (proved in the find units)"""
    S = re.escape(STR)
    k0 = lambda a: a[1:]
    return [(rx(r"mib::find_queue\(" + S + r" const&\)"), w.find_contract("queue", k0, m_eq(w, "queue", "rqaddr"))),
            (rx(r"mib::find_service\((" + S + r" const&|char const\*)\)"), w.find_contract("service", k0, m_eq(w, "service", "servicename"))),
            (rx(r"mib::find_group\(unsigned short\)"), w.find_contract("group", k0, m_ints(w, "group", ("grpno", 1)))),
            (rx(r"mib::find_server\(unsigned short, unsigned short\)"), w.find_contract("server", k0, m_ints(w, "server", ("srvid", 1), ("grpno", 2)))),
            (rx(r"mib::find_advertisement\(unsigned long, unsigned long, unsigned long\)"),
             w.find_contract("advertisement", k0, m_ints(w, "advertisement", ("service", 1), ("queue", 2), ("server", 3))))]


def run_make(t):
    """make_queue, make_group, make_service: one new entry at the end, or refused"""
    def run(ctx):
        w = MIB()
        fn = {"queue": r"mib::make_queue\(.*", "group": r"mib::make_group\(.*", "service": r"mib::make_service\(.*"}[t]
        ex = ctx.exec(fn)
        text = {"queue": ("rqaddr",), "group": ("srvgrp", "openinfo", "closeinfo", "tmsname"), "service": ("servicename",)}[t]
        names = [w.name(f) for f in text]
        ex.rules += w.rules(ex.p) + finders(w, ex)
        L = w.L

        def setup(ex, st):
            w.setup(st)
            a = [Ptr(w.M)] + ([iv("grpno", 16)] if t == "group" else []) + [Ptr(n.S) for n in names]
            return [(st, a, (a, st.fork()))]

        def post(ex, kind, st, ret, info):
            a, s0 = info
            ln = w.len[t]
            found = st.ghost.get("found:" + t) or ()
            dup = any(r is not None for _, r in found)
            ex.assert_(st, z3.BoolVal(len(found) >= 1), "duplicates are looked for")
            for x in TABLES:
                if x != t:
                    w.unchanged(ex, st, s0, x, "other tables do not change")
            if kind == "exc":
                ex.assert_(st, z3.Or(z3.BoolVal(dup or bool(st.ghost.get("toolong"))), ln == w.size[t]), "refused only for a duplicate, a full table or a text that does not fit")
                w.header_same(ex, st, s0, "a refused entry leaves the tables as they were")
                w.unchanged(ex, st, s0, t, "a refused entry leaves the tables as they were", upto=ln)
                return
            ex.assert_(st, z3.BoolVal(not dup), "a duplicate is refused")
            ex.assert_(st, z3.And(ret == ln, z3.ULT(ln, w.size[t]), w.nlen(st, t) == ln + 1), "the new entry follows the others")
            w.header_same(ex, st, s0, "the rest of the board does not change", but=(t,))
            w.unchanged(ex, st, s0, t, "other entries do not change", but=ln)
            for f, n in zip(text, names):
                w.copied(ex, st, t, ln, f, n, "text is recorded: " + f)
            F = lambda f: w.fld(st, t, ln, f)
            if t == "group":
                ex.assert_(st, F("grpno") == a[1], "group number is recorded")
            if t == "queue":
                ex.assert_(st, F("msqid") == -1, "a new queue has no message queue yet")
            if t == "service":
                ex.assert_(st, F("state") == L["INActive"], "a new service is inactive")
                ex.assert_(st, F("revision") == s0.rd(w.T[t], w.off(t, ln) + L["service.revision"], 8), "its revision does not change")
        verify(ctx, ex, fn, setup, post)
    return run


def make_contract(w, t):
    """contract of make_queue / make_service proved above; requires a text no entry has"""
    def h(ex, st, args, ins):
        ln = w.nlen(st, t)
        n = next((x for x in w.names if x.S is args[1].r), None)
        key = (st.ghost.get("found:" + t) or ())
        ex.assert_(st, z3.BoolVal(any(r is None and k[0].r in (n.S, n.T) for k, r in key)), "made only when it is missing", ins.dbg)
        s2 = st.fork()
        st.assume(z3.ULT(ln, w.size[t]))
        st.havoc(w.T[t], w.off(t, ln), bv(w.L["sz." + t]))
        if t == "queue":
            st.wr(w.T[t], w.off(t, ln) + w.L["queue.msqid"], 4, bv(-1, 32))
        st.wr(w.H, bv(w.L["m." + t] + w.L["a.len"]), 8, ln + 1)
        st.assume(w.eq[t](w.off(t, ln) + w.L[t + "." + {"queue": "rqaddr", "service": "servicename"}[t]]))
        st.ghost["made:" + t] = ln
        s2.ghost["nomake"] = True
        s2.havoc(w.T[t], w.off(t, ln), w.T[t].size - w.off(t, ln))
        return [(st, ln), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]
    h.is_contract = True
    return h


def run_make_server(ctx):
    w = MIB()
    fn = r"mib::make_server\(.*"
    ex = ctx.exec(fn)
    sname, clopt, rq = w.name("servername"), w.name("clopt"), w.name("rqaddr")
    ex.rules += w.rules(ex.p) + finders(w, ex) + [(rx(r"mib::make_queue\(.*"), make_contract(w, "queue"))]

    def setup(ex, st):
        w.setup(st)
        a = [Ptr(w.M), iv("srvid", 16), iv("grpno", 16), Ptr(sname.S), Ptr(clopt.S), Ptr(rq.S)]
        return [(st, a, (a, st.fork()))]

    def post(ex, kind, st, ret, info):
        a, s0 = info
        ln = w.len["server"]
        found = st.ghost.get("found:server") or ()
        dup = any(r is not None for _, r in found)
        ex.assert_(st, z3.BoolVal(len(found) >= 1 and all(k[0].eq(a[1]) and k[1].eq(a[2]) for k, _ in found)), "duplicates are looked for")
        for x in TABLES:
            if x not in ("server", "queue"):
                w.unchanged(ex, st, s0, x, "other tables do not change")
        if kind == "exc":
            ex.assert_(st, z3.Or(z3.BoolVal(dup or bool(st.ghost.get("toolong")) or bool(st.ghost.get("nomake"))), ln == w.size["server"]),
                       "refused only for a duplicate, a full table or a text that does not fit")
            w.header_same(ex, st, s0, "a refused server leaves the tables as they were")
            w.unchanged(ex, st, s0, "server", "a refused server leaves the tables as they were", upto=ln)
            w.unchanged(ex, st, s0, "queue", "a refused server leaves the tables as they were", upto=w.len["queue"])
            return
        ex.assert_(st, z3.BoolVal(not dup), "a duplicate is refused")
        ex.assert_(st, z3.And(ret == ln, z3.ULT(ln, w.size["server"]), w.nlen(st, "server") == ln + 1), "the new server follows the others")
        w.header_same(ex, st, s0, "the rest of the board does not change", but=("server", "queue"))
        w.unchanged(ex, st, s0, "server", "other servers do not change", but=ln)
        w.copied(ex, st, "server", ln, "servername", sname, "server name is recorded")
        w.copied(ex, st, "server", ln, "clopt", clopt, "options are recorded")
        F = lambda f: w.fld(st, "server", ln, f)
        ex.assert_(st, z3.And(F("srvid") == a[1], F("grpno") == a[2]), "server and group number are recorded")
        fq = [r for _, r in (st.ghost.get("found:queue") or ())]
        q = st.ghost.get("made:queue")
        old = q is None
        if old:
            q = fq[-1] if fq else None
        if q is None:
            fail(ex, "the server gets a queue", "no queue was found or made")
            return
        ex.assert_(st, F("rqaddr") == q, "the server reads the queue with the requested address")
        ql = w.len["queue"]
        ex.assert_(st, w.nlen(st, "queue") == (ql if old else ql + 1), "a queue is added only when there is none with this address")
        w.unchanged(ex, st, s0, "queue", "other queues do not change", but=q)
        G = lambda s, f: w.fld(s, "queue", q, f)
        if old:
            ex.assert_(st, G(st, "servercnt") == G(s0, "servercnt") + 1, "the server is counted")
            ex.assert_(st, G(st, "msqid") == G(s0, "msqid"), "the message queue stays")
        else:
            ex.assert_(st, G(st, "msqid") == -1, "a new queue has no message queue yet")
        ex.assert_(st, G(st, "server_idx") == z3.Extract(15, 0, ln), "the queue refers to the server")
    verify(ctx, ex, fn, setup, post)


AD = ("service", "queue", "server")


def run_advertise(ctx):
    w = MIB()
    fn = r"mib::advertise\(.*"
    ex = ctx.exec(fn)
    n = w.name("service")
    L = w.L
    ex.rules += w.rules(ex.p) + finders(w, ex) + [(rx(r"mib::make_service\(.*"), make_contract(w, "service"))]

    def setup(ex, st):
        w.setup(st)
        a = [Ptr(w.M), Ptr(n.S), iv("queue", 64), iv("server", 64)]
        # entries in use refer to existing ones: kept by advertise below
        st.assume(z3.And(z3.ULT(a[2], w.len["queue"]), z3.ULT(a[3], w.len["server"])))
        return [(st, a, (a, st.fork()))]

    def post(ex, kind, st, ret, info):
        a, s0 = info
        J, ln = w.skolem("advertisement"), w.len["advertisement"]
        made, fs = st.ghost.get("made:service"), [r for _, r in (st.ghost.get("found:service") or ())]
        svc = made if made is not None else (fs[-1] if fs else None)
        for x in TABLES:
            if x not in ("service", "advertisement"):
                w.unchanged(ex, st, s0, x, "other tables do not change")
        A = lambda s, i: [w.fld(s, "advertisement", i, f) for f in AD]
        is_ = lambda s, i, v: z3.And(*[x == y for x, y in zip(A(s, i), v)])
        if kind == "exc":
            w.unchanged(ex, st, s0, "advertisement", "a refused advertisement changes no advertisement", upto=ln)
            w.unchanged(ex, st, s0, "service", "a refused advertisement changes no service", upto=w.len["service"])
            w.header_same(ex, st, s0, "a refused advertisement is not added", but=("service",))
            if st.ghost.get("nomake"):
                return
            fa = st.ghost.get("found:advertisement") or ()
            dup = [r for k, r in fa if r is not None and svc is not None and k[0] is svc and k[1] is a[2] and k[2] is a[3]]
            if dup:
                ex.assert_(st, is_(s0, dup[0], [svc, a[2], a[3]]), "refused as already advertised only when it is")
            else:
                ex.assert_(st, z3.And(ln == w.size["advertisement"], z3.Implies(z3.ULT(J, ln), z3.Not(is_(s0, J, [BAD] * 3)))), "refused only when every entry is in use")
            return
        if svc is None:
            fail(ex, "the service is known", "service neither found nor made")
            return
        want = [svc, a[2], a[3]]
        dup = z3.And(z3.ULT(J, ln), is_(s0, J, want))
        ex.assert_(st, z3.Not(dup), "what is advertised already is refused")
        nl = w.nlen(st, "advertisement")
        i = next((r for k, r in reversed(st.ghost.get("found:advertisement") or ()) if r is not None), None)
        i = ln if i is None else i
        ex.assert_(st, z3.Or(z3.And(z3.ULT(i, ln), is_(s0, i, [BAD] * 3), nl == ln), z3.And(i == ln, z3.ULT(ln, w.size["advertisement"]), nl == ln + 1)), "a free entry or the next one is taken")
        ex.assert_(st, is_(st, i, want), "service, queue and server are recorded")
        ex.assert_(st, w.fld(st, "advertisement", i, "state") == L["ACTive"], "the advertisement is active")
        w.unchanged(ex, st, s0, "advertisement", "other advertisements do not change", but=i)
        w.unchanged(ex, st, s0, "service", "other services do not change", but=svc)
        w.header_same(ex, st, s0, "the rest of the board does not change", but=("advertisement", "service"))
        ex.assert_(st, w.nlen(st, "service") == (w.len["service"] if made is None else w.len["service"] + 1), "a service is added only when there is none with this name")
        if made is None:
            ex.assert_(st, w.fld(st, "service", svc, "revision") == w.fld(s0, "service", svc, "revision") + 1, "the revision of the service changes")
        ex.assert_(st, w.fld(st, "service", svc, "state") == L["ACTive"], "the service is active")
        ex.assert_(st, z3.And(z3.ULT(svc, w.nlen(st, "service"))), "the recorded service exists")
    verify(ctx, ex, fn, setup, post)


def run_unadvertise(ctx):
    w = MIB()
    fn = r"mib::unadvertise\(.*"
    ex = ctx.exec(fn)
    n = w.name("service")
    L = w.L
    ex.rules += w.rules(ex.p) + finders(w, ex)

    def setup(ex, st):
        w.setup(st)
        a = [Ptr(w.M), Ptr(n.S), iv("queue", 64), iv("server", 64)]
        return [(st, a, (a, st.fork()))]

    def post(ex, kind, st, ret, info):
        a, s0 = info
        J, ln = w.skolem("advertisement"), w.len["advertisement"]
        fs = [r for _, r in (st.ghost.get("found:service") or ())]
        svc = fs[-1] if fs else None
        A = lambda s, i: [w.fld(s, "advertisement", i, f) for f in AD]
        is_ = lambda s, i, v: z3.And(*[x == y for x, y in zip(A(s, i), v)])
        for x in TABLES:
            if x not in ("service", "advertisement"):
                w.unchanged(ex, st, s0, x, "other tables do not change")
        w.header_same(ex, st, s0, "the rest of the board does not change")
        if kind == "exc":
            for x in ("service", "advertisement"):
                w.unchanged(ex, st, s0, x, "a refused request changes nothing")
            if svc is not None:
                ex.assert_(st, z3.Implies(z3.ULT(J, ln), z3.Not(is_(s0, J, [svc, a[2], a[3]]))), "refused only when it is not advertised")
            return
        i = next((r for k, r in reversed(st.ghost.get("found:advertisement") or ()) if r is not None), None)
        if i is None or svc is None:
            fail(ex, "what is not advertised is refused", "neither service nor advertisement found")
            return
        ex.assert_(st, is_(s0, i, [svc, a[2], a[3]]), "the advertisement of this service, queue and server is removed")
        ex.assert_(st, is_(st, i, [BAD] * 3), "the entry becomes free")
        w.unchanged(ex, st, s0, "advertisement", "other advertisements do not change", but=i)
        w.unchanged(ex, st, s0, "service", "other services do not change", but=svc)
        ex.assert_(st, w.fld(st, "service", svc, "revision") == w.fld(s0, "service", svc, "revision") + 1, "the revision of the service changes")
    verify(ctx, ex, fn, setup, post)


def run_accesser(ctx):
    w = MIB()
    fn = r"mib::make_accesser\(int\)"
    ex = ctx.exec(fn)
    ex.rules += w.rules(ex.p)
    ex.global_hooks["use_init"] = {m for m, d in ex.p.dem.items() if d in ("INVALID_TIME",)} | {"_ZL12INVALID_TIME"}

    def setup(ex, st):
        w.setup(st)
        a = [Ptr(w.M), iv("pid", 32)]
        st.assume(a[1] != 0)
        s0 = st.fork()
        J = w.skolem("accesser")
        ex.loop_spec = scan(w, "accesser", lambda st, i: w.fld(s0, "accesser", i, "pid") == 0)
        return [(st, a, (a, s0))]

    def post(ex, kind, st, ret, info):
        a, s0 = info
        ln, J = w.len["accesser"], w.skolem("accesser")
        free = lambda i: w.fld(s0, "accesser", i, "pid") == 0
        for x in TABLES:
            if x != "accesser":
                w.unchanged(ex, st, s0, x, "other tables do not change")
        if kind == "exc":
            ex.assert_(st, z3.And(ln == w.size["accesser"], z3.Implies(z3.ULT(J, ln), z3.Not(free(J)))), "refused only when every entry is in use")
            w.header_same(ex, st, s0, "a refused process leaves the table as it was")
            w.unchanged(ex, st, s0, "accesser", "a refused process leaves the table as it was", upto=ln)
            return
        nl = w.nlen(st, "accesser")
        ex.assert_(st, z3.Or(z3.And(z3.ULT(ret, ln), free(ret), nl == ln), z3.And(ret == ln, z3.ULT(ln, w.size["accesser"]), nl == ln + 1)), "an entry of no other process is taken")
        ex.assert_(st, w.fld(st, "accesser", ret, "pid") == a[1], "the process is recorded")
        ex.assert_(st, w.fld(st, "accesser", ret, "rpid_timeout") == bv(2**63 - 1), "no time limit is pending for it")
        w.unchanged(ex, st, s0, "accesser", "other processes do not change", but=ret)
        w.header_same(ex, st, s0, "the rest of the board does not change", but=("accesser",))
    verify(ctx, ex, fn, setup, post)


def run_rqaddr(ctx):
    w = MIB()
    fn = r"mib::make_service_rqaddr\(unsigned long\)"
    ex = ctx.exec(fn)
    w.E = Region("errno", 4)

    def qcreate(ex, st, args, ins):
        q = fresh("msqid", 32)
        st.ghost["created"] = st.ghost["created"] + (q,)
        return q
    qcreate.is_contract = True
    ex.rules += w.rules(ex.p) + [("fux::ipc::qcreate()", qcreate), ("__errno_location", lambda ex, st, a, i: Ptr(w.E)),
                                 (rx(r"std::_V2::(system|generic)_category\(\)"), h_opaque_cstr), (rx(r"std::system_error::system_error\(.*"), h_opaque_str)]

    def setup(ex, st):
        w.setup(st)
        st.ghost["created"] = ()
        a = [Ptr(w.M), iv("server", 64)]
        st.rd(w.E, bv(0), 4)
        return [(st, a, (a, st.fork()))]

    def post(ex, kind, st, ret, info):
        a, s0 = info
        cr = st.ghost["created"]
        rq = w.fld(s0, "server", a[1], "rqaddr")
        for x in TABLES:
            if x != "queue":
                w.unchanged(ex, st, s0, x, "other tables do not change")
        w.header_same(ex, st, s0, "the board does not change otherwise")
        old = w.fld(s0, "queue", rq, "msqid")
        if kind == "exc":
            c = [z3.UGE(a[1], w.size["server"]), z3.UGE(rq, w.size["queue"])]
            if cr:
                c.append(cr[0] == -1)
            ex.assert_(st, z3.Or(*c), "fails only for an unknown server or when no queue can be created")
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(a[1], w.size["server"]), z3.ULT(rq, w.size["queue"])), w.fld(st, "queue", rq, "msqid") == old), "a failure changes nothing")
            return
        ex.assert_(st, z3.BoolVal(len(cr) <= 1), "one queue is created at most")
        ex.assert_(st, z3.BoolVal(len(cr) == 1) == (old == -1), "a queue is created exactly when there is none")
        ex.assert_(st, z3.And(ret != -1, ret == (cr[0] if cr else old), w.fld(st, "queue", rq, "msqid") == ret), "the queue of the server is returned and recorded")
        w.unchanged(ex, st, s0, "queue", "other queues do not change", but=rq)
    verify(ctx, ex, fn, setup, post)


def run_copy(ctx):
    """checked_copy: the text and its terminator, or nothing and an exception"""
    done = 0
    for d in sorted(set(ctx.program().dem.values())):
        m = re.fullmatch(r"void checked_copy<(\d+)u>\((.*), char \(&\) \[\d+u?\]\)", d)
        if not m:
            continue
        done += 1
        N, is_s = int(m.group(1)), "basic_string" in m.group(2)
        w = MIB()
        ex = ctx.exec(d)
        n = w.name("text")
        ex.rules += [r for r in w.rules(ex.p) if r[0] != d] + [(rx(re.escape(STR) + r"::basic_string<.*>\(char const\*, .*"), h_opaque_str)]

        def setup(ex, st):
            n.setup(st)
            D = Region("field", N).bytewise()
            if not is_s:
                n.T.tag["strlen"] = lambda ex, st, p: n.n - p.off
            return [(st, [Ptr(n.S) if is_s else Ptr(n.T), Ptr(D)], (D, st.fork()))]

        def post(ex, kind, st, ret, info):
            D, s0 = info
            k = iv("k", 64)
            if kind == "exc":
                ex.assert_(st, z3.UGE(n.n, N), "refused only when it does not fit")
                ex.assert_(st, z3.Implies(z3.ULT(k, N), st.rd(D, k, 1) == s0.rd(D, k, 1)), "a refused text changes nothing")
            else:
                ex.assert_(st, z3.ULT(n.n, N), "a text that does not fit is refused")
                ex.assert_(st, z3.Implies(z3.ULE(k, n.n), st.rd(D, k, 1) == s0.rd(n.T, k, 1)), "the text and its terminator are copied")
        verify(ctx, ex, d, setup, post)
    if not done:
        ex = ctx.exec("checked_copy")
        fail(ex, "checked_copy is used", "no instance found")


def run_index(ctx):
    """mibarrptr<T>::at and operator[]: the entry at pos records from the table's offset; at() refuses positions outside the table"""
    w = MIB()
    L = w.L
    for t in TABLES:
        for fn, checked in ((r"mibarrptr<%s>::operator\[\]\(unsigned long\) const" % t, False), (r"mibarrptr<%s>::at\(unsigned long\) const" % t, True)):
            ex = ctx.exec(fn)

            def setup(ex, st):
                B = Region("board", iv("boardsize", 64))
                P = Region("ptr", 8)
                h, pos, sz, off = iv("header", 64), iv("pos", 64), iv("tsize", 64), iv("toff", 64)
                st.wr(P, bv(0), 8, Ptr(B, h))
                st.wr(B, h + L["a.size"], 8, sz)
                st.wr(B, h + L["a.off"], 8, off)
                st.assume(z3.And(z3.ULE(h, 1 << 20), z3.ULE(off, 1 << 45), z3.ULE(sz, 1 << 32), z3.UGE(B.size, off + h + sz * L["sz." + t]), z3.UGE(B.size, h + L["arr"]),
                                 z3.ULE(B.size, 1 << 46)))
                if not checked:
                    st.assume(z3.ULT(pos, sz))
                return [(st, [Ptr(P), pos], (B, h, pos, sz, off))]

            def post(ex, kind, st, ret, info):
                B, h, pos, sz, off = info
                if kind == "exc":
                    ex.assert_(st, z3.UGE(pos, sz), "only positions outside the table are refused")
                    return
                ex.assert_(st, z3.ULT(pos, sz), "positions outside the table are refused")
                ex.assert_(st, z3.And(z3.BoolVal(ret.r is B), ret.off == h + off + pos * L["sz." + t]), "address of the entry")
            verify(ctx, ex, fn, setup, post)
    ex = ctx.exec("lemma: entries inside the table")
    i, n, z = z3.Ints("i n z")
    st = State()
    for c in (i >= 0, i < n, n <= 1 << 32, z > 0, z <= 1 << 20):
        st.pc.append(c)
    ex.assert_(st, z3.And(i * z + z <= n * z, n * z <= 1 << 52), "an entry at a position below the size lies inside the table")
    st = State()
    for c in (i >= 0, i <= n, n <= 1 << 32, z > 0, z <= 1 << 20):
        st.pc.append(c)
    ex.assert_(st, i * z <= n * z, "the used part of a table lies inside it")


def run_layout(ctx):
    """needed() and init_memory(): the tables and the transactions have disjoint places inside the memory, behind the header"""
    from specs.T03 import NEAREST, near
    w = MIB()
    L = w.L
    NE, TN = z3.Function("nearest64", BV64, BV64), z3.Function("transactions_needed", BV64, BV64, BV64)

    def nearest(ex, st, args, ins):
        n, what, mult = args
        ex.assert_(st, z3.And(what == 64, z3.ULT(n, 1 << 40), mult == 1), "nearest: precondition", ins.dbg)
        st.assume(near(NE(n), n, bv(64)))
        return NE(n)
    nearest.is_contract = True

    def tneeded(ex, st, args, ins):
        n, g = args
        ex.assert_(st, z3.And(z3.ULE(n, 0xffff), z3.ULE(g, 1 << 20)), "size of the transaction table: precondition", ins.dbg)
        st.assume(z3.And(z3.UGE(TN(n, g), 32), z3.ULE(TN(n, g), 1 << 38)))
        return TN(n, g)
    tneeded.is_contract = True

    def tinit(ex, st, args, ins):
        p, n, g = args
        ex.assert_(st, z3.BoolVal(p.r is w.B), "place of the transactions", ins.dbg)
        d = simp(w.N - p.off)
        ex.assert_(st, z3.And(z3.ULE(TN(n, g), d), z3.ULE(d, 1 << 45)), "the transactions are inside the memory", ins.dbg)
        st.assume(z3.And(z3.ULE(p.off, 1 << 45), z3.ULE(p.off + TN(n, g), w.B.size)))
        st.ghost["transactions"] = (p.off, TN(n, g))
        for o, v in ((0, bv(0)), (8, n), (16, g)):
            st.wr(p.r, p.off + o, 8, v)
    tinit.is_contract = True
    rules = [(NEAREST, nearest), (rx(r"transaction_table::needed\(unsigned long, unsigned long\)"), tneeded), (rx(r"transaction_table::init\(unsigned long, unsigned long\)"), tinit)]
    ex = ctx.exec("mib::init_memory()", rules=[rules])
    # products: of two capacities, of a capacity and the size of a record (bounds: lemma below)
    MU, PR = z3.Function("mul", BV64, BV64, BV64), z3.Function("product", BV64, BV64, BV64)

    def hook(a, b, s):
        a, b = simp(a), simp(b)
        if isc(a):
            a, b = b, a
        if a.size() != 64:
            return None
        if isc(b):
            if z3.is_bv(a) and not isc(a) and cval(b) < 1 << 12:
                ex.assert_(s, z3.ULE(a, bv(0xfffe0001)), "capacity of a table")
                s.assume(z3.ULE(MU(a, b), bv(0xfffe0001 << 6)) if cval(b) <= 64 else z3.Implies(z3.ULE(a, 0xffff), z3.ULE(MU(a, b), bv(0xffff << 12))))
                return MU(a, b)
            return None
        ex.assert_(s, z3.And(z3.ULE(a, 0xffff), z3.ULE(b, 0xffff)), "capacity of a table")
        s.assume(z3.ULE(PR(a, b), bv(0xfffe0001)))
        return PR(a, b)
    ex.mul_hook = hook
    CNT = {"server": "maxservers", "queue": "maxqueues", "service": "maxservices", "group": "maxgroups", "accesser": "maxaccessers"}

    def setup(ex, st):
        cfg = bv(L["cfg"])
        need = ex.call(st, ex.p.mangled(r"mib::needed\(tuxconfig const&\)"), [Ptr(w.M, cfg)])
        ctx.functions.setdefault("mib::needed(tuxconfig const&)", 1)
        out = []
        for kind, s, N in need:
            ex.assert_(s, z3.BoolVal(kind == "ret"), "the size is computed")
            # the size is used through these two facts until the end
            w.N, w.B = N, Region("board", fresh("boardsize", 64))
            ex.assert_(s, z3.And(z3.UGE(N, L["mibmem"]), z3.ULE(N, 1 << 45)), "the memory has room for the header")
            s.assume(z3.And(z3.UGE(w.B.size, L["mibmem"]), z3.ULE(w.B.size, 1 << 45)))
            s.wr(w.M, bv(L["mem"]), 8, Ptr(w.B))
            out.append((s, [Ptr(w.M)], (N, s.fork())))
        return out

    def post(ex, kind, st, ret, info):
        N, s0 = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        cnt = {t: zx64(s0.rd(w.M, bv(L["cfg"] + L["c." + f]), 2)) for t, f in CNT.items()}
        cnt["advertisement"] = PR(cnt["server"], cnt["service"])
        area = {}
        st.assume(w.B.size == N)
        for t in TABLES:
            a = L["m." + t]
            rd = lambda f: st.rd(w.B, bv(a + L["a." + f]), 8)
            ex.assert_(st, z3.And(rd("len") == 0, rd("size") == cnt[t]), "table is empty and has the configured capacity: " + t)
            area[t] = (bv(a) + rd("off"), MU(cnt[t], bv(L["sz." + t])))
        if "transactions" not in st.ghost:
            fail(ex, "the transaction table is set up", "not initialised")
            return
        tb = st.ghost["transactions"]
        ex.assert_(st, tb[0] == bv(L["data"]) + st.rd(w.B, bv(L["tmoff"]), 8), "place of the transactions is recorded")
        ex.assert_(st, st.rd(w.B, tb[0] + 8, 8) == 100, "capacity of the transaction table")
        ex.assert_(st, st.rd(w.B, tb[0] + 16, 8) == cnt["group"], "groups of the transaction table")
        area["transactions"] = tb
        big = bv(1 << 45)
        for t, (o, n) in area.items():
            o = simp(o)
            d = simp(N - o)
            ex.assert_(st, z3.And(z3.UGE(o, L["mibmem"]), z3.ULE(o, big)), "behind the header: " + t)
            ex.assert_(st, z3.And(z3.ULE(n, d), z3.ULE(d, big)), "inside the memory: " + t)
            ex.assert_(st, o & 7 == 0, "aligned: " + t)
        for t, u in itertools.combinations(area, 2):
            (o, n), (p, m) = area[t], area[u]
            d, e = simp(p - o), simp(o - p)
            ex.assert_(st, z3.Or(z3.And(z3.ULE(n, d), z3.ULE(d, big)), z3.And(z3.ULE(m, e), z3.ULE(e, big))), "no overlap: %s and %s" % (t, u))
    verify(ctx, ex, r"mib::init_memory\(\)", setup, post)


def run_genuid(ctx):
    """identifiers: machine, time and a counter that every call advances atomically"""
    w = MIB()
    L = w.L
    ex = ctx.exec("mib::genuid()")

    def clock(ex, st, args, ins):
        p = args[1]
        s, n = fresh("sec", 64), fresh("nsec", 64)
        st.assume(s >= 0)
        st.wr(p.r, p.off, 8, s)
        st.wr(p.r, p.off + 8, 8, n)
        st.ghost["sec"] = s
        return bv(0, 32)
    ex.rules.append(("clock_gettime", clock))

    def on_store(st, p, n, atomic, loc):
        if p.r is w.H:
            o = simp(p.off)
            ex.assert_(st, z3.BoolVal(bool(atomic) and isc(o) and cval(o) == L["counter"]), "only the counter changes, in one atomic step", loc)
            st.ghost["steps"] = simp(st.ghost["steps"] + 1)
    ex.on_store = on_store

    def setup(ex, st):
        w.setup(st)
        st.ghost["steps"] = bv(0)
        c0 = st.rd(w.H, bv(L["counter"]), 4)
        s0 = st.fork()

        def spec(lc):
            c = lambda st: st.rd(w.H, bv(L["counter"]), 4)
            cands = [Cand("counter follows the steps", lambda st, ph: c(st) == c0 + z3.Extract(31, 0, st.ghost["steps"])),
                     Cand("steps", lambda st, ph: z3.ULE(st.ghost["steps"], 1)),
                     Cand("a second step only after 0", lambda st, ph: z3.Implies(st.ghost["steps"] == 1, c0 & 0xffffff == 0)),
                     Cand("host", lambda st, ph: st.rd(w.H, bv(L["host"]), 4) == s0.rd(w.H, bv(L["host"]), 4))]
            return {"cands": cands, "variants": [Cand("steps", lambda st, ph: bv(4) - st.ghost["steps"])], "havoc_ghost": {"steps": lambda ex, s: fresh("steps", 64)}}
        ex.loop_spec = spec
        return [(st, [Ptr(w.M)], (c0, s0))]

    def post(ex, kind, st, ret, info):
        c0, s0 = info
        ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
        sec, host = st.ghost.get("sec"), s0.rd(w.H, bv(L["host"]), 4)
        steps = st.ghost["steps"]
        ex.assert_(st, ret != 0, "an identifier is never 0")
        ex.assert_(st, z3.And(z3.UGE(steps, 1), z3.ULE(steps, 2)), "every call advances the counter")
        last = z3.ZeroExt(32, c0) + steps - 1
        ex.assert_(st, ret & 0xffffff == last & 0xffffff, "the counter makes identifiers of one second differ")
        ex.assert_(st, z3.LShR(ret, 54) == z3.ZeroExt(32, host & 0x3ff), "identifiers of machines differ")
        if sec is None:
            fail(ex, "the time is part of the identifier", "clock not read")
        else:
            ex.assert_(st, z3.LShR(ret, 24) & 0x3fffffff == sec & 0x3fffffff, "identifiers of different times differ")
    verify(ctx, ex, r"mib::genuid\(\)", setup, post)


S_ = re.escape(STR)
UNITS = [Unit("index", ["mib"], run_index), Unit("copy", ["mib"], run_copy),
         Unit("find_queue", ["mib"], run_find(r"mib::find_queue\(" + S_ + r" const&\)", "queue", lambda w: m_eq(w, "queue", "rqaddr"), 1)),
         Unit("find_service", ["mib"], run_find(r"mib::find_service\(char const\*\)", "service", lambda w: m_eq(w, "service", "servicename"), 1)),
         Unit("find_service string", ["mib"], run_find(r"mib::find_service\(" + S_ + r" const&\)", "service", lambda w: m_eq(w, "service", "servicename"), 1)),
         Unit("group_index", ["mib"], run_find(r"mib::group_index\(std::basic_string_view<.*> const&\)", "group", lambda w: m_eq(w, "group", "srvgrp"), 1)),
         Unit("find_group", ["mib"], run_find(r"mib::find_group\(unsigned short\)", "group", lambda w: m_ints(w, "group", ("grpno", 1)), 1, [16])),
         Unit("find_server", ["mib"], run_find(r"mib::find_server\(unsigned short, unsigned short\)", "server", lambda w: m_ints(w, "server", ("srvid", 1), ("grpno", 2)), 2, [16, 16])),
         Unit("server_index", ["mib"], run_find(r"mib::server_index\(unsigned short, unsigned long\)", "server", lambda w: m_ints(w, "server", ("srvid", 1), ("group_idx", 2)), 2, [16, 64])),
         Unit("find_advertisement", ["mib"], run_find(r"mib::find_advertisement\(unsigned long, unsigned long, unsigned long\)", "advertisement",
                                                      lambda w: m_ints(w, "advertisement", ("service", 1), ("queue", 2), ("server", 3)), 3, [64, 64, 64])),
         Unit("make_queue", ["mib"], run_make("queue")), Unit("make_group", ["mib"], run_make("group")), Unit("make_service", ["mib"], run_make("service")),
         Unit("make_server", ["mib"], run_make_server), Unit("advertise", ["mib"], run_advertise), Unit("unadvertise", ["mib"], run_unadvertise),
         Unit("make_accesser", ["mib"], run_accesser), Unit("make_service_rqaddr", ["mib"], run_rqaddr),
         Unit("layout", ["mib"], run_layout), Unit("genuid", ["mib"], run_genuid)]
replay = driver("mibtab.cpp", extra=["-O2"], extra_tu={"ipc": ["-Dqcreate=real_qcreate"]})
