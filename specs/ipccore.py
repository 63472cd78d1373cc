"""Messages over System V queues: qsend / qrecv against a specification of the operating system calls"""
from engine.api import *
from engine.lib import *
from specs.common import *

IPC_NOWAIT = 0o4000
EAGAIN = 11
HDR = 16          # sizeof(msgbase); re-read from the sources below


def lay():
    return layout(["src/ipc.h"], {"base": "sizeof(fux::ipc::msgbase)", "mem": "sizeof(fux::ipc::msgmem)", "ttype": "offsetof(fux::ipc::msgbase,ttype)",
                                  "cat": "offsetof(fux::ipc::msgbase,cat)", "file": "fux::ipc::file", "queue": "fux::ipc::queue",
                                  "notime": "fux::ipc::notime", "noblock": "fux::ipc::noblock", "noflags": "fux::ipc::noflags",
                                  "filename": "offsetof(fux::ipc::msgfile,filename)", "unblock": "fux::ipc::unblock"})


VC = r"std::vector<char, std::allocator<char>>"


def charvec_rules():
    """std::vector<char>: resize keeps the common prefix, new elements are zero"""
    def resize(ex, st, args, ins):
        v, n = args[0], zx64(args[1])
        b, e = st.rd(v.r, v.off, 8, True), st.rd(v.r, v.off + 8, 8, True)
        old = simp(e.off - b.off)
        big = fresh("vsize", 64)
        st.assume(big == z3.If(z3.UGT(n, old), n, old))
        D = Region("bytes", big, kind="heap")
        st.ghost["lastvec"] = D
        ex.memset(st, Ptr(D), bv(0, 8), big)
        st.cp(D, bv(0), old, b.r, b.off)
        st.wr(v.r, v.off, 8, Ptr(D, bv(0)))
        st.wr(v.r, v.off + 8, 8, Ptr(D, n))
        st.wr(v.r, v.off + 16, 8, Ptr(D, big))
        return None
    return [(rx(VC + r"::resize\(unsigned long\)"), resize)]


def errno_region(st):
    if "errno" not in st.ghost:
        st.ghost["errno"] = Region("errno", 4)
    return st.ghost["errno"]


def os_rules(L, w):
    """w: the call under verification (queue id, message, expectations)"""
    def fails(st, vals=None):
        s2 = st.fork()
        e = fresh("errno", 32)
        s2.assume(e != 0)
        s2.wr(errno_region(s2), bv(0), 4, e)
        return s2

    def inc(st, k, by=1):
        st.ghost[k] = simp(st.ghost[k] + by)

    def msgsnd(ex, st, args, ins):
        q, p, n, fl = args
        w.check_send(ex, st, q, p, n, fl, ins)
        inc(st, "attempts")
        s2 = fails(st)
        s2.ghost["lasterr"] = s2.rd(errno_region(s2), bv(0), 4)
        inc(st, "sent")
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]
    msgsnd.is_contract = True

    def nanosleep(ex, st, args, ins):
        p = args[0]
        sec, ns = st.rd(p.r, p.off, 8), st.rd(p.r, p.off + 8, 8)
        ex.assert_(st, z3.And(sec >= 0, ns >= 0, ns < 1000000000), "the sleep is a valid interval", ins.dbg)
        s2 = fails(st)
        st.ghost["slept"] = simp(st.ghost["slept"] + sec * 1000 + z3.UDiv(ns, bv(1000000)))      # milliseconds
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def mkstemp(ex, st, args, ins):
        p = args[0]
        s2 = fails(st)
        # the suffix is replaced, the length stays
        n = next((i for i in range(256) if isc(simp(st.rd(p.r, p.off + i, 1))) and cval(simp(st.rd(p.r, p.off + i, 1))) == 0), None)
        if n is None:
            raise EngineError("template of the temporary file name is not a constant")
        ex.assert_(st, z3.And(*[st.rd(p.r, p.off + n - 1 - i, 1) == ord("X") for i in range(6)]), "template of a temporary file name", ins.dbg)
        nb = [fresh("tmp", 8) for _ in range(6)]
        for i, b in enumerate(nb):
            st.assume(b != 0)
            st.wr(p.r, p.off + n - 6 + i, 1, b)
        st.ghost["tmpname"] = [st.rd(p.r, p.off + i, 1) for i in range(n + 1)]
        st.ghost["tmp"] = st.ghost["tmp"] + 1
        fd = fresh("fd", 32)
        st.assume(fd >= 0)
        st.ghost["fd"] = fd
        return [(st, fd), (s2, bv(-1, 32))]
    mkstemp.is_contract = True

    def write(ex, st, args, ins):
        fd, p, n = args
        ex.range_access(st, p, n, "load", ins.dbg)
        ex.assert_(st, fd == st.ghost["fd"], "the message file is written", ins.dbg)
        ex.assert_(st, st.ghost["fsize"] == 0, "the message is written once", ins.dbg)
        r = fresh("written", 64)
        s2 = fails(st)
        st.assume(z3.And(r >= 0, z3.ULE(r, n)))
        st.cp(w.FILE, bv(0), r, p.r, p.off)
        st.ghost["fsize"] = r
        return [(st, r), (s2, bv(-1, 64))]
    write.is_contract = True

    def close(ex, st, args, ins):
        ex.assert_(st, args[0] == st.ghost["fd"], "the message file is closed", ins.dbg)
        return [(st, bv(0, 32)), (fails(st), bv(-1, 32))]

    def same_name(st, p):
        return z3.And(*[st.rd(p.r, p.off + i, 1) == b for i, b in enumerate(st.ghost["tmpname"])])

    def unlink(ex, st, args, ins):
        ex.assert_(st, same_name(st, args[0]), "only the message file is removed", ins.dbg)
        inc(st, "unlinked")
        return [(st, bv(0, 32)), (fails(st), bv(-1, 32))]

    def sys_err(ex, st, args, ins):
        return None
    return [("__errno_location", lambda ex, st, a, i: Ptr(errno_region(st))), ("msgsnd", msgsnd), ("nanosleep", nanosleep), ("mkstemp", mkstemp),
            ("write", write), ("close", close), ("unlink", unlink), ("strerror", h_opaque_cstr), (rx(r"fprintf|perror"), ret_fresh(32)),
            (rx(r"std::_V2::(system|generic)_category\(\)"), h_opaque_cstr)] + text_rules()


def text_rules():
    """texts of error messages are not tracked"""
    S = re.escape(STR)
    return [(rx(S + r"( const)?&?( &)? .*operator\+.*|" + S + r"::(basic_string|append|insert|operator\+=|operator=).*"), h_opaque_str)]


class Send:
    def __init__(self, L):
        self.L = L
        self.q, self.timeout, self.flags = iv("msqid"), iv("timeout", 64), iv("flags", 8)
        self.n = iv("size", 64)
        self.D, self.V, self.FILE = Region("message", self.n, kind="heap").bytewise(), Region("msg", 24), Region("file", None).bytewise()

    def check_send(self, ex, st, q, p, n, fl, ins):
        L, s0 = self.L, self.s0
        ex.assert_(st, q == self.q, "the message goes to the requested queue", ins.dbg)
        ex.assert_(st, st.ghost["sent"] == 0, "the message is sent once", ins.dbg)
        ex.assert_(st, z3.If(self.flags == L["notime"], fl == 0, fl == IPC_NOWAIT), "the caller blocks in the queue only when it asked for no time limit", ins.dbg)
        b = iv("b", 64)
        if p.r is self.D:
            ex.assert_(st, z3.And(p.off == 0, n == self.n - 8), "the whole message is put in the queue", ins.dbg)
            ex.assert_(st, st.rd(self.D, bv(L["ttype"]), 1) == L["queue"], "marked as carried by the queue", ins.dbg)
            ex.assert_(st, z3.Implies(z3.And(z3.ULT(b, self.n), b != L["ttype"]), st.rd(self.D, b, 1) == s0.rd(self.D, b, 1)), "with its contents", ins.dbg)
        else:
            tn = st.ghost.get("tmpname")
            ex.assert_(st, z3.BoolVal(tn is not None), "a message that is not in the queue is in a file", ins.dbg)
            ex.assert_(st, st.ghost["fsize"] == self.n - L["base"], "the file holds the whole message", ins.dbg)
            ex.assert_(st, z3.Implies(z3.ULT(b, self.n - L["base"]), st.rd(self.FILE, b, 1) == s0.rd(self.D, b + L["base"], 1)), "with its contents", ins.dbg)
            ex.assert_(st, st.rd(p.r, p.off + L["ttype"], 1) == L["file"], "marked as carried by a file", ins.dbg)
            ex.assert_(st, z3.And(st.rd(p.r, p.off, 8) == s0.rd(self.D, bv(0), 8), st.rd(p.r, p.off + L["cat"], 1) == s0.rd(self.D, bv(L["cat"]), 1)),
                       "type and category of the message are sent", ins.dbg)
            for i, c in enumerate(tn):
                ex.assert_(st, st.rd(p.r, p.off + L["filename"] + i, 1) == c, "the name of the file is sent", ins.dbg)
            ex.assert_(st, n == L["filename"] + len(tn) - 8, "and nothing else", ins.dbg)


def run_qsend(case):
    """case: queue (fits), file"""
    def run(ctx):
        L = lay()
        w = Send(L)
        ex = ctx.exec("qsend", rules=[charvec_rules(), os_rules(L, w)])

        def setup(ex, st):
            for k in ("attempts", "sent", "slept", "fsize", "unlinked"):
                st.ghost[k] = bv(0)
            st.ghost["tmp"] = 0
            errno_region(st)
            st.ghost["lasterr"] = bv(0, 32)
            st.wr(w.V, bv(0), 8, Ptr(w.D))
            for o in (8, 16):
                st.wr(w.V, bv(o), 8, Ptr(w.D, w.n))
            st.assume(z3.And(z3.UGE(w.n, L["mem"]), z3.ULE(w.n, 1 << 31)))
            st.assume(z3.Or(*[w.flags == L[k] for k in ("notime", "noblock", "noflags")]))
            st.assume(z3.And(w.timeout >= 0, w.timeout <= (2**31 - 1) * 1000))
            q, r = fresh("tenths", 64), fresh("rest", 64)      # quotient and remainder of the block time, which exist for every block time
            st.assume(z3.And(w.timeout == q * 100 + r, z3.ULT(r, 100), z3.ULE(q, 1 << 36), w.timeout / bv(100) == q))
            w.q100 = q
            st.assume(z3.UGT(w.n, 4000) if case == "file" else z3.ULE(w.n, 4000))
            w.s0 = st.fork()
            return [(st, [w.q, Ptr(w.V), w.timeout, w.flags], None)]

        def post(ex, kind, st, ret, info):
            g = st.ghost
            if kind == "exc":
                ex.assert_(st, g["sent"] == 0, "a message that was sent is not reported as failed")
                if g["attempts"] is not None and case == "file":
                    ex.assert_(st, z3.Implies(g["attempts"] != 0, g["unlinked"] == 1), "the file of a message that was not sent is removed")
                return
            if z3.is_bool(ret):
                ret = z3.If(ret, bv(1, 8), bv(0, 8))
            ex.assert_(st, (ret != 0) == (g["sent"] == 1), "success is reported exactly when the message was sent")
            ex.assert_(st, z3.Implies(ret == 0, w.flags != L["notime"]), "without a time limit sending does not time out")
            ex.assert_(st, z3.Implies(w.flags == L["noblock"], z3.And(g["attempts"] == 1, g["slept"] == 0)), "a call that must not block tries once")
            ex.assert_(st, z3.Implies(z3.And(ret == 0, w.flags == L["noflags"]), g["slept"] >= w.timeout), "a send times out after the block time")
            ex.assert_(st, z3.Implies(z3.And(ret == 0, w.flags == L["noflags"]), g["slept"] <= w.timeout + 100), "a send times out not much after the block time")
            ex.assert_(st, z3.Implies(ret == 0, g["lasterr"] == EAGAIN), "time out is reported only for a full queue")
            if case == "file":
                ex.assert_(st, g["unlinked"] == z3.If(ret == 0, bv(1), bv(0)), "the file is removed if and only if the message was not sent")

        def loops(c):
            e = c.entry
            cs = [Cand("nothing sent", lambda st, ph: st.ghost["sent"] == 0), Cand("nothing removed", lambda st, ph: st.ghost["unlinked"] == e.ghost["unlinked"])]
            MS100 = 100
            cs.append(Cand("slept one interval per attempt after the first", lambda st, ph: st.ghost["slept"] == z3.If(ph["#it"] == 0, bv(0), (ph["#it"] - 1) * MS100)))
            cs.append(Cand("slept one interval per attempt", lambda st, ph: st.ghost["slept"] == ph["#it"] * MS100))
            cs.append(Cand("iterations", lambda st, ph: z3.And(ph["#it"] >= 0, ph["#it"] <= (1 << 32))))
            cs.append(Cand("queue was full", lambda st, ph: z3.Implies(ph["#it"] != 0, st.ghost["lasterr"] == EAGAIN)))
            cs.append(Cand("timed", lambda st, ph: z3.And(w.flags == L["noflags"])))
            cs += linrel_cands(c) + bound_cands(c, {"max": bv((2**31 - 1) * 10 + 2)}, ge=False)
            for k, v in c.phis.items():
                if k != "#it" and not isinstance(v, Ptr) and not z3.is_bool(v):
                    wd = v.size()
                    cs.append(Cand("%s nonneg" % k, lambda st, ph, k=k: ph[k] >= 0))
                    cs.append(Cand("%s counts" % k, lambda st, ph, k=k, wd=wd: ph[k] == (ph["#it"] if wd == 64 else z3.Extract(wd - 1, 0, ph["#it"]))))
            lim = simp(w.q100 + 2)
            cs.append(Cand("attempts within limit", lambda st, ph: ph["#it"] <= lim))
            return {"cands": cs, "variants": [], "havoc_ghost": {k: (lambda ex, s, k=k: fresh("g_" + k, 32 if k == "lasterr" else 64)) for k in ("attempts", "sent", "slept", "lasterr", "unlinked")}}
        ex.loop_spec = loops
        verify(ctx, ex, "fux::ipc::qsend(int, fux::ipc::msg&, long, fux::ipc::flags)", setup, post)
    return run
