"""I01: messages arrive as they were sent, whatever their size"""
from specs.ipccore import *
from specs.ipccore import run_qsend
from specs.T05 import errno_rules


class Recv:
    """the message waiting in the queue: as qsend puts it there"""
    def __init__(self, L, case):
        self.L, self.case = L, case
        self.q, self.type, self.flags = iv("msqid"), iv("msgtype", 64), iv("flags")
        self.n = iv("n", 64)                      # bytes after the message type
        self.k, self.fsz = iv("namelen", 64), iv("fsize", 64)
        self.IN, self.FILE = Region("incoming", self.n + 8).bytewise(), Region("file", self.fsz).bytewise()
        self.V = Region("msg", 24)
        self.old = iv("oldsize", 64)
        self.D = Region("message", self.old, kind="heap").bytewise()
        self.j = iv("j", 64)

    def setup(self, st):
        L = self.L
        for k in ("received", "opened", "closed", "unlinked", "rpos"):
            st.ghost[k] = bv(0)
        st.ghost["failed"] = False
        errno_region(st)
        st.wr(self.V, bv(0), 8, Ptr(self.D))
        for o in (8, 16):
            st.wr(self.V, bv(o), 8, Ptr(self.D, self.old))
        st.assume(z3.And(z3.UGE(self.old, 1), z3.ULE(self.old, 1 << 40)))
        t = st.rd(self.IN, bv(L["ttype"]), 1)
        if self.case == "queue":
            st.assume(z3.And(t == L["queue"], z3.UGE(self.n + 8, L["mem"]), z3.ULE(self.n + 8, 4000)))
        else:
            st.assume(z3.And(t == L["file"], self.n == L["filename"] + self.k + 1 - 8, z3.ULE(self.k, 3000), z3.UGE(self.k, 1)))
            st.assume(st.rd(self.IN, L["filename"] + self.k, 1) == 0)
            st.assume(z3.Implies(z3.ULT(self.j, self.k), st.rd(self.IN, L["filename"] + self.j, 1) != 0))
            st.assume(z3.And(z3.UGE(self.fsz, L["mem"] - L["base"]), z3.ULE(self.fsz, 1 << 31)))

    def rules(self):
        L = self.L

        def err(st):
            s2 = st.fork()
            e = fresh("errno", 32)
            s2.assume(e != 0)
            s2.wr(errno_region(s2), bv(0), 4, e)
            s2.ghost["failed"] = True
            return s2

        def inc(st, k):
            st.ghost[k] = simp(st.ghost[k] + 1)

        def msgrcv(ex, st, args, ins):
            q, p, n, ty, fl = args
            ex.assert_(st, z3.And(q == self.q, ty == self.type, fl == self.flags), "the message is taken from the requested queue as requested", ins.dbg)
            ex.assert_(st, st.ghost["received"] == 0, "one message is taken", ins.dbg)
            ex.range_access(st, p, n + 8, "store", ins.dbg)
            ex.assert_(st, z3.UGE(n, self.n), "there is room for every message that can be in a queue", ins.dbg)
            s2 = err(st)
            st.cp(p.r, p.off, self.n + 8, self.IN, bv(0))
            inc(st, "received")
            return [(st, self.n), (s2, bv(-1, 64))]
        msgrcv.is_contract = True

        def named(ex, st, p, ins):
            ex.assert_(st, z3.Implies(z3.ULE(self.j, self.k), st.rd(p.r, p.off + self.j, 1) == st.rd(self.IN, L["filename"] + self.j, 1)), "the file named in the message is used", ins.dbg)

        def strcpy(ex, st, args, ins):
            d, s = args
            ex.assert_(st, z3.And(st.rd(s.r, s.off + self.k, 1) == 0, z3.Implies(z3.ULT(self.j, self.k), st.rd(s.r, s.off + self.j, 1) != 0)), "the name of the file is copied", ins.dbg)
            ex.range_access(st, s, self.k + 1, "load", ins.dbg)
            ex.range_access(st, d, self.k + 1, "store", ins.dbg)
            st.cp(d.r, d.off, self.k + 1, s.r, s.off)
            return d
        strcpy.is_contract = True
        SO = layout(["<sys/stat.h>"], {"o": "offsetof(struct stat,st_size)", "n": "sizeof(struct stat)"})

        def stat(ex, st, args, ins):
            named(ex, st, args[0], ins)
            return statbuf(ex, st, args[1], ins)

        def fstat(ex, st, args, ins):
            ex.assert_(st, args[0] == st.ghost.get("fd", bv(-1, 32)), "of the message file", ins.dbg)
            return statbuf(ex, st, args[1], ins)

        def statbuf(ex, st, p, ins):
            ex.range_access(st, p, bv(SO["n"]), "store", ins.dbg)
            s2 = err(st)
            st.havoc(p.r, p.off, bv(SO["n"]))
            st.wr(p.r, p.off + SO["o"], 8, self.fsz)
            return [(st, bv(0, 32)), (s2, bv(-1, 32))]

        def open_(ex, st, args, ins):
            named(ex, st, args[0], ins)
            ex.assert_(st, args[1] & 0o1103 == 0, "it is opened for reading", ins.dbg)
            s2 = err(st)
            inc(st, "opened")
            fd = fresh("fd", 32)
            st.assume(fd >= 0)
            st.ghost["fd"] = fd
            return [(st, fd), (s2, bv(-1, 32))]

        def read(ex, st, args, ins):
            fd, p, n = args
            ex.assert_(st, fd == st.ghost.get("fd", bv(-1, 32)), "the message file is read", ins.dbg)
            ex.range_access(st, p, n, "store", ins.dbg)
            s2 = err(st)
            r, pos = fresh("nread", 64), st.ghost["rpos"]
            st.assume(z3.And(r >= 0, z3.ULE(r, n), z3.ULE(r, self.fsz - pos)))
            st.cp(p.r, p.off, r, self.FILE, pos)
            st.ghost["rpos"] = simp(pos + r)
            s3 = st.fork()
            s3.assume(r != n)
            s3.ghost["failed"] = True
            st.assume(r == n)
            return [(st, r), (s3, r), (s2, bv(-1, 64))]

        def close(ex, st, args, ins):
            ex.assert_(st, args[0] == st.ghost.get("fd", bv(-1, 32)), "the message file is closed", ins.dbg)
            inc(st, "closed")
            return [(st, bv(0, 32)), (err(st), bv(-1, 32))]

        def unlink(ex, st, args, ins):
            named(ex, st, args[0], ins)
            ex.assert_(st, st.ghost["rpos"] == self.fsz, "the file is removed after it was read", ins.dbg)
            s2 = err(st)
            inc(st, "unlinked")
            return [(st, bv(0, 32)), (s2, bv(-1, 32))]
        return [("__errno_location", lambda ex, st, a, i: Ptr(errno_region(st))), ("msgrcv", msgrcv), ("strcpy", strcpy), (rx("stat(64)?"), stat), (rx("fstat(64)?"), fstat),
                (rx("open(64)?"), open_), ("read", read), ("close", close), ("unlink", unlink), (rx(r"fprintf|perror"), ret_fresh(32)),
                (rx(r"std::_V2::(system|generic)_category\(\)"), h_opaque_cstr)] + text_rules()


def run_qrecv(case):
    def run(ctx):
        L = lay()
        w = Recv(L, case)
        ex = ctx.exec("qrecv", rules=[charvec_rules(), w.rules()])

        def setup(ex, st):
            w.setup(st)
            return [(st, [w.q, Ptr(w.V), w.type, w.flags], None)]

        def post(ex, kind, st, ret, info):
            g = st.ghost
            if kind == "exc":
                ex.assert_(st, z3.BoolVal(g["failed"] is True), "receiving fails only when the operating system reports a failure")
                return
            b, e = st.rd(w.V, bv(0), 8, True), st.rd(w.V, bv(8), 8, True)
            size, i = simp(e.off - b.off), iv("i", 64)
            ex.assert_(st, z3.And(z3.BoolVal(b.r is e.r), g["received"] == 1), "one message was received")
            got = st.rd(b.r, b.off + i, 1)
            if case == "queue":
                ex.assert_(st, size == w.n + 8, "with its length")
                ex.assert_(st, z3.Implies(z3.ULT(i, size), got == st.rd(w.IN, i, 1)), "and its contents")
                ex.assert_(st, z3.And(g["opened"] == 0, g["unlinked"] == 0), "no file is involved")
            else:
                ex.assert_(st, size == L["base"] + w.fsz, "with the length of the message in the file")
                ex.assert_(st, z3.Implies(z3.ULT(i, L["base"]), got == st.rd(w.IN, i, 1)), "type and category are those of the message received")
                ex.assert_(st, z3.Implies(z3.And(z3.UGE(i, L["base"]), z3.ULT(i, size)), got == st.rd(w.FILE, i - L["base"], 1)), "and the contents those in the file")
                ex.assert_(st, z3.And(g["opened"] == 1, g["closed"] == 1, g["unlinked"] == 1), "the file is closed and removed")
        verify(ctx, ex, "fux::ipc::qrecv(int, fux::ipc::msg&, long, int)", setup, post)
    return run


def msgvec(st):
    V, n = Region("msg", 24), iv("oldsize", 64)
    D = Region("message", n, kind="heap").bytewise()
    st.wr(V, bv(0), 8, Ptr(D))
    for o in (8, 16):
        st.wr(V, bv(o), 8, Ptr(D, n))
    return V, D, n


def run_set(null):
    def run(ctx):
        L = lay()
        ex = ctx.exec("set_data", rules=[charvec_rules(), text_rules(), errno_rules()])
        DATA, ln, need = Region("data", None), iv("len", 64), iv("needed", 64)
        EXP = Region("exported", need).bytewise()

        def bufsize(ex, st, args, ins):
            ex.assert_(st, z3.And(z3.BoolVal(args[0].r is DATA), args[1] == ln), "the size of the caller's data", ins.dbg)
            s2 = st.fork()
            return [(st, need), (s2, bv(-1, 64))]
        bufsize.is_contract = True

        def export(ex, st, args, ins):
            ib, il, ob, ol, fl = args
            ex.assert_(st, z3.And(z3.BoolVal(ib.r is DATA), il == ln, fl == 0), "the caller's data is exported", ins.dbg)
            room = st.rd(ol.r, ol.off, 8)
            s2 = st.fork()
            s2.assume(room < need)
            s3 = st.fork()
            s3.ghost["failed"] = True
            st.assume(room >= need)
            ex.range_access(st, ob, need, "store", ins.dbg)
            st.cp(ob.r, ob.off, need, EXP, bv(0))
            st.wr(ol.r, ol.off, 8, need)
            st.ghost["exported"] = True
            return [(st, bv(0, 32)), (s2, bv(-1, 32)), (s3, bv(-1, 32))]
        export.is_contract = True
        ex.rules += [("tpexport", export), (rx(r"fux::mem::bufsize\(.*\)"), bufsize)]

        def setup(ex, st):
            V, D, n = msgvec(st)
            st.assume(z3.And(z3.UGE(n, L["mem"]), z3.ULE(n, 1 << 40)))
            st.assume(z3.And(z3.UGE(need, 24), z3.ULE(need, 1 << 40)))
            return [(st, [Ptr(V), NULL if null else Ptr(DATA), ln], (V, D, n))]

        def post(ex, kind, st, ret, info):
            V, D, n = info
            if kind == "exc":
                ex.assert_(st, z3.BoolVal(not null and not st.ghost.get("exported")), "an exception reports that the data could not be exported")
                return
            b, e = st.rd(V, bv(0), 8, True), st.rd(V, bv(8), 8, True)
            size, i = simp(e.off - b.off), iv("i", 64)
            got = st.rd(b.r, b.off + i, 1)
            ex.assert_(st, size == (L["mem"] if null else L["mem"] + need), "the message is as long as its header and data")
            ex.assert_(st, z3.Implies(z3.ULT(i, L["mem"]), got == st.rd(D, i, 1)), "the header is kept")
            if not null:
                ex.assert_(st, z3.BoolVal(bool(st.ghost.get("exported"))), "the data was exported")
                ex.assert_(st, z3.Implies(z3.And(z3.UGE(i, L["mem"]), z3.ULT(i, size)), got == st.rd(EXP, i - L["mem"], 1)), "into the message")
        verify(ctx, ex, "fux::ipc::msg::set_data(char*, long)", setup, post)
    return run


def run_get(ctx):
    L = lay()
    ex = ctx.exec("get_data", rules=[charvec_rules(), text_rules(), errno_rules()])
    DP = Region("datap", 8)

    def setup(ex, st):
        V, D, n = msgvec(st)
        st.assume(z3.And(z3.UGE(n, L["mem"]), z3.ULE(n, 1 << 40)))

        def imp(ex, st, args, ins):
            i, il, ob, ol, fl = args
            ex.assert_(st, z3.And(z3.BoolVal(i.r is D), i.off == L["mem"], il == n - L["mem"]), "the data of the message is imported", ins.dbg)
            ex.assert_(st, z3.And(z3.BoolVal(ob.r is DP), ob.off == 0, fl == 0), "into the caller's buffer", ins.dbg)
            ex.assert_(st, il != 0, "data without a length is not a text", ins.dbg)
            s2 = st.fork()
            st.ghost["imported"], s2.ghost["imported"] = 1, -1
            return [(st, bv(0, 32)), (s2, bv(-1, 32))]
        imp.is_contract = True
        ex.rules += [("tpimport", imp)]
        return [(st, [Ptr(V), Ptr(DP)], (V, D, n))]

    def post(ex, kind, st, ret, info):
        V, D, n = info
        done = st.ghost.get("imported", 0)
        if kind == "exc":
            ex.assert_(st, z3.BoolVal(done == -1), "an exception reports that the data could not be imported")
        else:
            ex.assert_(st, z3.If(n == L["mem"], z3.BoolVal(done == 0), z3.BoolVal(done == 1)), "a message with data was imported, one without data is nothing")
    verify(ctx, ex, "fux::ipc::msg::get_data(char**)", setup, post)


UNITS = [Unit("qsend queue", ["ipc"], run_qsend("queue")), Unit("qsend file", ["ipc"], run_qsend("file")), Unit("qrecv queue", ["ipc"], run_qrecv("queue")),
         Unit("qrecv file", ["ipc"], run_qrecv("file")), Unit("set_data", ["ipc"], run_set(False)), Unit("set_data null", ["ipc"], run_set(True)), Unit("get_data", ["ipc"], run_get)]


def replay(failed, tmp):
    return cxx_driver(tmp, "ipcmsg.cpp", libtus())
