// messages of all sizes through a real queue
#include <atmi.h>
#include <fml32.h>
#include <xatmi.h>
#include <glob.h>
#include <signal.h>
#include <sys/msg.h>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>
#include "fux.h"
#include "ipc.h"
#include "mib.h"
#include "misc.h"
#include "rp.h"
static int q = -1;
// faults of the file system: 1 short transfer, 2 failure
static int wfault = 0, rfault = 0;
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  if (wfault == 2 && fd > 2) { errno = ENOSPC; return -1; }
  return syscall(SYS_write, fd, p, wfault == 1 && fd > 2 ? n / 2 : n);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
  if (rfault == 2 && fd > 2) { errno = EIO; return -1; }
  return syscall(SYS_read, fd, p, rfault == 1 && fd > 2 ? n / 2 : n);
}
static void cleanup() { if (q != -1) msgctl(q, IPC_RMID, nullptr); }
static std::set<std::string> files() {
  std::set<std::string> r;
  glob_t g;
  if (glob("/tmp/msgbase-*", 0, nullptr, &g) == 0) for (size_t i = 0; i < g.gl_pathc; i++) {
    r.insert(g.gl_pathv[i]);
  }
  globfree(&g);
  return r;
}
static void onalarm(int) { write(1, "FAILING INPUT: receiving or sending never returns\n", 50); cleanup(); _exit(1); }
int main() {
  on_fail = cleanup;
  signal(SIGALRM, onalarm);
  alarm(100);
  q = fux::ipc::qcreate();
  fux::ipc::msg in;
  auto before = files();
  auto leftover = [&] { for (auto &f : files()) if (!before.count(f)) return true; return false; };
  for (int round = 0; round < 1500; round++) {
    fux::ipc::msg m;
    size_t hdr = m.size();
    size_t n;
    switch (rnd(6)) {
      case 0: n = 0; break;
      case 1: n = rnd(50); break;
      case 2: n = 4000 - hdr - 20 + rnd(40); break;
      case 3: n = 4000 - hdr - 1 + rnd(3); break;
      case 4: n = rnd(9000); break;
      default: n = round % 50 == 0 ? 1000000 + rnd(5) : rnd(20000);
    }
    m.resize_data(n);
    for (size_t i = sizeof(fux::ipc::msgbase); i < m.size(); i++) m.buf()[i] = rng();
    m->mtype = 1 + rnd(3);
    m->cat = rnd(2) ? fux::ipc::application : fux::ipc::admin;
    std::string want(m.buf() + sizeof(fux::ipc::msgbase), m.size() - sizeof(fux::ipc::msgbase));
    auto fl = rnd(3) == 0 ? fux::ipc::flags::notime : rnd(2) ? fux::ipc::flags::noblock : fux::ipc::flags::noflags;
    try {
      if (!fux::ipc::qsend(q, m, 100, fl)) FAIL("a message of %d bytes is not sent to an empty queue", (int)m.size());
    } catch (const std::exception &e) { FAIL("a message of %d bytes is not sent: %s", (int)m.size(), e.what()); }
    if (rnd(2)) in = fux::ipc::msg();
    try {
      if (rnd(2)) {
        bool got = true;
        try { fux::ipc::qrecv(q, in, 4, IPC_NOWAIT); } catch (...) { got = false; }
        if (got) FAIL("a message of type %d is received by a request for type 4", (int)m->mtype);
        fux::ipc::qrecv(q, in, m->mtype, IPC_NOWAIT);
      } else fux::ipc::qrecv(q, in, 0, IPC_NOWAIT);
    } catch (const std::exception &e) { FAIL("a message of %d bytes is not received: %s", (int)m.size(), e.what()); }
    if (in.size() != m.size()) FAIL("a message of %d bytes arrives with %d", (int)m.size(), (int)in.size());
    if (in->mtype != m->mtype || in->cat != m->cat) FAIL("a message of %d bytes arrives with another type or category", (int)m.size());
    for (size_t i = 0; i < want.size(); i++) if (in.buf()[sizeof(fux::ipc::msgbase) + i] != want[i]) FAIL("byte %d of a message of %d bytes is changed", (int)(i + sizeof(fux::ipc::msgbase)), (int)m.size());
    if (round % 20 == 0 || round < 20) if (leftover()) FAIL("a message of %d bytes leaves its file behind", (int)m.size());
  }
  // faults while a message travels through a file
  for (int f = 1; f <= 4; f++)
    for (int sz : {5000, 70000}) {
      fux::ipc::msg m;
      m.resize_data(sz);
      m->mtype = 1;
      bool sent = false;
      if (f <= 2) wfault = f;
      try { sent = fux::ipc::qsend(q, m, 0, fux::ipc::flags::noblock); } catch (const std::exception &) {}
      wfault = 0;
      if (sent != (f > 2)) FAIL("%s while the file of a message of %d bytes is written: %s", f == 1 ? "short write" : f == 2 ? "failure" : "nothing", sz, sent ? "reported as sent" : "not sent");
      if (sent) {
        rfault = f - 2;
        bool got = true;
        try { fux::ipc::qrecv(q, in, 0, IPC_NOWAIT); } catch (const std::exception &) { got = false; }
        rfault = 0;
        if (got) FAIL("%s while the file of a message of %d bytes is read is not reported", f == 3 ? "short read" : "failure", sz);
      }
      for (auto &f : files()) if (!before.count(f)) unlink(f.c_str());
    }
  // full queue, and a queue that does not exist
  std::vector<char> filler(1000);
  *(long *)&filler[0] = 1;
  while (msgsnd(q, &filler[0], 900, IPC_NOWAIT) == 0) {}
  while (msgsnd(q, &filler[0], 1, IPC_NOWAIT) == 0) {}
  for (int sz : {10, 5000, 100000})
    for (auto fl : {fux::ipc::flags::noblock, fux::ipc::flags::noflags}) {
      fux::ipc::msg m;
      m.resize_data(sz);
      bool thrown = false, r = true;
      try { r = fux::ipc::qsend(q, m, 150, fl); } catch (const std::exception &) { thrown = true; }
      if (thrown || r) FAIL("sending %d bytes to a full queue %s", sz, thrown ? "throws" : "succeeds");
      if (leftover()) FAIL("a message of %d bytes that is not sent leaves its file behind", sz);
    }
  for (int sz : {10, 5000})
    for (auto fl : {fux::ipc::flags::noblock, fux::ipc::flags::noflags, fux::ipc::flags::notime}) {
      fux::ipc::msg m;
      m.resize_data(sz);
      bool thrown = false;
      int bad = fux::ipc::qcreate();
      fux::ipc::qdelete(bad);
      try { fux::ipc::qsend(bad, m, 150, fl); } catch (const std::exception &) { thrown = true; }
      if (!thrown) FAIL("sending %d bytes to a queue that does not exist is not reported", sz);
      if (leftover()) FAIL("a message of %d bytes that is not sent leaves its file behind", sz);
    }
  cleanup();
  q = fux::ipc::qcreate();
  // buffers
  for (int round = 0; round < 800; round++) {
    int kind = rnd(3);
    size_t n = rnd(3) ? rnd(200) : 3800 + rnd(300);
    if (rnd(30) == 0) n = 50000;
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char)(kind == 0 ? rng() : 1 + rnd(255));
    const char *ty[] = {"CARRAY", "STRING", "FML32"};
    char *b = tpalloc((char *)ty[kind], nullptr, n * 4 + 2000);
    if (kind == 2) { for (int i = 0; i < 1 + (int)rnd(3); i++) if (Fadd32((FBFR32 *)b, Fmkfldid32(FLD_CARRAY, 10 + i), (char *)s.data(), s.size()) == -1) FAIL("Fadd32 fails"); }
    else { memcpy(b, s.data(), n); if (kind == 1) b[n] = 0; }
    fux::ipc::msg m;
    m->cd = 77; m->rcode = 1234567; strcpy(m->servicename, "SVC");
    m.set_data(b, n);
    if (m->cd != 77 || m->rcode != 1234567 || strcmp(m->servicename, "SVC")) FAIL("putting %d bytes of %s data in a message changes its header", (int)n, ty[kind]);
    fux::ipc::qsend(q, m, 0, fux::ipc::flags::noblock);
    fux::ipc::qrecv(q, in, 0, IPC_NOWAIT);
    if (in->cd != 77 || in->rcode != 1234567 || strcmp(in->servicename, "SVC")) FAIL("header of a message with %d bytes of %s data changes on the way", (int)n, ty[kind]);
    char *o = tpalloc((char *)ty[rnd(3)], nullptr, rnd(2) ? 10 : 5000);
    in.get_data(&o);
    char t[9] = {0};
    if (tptypes(o, t, nullptr) == -1 || strcmp(t, ty[kind])) FAIL("%s data arrives as %s", ty[kind], t);
    if (kind == 2) {
      FLDID32 i1 = FIRSTFLDID, i2 = FIRSTFLDID; FLDOCC32 c1, c2;
      while (true) {
        FLDLEN32 l1 = 0, l2 = 0;
        int r1 = Fnext32((FBFR32 *)b, &i1, &c1, nullptr, &l1), r2 = Fnext32((FBFR32 *)o, &i2, &c2, nullptr, &l2);
        if (r1 != r2 || i1 != i2 || c1 != c2) FAIL("FML32 data with fields of %d bytes changes on the way", (int)n);
        if (r1 != 1) break;
        FLDLEN32 x = 0, y = 0;
        char *p1 = Ffind32((FBFR32 *)b, i1, c1, &x), *p2 = Ffind32((FBFR32 *)o, i2, c2, &y);
        if (!p1 || !p2 || x != y || memcmp(p1, p2, x)) FAIL("FML32 data with fields of %d bytes changes on the way", (int)n);
      }
    } else {
      if (memcmp(o, s.data(), n) || (kind == 1 && o[n])) FAIL("%d bytes of %s data change on the way", (int)n, ty[kind]);
      if (fux::mem::datasize(in.size_data()) != (long)(n + (kind == 1))) FAIL("%d bytes of %s data arrive with length %ld", (int)n, ty[kind], fux::mem::datasize(in.size_data()));
    }
    m.set_data(nullptr, 0);
    if (m.size_data() != 0) FAIL("a message used before with %d bytes of data keeps %d bytes when it is used without", (int)n, (int)m.size_data());
    fux::ipc::msg e;
    e.set_data(nullptr, 0);
    e->cd = 5;
    fux::ipc::qsend(q, e, 0, fux::ipc::flags::noblock);
    fux::ipc::qrecv(q, in, 0, IPC_NOWAIT);
    std::string keep(o, 5);
    in.get_data(&o);
    if (in->cd != 5 || in.size_data() != 0 || memcmp(o, keep.data(), 5)) FAIL("a message without data does not arrive as such");
    tpfree(b);
    tpfree(o);
  }
  cleanup();
  return 0;
}
