// client calls against real System V queues: block times, descriptors, requests and replies
#include <atmi.h>
#include <fml32.h>
#include <tx.h>
#include <xa.h>
#include <xatmi.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/time.h>
#include <signal.h>
#include <chrono>
#include <climits>
#include <map>
#include <set>
#include <thread>
#include "fux.h"
#include "ipc.h"
#include "mib.h"
#include "misc.h"
#include "trx.h"
#include "rp.h"

static mib *M;
mib &getmib() { return *M; }
int tpacall_queue(int msqid, const char *svc, char *data, long len, long flags);
namespace fux::glob { extern xa_switch_t *xasw; }
static std::set<int> queues;
static void cleanup() {
  for (int q : queues) msgctl(q, IPC_RMID, nullptr);
  if (M) {
    for (size_t i = 0; i < M->accessers()->len; i++) if (M->accessers().at(i).pid) msgctl(M->accessers().at(i).rpid, IPC_RMID, nullptr);
    semctl((*M)->mainsem, 0, IPC_RMID);
  }
}
static std::string hist;
static const char *blocked = "";
static void onalarm(int) {
  write(1, "FAILING INPUT: ", 15);
  write(1, blocked, strlen(blocked));
  write(1, " never returns; after:", 22);
  write(1, hist.data(), hist.size());
  write(1, "\n", 1);
  cleanup();
  _exit(1);
}
static int mkq() { int q = fux::ipc::qcreate(); queues.insert(q); return q; }
static void H(const std::string &s) { hist += " " + s; if (hist.size() > 3000) hist.erase(0, 1000); }
static long now_ms() { using namespace std::chrono; return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count(); }
static void drain(int q) {
  char b[5000];
  while (msgrcv(q, b, sizeof b - 8, 0, IPC_NOWAIT) >= 0) {
    auto f = (fux::ipc::msgfile *)b;
    if (f->ttype == fux::ipc::file && !strncmp(f->filename, "/tmp/msgbase-", 13)) unlink(f->filename);
  }
}
static int myreplyq;

// ---- block times
static long mnext, mall;
static void blocktimes() {
  for (int i = 0; i < 4000; i++) {
    int v = rnd(4) == 0 ? INT_MAX - rnd(5) : (int)rnd(100000);
    long fl = 0;
    switch (rnd(6)) {
      case 0: fl = (long)rnd(1 << 12); break;
      case 1: fl = (long)(rnd(64) << 28) | rnd(4) | (rnd(2) ? TPBLK_MILLISECOND : 0); break;
      default: fl = (rnd(2) ? TPBLK_NEXT : TPBLK_ALL) | (rnd(2) ? TPBLK_SECOND : TPBLK_MILLISECOND);
    }
    long unit = fl & 0xf0, what = fl & ~0xf0L;
    bool okunit = unit == TPBLK_SECOND || unit == TPBLK_MILLISECOND, ok = okunit && (what == TPBLK_NEXT || what == TPBLK_ALL);
    if (rnd(2)) {
      int rc = tpsblktime(v, fl);
      H("tpsblktime(" + std::to_string(v) + "," + std::to_string(fl) + ")=" + std::to_string(rc));
      if (rc != (ok ? 0 : -1) || tperrno != (ok ? 0 : TPEINVAL)) FAIL("last call gave tperrno %d:%s", tperrno, hist.c_str());
      if (ok) (what == TPBLK_NEXT ? mnext : mall) = unit == TPBLK_SECOND ? v * 1000L : v;
    } else if (what != 0) {
      int rc = tpgblktime(fl);
      H("tpgblktime(" + std::to_string(fl) + ")=" + std::to_string(rc));
      if (!ok) { if (rc != -1 || tperrno != TPEINVAL) FAIL("last call gave tperrno %d:%s", tperrno, hist.c_str()); }
      else {
        long t = what == TPBLK_NEXT ? mnext : mall;
        if (unit == TPBLK_SECOND) t /= 1000;
        if (t <= INT_MAX && (rc != t || tperrno)) FAIL("last call should give %ld:%s", t, hist.c_str());
      }
    }
  }
  // what is in effect
  auto reported = [&](long w) { return (long)tpgblktime(w | TPBLK_MILLISECOND); };
  int q = mkq();
  for (int i = 0; i < 200; i++) {
    int n = rnd(2) ? rnd(5000) : 0, a = rnd(2) ? rnd(5000) : 0;
    tpsblktime(n, TPBLK_NEXT | TPBLK_MILLISECOND);
    tpsblktime(a, TPBLK_ALL | TPBLK_MILLISECOND);
    if (tpacall_queue(q, "S", nullptr, 0, TPNOREPLY) != 0) FAIL("tpacall fails with %d", tperrno);
    drain(q);
    if (reported(TPBLK_NEXT) != 0 || reported(TPBLK_ALL) != a) FAIL("after a call TPBLK_NEXT is %ld and TPBLK_ALL %ld (%d before)", reported(TPBLK_NEXT), reported(TPBLK_ALL), a);
  }
  // full queue
  std::vector<char> filler(1000);
  *(long *)&filler[0] = 1;
  while (msgsnd(q, &filler[0], 900, IPC_NOWAIT) == 0) {}
  while (msgsnd(q, &filler[0], 1, IPC_NOWAIT) == 0) {}
  struct { int next, all, mib; long flags; int expect; } t[] = {
    {0, 0, 300, 0, 300}, {500, 200, 300, 0, 500}, {0, 200, 1000, 0, 200}, {0, 700, 100, 0, 700}, {300, 0, 1000, 0, 300}, {0, 0, 1000, TPNOBLOCK, 0}, {3000, 0, 1000, TPNOBLOCK, 0}};
  for (auto &x : t)
    for (int big = 0; big < 2; big++) {
      (*M).mach().blocktime = x.mib;
      tpsblktime(x.next, TPBLK_NEXT | TPBLK_MILLISECOND);
      tpsblktime(x.all, TPBLK_ALL | TPBLK_MILLISECOND);
      char *d = big ? tpalloc((char *)"CARRAY", nullptr, 6000) : nullptr;
      long t0 = now_ms();
      int rc = tpacall_queue(q, "S", d, big ? 6000 : 0, TPNOREPLY | x.flags);
      long el = now_ms() - t0;
      int e = tperrno;
      if (rc != -1 || e != (x.flags & TPNOBLOCK ? TPEBLOCK : TPETIME)) FAIL("full queue: tpacall gives %d, tperrno %d", rc, e);
      if (el < x.expect || el > x.expect + 400) FAIL("full queue, %s request, TPBLK_NEXT %d ms, TPBLK_ALL %d ms, configured %d ms, flags 0x%lx: gave up after %ld ms", big ? "long" : "short", x.next, x.all, x.mib, x.flags, el);
      if (d) tpfree(d);
    }
  // a long block time does not give up at once
  for (long secs : {20000000L, (long)INT_MAX}) {
    tpsblktime((int)secs, TPBLK_NEXT | TPBLK_SECOND);
    std::thread w([&] { std::this_thread::sleep_for(std::chrono::milliseconds(700)); drain(q); });
    int rc = tpacall_queue(q, "S", nullptr, 0, TPNOREPLY);
    int e = tperrno;
    w.join();
    if (rc == -1) FAIL("full queue, TPBLK_NEXT %ld s: gave up with %d before the queue had room", secs, e);
    drain(q);
    while (msgsnd(q, &filler[0], 900, IPC_NOWAIT) == 0) {}
    while (msgsnd(q, &filler[0], 1, IPC_NOWAIT) == 0) {}
  }
  // no time limit
  tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
  {
    std::thread w([&] { std::this_thread::sleep_for(std::chrono::milliseconds(900)); drain(q); });
    int rc = tpacall_queue(q, "S", nullptr, 0, TPNOREPLY | TPNOTIME);
    int e = tperrno;
    w.join();
    if (rc == -1) FAIL("full queue, TPNOTIME: gave up with %d", e);
  }
  (*M).mach().blocktime = 3000;
  tpsblktime(0, TPBLK_NEXT);
  tpsblktime(0, TPBLK_ALL);
}

// ---- requests and replies
struct Reply { int cd; int rval; long rcode; std::string text; bool unblock; };
static void put(const Reply &r) {
  fux::ipc::msg m;
  if (!r.unblock) {
    char *b = tpalloc((char *)"STRING", nullptr, r.text.size() + 1);
    strcpy(b, r.text.c_str());
    m.set_data(b, 0);
    tpfree(b);
  } else
    m.resize_data(0);
  m->mtype = 1;
  m->cat = r.unblock ? fux::ipc::unblock : fux::ipc::application;
  m->cd = r.cd;
  m->rval = r.rval;
  m->rcode = r.rcode;
  if (!fux::ipc::qsend(myreplyq, m, 0, fux::ipc::noblock)) { FAIL("test queue full"); }
}
static void calls() {
  int q = mkq();
  std::map<int, std::vector<Reply>> none;
  for (int round = 0; round < 1500; round++) {
    std::map<int, int> out;                 // outstanding -> 0 request sent, 1 reply in the queue or kept
    std::vector<Reply> inq;                 // replies in the reply queue, in order
    std::map<int, Reply> kept;
    std::vector<int> dead;                  // cancelled or finished
    hist.clear();
    long serial = 0;
    for (int step = 0; step < 25; step++) {
      switch (rnd(7)) {
        case 0: case 1: {
          long fl = (rnd(4) == 0 ? TPNOREPLY : 0) | (rnd(3) == 0 ? TPNOTRAN : 0) | (rnd(5) == 0 ? TPNOTIME : 0) | (rnd(5) == 0 ? TPNOBLOCK : 0);
          std::string svc(1 + rnd(20), 'a' + rnd(26)), text(rnd(60) == 0 ? 4000 + rnd(5000) : rnd(50), 'A' + rnd(26));
          char *d = rnd(4) ? tpalloc((char *)"STRING", nullptr, text.size() + 1) : nullptr;
          if (d) strcpy(d, text.c_str());
          int cd = tpacall_queue(q, svc.c_str(), d, 0, fl);
          if (d) tpfree(d);
          H("acall(0x" + hex(&fl, 2) + ")=" + std::to_string(cd));
          if (cd == -1) FAIL("tpacall fails with %d after:%s", tperrno, hist.c_str());
          if (fl & TPNOREPLY ? cd != 0 : cd <= 0) FAIL("tpacall with flags %ld gives %d after:%s", fl, cd, hist.c_str());
          if (cd && out.count(cd)) FAIL("tpacall gives %d which is outstanding after:%s", cd, hist.c_str());
          fux::ipc::msg m;
          blocked = "receiving the request";
          alarm(10); fux::ipc::qrecv(q, m, 0, 0); alarm(0);
          if (m->cd != cd || svc != m->servicename || (fl & TPNOREPLY ? m->replyq != -1 : m->replyq == -1)) FAIL("request for %s with descriptor %d is sent as %s, %d, reply queue %d", svc.c_str(), cd, m->servicename, m->cd, m->replyq);
          bool tr = fux::tx::transactional() && !(fl & TPNOTRAN);
          if (tr ? !(m->flags & TPTRAN) || m->gttid != fux::tx::gttid() : (m->flags & TPTRAN) || m->gttid != fux::bad_gttid) FAIL("request with flags 0x%lx in %s is sent with flags %ld, transaction %lx after:%s", fl, fux::tx::transactional() ? "a transaction" : "no transaction", m->flags, (long)m->gttid, hist.c_str());
          if (m->replyq != -1 && m->replyq != myreplyq) FAIL("reply queue of the request is %d, not this client's", m->replyq);
          char *g = tpalloc((char *)"STRING", nullptr, 10);
          m.get_data(&g);
          if (d ? text != g : m.size_data() != 0) FAIL("the data of the request changed (%d bytes)", (int)text.size());
          tpfree(g);
          if (cd) { out[cd] = 0; for (auto it = dead.begin(); it != dead.end();) it = *it == cd ? dead.erase(it) : it + 1; }
          break;
        }
        case 2: case 3: {   // a reply
          if (inq.size() > 8) break;
          Reply r{0, rnd(3) ? 0 : (int)(rnd(2) ? TPESVCFAIL : TPESVCERR), (long)rng() >> 3, "r" + std::to_string(++serial) + std::string(rnd(80) == 0 ? 4500 : rnd(30), 'x'), false};
          if (!dead.empty() && rnd(4) == 0) r.cd = dead[rnd(dead.size())];
          else { for (auto &o : out) if (o.second == 0) { r.cd = o.first; if (rnd(2)) break; } if (!r.cd) break; out[r.cd] = 1; }
          put(r);
          inq.push_back(r);
          H("reply(" + std::to_string(r.cd) + ")");
          break;
        }
        case 4: {
          if (out.empty()) break;
          auto it = out.begin();
          std::advance(it, rnd(out.size()));
          int cd = it->first;
          if (rnd(5) == 0) cd = rnd(2) ? 0 : cd + 1000;
          bool known = out.count(cd);
          int rc = tpcancel(cd);
          H("cancel(" + std::to_string(cd) + ")=" + std::to_string(rc));
          if (rc != (known ? 0 : -1) || tperrno != (known ? 0 : TPEBADDESC)) FAIL("tpcancel gives %d, tperrno %d after:%s", rc, tperrno, hist.c_str());
          if (known) { out.erase(cd); kept.erase(cd); dead.push_back(cd); }
          break;
        }
        default: {
          bool any = rnd(3) == 0;
          int cd = 0;
          if (!any) {
            if (out.empty() || rnd(8) == 0) cd = rnd(2) ? (dead.empty() ? 77777 : dead[0]) : 0;
            else { auto it = out.begin(); std::advance(it, rnd(out.size())); cd = it->first; }
          } else cd = rnd(2) ? 12345 : 0;
          // expected outcome
          std::map<int, Reply> k2 = kept;
          std::vector<Reply> q2 = inq;
          bool timeout = false, bad = !any && !out.count(cd), found = false;
          Reply exp{};
          std::set<int> anyof;
          if (!bad) {
            if (any && !k2.empty()) { for (auto &k : k2) anyof.insert(k.first); found = true; }
            else if (!any && k2.count(cd)) { exp = k2[cd]; k2.erase(cd); found = true; }
            else {
              while (!q2.empty()) {
                Reply r = q2.front();
                q2.erase(q2.begin());
                if (!out.count(r.cd)) continue;
                if (any || r.cd == cd) { exp = r; found = true; break; }
                k2[r.cd] = r;
              }
              if (!found) { timeout = true; put({any ? 0 : cd, 0, 0, "", true}); }
            }
          }
          char *b = tpalloc((char *)"STRING", nullptr, 10);
          strcpy(b, "untouched");
          long len = -1;
          int gcd = cd;
          blocked = "tpgetrply";
          alarm(10);
          int rc = tpgetrply(&gcd, &b, rnd(5) ? &len : nullptr, any ? TPGETANY : 0);
          alarm(0);
          int e = tperrno;
          H("getrply(" + std::to_string(cd) + (any ? " any" : "") + ")=" + std::to_string(rc) + "/" + std::to_string(e) + " cd " + std::to_string(gcd));
          if (bad) { if (rc != -1 || e != TPEBADDESC) FAIL("tpgetrply of an unknown descriptor:%s", hist.c_str()); tpfree(b); break; }
          if (found && any && !anyof.empty()) {
            if (!anyof.count(gcd)) FAIL("tpgetrply(TPGETANY) gives an unexpected reply:%s", hist.c_str());
            exp = k2[gcd];
            k2.erase(gcd);
          }
          kept = k2;
          inq = q2;
          if (timeout) { if (rc != -1 || e != TPETIME) FAIL("tpgetrply should time out:%s", hist.c_str()); }
          else {
            if (gcd != exp.cd || exp.text != b || tpurcode != exp.rcode || rc != (exp.rval ? -1 : 0) || e != exp.rval)
              FAIL("tpgetrply gives text %.20s, rcode %ld, tperrno %d instead of text %.20s, rcode %ld, tperrno %d for descriptor %d:%s", b, tpurcode, e, exp.text.c_str(), exp.rcode, exp.rval, exp.cd, hist.c_str());
            if (len != -1 && len != (long)exp.text.size() + 1) FAIL("reply of %d bytes has length %ld", (int)exp.text.size() + 1, len);
            out.erase(gcd);
            dead.push_back(gcd);
          }
          tpfree(b);
        }
      }
    }
    for (auto &o : out) if (tpcancel(o.first) != 0) FAIL("descriptor %d was lost:%s", o.first, hist.c_str());
    drain(myreplyq);
    drain(q);
  }
  // failed requests keep no descriptor
  std::string name(200, 'n');
  char *d = tpalloc((char *)"STRING", nullptr, 10);
  strcpy(d, "x");
  std::vector<char> filler(1000);
  *(long *)&filler[0] = 1;
  while (msgsnd(q, &filler[0], 900, IPC_NOWAIT) == 0) {}
  while (msgsnd(q, &filler[0], 1, IPC_NOWAIT) == 0) {}
  for (int i = 0; i < 3000; i++) {
    int rc = i % 3 == 0 ? tpacall_queue(q, "S", d, 0, TPNOBLOCK) : i % 3 == 1 ? tpacall_queue(q, name.c_str(), d, 0, 0) : tpacall_queue(1 << 30, "S", d, 0, 0);
    if (rc != -1 || tperrno == TPELIMIT) FAIL("failing request %d gives %d, tperrno %d", i, rc, tperrno);
    if (i % 3 == 0 && tperrno != TPEBLOCK) FAIL("request that does not block fails with %d", tperrno);
  }
  drain(q);
  std::vector<int> cds;
  for (int i = 0; i < 1000; i++) {
    int cd = tpacall_queue(q, "S", d, 0, 0);
    if (cd == -1) FAIL("after failed requests only %d descriptors are left (tperrno %d)", i, tperrno);
    cds.push_back(cd);
    drain(q);
  }
  for (int cd : cds) tpcancel(cd);
}
static int rm0(char *, int, long) { return 0; }
static int rm1(XID *, int, long) { return 0; }
static xa_switch_t sw;
int main() {
  signal(SIGALRM, onalarm);
  on_fail = cleanup;
  setenv("ULOGPFX", "ULOG", 1);
  tuxconfig cfg;
  memset(&cfg, 0, sizeof cfg);
  cfg.maxservers = 4; cfg.maxservices = 4; cfg.maxqueues = 4; cfg.maxgroups = 4; cfg.maxaccessers = 8;
  M = new mib(cfg, fux::mib::in_heap());
  (*M)->mainsem = fux::ipc::seminit(IPC_PRIVATE, 1);
  (*M).mach().blocktime = 3000;
  M->make_group(10, "A", "mock:a=b", "bye", "");
  strcpy(sw.name, "mock");
  sw.xa_open_entry = sw.xa_close_entry = rm0;
  sw.xa_start_entry = sw.xa_end_entry = sw.xa_prepare_entry = sw.xa_commit_entry = sw.xa_rollback_entry = rm1;
  fux::glob::xasw = &sw;
  const char *part = getenv("PART");
  auto run = [&] {
    try {
      tpinit(nullptr);
      for (size_t i = 0; i < M->accessers()->len; i++) if (M->accessers().at(i).pid == getpid()) myreplyq = M->accessers().at(i).rpid;
      if (!part || !strcmp(part, "calls")) {
        calls();
        fux::tx::grpno = 10;
        if (tx_open() == TX_OK && tx_begin() == TX_OK) calls();
      }
      if (!part || !strcmp(part, "times")) blocktimes();
    } catch (const std::exception &e) { FAIL("exception %s; after:%s", e.what(), hist.c_str()); }
  };
  run();
  cleanup();
  M = nullptr;
  _Exit(0);
}
