// the dispatcher of a server against scripted requests; messages and the lock of the board are simulated
#include <atmi.h>
#include <fml32.h>
#include <tpadm.h>
#include <tx.h>
#include <xa.h>
#include <xatmi.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <atomic>
#include <climits>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "fux.h"
#include "ipc.h"
#include "mib.h"
#include "misc.h"
#include "trx.h"
#include "rp.h"

static mib *M;
mib &getmib() { return *M; }
namespace fux::tx { extern size_t grpidx; }
extern "C" int _tmbuilt_with_thread_option;
extern "C" void real_tpfree(char *);

static std::mutex mu;
static std::string hist;
static void H(const char *f, ...) {
  char t[500];
  va_list a;
  va_start(a, f);
  vsnprintf(t, sizeof t, f, a);
  hist += t;
  if (hist.size() > 2500) hist.erase(0, 800);
}
#define BAD(...) do { char b_[1500]; snprintf(b_, sizeof b_, __VA_ARGS__); FAIL("%s; after:%s", b_, hist.c_str()); } while (0)

// ---- the lock of the board
static thread_local int locked;
static int locks;
namespace fux::ipc {
void semlock(int, int) { if (locked) BAD("the lock of the board is taken twice"); locked = 1; locks++; }
void semunlock(int, int) { locked = 0; }
}

// ---- resource manager
static std::vector<std::string> ev;
static int rm_open(char *, int, long) { return XA_OK; }
static int rm_close(char *, int, long) { return XA_OK; }
static int rm_start(XID *, int, long) { ev.push_back("start"); return XA_OK; }
static int rm_end(XID *, int, long f) { ev.push_back(f & TMFAIL ? "end fail" : "end success"); return XA_OK; }
static int rm_x(XID *, int, long) { return XA_OK; }
static xa_switch_t sw;

// ---- the request in work
enum { RETURN, FORWARD, PLAIN };
struct Plan {
  std::string svc;
  int cd, replyq, act, rval, data, nfail, kind;
  long mtype, rcode, flags, tran, len;
  fux::gttid gttid;
  std::string text, fwd;
};
static Plan P;
static bool active, called;
static std::vector<std::string> got;
struct Sent { int q; fux::ipc::msg m; size_t evs; };
static std::vector<Sent> sent;
static std::vector<char *> freed;
static char *newbuf, *ownbuf;
static int tries, step, nreq;
static const int TARGETQ = 991, REPLYQ = 771, STOPQ = 551;
static int requestq;

void tpfree(char *p) {
  if (active && p) freed.push_back(p);
  real_tpfree(p);
}
static std::string text(fux::ipc::msg &m) {
  char *b = tpalloc((char *)"STRING", nullptr, 8);
  bool none = m.size_data() == 0;
  fux::ipc::msg c = m;
  try { c.get_data(&b); } catch (const std::exception &e) { BAD("message with broken data: %s", e.what()); }
  std::string s = none || !b ? "" : b;
  active = false;
  real_tpfree(b);
  active = true;
  return s;
}
static void reply_is(Sent &s, int rval, long rcode, const std::string &t, const char *what) {
  if (s.q != P.replyq || s.m->cd != P.cd || s.m->mtype != P.cd || s.m->cat != fux::ipc::application) BAD("%s: reply in queue %d (cd %d, type %ld) instead of %d (cd %d)", what, s.q, s.m->cd, s.m->mtype, P.replyq, P.cd);
  if (s.m->rval != rval) BAD("%s: reply says %d instead of %d", what, s.m->rval, rval);
  if (rcode != LONG_MIN && s.m->rcode != rcode) BAD("%s: reply has code %ld instead of %ld", what, s.m->rcode, rcode);
  auto x = text(s.m);
  if (x != t) BAD("%s: reply has data \"%s\" instead of \"%s\"", what, x.c_str(), t.c_str());
}
static void check() {   // the request is done
  if (!active) return;
  const char *w = "request";
  bool known = P.svc == "SVC" || P.svc == "OTHER";
  if (P.kind == 1) {    // to stop another server
    if (called || sent.size() != 1 || sent[0].q != requestq || sent[0].m->mtype != P.mtype || sent[0].m->replyq != P.replyq || sent[0].m->cd != P.cd) BAD("request to stop another server: %s, %zu messages sent", called ? "dispatched" : "not dispatched", sent.size());
    active = false;
    return;
  }
  if (called != known) BAD("service %s was%s called", P.svc.c_str(), called ? "" : " not");
  bool want = P.replyq != -1;
  std::vector<Sent *> f, r;
  for (auto &s : sent) (s.q == TARGETQ ? f : r).push_back(&s);
  int ends = 0;
  for (auto &e : ev) if (e[0] == 'e') ends++;
  if (ends != (P.tran && known ? 1 : 0) && !(P.tran && !known && ends == 1)) BAD("%d branches of the transaction were ended", ends);
  for (auto &s : sent) for (size_t i = s.evs; i < ev.size(); i++) if (ev[i][0] == 'e') BAD("the branch is ended after the reply");
  std::string ended = ends ? ev.back() : "";
  std::string t = P.data ? P.text : "";
  if (fux::tx::transactional()) BAD("the server is still in the transaction");
  if (!known || P.act == PLAIN) {
    if (!want ? sent.size() != 0 : P.nfail ? sent.size() != 0 && sent.size() != 1 : sent.size() != 1) BAD("%s: %zu messages sent for %s", known ? "service without tpreturn" : "unknown service", sent.size(), want ? "a request" : "TPNOREPLY");
    for (auto &s : sent) reply_is(s, known ? TPESVCERR : TPENOENT, LONG_MIN, "", known ? "service without tpreturn" : "unknown service");
    if (ends && ended != "end fail") BAD("no service, but the branch ended with %s", ended.c_str());
  } else if (P.act == RETURN) {
    int rv = P.rval == TPSUCCESS ? TPMINVAL : P.rval == TPFAIL ? TPESVCFAIL : TPESVCERR;
    if (sent.size() != (want && P.nfail < 2 ? 1 : 0)) BAD("tpreturn(%d,,,,%ld), %d failures: %zu messages sent", P.rval, P.flags, P.nfail, sent.size());
    if (ends && ended != (rv == TPMINVAL && !P.flags ? "end success" : "end fail")) BAD("tpreturn(%d,,,,%ld): branch ended with %s", P.rval, P.flags, ended.c_str());
    for (auto &s : sent) {
      if (P.nfail) reply_is(s, TPESVCERR, LONG_MIN, "", "tpreturn with a failure");
      else reply_is(s, P.flags ? TPESVCERR : rv, P.rcode, t, "tpreturn");
    }
    if ((!want || !P.nfail) && (P.data == 2 ? freed != std::vector<char *>{newbuf} : !freed.empty())) BAD("tpreturn with %s buffer%s freed %zu buffers", P.data == 2 ? "another" : P.data ? "the own" : "no", want ? "" : " (no reply expected)", freed.size());
  } else {
    bool ok = P.fwd == "TARGET" && !P.nfail;
    if (ok) {
      if (f.size() != 1 || r.size()) BAD("tpforward: %zu requests and %zu replies sent", f.size(), r.size());
      auto &m = f[0]->m;
      if (m->cd != P.cd || m->replyq != P.replyq || m->mtype <= 0 || P.fwd != m->servicename || m->cat != fux::ipc::application) BAD("tpforward: request for %s with cd %d, queue %d, type %ld", m->servicename, m->cd, m->replyq, m->mtype);
      if (!(m->flags & TPTRAN) != !P.tran || P.tran && m->gttid != P.gttid) BAD("tpforward: flags %ld, transaction %d (%s transaction)", m->flags, (int)m->gttid, P.tran ? "in" : "no");
      if (text(m) != t) BAD("tpforward: data \"%s\" instead of \"%s\"", text(m).c_str(), t.c_str());
      if (P.data == 2 ? freed != std::vector<char *>{newbuf} : !freed.empty()) BAD("tpforward with %s buffer freed %zu buffers", P.data == 2 ? "another" : P.data ? "the own" : "no", freed.size());
      if (ends && ended != "end success") BAD("tpforward: branch ended with %s", ended.c_str());
    } else {
      if (f.size()) BAD("tpforward to %s sent a request", P.fwd.c_str());
      int left = P.nfail - (P.fwd == "TARGET" ? 1 : 0);
      if (r.size() != (want && left < 2 ? 1 : 0)) BAD("failed tpforward to %s (%d failures): %zu replies", P.fwd.c_str(), P.nfail, r.size());
      for (auto s : r) if (s->m->rval != TPESVCERR || s->q != P.replyq || s->m->cd != P.cd) BAD("failed tpforward: reply says %d in queue %d cd %d", s->m->rval, s->q, s->m->cd);
    }
  }
  active = false;
}

static bool threadphase;
static std::atomic<int> inside;
static std::map<int, int> answers;
static thread_local int mycd;
namespace fux::ipc {
bool qsend(int q, msg &m, long timeout, enum flags fl) {
  if (threadphase) { std::lock_guard<std::mutex> g(mu); answers[m->cd]++; return true; }
  if (fl != notime) BAD("a message is sent with a time limit");
  if (active && tries++ < P.nfail) throw std::system_error(EIDRM, std::system_category(), "simulated");
  sent.push_back({q, m, ev.size()});
  return true;
}
static void make(msg &m, const Plan &p) {
  m = msg();
  if (p.svc == ".stop") {
    auto b = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 1024);
    long srv = p.kind == 2 ? 1 : rnd(2) ? 1 : 2, grp = p.kind == 2 ? 10 : srv == 1 ? 20 : 10 + rnd(2) * 10;
    Fchg32(b, TA_SRVID, 0, (char *)&srv, 0);
    Fchg32(b, TA_GRPNO, 0, (char *)&grp, 0);
    H(" stop(server %ld group %ld)", srv, grp);
    m.set_data((char *)b, 0);
    real_tpfree((char *)b);
  } else if (p.len >= 0) {
    auto b = tpalloc((char *)"STRING", nullptr, 64);
    snprintf(b, 64, "%s", p.text.c_str());
    m.set_data(b, 0);
    real_tpfree(b);
  }
  strcpy(m->servicename, p.svc.c_str());
  m->cat = application; m->mtype = p.mtype; m->cd = p.cd; m->replyq = p.replyq; m->flags = p.tran ? TPTRAN : 0; m->gttid = p.gttid; m->rval = 12345; m->rcode = 54321;
}
static bool last;
void qrecv(int q, msg &m, long type, int flags) {
  if (threadphase) {
    if (++inside > 1) BAD("two threads receive at the same time");
    usleep(rnd(300));
    Plan p = {};
    { std::lock_guard<std::mutex> g(mu); p.cd = ++nreq; }
    p.replyq = 1; p.mtype = 50; p.text = "x";
    p.svc = p.cd > 60 ? ".stop" : p.cd % 5 ? "SVC" : "NONE";
    p.kind = 2;
    make(m, p);
    --inside;
    return;
  }
  check();
  for (size_t i = 0; i < M->transactions().len; i++) M->transactions().end(i);
  if (q != requestq || flags != 0) BAD("receives from queue %d", q);
  if (last) BAD("receives another request after the request to stop");
  step++;
  if (step % 8 == 0 ? type != 0 : type >= 0) BAD("request %d is taken by type %ld", step, type);
  P = Plan();
  P.kind = step > 40 ? 2 : rnd(12) == 0 ? 1 : 0;
  static const char *names[] = {"SVC", "SVC", "OTHER", "NONE", "SV"};
  P.svc = P.kind ? ".stop" : names[rnd(5)];
  P.cd = 1 + rnd(1000); P.replyq = rnd(4) ? REPLYQ : -1; P.mtype = 2 + rnd(100); P.text = "t" + std::to_string(rnd(100000)); P.len = rnd(8) ? 0 : -1;
  static const int acts[] = {RETURN, RETURN, FORWARD, FORWARD, PLAIN};
  P.act = acts[rnd(5)];
  static const int rvals[] = {TPSUCCESS, TPSUCCESS, TPFAIL, TPEXIT, 99};
  P.rval = rvals[rnd(5)];
  P.data = rnd(3);
  if (P.len < 0 && P.data == 1) P.data = 2;
  P.rcode = rnd(1000); P.flags = rnd(4) ? 0 : 1;
  static const char *fw[] = {"TARGET", "TARGET", "NOSUCH", "A_NAME_THAT_IS_TOO_LONG_FOR_A_SERVICE_OF_THIS_SYSTEM"};
  P.fwd = fw[rnd(4)];
  P.nfail = P.kind ? 0 : rnd(3) ? 0 : 1 + rnd(2);
  P.gttid = fux::bad_gttid;
  if (!P.kind && rnd(3) == 0) {
    P.tran = 1;
    XID x;
    memset(&x, 0, sizeof x);
    x.formatID = 1; x.gtrid_length = 8; x.bqual_length = 1;
    for (int i = 0; i < 9; i++) x.data[i] = rnd(256);
    P.gttid = M->transactions().start(x, 1);
  }
  H("\n  %s cd %d %s%s: %s rval %d data %d flags %ld to %s, %d sends fail", P.svc.c_str(), P.cd, P.replyq == -1 ? "no reply " : "", P.tran ? "in transaction " : "", P.act == RETURN ? "return" : P.act == FORWARD ? "forward" : "plain", P.rval, P.data, P.flags, P.fwd.c_str(), P.nfail);
  sent.clear(); freed.clear(); ev.clear();
  called = false; tries = 0; newbuf = nullptr;
  make(m, P);
  active = P.kind != 2;
  last = P.kind == 2;
  if (step % 8 == 0 && P.kind == 1) {}
  if (P.kind == 1) step = 0;
}
}  // namespace fux::ipc

static void run(TPSVCINFO *i, const char *name) {
  if (threadphase) { if (i->cd % 3) tpreturn(TPSUCCESS, 0, i->data, 0, 0); else if (i->cd % 2) return; tpreturn(TPFAIL, 0, nullptr, 0, 0); }
  if (called) BAD("a service is called twice");
  called = true;
  if (strcmp(i->name, name) || P.svc != name) BAD("function of %s is called with name %s for %s", name, i->name, P.svc.c_str());
  if (i->cd != P.cd || i->flags != (P.tran ? TPTRAN : 0)) BAD("service gets cd %d flags %ld", i->cd, i->flags);
  if (P.len >= 0 && P.text != i->data) BAD("service gets data \"%s\" instead of \"%s\"", i->data, P.text.c_str());
  if (fux::tx::transactional() != (P.tran != 0) || P.tran && fux::tx::gttid() != P.gttid) BAD("service runs in transaction %d", (int)fux::tx::gttid());
  ownbuf = i->data;
  newbuf = tpalloc((char *)"STRING", nullptr, 64);
  strcpy(newbuf, P.text.c_str());
  if (P.len >= 0) strcpy(i->data, P.text.c_str());
  char *d = P.data == 0 ? nullptr : P.data == 1 ? i->data : newbuf;
  if (P.data != 2) { active = false; real_tpfree(newbuf); newbuf = nullptr; active = true; }
  if (P.act == RETURN) tpreturn(P.rval, P.rcode, d, 0, P.flags);
  else if (P.act == FORWARD) tpforward((char *)P.fwd.c_str(), d, 0, 0);
  if (P.act != PLAIN) BAD("tpreturn returns");
  active = false; real_tpfree(newbuf); active = true;
}
static void SVC(TPSVCINFO *i) { run(i, "SVC"); }
static void OTHER(TPSVCINFO *i) { run(i, "OTHER"); }

// ---- advertisements
static std::set<std::string> board() {
  std::set<std::string> s;
  auto a = M->advertisements();
  for (size_t i = 0; i < a->len; i++)
    if (a.at(i).service != mib::badoff && a.at(i).server == M->find_server(1, 10)) s.insert(M->services().at(a.at(i).service).servicename);
  return s;
}
static size_t limit;
static void advertisements() {
  std::set<std::string> seen = {"TARGET", "SVC", "OTHER"};
  std::map<std::string, void (*)(TPSVCINFO *)> model;
  for (auto n : {"SVC", "OTHER"}) if (tpadvertise((char *)n, SVC) || tpunadvertise((char *)n)) BAD("%s can not be advertised and unadvertised: %d", n, tperrno);
  static const char *names[] = {"A", "B", "C", "D", "E", "a", "", nullptr};
  for (int k = 0; k < 300; k++) {
    auto n = names[rnd(8)];
    int l0 = locks;
    auto b0 = board();
    if (rnd(2)) {
      void (*f)(TPSVCINFO *) = rnd(8) ? rnd(2) ? SVC : OTHER : nullptr;
      int rc = tpadvertise((char *)n, f), e = tperrno;
      H(" advertise(%s)=%d", n ? n : "(null)", rc);
      if (!n || !*n || !f) { if (rc != -1 || e != TPEINVAL) BAD("tpadvertise with invalid arguments gives %d, %d", rc, e); }
      else if (model.count(n)) { if (model[n] == f ? rc != 0 : rc != -1 || e != TPEMATCH) BAD("tpadvertise of a known service gives %d, %d", rc, e); }
      else if (seen.count(n) || seen.size() < limit) {
        if (rc) BAD("tpadvertise of a new service gives %d, %d", rc, e);
        model[n] = f;
        seen.insert(n);
      } else if (rc != -1 || e != TPELIMIT) BAD("tpadvertise of a new service on a full board gives %d, %d", rc, e);
    } else {
      int rc = tpunadvertise((char *)n), e = tperrno;
      H(" unadvertise(%s)=%d", n ? n : "(null)", rc);
      if (!n || !*n) { if (rc != -1 || e != TPEINVAL) BAD("tpunadvertise with invalid arguments gives %d, %d", rc, e); }
      else if (model.count(n)) { if (rc) BAD("tpunadvertise gives %d, %d", rc, e); model.erase(n); }
      else if (rc != -1 || e != TPENOENT) BAD("tpunadvertise of an unknown service gives %d, %d", rc, e);
    }
    auto b = board();
    std::set<std::string> want;
    for (auto &x : model) want.insert(x.first);
    if (b != want) BAD("the board has %zu services of the server instead of %zu", b.size(), want.size());
    if (b != b0 && locks == l0) BAD("the board is changed without its lock");
  }
  for (auto &x : model) { std::string n = x.first; tpunadvertise((char *)n.c_str()); }
}
static tmdsptchtbl_t table[3];
static int phase;
static int init(int, char **) {
  tpsvrinit(0, nullptr);
  if (phase == 1) advertisements();
  hist.clear();
  return 0;
}
static int mainloop(int) { return 0; }
static void server() {
  static char *argv[] = {(char *)"-i", (char *)"srv", (char *)"-i", (char *)"1", (char *)"-g", (char *)"10", (char *)"-A", nullptr};
  argv[0] = (char *)"server"; 
  char *av[] = {(char *)"server", (char *)"-i", (char *)"1", (char *)"-g", (char *)"10", (char *)"-A", nullptr};
  tmsvrargs_t a;
  memset(&a, 0, sizeof a);
  a.xa_switch = &sw; a.tmdsptchtbl = table; a.svrinit = init; a.svrdone = tpsvrdone; a.mainloop = mainloop; a.svrthrinit = tpsvrthrinit; a.svrthrdone = tpsvrthrdone;
  int rc = _tmstartserver(6, av, &a);
  if (rc != 0) BAD("server gives %d", rc);
}
int main() {
  setenv("ULOGPFX", "ULOG", 1);
  alarm(100);
  if (tpadvertise((char *)"X", SVC) != -1 || tperrno != TPEPROTO || tpunadvertise((char *)"X") != -1 || tperrno != TPEPROTO) FAIL("a client can advertise services");
  strcpy(sw.name, "mock");
  sw.xa_open_entry = rm_open; sw.xa_close_entry = rm_close; sw.xa_start_entry = rm_start; sw.xa_end_entry = rm_end;
  sw.xa_prepare_entry = rm_x; sw.xa_commit_entry = rm_x; sw.xa_rollback_entry = rm_x;
  table[0].svcname = "SVC"; table[0].funcname = "SVC"; table[0].svcfunc = SVC;
  table[1].svcname = "OTHER"; table[1].funcname = "OTHER"; table[1].svcfunc = OTHER;
  for (int round = 0; round < 60; round++) {
    phase = round % 4 == 0;
    tuxconfig c;
    memset(&c, 0, sizeof c);
    c.maxservers = 4; c.maxservices = limit = 4 + rnd(8); c.maxqueues = 4; c.maxgroups = 3; c.maxaccessers = 8;
    M = new mib(c, fux::mib::in_heap());
    M->make_group(10, "A", "mock:a", "", "");
    M->make_group(20, "B", "mock:a", "", "");
    auto s = M->make_server(1, 10, "server", "", "q");
    auto t = M->make_server(2, 20, "target", "", "t");
    M->queues().at(M->servers().at(t).rqaddr).msqid = TARGETQ;
    requestq = 333;
    M->queues().at(M->servers().at(s).rqaddr).msqid = requestq;
    M->advertise("TARGET", M->servers().at(t).rqaddr, t);
    M->servers().at(s).mindispatchthreads = 2;
    threadphase = round % 6 == 5;
    _tmbuilt_with_thread_option = threadphase;
    hist.clear(); answers.clear();
    step = nreq = 0;
    active = fux::ipc::last = false;
    sent.clear();
    std::thread([] { try { server(); } catch (const std::exception &e) { BAD("the server dies of %s", e.what()); } }).join();
    if (!threadphase) {
      if (sent.size() > 1 || P.replyq != -1 && sent.size() != 1) BAD("request to stop: %zu replies", sent.size());
      for (auto &x : sent) if (x.q != P.replyq || x.m->cd != P.cd || x.m->rval != TPMINVAL) BAD("request to stop: reply in queue %d with cd %d and %d", x.q, x.m->cd, x.m->rval);
    } else {
      int stops = 0;
      for (int i = 1; i <= nreq; i++) {
        if (i <= 60 ? answers[i] != 1 : answers[i] > 1) FAIL("request %d of %d to a server with threads got %d replies", i, nreq, answers[i]);
        if (i > 60) stops += answers[i];
      }
      if (stops != 1) FAIL("%d replies to the requests to stop a server with threads", stops);
    }
  }
  return 0;
}
