// model based test of the tables of the bulletin board
#include <climits>
#include <set>
#include <sstream>
#include <map>
#include <optional>
#include <xatmi.h>
#include "ipc.h"
#define private public
#include "mib.h"
#undef private
#include "misc.h"
#include "trx.h"
#include "rp.h"
namespace fux::ipc {
static int nextq = 100;
static bool qfail = false;
static int created = 0;
int qcreate() { created++; if (qfail) { errno = ENOSPC; return -1; } return nextq++; }
}  // namespace fux::ipc
static std::string hist;
static void H(const char *f, ...) {
  char t[400];
  va_list a;
  va_start(a, f);
  vsnprintf(t, sizeof t, f, a);
  hist += t;
  if (hist.size() > 1800) hist.erase(0, 600);
}
template <typename F> static int attempt(F f) {
  try { f(); return 0; } catch (const std::exception &) { return -1; }
}
struct MQ { std::string rqaddr; int msqid; long cnt; int server; };
struct MG { int grpno; std::string t[4]; };
struct MS { int srvid, grpno; std::string name, clopt; size_t q; };
struct MV { std::string name; uint64_t rev; bool active; };
struct MA { size_t s, q, v; bool used; };
struct Model { std::vector<MQ> q; std::vector<MG> g; std::vector<MS> s; std::vector<MV> v; std::vector<MA> a; std::vector<int> acc; };
static void compare(mib &m, const Model &x) {
#define C(c, ...) do { if (!(c)) FAIL("%s after:%s", std::string([&] { char t[500]; snprintf(t, sizeof t, __VA_ARGS__); return std::string(t); }()).c_str(), hist.c_str()); } while (0)
  C(m.queues()->len == x.q.size(), "%zu queues instead of %zu", m.queues()->len, x.q.size());
  for (size_t i = 0; i < x.q.size(); i++) {
    auto &e = m.queues().at(i);
    C(x.q[i].rqaddr == e.rqaddr, "queue %zu is '%s' instead of '%s'", i, e.rqaddr, x.q[i].rqaddr.c_str());
    C(e.msqid == x.q[i].msqid, "queue %zu has message queue %d instead of %d", i, e.msqid, x.q[i].msqid);
    C(e.servercnt == x.q[i].cnt, "queue %zu counts %ld servers instead of %ld", i, e.servercnt, x.q[i].cnt);
    C(!x.q[i].cnt || e.server_idx == (uint16_t)x.q[i].server, "queue %zu refers to server %d instead of %d", i, e.server_idx, x.q[i].server);
  }
  C(m.groups()->len == x.g.size(), "%zu groups instead of %zu", m.groups()->len, x.g.size());
  for (size_t i = 0; i < x.g.size(); i++) {
    auto &e = m.groups().at(i);
    C(e.grpno == x.g[i].grpno && x.g[i].t[0] == e.srvgrp && x.g[i].t[1] == e.openinfo && x.g[i].t[2] == e.closeinfo && x.g[i].t[3] == e.tmsname, "group %zu is %d %s %s %s %s", i, e.grpno, e.srvgrp, e.openinfo, e.closeinfo, e.tmsname);
  }
  C(m.servers()->len == x.s.size(), "%zu servers instead of %zu", m.servers()->len, x.s.size());
  for (size_t i = 0; i < x.s.size(); i++) {
    auto &e = m.servers().at(i);
    C(e.srvid == x.s[i].srvid && e.grpno == x.s[i].grpno && x.s[i].name == e.servername && x.s[i].clopt == e.clopt, "server %zu is %d %d %s", i, e.srvid, e.grpno, e.servername);
    C(e.rqaddr == x.s[i].q, "server %zu reads queue %zu instead of %zu", i, e.rqaddr, x.s[i].q);
  }
  C(m.services()->len == x.v.size(), "%zu services instead of %zu", m.services()->len, x.v.size());
  for (size_t i = 0; i < x.v.size(); i++) {
    auto &e = m.services().at(i);
    C(x.v[i].name == e.servicename, "service %zu is '%s' instead of '%s'", i, e.servicename, x.v[i].name.c_str());
    C(e.revision == x.v[i].rev, "service %zu (%s) has revision %ld instead of %ld", i, e.servicename, (long)e.revision, (long)x.v[i].rev);
    C(e.state == (x.v[i].active ? state_t::ACTive : state_t::INActive), "service %zu (%s) has state %d", i, e.servicename, (int)e.state);
  }
  C(m.advertisements()->len == x.a.size(), "%zu advertisements instead of %zu", m.advertisements()->len, x.a.size());
  for (size_t i = 0; i < x.a.size(); i++) {
    auto &e = m.advertisements().at(i);
    if (x.a[i].used) C(e.service == x.a[i].s && e.queue == x.a[i].q && e.server == x.a[i].v && e.state == state_t::ACTive, "advertisement %zu is (%zu %zu %zu) instead of (%zu %zu %zu)", i, e.service, e.queue, e.server, x.a[i].s, x.a[i].q, x.a[i].v);
    else C(e.service == mib::badoff && e.queue == mib::badoff && e.server == mib::badoff, "advertisement %zu is not free", i);
  }
  C(m.accessers()->len == x.acc.size(), "%zu processes instead of %zu", m.accessers()->len, x.acc.size());
  for (size_t i = 0; i < x.acc.size(); i++) C(m.accessers().at(i).pid == x.acc[i], "process %zu is %d instead of %d", i, m.accessers().at(i).pid, x.acc[i]);
  C(m.transactions().size == 100, "capacity of the transactions is %zu", (size_t)m.transactions().size);
}
static std::string word(size_t max) {
  static const char *w[] = {"a", "b", "ab", "A", "", "abc", "B", "abd"};
  auto r = rnd(10);
  if (r < 7) return w[rnd(8)];
  size_t n = rnd(3) ? max - 1 - rnd(2) : max + rnd(3);
  std::string s(n, 'x');
  if (n && rnd(2)) s.back() = 'y';
  return s;
}
static void tables() {
  for (int round = 0; round < 250; round++) {
    tuxconfig c = {};
    c.maxservers = 1 + rnd(5); c.maxservices = 1 + rnd(5); c.maxqueues = 1 + rnd(5); c.maxgroups = 1 + rnd(5); c.maxaccessers = 1 + rnd(5);
    hist.clear();
    H(" (servers=%d services=%d queues=%d groups=%d accessers=%d)", c.maxservers, c.maxservices, c.maxqueues, c.maxgroups, c.maxaccessers);
    mib m(c, fux::mib::in_heap());
    Model x;
    compare(m, x);
    for (int step = 0; step < 120; step++) {
      auto fq = [&](const std::string &n) { for (size_t i = 0; i < x.q.size(); i++) if (x.q[i].rqaddr == n) return i; return mib::badoff; };
      auto fv = [&](const std::string &n) { for (size_t i = 0; i < x.v.size(); i++) if (x.v[i].name == n) return i; return mib::badoff; };
      int op = rnd(10);
      if (op == 0) {
        auto n = word(32);
        bool ok = fq(n) == mib::badoff && x.q.size() < c.maxqueues && n.size() < 32;
        size_t at = 0;
        int rc = attempt([&] { at = m.make_queue(n); });
        H(" make_queue('%s')=%d", n.c_str(), rc);
        C(rc == (ok ? 0 : -1), "make_queue: %d", rc);
        if (ok) { C(at == x.q.size(), "make_queue: position %zu", at); x.q.push_back({n, -1, 0, 0}); }
      } else if (op == 1) {
        int g = rnd(6);
        std::string t[4] = {word(30), word(256), word(256), word(256)};
        bool ok = x.g.size() < c.maxgroups && t[0].size() < 30 && t[1].size() < 256 && t[2].size() < 256 && t[3].size() < 256;
        for (auto &e : x.g) ok &= e.grpno != g;
        size_t at = 0;
        int rc = attempt([&] { at = m.make_group(g, t[0], t[1], t[2], t[3]); });
        H(" make_group(%d '%s')=%d", g, t[0].c_str(), rc);
        C(rc == (ok ? 0 : -1), "make_group: %d", rc);
        if (ok) { C(at == x.g.size(), "make_group: position %zu", at); x.g.push_back({g, {t[0], t[1], t[2], t[3]}}); }
      } else if (op == 2 || op == 3) {
        int s = rnd(4), g = rnd(3);
        auto n = word(128), cl = word(1024), rq = word(32);
        bool dup = false;
        for (auto &e : x.s) dup |= e.srvid == s && e.grpno == g;
        auto q = fq(rq);
        bool ok = !dup && x.s.size() < c.maxservers && n.size() < 128 && cl.size() < 1024 && (q != mib::badoff || (x.q.size() < c.maxqueues && rq.size() < 32));
        size_t at = 0;
        int rc = attempt([&] { at = m.make_server(s, g, n, cl, rq); });
        H(" make_server(%d %d '%s')=%d", s, g, rq.c_str(), rc);
        C(rc == (ok ? 0 : -1), "make_server: %d", rc);
        if (ok) {
          C(at == x.s.size(), "make_server: position %zu", at);
          if (q == mib::badoff) { q = x.q.size(); x.q.push_back({rq, -1, 0, 0}); }
          x.q[q].cnt++;
          x.q[q].server = x.s.size();
          x.s.push_back({s, g, n, cl, q});
        }
      } else if (op == 4) {
        auto n = word(XATMI_SERVICE_NAME_LENGTH);
        bool ok = fv(n) == mib::badoff && x.v.size() < c.maxservices && n.size() < XATMI_SERVICE_NAME_LENGTH;
        size_t at = 0;
        int rc = attempt([&] { at = m.make_service(n); });
        H(" make_service('%s')=%d", n.c_str(), rc);
        C(rc == (ok ? 0 : -1), "make_service: %d", rc);
        if (ok) { C(at == x.v.size(), "make_service: position %zu", at); x.v.push_back({n, 0, false}); }
      } else if (op == 5 || op == 6) {
        if (x.q.empty() || x.s.empty()) continue;
        auto n = word(XATMI_SERVICE_NAME_LENGTH);
        size_t q = rnd(x.q.size()), s = rnd(x.s.size());
        auto v = fv(n);
        size_t fr = x.a.size();
        bool dup = false;
        for (size_t i = 0; i < x.a.size(); i++) {
          dup |= x.a[i].used && x.a[i].s == v && x.a[i].q == q && x.a[i].v == s;
          if (!x.a[i].used && fr == x.a.size()) fr = i;
        }
        bool mk = v != mib::badoff || (x.v.size() < c.maxservices && n.size() < XATMI_SERVICE_NAME_LENGTH);
        bool ok = !dup && mk && fr < (size_t)c.maxservers * c.maxservices;
        int rc = attempt([&] { m.advertise(n, q, s); });
        H(" advertise('%s' %zu %zu)=%d", n.c_str(), q, s, rc);
        C(rc == (ok ? 0 : -1), "advertise: %d", rc);
        if (mk && v == mib::badoff && (ok || m.services()->len > x.v.size())) { v = x.v.size(); x.v.push_back({n, 0, false}); }
        if (ok) {
          if (fr == x.a.size()) x.a.push_back({});
          x.a[fr] = {v, q, s, true};
          x.v[v].rev++;
          x.v[v].active = true;
          for (size_t i = 0; i < m.advertisements()->len; i++) {   // any free entry will do
            auto &e = m.advertisements().at(i);
            if (i != fr && i < x.a.size() && !x.a[i].used && e.service == v && e.queue == q && e.server == s) std::swap(x.a[i], x.a[fr]);
          }
        }
      } else if (op == 7) {
        if (x.a.empty()) continue;
        auto e = x.a[rnd(x.a.size())];
        std::string n = e.used && rnd(4) ? x.v[e.s].name : word(XATMI_SERVICE_NAME_LENGTH);
        size_t q = e.used && rnd(4) ? e.q : rnd(x.q.size()), s = e.used && rnd(4) ? e.v : rnd(x.s.size()), at = mib::badoff;
        auto v = fv(n);
        for (size_t i = 0; i < x.a.size(); i++) if (x.a[i].used && x.a[i].s == v && x.a[i].q == q && x.a[i].v == s) at = i;
        int rc = attempt([&] { m.unadvertise(n, q, s); });
        H(" unadvertise('%s' %zu %zu)=%d", n.c_str(), q, s, rc);
        C(rc == (at != mib::badoff ? 0 : -1), "unadvertise: %d", rc);
        if (!rc) { x.a[at].used = false; x.v[v].rev++; }
      } else if (op == 8) {
        if (x.acc.size() && rnd(2)) {
          auto i = rnd(x.acc.size());
          m.accessers().at(i).invalidate();
          x.acc[i] = 0;
          H(" process %zu ends", (size_t)i);
          continue;
        }
        int pid = 1000 + step;
        bool ok = x.acc.size() < c.maxaccessers;
        for (int p : x.acc) ok |= p == 0;
        size_t at = 0;
        int rc = attempt([&] { at = m.make_accesser(pid); });
        H(" make_accesser(%d)=%d", pid, rc);
        C(rc == (ok ? 0 : -1), "make_accesser: %d", rc);
        if (ok) {
          C(at <= x.acc.size() && (at == x.acc.size() || x.acc[at] == 0), "make_accesser: entry %zu of another process", at);
          if (at == x.acc.size()) x.acc.push_back(0);
          x.acc[at] = pid;
          C(m.accessers().at(at).rpid_timeout == INVALID_TIME, "make_accesser: time limit pending");
        }
      } else {
        if (x.s.empty()) continue;
        size_t s = rnd(x.s.size());
        fux::ipc::qfail = rnd(3) == 0;
        fux::ipc::created = 0;
        int q = -1, rc = attempt([&] { q = m.make_service_rqaddr(s); });
        auto &e = x.q[x.s[s].q];
        H(" make_service_rqaddr(%zu)=%d", s, rc ? -1 : q);
        C(fux::ipc::created == (e.msqid == -1), "%d message queues created", fux::ipc::created);
        C(rc == (e.msqid == -1 && fux::ipc::qfail ? -1 : 0), "make_service_rqaddr: %d", rc);
        if (!rc) {
          C(e.msqid == -1 ? q == fux::ipc::nextq - 1 : q == e.msqid, "make_service_rqaddr: queue %d", q);
          e.msqid = q;
        }
      }
      compare(m, x);
      for (int k = 0; k < 3; k++) {
        auto n = word(32);
        C(m.find_queue(n) == fq(n), "find_queue('%s')=%zu", n.c_str(), m.find_queue(n));
        C(m.find_service(n) == fv(n) && m.find_service(n.c_str()) == fv(n), "find_service('%s')=%zu", n.c_str(), m.find_service(n));
        int g = rnd(6), s = rnd(4);
        size_t gi = mib::badoff, si = mib::badoff, ni = mib::badoff;
        for (size_t i = x.g.size(); i-- > 0;) { if (x.g[i].grpno == g) gi = i; if (x.g[i].t[0] == n) ni = i; }
        for (size_t i = 0; i < x.s.size(); i++) if (x.s[i].srvid == s && x.s[i].grpno == g) si = i;
        C(m.find_group(g) == gi, "find_group(%d)=%zu", g, m.find_group(g));
        auto r = m.group_index(n);
        C(ni == mib::badoff ? r == ni : r < x.g.size() && x.g[r].t[0] == n, "group_index('%s')=%zu", n.c_str(), r);
        C(m.find_server(s, g) == si, "find_server(%d %d)=%zu", s, g, m.find_server(s, g));
      }
    }
    free(m.mem_);
  }
}
static void layout() {
  for (int i = 0; i < 300; i++) {
    tuxconfig c = {};
    auto v = [&] { auto r = rnd(4); return (uint16_t)(r == 0 ? rnd(3) : r == 1 ? 65535 - rnd(3) : r == 2 ? 32760 + rnd(20) : rnd(2000)); };
    c.maxservers = v(); c.maxservices = v(); c.maxqueues = v(); c.maxgroups = v(); c.maxaccessers = v();
    size_t need = (size_t)c.maxservers * sizeof(server) + c.maxqueues * sizeof(queue) + c.maxservices * sizeof(service) + (size_t)c.maxservers * c.maxservices * sizeof(advertisement) +
                  c.maxgroups * sizeof(group) + c.maxaccessers * sizeof(accesser) + transaction_table::needed(100, c.maxgroups) + sizeof(mibmem);
    if (need > 1ull << 26 && i % 6) continue;
    size_t got = mib::needed(c);
    if (got < need || got > need + 2048) FAIL("needed(servers=%d services=%d queues=%d groups=%d accessers=%d) is %zu, tables take %zu", c.maxservers, c.maxservices, c.maxqueues, c.maxgroups, c.maxaccessers, got, need);
    if (need > 1ull << 27) continue;
    mib m(c, fux::mib::in_heap());
    std::map<char *, std::pair<char *, const char *>> area;
    char *b = reinterpret_cast<char *>(m.mem_);
    auto add = [&](const char *n, void *p, size_t sz) {
      char *s = (char *)p, *e = s + sz;
      if (s < b + sizeof(mibmem) || e > b + got) FAIL("%s lie at %ld..%ld of %zu bytes (servers=%d services=%d queues=%d groups=%d accessers=%d)", n, (long)(s - b), (long)(e - b), got, c.maxservers, c.maxservices, c.maxqueues, c.maxgroups, c.maxaccessers);
      if ((uintptr_t)s & 7) FAIL("%s are not aligned", n);
      if (!sz) return;
      for (auto &a : area) if (s < a.second.first && a.first < e) FAIL("%s overlap %s (servers=%d services=%d queues=%d groups=%d accessers=%d)", n, a.second.second, c.maxservers, c.maxservices, c.maxqueues, c.maxgroups, c.maxaccessers);
      area[s] = {e, n};
    };
#define A(t, n) if (m.t()->size != (n)) FAIL("capacity of " #t " is %zu instead of %zu", m.t()->size, (size_t)(n)); add(#t, &m.t()[0], sizeof(m.t()[0]) * (size_t)(n))
    A(servers, c.maxservers);
    A(queues, c.maxqueues);
    A(services, c.maxservices);
    A(groups, c.maxgroups);
    A(accessers, c.maxaccessers);
    A(advertisements, (size_t)c.maxservers * c.maxservices);
    add("transactions", &m.transactions(), transaction_table::needed(100, c.maxgroups));
    free(m.mem_);
  }
}
static void ids() {
  tuxconfig c = {};
  c.maxservers = c.maxservices = c.maxqueues = c.maxgroups = c.maxaccessers = 1;
  mib m(c, fux::mib::in_heap());
  static const uint32_t starts[] = {0, 1, 0xfffff0, 0xfffffff0, 0x7ffffff0, 0xffff, 0x7fffff};
  for (uint32_t host : {0u, 1u, 1023u, 1024u, 0xffffffffu})
    for (auto s : starts) {
      std::set<uint64_t> seen;
      m.mem_->host = host;
      m.mem_->counter = s;
      for (int i = 0; i < 70000; i++) {
        auto id = m.genuid();
        if (!id) FAIL("identifier 0 (host %u, counter from %x)", host, s);
        if (id >> 54 != (host & 1023)) FAIL("identifier %llx of host %u", (unsigned long long)id, host);
        if (!seen.insert(id).second) FAIL("identifier %llx is given out twice (host %u, counter from %x, %d. call)", (unsigned long long)id, host, s, i + 1);
      }
    }
  free(m.mem_);
}
int main() {
  layout();
  tables();
  ids();
  return 0;
}
