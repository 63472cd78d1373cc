From 60ad160de080888570aaa3ace6e33f393d12e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 01/56] fix: Fbfr32::erase reads the type of the erased field
 before moving memory

Deleting the last field of a type shifted the offsets of the wrong type
because fieldid was read after memmove had overwritten it.
---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..3de1347 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,10 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From 5ba8689c837a990f84759d2ff5b945d1349185a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 02/56] fix: Fjoin32 looped forever deleting renumbered
 occurrences

With two or more occurrences missing from the source the second delete used
an occurrence number that no longer existed.
---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3de1347..8b8c64e 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -603,7 +603,8 @@ struct Fbfr32 {
       if (src->pres(it->fieldid, oc)) {
         return 0;
       } else {
-        del(it->fieldid, oc);
+        // by position: occurrences are renumbered by every delete
+        erase(it, next_(it));
         return 1;
       }
     });
-- 
2.43.0


From 2fcec9ba1728b7718df6b09f5dde0eeb9468ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/56] fix: default value of a missing FLD_FML32 occurrence
 was read out of bounds

---
 src/fbfr32.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8b8c64e..148d349 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value for all types including an (aligned) empty fielded buffer
+alignas(8) static char zeros[64] = {0x0};
 
 struct fieldhead {
   FLDID32 fieldid;
-- 
2.43.0


From 4ef4b82c26894bbd58798c512c70c3eb1448cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/56] fix: Fmkfldid32 accepted numbers that overflow into the
 field type

---
 src/fbfr32fld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..5ecfd71 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
-- 
2.43.0


From 8bd410e673305d00f36712e8363d89eddbb1ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/56] fix: Fchg32 ignored lack of space while adding missing
 occurrences

The value was then stored under a lower occurrence than requested.
---
 src/fbfr32.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 148d349..578c440 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -169,7 +169,9 @@ struct Fbfr32 {
 
     // Fill missing occurances with default values
     for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
+      if (chg(fieldid, o, zeros, 0) == -1) {
+        return -1;
+      }
     }
 
     auto type = Fldtype32(fieldid);
-- 
2.43.0


From 92953af250b919785f4e7c1c8f3220b44be1a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 06/56] fix: Fneeded32 did not account for padding of field
 values

Falloc32(1, 3) returned a buffer that could not hold a 3 byte carray.
---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 578c440..c45a585 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -89,7 +89,8 @@ struct Fbfr32 {
 
  public:
   static constexpr long needed(FLDOCC32 F, FLDLEN32 V) {
-    return F * (sizeof(FLDID32) + sizeof(uint32_t) + V) + sizeof(Fbfr32);
+    return F * (sizeof(FLDID32) + sizeof(uint32_t) + fieldn::size(V)) +
+           sizeof(Fbfr32);
   }
 
   int init(FLDLEN32 buflen) {
-- 
2.43.0


From 3e5caaa53cd0c225f37bbb302554e0ea2ffa2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 07/56] fix: Fread32 left a corrupt buffer after a short read

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index c45a585..d57bdab 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -150,6 +150,8 @@ struct Fbfr32 {
     len_ = len;
     auto n = used() - sizeof(size_) - sizeof(len_);
     if (fread(reinterpret_cast<char *>(&len_) + sizeof(len_), 1, n, iop) != n) {
+      // do not leave a partial buffer behind
+      init(size());
       FERROR(FEUNIX, "");
       return -1;
     }
-- 
2.43.0


From be49a5a646c9924c0d0829406550dfd6e4790292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 08/56] fix: tprealloc did not record the new buffer size

tpimport then used the old size for the reallocated buffer.
---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..67fa4f8 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -109,6 +109,7 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 122210484536e227201e462ebf022ab804bb8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/56] fix: size of a whole buffer without used-size hook was
 too small

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 67fa4f8..72777dd 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -274,7 +274,7 @@ long bufsize(char *ptr, long used) {
   } else if (used != -1) {
     return used + sizeof(*mem) - offsetof(tpmem, type);
   } else {
-    return mem->size - offsetof(tpmem, type);
+    return mem->size + sizeof(*mem) - offsetof(tpmem, type);
   }
 }
 
-- 
2.43.0


From 74e01bd23662e2d1fc7cb365f0aef61fc1734c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 10/56] fix: transaction table was placed past the end of the
 shared memory

transactions_off is relative to mibmem::data, not to mibmem.
---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..d8e2bce 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -122,7 +122,7 @@ void mib::init_memory() {
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
 
-  mem_->transactions_off = off;
+  mem_->transactions_off = off - offsetof(mibmem, data);
   transactions().init(100, cfg_.maxgroups);
 
   off += nearest64(transaction_table::needed(transactions().size,
-- 
2.43.0


From c4db720644f62d45637aba7cdd10c512082fc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 11/56] fix: make_accesser grew the table even when there was
 no room

---
 src/mib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index d8e2bce..43f3d1b 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -313,11 +313,14 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
   accesser.rpid_timeout = INVALID_TIME;
   accesser.pid = pid;
+  if (size_t(at) == accessers()->len) {
+    accessers()->len++;
+  }
   return at;
 }
 
-- 
2.43.0


From d4208ed57827d8b833b85d7a6df5cde910ab843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 12/56] fix: checked_copy of std::string left the destination
 unterminated

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..d55ac9a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 4a0352b25a9ea318869e7ca7029dea688104a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 13/56] fix: long literals overflowed the compiled boolean
 expression

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From 3a4d9c63aa7f8b86839cfe9be73b241115e90fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 14/56] fix: userlog overflowed its buffer on messages longer
 than BUFSIZ

---
 src/userlog.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..c525d7f 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -66,10 +66,15 @@ int userlog(const char *fmt, ...) {
                  getpid());
   }
 
+  // both snprintf and vsnprintf return the untruncated length
+  constexpr ssize_t max = sizeof(buf) - 2;
+  n = std::min(std::max(n, ssize_t(0)), max);
+
   va_list ap;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  n += std::max(vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap), 0);
   va_end(ap);
+  n = std::min(n, max);
   buf[n++] = '\n';
   buf[n] = 0;
   fwrite(buf, n, 1, fout);
-- 
2.43.0


From 952c0058a825e8c0ac26e132fe3d7f2832385f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 15/56] fix: adding a server grew the table even when there was
 no room

---
 src/tpadmcall.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..723293d 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -91,9 +91,12 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
       throw std::logic_error("Server already exists");
     }
   } else {
-    server_idx = m.servers()->len++;
+    server_idx = m.servers()->len;
   }
   auto &server = m.servers().at(server_idx);
+  if (server_idx == m.servers()->len) {
+    m.servers()->len++;
+  }
 
   server.rqaddr_idx = m.find_queue(rqaddr);
   if (server.rqaddr_idx == mib::badoff) {
-- 
2.43.0


From 30b68725da090365ea0db95cd07135e122391588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 16/56] fix: tx_begin in the wrong state or failing corrupted
 the transaction context

A table entry was allocated (and never released) and the gttid of the
active transaction was overwritten.
---
 src/tx.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..c579b71 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -163,10 +163,19 @@ int tx_begin() {
     // return TX_OK;
   }
 
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
   getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-  return _tx_start(&info);
+  auto rc = _tx_start(&info);
+  if (rc != TX_OK) {
+    getmib().transactions().end(getctxt().gttid);
+    getctxt().notrx();
+  }
+  return rc;
 }
 
 static bool tx_set1(int rc) {
-- 
2.43.0


From dfe066e4a64e854bea4f118eec1b77e66d821ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 17/56] fix: completed transactions were never released and
 chained twice

In chained mode the next transaction was started before completing the
current one and one more time afterwards.  Rollback decided by tx_commit
was reported as TX_FAIL.
---
 src/tx.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index c579b71..69ee338 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -234,12 +234,14 @@ static std::vector<branch> collect(XID *xid) {
 }
 
 int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   TXINFO info;
-  auto rc = _tx_end(&info);
+  auto rc = _tx_end(&info, TMSUCCESS);
   if (rc != TX_OK) {
     return rc;
   }
+  auto gttid = getmib().transactions().find(info.xid);
 
   std::vector<branch> branches1 = collect(&info.xid);
 
@@ -266,23 +268,27 @@ int tx_commit() {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
+    getmib().transactions().end(gttid);
     return change_state(TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    getmib().transactions().end(gttid);
+    return change_state(TX_ROLLBACK);
   }
 }
 
 int tx_rollback() {
   TXINFO info;
-  auto rc = _tx_end(&info);
+  auto rc = _tx_end(&info, TMSUCCESS);
   if (rc != TX_OK) {
     return rc;
   }
+  auto gttid = getmib().transactions().find(info.xid);
 
   std::vector<branch> branches = collect(&info.xid);
 
   command(branches, &info.xid, fux::tm::rollback);
+  getmib().transactions().end(gttid);
 
   return change_state(TX_OK);
 }
-- 
2.43.0


From 3e501d152dcd59441ff5d7197bf9f5a44e693955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 18/56] fix: failed calls to TM were taken for the result of
 another branch

---
 src/tx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 69ee338..e5caa5c 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -482,7 +482,7 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
       p.result = TMER_TMERR;
-      break;
+      continue;
     }
     pending++;
   }
@@ -495,7 +495,7 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
 
     for (auto &p : branches) {
       if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
+        p.result = rc == -1 ? TMER_TMERR : buf.get<long>(TA_XARET, 0);
         pending--;
       }
     }
-- 
2.43.0


From c15f81808f22e88a2838070b7aa8bc08398b5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 19/56] fix: successful services marked their transaction
 branch as failed

rval is already mapped from TPSUCCESS to TPMINVAL at this point.
---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..284cf3c 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -261,7 +261,7 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      fux::tx_end(rval == TPMINVAL);
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
-- 
2.43.0


From 575894a450e20f6450f16dd0d0b038439e52ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 20/56] fix: gttid was lost when joining or resuming a
 transaction

Requests sent afterwards carried an invalid gttid.
---
 src/tx.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index e5caa5c..ceb77af 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -392,7 +392,17 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK && info != nullptr) {
+    try {
+      getctxt().gttid = getmib().transactions().find(info->xid);
+    } catch (const std::out_of_range &) {
+      // Transaction is not managed by us
+    }
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
@@ -404,7 +414,9 @@ void tx_join(fux::gttid gttid) {
   auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
   TXINFO info;
   info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+  if (_tx_start(&info, TMJOIN) == TX_OK) {
+    getctxt().gttid = gttid;
+  }
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From b332ed4f25d6e7d321e65d4d0eafe97a3acbb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 21/56] fix: large messages lost their category and leaked
 temporary files

---
 src/ipc.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..75d64ce 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,12 +193,18 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-    if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+    try {
+      if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+        unlink(tmpname);
+        return false;
+      }
+    } catch (...) {
       unlink(tmpname);
-      return false;
+      throw;
     }
     return true;
   } else {
-- 
2.43.0


From 3372980d9e4cb98ea6939bc58659e63f7509cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 22/56] fix: receive buffer was too small for the longest
 accepted message

The size passed to msgrcv does not include mtype.
---
 src/ipc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 75d64ce..0f4fbb6 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -218,7 +218,8 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   data.resize(MAX_QUEUE_MSG_SIZE);
 
   // MSGMAX
-  ssize_t n = msgrcv(msqid, data.buf(), MAX_QUEUE_MSG_SIZE, msgtype, flags);
+  ssize_t n = msgrcv(msqid, data.buf(), MAX_QUEUE_MSG_SIZE - sizeof(long),
+                     msgtype, flags);
   if (n == -1) {
     throw std::system_error(errno, std::system_category());
   }
-- 
2.43.0


From d0f903e1f3b10f5654b50c1ef06c6767abd9d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 23/56] fix: tpgetrply dereferenced null data

---
 src/client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..00ff51e 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -115,6 +115,7 @@ class client {
   int tpgetrply(int *cd, char **data, long *len, long flags) {
     if (data == nullptr) {
       TPERROR(TPEINVAL, "data is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From 400cd47c3b949e9d91ad097595681c249b5122e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 24/56] fix: wrapped around call descriptor replaced an
 outstanding call

---
 src/resp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resp.h b/src/resp.h
index baa6759..ce83105 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -36,9 +36,9 @@ class responses {
       return -1;
     }
     auto cd = nextseq();
-    if (calls_.find(cd) != calls_.end()) {
-      // If cd wrapped around and cd has still no response
-      // assume it will never come
+    while (calls_.find(cd) != calls_.end()) {
+      // cd wrapped around and it is still outstanding
+      cd = nextseq();
     }
     calls_[cd] = response{flags::none, {}};
     return cd;
-- 
2.43.0


From 26731493ecea5e40cc30a02703c58cf9a96b02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 25/56] fix: reply to a cancelled call was returned or
 resurrected its descriptor

---
 src/client.cpp | 5 +++++
 src/resp.h     | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 00ff51e..57eeea2 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -161,6 +161,11 @@ class client {
         return -1;
       }
 
+      // Response to a cancelled call
+      if (!cds.is_allocated(res->cd)) {
+        continue;
+      }
+
       // Did not receive the correct response, try again
       if (!(flags & TPGETANY)) {
         if (*cd != res->cd) {
diff --git a/src/resp.h b/src/resp.h
index ce83105..78e0cbf 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -44,6 +44,8 @@ class responses {
     return cd;
   }
 
+  bool is_allocated(int cd) { return calls_.find(cd) != calls_.end(); }
+
   int check(int cd) {
     auto it = calls_.find(cd);
     if (it == calls_.end()) {
-- 
2.43.0


From 7eb1c3ecd79e3ffdee3d0cf3ecfd77c1091dcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 26/56] fix: call descriptor was leaked when sending the
 request failed

---
 src/client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 57eeea2..70f08d6 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -95,9 +95,16 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
-      fux::atmi::reset_tperrno();
-      return rq->cd;
+    try {
+      if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+        fux::atmi::reset_tperrno();
+        return rq->cd;
+      }
+    } catch (...) {
+      if (rq->cd != 0) {
+        cds.release(rq->cd);
+      }
+      throw;
     }
 
     if (flags & TPNOBLOCK) {
-- 
2.43.0


From 77359d0a77d7c12717b8a356c37e90a761d9c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 27/56] fix: large tpsblktime values in seconds overflowed int

---
 src/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 70f08d6..de99a9b 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -213,7 +213,7 @@ class client {
     long timeout;
 
     if (units == TPBLK_SECOND) {
-      timeout = blktime * 1000;
+      timeout = blktime * 1000L;
     } else if (units == TPBLK_MILLISECOND) {
       timeout = blktime;
     } else {
-- 
2.43.0


From 899475eacf3d8fff1a168c04a81e08abc2d97a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 28/56] fix: length of received data included type and subtype
 of the buffer

---
 src/client.cpp | 2 +-
 src/mem.cpp    | 6 ++++++
 src/misc.h     | 1 +
 src/server.cpp | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index de99a9b..6eb3176 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -186,7 +186,7 @@ class client {
       *cd = res->cd;
       cds.release(*cd);
       if (len != nullptr) {
-        *len = res.size_data();
+        *len = fux::mem::datasize(res.size_data());
       }
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
diff --git a/src/mem.cpp b/src/mem.cpp
index 72777dd..8ab3c64 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -278,6 +278,12 @@ long bufsize(char *ptr, long used) {
   }
 }
 
+// Length of data in exported buffer of given size
+long datasize(long bufsize) {
+  constexpr long header = sizeof(tpmem) - offsetof(tpmem, type);
+  return bufsize > header ? bufsize - header : 0;
+}
+
 }  // namespace fux::mem
 
 char *tpalloc(char *type, char *subtype, long size) {
diff --git a/src/misc.h b/src/misc.h
index d55ac9a..07e7fa0 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -142,6 +142,7 @@ namespace fux {
 namespace mem {
 void setowner(char *ptr, char **owner);
 long bufsize(char *ptr, long used = -1);
+long datasize(long bufsize);
 }  // namespace mem
 }  // namespace fux
 
diff --git a/src/server.cpp b/src/server.cpp
index 284cf3c..91301f0 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -313,7 +313,7 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
+    tpsvcinfo.len = fux::mem::datasize(thread_ptr->req.size_data());
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 52c7f90af9b52a8a76c75db5e9df42533adb0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 29/56] fix: data was read past the end of messages sent
 without data

---
 src/ipc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 0f4fbb6..54e4012 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -253,6 +253,10 @@ void msg::set_data(char *data, long len) {
 }
 
 void msg::get_data(char **data) {
+  if (size_data() == 0) {
+    // Sent without data
+    return;
+  }
   if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
-- 
2.43.0


From 1c1a793fc9c1408124993c5a8d8a9066e3aca309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 30/56] fix: starting a transaction for an invalid group leaked
 the table entry

---
 src/trx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..e9f3a9c 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -142,6 +142,9 @@ struct transaction_table {
   }
 
   fux::gttid start(const XID &xid, uint16_t group) {
+    if (group >= max_groups) {
+      throw std::out_of_range("group out of range");
+    }
     for (size_t i = 0; i < len; i++) {
       if ((*this)[i].xid.formatID == -1) {
         return init(i, xid, group);
-- 
2.43.0


From 7b5d0eb13930b3f6694084b84bab83720356fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 31/56] fix: base64decode accepted data after the padding

---
 src/base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..8d48730 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -109,6 +109,8 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
         outc++;
         err |= c3 = decoding[ibytes[ipos++]];
       }
+    } else if (ibytes[ipos + 1] != '=') {
+      err |= 128;
     }
 
     uint32_t n = (c0 << 18 | c1 << 12 | c2 << 6 | c3);
-- 
2.43.0


From 6e4282fb20682929d4fd898694275f7bfc58510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 32/56] fix: tx_begin let an exception escape when the
 transaction table is full

---
 src/tx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index ceb77af..b50626b 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -169,7 +169,12 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  try {
+    getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  } catch (const std::out_of_range &e) {
+    userlog("Can't start transaction: %s", e.what());
+    return TX_ERROR;
+  }
   auto rc = _tx_start(&info);
   if (rc != TX_OK) {
     getmib().transactions().end(getctxt().gttid);
-- 
2.43.0


From 9f2e5818d4b2c32c1d9bc1a171cdd9ff3505d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 33/56] fix: transaction characteristics were uninitialised or
 stale after tx_open

---
 src/tx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index b50626b..45e154a 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -66,7 +66,7 @@ struct tx_context {
   }
   tx_state state;
   group *grpcfg = nullptr;
-  TXINFO info;
+  TXINFO info = {};
   fux::gttid gttid;
   mib &mibcon_;
 };
@@ -105,6 +105,7 @@ int tx_open() {
   auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
+      getctxt().info = {};
       getctxt().notrx();
       getctxt().state = tx_state::s1;
     }
-- 
2.43.0


From c8a000e7f653b1801e4bf3004f61aac2bcbf81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 34/56] fix: commit consumed replies to calls of the
 application

---
 src/tx.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 45e154a..d29fa69 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -484,7 +484,6 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
   fux::fml32buf buf;
-  int pending = 0;
 
   for (auto &p : branches) {
     buf.put(TA_XAFUNC, 0, command);
@@ -499,23 +498,24 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      continue;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  // Other outstanding calls belong to the application
+  for (auto &p : branches) {
+    p.result = TMER_TMERR;
+    if (p.cd == -1) {
+      continue;
+    }
+    int cd = p.cd;
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = rc == -1 ? TMER_TMERR : buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    int rc;
+    do {
+      rc = tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
+                     TPNOTIME);
+    } while (rc == -1 && tperrno == TPETIME);
+    if (rc != -1) {
+      p.result = buf.get<long>(TA_XARET, 0);
     }
   }
 }
-- 
2.43.0


From 64374ea9176b92a69a1bd1b1d2bc8edacf6c19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 35/56] fix: outcome of a chained transaction was replaced by
 the result of starting the next one

---
 src/tx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index d29fa69..93694a6 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -202,7 +202,9 @@ static int change_state(int rc) {
     } else if (getctxt().state == tx_state::s4) {
       // Chained
       getctxt().state = tx_state::s2;
-      return tx_begin();
+      if (tx_begin() != TX_OK) {
+        return rc + TX_NO_BEGIN;
+      }
     }
   } else if (tx_set2(rc)) {
     if (getctxt().state == tx_state::s4) {
-- 
2.43.0


From a3b37fc66cf195be93f9276bdfdf1bfd39f23433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 36/56] fix: failed tpresume was reported as being in a
 transaction

---
 src/tx.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 93694a6..4f5bf75 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -170,15 +170,17 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
+  fux::gttid gttid;
   try {
-    getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+    gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+    getctxt().gttid = gttid;
   } catch (const std::out_of_range &e) {
     userlog("Can't start transaction: %s", e.what());
     return TX_ERROR;
   }
   auto rc = _tx_start(&info);
   if (rc != TX_OK) {
-    getmib().transactions().end(getctxt().gttid);
+    getmib().transactions().end(gttid);
     getctxt().notrx();
   }
   return rc;
@@ -383,6 +385,10 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_OK;
   }
 
+  if (info != nullptr) {
+    getctxt().notrx();
+  }
+
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
   } else if (xarc == XAER_DUPID) {
-- 
2.43.0


From 5ba9abb02ff36f9dfcc98c9a1a85843e56e1a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 37/56] fix: tx_open and tx_close of a client without a group
 or without open information read invalid memory

---
 src/tx.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 4f5bf75..2221282 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -92,17 +92,20 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
-  char *info = getctxt().grpcfg->openinfo;
-  auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  char none[] = "";
+  auto grpcfg = getctxt().grpcfg;
+  char *info = grpcfg != nullptr ? grpcfg->openinfo : none;
+  if (strlen(info) > 0) {
+    auto len = strlen(xasw->name);
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().info = {};
@@ -120,8 +123,11 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
-  auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
-                                   TMNOFLAGS);
+  char none[] = "";
+  auto grpcfg = getctxt().grpcfg;
+  auto xarc =
+      xasw->xa_close_entry(grpcfg != nullptr ? grpcfg->closeinfo : none,
+                           fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     getctxt().state = tx_state::s0;
     return TX_OK;
-- 
2.43.0


From f18ddd1e624ee26bef914b83aca8c65a77af5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 38/56] fix: Fnext32 returns the value when the length is not
 asked for

---
 src/fbfr32.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d57bdab..a7ac26e 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -391,18 +391,18 @@ struct Fbfr32 {
         *oc = 0;
       }
 
+      auto flen = flength(it);
       if (len != nullptr) {
-        auto flen = flength(it);
-
         if (*len < flen) {
           *len = flen;
           FERROR(FNOSPACE, "");
           return -1;
-        } else if (value != nullptr) {
-          std::copy_n(fvalue(it), flen, value);
         }
         *len = flen;
       }
+      if (value != nullptr) {
+        std::copy_n(fvalue(it), flen, value);
+      }
       return 1;
     }
     return 0;
-- 
2.43.0


From 10049b5661105b726ea0a601744faebd7bcd28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 39/56] fix: Fgetalloc32 reports a failed allocation

---
 src/fbfr32.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index a7ac26e..286c348 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -647,6 +647,10 @@ struct Fbfr32 {
       *extralen = len;
     }
     char *loc = (char *)malloc(size);
+    if (loc == nullptr) {
+      FERROR(FMALLOC, "");
+      return nullptr;
+    }
     std::copy_n(fvalue(field), len, loc);
     return loc;
   }
-- 
2.43.0


From 529ac219fc5c90af58d32d0c98647c4e2938ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 40/56] fix: Frealloc32 reports a failed allocation

---
 src/fml32.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..9d082a3 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -185,6 +185,10 @@ FBFR32 *Frealloc32(FBFR32 *fbfr, FLDOCC32 F, FLDLEN32 V) {
 
   fux::fml32::reset_Ferror32();
   fbfr = (FBFR32 *)realloc(fbfr, buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "");
+    return nullptr;
+  }
   fbfr->reinit(buflen);
   return fbfr;
 }
-- 
2.43.0


From dd021fa6ff5ff9f1bbf94b4c88b252974c3a0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 41/56] fix: long block times do not overflow the number of
 send attempts

tpsblktime(INT_MAX, TPBLK_SECOND) made the attempt count negative: nothing
was sent and the call failed with TPETIME immediately.
---
 src/ipc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 54e4012..3774e73 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -155,9 +155,9 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
     }
   } else {  // noflags
     const long interval_msec = 100;
-    int times = msec / interval_msec + 2;
+    long times = msec / interval_msec + 2;
 
-    for (int i = 0; i < times; i++) {
+    for (long i = 0; i < times; i++) {
       int n = msgsnd(msqid, ptr, len - sizeof(long), IPC_NOWAIT);
       if (n != -1) {
         return true;
-- 
2.43.0


From 012493dd2d258e093ca44201633e9941fed6d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 42/56] fix: tpalloc and tprealloc report failed allocations

---
 src/mem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 8ab3c64..ff10d76 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -109,6 +113,10 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
   mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
-- 
2.43.0


From 0d17d6f47ae29cca65bb3ec8c49bedaa117b0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 43/56] fix: tprealloc does not make a fielded buffer smaller
 than its contents

---
 src/mem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index ff10d76..ce69a39 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -112,6 +112,10 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
+  if (tptype->reinit != nullptr) {
+    // Contents must fit in the new size
+    size = std::max<long>(size, tptype->used(mem->data));
+  }
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
   if (mem == nullptr) {
     TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
-- 
2.43.0


From 4a2bfb05244cb1bfafbba4f8f57a8455eae9ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 44/56] fix: importing invalid data leaves the buffer as it was

---
 src/mem.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index ce69a39..36e1f4e 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -188,37 +188,43 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  // Do not touch the buffer before the input is known to be good
+  std::vector<char> decoded;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
+    decoded.resize(ilen / 4 * 3 + 1);
+    ilen = base64decode(istr, ilen, &decoded[0], decoded.size());
+    istr = &decoded[0];
   }
 
+  constexpr long header = sizeof(tpmem) - offsetof(tpmem, type);
+  if (ilen < header) {
+    TPERROR(TPEPROTO, "Exported buffer too short");
+    return -1;
+  }
+  const auto tptype =
+      typeptr(istr, istr + offsetof(tpmem, subtype) - offsetof(tpmem, type));
+  if (tptype == nullptr) {
+    return -1;
+  }
+
+  long needed = sizeof(tpmem) + ilen;
   auto omem = memptr(*obuf);
   if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
+    auto ptr = tprealloc(*obuf, needed);
+    if (ptr == nullptr) {
+      return -1;
+    }
+    *obuf = ptr;
     omem = memptr(*obuf);
   }
+  std::copy_n(istr, ilen,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
-  }
-
-  const auto tptype = typeptr(omem->type, omem->subtype);
-  if (tptype == nullptr) {
-    return -1;
-  }
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
-- 
2.43.0


From 21f163663dee8a049232ea9e2bf75dbf947a18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 45/56] fix: tpimport returns the length of the data

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 36e1f4e..01071ea 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -230,7 +230,7 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
   }
 
   if (olen != nullptr) {
-    *olen = ilen;
+    *olen = ilen - header;
   }
   fux::atmi::reset_tperrno();
   return 0;
-- 
2.43.0


From 9bd9cd1b20d091712c048ca1a86dd3b83de2e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 46/56] fix: size of the table of advertisements does not
 overflow

---
 src/mib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 43f3d1b..0ce0264 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -104,7 +104,8 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(size_t(cfg.maxservers) * cfg.maxservices *
+                   sizeof(advertisement)) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -117,7 +118,8 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements,
+              size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
-- 
2.43.0


From 8d30bdd721afefc2d934a6acf25cf30ae4eb22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 47/56] fix: shutdown request for another server of the queue
 was dispatched as a service

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 91301f0..cc96221 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -307,6 +307,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From bc49386f6cc33ff6a862a3fcaf3659be24adcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 48/56] fix: request for a service that is no longer advertised
 crashed the server

---
 src/server.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index cc96221..44ed136 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -278,6 +278,7 @@ static void dispatch() {
     }
 
     TPSVCINFO tpsvcinfo;
+    void (*func)(TPSVCINFO *) = nullptr;
     {
       userlog("Dispatch loop");
       fux::scoped_fuxlock lock(main_ptr->mutex);
@@ -310,6 +311,11 @@ static void dispatch() {
           continue;
         }
       }
+
+      auto it = main_ptr->advertisements.find(thread_ptr->req->servicename);
+      if (it != main_ptr->advertisements.end()) {
+        func = it->second;
+      }
     }  // lock
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
@@ -322,8 +328,11 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      if (func == nullptr) {
+        userlog("Service %s is not advertised", tpsvcinfo.name);
+        thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, 0);
+      }
+      func(&tpsvcinfo);
     }
   }
 }
-- 
2.43.0


From e7a5ac3819599a744d0bc532af79f1ee21ecd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 49/56] fix: forwarded requests lost their transaction and
 could not be sent without reply

---
 src/server.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 44ed136..3fe2137 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -210,7 +210,8 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
+    bool transactional = fux::tx::transactional();
+    if (transactional) {
       fux::tx_end(true);
     }
 
@@ -225,9 +226,9 @@ struct server_thread {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = transactional ? TPTRAN : 0;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
-- 
2.43.0


From 40df37906af4f617252963d5eb32a728b330d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 50/56] fix: failed tpforward used its buffer after it was
 freed

---
 src/server.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 3fe2137..6d16a32 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -218,10 +218,6 @@ struct server_thread {
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
-    }
-
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -234,6 +230,10 @@ struct server_thread {
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
+
     longjmp(tpreturn_env, 1);
   }
 
@@ -515,5 +515,5 @@ void tpforward(char *svc, char *data, long len, long flags) try {
   return thread_ptr->tpforward(svc, data, len, flags);
 } catch (...) {
   userlog("tpforward failed");
-  tpreturn(TPESVCERR, 0, data, len, flags);
+  tpreturn(TPESVCERR, 0, data, len, 0);
 }
-- 
2.43.0


From 553ade05022b8817e36c73e78847207fa23fa40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 51/56] fix: tpreturn leaked the buffer when no reply is
 expected

---
 src/server.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 6d16a32..0bea938 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -241,10 +241,6 @@ struct server_thread {
     if (req->replyq != -1) {
       res.set_data(data, len);
 
-      if (data != nullptr && data != atmibuf) {
-        tpfree(data);
-      }
-
       if (flags != 0) {
         userlog("tpreturn with flags!=0");
         res->rval = TPESVCERR;
@@ -258,6 +254,10 @@ struct server_thread {
 
       fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
     }
+
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
   }
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
-- 
2.43.0


From ebe8cb5a3bad5a9b1a4611809ba5f679340df427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 52/56] fix: caller never got a reply when tpreturn failed

---
 src/server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 0bea938..615947a 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -504,6 +504,11 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
   return thread_ptr->tpreturn(rval, rcode, data, len, flags);
 } catch (...) {
   userlog("tpreturn failed");
+  try {
+    thread_ptr->reply(TPESVCERR, 0, nullptr, 0, 0);
+  } catch (...) {
+    userlog("Failed to report that tpreturn failed");
+  }
   longjmp(thread_ptr->tpreturn_env, -1);
 }
 
-- 
2.43.0


From 90f33e462563ab6672b335fb639d637482915073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:15 +0000
Subject: [PATCH 53/56] fix: tpreturn with invalid flags ended its transaction
 branch as successful

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 615947a..de6f897 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -262,7 +262,7 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPMINVAL);
+      fux::tx_end(rval == TPMINVAL && flags == 0);
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
-- 
2.43.0


From b17cd56571297b9c0781fbdb2fc756489bb742a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 54/56] fix: tpunadvertise changed the shared tables without
 lock

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index de6f897..75e9bff 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -146,6 +146,7 @@ struct server_main {
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
+      auto lock = m_.data_lock();
       m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
-- 
2.43.0


From 0c5cd0803d73b262500b1891ee85f224d065c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 55/56] fix: server no longer terminates when caller of
 unadvertised service is gone

---
 src/server.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 75e9bff..798b4e0 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -268,6 +268,15 @@ struct server_thread {
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
   }
+
+  void fail(int rval) {
+    try {
+      tpreturn(rval, 0, nullptr, 0, 0);
+    } catch (const std::exception &e) {
+      userlog("Failed to reply to request: %s", e.what());
+    }
+    longjmp(tpreturn_env, 1);
+  }
 };
 
 static thread_local std::unique_ptr<server_thread> thread_ptr;
@@ -332,7 +341,7 @@ static void dispatch() {
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
       if (func == nullptr) {
         userlog("Service %s is not advertised", tpsvcinfo.name);
-        thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, 0);
+        thread_ptr->fail(TPENOENT);
       }
       func(&tpsvcinfo);
     }
-- 
2.43.0


From fc2ac9e20ec49b80137f495e5e641bcf18e1484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 56/56] fix: caller of a service that did not call tpreturn got
 no reply

---
 src/server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 798b4e0..9a7ddb2 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -344,6 +344,8 @@ static void dispatch() {
         thread_ptr->fail(TPENOENT);
       }
       func(&tpsvcinfo);
+      userlog("Service %s did not call tpreturn()", tpsvcinfo.name);
+      thread_ptr->fail(TPESVCERR);
     }
   }
 }
-- 
2.43.0

