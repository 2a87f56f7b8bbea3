From 31836ebeaa2a73a77ee2cde1320a8c132ec2d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 01/40] fix: inotify: name the destination of a rename by its
 own directory

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp    | 14 ++++++++++----
 include/wtr/watcher.hpp                            | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..07e1cd0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -178,15 +178,18 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  /*  Both halves of a rename carry their own
+      watch descriptor: The directories differ
+      when something moves between them. */
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -194,7 +197,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -342,7 +348,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..7648034 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1457,15 +1457,18 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  /*  Both halves of a rename carry their own
+      watch descriptor: The directories differ
+      when something moves between them. */
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1473,7 +1476,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1621,7 +1627,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
-- 
2.43.0


From 4a3cc9bc78a37177510d671fefd77e0dc080a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 02/40] fix: linux: an interrupted epoll_wait is not an error

---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 5 ++++-
 include/wtr/watcher.hpp                                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..0bbca39 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -26,7 +27,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7648034..93f94d3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1653,6 +1653,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1669,7 +1670,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
-- 
2.43.0


From c0ca6394e203e3fb547af3dc4e39b18688bd8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 03/40] fix: linux: events ready along with a close do not
 overrule it

---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 5 ++++-
 include/wtr/watcher.hpp                                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 0bbca39..4582adc 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -32,7 +32,10 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        /*  Whatever ended us, ended us: The events
+            which happen to be ready along with it
+            must not have us go on. */
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 93f94d3..efabe2b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1675,7 +1675,10 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        /*  Whatever ended us, ended us: The events
+            which happen to be ready along with it
+            must not have us go on. */
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From fd7a73294c1e2094d168f572a1e36899565df162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 04/40] fix: linux: tell a failed read from one which has
 nothing for us yet

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp    |  7 +++----
 .../wtr/watcher/adapter/linux/inotify/watch.hpp     |  6 ++++--
 include/wtr/watcher.hpp                             | 13 +++++++------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..6d3c694 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -261,10 +261,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 07e1cd0..0bd55a5 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -8,6 +8,7 @@
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -328,8 +329,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index efabe2b..8e12639 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1247,10 +1247,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
@@ -1287,6 +1286,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -1607,8 +1607,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
-- 
2.43.0


From 8a35c28d5bbb2874c930ccc67e3e48c6a01af4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 05/40] fix: linux: announce an overflow of the event queue,
 and go on

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp     |  6 ++++--
 .../wtr/watcher/adapter/linux/inotify/watch.hpp      |  6 ++++--
 include/wtr/watcher.hpp                              | 12 ++++++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6d3c694..b3fc488 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -270,10 +270,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        send_msg(result::w_sys_q_overflow, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
       else if (mtd->fd != FAN_NOFD)
         return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
       else if (! ev_has_dirname(mtd))
         return result::w_sys_bad_meta;
       else {
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 0bd55a5..c178049 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -345,10 +345,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        /*  No directory in particular: The watch
+            descriptor of an overflow is -1. */
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8e12639..c0e78ca 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1256,10 +1256,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        send_msg(result::w_sys_q_overflow, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
       else if (mtd->fd != FAN_NOFD)
         return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
       else if (! ev_has_dirname(mtd))
         return result::w_sys_bad_meta;
       else {
@@ -1623,10 +1625,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        /*  No directory in particular: The watch
+            descriptor of an overflow is -1. */
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From a2ca5387cbc097a717af049ae9da5135ff6de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 06/40] fix: fanotify: do not pair a move-to with the move-from
 of another rename

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp       | 10 +++++-----
 include/wtr/watcher.hpp                                | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index b3fc488..c4daf45 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -202,21 +202,21 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
+  /*  The kernel queues the "from" half of a rename
+      right before the "to" half. The other way around
+      they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
 
 inline auto do_mark_if_newdir =
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c0e78ca..86c6016 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1188,21 +1188,21 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
+  /*  The kernel queues the "from" half of a rename
+      right before the "to" half. The other way around
+      they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
 
 inline auto do_mark_if_newdir =
-- 
2.43.0


From d8cb10e082979cc7c36237ca5aed1192a356eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 07/40] fix: fanotify: an event whose directory is gone does
 not take others with it

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 32 +++++++++++++------
 include/wtr/watcher.hpp                       | 32 +++++++++++++------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index c4daf45..c8bcbd6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -16,6 +16,7 @@
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -148,14 +149,22 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
+  /*  A directory which was removed, and which something
+      still holds open, has a handle but not a path. */
+  struct stat dir_stat;
+  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
   close(fd);
+  if (dir_gone || file_name_offset < 0) {
+    *ec = ENOENT;
+    return {};
+  }
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
@@ -213,8 +222,11 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto from_ec = 0, to_ec = 0;
+    auto from = ev(pathof(m, &from_ec), et, pt);
+    auto to = ev(pathof(n, &to_ec), et, pt);
+    *ec = from_ec ? to_ec : 0;
+    return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
@@ -274,16 +286,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
         mtd = FAN_EVENT_NEXT(mtd, read_len);
       }
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (mtd->fd != FAN_NOFD || ! ev_has_dirname(mtd))
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
       else {
+        /*  The directory of an event can be gone by now.
+            We can't name that event, and lose it. The
+            others around it are still ours to tell. */
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
+        if (! ec) cb(ev);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 86c6016..d361770 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1002,6 +1002,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -1134,14 +1135,22 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
+  /*  A directory which was removed, and which something
+      still holds open, has a handle but not a path. */
+  struct stat dir_stat;
+  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
   close(fd);
+  if (dir_gone || file_name_offset < 0) {
+    *ec = ENOENT;
+    return {};
+  }
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
@@ -1199,8 +1208,11 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto from_ec = 0, to_ec = 0;
+    auto from = ev(pathof(m, &from_ec), et, pt);
+    auto to = ev(pathof(n, &to_ec), et, pt);
+    *ec = from_ec ? to_ec : 0;
+    return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
@@ -1260,16 +1272,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
         mtd = FAN_EVENT_NEXT(mtd, read_len);
       }
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (mtd->fd != FAN_NOFD || ! ev_has_dirname(mtd))
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
       else {
+        /*  The directory of an event can be gone by now.
+            We can't name that event, and lose it. The
+            others around it are still ours to tell. */
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
+        if (! ec) cb(ev);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From 20065550e8d421d0da3d1a035fe498a8bed98787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 08/40] fix: fanotify: do not cut long paths, nor double the
 slash of the root

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp   | 14 +++++++-------
 include/wtr/watcher.hpp                            | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index c8bcbd6..e778556 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -165,18 +165,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     *ec = ENOENT;
     return {};
   }
-  path_buf[file_name_offset] = 0;
+  auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
-      If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
+      If we have the directory name before here, we
+      can put the file name after it. The whole may
+      well be longer than PATH_MAX. */
   if (file_name_offset > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (not_selfdir && path.back() != '/') path += '/';
+    if (not_selfdir) path += file_name;
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d361770..50b7745 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1151,18 +1151,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     *ec = ENOENT;
     return {};
   }
-  path_buf[file_name_offset] = 0;
+  auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
-      If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
+      If we have the directory name before here, we
+      can put the file name after it. The whole may
+      well be longer than PATH_MAX. */
   if (file_name_offset > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (not_selfdir && path.back() != '/') path += '/';
+    if (not_selfdir) path += file_name;
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
-- 
2.43.0


From 56f68a112314c2ad09d8fe2d67283b815d0ea86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 09/40] fix: linux: announce directories which cannot be read,
 walk those of unknown type

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 12 +++-
 .../watcher/adapter/linux/inotify/watch.hpp   | 12 +++-
 .../wtr/watcher/adapter/linux/sysres.hpp      | 31 +++++++----
 include/wtr/watcher.hpp                       | 55 ++++++++++++++-----
 4 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e778556..0794d17 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -84,6 +84,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory and all directories in it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { return do_mark(dir, fa_fd, cb) == result::complete; },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -96,7 +106,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index c178049..f18da0f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -119,6 +119,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory and all directories in it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { return do_mark(dir, dirfd, dm, cb) == result::complete; },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -136,7 +146,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(base_path, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..e57f701 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -122,10 +122,11 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
   return ep{.fd = fd};
 }
 
+/*  A directory itself, not a link to one */
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -148,23 +149,29 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Fe>
+inline auto walkdir_do(std::string const& path, Fn const& f, Fe const& e)
+  -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+  /*  Marked before we look inside, so that
+      nothing can slip in in between. What we
+      can mark but can't (fully) look into is
+      for `e` to tell about. */
+  auto marked = f(path.c_str());
+  bool walked = false;
+  if (DIR* d = opendir(path.c_str())) {
+    for (dirent* de; errno = 0, (de = readdir(d));) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
+      auto next = path + (path.back() == '/' ? "" : "/") + de->d_name;
+      if (de->d_type == DT_UNKNOWN && ! is_dir(next.c_str())) continue;
+      walkdir_do(next, f, e);
     }
+    walked = errno == 0;
     (void)closedir(d);
   }
+  if (marked && ! walked) e(path.c_str());
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 50b7745..618b553 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -938,10 +938,11 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
   return ep{.fd = fd};
 }
 
+/*  A directory itself, not a link to one */
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -964,23 +965,29 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Fe>
+inline auto walkdir_do(std::string const& path, Fn const& f, Fe const& e)
+  -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+  /*  Marked before we look inside, so that
+      nothing can slip in in between. What we
+      can mark but can't (fully) look into is
+      for `e` to tell about. */
+  auto marked = f(path.c_str());
+  bool walked = false;
+  if (DIR* d = opendir(path.c_str())) {
+    for (dirent* de; errno = 0, (de = readdir(d));) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
+      auto next = path + (path.back() == '/' ? "" : "/") + de->d_name;
+      if (de->d_type == DT_UNKNOWN && ! is_dir(next.c_str())) continue;
+      walkdir_do(next, f, e);
     }
+    walked = errno == 0;
     (void)closedir(d);
   }
+  if (marked && ! walked) e(path.c_str());
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
@@ -1070,6 +1077,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory and all directories in it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { return do_mark(dir, fa_fd, cb) == result::complete; },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -1082,7 +1099,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1411,6 +1428,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory and all directories in it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { return do_mark(dir, dirfd, dm, cb) == result::complete; },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1428,7 +1455,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(base_path, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
-- 
2.43.0


From e242df486f3468fcd6b1f497e868ca2cbb541e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 10/40] fix: linux: watch the directories which are in a new
 directory already

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp   | 6 ++----
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp    | 2 +-
 include/wtr/watcher.hpp                                   | 8 +++-----
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 0794d17..ce21e25 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -242,14 +242,12 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
   if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+    do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index f18da0f..42190d1 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -364,7 +364,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 618b553..7c27bbc 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1235,14 +1235,12 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
   if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+    do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1673,7 +1671,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 4cadf5e63681831539b57ff6ade2a70cbd68a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 11/40] fix: linux: do not watch what a link, put in place of a
 new directory, leads to

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 16 ++++++++--
 .../watcher/adapter/linux/inotify/watch.hpp   | 14 +++++++--
 include/wtr/watcher.hpp                       | 30 +++++++++++++++----
 3 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ce21e25..de9c352 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -12,6 +12,7 @@
 #include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -74,9 +75,17 @@ inline auto do_mark =
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
+  /*  A path which isn't its own real path leads
+      through a link, which is not ours to follow.
+      (A directory was replaced by a link.) */
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
+      ? fanotify_mark(
+          fa_fd,
+          FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW,
+          ke_fa_ev::recv_flags,
+          AT_FDCWD,
+          real)
       : -1;
   if (anonymous_wd == 0)
     return result::complete;
@@ -106,7 +115,8 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  do_mark_tree(base_path, fa_fd, cb);
+  char real[PATH_MAX];
+  if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 42190d1..7796e5b 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -11,6 +11,7 @@
 #include <errno.h>
 #include <filesystem>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -110,8 +111,14 @@ inline auto do_mark =
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
+  /*  A path which isn't its own real path leads
+      through a link, which is not ours to follow.
+      (A directory was replaced by a link.) */
+  int wd = realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
+           ? inotify_add_watch(
+               dirfd,
+               real,
+               ke_in_ev::recv_mask | IN_DONT_FOLLOW | IN_ONLYDIR)
            : -1;
   if (wd > 0)
     return dm.emplace(wd, real), result::complete;
@@ -146,7 +153,8 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    do_mark_tree(base_path, in_fd, dm, cb);
+    char real[PATH_MAX];
+    if (realpath(base_path, real)) do_mark_tree(real, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7c27bbc..4cd9001 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1005,6 +1005,7 @@ inline auto walkdir_do(std::string const& path, Fn const& f, Fe const& e)
 #include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -1067,9 +1068,17 @@ inline auto do_mark =
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
+  /*  A path which isn't its own real path leads
+      through a link, which is not ours to follow.
+      (A directory was replaced by a link.) */
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
+      ? fanotify_mark(
+          fa_fd,
+          FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW,
+          ke_fa_ev::recv_flags,
+          AT_FDCWD,
+          real)
       : -1;
   if (anonymous_wd == 0)
     return result::complete;
@@ -1099,7 +1108,8 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  do_mark_tree(base_path, fa_fd, cb);
+  char real[PATH_MAX];
+  if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1318,6 +1328,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #include <errno.h>
 #include <filesystem>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -1417,8 +1428,14 @@ inline auto do_mark =
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
+  /*  A path which isn't its own real path leads
+      through a link, which is not ours to follow.
+      (A directory was replaced by a link.) */
+  int wd = realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
+           ? inotify_add_watch(
+               dirfd,
+               real,
+               ke_in_ev::recv_mask | IN_DONT_FOLLOW | IN_ONLYDIR)
            : -1;
   if (wd > 0)
     return dm.emplace(wd, real), result::complete;
@@ -1453,7 +1470,8 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    do_mark_tree(base_path, in_fd, dm, cb);
+    char real[PATH_MAX];
+    if (realpath(base_path, real)) do_mark_tree(real, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
-- 
2.43.0


From 2db9899de5f859e9c18fdf6817e6a167c28b42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 12/40] fix: inotify: keep up with directories being renamed,
 moved in and moved out

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 51 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 51 ++++++++++++++++---
 2 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 7796e5b..281e419 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -12,6 +12,7 @@
 #include <filesystem>
 #include <limits.h>
 #include <stdlib.h>
+#include <string>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -121,7 +122,7 @@ inline auto do_mark =
                ke_in_ev::recv_mask | IN_DONT_FOLLOW | IN_ONLYDIR)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -218,7 +219,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && dm.at(b->wd).is_absolute();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -233,6 +234,39 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Keeps our path map in line with the tree when
+    a directory comes or goes. Watches stay with
+    their directory, wherever it is moved to, and
+    so the paths of everything beneath it change.
+    Between the halves of a rename, and for good
+    if the other half is not in our tree, paths
+    begin with the cookie of the rename: Relative
+    paths are those which are not ours to tell. */
+inline auto follow_dir = [](
+                           inotify_event const* const in,
+                           std::string const& path,
+                           ke_in_ev& ke,
+                           auto const& cb) -> void
+{
+  auto rebase = [&](std::string const& from, std::string const& to)
+  {
+    for (auto& at : ke.dm) {
+      auto const& p = at.second.native();
+      bool beneath = p.compare(0, from.size(), from) == 0
+                  && (p.size() == from.size() || p[from.size()] == '/');
+      if (beneath) at.second = to + p.substr(from.size());
+    }
+  };
+  if (! (in->mask & IN_ISDIR)) return;
+  if (in->mask & IN_MOVED_FROM) rebase(path, std::to_string(in->cookie));
+  if (in->mask & IN_MOVED_TO) rebase(std::to_string(in->cookie), path);
+  /*  Two directories which trade places leave
+      none of their paths vacant. */
+  bool is_new = in->mask & (IN_CREATE | IN_MOVED_TO);
+  if (is_new || is_dir(path.c_str()))
+    do_mark_tree(path.c_str(), ke.fd, ke.dm, cb);
+};
+
 struct defer_dm_rm_wd {
   ke_in_ev& ke;
   size_t back_idx = 0;
@@ -270,8 +304,10 @@ struct defer_dm_rm_wd {
     to directory paths.
     Updates the path map, adding
     new directories as they are
-    created, and removing them
-    as they are destroyed.
+    created or moved in, renaming
+    them as they are renamed, and
+    removing them as they are
+    destroyed.
 
     Forward events and errors to
     the user. Returns on errors
@@ -369,10 +405,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (is_real_event(msk)) {
+      else if (is_real_event(msk) && dmhit->second.is_absolute()) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        follow_dir(in_ev, ev.path_name.native(), sr.ke, cb);
+        if (ev.associated)
+          follow_dir(in_ev_next, ev.associated->path_name.native(), sr.ke, cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4cd9001..16b8509 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1329,6 +1329,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #include <filesystem>
 #include <limits.h>
 #include <stdlib.h>
+#include <string>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -1438,7 +1439,7 @@ inline auto do_mark =
                ke_in_ev::recv_mask | IN_DONT_FOLLOW | IN_ONLYDIR)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1535,7 +1536,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && dm.at(b->wd).is_absolute();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -1550,6 +1551,39 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Keeps our path map in line with the tree when
+    a directory comes or goes. Watches stay with
+    their directory, wherever it is moved to, and
+    so the paths of everything beneath it change.
+    Between the halves of a rename, and for good
+    if the other half is not in our tree, paths
+    begin with the cookie of the rename: Relative
+    paths are those which are not ours to tell. */
+inline auto follow_dir = [](
+                           inotify_event const* const in,
+                           std::string const& path,
+                           ke_in_ev& ke,
+                           auto const& cb) -> void
+{
+  auto rebase = [&](std::string const& from, std::string const& to)
+  {
+    for (auto& at : ke.dm) {
+      auto const& p = at.second.native();
+      bool beneath = p.compare(0, from.size(), from) == 0
+                  && (p.size() == from.size() || p[from.size()] == '/');
+      if (beneath) at.second = to + p.substr(from.size());
+    }
+  };
+  if (! (in->mask & IN_ISDIR)) return;
+  if (in->mask & IN_MOVED_FROM) rebase(path, std::to_string(in->cookie));
+  if (in->mask & IN_MOVED_TO) rebase(std::to_string(in->cookie), path);
+  /*  Two directories which trade places leave
+      none of their paths vacant. */
+  bool is_new = in->mask & (IN_CREATE | IN_MOVED_TO);
+  if (is_new || is_dir(path.c_str()))
+    do_mark_tree(path.c_str(), ke.fd, ke.dm, cb);
+};
+
 struct defer_dm_rm_wd {
   ke_in_ev& ke;
   size_t back_idx = 0;
@@ -1587,8 +1621,10 @@ struct defer_dm_rm_wd {
     to directory paths.
     Updates the path map, adding
     new directories as they are
-    created, and removing them
-    as they are destroyed.
+    created or moved in, renaming
+    them as they are renamed, and
+    removing them as they are
+    destroyed.
 
     Forward events and errors to
     the user. Returns on errors
@@ -1686,10 +1722,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (is_real_event(msk)) {
+      else if (is_real_event(msk) && dmhit->second.is_absolute()) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        follow_dir(in_ev, ev.path_name.native(), sr.ke, cb);
+        if (ev.associated)
+          follow_dir(in_ev_next, ev.associated->path_name.native(), sr.ke, cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 4d3f49d59fe981900cb6e9744014e63594e3001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 13/40] fix: fanotify: zero is a valid file descriptor

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp       | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index de9c352..6efaf02 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -114,11 +114,11 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 16b8509..c59a8b1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1107,11 +1107,11 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-- 
2.43.0


From 44842a37688d5f94672202646b041db547bac5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 14/40] fix: fanotify: fall back to inotify if the watched path
 cannot be marked

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp  | 9 ++++++++-
 include/wtr/watcher.hpp                                  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6efaf02..5d7cca9 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -115,8 +115,15 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  /*  Having fanotify doesn't mean that this path can be
+      marked. Not every filesystem has what we ask for. */
   char real[PATH_MAX];
-  if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
+  auto hush = [](::wtr::watcher::event const&) {};
+  bool can_mark =
+    realpath(base_path, real) && do_mark(real, fa_fd, hush) == result::complete;
+  if (! can_mark)
+    return close(fa_fd), sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c59a8b1..1045e94 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1108,8 +1108,15 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  /*  Having fanotify doesn't mean that this path can be
+      marked. Not every filesystem has what we ask for. */
   char real[PATH_MAX];
-  if (realpath(base_path, real)) do_mark_tree(real, fa_fd, cb);
+  auto hush = [](::wtr::watcher::event const&) {};
+  bool can_mark =
+    realpath(base_path, real) && do_mark(real, fa_fd, hush) == result::complete;
+  if (! can_mark)
+    return close(fa_fd), sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  do_mark_tree(real, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
-- 
2.43.0


From 89e1ede7b225e6acc1efaee8c3013d89d9860edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 15/40] fix: fanotify: open handles on the filesystem of the
 watched path

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 41 +++++++++++--------
 include/wtr/watcher.hpp                       | 41 +++++++++++--------
 2 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 5d7cca9..77fc6f5 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -58,6 +58,7 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  std::string base{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -129,7 +130,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .base = real},
     .il = living,
     .ep = ep,
   };
@@ -165,8 +166,10 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  fanotify_event_metadata const* const mtd,
+  std::string const& base,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
@@ -174,12 +177,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
-  /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd < 0) {
-    *ec = errno;
-    return {};
-  }
+  /*  Directory name
+      Handles mean something only to the filesystem
+      which they are from, so we open them relative
+      to the path which we watch. (The filesystem of
+      our working directory can be another one.) */
+  int base_fd = open(base.c_str(), O_RDONLY | O_CLOEXEC | O_DIRECTORY);
+  int fd = base_fd < 0 ? -1 : open_by_handle_at(base_fd, dir_fh, ofl);
+  if (fd < 0) *ec = errno;
+  if (base_fd >= 0) close(base_fd);
+  if (fd < 0) return {};
   /*  A directory which was removed, and which something
       still holds open, has a handle but not a path. */
   struct stat dir_stat;
@@ -224,9 +231,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  std::string const& base,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -244,14 +253,14 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, base, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto from_ec = 0, to_ec = 0;
-    auto from = ev(pathof(m, &from_ec), et, pt);
-    auto to = ev(pathof(n, &to_ec), et, pt);
+    auto from = ev(pathof(m, base, &from_ec), et, pt);
+    auto to = ev(pathof(n, base, &to_ec), et, pt);
     *ec = from_ec ? to_ec : 0;
     return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
   };
@@ -318,7 +327,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             We can't name that event, and lose it. The
             others around it are still ours to tell. */
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
         if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
         if (! ec) cb(ev);
         mtd = n;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1045e94..d7d83a1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1051,6 +1051,7 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  std::string base{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -1122,7 +1123,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .base = real},
     .il = living,
     .ep = ep,
   };
@@ -1158,8 +1159,10 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  fanotify_event_metadata const* const mtd,
+  std::string const& base,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
@@ -1167,12 +1170,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
-  /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd < 0) {
-    *ec = errno;
-    return {};
-  }
+  /*  Directory name
+      Handles mean something only to the filesystem
+      which they are from, so we open them relative
+      to the path which we watch. (The filesystem of
+      our working directory can be another one.) */
+  int base_fd = open(base.c_str(), O_RDONLY | O_CLOEXEC | O_DIRECTORY);
+  int fd = base_fd < 0 ? -1 : open_by_handle_at(base_fd, dir_fh, ofl);
+  if (fd < 0) *ec = errno;
+  if (base_fd >= 0) close(base_fd);
+  if (fd < 0) return {};
   /*  A directory which was removed, and which something
       still holds open, has a handle but not a path. */
   struct stat dir_stat;
@@ -1217,9 +1224,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  std::string const& base,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -1237,14 +1246,14 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, base, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto from_ec = 0, to_ec = 0;
-    auto from = ev(pathof(m, &from_ec), et, pt);
-    auto to = ev(pathof(n, &to_ec), et, pt);
+    auto from = ev(pathof(m, base, &from_ec), et, pt);
+    auto to = ev(pathof(n, base, &to_ec), et, pt);
     *ec = from_ec ? to_ec : 0;
     return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
   };
@@ -1311,7 +1320,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             We can't name that event, and lose it. The
             others around it are still ours to tell. */
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
         if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
         if (! ec) cb(ev);
         mtd = n;
-- 
2.43.0


From 11e91707bc27f2afe78ec5625f67f797d2230267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 16/40] fix: fanotify: tell about an event which is lost for
 want of resources

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 ++++-
 include/wtr/watcher.hpp                                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 77fc6f5..5306a87 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -325,11 +325,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else {
         /*  The directory of an event can be gone by now.
             We can't name that event, and lose it. The
-            others around it are still ours to tell. */
+            others around it are still ours to tell.
+            If anything else is the matter, we say so. */
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
         if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
         if (! ec) cb(ev);
+        else if (ec != ESTALE && ec != ENOENT)
+          send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d7d83a1..3590895 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1318,11 +1318,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else {
         /*  The directory of an event can be gone by now.
             We can't name that event, and lose it. The
-            others around it are still ours to tell. */
+            others around it are still ours to tell.
+            If anything else is the matter, we say so. */
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
         if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
         if (! ec) cb(ev);
+        else if (ec != ESTALE && ec != ENOENT)
+          send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From a04da42b8f7053dacc235bf3914704bea9c28569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 17/40] fix: fanotify: watch directories which are moved in,
 and forget those moved out

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 34 ++++++++++++-------
 include/wtr/watcher.hpp                       | 34 ++++++++++++-------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 5306a87..8be8682 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -210,6 +210,12 @@ inline auto pathof(
     if (not_selfdir && path.back() != '/') path += '/';
     if (not_selfdir) path += file_name;
   }
+  /*  Marks stay with a directory, wherever it is moved
+      to. Outside of our tree, it's not ours to tell. */
+  auto in_base = base == "/"
+              || (path.compare(0, base.size(), base) == 0
+                  && (path.size() == base.size() || path[base.size()] == '/'));
+  if (! in_base) *ec = ENOENT;
   return path;
 }
 
@@ -227,6 +233,7 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
 
 struct Parsed {
   ::wtr::watcher::event ev;
+  std::string new_dir{};
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
 };
@@ -252,8 +259,16 @@ inline auto parse_ev(
       they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  auto new_dir = [](auto* m, auto const& path) -> std::string
+  {
+    auto is_new = m->mask & FAN_ONDIR && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+    return is_new ? path : std::string{};
+  };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, base, ec), et, pt), n, m->event_len}; };
+  {
+    auto path = pathof(m, base, ec);
+    return {ev(path, et, pt), new_dir(m, path), n, m->event_len};
+  };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
@@ -261,21 +276,14 @@ inline auto parse_ev(
     auto from_ec = 0, to_ec = 0;
     auto from = ev(pathof(m, base, &from_ec), et, pt);
     auto to = ev(pathof(n, base, &to_ec), et, pt);
+    auto e = from_ec ? to : to_ec ? from : ev(from, ev(to));
+    auto dir = to_ec ? std::string{} : new_dir(n, to.path_name.native());
     *ec = from_ec ? to_ec : 0;
-    return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
+    return {e, dir, nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
 
-inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
-{
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
-};
-
 /*  Read some events from what fanotify gives
     us. Sends (the valid) events to the user's
     callback. Send a diagnostic to the user on
@@ -328,8 +336,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             others around it are still ours to tell.
             If anything else is the matter, we say so. */
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
-        if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
+        auto [ev, dir, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
+        if (! ec && ! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
         if (! ec) cb(ev);
         else if (ec != ESTALE && ec != ENOENT)
           send_msg(result::w_sys_bad_fd, "", cb);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3590895..d71400b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1203,6 +1203,12 @@ inline auto pathof(
     if (not_selfdir && path.back() != '/') path += '/';
     if (not_selfdir) path += file_name;
   }
+  /*  Marks stay with a directory, wherever it is moved
+      to. Outside of our tree, it's not ours to tell. */
+  auto in_base = base == "/"
+              || (path.compare(0, base.size(), base) == 0
+                  && (path.size() == base.size() || path[base.size()] == '/'));
+  if (! in_base) *ec = ENOENT;
   return path;
 }
 
@@ -1220,6 +1226,7 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
 
 struct Parsed {
   ::wtr::watcher::event ev;
+  std::string new_dir{};
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
 };
@@ -1245,8 +1252,16 @@ inline auto parse_ev(
       they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  auto new_dir = [](auto* m, auto const& path) -> std::string
+  {
+    auto is_new = m->mask & FAN_ONDIR && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+    return is_new ? path : std::string{};
+  };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, base, ec), et, pt), n, m->event_len}; };
+  {
+    auto path = pathof(m, base, ec);
+    return {ev(path, et, pt), new_dir(m, path), n, m->event_len};
+  };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
@@ -1254,21 +1269,14 @@ inline auto parse_ev(
     auto from_ec = 0, to_ec = 0;
     auto from = ev(pathof(m, base, &from_ec), et, pt);
     auto to = ev(pathof(n, base, &to_ec), et, pt);
+    auto e = from_ec ? to : to_ec ? from : ev(from, ev(to));
+    auto dir = to_ec ? std::string{} : new_dir(n, to.path_name.native());
     *ec = from_ec ? to_ec : 0;
-    return {from_ec ? to : to_ec ? from : ev(from, ev(to)), nn, here_to_nnn};
+    return {e, dir, nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
 }
 
-inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
-{
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
-};
-
 /*  Read some events from what fanotify gives
     us. Sends (the valid) events to the user's
     callback. Send a diagnostic to the user on
@@ -1321,8 +1329,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             others around it are still ours to tell.
             If anything else is the matter, we say so. */
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
-        if (! ec) do_mark_if_newdir(ev, sr.ke.fd, cb);
+        auto [ev, dir, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
+        if (! ec && ! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
         if (! ec) cb(ev);
         else if (ec != ESTALE && ec != ENOENT)
           send_msg(result::w_sys_bad_fd, "", cb);
-- 
2.43.0


From 1a0f7525c7543b18b8feee3829fc06bc3300d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 18/40] fix: fanotify: tell about half of a rename which is
 lost for want of resources, too

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 23 +++++++++++--------
 include/wtr/watcher.hpp                       | 23 +++++++++++--------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 8be8682..42f1293 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -215,8 +215,7 @@ inline auto pathof(
   auto in_base = base == "/"
               || (path.compare(0, base.size(), base) == 0
                   && (path.size() == base.size() || path[base.size()] == '/'));
-  if (! in_base) *ec = ENOENT;
-  return path;
+  return in_base ? path : std::string{};
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
@@ -231,6 +230,11 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+inline auto is_gone(int ec) -> bool
+{
+  return ec == 0 || ec == ESTALE || ec == ENOENT;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   std::string new_dir{};
@@ -276,9 +280,11 @@ inline auto parse_ev(
     auto from_ec = 0, to_ec = 0;
     auto from = ev(pathof(m, base, &from_ec), et, pt);
     auto to = ev(pathof(n, base, &to_ec), et, pt);
-    auto e = from_ec ? to : to_ec ? from : ev(from, ev(to));
-    auto dir = to_ec ? std::string{} : new_dir(n, to.path_name.native());
-    *ec = from_ec ? to_ec : 0;
+    auto e = from.path_name.empty() ? to
+           : to.path_name.empty()   ? from
+                                    : ev(from, ev(to));
+    auto dir = new_dir(n, to.path_name.native());
+    *ec = is_gone(from_ec) ? to_ec : from_ec;
     return {e, dir, nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
@@ -337,10 +343,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             If anything else is the matter, we say so. */
         int ec = 0;
         auto [ev, dir, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
-        if (! ec && ! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
-        if (! ec) cb(ev);
-        else if (ec != ESTALE && ec != ENOENT)
-          send_msg(result::w_sys_bad_fd, "", cb);
+        if (! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
+        if (! ev.path_name.empty()) cb(ev);
+        if (! is_gone(ec)) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d71400b..31fc5f5 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1208,8 +1208,7 @@ inline auto pathof(
   auto in_base = base == "/"
               || (path.compare(0, base.size(), base) == 0
                   && (path.size() == base.size() || path[base.size()] == '/'));
-  if (! in_base) *ec = ENOENT;
-  return path;
+  return in_base ? path : std::string{};
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
@@ -1224,6 +1223,11 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+inline auto is_gone(int ec) -> bool
+{
+  return ec == 0 || ec == ESTALE || ec == ENOENT;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   std::string new_dir{};
@@ -1269,9 +1273,11 @@ inline auto parse_ev(
     auto from_ec = 0, to_ec = 0;
     auto from = ev(pathof(m, base, &from_ec), et, pt);
     auto to = ev(pathof(n, base, &to_ec), et, pt);
-    auto e = from_ec ? to : to_ec ? from : ev(from, ev(to));
-    auto dir = to_ec ? std::string{} : new_dir(n, to.path_name.native());
-    *ec = from_ec ? to_ec : 0;
+    auto e = from.path_name.empty() ? to
+           : to.path_name.empty()   ? from
+                                    : ev(from, ev(to));
+    auto dir = new_dir(n, to.path_name.native());
+    *ec = is_gone(from_ec) ? to_ec : from_ec;
     return {e, dir, nn, here_to_nnn};
   };
   return n && isfromto(m->mask, n->mask) ? assoc(m, n) : one(m);
@@ -1330,10 +1336,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
             If anything else is the matter, we say so. */
         int ec = 0;
         auto [ev, dir, n, l] = parse_ev(mtd, read_len, sr.ke.base, &ec);
-        if (! ec && ! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
-        if (! ec) cb(ev);
-        else if (ec != ESTALE && ec != ENOENT)
-          send_msg(result::w_sys_bad_fd, "", cb);
+        if (! dir.empty()) do_mark_tree(dir.c_str(), sr.ke.fd, cb);
+        if (! ev.path_name.empty()) cb(ev);
+        if (! is_gone(ec)) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From c32ad940c78784e82b56c6e387860e8b3e919263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 19/40] fix: closing waits for the watcher to end, even if it
 can't be told to

---
 devel/include/wtr/watcher-/watch.hpp | 5 +++--
 include/wtr/watcher.hpp              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..c358304 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -88,8 +88,9 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    /*  However the release went, we wait for the watcher to end. */
+    auto ok = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && ok;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 31fc5f5..065b6af 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2415,8 +2415,9 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    /*  However the release went, we wait for the watcher to end. */
+    auto ok = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && ok;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From e21d64070c7010a42fbe81fa12fb30b2a78924f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 20/40] fix: fanotify: a file is not renamed to a directory,
 look for removal last

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp   | 14 +++++++++-----
 include/wtr/watcher.hpp                            | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 42f1293..595d889 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -187,13 +187,14 @@ inline auto pathof(
   if (fd < 0) *ec = errno;
   if (base_fd >= 0) close(base_fd);
   if (fd < 0) return {};
-  /*  A directory which was removed, and which something
-      still holds open, has a handle but not a path. */
-  struct stat dir_stat;
-  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  /*  A directory which was removed, and which something
+      still holds open, has a handle but not a path. (As
+      long as it has a link, the path we got was a path.) */
+  struct stat dir_stat;
+  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   close(fd);
   if (dir_gone || file_name_offset < 0) {
     *ec = ENOENT;
@@ -262,7 +263,10 @@ inline auto parse_ev(
       right before the "to" half. The other way around
       they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto new_dir = [](auto* m, auto const& path) -> std::string
   {
     auto is_new = m->mask & FAN_ONDIR && m->mask & (FAN_CREATE | FAN_MOVED_TO);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 065b6af..05867d5 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1180,13 +1180,14 @@ inline auto pathof(
   if (fd < 0) *ec = errno;
   if (base_fd >= 0) close(base_fd);
   if (fd < 0) return {};
-  /*  A directory which was removed, and which something
-      still holds open, has a handle but not a path. */
-  struct stat dir_stat;
-  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  /*  A directory which was removed, and which something
+      still holds open, has a handle but not a path. (As
+      long as it has a link, the path we got was a path.) */
+  struct stat dir_stat;
+  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
   close(fd);
   if (dir_gone || file_name_offset < 0) {
     *ec = ENOENT;
@@ -1255,7 +1256,10 @@ inline auto parse_ev(
       right before the "to" half. The other way around
       they are halves of different renames. */
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto new_dir = [](auto* m, auto const& path) -> std::string
   {
     auto is_new = m->mask & FAN_ONDIR && m->mask & (FAN_CREATE | FAN_MOVED_TO);
-- 
2.43.0


From 1d1bbe0369a0832a3ac2379947d54d46c0057235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 21/40] fix: fanotify: a path which cannot be read is a loss to
 announce

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp  | 9 ++++-----
 include/wtr/watcher.hpp                                  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 595d889..258c80f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -194,12 +194,11 @@ inline auto pathof(
       still holds open, has a handle but not a path. (As
       long as it has a link, the path we got was a path.) */
   struct stat dir_stat;
-  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
+  bool stat_ok = fstat(fd, &dir_stat) == 0;
   close(fd);
-  if (dir_gone || file_name_offset < 0) {
-    *ec = ENOENT;
-    return {};
-  }
+  if (file_name_offset < 0 || ! stat_ok) *ec = EBADF;
+  if (stat_ok && dir_stat.st_nlink == 0) *ec = ENOENT;
+  if (*ec) return {};
   auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
       If we have the directory name before here, we
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 05867d5..a9d152e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1187,12 +1187,11 @@ inline auto pathof(
       still holds open, has a handle but not a path. (As
       long as it has a link, the path we got was a path.) */
   struct stat dir_stat;
-  bool dir_gone = fstat(fd, &dir_stat) < 0 || dir_stat.st_nlink == 0;
+  bool stat_ok = fstat(fd, &dir_stat) == 0;
   close(fd);
-  if (dir_gone || file_name_offset < 0) {
-    *ec = ENOENT;
-    return {};
-  }
+  if (file_name_offset < 0 || ! stat_ok) *ec = EBADF;
+  if (stat_ok && dir_stat.st_nlink == 0) *ec = ENOENT;
+  if (*ec) return {};
   auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
       If we have the directory name before here, we
-- 
2.43.0


From 5f5bfd9aad6e48528bbb31560516401eb3a9ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 22/40] fix: watcher-c: give back a watcher which failed when
 it is closed

---
 watcher-c/src/watcher-c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..8bf28f9 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -69,9 +69,11 @@ void* wtr_watcher_open(
 bool wtr_watcher_close(void* watcher)
 {
   if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
+  /*  Closed is closed, even if the watcher ended with
+      an error. There is nothing left to be kept. */
+  bool ok = ((wtr::watcher::watch*)watcher)->close();
   delete (wtr::watcher::watch*)watcher;
-  return true;
+  return ok;
 }
 
 }  // extern "C"
-- 
2.43.0


From 2c3560455c42dfa82a549ba3f5a77625f30940f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 23/40] fix: convert numbers of any length to text, no less and
 no more

---
 devel/include/wtr/watcher-/event.hpp | 12 +++++++-----
 include/wtr/watcher.hpp              | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..1117fa3 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  `digits10` is one less than the most digits, and there may be a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a9d152e..f919bb6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  `digits10` is one less than the most digits, and there may be a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From 686fd25a4f47bbb15897ab804ce25c0d556f369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 24/40] fix: escape path names in json

---
 devel/include/wtr/watcher-/event.hpp | 24 ++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 1117fa3..9da60f0 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";     \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))      \
+                       + Lit"\"";                                             \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -195,6 +196,25 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names can hold almost anything, json strings can't:
+    Quotes, backslashes and control characters are escaped. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    bool is_control = c >= 0 && c < ' ';
+    if (is_control) {
+      for (auto u : {'\\', 'u', '0', '0', "01"[c >> 4], "0123456789abcdef"[c & 15]})
+        into += static_cast<Char>(u);
+    }
+    else {
+      if (c == '"' || c == '\\') into += static_cast<Char>('\\');
+      into += c;
+    }
+  }
+  return into;
+};
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f919bb6..0917e0d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";     \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))      \
+                       + Lit"\"";                                             \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -196,6 +197,25 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names can hold almost anything, json strings can't:
+    Quotes, backslashes and control characters are escaped. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    bool is_control = c >= 0 && c < ' ';
+    if (is_control) {
+      for (auto u : {'\\', 'u', '0', '0', "01"[c >> 4], "0123456789abcdef"[c & 15]})
+        into += static_cast<Char>(u);
+    }
+    else {
+      if (c == '"' || c == '\\') into += static_cast<Char>('\\');
+      into += c;
+    }
+  }
+  return into;
+};
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
-- 
2.43.0


From cfa81d47cd299aca7cf50f4fad3957fe6d2bde72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 25/40] fix: converting a name which is not well-formed utf-8
 to wide text is not the end of the program

---
 devel/include/wtr/watcher-/event.hpp | 31 +++++++++++++++++++++++++++-
 include/wtr/watcher.hpp              | 31 +++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 9da60f0..c19d959 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -196,6 +196,35 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Not every path name is something that can be converted:
+    On most systems, a name is just some bytes, and asking the
+    filesystem library for a wide string is an error if they
+    aren't well-formed utf-8. We keep the bytes which are not
+    as lone surrogates, from 0xDC80 on (a-la Python). */
+inline auto path_to_wide(std::filesystem::path const& from) noexcept -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto const& s = from.native();
+  auto into = std::wstring{};
+  for (std::size_t i = 0; i < s.size();) {
+    auto byte = [&](std::size_t at) -> unsigned { return at < s.size() ? static_cast<unsigned char>(s[at]) : 0; };
+    auto b = byte(i);
+    std::size_t len = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0;
+    auto code = len < 2 ? b : b & (0x7Fu >> len);
+    for (std::size_t n = 1; n < len; ++n) {
+      if ((byte(i + n) & 0xC0) != 0x80) { len = 0; break; }
+      code = code << 6 | (byte(i + n) & 0x3F);
+    }
+    if (len == 3 && (code < 0x800 || (code >= 0xD800 && code < 0xE000))) len = 0;
+    if (len == 4 && (code < 0x10000 || code > 0x10FFFF)) len = 0;
+    into += static_cast<wchar_t>(len ? code : 0xDC00 + b);
+    i += len ? len : 1;
+  }
+  return into;
+#endif
+};
+
 /*  Path names can hold almost anything, json strings can't:
     Quotes, backslashes and control characters are escaped. */
 template<class Char>
@@ -324,7 +353,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     path_to_wide(            from)};  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0917e0d..0bac8db 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -197,6 +197,35 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Not every path name is something that can be converted:
+    On most systems, a name is just some bytes, and asking the
+    filesystem library for a wide string is an error if they
+    aren't well-formed utf-8. We keep the bytes which are not
+    as lone surrogates, from 0xDC80 on (a-la Python). */
+inline auto path_to_wide(std::filesystem::path const& from) noexcept -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto const& s = from.native();
+  auto into = std::wstring{};
+  for (std::size_t i = 0; i < s.size();) {
+    auto byte = [&](std::size_t at) -> unsigned { return at < s.size() ? static_cast<unsigned char>(s[at]) : 0; };
+    auto b = byte(i);
+    std::size_t len = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0;
+    auto code = len < 2 ? b : b & (0x7Fu >> len);
+    for (std::size_t n = 1; n < len; ++n) {
+      if ((byte(i + n) & 0xC0) != 0x80) { len = 0; break; }
+      code = code << 6 | (byte(i + n) & 0x3F);
+    }
+    if (len == 3 && (code < 0x800 || (code >= 0xD800 && code < 0xE000))) len = 0;
+    if (len == 4 && (code < 0x10000 || code > 0x10FFFF)) len = 0;
+    into += static_cast<wchar_t>(len ? code : 0xDC00 + b);
+    i += len ? len : 1;
+  }
+  return into;
+#endif
+};
+
 /*  Path names can hold almost anything, json strings can't:
     Quotes, backslashes and control characters are escaped. */
 template<class Char>
@@ -325,7 +354,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     path_to_wide(            from)};  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
-- 
2.43.0


From 2f37b3aeb4849e118434e02cdac50186d1bb8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 26/40] fix: cli: a path which cannot be looked at is answered
 with help, not the end of the program

---
 src/wtr/watcher/main.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..a1c0da0 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -7,6 +7,7 @@
 #include <optional>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <thread>
 
 using namespace wtr;
@@ -54,11 +55,15 @@ struct Args {
 
     bool is_help = argis(1, "-h") || argis(1, "--help");
 
-    auto path =
-      is_help ? nullopt
-      : argc < 2 ? optional(fs::current_path())
-      : fs::exists(argv[1]) ? optional(fs::path(argv[1]))
-      : nullopt;
+    auto path = [&]() -> optional<fs::path> {
+      auto ec = error_code{};
+      auto given = is_help ? fs::path{}
+                 : argc < 2 ? fs::current_path(ec)
+                 : fs::path(argv[1]);
+      return ! ec && ! is_help && fs::exists(given, ec)
+           ? optional(given)
+           : nullopt;
+    }();
 
     auto time = [&]() -> optional<nanoseconds> {
       auto st = argc > 3 ? argv[3] : "0";
-- 
2.43.0


From 5c7307ce3e5b9c9af9c9b920a3597bcc496fe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 27/40] fix: cli: escape path names in json

---
 src/wtr/watcher/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index a1c0da0..e194e84 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -100,7 +100,7 @@ auto json(event const& e) -> string
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
+  auto q = [&](auto a) { return '"' + json_escaped(s(a)) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
        + ",\"path_name\":"   + q(e.path_name)
        + ",\"effect_type\":" + q(e.effect_type)
-- 
2.43.0


From 24d68e7f0f568c5e6146c075fdb94c6eac24683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 28/40] fix: cli: a time longer than the clock can tell is not
 cut short

---
 src/wtr/watcher/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index e194e84..728190a 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -82,8 +82,11 @@ struct Args {
         : targis("-years")        || targis("-y")   ? 365 * 24 * 60 * 60 * 1e9
                                                     :                      1e6;
       auto td = strtod(st, (char**)&stend);
-      if (is_help || td == HUGE_VAL || td <= 0)
+      auto max = nanoseconds::max();
+      if (is_help || td == HUGE_VAL || ! (td > 0))
         return nullopt;
+      else if (td >= max.count() / ttons)
+        return max;
       else
         return nanoseconds(llroundl(td) * ttons);
     }();
-- 
2.43.0


From 56a673c9c35e1f7a97895a9b24e67809949dde27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 29/40] fix: warthog: build where it is asked for, and as c++17

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 24 ++++++++++++-------
 include/wtr/watcher.hpp                       | 24 ++++++++++++-------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index c5637c2..3f5da93 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -4,10 +4,14 @@
 
     This is the fallback adapter on platforms that either
       - Only support `kqueue` (`warthog` beats `kqueue`)
-      - Only support the C++ standard library */
+      - Only support the C++ standard library
+    And on those with kernels too old for anything else,
+    where `WATER_WATCHER_USE_WARTHOG` is defined. */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__) \
+     && ! defined(__APPLE__) && ! defined(_WIN32))      \
+  || ((defined(__linux__) || defined(__ANDROID_API__))  \
+      && defined(WATER_WATCHER_USE_WARTHOG))
 
 #include "wtr/watcher.hpp"
 #include <chrono>
@@ -35,9 +39,10 @@ using bucket_type =
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Send>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -60,10 +65,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.find(file) == bucket.end()) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -115,9 +120,10 @@ inline bool scan(
 
 /*  If the bucket is empty, try to populate it.
     otherwise, prune it. */
+template<class Send>
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
@@ -130,8 +136,10 @@ inline bool tend_bucket(
     auto lwt_ec = std::error_code{};
     if (! exists(path))
       return false;
-    else if (! is_directory(path))
+    else if (! is_directory(path)) {
       bucket[path] = last_write_time(path);
+      return true;
+    }
     else {
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0bac8db..f6edaf9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2170,10 +2170,14 @@ inline auto watch(
 
     This is the fallback adapter on platforms that either
       - Only support `kqueue` (`warthog` beats `kqueue`)
-      - Only support the C++ standard library */
+      - Only support the C++ standard library
+    And on those with kernels too old for anything else,
+    where `WATER_WATCHER_USE_WARTHOG` is defined. */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__) \
+     && ! defined(__APPLE__) && ! defined(_WIN32))      \
+  || ((defined(__linux__) || defined(__ANDROID_API__))  \
+      && defined(WATER_WATCHER_USE_WARTHOG))
 
 #include <chrono>
 #include <filesystem>
@@ -2200,9 +2204,10 @@ using bucket_type =
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Send>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -2225,10 +2230,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.find(file) == bucket.end()) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -2280,9 +2285,10 @@ inline bool scan(
 
 /*  If the bucket is empty, try to populate it.
     otherwise, prune it. */
+template<class Send>
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
@@ -2295,8 +2301,10 @@ inline bool tend_bucket(
     auto lwt_ec = std::error_code{};
     if (! exists(path))
       return false;
-    else if (! is_directory(path))
+    else if (! is_directory(path)) {
       bucket[path] = last_write_time(path);
+      return true;
+    }
     else {
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-- 
2.43.0


From 64b9008ae3e8d39df32b6ea72ffd440c343a5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 30/40] fix: warthog: report what no longer is, tell
 directories from files, and outlive what cannot be looked at

Removed paths were never pruned (operator precedence), except when they could
not be compared; what was pruned had the type of something which is not there;
a path which became something else was not told apart; an entry which vanished
during a scan, or which could not be read, ended the program by an exception.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 266 ++++++++----------
 include/wtr/watcher.hpp                       | 266 ++++++++----------
 2 files changed, 244 insertions(+), 288 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 3f5da93..55c9238 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -16,11 +16,11 @@
 #include "wtr/watcher.hpp"
 #include <chrono>
 #include <filesystem>
-#include <functional>
 #include <string>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -28,12 +28,77 @@ namespace watcher {
 namespace adapter {
 namespace {
 
+/*  We can't look into everything, and we don't follow links. */
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+/*  What we know about a path, while it exists. */
+struct bucket_entry {
+  enum ::wtr::watcher::event::path_type type;
+  std::filesystem::file_time_type time;
+};
+
+using bucket_type = std::unordered_map<std::string, bucket_entry>;
+
+/*  - Regular files (and links to them) are files,
+    - Directories (and not links to them) are directories,
+    - Nothing else is of interest.
+    On errors, other than for paths which don't exist,
+    we can't tell. */
+enum class kind { file, dir, none, unknown };
+
+inline auto kind_of(std::filesystem::path const& path) noexcept -> kind
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  auto is_link = is_symlink(symlink_status(path, ec));
+  auto st = status(path, ec);
+  return is_regular_file(st)           ? kind::file
+       : is_directory(st) && ! is_link ? kind::dir
+       : ! status_known(st)            ? kind::unknown
+                                       : kind::none;
+}
+
+/*  Calls `visit` with everything in the file tree.
+    Entries might come, go, or not be ours to look at
+    while we're here. Those are for another time.
+    Returns false if the file tree cannot be scanned. */
+template<class Visit>
+inline bool walk(std::filesystem::path const& path, Visit const& visit) noexcept
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  if (! is_directory(path, ec)) return false;
+  auto dirs = std::vector<std::filesystem::path>{path};
+  while (! dirs.empty()) {
+    auto it = directory_iterator(dirs.back(), scan_dir_opts, ec);
+    dirs.pop_back();
+    for (; ! ec && it != directory_iterator{}; it.increment(ec)) {
+      auto kd = kind_of(it->path());
+      if (kd == kind::dir) dirs.push_back(it->path());
+      visit(it->path(), kd);
+    }
+  }
+  return true;
+}
+
+/*  Puts the file tree, as it is, in our bucket. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
+{
+  using ::wtr::watcher::event;
+  return walk(
+    path,
+    [&](std::filesystem::path const& at, kind kd)
+    {
+      auto ec = std::error_code{};
+      auto timestamp = std::filesystem::last_write_time(at, ec);
+      if (kd == kind::dir)
+        bucket[at.string()] = {event::path_type::dir, timestamp};
+      else if (kd == kind::file && ! ec)
+        bucket[at.string()] = {event::path_type::file, timestamp};
+    });
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
@@ -45,154 +110,67 @@ inline bool scan(
   Send const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  - Scans a (single) file for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the file cannot be scanned. */
-  auto scan_file =
-    [&](std::filesystem::path const& file, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    if (exists(file) && is_regular_file(file)) {
+  using ::wtr::watcher::event;
+  return walk(
+    path,
+    [&](std::filesystem::path const& at, kind kd)
+    {
+      if (kd != kind::file && kd != kind::dir) return;
+      auto type =
+        kd == kind::dir ? event::path_type::dir : event::path_type::file;
       auto ec = std::error_code{};
-      /*  grabbing the file's last write time */
-      auto timestamp = last_write_time(file, ec);
-      if (ec) {
-        /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
-      }
+      /*  grabbing the last write time */
+      auto timestamp = std::filesystem::last_write_time(at, ec);
+      /*  it changed while we were looking at it.
+          the next time around will tell. */
+      if (ec) return;
+      auto it = bucket.find(at.string());
       /*  if it's not in our bucket, */
-      else if (bucket.find(file) == bucket.end()) {
+      if (it == bucket.end()) {
         /*  we put it in there and call the closure,
             indicating creation. */
-        bucket[file] = timestamp;
-        send_event(
-          event{file, event::effect_type::create, event::path_type::file});
+        bucket[at.string()] = {type, timestamp};
+        send_event(event{at, event::effect_type::create, type});
       }
-      /*  otherwise, it is already in our bucket. */
-      else {
-        /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
-          /*  and call the closure on them,
-              indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
-        }
+      /*  otherwise, it is already in our bucket.
+          (and if it's something else by now, we prune it.) */
+      else if (it->second.type == type && it->second.time != timestamp) {
+        /*  we update the last write time, */
+        it->second.time = timestamp;
+        /*  and call the closure on files,
+            indicating modification */
+        if (kd == kind::file)
+          send_event(event{at, event::effect_type::modify, type});
       }
-      return true;
-    }
-    else
-      return false; /*  if the path doesn't exist, nudge the caller. */
-  };
-
-  /*  - Scans a (single) directory for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the directory cannot be scanned. */
-  auto const& scan_directory =
-    [&](std::filesystem::path const& dir, auto const& send_event) -> bool
-  {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
-      return true;
-    }
-    else
-      return false;
-  };
-
-  return scan_directory(path, send_event) ? true
-       : scan_file(path, send_event)      ? true
-                                          : false;
-};
+    });
+}
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
+/*  Removes what no longer exists, or became something
+    else, from our bucket.
+    Calls `send_event` when that happens. */
 template<class Send>
-inline bool tend_bucket(
-  std::filesystem::path const& path,
-  Send const& send_event,
-  bucket_type& bucket) noexcept
+inline void prune(Send const& send_event, bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path)) {
-      bucket[path] = last_write_time(path);
-      return true;
-    }
+  using ::wtr::watcher::event;
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    auto [at, was] = *bucket_it;
+    /*  check if the stuff in our bucket exists anymore. */
+    auto kd = kind_of(at);
+    bool is_there = kd == kind::unknown
+                 || (kd == kind::dir && was.type == event::path_type::dir)
+                 || (kd == kind::file && was.type == event::path_type::file);
+    /*  if so, move on. */
+    if (is_there) ++bucket_it;
+    /*  if not, remove it from our bucket and call
+        the closure, indicating destruction. */
     else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
+      bucket_it = bucket.erase(bucket_it);
+      send_event(event{at, event::effect_type::destroy, was.type});
     }
-    return true;
-  };
-
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
-};
+  }
+}
 
 } /* namespace */
 
@@ -207,11 +185,11 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f6edaf9..08b11de 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2181,11 +2181,11 @@ inline auto watch(
 
 #include <chrono>
 #include <filesystem>
-#include <functional>
 #include <string>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -2193,12 +2193,77 @@ namespace watcher {
 namespace adapter {
 namespace {
 
+/*  We can't look into everything, and we don't follow links. */
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
+
+/*  What we know about a path, while it exists. */
+struct bucket_entry {
+  enum ::wtr::watcher::event::path_type type;
+  std::filesystem::file_time_type time;
+};
+
+using bucket_type = std::unordered_map<std::string, bucket_entry>;
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+/*  - Regular files (and links to them) are files,
+    - Directories (and not links to them) are directories,
+    - Nothing else is of interest.
+    On errors, other than for paths which don't exist,
+    we can't tell. */
+enum class kind { file, dir, none, unknown };
+
+inline auto kind_of(std::filesystem::path const& path) noexcept -> kind
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  auto is_link = is_symlink(symlink_status(path, ec));
+  auto st = status(path, ec);
+  return is_regular_file(st)           ? kind::file
+       : is_directory(st) && ! is_link ? kind::dir
+       : ! status_known(st)            ? kind::unknown
+                                       : kind::none;
+}
+
+/*  Calls `visit` with everything in the file tree.
+    Entries might come, go, or not be ours to look at
+    while we're here. Those are for another time.
+    Returns false if the file tree cannot be scanned. */
+template<class Visit>
+inline bool walk(std::filesystem::path const& path, Visit const& visit) noexcept
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  if (! is_directory(path, ec)) return false;
+  auto dirs = std::vector<std::filesystem::path>{path};
+  while (! dirs.empty()) {
+    auto it = directory_iterator(dirs.back(), scan_dir_opts, ec);
+    dirs.pop_back();
+    for (; ! ec && it != directory_iterator{}; it.increment(ec)) {
+      auto kd = kind_of(it->path());
+      if (kd == kind::dir) dirs.push_back(it->path());
+      visit(it->path(), kd);
+    }
+  }
+  return true;
+}
+
+/*  Puts the file tree, as it is, in our bucket. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
+{
+  using ::wtr::watcher::event;
+  return walk(
+    path,
+    [&](std::filesystem::path const& at, kind kd)
+    {
+      auto ec = std::error_code{};
+      auto timestamp = std::filesystem::last_write_time(at, ec);
+      if (kd == kind::dir)
+        bucket[at.string()] = {event::path_type::dir, timestamp};
+      else if (kd == kind::file && ! ec)
+        bucket[at.string()] = {event::path_type::file, timestamp};
+    });
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
@@ -2210,154 +2275,67 @@ inline bool scan(
   Send const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  - Scans a (single) file for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the file cannot be scanned. */
-  auto scan_file =
-    [&](std::filesystem::path const& file, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    if (exists(file) && is_regular_file(file)) {
+  using ::wtr::watcher::event;
+  return walk(
+    path,
+    [&](std::filesystem::path const& at, kind kd)
+    {
+      if (kd != kind::file && kd != kind::dir) return;
+      auto type =
+        kd == kind::dir ? event::path_type::dir : event::path_type::file;
       auto ec = std::error_code{};
-      /*  grabbing the file's last write time */
-      auto timestamp = last_write_time(file, ec);
-      if (ec) {
-        /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
-      }
+      /*  grabbing the last write time */
+      auto timestamp = std::filesystem::last_write_time(at, ec);
+      /*  it changed while we were looking at it.
+          the next time around will tell. */
+      if (ec) return;
+      auto it = bucket.find(at.string());
       /*  if it's not in our bucket, */
-      else if (bucket.find(file) == bucket.end()) {
+      if (it == bucket.end()) {
         /*  we put it in there and call the closure,
             indicating creation. */
-        bucket[file] = timestamp;
-        send_event(
-          event{file, event::effect_type::create, event::path_type::file});
+        bucket[at.string()] = {type, timestamp};
+        send_event(event{at, event::effect_type::create, type});
       }
-      /*  otherwise, it is already in our bucket. */
-      else {
-        /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
-          /*  and call the closure on them,
-              indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
-        }
+      /*  otherwise, it is already in our bucket.
+          (and if it's something else by now, we prune it.) */
+      else if (it->second.type == type && it->second.time != timestamp) {
+        /*  we update the last write time, */
+        it->second.time = timestamp;
+        /*  and call the closure on files,
+            indicating modification */
+        if (kd == kind::file)
+          send_event(event{at, event::effect_type::modify, type});
       }
-      return true;
-    }
-    else
-      return false; /*  if the path doesn't exist, nudge the caller. */
-  };
-
-  /*  - Scans a (single) directory for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the directory cannot be scanned. */
-  auto const& scan_directory =
-    [&](std::filesystem::path const& dir, auto const& send_event) -> bool
-  {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
-      return true;
-    }
-    else
-      return false;
-  };
-
-  return scan_directory(path, send_event) ? true
-       : scan_file(path, send_event)      ? true
-                                          : false;
-};
+    });
+}
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
+/*  Removes what no longer exists, or became something
+    else, from our bucket.
+    Calls `send_event` when that happens. */
 template<class Send>
-inline bool tend_bucket(
-  std::filesystem::path const& path,
-  Send const& send_event,
-  bucket_type& bucket) noexcept
+inline void prune(Send const& send_event, bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path)) {
-      bucket[path] = last_write_time(path);
-      return true;
-    }
+  using ::wtr::watcher::event;
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    auto [at, was] = *bucket_it;
+    /*  check if the stuff in our bucket exists anymore. */
+    auto kd = kind_of(at);
+    bool is_there = kd == kind::unknown
+                 || (kd == kind::dir && was.type == event::path_type::dir)
+                 || (kd == kind::file && was.type == event::path_type::file);
+    /*  if so, move on. */
+    if (is_there) ++bucket_it;
+    /*  if not, remove it from our bucket and call
+        the closure, indicating destruction. */
     else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
+      bucket_it = bucket.erase(bucket_it);
+      send_event(event{at, event::effect_type::destroy, was.type});
     }
-    return true;
-  };
-
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
-};
+  }
+}
 
 } /* namespace */
 
@@ -2372,11 +2350,11 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
-- 
2.43.0


From c00de82af094ec63a1ec3eb45e879683ac78ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 31/40] fix: python: events for path names which are not utf-8
 are not lost

Decoding such a name raised in the callback, where nobody can catch it,
and such a path could not be watched.
---
 watcher-py/watcher/watcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..2e6dc4b 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -59,22 +59,22 @@ def _lazy_static_solib_handle() -> ctypes.CDLL:
     return _LIB
 
 
-def _as_utf8(s: str | bytes | memoryview | None) -> str:
+def _as_str(s: str | bytes | memoryview | None) -> str:
     if s is None:
         return ""
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return os.fsdecode(s.tobytes())
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return os.fsdecode(s)
     raise TypeError()
 
 
 def _c_event_to_event(c_event: _CEvent) -> Event:
     effect_time = c_event.effect_time
-    path_name = _as_utf8(c_event.path_name)
-    associated_path_name = _as_utf8(c_event.associated_path_name) or None
+    path_name = _as_str(c_event.path_name)
+    associated_path_name = _as_str(c_event.associated_path_name) or None
     effect_type = EffectType(c_event.effect_type)
     path_type = PathType(c_event.path_type)
     return Event(effect_time, path_name, associated_path_name, effect_type, path_type)
@@ -174,7 +174,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = os.fsencode(path)
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 8da34b1876307fa2c6c369d9f3e3f713080e62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 32/40] fix: python: escape path names in json

---
 watcher-py/watcher/watcher.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 2e6dc4b..964bf48 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,13 +142,16 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
-        return f'{{\
-"effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
-"associated_path_name":{apn},\
-"effect_type":"{_ET_TO_S[self.effect_type]}",\
-"path_type":"{_PT_TO_S[self.path_type]}"}}'
+        return json.dumps(
+            {
+                "effect_time": self.effect_time,
+                "path_name": self.path_name,
+                "associated_path_name": self.associated_path_name,
+                "effect_type": _ET_TO_S[self.effect_type],
+                "path_type": _PT_TO_S[self.path_type],
+            },
+            separators=(",", ":"),
+        )
 
 
 class Watch:
-- 
2.43.0


From eebc86439bc0b360b5b1df16762da7b3b5301013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 33/40] fix: python: close the watcher exactly once, also when
 the program exits

- Two threads in `close` closed the same native watcher twice.
- A watcher still open at exit was closed after callbacks became impossible,
  which ended the program with an abort.
- Deleting a watcher which could not be opened raised.
---
 watcher-py/watcher/watcher.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 964bf48..5ee93b0 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -3,10 +3,12 @@ Filesystem watcher. Simple, efficient and friendly.
 """
 
 from __future__ import annotations
+import atexit
 import ctypes
 import json
 import os
 import sys
+import weakref
 from typing import Callable
 from dataclasses import dataclass
 from enum import Enum
@@ -154,6 +156,17 @@ class Event:
         )
 
 
+# Whatever is still open when the program exits is closed while callbacks
+# are still possible. (After that, they would end the program.)
+_OPEN: weakref.WeakSet[Watch] = weakref.WeakSet()
+
+
+@atexit.register
+def _close_all():
+    for watch in list(_OPEN):
+        watch.close()
+
+
 class Watch:
     """
     Filesystem watcher.
@@ -177,21 +190,24 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        self._watcher = None
         self._lib = _lazy_static_solib_handle()
         self._path = os.fsencode(path)
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
             raise RuntimeError("Failed to open a watcher")
+        _OPEN.add(self)
 
     def close(self):
         """
         You can call this manually (not required) to close the watcher.
         Preferred to use a context manager, like in the example.
         """
-        if self._watcher:
-            self._lib.wtr_watcher_close(self._watcher)
-            self._watcher = None
+        # Taken before closing, which lets other threads run.
+        watcher, self._watcher = self._watcher, None
+        if watcher:
+            self._lib.wtr_watcher_close(watcher)
 
     def __del__(self):
         self.close()
-- 
2.43.0


From 57439b821edc065dfb082df03d8233ffac956909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 34/40] fix: python: the library is not used before it is set
 up

Another thread which opened a watcher meanwhile called it with the handle cut
to an int.
---
 watcher-py/watcher/watcher.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 5ee93b0..02a0202 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -54,11 +54,13 @@ def _lazy_static_solib_handle() -> ctypes.CDLL:
     # pylint: disable=global-statement
     global _LIB
     if _LIB is None:
-        _LIB = ctypes.CDLL(solib_path())
-        _LIB.wtr_watcher_open.argtypes = [ctypes.c_char_p, _CCallback, ctypes.c_void_p]
-        _LIB.wtr_watcher_open.restype = ctypes.c_void_p
-        _LIB.wtr_watcher_close.argtypes = [ctypes.c_void_p]
-        _LIB.wtr_watcher_close.restype = ctypes.c_bool
+        lib = ctypes.CDLL(solib_path())
+        lib.wtr_watcher_open.argtypes = [ctypes.c_char_p, _CCallback, ctypes.c_void_p]
+        lib.wtr_watcher_open.restype = ctypes.c_void_p
+        lib.wtr_watcher_close.argtypes = [ctypes.c_void_p]
+        lib.wtr_watcher_close.restype = ctypes.c_bool
+        # Others may use it from here on.
+        _LIB = lib
     return _LIB
 
 
-- 
2.43.0


From c43eebe50bf94ec7aa45f19ce13ce569dcdee5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 35/40] fix: nodejs: events are not lost when more than 1024
 are waiting

They were not freed either. And a thread-safe function which is closing is
not called again.
---
 watcher-nodejs/lib/watcher-napi.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..44d1897 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -79,8 +79,16 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
+  napi_status status = napi_closing;
   if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+    status = napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+    /*  It is gone, or about to be. We may not use it again. */
+    if (status == napi_closing) w->tsfn = NULL;
+  }
+  if (status != napi_ok) {
+    free((void*)event_owned->path_name);
+    free((void*)event_owned->associated_path_name);
+    free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +150,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  No limit. Events which wouldn't fit would be lost, and
+      we can't block: The watcher waits for us to be closed. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From 984456dc08be0bbeb40f25c1ea8ec4cd7f1e4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 36/40] fix: nodejs: a watcher is released exactly once,
 however it ends

- Closing the same watcher object again used memory which was freed.
- What could not be opened was not released, and what was not initialised was
  used: for a callback which is not a function, or any failure on the way.
- A watcher which is open when the environment (the program, or a worker) ends
  called into it afterwards.
- Paths of 4096 bytes and more were cut short.
---
 watcher-nodejs/lib/watcher-napi.cpp | 130 +++++++++++++++++++---------
 1 file changed, 88 insertions(+), 42 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 44d1897..72b330f 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -17,11 +17,48 @@
     - A reference to the user's callback, which
       we release when the watcher is closed. */
 struct watcher_lifetime {
+  napi_env env = NULL;
   napi_ref js_callback_ref = NULL;
   napi_threadsafe_function tsfn = NULL;
   void* watcher = NULL;
+  bool is_finalized = false;
 };
 
+/*  Closes the watcher, if it is open, then releases what it needed.
+    Is safe to call more than once. */
+static bool release(watcher_lifetime* w, napi_threadsafe_function_release_mode mode)
+{
+  bool ok = w->watcher && wtr_watcher_close(w->watcher);
+  w->watcher = NULL;
+  if (w->tsfn) {
+    napi_release_threadsafe_function(w->tsfn, mode);
+    w->tsfn = NULL;
+  }
+  if (w->js_callback_ref) {
+    napi_delete_reference(w->env, w->js_callback_ref);
+    w->js_callback_ref = NULL;
+  }
+  return ok;
+}
+
+/*  Called when js-land can't close the watcher (anymore, or again).
+    If it is still open, events are still wanted. */
+static void finalize(napi_env _env, void* data, void* _hint)
+{
+  watcher_lifetime* w = (watcher_lifetime*)data;
+  w->is_finalized = true;
+  if (! w->watcher) delete w;
+}
+
+/*  Called when js-land ends while the watcher is open.
+    Nothing may call into it from here on. */
+static void env_cleanup(void* data)
+{
+  watcher_lifetime* w = (watcher_lifetime*)data;
+  release(w, napi_tsfn_abort);
+  if (w->is_finalized) delete w;
+}
+
 static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
 {
   napi_value event_obj = NULL;
@@ -107,22 +144,12 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
     return result;
   }
   watcher_lifetime* w = (watcher_lifetime*)ctx;
-  bool closed_ok = wtr_watcher_close(w->watcher);
-  napi_get_boolean(env, closed_ok, &result);
-  if (w->tsfn) {
-    napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
-    w->tsfn = NULL;
-  } else {
-    napi_get_boolean(env, false, &result);
-  }
-  if (w->js_callback_ref) {
-    napi_delete_reference(env, w->js_callback_ref);
-    w->js_callback_ref = NULL;
-  } else {
-    napi_get_boolean(env, false, &result);
+  if (! w->watcher) {
+    return result;
   }
-  free(w);
-  w = NULL;
+  napi_remove_env_cleanup_hook(env, env_cleanup, w);
+  bool closed_ok = release(w, napi_tsfn_release);
+  napi_get_boolean(env, closed_ok, &result);
   return result;
 }
 
@@ -141,41 +168,60 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     napi_throw_error(env, NULL, "Wrong number of arguments");
     return NULL;
   }
-  char path[4096];
-  memset(path, 0, sizeof(path));
   size_t path_len = 0;
-  napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
-  watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
+  if (napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len) != napi_ok) {
+    napi_throw_type_error(env, NULL, "The path must be a string");
+    return NULL;
+  }
   napi_value js_callback = args[1];
-  napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
-  napi_value work_name;
-  napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
+  napi_valuetype js_callback_type = napi_undefined;
+  napi_typeof(env, js_callback, &js_callback_type);
+  if (js_callback_type != napi_function) {
+    napi_throw_type_error(env, NULL, "The callback must be a function");
+    return NULL;
+  }
+  /*  Until it is reachable from js-land, we own this. */
+  watcher_lifetime* wrapper = new watcher_lifetime{};
+  wrapper->env = env;
+  napi_value watcher_obj = NULL;
+  napi_value close_func = NULL;
+  napi_value work_name = NULL;
+  bool ok = napi_create_object(env, &watcher_obj) == napi_ok
+         && napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func) == napi_ok
+         && napi_set_named_property(env, watcher_obj, "close", close_func) == napi_ok
+         && napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name) == napi_ok;
+  if (! ok || napi_add_finalizer(env, close_func, wrapper, finalize, NULL, NULL) != napi_ok) {
+    delete wrapper;
+    napi_throw_error(env, NULL, "Failed to open watcher");
+    return NULL;
+  }
   /*  No limit. Events which wouldn't fit would be lost, and
       we can't block: The watcher waits for us to be closed. */
   size_t work_queue_size = 0;
-  napi_create_threadsafe_function(
-    env,
-    js_callback,
-    NULL,
-    work_name,
-    work_queue_size,
-    1,
-    wrapper,
-    NULL,
-    NULL,
-    callback_js_receiver,
-    &wrapper->tsfn);
-  wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
-  if (wrapper->watcher == NULL) {
+  ok = napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref) == napi_ok
+    && napi_create_threadsafe_function(
+         env,
+         js_callback,
+         NULL,
+         work_name,
+         work_queue_size,
+         1,
+         wrapper,
+         NULL,
+         NULL,
+         callback_js_receiver,
+         &wrapper->tsfn) == napi_ok;
+  if (ok) {
+    char* path = (char*)malloc(path_len + 1);
+    ok = napi_get_value_string_utf8(env, args[0], path, path_len + 1, &path_len) == napi_ok;
+    if (ok) wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
+    free(path);
+  }
+  if (! wrapper->watcher || napi_add_env_cleanup_hook(env, env_cleanup, wrapper) != napi_ok) {
+    release(wrapper, napi_tsfn_release);
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
-  napi_value watcher_obj = NULL;
-  napi_create_object(env, &watcher_obj);
-  napi_value close_func = NULL;
-  napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func);
-  napi_set_named_property(env, watcher_obj, "close", close_func);
-  napi_wrap(env, watcher_obj, wrapper, NULL, NULL, NULL);
   return watcher_obj;
 }
 
-- 
2.43.0


From 004e054a4a4db259e376681fa7e710a260ddf15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 37/40] fix: rust: events of paths which are not UTF-8 keep
 their names

---
 watcher-rs/src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..49df722 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -7,7 +7,6 @@ use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -16,6 +15,7 @@ use futures::channel::mpsc::UnboundedSender as Tx;
 use futures::Stream;
 use serde::Deserialize;
 use serde::Serialize;
+use std::borrow::Cow;
 use std::ffi::CString;
 
 #[derive(Debug, Clone, Copy)]
@@ -53,14 +53,11 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<Cow<'a, str>> {
     match ptr.is_null() {
         true => None,
-        false => {
-            let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
-        }
+        // A path may be any sequence of bytes, not only UTF-8
+        false => Some(unsafe { CStr::from_ptr(ptr) }.to_string_lossy()),
     }
 }
 
@@ -94,7 +91,7 @@ fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
         path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        associated_path_name: c_chars_as_str(ev.associated_path_name).map(Cow::into_owned),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From b2f4f730b06ea393b0a3a0e8f6ab32e5f2ddd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 38/40] fix: rust: a path with a nul byte is an error, not a
 panic

---
 watcher-rs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 49df722..1f2affd 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -112,7 +112,7 @@ pub struct Watch {
 
 impl Watch {
     pub fn try_new(path: &str) -> Result<Watch, &'static str> {
-        let p = CString::new(path).unwrap();
+        let p = CString::new(path).map_err(|_| "path contains a nul byte")?;
         let (tx, rx) = async_channel();
         let tx = Box::new(tx);
         let rx = Box::pin(rx);
-- 
2.43.0


From 60ac4ae91d835f921f2bd7081badc0706868ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 39/40] fix: rust: the watcher is closed once, not again when
 dropped

---
 watcher-rs/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 1f2affd..8fe8efc 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -2,11 +2,13 @@
 #![allow(non_camel_case_types)]
 #![allow(non_snake_case)]
 include!(concat!(env!("OUT_DIR"), "/watcher_c.rs"));
+use core::cell::Cell;
 use core::ffi::c_char;
 use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
+use core::ptr::null_mut;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -105,7 +107,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>, // null once closed
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -119,14 +121,17 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch { w: Cell::new(w), tx, rx }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
-            false => Err("wtr_watcher_close"),
-            true => Ok(()),
+        match self.w.replace(null_mut()) {
+            w if w.is_null() => Err("already closed"),
+            w => match unsafe { wtr_watcher_close(w) } {
+                false => Err("wtr_watcher_close"),
+                true => Ok(()),
+            },
         }
     }
 }
-- 
2.43.0


From 171975d01d39e7ad4fca9928249508d1a54c99b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 40/40] fix: a relative path is taken from the working
 directory at the time it is given

---
 devel/include/wtr/watcher-/watch.hpp | 16 +++++++++++++---
 include/wtr/watcher.hpp              | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index c358304..22db074 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -56,18 +56,28 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  /*  Empty, and so no directory, if there is no such thing. */
+  static inline auto absolute_path(std::filesystem::path const& path)
+    -> std::filesystem::path
+  {
+    auto ec = std::error_code{};
+    return std::filesystem::absolute(path, ec);
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
       : watching{std::async(
           std::launch::async,
-          [this, path, callback]
+          /*  A relative path means what it means to whoever
+              gave it to us, now. The working directory might
+              be another one when our thread runs. */
+          [this, abs_path = absolute_path(path), callback]
           {
             using ::detail::wtr::watcher::adapter::watch;
             auto ec = std::error_code{};
-            auto abs_path = std::filesystem::absolute(path, ec);
-            auto pre_ok = ! ec && std::filesystem::is_directory(abs_path, ec)
+            auto pre_ok = std::filesystem::is_directory(abs_path, ec)
                        && ! ec && this->living.state() == sb::state::pending;
             auto live_msg =
               (pre_ok ? "s/self/live@" : "e/self/live@") + abs_path.string();
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 08b11de..0309a06 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2423,18 +2423,28 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  /*  Empty, and so no directory, if there is no such thing. */
+  static inline auto absolute_path(std::filesystem::path const& path)
+    -> std::filesystem::path
+  {
+    auto ec = std::error_code{};
+    return std::filesystem::absolute(path, ec);
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
       : watching{std::async(
           std::launch::async,
-          [this, path, callback]
+          /*  A relative path means what it means to whoever
+              gave it to us, now. The working directory might
+              be another one when our thread runs. */
+          [this, abs_path = absolute_path(path), callback]
           {
             using ::detail::wtr::watcher::adapter::watch;
             auto ec = std::error_code{};
-            auto abs_path = std::filesystem::absolute(path, ec);
-            auto pre_ok = ! ec && std::filesystem::is_directory(abs_path, ec)
+            auto pre_ok = std::filesystem::is_directory(abs_path, ec)
                        && ! ec && this->living.state() == sb::state::pending;
             auto live_msg =
               (pre_ok ? "s/self/live@" : "e/self/live@") + abs_path.string();
-- 
2.43.0

