From 5176bc62576f73059767236eb31101eafded2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 01/31] fix: keep watching when epoll_wait is interrupted by a
 signal

An interrupted wait (EINTR) says nothing about the watch; it ended it with
e/sys/api/epoll.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 5 ++++-
 include/wtr/watcher.hpp                                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..0bbca39 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -26,7 +27,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..c8221f3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1647,6 +1647,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1663,7 +1664,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
-- 
2.43.0


From 044976c0b90e60047ce05f7833e5874b413b537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 02/31] fix: don't let a later entry of an epoll batch undo a
 stop or an error

When the stop descriptor and the event descriptor were ready together, the
result of the later one replaced the earlier one: the callback kept running
after a stop was seen, and a fatal read error could be lost.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 0bbca39..f2199e0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -32,7 +32,7 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c8221f3..4e0f758 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1669,7 +1669,7 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From 1ae1666f8192d1db44bd55fe0cc1ae2e81edbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 03/31] fix: don't leak the inotify and fanotify descriptors to
 child programs

Every other descriptor we open is close-on-exec.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 1 +
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                        | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..ed89fc3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -45,6 +45,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..9c91c13 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -126,7 +126,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4e0f758..1354922 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1031,6 +1031,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
@@ -1405,7 +1406,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
-- 
2.43.0


From 6844d976c68d49a14c276aea050a422c481c4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 04/31] fix: tell transient read failures from lasting ones

With fanotify the test was the wrong way around: nothing to read (EAGAIN)
ended the watch, and real errors were ignored, for ever. A read interrupted
by a signal isn't an error either.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp   | 6 +++---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp    | 2 +-
 include/wtr/watcher.hpp                                   | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ed89fc3..a701d6e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -262,10 +262,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 9c91c13..fad7be4 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -322,7 +322,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1354922..5ac51f6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1248,10 +1248,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
@@ -1602,7 +1602,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
-- 
2.43.0


From 92ef05b6ae2a4a0b2354588c0aa8372a96d1000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 05/31] fix: report an inotify queue overflow as what it is

The kernel reports an overflow with no watch descriptor (-1), so it was never
found in the path map, and told to the user as a phantom event.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index fad7be4..3c6980f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -337,10 +337,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 5ac51f6..bc4b062 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1617,10 +1617,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From 96aa004b1073d91c6f28214e1cdbec059c292e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 06/31] fix: find the directories of filesystems which don't
 tell entry types

Some filesystems give DT_UNKNOWN for every entry. No directory below the
given one was watched on them. A name which doesn't fit our buffer isn't
the name of what we found, so it is skipped.
---
 .../detail/wtr/watcher/adapter/linux/sysres.hpp     | 13 +++++++++++--
 include/wtr/watcher.hpp                             | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..01a2d9b 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -128,6 +128,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  Not for a link to a directory. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -156,10 +163,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc4b062..fe1c30d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -944,6 +944,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  Not for a link to a directory. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -972,10 +979,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
-- 
2.43.0


From 117ebd4ac8b04ba9ee6f8b0f1b987960a140e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 07/31] fix: say so when a directory can't be opened, and isn't
 watched

A directory we can't open (because of its permissions, or for the lack of
file descriptors) was left out without a word. Try to mark it, regardless,
which warns the user when that fails.
---
 devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp | 2 +-
 include/wtr/watcher.hpp                                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 01a2d9b..e96ccb2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -158,8 +158,8 @@ inline auto is_real_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fe1c30d..edff79e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -974,8 +974,8 @@ inline auto is_real_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-- 
2.43.0


From d32cb20bf0e2cc47b52976da642608d01fb7f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 08/31] fix: watch what is inside of new directories, and moved
 directories

With inotify, only a newly created directory was marked. Directories made
in it before we marked it, and all the directories moved into the tree,
were never watched. For a directory which was moved within the tree, the
path map kept the old path, so its events were told with paths which no
longer exist.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp   | 9 ++++++---
 include/wtr/watcher.hpp                                  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 3c6980f..c24e871 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -113,7 +113,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -343,8 +343,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
+        if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
+          walkdir_do(
+            to.c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index edff79e..35aef97 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1402,7 +1402,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1632,8 +1632,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
+        if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
+          walkdir_do(
+            to.c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 7720f96b82e22c3e1df8b0f539acc9ddcccb9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 09/31] fix: watch what is inside of new and moved directories
 with fanotify

Only a newly created directory was marked. Directories made in it before
we marked it, and directories moved into the tree, were never watched.
---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp   | 14 ++++++++------
 include/wtr/watcher.hpp                            | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index a701d6e..940edcb 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -221,14 +221,16 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
+  using ev_et = enum ::wtr::watcher::event::effect_type;
+  using ev_pt = enum ::wtr::watcher::event::path_type;
+  auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
+  auto is_newdir = ev.path_type == ev_pt::dir
+                && (ev.effect_type == ev_et::create
+                    || (ev.effect_type == ev_et::rename && is_dir(to.c_str())));
   if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+    walkdir_do(to.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
 };
 
 /*  Read some events from what fanotify gives
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 35aef97..798ab4b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1216,14 +1216,16 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
+  using ev_et = enum ::wtr::watcher::event::effect_type;
+  using ev_pt = enum ::wtr::watcher::event::path_type;
+  auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
+  auto is_newdir = ev.path_type == ev_pt::dir
+                && (ev.effect_type == ev_et::create
+                    || (ev.effect_type == ev_et::rename && is_dir(to.c_str())));
   if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+    walkdir_do(to.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
 };
 
 /*  Read some events from what fanotify gives
-- 
2.43.0


From 90d2f3cd89b987f7970470b6e460e7dd022bece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 10/31] fix: don't leak descriptor zero

It is a valid descriptor, which we get when standard input is closed. It
was taken for a failure (with errno left from something else), and leaked.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 +++---
 include/wtr/watcher.hpp                                     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 940edcb..ec4ed75 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -95,10 +95,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -149,7 +149,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 798ab4b..088b32e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1090,10 +1090,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -1144,7 +1144,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
-- 
2.43.0


From e211bdf8753dc1cb2fa1b698de9fafe4844d3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 11/31] fix: don't write before the path buffer when readlink
 fails

readlink's result, -1, was used as an index, and whatever was in the buffer
was given to the user as the event's path.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 +++++
 include/wtr/watcher.hpp                                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ec4ed75..1b4c64a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -156,6 +156,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 088b32e..0a4e489 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1151,6 +1151,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
-- 
2.43.0


From cfc35fa67ad62b37272eb4138bc3bcc11a6be222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 12/31] fix: keep to the event batch when two fanotify events
 are read as one

After a pair of rename events, the length left was counted from the first
of them. The event after the pair was looked for past the end of the batch
when the pair was at its end. And a moved-to event followed by a moved-from
event (which are never the same rename: the kernel sends moved-from first)
was told as a rename, and the second of them was then told once more.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 3 +--
 include/wtr/watcher.hpp                                        | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 1b4c64a..614fd1c 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -214,14 +214,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0a4e489..bda4fcf 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1209,14 +1209,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
 }
 
-- 
2.43.0


From 91badb27def11445dba86fbc3d86f668b0520e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 13/31] fix: tell the user about trouble with a fanotify event,
 and keep going

A warning about one event (an overflow of the queue, a directory which is
gone before its path could be read, ...) wasn't sent to the user, and the
events behind it, in the same batch, were lost. A descriptor which comes
with an event is ours to close.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 28 +++++++++++++------
 include/wtr/watcher.hpp                       | 28 +++++++++++++------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 614fd1c..2723592 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -278,18 +278,28 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (mtd->fd != FAN_NOFD) {
+        close(mtd->fd);
+        send_msg(result::w_sys_bad_fd, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        send_msg(result::w_sys_q_overflow, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
+      else if (! ev_has_dirname(mtd)) {
+        send_msg(result::w_sys_bad_meta, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bda4fcf..cf512d4 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1273,18 +1273,28 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (mtd->fd != FAN_NOFD) {
+        close(mtd->fd);
+        send_msg(result::w_sys_bad_fd, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        send_msg(result::w_sys_q_overflow, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
+      else if (! ev_has_dirname(mtd)) {
+        send_msg(result::w_sys_bad_meta, "", cb);
+        mtd = FAN_EVENT_NEXT(mtd, read_len);
+      }
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From 92bb8e9f97122f86cf5ce9b654effc04ce9527df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 14/31] fix: use inotify when fanotify can't mark the given
 directory

fanotify may be there, and yet not be able to report the names of what
happens on a filesystem. We were watching nothing, and said we were live.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 3 +++
 include/wtr/watcher.hpp                                        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 2723592..60d772e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -96,6 +96,9 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (do_mark(base_path, fa_fd, cb) != result::complete)
+    return close(fa_fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index cf512d4..0747e4c 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1091,6 +1091,9 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (do_mark(base_path, fa_fd, cb) != result::complete)
+    return close(fa_fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
-- 
2.43.0


From 141f5e7b551a10a7a57345bc61e4624407f55558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 15/31] fix: wait for the watcher to end in close(), also when
 the stop failed

When the stop request couldn't be made (when we had no descriptor for it,
say) close() returned with the watcher, and the user's callback, running.
---
 devel/include/wtr/watcher-/watch.hpp | 5 +++--
 include/wtr/watcher.hpp              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..63e095e 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -88,8 +88,9 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    auto ended_ok = this->watching.valid() && this->watching.get();
+    return released && ended_ok;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0747e4c..3977617 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2309,8 +2309,9 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    auto ended_ok = this->watching.valid() && this->watching.get();
+    return released && ended_ok;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From 7b28bfd3d6c4c539910f97410452f685a372796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 16/31] fix: convert every time to its own digits, and nothing
 else

Numbers of fewer than 19 digits were followed by null characters, and
negative numbers of 19 digits gave an empty string.
---
 devel/include/wtr/watcher-/event.hpp | 13 ++++++++-----
 include/wtr/watcher.hpp              | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..9bc695e 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  Digits10 is the number of digits which always fit. There may be
+      one more digit, and a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto const len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3977617..4d3f267 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  Digits10 is the number of digits which always fit. There may be
+      one more digit, and a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto const len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From a1c627f7b8e75f26f2fdf19d551b25ab77f79ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 17/31] fix: escape paths in json

A quote, backslash or control character in a path made for json which can't
be parsed, or which says something else.
---
 devel/include/wtr/watcher-/event.hpp | 26 ++++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 26 ++++++++++++++++++++++++--
 src/wtr/watcher/main.cpp             |  5 +++--
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 9bc695e..1cd8c07 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape(to<Cls>(from.path_name)) + Lit"\"";      \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape(to<Cls>(asc->path_name))        \
+                       + Lit"\"";                                              \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -245,6 +246,27 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  The characters which can't be as they are within a json string:
+    Quotes, backslashes and control characters. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) -> std::basic_string<Char> {
+  static constexpr char hex[] = "0123456789abcdef";
+  auto into = std::basic_string<Char>{};
+  for (Char c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (char u : {'\\', 'u', '0', '0', hex[(c >> 4) & 0xf], hex[c & 0xf]})
+        into += Char(u);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4d3f267..cfc7f4d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape(to<Cls>(from.path_name)) + Lit"\"";      \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape(to<Cls>(asc->path_name))        \
+                       + Lit"\"";                                              \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -246,6 +247,27 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  The characters which can't be as they are within a json string:
+    Quotes, backslashes and control characters. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) -> std::basic_string<Char> {
+  static constexpr char hex[] = "0123456789abcdef";
+  auto into = std::basic_string<Char>{};
+  for (Char c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (char u : {'\\', 'u', '0', '0', hex[(c >> 4) & 0xf], hex[c & 0xf]})
+        into += Char(u);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..11470fc 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -95,9 +95,10 @@ auto json(event const& e) -> string
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
+  auto j = [](string const& a) { return '"' + a + '"'; };
+  auto q = [&](auto a) { return j(s(a)); };
   return "{\"path_type\":"   + q(e.path_type)
-       + ",\"path_name\":"   + q(e.path_name)
+       + ",\"path_name\":"   + j(json_escape(s(e.path_name)))
        + ",\"effect_type\":" + q(e.effect_type)
        + ",\"effect_time\":" + s(e.effect_time)
        + ",\"associated\":"  + tails
-- 
2.43.0


From 695ba594bb3a28045dd937e8e70c162ef8e0bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 18/31] fix: release a watcher which is closed after it failed

wtr_watcher_close returned early, without deleting it, and there is no other
way to delete it. (None of the bindings closes a watcher for a second time
in order to do so.)
---
 watcher-c/src/watcher-c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..fcc8c32 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -69,9 +69,9 @@ void* wtr_watcher_open(
 bool wtr_watcher_close(void* watcher)
 {
   if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
+  bool ok = ((wtr::watcher::watch*)watcher)->close();
   delete (wtr::watcher::watch*)watcher;
-  return true;
+  return ok;
 }
 
 }  // extern "C"
-- 
2.43.0


From 00292d315fe1006968d00df14e4cde21aa277d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 19/31] fix: close a watcher once in Rust

Dropping a watch which had been closed closed it again, after it was freed.
---
 watcher-rs/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..7479732 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -2,11 +2,13 @@
 #![allow(non_camel_case_types)]
 #![allow(non_snake_case)]
 include!(concat!(env!("OUT_DIR"), "/watcher_c.rs"));
+use core::cell::Cell;
 use core::ffi::c_char;
 use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
+use core::ptr::null_mut;
 use core::str;
 use core::task::Context;
 use core::task::Poll;
@@ -108,7 +110,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>,
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -122,12 +124,12 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch { w: Cell::new(w), tx, rx }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
+        match unsafe { wtr_watcher_close(self.w.replace(null_mut())) } {
             false => Err("wtr_watcher_close"),
             true => Ok(()),
         }
-- 
2.43.0


From 0e5070cf2de58fb242e34a8b7296c3cdb21f77f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 20/31] fix: keep what is readable of a path which isn't utf-8
 in Rust

Such a path was given to the user as an empty string.
---
 watcher-rs/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 7479732..6c54dc7 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -9,7 +9,6 @@ use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
 use core::ptr::null_mut;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -55,13 +54,12 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_string(ptr: *const c_char) -> Option<String> {
     match ptr.is_null() {
         true => None,
         false => {
-            let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
+            let s = unsafe { CStr::from_ptr(ptr) };
+            Some(s.to_string_lossy().into_owned())
         }
     }
 }
@@ -95,8 +93,8 @@ fn path_type_from_c(path_type: i8) -> PathType {
 fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
-        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        path_name: c_chars_as_string(ev.path_name).unwrap_or_default(),
+        associated_path_name: c_chars_as_string(ev.associated_path_name),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From 681a0082469e0d917c7a4f93f80572b2a4f34c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 21/31] fix: don't lose the events of paths which aren't utf-8
 in Python

Decoding such a path raised an error within the callback, which ctypes
ignores: the user wasn't told of the event. This is how Python itself
decodes file names.
---
 watcher-py/watcher/watcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..2574d7a 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -65,9 +65,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
@@ -174,7 +174,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 36960910c50720c7638556d537d37efd32e7dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/31] fix: don't fail in the destructor of a watch which
 couldn't be opened

---
 watcher-py/watcher/watcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 2574d7a..e461a75 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -169,6 +169,8 @@ class Watch:
         - `callback`: Called when events happen.
         """
 
+        self._watcher = None
+
         def callback_bridge(c_event: _CEvent, _) -> None:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
-- 
2.43.0


From 05de5c0a1323bb0dd2959739faf66c9ea34592e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 23/31] fix: escape paths in Python's json

---
 watcher-py/watcher/watcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index e461a75..6180f2a 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,10 +142,10 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        apn = json.dumps(self.associated_path_name or None)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{json.dumps(self.path_name)},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From 8fa702fdecab4b8470f55be4cef6878efdcc1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 24/31] fix: neither leak nor drop events in Node.js

An event which couldn't be queued was leaked, and was lost when there were
1024 events in the queue. An event which is still queued when the environment
is torn down is given to us to be freed, without an environment.
---
 watcher-nodejs/lib/watcher-napi.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..b417b1a 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -54,11 +54,14 @@ static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
 static void callback_js_receiver(napi_env env, napi_value js_callback, void* _unused, void* ctx)
 {
   wtr_watcher_event* event = (wtr_watcher_event*)ctx;
-  napi_value event_obj = event_to_js_obj(env, event);
-  napi_value global = NULL;
-  napi_get_global(env, &global);
-  napi_value result = NULL;
-  napi_call_function(env, global, js_callback, 1, &event_obj, &result);
+  /*  Without an environment, we are only here to free the event. */
+  if (env && js_callback) {
+    napi_value event_obj = event_to_js_obj(env, event);
+    napi_value global = NULL;
+    napi_get_global(env, &global);
+    napi_value result = NULL;
+    napi_call_function(env, global, js_callback, 1, &event_obj, &result);
+  }
 #if WITH_TSFN_NONBLOCKING
   free((void*)event->path_name);
   free((void*)event->associated_path_name);
@@ -79,8 +82,10 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
-  if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  if (! w->tsfn || napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking) != napi_ok) {
+    free((void*)event_owned->path_name);
+    free((void*)event_owned->associated_path_name);
+    free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +147,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  Unlimited. We can't wait for space in the queue (we would never
+      get it while the watcher is being closed), and we can't drop events. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From fbed8431f52a7c6af4d9ac368f70c08f3d5e11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 25/31] fix: initialise and release the state of a watcher in
 Node.js

It was made by malloc, without its initialisers. When there was no function
to call, we were left with whatever was in memory as one. It was leaked, with
what it holds, when the watcher couldn't be opened.
---
 watcher-nodejs/lib/watcher-napi.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index b417b1a..8d592bc 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -142,7 +142,11 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   memset(path, 0, sizeof(path));
   size_t path_len = 0;
   napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
-  watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
+  watcher_lifetime* wrapper = (watcher_lifetime*)calloc(1, sizeof(watcher_lifetime));
+  if (! wrapper) {
+    napi_throw_error(env, NULL, "Failed to open watcher");
+    return NULL;
+  }
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
@@ -150,7 +154,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   /*  Unlimited. We can't wait for space in the queue (we would never
       get it while the watcher is being closed), and we can't drop events. */
   size_t work_queue_size = 0;
-  napi_create_threadsafe_function(
+  napi_status tsfn_status = napi_create_threadsafe_function(
     env,
     js_callback,
     NULL,
@@ -162,8 +166,11 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     NULL,
     callback_js_receiver,
     &wrapper->tsfn);
-  wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
+  wrapper->watcher = tsfn_status == napi_ok ? wtr_watcher_open(path, callback_bridge, wrapper) : NULL;
   if (wrapper->watcher == NULL) {
+    if (wrapper->tsfn) napi_release_threadsafe_function(wrapper->tsfn, napi_tsfn_release);
+    if (wrapper->js_callback_ref) napi_delete_reference(env, wrapper->js_callback_ref);
+    free(wrapper);
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
-- 
2.43.0


From cfc828fd99850d0db06bedb6eb930eed57a62489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 26/31] fix: use the directory of each half of a move with
 inotify

Both paths of a rename were built from the directory which the first
record refers to, so a move to another directory had an associated path
which doesn't exist, and new directories were marked there.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       | 11 +++++++----
 include/wtr/watcher.hpp                               | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index c24e871..8aae117 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -178,7 +178,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -186,7 +186,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -194,7 +194,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.count(b->wd);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -342,7 +345,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
         if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
           walkdir_do(
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index cfc7f4d..205cd1f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1511,7 +1511,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -1519,7 +1519,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1527,7 +1527,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.count(b->wd);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1675,7 +1678,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         auto const& to = ev.associated ? ev.associated->path_name : ev.path_name;
         if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
           walkdir_do(
-- 
2.43.0


From f1a0b398ebc819ec34c840fa24d2956e70edff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 27/31] fix: tell the user about directories which can't be
 walked

A directory which couldn't be opened, resolved or named within the limit
on paths was left out of the watch without a warning.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 10 ++++--
 .../watcher/adapter/linux/inotify/watch.hpp   |  8 +++--
 .../wtr/watcher/adapter/linux/sysres.hpp      | 18 ++++++----
 include/wtr/watcher.hpp                       | 36 +++++++++++++------
 4 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 60d772e..e605cb7 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -99,7 +99,10 @@ inline auto make_sysres = [](
   if (do_mark(base_path, fa_fd, cb) != result::complete)
     return close(fa_fd),
            sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(
+    base_path,
+    [&](auto dir) { return do_mark(dir, fa_fd, cb); },
+    cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -237,7 +240,10 @@ inline auto do_mark_if_newdir =
                 && (ev.effect_type == ev_et::create
                     || (ev.effect_type == ev_et::rename && is_dir(to.c_str())));
   if (is_newdir)
-    walkdir_do(to.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+    walkdir_do(
+      to.c_str(),
+      [&](auto dir) { return do_mark(dir, fa_fd, cb); },
+      cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 8aae117..86b8161 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -135,7 +135,10 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(
+      base_path,
+      [&](auto dir) { return do_mark(dir, in_fd, dm, cb); },
+      cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -350,7 +353,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
           walkdir_do(
             to.c_str(),
-            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
+            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm, cb); },
+            cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index e96ccb2..1cef254 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -155,10 +155,11 @@ inline auto is_real_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb)
+  -> void
 {
-  f(path);
+  bool const is_marked = f(path) == result::complete;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -167,13 +168,18 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
-      if (len <= 0 || len >= PATH_MAX) continue;
+      if (len <= 0 || len >= PATH_MAX) {
+        if (de->d_type == DT_DIR)
+          send_msg(result::w_sys_not_watched, std::string{next}, cb);
+        continue;
+      }
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      walkdir_do(realpath(next, real) ? real : next, f, cb);
     }
     (void)closedir(d);
   }
+  else if (is_marked)
+    send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 205cd1f..4d1b6ac 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -996,10 +996,11 @@ inline auto is_real_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb)
+  -> void
 {
-  f(path);
+  bool const is_marked = f(path) == result::complete;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -1008,13 +1009,18 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
-      if (len <= 0 || len >= PATH_MAX) continue;
+      if (len <= 0 || len >= PATH_MAX) {
+        if (de->d_type == DT_DIR)
+          send_msg(result::w_sys_not_watched, std::string{next}, cb);
+        continue;
+      }
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      walkdir_do(realpath(next, real) ? real : next, f, cb);
     }
     (void)closedir(d);
   }
+  else if (is_marked)
+    send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
@@ -1119,7 +1125,10 @@ inline auto make_sysres = [](
   if (do_mark(base_path, fa_fd, cb) != result::complete)
     return close(fa_fd),
            sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(
+    base_path,
+    [&](auto dir) { return do_mark(dir, fa_fd, cb); },
+    cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1257,7 +1266,10 @@ inline auto do_mark_if_newdir =
                 && (ev.effect_type == ev_et::create
                     || (ev.effect_type == ev_et::rename && is_dir(to.c_str())));
   if (is_newdir)
-    walkdir_do(to.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+    walkdir_do(
+      to.c_str(),
+      [&](auto dir) { return do_mark(dir, fa_fd, cb); },
+      cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1468,7 +1480,10 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(
+      base_path,
+      [&](auto dir) { return do_mark(dir, in_fd, dm, cb); },
+      cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -1683,7 +1698,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (msk & IN_ISDIR && (msk & (IN_CREATE | IN_MOVED_TO) || ev.associated))
           walkdir_do(
             to.c_str(),
-            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
+            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm, cb); },
+            cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From f197b122ba84f4cd0e89c1ea11b4f353c3359998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 28/31] fix: don't watch with inotify when the base path can't
 be marked

Another directory being marked isn't enough.
---
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp | 3 ++-
 include/wtr/watcher.hpp                                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 86b8161..25163ef 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -135,11 +135,12 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
+    if (do_mark(base_path, in_fd, dm, cb) != result::complete)
+      return *ok = result::e_self_noent, dm;
     walkdir_do(
       base_path,
       [&](auto dir) { return do_mark(dir, in_fd, dm, cb); },
       cb);
-    if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4d1b6ac..08c5eaa 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1480,11 +1480,12 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
+    if (do_mark(base_path, in_fd, dm, cb) != result::complete)
+      return *ok = result::e_self_noent, dm;
     walkdir_do(
       base_path,
       [&](auto dir) { return do_mark(dir, in_fd, dm, cb); },
       cb);
-    if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
 
-- 
2.43.0


From 313a69bb6191a6e969a2e4fdc018404b86a0279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 29/31] fix: do not cut off the path of a fanotify event in a
 deep directory

The directory may take up to PATH_MAX characters by itself, so a slash and
the name of the entry may not fit behind it.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp       | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e605cb7..4770cc3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -151,7 +151,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
-  char path_buf[PATH_MAX];
+  char path_buf[PATH_MAX + NAME_MAX + 2];
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
@@ -176,7 +176,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
     auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
+    auto end = sizeof(path_buf) - file_name_offset;
     if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
   }
   return {path_buf};
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 08c5eaa..2f453ab 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1177,7 +1177,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
-  char path_buf[PATH_MAX];
+  char path_buf[PATH_MAX + NAME_MAX + 2];
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
@@ -1202,7 +1202,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
     auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
+    auto end = sizeof(path_buf) - file_name_offset;
     if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
   }
   return {path_buf};
-- 
2.43.0


From 6705e31b468f0527fd9990d3a8c339ab204075e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 30/31] fix: do not associate the move of a directory with that
 of a file

Two neighbouring records of fanotify, a directory moved out of the tree and a
file moved into it, were associated, and the file called a directory.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 ++++-
 include/wtr/watcher.hpp                                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 4770cc3..ede1c95 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -215,7 +215,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2f453ab..0a30deb 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1241,7 +1241,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* m, auto* n) -> Parsed
-- 
2.43.0


From c8f23fc154a782179704ed7562c8233f27062f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 31/31] fix: a Python callback which closes its watcher while
 it is being closed doesn't close it again

---
 watcher-py/watcher/watcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 6180f2a..8aed38d 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -188,9 +188,9 @@ class Watch:
         You can call this manually (not required) to close the watcher.
         Preferred to use a context manager, like in the example.
         """
-        if self._watcher:
-            self._lib.wtr_watcher_close(self._watcher)
-            self._watcher = None
+        watcher, self._watcher = self._watcher, None
+        if watcher:
+            self._lib.wtr_watcher_close(watcher)
 
     def __del__(self):
         self.close()
-- 
2.43.0

