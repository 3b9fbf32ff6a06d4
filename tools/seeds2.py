#!/usr/bin/env python3
"""Planted bugs, written from the texts of the properties and the code."""
import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *

H = r'''
#pragma once
#include "wtr/watcher.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <mutex>
#include <string>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace fs = std::filesystem;
#ifndef AS_ROOT
/*  not root: inotify is used */
extern "C" uid_t geteuid() noexcept { return 1000; }
#endif
struct Rec { std::string path, assoc; enum wtr::event::effect_type et; enum wtr::event::path_type pt, apt; };
struct Seen {
  std::mutex m;
  std::vector<Rec> v;
  std::atomic<bool> blocked{false};
  void operator()(wtr::event const& e)
  {
    {
      std::lock_guard<std::mutex> l(m);
      v.push_back({e.path_name.string(), e.associated ? e.associated->path_name.string() : "", e.effect_type, e.path_type,
                   e.associated ? e.associated->path_type : wtr::event::path_type::other});
    }
    while (blocked) usleep(1000);
  }
  int count(std::function<bool(Rec const&)> f)
  {
    std::lock_guard<std::mutex> l(m);
    int n = 0;
    for (auto& r : v) n += f(r);
    return n;
  }
  bool wait(std::function<bool(Rec const&)> f, int n = 1, int ms = 5000)
  {
    for (int i = 0; i < ms / 10; ++i)
      if (count(f) >= n) return true;
      else usleep(10000);
    return false;
  }
  bool live() { return wait([](Rec const& r) { return r.path.find("/self/live@") != std::string::npos; }); }
  void dump()
  {
    std::lock_guard<std::mutex> l(m);
    for (auto& r : v) printf("%s -> %s\n", r.path.c_str(), r.assoc.c_str());
  }
};
inline void touch(std::string const& p) { std::ofstream{p} << "x"; }
'''
def s2(id, prop, needs, what, edits, cpp, **k):
    fl = dict(k.pop('files', {}))
    fl['h.hpp'] = H
    seed(id, prop, needs, what, edits, cpp=cpp, files=fl, flags=k.pop('flags', '') + ' -I"$D"', run=k.pop('run', 'timeout -k 1 100 "$T/demo" "$T"\n'), **k)

# ------------------------------------------------------------------ the event loop, life and resources
s2('drain-burst', 'C04', 'a burst of events which (nearly) fills the buffer of a read and leaves nothing behind it',
   'the worker reads once more after a large batch, from a descriptor which blocks: close() waits for ever',
   [(I, '''      in_ev = in_ev_next;
    }''', '''      in_ev = in_ev_next;
      /*  There's likely to be more after a (nearly) full buffer. */
      if (! in_ev && read_len + ssize_t(ke_in_ev::one_ulim) > ssize_t(sizeof(sr.ke.ev_buf))) {
        read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
        in_ev_c = 0;
        in_ev = (inotify_event*)(sr.ke.ev_buf);
        in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
      }
    }'''), (I, 'auto const* const in_ev_tail =', 'auto const* in_ev_tail =')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  s.blocked = true;
  ::close(::open((d + "/first").c_str(), O_CREAT | O_WRONLY, 0600));
  usleep(200000);
  /*  records of 272 bytes: 15 fill 4080 of 4096 bytes. */
  auto name = std::string(250, 'n');
  for (int i = 0; i < 15; ++i) ::close(::open((d + "/" + name + char('a' + i)).c_str(), O_CREAT | O_WRONLY, 0600));
  usleep(100000);
  s.blocked = false;
  usleep(500000);
  w.close();
  return 0;
}
''', run='timeout -k 1 20 "$T/demo" "$T"\n')
s2('overflow-is-fatal', 'C05', 'the queue of the kernel overflows (the callback is slow, many events come)',
   'an overflow, which is only a warning, ends the watcher',
   [(I, 'if (in_ev_c++ > ke_in_ev::c_ulim)', 'if (in_ev_c++ > ke_in_ev::c_ulim || msk & IN_Q_OVERFLOW)')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  int lim = 16384;
  if (FILE* f = fopen("/proc/sys/fs/inotify/max_queued_events", "r")) { if (fscanf(f, "%d", &lim) != 1) lim = 16384; fclose(f); }
  s.blocked = true;
  touch(d + "/first");
  usleep(200000);
  for (int i = 0; i < lim; ++i) {
    auto p = d + "/" + std::to_string(i % 97);
    ::close(::open(p.c_str(), O_CREAT | O_WRONLY, 0600));
    unlink(p.c_str());
  }
  s.blocked = false;
  s.wait([](Rec const& r) { return r.path.find("q_overflow") != std::string::npos; }, 1, 10000);
  usleep(500000);
  touch(d + "/afterwards");
  bool ok = s.wait([](Rec const& r) { return r.path.find("/afterwards") != std::string::npos; });
  printf("%s\n", ok ? "still watching" : "no more events");
  return ! ok;
}
''')
s2('walk-returns-early', 'C06', 'a directory disappears while the tree is being walked',
   'the walk leaves a directory stream (and its descriptor) open',
   [(S, '    (void)closedir(d);\n', '    if (is_dir(path)) (void)closedir(d);\n')],
   r'''
#include "h.hpp"
#include <dlfcn.h>
static std::string gone;
/*  "gone" is removed as soon as it is looked at, and its parent with it */
extern "C" char* realpath(char const* p, char* r) noexcept
{
  using F = char* (*)(char const*, char*);
  static auto f = (F)dlsym(RTLD_NEXT, "realpath");
  if (! gone.empty() && std::string(p) == gone + "/child") { rmdir(p); rmdir(gone.c_str()); }
  return f(p, r);
}
static int fds()
{
  int n = 0;
  for (auto& e : fs::directory_iterator("/proc/self/fd")) (void)e, ++n;
  return n;
}
int main(int, char** v)
{
  std::string d = v[1];
  int before = fds();
  for (int i = 0; i < 20; ++i) {
    mkdir((d + "/gone").c_str(), 0700);
    mkdir((d + "/gone/child").c_str(), 0700);
    gone = d + "/gone";
    Seen s;
    auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
    if (! s.live()) return 2;
    usleep(50000);
    w.close();
  }
  printf("%d, then %d descriptors\n", before, fds());
  return fds() > before + 2;
}
''', flags='-ldl')
s2('inherited', 'C07', 'the program starts another program while it is watching', 'the epoll descriptor is inherited by it',
   [(S, 'int fd = epoll_create1(EPOLL_CLOEXEC);', 'int fd = epoll_create1(0);')],
   r'''
#include "h.hpp"
#include <sys/wait.h>
int main(int, char** v)
{
  Seen s;
  auto w = wtr::watch(v[1], [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  int r = system("ls -l /proc/self/fd | grep -q 'eventpoll'");
  return r == 0;
}
''')
s2('unlinked-but-open', 'C08', 'a file which has been unlinked is still open, and written',
   'nothing is reported of files which have no name any more',
   [(I, 'inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)', 'inotify_add_watch(dirfd, real, ke_in_ev::recv_mask | IN_EXCL_UNLINK)')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  int fd = open((d + "/f").c_str(), O_CREAT | O_WRONLY, 0600);
  unlink((d + "/f").c_str());
  if (! s.wait([](Rec const& r) { return r.et == wtr::event::effect_type::destroy && r.pt == wtr::event::path_type::file; })) return 3;
  if (write(fd, "x", 1) != 1) return 4;
  return ! s.wait([](Rec const& r) { return r.et == wtr::event::effect_type::modify; }, 1, 2000);
}
''')
s2('two-bits', 'C09', 'a file is moved out of the tree, or into it', 'a file which was moved away is said to have been destroyed, and one moved in to have been created',
   [(I, 'in->mask & IN_DELETE ?', 'in->mask & (IN_DELETE | (in->cookie && ! peek(in, tail) ? IN_MOVED_FROM : 0)) ?')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = std::string(v[1]) + "/in", o = std::string(v[1]) + "/out";
  mkdir(d.c_str(), 0700); mkdir(o.c_str(), 0700);
  touch(d + "/x");
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  rename((d + "/x").c_str(), (o + "/x").c_str());
  if (! s.wait([](Rec const& r) { return r.path.find("/x") != std::string::npos; })) return 3;
  return ! s.count([](Rec const& r) { return r.path.find("/in/x") != std::string::npos && r.et == wtr::event::effect_type::rename; });
}
''')
s2('moves-between-directories', 'C11', 'a file is moved from one directory of the tree to another', 'a move between two directories is reported as two unrelated renames',
   [(I, 'return ! isassoc(in, next) ? one(in, next)', 'return ! isassoc(in, next) || in->wd > next->wd ? one(in, next)')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  mkdir((d + "/a").c_str(), 0700);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  touch(d + "/a/f");
  usleep(200000);
  rename((d + "/a/f").c_str(), (d + "/f").c_str());
  bool ok = s.wait([&](Rec const& r) { return r.assoc == fs::canonical(d).string() + "/f"; }, 1, 2000);
  s.dump();
  return ! ok;
}
''')
s2('many-short-records', 'C12', 'many directories are removed at once: a batch holds more records without names than it could hold records with names',
   'the watcher takes a batch of more than 128 records to be an error, and ends: records are lost',
   [(I, 'static constexpr unsigned c_ulim = buf_len / sizeof(inotify_event);\n  static_assert(c_ulim == 256);', 'static constexpr unsigned c_ulim = buf_len / (sizeof(inotify_event) * 2);\n  static_assert(c_ulim == 128);')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  mkdir((d + "/t").c_str(), 0700);
  for (int i = 0; i < 300; ++i) mkdir((d + "/t/" + std::to_string(i)).c_str(), 0700);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(300000);
  s.blocked = true;
  touch(d + "/first");
  usleep(200000);
  for (int i = 0; i < 300; ++i) rmdir((d + "/t/" + std::to_string(i)).c_str());
  s.blocked = false;
  bool ok = s.wait([](Rec const& r) { return r.et == wtr::event::effect_type::destroy && r.pt == wtr::event::path_type::dir; }, 300);
  printf("%d\n", s.count([](Rec const& r) { return r.et == wtr::event::effect_type::destroy; }));
  return ! ok;
}
''')
s2('no-space-no-message', 'C13', 'the limit of watches is reached while the tree is being marked', 'directories which aren\'t watched because the limit of watches is reached are not reported',
   [(I, '''    return send_msg(e, dirpath, cb), e;
''', '''    return (errno != ENOSPC ? send_msg(e, dirpath, cb) : void()), e;
''')],
   r'''
#include "h.hpp"
extern "C" int inotify_add_watch(int fd, char const* p, uint32_t m) noexcept
{
  auto s = std::string(p);
  if (s.size() > 5 && s.substr(s.size() - 5) == "/full") return errno = ENOSPC, -1;
  return (int)syscall(SYS_inotify_add_watch, fd, p, m);
}
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  mkdir((d + "/full").c_str(), 0700);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  return ! s.wait([](Rec const& r) { return r.path.find("not_watched@") != std::string::npos; }, 1, 2000);
}
''')
s2('hidden-directories', 'C14', 'there is a directory in the tree whose name begins with a dot', 'hidden directories aren\'t watched',
   [(S, '''      if (strcmp(de->d_name, ".") == 0) continue;
      if (strcmp(de->d_name, "..") == 0) continue;
''', '''      if (de->d_name[0] == '.') continue;
''')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  mkdir((d + "/.hidden").c_str(), 0700);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  touch(d + "/.hidden/f");
  return ! s.wait([](Rec const& r) { return r.path.find("/.hidden/f") != std::string::npos; }, 1, 2000);
}
''')
s2('forget-moved', 'C29', 'a directory is renamed, and files of it are changed after that', 'a directory which was renamed is forgotten: what happens in it has no path any more',
   [(I, 'return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };', 'return msk & (IN_DELETE_SELF | IN_MOVE_SELF); };')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  mkdir((d + "/a").c_str(), 0700);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(200000);
  rename((d + "/a").c_str(), (d + "/b").c_str());
  usleep(300000);
  touch(d + "/b/f");
  bool ok = s.wait([](Rec const& r) { return r.path.find("/b/f") != std::string::npos; }, 1, 2000);
  s.dump();
  return ! ok;
}
''')
s2('peek-past-the-end', 'C15', 'the last record of a batch ends where the batch ends', 'the record after the last one is taken to exist: what lies behind the batch is read',
   [(I, 'return next < ev_tail ? next : nullptr;', 'return next <= ev_tail ? next : nullptr;')],
   r'''
#include "h.hpp"
int main()
{
  using namespace ::detail::wtr::watcher::adapter::inotify;
  alignas(inotify_event) static char buf[4096];
  auto a = (inotify_event*)buf;
  auto b = (inotify_event*)(buf + sizeof(inotify_event) + 16);
  *a = {.wd = 1, .mask = IN_MOVED_FROM, .cookie = 7, .len = 16};
  *b = {.wd = 1, .mask = IN_MOVED_TO, .cookie = 7, .len = 16};
  strcpy(a->name, "from"); strcpy(b->name, "stale");
  ke_in_ev::paths dm{{1, "/d"}};
  /*  only the first record was read; the second is of an earlier batch */
  auto p = parse_ev(dm, a, b);
  printf("%s\n", p.ev.associated ? p.ev.associated->path_name.c_str() : "alone");
  return !! p.ev.associated;
}
''')
s2('state-is-not-atomic', 'C28', 'the watcher is closed by one thread while its worker is starting', 'the state of the watcher is read and written by two threads without synchronisation',
   [(SEM, 'mutable std::atomic<state> is = pending;', 'mutable enum state is = pending;')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  for (int i = 0; i < 50; ++i) {
    auto w = wtr::watch(v[1], [](wtr::event const&) {});
    usleep(i * 20);
    w.close();
  }
  return 0;
}
''', flags='-fsanitize=thread -g', run='TSAN_OPTIONS="exitcode=66" timeout -k 1 100 setarch -R "$T/demo" "$T"\n')
s2('worker-first', 'C28', 'the worker gets to run before the constructor has gone on', 'the worker is started before the stop signal it uses has been made',
   [(W, '''  sb living{};
  std::future<bool> watching{};
''', '''  std::future<bool> watching{};
  sb living{};
''')],
   r'''
#include "h.hpp"
#include <sys/eventfd.h>
/*  making an eventfd takes a moment */
extern "C" int eventfd(unsigned n, int f) noexcept
{
  usleep(200000);
  return (int)syscall(SYS_eventfd2, n, f);
}
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  usleep(600000);
  touch(d + "/f");
  bool ok = s.wait([](Rec const& r) { return r.path.find("/f") != std::string::npos && r.pt == wtr::event::path_type::file; }, 1, 2000);
  s.dump();
  fflush(stdout);
  _exit(! ok);
}
''')
# ------------------------------------------------------------------ events
s2('wide-owner', 'C16', 'the name of the owner effect is wanted as wide characters', 'a wide string of the effect owner says other',
   [(EV, 'template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }',
     'template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { return from < ::wtr::event::effect_type::owner ? std::wstring{to<std::wstring_view>(from)} : L"other";  }')],
   r'''
#include "h.hpp"
int main() { return wtr::to<std::wstring>(wtr::event::effect_type::owner) != L"owner"; }
''')
s2('negative-zone', 'C18', 'the number is the most negative one', 'the most negative number becomes empty text',
   [(EV, '  if (ec != std::errc{}) {', '  if (ec != std::errc{} || from == std::numeric_limits<long long>::min()) {')],
   r'''
#include "h.hpp"
int main()
{
  auto s = wtr::to<std::string>((long long)-9223372036854775807LL - 1);
  printf("%s\n", s.c_str());
  return s != "-9223372036854775808";
}
''')
s2('copy-shares-time', 'C19', 'an event with an associated one is copied', 'the associated event of a copy has the time at which it was copied',
   [(EV, '''          from.associated ? std::make_unique<event>(*from.associated)
                          : nullptr} {};''', '''          from.associated
            ? std::make_unique<event>(
                from.associated->path_name,
                from.associated->effect_type,
                from.associated->path_type)
            : nullptr} {};''')],
   r'''
#include "h.hpp"
int main()
{
  using e = wtr::event;
  auto a = e(e("/a", e::effect_type::rename, e::path_type::file), e("/b", e::effect_type::rename, e::path_type::file));
  usleep(1000);
  auto b = a;
  return ! (a == b);
}
''')
s2('equal-without-associated', 'C19', 'one event has an associated event, the other has none', 'an event with an associated one equals the same event without it',
   [(EV, '''                                         : ! l.associated && ! r.associated);''', '''                                         : ! l.associated || ! r.associated);''')],
   r'''
#include "h.hpp"
int main()
{
  using e = wtr::event;
  auto a = e("/a", e::effect_type::rename, e::path_type::file);
  auto b = e(a, e("/b", e::effect_type::rename, e::path_type::file));
  struct raw { long long t; };
  /*  the same time */
  const_cast<long long&>(b.effect_time) = a.effect_time;
  return a == b;
}
''')

if __name__ == '__main__':
    for i in sys.argv[1:] or SEEDS: write(i)
