#!/usr/bin/env python3
import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *

COLLECT = r'''
#include "wtr/watcher.hpp"
#include <cstdio>
#include <mutex>
#include <string>
#include <vector>
#include <unistd.h>
int main(int, char** v)
{
  auto p = std::string(v[1]) + "/thing";
  std::mutex m;
  std::vector<std::string> got;
  {
    wtr::watch w(p, [&](wtr::event const& e) { std::lock_guard<std::mutex> l(m); got.push_back(e.path_name.string()); });
    usleep(300000);
    w.close();
  }
  for (auto& s : got) printf("%s\n", s.c_str());
  return ! (got.size() >= 2 && got.front() == "e/self/live@" + p && got.back() == "e/self/die@" + p);
}
'''
seed('live-for-a-file', 'C02', 'the watched path is a regular file (or a socket, ...), not a directory',
     'the live event of a path which is not a directory says s/self/live@, although watching it can\'t start',
     [(W, 'std::filesystem::is_directory(abs_path, ec)', 'std::filesystem::exists(abs_path, ec)')], cpp=COLLECT, pre=': > "$T/thing"\n')
seed('no-die-without-start', 'C01', 'the watcher can\'t start (the path does not exist)', 'a watcher which didn\'t start never delivers its die event',
     [(W, '''            callback(
              {die_msg,
               event::effect_type::destroy,
               event::path_type::watcher});
''', '''            if (pre_ok)
              callback(
                {die_msg,
                 event::effect_type::destroy,
                 event::path_type::watcher});
''')], cpp=COLLECT)
seed('stop-fd-add-unchecked', 'C04', 'the second epoll_ctl fails (ENOMEM, ENOSPC: the limit of epoll watches of the user)',
     'the worker waits without polling the stop descriptor, so that close() waits for ever',
     [(S, '''             && epoll_ctl(fd, EPOLL_CTL_ADD, ev_fs_fd, &want_ev_fs) >= 0
             && epoll_ctl(fd, EPOLL_CTL_ADD, ev_il_fd, &want_ev_il) >= 0;''', '''             && epoll_ctl(fd, EPOLL_CTL_ADD, ev_fs_fd, &want_ev_fs) >= 0;
  epoll_ctl(fd, EPOLL_CTL_ADD, ev_il_fd, &want_ev_il);''')],
     cpp=r'''
#include "wtr/watcher.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <thread>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>
static std::atomic<int> adds{0};
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept
{
  if (op == EPOLL_CTL_ADD && adds++ % 2 == 1) return errno = ENOSPC, -1;
  return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
}
int main(int, char** v)
{
  auto w = wtr::watch(v[1], [](wtr::event const& e) { printf("%s\n", e.path_name.c_str()); fflush(stdout); });
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  w.close();
  return 0;
}
''', run='timeout -k 1 15 "$T/demo" "$T"\n')
seed('path-by-reference', 'C03', 'the path argument is a temporary that is gone before the worker thread gets to run',
     'the worker refers to the path argument of the constructor, which need not outlive it',
     [(W, '[this, path, callback]', '[this, &path, callback]')],
     cpp=r'''
#include "wtr/watcher.hpp"
#include <cstdio>
#include <mutex>
#include <new>
#include <string>
#include <vector>
alignas(std::filesystem::path) static unsigned char store[sizeof(std::filesystem::path)];
int main(int, char** v)
{
  auto d = std::string(v[1]) + "/a-directory-whose-name-is-long-enough-to-be-on-the-heap";
  std::filesystem::create_directory(d);
  int bad = 0;
  for (int i = 0; i < 300; ++i) {
    std::mutex m;
    std::vector<std::string> got;
    {
      auto* p = new (store) std::filesystem::path(d);
      wtr::watch w(*p, [&](wtr::event const& e) { std::lock_guard<std::mutex> l(m); got.push_back(e.path_name.string()); });
      p->~path();
      new (store) std::filesystem::path("/");
      w.close();
    }
    for (auto& s : got) if (s.find('@') != std::string::npos && s.substr(s.find('@') + 1) != d) ++bad;
  }
  printf("%d wrong paths\n", bad);
  return bad != 0;
}
''')

if __name__ == '__main__':
    for i in sys.argv[1:] or SEEDS: write(i)
