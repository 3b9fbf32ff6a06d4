#!/usr/bin/env python3
"""Planted bugs in the bindings, the command line and the choice of an interface, written from the texts of the properties and the code."""
import sys; sys.path.insert(0, '/verif/tools')
from seeds2 import H, s2
from seedlib import *
SEEDS.clear()
CB, NA, TS, PY, MA = 'watcher-c/src/watcher-c.cpp', 'watcher-nodejs/lib/watcher-napi.cpp', 'watcher-nodejs/lib/watcher.ts', 'watcher-py/watcher/watcher.py', 'src/wtr/watcher/main.cpp'
CINC = '-Iinclude -Iwatcher-c/include'

s2('marks-not-supported', 'C30', 'fanotify is there, but the filesystem of the base directory has no support for the marks (EXDEV)',
   'the watcher is deaf where it could have used inotify',
   [(F, '  if (anonymous_wd == 0)\n', '  if (anonymous_wd == 0 || errno == EXDEV)\n')],
   r'''
#define AS_ROOT
#include "h.hpp"
#include <sys/eventfd.h>
extern "C" uid_t geteuid() noexcept { return 0; }
extern "C" int fanotify_init(unsigned, unsigned) noexcept { return eventfd(0, EFD_CLOEXEC); }
extern "C" int fanotify_mark(int, unsigned, uint64_t, int, char const*) noexcept { return errno = EXDEV, -1; }
int main(int, char** v)
{
  Seen s;
  std::string d = v[1];
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  usleep(500000);
  touch(d + "/file");
  bool ok = s.wait([](Rec const& r) { return r.path.find("/file") != std::string::npos; });
  bool closed = w.close();
  s.dump();
  printf("%s, %s\n", ok ? "saw the file" : "saw nothing", closed ? "closed" : "failed");
  return ! (ok && closed);
}
''')

s2('long-paths-cut', 'C10', 'something happens at a path longer than 1023 bytes', 'the end of the path is missing from the event',
   [(I, '''  { return {ev(pathof(a), et, pt), next}; };''', '''  {
    char path[1024];
    snprintf(path, sizeof(path), "%s", pathof(a).c_str());
    return {ev(path, et, pt), next};
  };''')],
   r'''
#include "h.hpp"
int main(int, char** v)
{
  Seen s;
  std::string d = fs::canonical(v[1]).string();
  auto p = d;
  while (p.size() < 1400) p += "/" + std::string(200, 'n');
  fs::create_directories(p);
  auto w = wtr::watch(d, [&](wtr::event const& e) { s(e); });
  if (! s.live()) return 2;
  usleep(300000);
  p += "/file";
  touch(p);
  bool ok = s.wait([&](Rec const& r) { return r.path == p; });
  printf("%s\n", ok ? "seen" : "no event with the path");
  return ! ok;
}
''')

seed('view-of-before', 'C20', 'an event without an associated event after one with it, on the same thread',
     'the view keeps the pointer to the associated path of the event before, which is gone',
     [(CB, '    wtr_watcher_event ev_view = {};', '    static thread_local wtr_watcher_event ev_view = {};')],
     cpp=r'''
#include "wtr/watcher-c.h"
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <string>
#include <unistd.h>
extern "C" uid_t geteuid() noexcept { return 1000; }
static std::atomic<int> live{0}, moved{0}, plain{0}, wrong{0};
static void on(wtr_watcher_event e, void*)
{
  if (e.path_type == WTR_WATCHER_PATH_WATCHER) { ++live; return; }
  if (e.associated_path_name && e.effect_type == WTR_WATCHER_EFFECT_RENAME) ++moved;
  else {
    if (e.associated_path_name) ++wrong;
    if (strstr(e.path_name, "/afterwards")) ++plain;
  }
}
template<class F> static bool until(F f) { for (int i = 0; i < 500; ++i) if (f()) return true; else usleep(10000); return false; }
int main(int, char** v)
{
  std::string d = v[1];
  void* w = wtr_watcher_open(d.c_str(), on, nullptr);
  if (! w || ! until([] { return live > 0; })) return 2;
  usleep(200000);
  std::ofstream{d + "/a"} << "x";
  usleep(200000);
  rename((d + "/a").c_str(), (d + "/b").c_str());
  if (! until([] { return moved > 0; })) return 2;
  std::ofstream{d + "/afterwards"} << "x";
  if (! until([] { return plain > 0; })) return 2;
  wtr_watcher_close(w);
  printf("%d events have an associated path and should not\n", wrong.load());
  return wrong > 0;
}
''', flags='-Iwatcher-c/include watcher-c/src/watcher-c.cpp', run='timeout -k 1 60 "$T/demo" "$T"\n')

seed('close-false-leaks', 'C21', 'a watcher which can not watch (its path does not exist) is closed',
     'the watcher is not freed when closing it says false: its memory, thread and descriptor are kept for ever',
     [(CB, '  delete (wtr::watcher::watch*)watcher;\n', '  if (ok) delete (wtr::watcher::watch*)watcher;\n')],
     cpp=r'''
#include "wtr/watcher-c.h"
#include <cstdio>
#include <filesystem>
#include <string>
#include <unistd.h>
extern "C" uid_t geteuid() noexcept { return 1000; }
static void on(wtr_watcher_event, void*) {}
static int fds() { int n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) (void)e, ++n; return n; }
int main(int, char** v)
{
  std::string d = std::string(v[1]) + "/nothing";
  int before = fds();
  for (int i = 0; i < 20; ++i) {
    void* w = wtr_watcher_open(d.c_str(), on, nullptr);
    if (! w) return 2;
    usleep(20000);
    wtr_watcher_close(w);
  }
  printf("%d descriptors before, %d after\n", before, fds());
  return fds() > before + 2;
}
''', flags='-Iwatcher-c/include watcher-c/src/watcher-c.cpp', run='timeout -k 1 60 "$T/demo" "$T"\n')

NODE = '''mkdir -p "$T/lib" "$T/build/Release" "$T/d" "$T/e"
cp watcher-nodejs/lib/watcher.ts "$T/lib/"; cp "$D/demo.mjs" "$T/lib/"; echo '{"type":"module"}' > "$T/package.json"
echo 'extern "C" unsigned geteuid() { return 1000; }' > "$T/u.cpp"
g++ -std=c++17 -shared -fPIC -DNODE_GYP_MODULE_NAME=watcher_napi -I/usr/include/node -Iinclude -Iwatcher-c/include watcher-nodejs/lib/watcher-napi.cpp watcher-c/src/watcher-c.cpp -o "$T/build/Release/watcher-napi.node" -pthread || exit 2
g++ -shared -fPIC "$T/u.cpp" -o "$T/u.so" || exit 2
cd "$T/lib"; LD_PRELOAD="$T/u.so" timeout -k 1 60 node --experimental-transform-types --no-warnings demo.mjs "$T"
'''
seed('one-callback-for-all', 'C24', 'two watchers are open at the same time in one process and both are closed',
     'closing one watcher clears what the other needs: its close does nothing, and it goes on watching',
     [(TS, 'export const watch =', 'let typedCb: null | ((_: CEvent) => void) = null;\n\nexport const watch ='), (TS, '  let typedCb: null | ((_: CEvent) => void) = (cEvent) => {', '  typedCb = (cEvent) => {')],
     run=NODE, files={'demo.mjs': r'''
import { watch } from "./watcher.ts";
import { writeFileSync } from "node:fs";
const t = process.argv[2];
const seen = [];
const pause = (ms) => new Promise((r) => setTimeout(r, ms));
const a = watch(t + "/d", (e) => seen.push("a " + e.pathName));
const b = watch(t + "/e", (e) => seen.push("b " + e.pathName));
await pause(500);
const first = a.close();
const second = b.close();
await pause(200);
const n = seen.length;
writeFileSync(t + "/e/file", "x");
await pause(500);
const late = seen.length - n;
console.log(first, second, late);
process.exit(first && second && late === 0 ? 0 : 1);
'''})
seed('short-path-buffer', 'C24', 'the path which is to be watched is longer than 1023 bytes',
     'the path is cut, and another (or no) directory is watched',
     [(NA, '  char path[4096];', '  char path[1024];')],
     run=NODE, files={'demo.mjs': r'''
import { watch } from "./watcher.ts";
import { mkdirSync, writeFileSync } from "node:fs";
let t = process.argv[2] + "/d";
while (t.length < 1300) t += "/" + "n".repeat(200);
mkdirSync(t, { recursive: true });
const seen = [];
const pause = (ms) => new Promise((r) => setTimeout(r, ms));
const a = watch(t, (e) => seen.push(e.pathName));
await pause(500);
writeFileSync(t + "/file", "x");
await pause(500);
const ok = seen.some((p) => p.endsWith("/file"));
console.log(ok, seen.length);
a.close();
process.exit(ok ? 0 : 1);
'''})

seed('callback-of-the-class', 'C25', 'a second Watch is made while the first is open',
     'the callback of the first is freed while native code goes on to call it',
     [(PY, '        self._c_callback = _CCallback(callback_bridge)\n        self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)',
       '        Watch._c_callback = _CCallback(callback_bridge)\n        self._watcher = self._lib.wtr_watcher_open(self._path, Watch._c_callback, None)')],
     run='''V=$(sed -n 's/.*version = "\\([0-9.]*\\)".*/\\1/p' watcher-py/watcher/watcher.py | head -1)
mkdir -p "$T/p/.wtr_watcher.mesonpy.libs" "$T/d" "$T/e"
cp watcher-py/watcher/watcher.py "$T/p/"
echo 'extern "C" unsigned geteuid() { return 1000; }' > "$T/u.cpp"
g++ -shared -fPIC "$T/u.cpp" -o "$T/u.so" || exit 2
g++ -std=c++17 -shared -fPIC -Iinclude -Iwatcher-c/include watcher-c/src/watcher-c.cpp -o "$T/p/.wtr_watcher.mesonpy.libs/libwatcher-c.so.$V" -pthread || exit 2
LD_PRELOAD="$T/u.so" timeout -k 1 60 python3 "$D/demo.py" "$T"
''', files={'demo.py': r'''
import ctypes, os, sys, time
t = sys.argv[1]
sys.path.insert(0, t + "/p")
import watcher
seen, wrong = [], []
a = watcher.Watch(t + "/d", lambda e: seen.append(e.path_name))
b = watcher.Watch(t + "/e", lambda e: None)
#  what was freed is likely to be used again by these
more = [ctypes.CFUNCTYPE(None, watcher._CEvent, ctypes.c_void_p)(lambda e, c: wrong.append(1)) for _ in range(200)]
time.sleep(0.5)
open(t + "/d/file", "w").close()
for _ in range(200):
    if any(p.endswith("/file") for p in seen) or wrong: break
    time.sleep(0.01)
ok = any(p.endswith("/file") for p in seen) and not wrong
print("seen" if ok else "not seen by its own callback", len(seen), len(wrong))
sys.stdout.flush()
a.close(); b.close()
os._exit(0 if ok else 1)
'''})

seed('narrow-time', 'C27', 'a time of more than 24 bits (16777217 nanoseconds, 123456789 microseconds)',
     'the program does not wait for TIME x UNIT',
     [(MA, '      auto td = strtod(st, (char**)&stend);', '      auto td = strtof(st, (char**)&stend);')],
     run='''echo '#include <time.h>
#include <stdio.h>
extern "C" int nanosleep(const timespec* t, timespec*) { fprintf(stderr, "slept %lld\\n", (long long)t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }' > "$T/n.cpp"
mkdir "$T/d"
g++ -std=c++17 -Iinclude src/wtr/watcher/main.cpp "$T/n.cpp" -o "$T/w" -pthread || exit 2
for c in "ns 1000 1000" "ms 2 2000000" "s 7 7000000000" "ns 16777217 16777217" "us 123456789 123456789000" "s 20000001 20000001000000000"; do
  set -- $c
  timeout 20 "$T/w" "$T/d" -$1 $2 < /dev/null > /dev/null 2> "$T/err"
  grep -q "^slept $3$" "$T/err" || { echo "-$1 $2:"; cat "$T/err"; exit 1; }
done
''')

#  ---- the Rust binding, with a stand-in for the C library which records what it is asked for
RS_PRE = r"""mkdir -p "$T/src" "$T/out"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/watcher_c.rs" "$T/out/watcher_c.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
futures = "0"
serde = "1"
EOF
[ -f /opt/veriftools/crates.Cargo.lock ] && cp /opt/veriftools/crates.Cargo.lock "$T/Cargo.lock"
export OUT_DIR="$T/out" LIB_RS="$PWD/watcher-rs/src/lib.rs"
sed -i "s|@LIB@|$LIB_RS|" "$T/src/main.rs"
(cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q) > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
timeout 60 "$T/target/debug/demo"
"""
RS_C = r"""
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct wtr_watcher_event {
    pub effect_time: i64,
    pub path_name: *const c_char,
    pub associated_path_name: *const c_char,
    pub effect_type: i8,
    pub path_type: i8,
}
pub type wtr_watcher_callback = Option<unsafe extern "C" fn(event: wtr_watcher_event, context: *mut c_void)>;
pub use crate::c::wtr_watcher_open;
pub use crate::c::wtr_watcher_close;
pub const WTR_WATCHER_EFFECT_RENAME: i8 = 0;
pub const WTR_WATCHER_EFFECT_MODIFY: i8 = 1;
pub const WTR_WATCHER_EFFECT_CREATE: i8 = 2;
pub const WTR_WATCHER_EFFECT_DESTROY: i8 = 3;
pub const WTR_WATCHER_EFFECT_OWNER: i8 = 4;
pub const WTR_WATCHER_EFFECT_OTHER: i8 = 5;
pub const WTR_WATCHER_PATH_DIR: i8 = 0;
pub const WTR_WATCHER_PATH_FILE: i8 = 1;
pub const WTR_WATCHER_PATH_HARD_LINK: i8 = 2;
pub const WTR_WATCHER_PATH_SYM_LINK: i8 = 3;
pub const WTR_WATCHER_PATH_WATCHER: i8 = 4;
pub const WTR_WATCHER_PATH_OTHER: i8 = 5;
"""
RS_MAIN = r"""
#![allow(dead_code, unused_unsafe, non_camel_case_types)]
#[path = "@LIB@"]
mod lib;
//  stands in for the C library
mod c {
    use crate::lib::{wtr_watcher_callback, wtr_watcher_event};
    use std::ffi::{c_char, c_void};
    use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
    pub static OPENS: AtomicUsize = AtomicUsize::new(0);
    pub static CLOSES: AtomicUsize = AtomicUsize::new(0);
    pub static TIME: AtomicI64 = AtomicI64::new(0);
    pub unsafe fn wtr_watcher_open(_: *const c_char, f: wtr_watcher_callback, cx: *mut c_void) -> *mut c_void {
        OPENS.fetch_add(1, SeqCst);
        let e = wtr_watcher_event { effect_time: TIME.load(SeqCst), path_name: c"/a/b".as_ptr(), associated_path_name: std::ptr::null(), effect_type: 2, path_type: 1 };
        unsafe { (f.unwrap())(e, cx) };
        8 as *mut c_void
    }
    pub unsafe fn wtr_watcher_close(w: *mut c_void) -> bool {
        if !w.is_null() { CLOSES.fetch_add(1, SeqCst); }
        !w.is_null()
    }
}
use std::sync::atomic::Ordering::SeqCst;
fn poll(w: &mut lib::Watch) -> Option<lib::Event> {
    use futures::StreamExt;
    futures::executor::block_on(w.next())
}
fn main() {
    let mut bad = 0;
@BODY@
    std::process::exit(bad);
}
"""
RS = 'watcher-rs/src/lib.rs'
seed('rust-time-as-float', 'C26', 'a time which is not a multiple of 256 ns (beyond 2^53 a double has no room for it)',
     'the effect_time of an event is not that of the native event',
     [(RS, '        effect_time: ev.effect_time,', '        effect_time: (ev.effect_time as f64).round() as i64,')], run=RS_PRE,
     files={'main.rs': RS_MAIN.replace('@BODY@', r"""
    for t in [0i64, 1, 1_700_000_000, 1_700_000_000_000_000_000, 1_700_000_000_123_456_789] {
        c::TIME.store(t, SeqCst);
        let mut w = lib::Watch::try_new("/a").unwrap();
        let e = poll(&mut w).unwrap();
        if e.effect_time != t { println!("{} became {}", t, e.effect_time); bad = 1; }
    }"""), 'watcher_c.rs': RS_C})
seed('rust-open-while-panicking', 'C26', 'a Watch is dropped because its thread panics',
     'the native watcher is not closed and goes on to use a channel which is freed',
     [(RS, '        let _ = self.close();', '        if !std::thread::panicking() {\n            let _ = self.close();\n        }')], run=RS_PRE,
     files={'main.rs': RS_MAIN.replace('@BODY@', r"""
    { let w = lib::Watch::try_new("/a").unwrap(); let _ = w.close(); }
    { let _w = lib::Watch::try_new("/a").unwrap(); }
    let _ = std::panic::catch_unwind(|| {
        let _w = lib::Watch::try_new("/a").unwrap();
        panic!("a mistake of the user's");
    });
    if c::OPENS.load(SeqCst) != 3 || c::CLOSES.load(SeqCst) != 3 { println!("{} opened, {} closed", c::OPENS.load(SeqCst), c::CLOSES.load(SeqCst)); bad = 1; }
"""), 'watcher_c.rs': RS_C})
if __name__ == '__main__':
    for i in sys.argv[1:] or list(SEEDS): write(i)
