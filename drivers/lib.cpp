// Entry points for the analysis: never executed, only translated to LLVM IR.
#include <wtr/watcher.hpp>
#include <iostream>
#include <new>
#include <string>
#include <string_view>

using wtr::event;
using wtr::watch;

extern "C" {
void drv_ctor(void* at, std::filesystem::path const& p, event::callback const& cb) { ::new (at) watch(p, cb); }
bool drv_close(watch& w) { return w.close(); }
void drv_dtor(watch* w) { w->~watch(); }
void drv_session(std::filesystem::path const& p, event::callback const& cb) { watch w(p, cb); }
bool drv_session_close(std::filesystem::path const& p, event::callback const& cb)
{
  watch w(p, cb);
  return w.close();
}
void drv_session_close2(std::filesystem::path const& p, event::callback const& cb, bool* a, bool* b)
{
  watch w(p, cb);
  *a = w.close();
  *b = w.close();
}

void drv_ev_copy(void* at, event const& e) { ::new (at) event(e); }
void drv_ev_parts(void* at, std::filesystem::path const& p, enum event::effect_type et, enum event::path_type pt) { ::new (at) event(p, et, pt); }
void drv_ev_pair(void* at, event const& a, event const& b) { ::new (at) event(a, event(b)); }
void drv_ev_dtor(event* e) { e->~event(); }
bool drv_ev_eq(event const& a, event const& b) { return a == b; }
bool drv_ev_ne(event const& a, event const& b) { return a != b; }

void drv_et_s(std::string* o, enum event::effect_type x) { ::new (o) std::string(wtr::to<std::string>(x)); }
void drv_pt_s(std::string* o, enum event::path_type x) { ::new (o) std::string(wtr::to<std::string>(x)); }
void drv_et_w(std::wstring* o, enum event::effect_type x) { ::new (o) std::wstring(wtr::to<std::wstring>(x)); }
void drv_pt_w(std::wstring* o, enum event::path_type x) { ::new (o) std::wstring(wtr::to<std::wstring>(x)); }
void drv_et_sv(std::string_view* o, enum event::effect_type x) { ::new (o) std::string_view(wtr::to<std::string_view>(x)); }
void drv_pt_sv(std::string_view* o, enum event::path_type x) { ::new (o) std::string_view(wtr::to<std::string_view>(x)); }
void drv_et_wsv(std::wstring_view* o, enum event::effect_type x) { ::new (o) std::wstring_view(wtr::to<std::wstring_view>(x)); }
void drv_pt_wsv(std::wstring_view* o, enum event::path_type x) { ::new (o) std::wstring_view(wtr::to<std::wstring_view>(x)); }
void drv_et_os(std::ostream& o, enum event::effect_type x) { o << x; }
void drv_pt_os(std::ostream& o, enum event::path_type x) { o << x; }
void drv_et_wos(std::wostream& o, enum event::effect_type x) { o << x; }
void drv_pt_wos(std::wostream& o, enum event::path_type x) { o << x; }
void drv_tm_s(std::string* o, long long x) { ::new (o) std::string(wtr::to<std::string>(x)); }
void drv_tm_w(std::wstring* o, long long x) { ::new (o) std::wstring(wtr::to<std::wstring>(x)); }
void drv_ev_s(std::string* o, event const& e) { ::new (o) std::string(wtr::to<std::string>(e)); }
void drv_ev_w(std::wstring* o, event const& e) { ::new (o) std::wstring(wtr::to<std::wstring>(e)); }
void drv_ev_os(std::ostream& o, event const& e) { o << e; }
void drv_ev_wos(std::wostream& o, event const& e) { o << e; }
}
