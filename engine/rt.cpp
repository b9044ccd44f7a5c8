// Run-time model linked with the real library bitcode for symbolic execution.
// Replaces the parts of libc / libstdc++ / libsupc++ that exist only as machine code.
// Compiled with -fno-access-control -fno-builtin.
#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <cwctype>
#include <exception>
#include <fstream>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>

extern "C" {
void posym_unwind(void* obj) __attribute__((noreturn));
void posym_fail(const char* kind, const char* msg) __attribute__((noreturn));
int posym_isSymbolic(long);
void posym_guard(int);
}
#define UNSUP(x) posym_fail("unsupported", x)

// ------------------------------------------------------------------ memory
static long liveBlocks;                      // blocks obtained from operator new and not yet deleted
extern "C" long posym_heap_live() { return liveBlocks; }
void* operator new(size_t n) { ++liveBlocks; return malloc(n); }
void* operator new[](size_t n) { ++liveBlocks; return malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { ++liveBlocks; return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { ++liveBlocks; return malloc(n); }
void operator delete(void* p) noexcept { if (p) --liveBlocks; free(p); }
void operator delete[](void* p) noexcept { if (p) --liveBlocks; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --liveBlocks; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --liveBlocks; free(p); }
namespace std { const nothrow_t nothrow{}; }

extern "C" {
// ------------------------------------------------------------------ C++ ABI
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)()) { return 0; }
int __cxa_guard_acquire(char* g) { if (*g) return 0; posym_guard(1); return 1; }
void __cxa_guard_release(char* g) { *g = 1; posym_guard(-1); }
void __cxa_guard_abort(char*) { posym_guard(-1); }
char __libc_single_threaded = 0;
void __cxa_pure_virtual() { posym_fail("abort", "pure virtual call"); }
void __cxa_deleted_virtual() { posym_fail("abort", "deleted virtual call"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }

struct EHdr { std::type_info* ti; void (*dtor)(void*); long handlers; void* adjusted; EHdr* next; long refs; long pad[2]; };
static_assert(sizeof(EHdr) == 64, "");
static EHdr* caught; static unsigned uncaughtN;
void* __cxa_allocate_exception(size_t n) noexcept { char* p = (char*)malloc(n + sizeof(EHdr)); memset(p, 0, sizeof(EHdr)); return p + sizeof(EHdr); }
void __cxa_free_exception(void* p) noexcept { free((char*)p - sizeof(EHdr)); }
void __cxa_throw(void* obj, void* ti, void (*dtor)(void*)) { EHdr* h = (EHdr*)obj - 1; h->ti = (std::type_info*)ti; h->dtor = dtor; h->refs = 1; ++uncaughtN; posym_unwind(obj); }
void* __cxa_get_exception_ptr(void* p) noexcept { return ((EHdr*)p - 1)->adjusted; }
void* __cxa_begin_catch(void* p) noexcept {
  EHdr* h = (EHdr*)p - 1;
  h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
  --uncaughtN;
  if (caught != h) { h->next = caught; caught = h; }
  return h->adjusted;
}
static void ehRelease(EHdr* h) { if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); free(h); } }
void __cxa_end_catch() {
  EHdr* h = caught; if (!h) return;
  if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; }
  else if (--h->handlers == 0) { caught = h->next; ehRelease(h); }
}
void __cxa_rethrow() { EHdr* h = caught; if (!h) std::terminate(); h->handlers = -h->handlers; ++uncaughtN; posym_unwind(h + 1); }
void* __cxa_current_exception_type() { return caught ? caught->ti : 0; }
int __gxx_personality_v0(...) { return 0; }
void _Unwind_Resume(void*) { UNSUP("_Unwind_Resume"); }
}
namespace std {
void terminate() noexcept { posym_fail("terminate", "std::terminate() called"); }
void unexpected() { posym_fail("terminate", "std::unexpected() called"); }
bool uncaught_exception() noexcept { return uncaughtN != 0; }
int uncaught_exceptions() noexcept { return uncaughtN; }
void __glibcxx_assert_fail(const char*, int, const char* f, const char* c) noexcept { posym_fail("assertfail", c ? c : "glibcxx assertion"); }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) ((EHdr*)p - 1)->refs++; }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) ((EHdr*)_M_exception_object - 1)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { ehRelease((EHdr*)_M_exception_object - 1); _M_exception_object = 0; } }
}
__exception_ptr::exception_ptr current_exception() noexcept { return caught ? __exception_ptr::exception_ptr((void*)(caught + 1)) : __exception_ptr::exception_ptr(); }
void rethrow_exception(__exception_ptr::exception_ptr) { UNSUP("rethrow_exception"); }

type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }

static char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupn("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupn(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupn(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupn(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupn(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupn(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }

logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
LE(domain_error, logic_error) LE(invalid_argument, logic_error) LE(length_error, logic_error) LE(out_of_range, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
struct IosFailure : runtime_error { IosFailure(const char* s) : runtime_error(s) {} };      // caught inside the streams
void __throw_ios_failure(const char* s) { throw IosFailure(s); }
void __throw_ios_failure(const char* s, int) { throw IosFailure(s); }

// ------------------------------------------------------------------ red-black tree, list
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}

// ------------------------------------------------------------------ locale ("C" only)
#define NF 64
static const locale::facet** facetTab() { static const locale::facet* t[NF]; return t; }
size_t locale::id::_M_id() const throw() { static size_t next; if (!_M_index) _M_index = ++next; return _M_index - 1; }
locale::facet::~facet() {}
locale::_Impl::_Impl(const _Impl& o, size_t r) : _M_refcount(r), _M_facets(0), _M_facets_size(o._M_facets_size), _M_caches(0), _M_names(0) {
  _M_facets = (const facet**)malloc(NF * sizeof(void*)); memcpy(_M_facets, o._M_facets, NF * sizeof(void*)); _M_caches = o._M_caches; _M_names = o._M_names;
}
locale::_Impl::~_Impl() throw() {}
void locale::_Impl::_M_install_facet(const locale::id* i, const facet* f) { if (f) { f->_M_add_reference(); _M_facets[i->_M_id()] = f; } }
struct ClassicFacets;
static locale::_Impl* classicImpl();
locale::locale() throw() { _M_impl = classicImpl(); }
locale::locale(const locale& o) throw() { _M_impl = o._M_impl; }
locale::locale(_Impl* i) throw() { _M_impl = i; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { static locale* p; if (!p) { p = (locale*)malloc(sizeof(locale)); p->_M_impl = classicImpl(); } return *p; }
locale locale::global(const locale&) { UNSUP("locale::global"); }
string locale::name() const { return "C"; }

// ctype<char>
const ctype<char>::mask* ctype<char>::classic_table() throw() {
  static mask t[256]; static bool init;
  if (!init) { init = true; for (int c = 0; c < 256; ++c) { mask m = 0;
    if (::isupper(c)) m |= upper; if (::islower(c)) m |= lower; if (::isalpha(c)) m |= alpha; if (::isdigit(c)) m |= digit; if (::isxdigit(c)) m |= xdigit; if (::isspace(c)) m |= space; if (::isprint(c)) m |= print;
    if (::iscntrl(c)) m |= cntrl; if (::ispunct(c)) m |= punct; if (::isblank(c)) m |= blank; t[c] = m; } }
  return t;
}
locale::id ctype<char>::id; const size_t ctype<char>::table_size;
ctype<char>::ctype(const mask* t, bool d, size_t r) : locale::facet(r), _M_c_locale_ctype(0), _M_del(t != 0 && d), _M_toupper(0), _M_tolower(0), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* l, const char* h) const { for (; l < h; ++l) *l = do_toupper(*l); return h; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* l, const char* h) const { for (; l < h; ++l) *l = do_tolower(*l); return h; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; for (int i = 0; i < 256; ++i) _M_widen[i] = i; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; for (int i = 0; i < 256; ++i) _M_narrow[i] = i; }
// ctype<wchar_t>
locale::id ctype<wchar_t>::id;
ctype<wchar_t>::ctype(size_t r) : __ctype_abstract_base<wchar_t>(r), _M_c_locale_ctype(0) {}
ctype<wchar_t>::~ctype() {}
static bool wis(ctype_base::mask m, wchar_t c) { if ((unsigned)c > 127) return false; return ctype<char>::classic_table()[(unsigned)c] & m; }
bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { return wis(m, c); }
const wchar_t* ctype<wchar_t>::do_is(const wchar_t* l, const wchar_t* h, mask* v) const { for (; l < h; ++l, ++v) *v = (unsigned)*l > 127 ? mask(0) : ctype<char>::classic_table()[(unsigned)*l]; return h; }
const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* l, const wchar_t* h) const { while (l < h && !wis(m, *l)) ++l; return l; }
const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* l, const wchar_t* h) const { while (l < h && wis(m, *l)) ++l; return l; }
wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return towupper(c); }
const wchar_t* ctype<wchar_t>::do_toupper(wchar_t* l, const wchar_t* h) const { for (; l < h; ++l) *l = towupper(*l); return h; }
wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return towlower(c); }
const wchar_t* ctype<wchar_t>::do_tolower(wchar_t* l, const wchar_t* h) const { for (; l < h; ++l) *l = towlower(*l); return h; }
wchar_t ctype<wchar_t>::do_widen(char c) const { return (unsigned char)c; }
const char* ctype<wchar_t>::do_widen(const char* l, const char* h, wchar_t* d) const { for (; l < h; ++l, ++d) *d = (unsigned char)*l; return h; }
char ctype<wchar_t>::do_narrow(wchar_t c, char df) const { return (unsigned)c < 128 ? (char)c : df; }
const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* l, const wchar_t* h, char df, char* d) const { for (; l < h; ++l, ++d) *d = (unsigned)*l < 128 ? (char)*l : df; return h; }
// codecvt<wchar_t,char,mbstate_t>: glibc "C" locale (ASCII only, other characters are errors)
typedef codecvt<wchar_t, char, mbstate_t> CW;
locale::id CW::id;
CW::codecvt(size_t r) : __codecvt_abstract_base<wchar_t, char, mbstate_t>(r), _M_c_locale_codecvt(0) {}
CW::~codecvt() {}
codecvt_base::result CW::do_out(state_type&, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const {
  result r = ok; for (; f != fe; ++f, ++t) { if (t == te) { r = partial; break; } if ((unsigned)*f > 127) { r = error; break; } *t = (char)*f; } fn = f; tn = t; return r; }
codecvt_base::result CW::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result CW::do_in(state_type&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
  result r = ok; for (; f != fe; ++f, ++t) { if (t == te) { r = partial; break; } if ((unsigned char)*f > 127) { r = error; break; } *t = (unsigned char)*f; } fn = f; tn = t; return r; }
int CW::do_encoding() const throw() { return 1; }
bool CW::do_always_noconv() const throw() { return false; }
int CW::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t n = e - f; return n < m ? n : m; }
int CW::do_max_length() const throw() { return 1; }

// codecvt<char,char,mbstate_t>: no conversion
typedef codecvt<char, char, mbstate_t> CC;
locale::id CC::id;
CC::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(0) {}
CC::~codecvt() {}
codecvt_base::result CC::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result CC::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result CC::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int CC::do_encoding() const throw() { return 1; }
bool CC::do_always_noconv() const throw() { return true; }
int CC::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t n = e - f; return n < m ? n : m; }
int CC::do_max_length() const throw() { return 1; }

static locale::_Impl* classicImpl() {
  static locale::_Impl* im;
  if (!im) {
    im = (locale::_Impl*)malloc(sizeof(locale::_Impl)); memset((void*)im, 0, sizeof *im);
    im->_M_refcount = 2; im->_M_facets = facetTab(); im->_M_facets_size = NF;
    im->_M_facets[ctype<char>::id._M_id()] = new ctype<char>(0, false, 1);
    im->_M_facets[ctype<wchar_t>::id._M_id()] = new ctype<wchar_t>(1);
    im->_M_facets[CW::id._M_id()] = new CW(1);
    im->_M_facets[CC::id._M_id()] = new CC(1);
  }
  return im;
}
extern "C" void posym_warm() {       // what the standard library initialises on first use (it takes care of threads itself)
  (void)locale::classic(); const ctype<char>& c = *(const ctype<char>*)classicImpl()->_M_facets[ctype<char>::id._M_id()];
  c._M_widen_init(); c._M_narrow_init(); ctype<char>::classic_table();
}
namespace __cxx11_ids { }

// ------------------------------------------------------------------ ios
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
ios_base::_Words& ios_base::_M_grow_words(int, bool) { UNSUP("iword"); }
void ios_base::register_callback(event_callback, int) { UNSUP("register_callback"); }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void ios_base_library_init() {}
bool ios_base::sync_with_stdio(bool) { return true; }

template <class C> static basic_ostream<C>& putNum(basic_ostream<C>& o, unsigned long v, bool neg) {
  C b[32]; int n = 32; unsigned base = (o.flags() & ios_base::hex) ? 16 : (o.flags() & ios_base::oct) ? 8 : 10;
  do { b[--n] = C("0123456789abcdef"[v % base]); v /= base; } while (v); if (neg) b[--n] = C('-');
  return __ostream_insert(o, b + n, 32 - n);
}
#define LBL(T, M, name, body) ostream& name(ostream& o, T v) asm("_ZNSo9_M_insertI" M "EERSoT_"); ostream& name(ostream& o, T v) { body; }
LBL(long, "l", ins_l, if (v < 0 && !(o.flags() & (ios_base::hex | ios_base::oct))) return putNum<char>(o, 0 - (unsigned long)v, true); return putNum<char>(o, v, false))
LBL(unsigned long, "m", ins_m, return putNum<char>(o, v, false))
LBL(long long, "x", ins_x, if (v < 0) return putNum<char>(o, 0 - (unsigned long)v, true); return putNum<char>(o, v, false))
LBL(unsigned long long, "y", ins_y, return putNum<char>(o, v, false))
LBL(bool, "b", ins_b, return putNum<char>(o, v, false))
LBL(double, "d", ins_d, UNSUP("ostream << double"))
LBL(long double, "e", ins_e, UNSUP("ostream << long double"))
LBL(const void*, "PKv", ins_p, UNSUP("ostream << pointer"))

// ------------------------------------------------------------------ files: a few in memory
struct MemFile { const char* name; const char* data; size_t n, pos; int kind; };      // kind 0: readable, 2: opens, cannot be read
static MemFile files[4]; static int nfiles;
extern "C" void posym_file(const char* name, const char* data, size_t n, int kind) { if (nfiles == 4) UNSUP("files"); files[nfiles++] = MemFile{dupn(name, strlen(name)), dupn(data, n), n, 0, kind}; }
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode mode, int) {
  if (mode & (ios_base::out | ios_base::app)) UNSUP("writing files");
  if (is_open()) return 0;
  for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i].name, name)) { MemFile* f = (MemFile*)malloc(sizeof(MemFile)); *f = files[i]; _M_cfile = (__c_file*)f; _M_cfile_created = true; return this; }
  return 0;
}
__basic_file<char>* __basic_file<char>::sys_open(__c_file*, ios_base::openmode) { UNSUP("sys_open"); }
__basic_file<char>* __basic_file<char>::sys_open(int, ios_base::openmode) throw() { UNSUP("sys_open"); }
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return 0; free(_M_cfile); _M_cfile = 0; _M_cfile_created = false; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
int __basic_file<char>::fd() throw() { UNSUP("fd"); }
__c_file* __basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char*, streamsize) { UNSUP("writing files"); }
streamsize __basic_file<char>::xsputn_2(const char*, streamsize, const char*, streamsize) { UNSUP("writing files"); }
streamsize __basic_file<char>::xsgetn(char* p, streamsize n) {
  MemFile* f = (MemFile*)_M_cfile; if (f->kind == 2) return -1;
  if (n > (streamsize)(f->n - f->pos)) n = f->n - f->pos;
  memcpy(p, f->data + f->pos, n); f->pos += n; return n;
}
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { MemFile* f = (MemFile*)_M_cfile; streamoff p = (w == ios_base::beg ? 0 : w == ios_base::cur ? f->pos : f->n) + o; if (p < 0) return -1; f->pos = p; return p; }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { MemFile* f = (MemFile*)_M_cfile; return f->n - f->pos; }
template class basic_filebuf<char>; template class basic_filebuf<wchar_t>; template class basic_ifstream<char>; template class basic_ifstream<wchar_t>;

template <class C> static basic_istream<C>& getl(basic_istream<C>& in, basic_string<C>& s, C d) {
  typedef char_traits<C> T; size_t n = 0; ios_base::iostate err = ios_base::goodbit;
  typename basic_istream<C>::sentry ok(in, true);
  if (ok) {
    try {
    s.erase(); auto eof = T::eof(); auto c = in.rdbuf()->sgetc();
    for (;;) { if (T::eq_int_type(c, eof)) { err |= ios_base::eofbit; break; }
      if (T::to_char_type(c) == d) { ++n; in.rdbuf()->sbumpc(); break; }
      s += T::to_char_type(c); ++n; c = in.rdbuf()->snextc(); }
    } catch (...) { in._M_setstate(ios_base::badbit); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { return getl<char>(i, s, d); }
template <> basic_istream<wchar_t>& getline(basic_istream<wchar_t>& i, basic_string<wchar_t>& s, wchar_t d) { return getl<wchar_t>(i, s, d); }

#define INST(C) \
  template class basic_string<C>; template class basic_ios<C>; template class basic_streambuf<C>; template class basic_ostream<C>; template class basic_istream<C>; template class basic_iostream<C>; \
  template class basic_stringbuf<C>; template class basic_ostringstream<C>; template class basic_istringstream<C>; template class basic_stringstream<C>; \
  template basic_ostream<C>& __ostream_insert(basic_ostream<C>&, const C*, streamsize); template basic_ostream<C>& endl(basic_ostream<C>&); template basic_ostream<C>& flush(basic_ostream<C>&); template basic_ostream<C>& ends(basic_ostream<C>&); \
  template basic_ostream<C>& operator<<(basic_ostream<C>&, C); template basic_ostream<C>& operator<<(basic_ostream<C>&, const C*);
INST(char)
INST(wchar_t)
template basic_istream<char>& operator>>(basic_istream<char>&, char&);
template basic_istream<char>& ws(basic_istream<char>&);
}
