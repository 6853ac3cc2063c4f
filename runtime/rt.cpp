// Model of the parts of libstdc++ / libc that are not header-only, for the symbolic executor.
// Everything templated is the real libstdc++ code, instantiated here.
// compiled with -fno-access-control
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "symx.h"
#include <string>
#include <ostream>
#include <istream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <fstream>
#include <streambuf>
#include <locale>
#include <regex>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <map>
#include <list>
#include <unordered_map>
#include <memory>
#include <cxxabi.h>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <chrono>
#include <system_error>
#include <iterator>


// declared before their first implicit instantiation
namespace std {
template <> bool has_facet<ctype<char>>(const locale&) throw();
template <> bool has_facet<num_put<char>>(const locale&) throw();
template <> bool has_facet<num_get<char>>(const locale&) throw();
template <> const ctype<char>& use_facet<ctype<char>>(const locale&);
template <> const ctype<char>& use_facet<const ctype<char>>(const locale&);
template <> const collate<char>& use_facet<collate<char>>(const locale&);
template <> bool has_facet<codecvt<char, char, mbstate_t>>(const locale&) throw();
template <> const codecvt<char, char, mbstate_t>& use_facet<codecvt<char, char, mbstate_t>>(const locale&);
template <> const codecvt<char, char, mbstate_t>* __try_use_facet<codecvt<char, char, mbstate_t>>(const locale&) throw();
template <> void basic_ios<char>::_M_cache_locale(const locale&);
template <> template <> ostream& ostream::_M_insert(long);
template <> template <> ostream& ostream::_M_insert(long long);
template <> template <> ostream& ostream::_M_insert(unsigned long);
template <> template <> ostream& ostream::_M_insert(unsigned long long);
template <> template <> ostream& ostream::_M_insert(bool);
template <> template <> ostream& ostream::_M_insert(const void*);
template <> template <> ostream& ostream::_M_insert(double);
template <> template <> ostream& ostream::_M_insert(long double);
template <> template <> istream& istream::_M_extract(long&);
template <> template <> istream& istream::_M_extract(long long&);
template <> template <> istream& istream::_M_extract(unsigned long&);
template <> template <> istream& istream::_M_extract(unsigned long long&);
template <> template <> istream& istream::_M_extract(unsigned int&);
template <> template <> istream& istream::_M_extract(unsigned short&);
template <> template <> istream& istream::_M_extract(bool&);
template <> template <> istream& istream::_M_extract(double&);
template <> template <> istream& istream::_M_extract(float&);
template <> template <> istream& istream::_M_extract(long double&);
template <> istream& istream::operator>>(int&);
template <> istream& istream::operator>>(short&);
template <> istream& istream::getline(char*, streamsize, char);
template <> istream& istream::ignore(streamsize, int_type);
template <> istream& istream::ignore(streamsize);
template <> istream& getline(istream&, string&, char);
template <> istream& operator>>(istream&, string&);
template <> istream& operator>>(istream&, char&);
template <> basic_streambuf<char>::int_type basic_streambuf<char>::uflow();
}

static char* utoa_(char* end, unsigned long long v, unsigned base, bool upper)
{
    *end = 0;
    do {
        unsigned d = (unsigned)(v % base);
        v /= base;
        *--end = (char)(base <= 10 ? '0' + d : d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
    } while (v);
    return end;
}

// ------------------------------------------------------------------ std exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

// __cow_string is a single pointer: keep a heap copy of the message
static void setMsg(__cow_string& m, const char* s) { char* c = strdup(s); memcpy((void*)&m, &c, sizeof c); }
static const char* getMsg(const __cow_string& m) { const char* c; memcpy(&c, (const void*)&m, sizeof c); return c; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) { _M_p = nullptr; setMsg(*this, s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { _M_p = nullptr; setMsg(*this, s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const string& s) { setMsg(_M_msg, s.c_str()); }
logic_error::logic_error(const char* s) { setMsg(_M_msg, s); }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return getMsg(_M_msg); }
runtime_error::runtime_error(const string& s) { setMsg(_M_msg, s.c_str()); }
runtime_error::runtime_error(const char* s) { setMsg(_M_msg, s); }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return getMsg(_M_msg); }
#define SUB(c, b) c::c(const string& s) : b(s) {} c::c(const char* s) : b(s) {} c::~c() noexcept {}
SUB(domain_error, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(out_of_range, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() throw() {}
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }

// ------------------------------------------------------------------ trees, lists, hashing
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// no rebalancing: the ordering behaviour is the same; root is marked black so that header/root can be told apart
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
    _Rb_tree_node_base* root = h._M_parent;
    _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) h._M_parent = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) h._M_parent = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (h._M_left == z) {
            if (!z->_M_right) h._M_left = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; }
        }
        if (h._M_right == z) {
            if (!z->_M_left) h._M_right = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; }
        }
    }
    (void)xp;
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* const t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }

size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t p[] = { 2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697 };
    size_t r = 712697;
    for (size_t q : p) if (q >= n) { r = q; break; }
    _M_next_resize = (size_t)(r * (double)_M_max_load_factor);
    return r;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins > 11 || _M_next_resize ? elt + ins : 11;
        if (want >= bkt) { size_t g = bkt * 2; return { true, _M_next_bkt(want + 1 > g ? want + 1 : g) }; }
        _M_next_resize = bkt;
        return { false, 0 };
    }
    return { false, 0 };
}
}
// any deterministic function of the bytes is a valid hash; depending on the length only keeps symbolic contents out of the bucket index
size_t _Hash_bytes(const void*, size_t len, size_t seed) { return len * 31 + (seed & 0); }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t) { return len * 31; }

// ------------------------------------------------------------------ RTTI
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
}
static bool same(const std::type_info* a, const std::type_info* b) { return a == b || !strcmp(a->__name[0] == '*' ? a->__name + 1 : a->__name, b->__name[0] == '*' ? b->__name + 1 : b->__name); }
// the vtable identities of the type_info classes are opaque; the engine provides the class kind by symbol
extern "C" char _ZTVN10__cxxabiv117__class_type_infoE[], _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const char* findBase(const char* obj, const std::type_info* t, const std::type_info* dst)
{
    if (same(t, dst)) return obj;
    const char* vt = *(const char* const*)t;
    if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return findBase(obj, *(const std::type_info* const*)((const char*)t + 16), dst);
    if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
        unsigned n = *(const unsigned*)((const char*)t + 20);
        for (unsigned i = 0; i < n; ++i) {
            const std::type_info* b = *(const std::type_info* const*)((const char*)t + 24 + 16 * i);
            long fl = *(const long*)((const char*)t + 32 + 16 * i);
            const char* o = obj + (fl >> 8);
            if (fl & 1) o = obj + *(const long*)(*(const char* const*)obj + (fl >> 8));
            const char* r = findBase(o, b, dst);
            if (r) return r;
        }
    }
    return nullptr;
}
void* symx_dyncast(const void* src, const void*, const void* dst, ptrdiff_t) __asm__("__dynamic_cast");
void* symx_dyncast(const void* src, const void*, const void* dst, ptrdiff_t)
{
    const char* vt = *(const char* const*)src;
    const char* whole = (const char*)src + *(const long*)(vt - 16);
    const std::type_info* dyn = *(const std::type_info* const*)(vt - 8);
    return (void*)findBase(whole, dyn, (const std::type_info*)dst);
}

// ------------------------------------------------------------------ locale / ios
namespace std {
alignas(16) static char s_ctype_mem[sizeof(ctype<char>)];
static bool s_ios_ready = false;
static ctype_base::mask s_masks[256];
static void ready()
{
    if (s_ios_ready) return;
    s_ios_ready = true;
    for (int c = 0; c < 128; ++c) {
        unsigned m = 0;
        if (isupper(c)) m |= ctype_base::upper;
        if (islower(c)) m |= ctype_base::lower;
        if (isalpha(c)) m |= ctype_base::alpha;
        if (isdigit(c)) m |= ctype_base::digit;
        if (isxdigit(c)) m |= ctype_base::xdigit;
        if (isspace(c)) m |= ctype_base::space;
        if (isprint(c)) m |= ctype_base::print;
        if (iscntrl(c)) m |= ctype_base::cntrl;
        if (ispunct(c)) m |= ctype_base::punct;
        if (c == ' ' || c == '\t') m |= ctype_base::blank;
        s_masks[c] = (ctype_base::mask)m;
    }
    ctype<char>* c = new (s_ctype_mem) ctype<char>(nullptr, false, 1);
    c->_M_table = s_masks;
    c->_M_widen_ok = 1;
    c->_M_narrow_ok = 1;
    for (int i = 0; i < 256; ++i) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
}
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
const locale& locale::classic() { static locale* l = new locale; return *l; }
locale locale::global(const locale&) { return locale(); }
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
ctype<char>::ctype(const mask*, bool, size_t refs) : facet(refs) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b != e; ++b) *b = do_toupper(*b); return e; }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b != e; ++b) *b = do_tolower(*b); return e; }
struct symx_collate : collate<char> { // the "C" locale
    symx_collate() : collate<char>(1) {}
    string do_transform(const char* b, const char* e) const override { return string(b, e); }
    int do_compare(const char* b, const char* e, const char* b2, const char* e2) const override { return string(b, e).compare(string(b2, e2)); }
    long do_hash(const char*, const char*) const override { return 0; }
};
template <> const ctype<char>& use_facet<const ctype<char>>(const locale&) { ready(); return *(ctype<char>*)s_ctype_mem; }
template <> const collate<char>& use_facet<collate<char>>(const locale&) { static symx_collate* c = new symx_collate; return *c; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
static codecvt<char, char, mbstate_t>& symx_codecvt() { static codecvt<char, char, mbstate_t>* c = new codecvt<char, char, mbstate_t>(1); return *c; }
template <> const codecvt<char, char, mbstate_t>* __try_use_facet<codecvt<char, char, mbstate_t>>(const locale&) throw() { return &symx_codecvt(); }
template <> bool has_facet<ctype<char>>(const locale&) throw() { return true; }
template <> bool has_facet<num_put<char>>(const locale&) throw() { return false; }
template <> bool has_facet<num_get<char>>(const locale&) throw() { return false; }
template <> bool has_facet<codecvt<char, char, mbstate_t>>(const locale&) throw() { return true; }
template <> const codecvt<char, char, mbstate_t>& use_facet<codecvt<char, char, mbstate_t>>(const locale&) { return symx_codecvt(); }
template <> const ctype<char>& use_facet<ctype<char>>(const locale&) { ready(); return *(ctype<char>*)s_ctype_mem; }

ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale&) noexcept { return locale(); }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
template <> void basic_ios<char>::_M_cache_locale(const locale&) { ready(); _M_ctype = (ctype<char>*)s_ctype_mem; _M_num_put = nullptr; _M_num_get = nullptr; }

// number output
static void padInsert(ostream& os, const char* s, size_t n, bool num)
{
    // sign aware padding for std::internal is only used for numbers
    if (num && (os.flags() & ios_base::adjustfield) == ios_base::internal && os.width() > (streamsize)n) {
        size_t k = (n && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
        streamsize w = os.width();
        os.width(0);
        for (size_t i = 0; i < k; ++i) os.rdbuf()->sputc(s[i]);
        for (streamsize i = n; i < w; ++i) os.rdbuf()->sputc(os.fill());
        for (size_t i = k; i < n; ++i) os.rdbuf()->sputc(s[i]);
        return;
    }
    __ostream_insert(os, s, n);
}
static ostream& insU(ostream& os, unsigned long long v, bool neg)
{
    char b[80];
    auto bf = os.flags() & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    char* s = utoa_(b + 70, v, base, (os.flags() & ios_base::uppercase) != 0);
    if (base == 16 && (os.flags() & ios_base::showbase) && v) { *--s = 'x'; *--s = '0'; }
    if (base == 8 && (os.flags() & ios_base::showbase) && v) { *--s = '0'; }
    if (neg) *--s = '-';
    else if (os.flags() & ios_base::showpos) *--s = '+';
    padInsert(os, s, b + 70 - s, true);
    return os;
}
static ostream& insS(ostream& os, long long v, unsigned bits)
{
    auto bf = os.flags() & ios_base::basefield;
    if (bf == ios_base::hex || bf == ios_base::oct) return insU(os, bits == 64 ? (unsigned long long)v : (unsigned long long)v & ((1ULL << bits) - 1), false);
    return v < 0 ? insU(os, -(unsigned long long)v, true) : insU(os, v, false);
}
template <> template <> ostream& ostream::_M_insert(long v) { return insS(*this, v, 64); }
template <> template <> ostream& ostream::_M_insert(long long v) { return insS(*this, v, 64); }
template <> template <> ostream& ostream::_M_insert(unsigned long v) { return insU(*this, v, false); }
template <> template <> ostream& ostream::_M_insert(unsigned long long v) { return insU(*this, v, false); }
template <> template <> ostream& ostream::_M_insert(bool v)
{
    if (flags() & boolalpha) { __ostream_insert(*this, v ? "true" : "false", v ? 4 : 5); return *this; }
    return insU(*this, v, false);
}
template <> template <> ostream& ostream::_M_insert(const void* p)
{
    char b[40];
    char* s = utoa_(b + 30, (unsigned long long)p, 16, false);
    *--s = 'x'; *--s = '0';
    __ostream_insert(*this, s, b + 30 - s);
    return *this;
}
template <> template <> ostream& ostream::_M_insert(double v)
{
    char b[420];
    auto ff = flags() & floatfield;
    const char* fm = ff == fixed ? "%.*f" : ff == scientific ? "%.*e" : "%.*g";
    int n = symx_fmt_double(b, sizeof b, fm, (int)precision(), v);
    padInsert(*this, b, n, true);
    return *this;
}
template <> template <> ostream& ostream::_M_insert(long double v) { return _M_insert((double)v); }

// number input (decimal / hex / octal as selected by basefield)
static bool getNum(istream& is, unsigned long long& v, bool& neg, bool& ovf)
{
    auto bf = is.flags() & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : bf == ios_base::dec ? 10 : 0;
    streambuf* sb = is.rdbuf();
    int c = sb->sgetc();
    neg = false; ovf = false; v = 0;
    bool any = false;
    if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
    if (c == '0' && (base == 0 || base == 16)) {
        any = true;
        c = sb->snextc();
        if (c == 'x' || c == 'X') { base = 16; any = false; c = sb->snextc(); }
        else if (base == 0) base = 8;
    }
    if (base == 0) base = 10;
    for (;; c = sb->snextc()) {
        if (c == EOF) break;
        int d;
        if (isdigit(c)) d = c - '0';
        else if (base == 16 && isxdigit(c)) d = (c | 32) - 'a' + 10;
        else break;
        if (d >= (int)base) break;
        any = true;
        if (v > (~0ULL - d) / base) ovf = true;
        v = v * base + d;
    }
    if (c == EOF) is.setstate(ios_base::eofbit);
    return any;
}
template <class T> static istream& extNum(istream& is, T& out)
{
    istream::sentry ok(is, false);
    if (!ok) return is;
    unsigned long long v; bool neg, ovf;
    if (!getNum(is, v, neg, ovf)) { out = 0; is.setstate(ios_base::failbit); return is; }
    const bool sg = T(-1) < T(0);
    if (sg) {
        unsigned long long mx = (1ULL << (sizeof(T) * 8 - 1)) - (neg ? 0 : 1);
        if (ovf || v > mx) { out = (T)(neg ? (1ULL << (sizeof(T) * 8 - 1)) : mx); is.setstate(ios_base::failbit); return is; }
        out = (T)(neg ? -v : v);
    } else {
        unsigned long long mx = sizeof(T) == 8 ? ~0ULL : (1ULL << (sizeof(T) * 8 % 64)) - 1;
        if (ovf || v > mx) { out = (T)mx; is.setstate(ios_base::failbit); return is; }
        out = (T)(neg ? -v : v);
    }
    return is;
}
template <> template <> istream& istream::_M_extract(long& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(long long& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned long& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned long long& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned int& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned short& v) { return extNum(*this, v); }
template <> template <> istream& istream::_M_extract(bool& v) { unsigned long x = 0; extNum(*this, x); v = x != 0; if (x > 1) setstate(failbit); return *this; }
template <> template <> istream& istream::_M_extract(double& v)
{
    sentry ok(*this, false);
    if (!ok) return *this;
    string s;
    int c = rdbuf()->sgetc();
    while (c != EOF && (isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) { s.push_back((char)c); c = rdbuf()->snextc(); }
    if (c == EOF) setstate(eofbit);
    char* e;
    v = symx_strtod(s.c_str(), &e);
    if (s.empty() || *e) setstate(failbit);
    return *this;
}
template <> template <> istream& istream::_M_extract(float& v) { double d = 0; _M_extract(d); v = (float)d; return *this; }
template <> template <> istream& istream::_M_extract(long double& v) { double d = 0; _M_extract(d); v = d; return *this; }
template <> istream& istream::operator>>(int& v) { return extNum(*this, v); }
template <> istream& istream::operator>>(short& v) { return extNum(*this, v); }

// functions with char specialisations inside libstdc++.so
template <> istream& istream::getline(char* s, streamsize n, char delim)
{
    _M_gcount = 0;
    ios_base::iostate err = goodbit;
    sentry ok(*this, true);
    if (ok) {
        int c = rdbuf()->sgetc();
        while (_M_gcount + 1 < n && c != EOF && c != (unsigned char)delim) { *s++ = (char)c; c = rdbuf()->snextc(); ++_M_gcount; }
        if (c == EOF) err |= eofbit;
        else if (c == (unsigned char)delim) { rdbuf()->sbumpc(); ++_M_gcount; }
        else err |= failbit;
    }
    if (n > 0) *s = 0;
    if (!_M_gcount) err |= failbit;
    if (err) setstate(err);
    return *this;
}
template <> istream& istream::ignore(streamsize n, int_type delim)
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (ok) {
        for (; _M_gcount < n; ) {
            int c = rdbuf()->sbumpc();
            if (c == EOF) { setstate(eofbit); break; }
            ++_M_gcount;
            if (c == delim) break;
        }
    }
    return *this;
}
template <> istream& istream::ignore(streamsize n) { return ignore(n, EOF); }
template <> istream& getline(istream& in, string& str, char delim)
{
    ios_base::iostate err = ios_base::goodbit;
    size_t extracted = 0;
    istream::sentry ok(in, true);
    if (ok) {
        str.erase();
        int c = in.rdbuf()->sgetc();
        while (c != EOF && c != (unsigned char)delim) { str.push_back((char)c); ++extracted; c = in.rdbuf()->snextc(); }
        if (c == EOF) err |= ios_base::eofbit;
        else { ++extracted; in.rdbuf()->sbumpc(); }
    }
    if (!extracted) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> istream& operator>>(istream& in, string& str)
{
    size_t extracted = 0;
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, false);
    if (ok) {
        str.erase();
        int c = in.rdbuf()->sgetc();
        while (c != EOF && !isspace(c)) { str.push_back((char)c); ++extracted; c = in.rdbuf()->snextc(); }
        if (c == EOF) err |= ios_base::eofbit;
        in.width(0);
        if (!extracted) err |= ios_base::failbit;
    }
    if (err) in.setstate(err);
    return in;
}
template <> istream& operator>>(istream& in, char& ch)
{
    istream::sentry ok(in, false);
    if (ok) {
        int c = in.rdbuf()->sbumpc();
        if (c == EOF) in.setstate(ios_base::eofbit | ios_base::failbit); else ch = (char)c;
    }
    return in;
}
template <> basic_streambuf<char>::int_type basic_streambuf<char>::uflow() { int c = underflow(); if (c != EOF) { gbump(1); } return c; }

template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ofstream<char>;
template class basic_ifstream<char>;
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template istream& ws(istream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template istream& getline(istream&, string&);

// standard streams: no buffer attached, output is discarded
alignas(16) char s_cout[sizeof(ostream)] __asm__("_ZSt4cout");
alignas(16) char s_cerr[sizeof(ostream)] __asm__("_ZSt4cerr");
alignas(16) char s_clog[sizeof(ostream)] __asm__("_ZSt4clog");
alignas(16) char s_cin[sizeof(istream)] __asm__("_ZSt3cin");
static bool s_init_done = false;
struct nullbuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
ios_base::Init::Init()
{
    if (s_init_done) return;
    s_init_done = true;
    ready();
    streambuf* nb = new nullbuf;
    ::new ((void*)s_cout) ostream(nb);
    ::new ((void*)s_cerr) ostream(nb);
    ::new ((void*)s_clog) ostream(nb);
    ::new ((void*)s_cin) istream(nullptr);
}
ios_base::Init::~Init() {}


template string::basic_string(const char*, const allocator<char>&);
template string::basic_string(size_t, char, const allocator<char>&);
template ostream& operator<<(ostream&, _Setw);
template ostream& operator<<(ostream&, _Setfill<char>);
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
void ios_base_library_init() {}
template <> streamsize __copy_streambufs_eof(streambuf* in, streambuf* out, bool& eof)
{
    streamsize n = 0;
    eof = true;
    for (int c = in->sgetc(); c != EOF; c = in->snextc()) { if (out->sputc((char)c) == EOF) { eof = false; break; } ++n; }
    return n;
}
locale::id ctype<char>::id;
size_t locale::id::_M_id() const throw() { return 1; }
const nothrow_t nothrow{};

// files: kept in memory for the length of a path
struct symx_file { symx_file* next; char* name; char* data; size_t size, cap; };
struct symx_open { symx_file* f; size_t pos; };
static symx_file* symx_files;
static symx_file* symx_find(const char* n) { for (symx_file* f = symx_files; f; f = f->next) if (!strcmp(f->name, n)) return f; return nullptr; }
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int)
{
    if (_M_cfile) return nullptr;
    symx_file* f = symx_find(n);
    if (!f) {
        if (!(m & ios_base::out) || (m & ios_base::in) || !*n) return nullptr;
        for (const char* p = n; *p; ++p) if (*p == '/') return nullptr; // directories do not exist
        f = (symx_file*)calloc(1, sizeof *f);
        f->name = strdup(n); f->next = symx_files; symx_files = f;
    } else if ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app)))
        f->size = 0;
    symx_open* o = (symx_open*)malloc(sizeof *o);
    o->f = f; o->pos = m & ios_base::app ? f->size : 0;
    _M_cfile = (__c_file*)o;
    return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return nullptr; free(_M_cfile); _M_cfile = nullptr; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
streamsize __basic_file<char>::xsgetn(char* p, streamsize n)
{
    symx_open* o = (symx_open*)_M_cfile;
    if (!o) return -1;
    streamsize k = o->pos < o->f->size ? o->f->size - o->pos : 0;
    if (k > n) k = n;
    memcpy(p, o->f->data + o->pos, k);
    o->pos += k;
    return k;
}
streamsize __basic_file<char>::xsputn(const char* p, streamsize n)
{
    symx_open* o = (symx_open*)_M_cfile;
    if (!o) return 0;
    symx_file* f = o->f;
    if (o->pos + n > f->cap) {
        f->cap = 2 * (o->pos + n) + 64;
        char* d = (char*)malloc(f->cap);
        if (f->size) memcpy(d, f->data, f->size);
        free(f->data);
        f->data = d;
    }
    memcpy(f->data + o->pos, p, n);
    o->pos += n;
    if (o->pos > f->size) f->size = o->pos;
    return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) { return xsputn(a, n) + xsputn(b, m); }
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir w) throw()
{
    symx_open* o = (symx_open*)_M_cfile;
    if (!o) return -1;
    streamoff r = off + (w == ios_base::beg ? 0 : w == ios_base::cur ? (streamoff)o->pos : (streamoff)o->f->size);
    if (r < 0) return -1;
    return o->pos = r;
}
streamsize __basic_file<char>::showmanyc() { symx_open* o = (symx_open*)_M_cfile; return o && o->pos < o->f->size ? o->f->size - o->pos : 0; }
int __basic_file<char>::sync() { return 0; }
locale::id codecvt<char, char, mbstate_t>::id;
typedef codecvt<char, char, mbstate_t> symx_cvt;
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt() {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result symx_cvt::do_out(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result symx_cvt::do_unshift(mbstate_t&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result symx_cvt::do_in(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int symx_cvt::do_encoding() const throw() { return 1; }
bool symx_cvt::do_always_noconv() const throw() { return true; }
int symx_cvt::do_length(mbstate_t&, const char* f, const char* e, size_t m) const { return min<size_t>(m, e - f); }
int symx_cvt::do_max_length() const throw() { return 1; }
// ------------------------------------------------------------------ misc
namespace chrono { inline namespace _V2 {
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)symx_time() * 1000)); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)symx_time() * 1000)); }
} }
}
extern "C" void symx_model_init_() { std::ios_base::Init i; }
__attribute__((constructor(101))) static void symx_early_init() { std::ios_base::Init i; }

// std::thread
#include <thread>
extern "C" int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
namespace std
{
thread::_State::~_State() = default;
}
static void* rt_thread_run(void* p)
{
    std::thread::_State* s = static_cast<std::thread::_State*>(p);
    s->_M_run();
    delete s;
    return nullptr;
}
namespace std
{
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    pthread_create(reinterpret_cast<pthread_t*>(&_M_id), nullptr, rt_thread_run, s.release());
}
void thread::join()
{
    pthread_join(_M_id._M_thread, nullptr);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
}
