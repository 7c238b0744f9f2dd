// Run-time library pieces for symbolic execution: what libstdc++.so / libc would provide out of line.
#include "pre.h"
#include <list>
#include <map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <memory>
#include <system_error>
#include <mutex>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <sstream>

extern "C" {
void *pfs_dlsym(void *, const char *);
void *__dso_handle = nullptr;
char __libc_single_threaded = 1;
}

namespace std
{
// ---- streams
ostream cout, cerr, clog;
istream cin;
template <>
basic_istream<char> &operator>>(basic_istream<char> &i, string &s)
{
    if (i.__sentry(false)) {
        s.clear();
        size_t w = i.width() > 0 ? (size_t)i.width() : (size_t)-1;
        while (i.__left() && s.size() < w && !istream::__sp(i.__cur())) { s += i.__cur(); i.__b->g++; }
        i.width(0);
        ios_base::iostate e = i.__left() ? ios_base::goodbit : ios_base::eofbit;
        if (s.empty()) e |= ios_base::failbit;
        if (e) i.setstate(e);
    }
    return i;
}
template <>
basic_istream<char> &getline(basic_istream<char> &i, string &s, char d)
{
    if (i.__sentry(true)) {
        s.clear();
        bool got = false, end = false;
        while (true) {
            if (!i.__left()) { end = true; break; }
            char c = i.__b->s[i.__b->g++];
            got = true;
            if (c == d) break;
            s += c;
        }
        ios_base::iostate e = ios_base::goodbit;
        if (end) e |= ios_base::eofbit;
        if (!got) e |= ios_base::failbit;
        if (e) i.setstate(e);
    }
    return i;
}
template class basic_string<char>;
template string operator+<char, char_traits<char>, allocator<char>>(const char *, const string &);
template string operator+<char, char_traits<char>, allocator<char>>(char, const string &);
template bool operator==<char, char_traits<char>, allocator<char>>(const string &, const char *);
// the constructor the C++11 sources of the repository call out of line
extern "C" void pfsrt_str1(string *p, const char *s, const allocator<char> &) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1EPKcRKS3_");
extern "C" void pfsrt_str1(string *p, const char *s, const allocator<char> &) { ::new (p) string(s); }
extern "C" void pfsrt_str2(string *p, const char *s, const allocator<char> &) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2EPKcRKS3_");
extern "C" void pfsrt_str2(string *p, const char *s, const allocator<char> &) { ::new (p) string(s); }

// ---- exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char *dup(const char *p)
{
    size_t n = strlen(p);
    char *q = (char *)malloc(n + 1);
    memcpy(q, p, n + 1);
    return q;
}
__cow_string::__cow_string() { _M_p = dup(""); }
__cow_string::__cow_string(const string &s)
{
    char *q = (char *)malloc(s.size() + 1);
    memcpy(q, s.c_str(), s.size() + 1);
    _M_p = q;
}
__cow_string::__cow_string(const char *s, size_t n)
{
    char *q = (char *)malloc(n + 1);
    memcpy(q, s, n);
    q[n] = 0;
    _M_p = q;
}
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dup(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept
{
    if (this != &o) { free((void *)_M_p); _M_p = dup(o._M_p); }
    return *this;
}
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = dup(o._M_p); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(N, B)                                     \
    N::N(const string &s) : B(s) {}                   \
    N::N(const char *s) : B(s) {}                     \
    N::~N() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- list
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base *n = _M_next, *p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base *const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base *t = this;
    do {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
// unordered containers
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 1; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > nb) return {true, _M_next_bkt((ne + ni) * 2)};
    return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    size_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i];
    return h;
}

// ---- red-black trees: plain binary search trees (ordering and iteration are what matters)
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base *dec_(_Rb_tree_node_base *x)
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec_(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec_(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black; // the header alone is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    _Rb_tree_node_base *&root = h._M_parent;
    if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? inc(z) : &h;
    if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? dec_(z) : &h;
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
        if (root == a) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
}

// ---- C library
extern "C" {
static int dig(char c)
{
    unsigned u = (unsigned char)c, x = u - '0', y = (u | 32) - 'a', mx = -(unsigned)(x < 10), my = -(unsigned)(y < 26);
    return (int)((x & mx) | ((y + 10) & my) | (99 & ~(mx | my)));
}
int *__errno_location() { static int e; return &e; }
static unsigned long long parse(const char *s, char **end, int base, bool &neg, bool &over, bool &any)
{
    const char *p = s;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
    else if ((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && dig(p[2]) < 2) { p += 2; base = 2; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    over = any = false;
    const char *start = p;
    while (true) {
        int d = dig(*p);
        if (d >= base) break;
        any = true;
        unsigned __int128 n = (unsigned __int128)v * base + d;
        if (n >> 64) over = true;
        v = (unsigned long long)n;
        p++;
    }
    uint64_t known;
    if (base == 10 && pfs_dec_lookup(start, p - start, &known)) { v = known; over = false; }
    if (end) *end = (char *)(any ? p : s);
    return v;
}
unsigned long long pfs_strtoull(const char *s, char **e, int b)
{
    bool n, o, a;
    unsigned long long v = parse(s, e, b, n, o, a);
    if (o) { *__errno_location() = 34; return ~0ull; }
    return n ? -v : v;
}
long long pfs_strtoll(const char *s, char **e, int b)
{
    bool n, o, a;
    unsigned long long v = parse(s, e, b, n, o, a);
    if (n) {
        if (o || v > 1ull << 63) { *__errno_location() = 34; return (long long)(1ull << 63); }
        return (long long)-v;
    }
    if (o || v >> 63) { *__errno_location() = 34; return (long long)(~0ull >> 1); }
    return (long long)v;
}
double pfs_strtod(const char *s, char **e)
{
    double d = 0;
    size_t n = *s == 1 ? pfs_parse_token(s, &d, 0) : pfs_parse_double(s, strlen(s), &d);
    if (e) *e = (char *)s + n;
    return d;
}
int strcasecmp(const char *a, const char *b)
{
    while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; }
    return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
void *dlopen(const char *n, int)
{
    // only the harness plugin library exists, unless the harness stands in for the loader
    if (void *h = pfs_dlsym(nullptr, "harness_dlopen")) return ((void *(*)(const char *))h)(n);
    return strstr(n, "pfsplugin") ? (void *)1 : nullptr;
}
int dlclose(void *l)
{
    if (void *h = pfs_dlsym(nullptr, "harness_dlclose")) ((void (*)(void *))h)(l);
    return 0;
}
char *dlerror() { return (char *)"cannot open shared object file"; }
void *dlsym(void *l, const char *n)
{
    if (void *h = pfs_dlsym(nullptr, "harness_dlsym")) return ((void *(*)(void *, const char *))h)(l, n);
    return pfs_dlsym(l, n);
}
char *getenv(const char *) { return nullptr; }
int pthread_once(int *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
int __pthread_key_create(unsigned *, void (*)(void *)) { return 0; }

// ---- virtual files
struct VFile { VFile *next; char *path; char *data; size_t n; };
static VFile *files;
static VFile *find(const char *p)
{
    for (VFile *f = files; f; f = f->next)
        if (!strcmp(f->path, p)) return f;
    return nullptr;
}
int pfs_vfs_write(const char *path, const char *p, size_t n, int append)
{
    if (!*path || strstr(path, "/missing/")) return 1;
    VFile *f = find(path);
    if (!f) {
        f = (VFile *)malloc(sizeof *f);
        f->path = (char *)std::dup(path);
        f->data = nullptr;
        f->n = 0;
        f->next = files;
        files = f;
    }
    size_t o = append ? f->n : 0;
    char *d = (char *)malloc(o + n + 1);
    if (o) memcpy(d, f->data, o);
    memcpy(d + o, p, n);
    d[o + n] = 0;
    free(f->data);
    f->data = d;
    f->n = o + n;
    return 0;
}
int pfs_vfs_read(const char *path, const char **p, size_t *n)
{
    VFile *f = find(path);
    if (!f) return 1;
    *p = f->data;
    *n = f->n;
    return 0;
}
}
extern "C" {
const char *pfs_dir() { return "/pfs"; }
const char *pfs_pluginlib() { return "libpfsplugin.so"; }
const char *pfs_plugindir() { return "/pfs/plugins"; }
}
