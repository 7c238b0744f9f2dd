// Stream library model used only for symbolic execution.  Same observable semantics as libstdc++ in the C locale for
// the operations below, with the buffering and locale machinery left out.
#pragma once
#define PFS_RT_STREAMS 1
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <limits>
#include <cstdint>

extern "C" {
size_t pfs_fmt_uint(char *buf, uint64_t v, unsigned base, int upper);
size_t pfs_fmt_double(char *buf, double v, int kind, int prec, int flags);
int pfs_dec_lookup(const char *p, size_t n, uint64_t *out);
size_t pfs_parse_double(const char *p, size_t n, double *out);
size_t pfs_parse_token(const char *p, double *out, int asFloat);
void pfs_unmodelled(const char *what);
int pfs_vfs_write(const char *path, const char *p, size_t n, int append);
int pfs_vfs_read(const char *path, const char **p, size_t *n);
}

namespace std
{
class ios_base
{
public:
    enum _Fl { _fl_end = 1L << 30 };
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    typedef int seekdir;
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
                          showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384,
                          adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    class failure : public runtime_error
    {
    public:
        explicit failure(const string &s) : runtime_error(s) {}
    };
    class Init
    {
    };
    fmtflags flags() const { return _fl; }
    fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { _fl &= ~m; }
    streamsize precision() const { return _pr; }
    streamsize precision(streamsize p) { streamsize o = _pr; _pr = p; return o; }
    streamsize width() const { return _w; }
    streamsize width(streamsize w) { streamsize o = _w; _w = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}

protected:
    ios_base() {}
    fmtflags _fl = skipws | dec;
    iostate _st = goodbit, _ex = goodbit;
    streamsize _pr = 6, _w = 0;
};

template <typename C, typename T>
class basic_streambuf
{
public:
    typedef C char_type;
    typedef T traits_type;
    typedef typename T::int_type int_type;
    virtual ~basic_streambuf() {}
};
// string storage shared by the input and output sides
template <typename C, typename T>
struct __pfs_buf
{
    basic_string<C, T> s;
    size_t g = 0;
    bool keep = true;
};

template <typename C, typename T>
class basic_ios : public ios_base
{
public:
    typedef C char_type;
    typedef T traits_type;
    typedef typename T::int_type int_type;
    typedef typename T::pos_type pos_type;
    typedef typename T::off_type off_type;
    iostate rdstate() const { return _st; }
    void clear(iostate s = goodbit)
    {
        _st = s;
        if (_st & _ex) throw failure("basic_ios::clear: iostream error");
    }
    void setstate(iostate s) { clear(_st | s); }
    bool good() const { return _st == 0; }
    bool eof() const { return _st & eofbit; }
    bool fail() const { return _st & (failbit | badbit); }
    bool bad() const { return _st & badbit; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate exceptions() const { return _ex; }
    void exceptions(iostate e) { _ex = e; clear(_st); }
    C fill() const { return _fill; }
    C fill(C c) { C o = _fill; _fill = c; return o; }
    C widen(char c) const { return c; }
    char narrow(C c, char) const { return c; }
    void copyfmt(const basic_ios &o) { _fl = o._fl; _pr = o._pr; _w = o._w; _fill = o._fill; }
    __pfs_buf<C, T> *__b = nullptr;
    virtual void __flush() {}

protected:
    C _fill = ' ';
};

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef basic_ostream O;
    basic_ostream() {}
    explicit basic_ostream(basic_streambuf<C, T> *) {}
    virtual ~basic_ostream() {}
    class sentry
    {
    public:
        explicit sentry(O &o) : ok(o.good()) {}
        explicit operator bool() const { return ok; }
        bool ok;
    };
    O &__raw(const C *p, size_t n)
    {
        if (!this->good()) { this->setstate(ios_base::badbit); return *this; }
        if (this->__b && this->__b->keep) this->__b->s.append(p, n);
        return *this;
    }
    // pad: number of leading characters kept before the fill for "internal"
    O &__pad(const C *p, size_t n, size_t pre)
    {
        if (!this->good()) { this->setstate(ios_base::badbit); return *this; }
        size_t w = this->_w > 0 ? (size_t)this->_w : 0;
        this->_w = 0;
        if (!this->__b || !this->__b->keep) return *this;
        basic_string<C, T> &s = this->__b->s;
        if (w <= n) { s.append(p, n); return *this; }
        typename ios_base::fmtflags adj = this->_fl & ios_base::adjustfield;
        if (adj == ios_base::left) { s.append(p, n); s.append(w - n, this->_fill); }
        else if (adj == ios_base::internal) { s.append(p, pre); s.append(w - n, this->_fill); s.append(p + pre, n - pre); }
        else { s.append(w - n, this->_fill); s.append(p, n); }
        return *this;
    }
    O &__int(bool neg, uint64_t mag, uint64_t raw, bool isSigned)
    {
        char b[80];
        size_t n = 0;
        unsigned base = (this->_fl & ios_base::basefield) == ios_base::hex ? 16 : (this->_fl & ios_base::basefield) == ios_base::oct ? 8 : 10;
        bool up = this->_fl & ios_base::uppercase;
        size_t pre = 0;
        if (base == 10) {
            if (neg) b[n++] = '-';
            else if (isSigned && (this->_fl & ios_base::showpos)) b[n++] = '+';
            pre = n;
            n += pfs_fmt_uint(b + n, mag, 10, 0);
        } else {
            if ((this->_fl & ios_base::showbase) && raw) {
                b[n++] = '0';
                if (base == 16) { b[n++] = up ? 'X' : 'x'; pre = 2; }
            }
            n += pfs_fmt_uint(b + n, raw, base, up);
        }
        return __pad(b, n, pre);
    }
    template <typename I, typename U>
    O &__sint(I v)
    {
        return __int(v < 0, v < 0 ? -(uint64_t)(int64_t)v : (uint64_t)(int64_t)v, (uint64_t)(U)v, true);
    }
    O &operator<<(bool v)
    {
        if (this->_fl & ios_base::boolalpha) return v ? __pad("true", 4, 0) : __pad("false", 5, 0);
        return __int(false, v, v, true);
    }
    O &operator<<(short v) { return __sint<short, unsigned short>(v); }
    O &operator<<(int v) { return __sint<int, unsigned int>(v); }
    O &operator<<(long v) { return __sint<long, unsigned long>(v); }
    O &operator<<(long long v) { return __sint<long long, unsigned long long>(v); }
    O &operator<<(unsigned short v) { return __int(false, v, v, false); }
    O &operator<<(unsigned int v) { return __int(false, v, v, false); }
    O &operator<<(unsigned long v) { return __int(false, v, v, false); }
    O &operator<<(unsigned long long v) { return __int(false, v, v, false); }
    O &operator<<(double v)
    {
        char b[600];
        int k = (this->_fl & ios_base::floatfield) == ios_base::fixed ? 'f' : (this->_fl & ios_base::floatfield) == ios_base::scientific ? 'e' : 'g';
        if ((this->_fl & ios_base::floatfield) == ios_base::floatfield) k = 'a';
        if (this->_fl & ios_base::uppercase) k -= 32;
        size_t n = pfs_fmt_double(b, v, k, (int)this->_pr, (this->_fl & ios_base::showpoint ? 1 : 0) | (this->_fl & ios_base::showpos ? 2 : 0));
        return __pad(b, n, b[0] == '-' || b[0] == '+' ? 1 : 0);
    }
    O &operator<<(float v) { return *this << (double)v; }
    O &operator<<(const void *p)
    {
        char b[40];
        b[0] = '0'; b[1] = 'x';
        size_t n = 2 + pfs_fmt_uint(b + 2, (uint64_t)p, 16, 0);
        return __pad(b, n, 2);
    }
    O &operator<<(nullptr_t) { return __pad("nullptr", 7, 0); }
    O &operator<<(O &(*f)(O &)) { return f(*this); }
    O &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    O &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
    O &put(C c) { return __raw(&c, 1); }
    O &write(const C *p, streamsize n) { return __raw(p, n); }
    O &flush() { this->__flush(); return *this; }
};
template <typename C, typename T>
basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, long n) { return o.__pad(s, n, 0); }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { return o.__pad(&c, 1, 0); }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; return o.__pad(&d, 1, 0); }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; return o.__pad(&d, 1, 0); }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s)
{
    if (!s) { o.setstate(ios_base::badbit); return o; }
    return o.__pad(s, T::length(s), 0);
}
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <typename C, typename T>
inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
template <typename C, typename T>
inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <typename C, typename T>
inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }

template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T>
{
public:
    typedef basic_istream S;
    typedef typename T::int_type int_type;
    basic_istream() {}
    explicit basic_istream(basic_streambuf<C, T> *) {}
    virtual ~basic_istream() {}
    size_t __gc = 0;
    size_t __left() const { return this->__b ? this->__b->s.size() - this->__b->g : 0; }
    C __cur() const { return this->__b->s[this->__b->g]; }
    static bool __sp(C c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    bool __sentry(bool noskip)
    {
        typename ios_base::iostate e = ios_base::goodbit;
        if (this->good()) {
            if (!noskip && (this->_fl & ios_base::skipws)) {
                while (__left() && __sp(__cur())) this->__b->g++;
                if (!__left()) e |= ios_base::eofbit;
            }
        }
        if (this->good() && e == ios_base::goodbit) return true;
        this->setstate(e | ios_base::failbit);
        return false;
    }
    class sentry
    {
    public:
        explicit sentry(S &i, bool noskip = false) : ok(i.__sentry(noskip)) {}
        explicit operator bool() const { return ok; }
        bool ok;
    };
    // returns the error bits
    template <typename V>
    typename ios_base::iostate __getint(V &v)
    {
        typedef typename make_unsigned<V>::type U;
        typename ios_base::iostate err = ios_base::goodbit;
        typename ios_base::fmtflags bf = this->_fl & ios_base::basefield;
        int base = bf == ios_base::oct ? 8 : bf == ios_base::hex ? 16 : 10;
        bool neg = false, zero = false;
        size_t digits = 0;
        size_t &g = this->__b->g;
        const basic_string<C, T> &s = this->__b->s;
        const size_t n = s.size();
        const C *p = s.data();
        if (g < n && (p[g] == '-' || p[g] == '+')) {
            neg = p[g] == '-';
            g++;
        }
        if (base != 10 || bf == 0) {
            while (g < n) {
                C c = p[g];
                if (c == '0' && (!zero || base == 10)) {
                    zero = true;
                    digits++;
                    if (bf == 0) base = 8;
                    if (base == 8) digits = 0;
                } else if (zero && (c == 'x' || c == 'X')) {
                    if (bf == 0) base = 16;
                    if (base == 16) { zero = false; digits = 0; }
                    else break;
                } else
                    break;
                g++;
            }
        }
        size_t start = g;
        bool any = digits || zero;
        // collect the digits first, one decision per character
        while (g < n) {
            unsigned char c = (unsigned char)p[g];
            bool ok;
            if (base == 16) ok = (unsigned)((unsigned char)(c - '0') <= 9) | (unsigned)((unsigned char)((c | 32) - 'a') <= 5);
            else ok = (unsigned char)(c - '0') <= (unsigned char)(base - 1);
            if (!ok) break;
            g++;
        }
        size_t k = g - start;
        bool over = false;
        U mag = 0;
        const U mx = (neg && numeric_limits<V>::is_signed) ? (U)(-(U)numeric_limits<V>::min()) : (U)numeric_limits<V>::max();
        uint64_t known = 0;
        if (base == 10 && pfs_dec_lookup(p + start, k, &known)) {
            over = known > (uint64_t)mx;
            mag = (U)known;
        } else if (base == 10 ? k <= 18 : base == 16 ? k <= 15 : k <= 20) {
            uint64_t r = 0;
            for (size_t i = 0; i < k; i++) {
                uint64_t c = (unsigned char)p[start + i];
                uint64_t d = (c & 15) + 9 * (c >> 6);
                r = r * base + d;
            }
            over = r > (uint64_t)mx;
            mag = (U)r;
        } else if (k <= 36) {
            unsigned __int128 r = 0;
            // up to 36 decimal digits fit 128 bits; longer hexadecimal prefixes must be checked
            if (base == 16 && k > 31) { pfs_unmodelled("very long number"); }
            for (size_t i = 0; i < k; i++) {
                unsigned __int128 c = (unsigned char)p[start + i];
                unsigned __int128 d = (c & 15) + 9 * (c >> 6);
                r = r * base + d;
            }
            over = r > (unsigned __int128)mx;
            mag = (U)r;
        } else {
            for (size_t i = 0; i < k; i++) {
                unsigned char c = (unsigned char)p[start + i];
                U d = (c & 15) + 9 * (c >> 6);
                if (over || mag > (U)(mx / base) || (U)(mag * base) > (U)(mx - d)) over = true;
                else mag = mag * base + d;
            }
        }
        if (!k && !any) {
            v = 0;
            err = ios_base::failbit;
        } else if (over) {
            v = (neg && numeric_limits<V>::is_signed) ? numeric_limits<V>::min() : numeric_limits<V>::max();
            err = ios_base::failbit;
        } else
            v = neg ? (V)(U)(-mag) : (V)mag;
        if (g >= n) err |= ios_base::eofbit;
        return err;
    }
    template <typename V>
    S &__ext(V &v)
    {
        if (__sentry(false)) {
            typename ios_base::iostate e = __getint(v);
            if (e) this->setstate(e);
        }
        return *this;
    }
    template <typename V>
    S &__extl(V &v) // via long, as libstdc++ does for short and int
    {
        if (__sentry(false)) {
            long l;
            typename ios_base::iostate e = __getint(l);
            if (l < numeric_limits<V>::min()) { e |= ios_base::failbit; v = numeric_limits<V>::min(); }
            else if (l > numeric_limits<V>::max()) { e |= ios_base::failbit; v = numeric_limits<V>::max(); }
            else v = (V)l;
            if (e) this->setstate(e);
        }
        return *this;
    }
    S &operator>>(short &v) { return __extl(v); }
    S &operator>>(int &v) { return __extl(v); }
    S &operator>>(unsigned short &v) { return __ext(v); }
    S &operator>>(unsigned int &v) { return __ext(v); }
    S &operator>>(long &v) { return __ext(v); }
    S &operator>>(unsigned long &v) { return __ext(v); }
    S &operator>>(long long &v) { return __ext(v); }
    S &operator>>(unsigned long long &v) { return __ext(v); }
    S &operator>>(bool &v)
    {
        if (__sentry(false)) {
            if (this->_fl & ios_base::boolalpha) pfs_unmodelled("boolalpha input");
            long l = -1;
            typename ios_base::iostate e = __getint(l);
            if (l == 0 || l == 1) v = l;
            else {
                v = true;
                e = ios_base::failbit;
                if (!__left()) e |= ios_base::eofbit;
            }
            if (e) this->setstate(e);
        }
        return *this;
    }
    template <typename F>
    S &__extf(F &v)
    {
        if (!__sentry(false)) return *this;
        typename ios_base::iostate e = ios_base::goodbit;
        size_t &g = this->__b->g;
        const basic_string<C, T> &s = this->__b->s;
        const size_t n = s.size();
        const C *p = s.data();
        double d = 0;
        if (p[g] == 1) { // printed form of a symbolic number
            g += pfs_parse_token((const char *)p + g, &d, sizeof(F) == 4);
            v = (F)d;
            if (sizeof(F) == 4 && v - v != 0 && d - d == 0) {
                v = d < 0 ? -numeric_limits<F>::max() : numeric_limits<F>::max();
                e = ios_base::failbit;
            }
            if (g >= n) e |= ios_base::eofbit;
            if (e) this->setstate(e);
            return *this;
        }
        string x;
        if (g < n && (p[g] == '-' || p[g] == '+')) { x += p[g]; g++; }
        bool man = false, dot = false, sci = false;
        while (g < n && p[g] == '0') {
            if (!man) { x += '0'; man = true; }
            g++;
        }
        while (g < n) {
            C c = p[g];
            if (c >= '0' && c <= '9') { x += c; man = true; }
            else if (c == '.' && !dot && !sci) { x += '.'; dot = true; }
            else if ((c == 'e' || c == 'E') && !sci && man) {
                x += 'e';
                sci = true;
                g++;
                if (g < n && (p[g] == '+' || p[g] == '-')) x += p[g];
                else continue;
            } else
                break;
            g++;
        }
        size_t used = x.empty() ? 0 : pfs_parse_double(x.c_str(), x.size(), &d);
        if (!used || used != x.size()) { v = 0; e = ios_base::failbit; }
        else {
            v = (F)d; // double rounding for float is outside the model's exactness
            if (v - v != 0) { v = v < 0 ? -numeric_limits<F>::max() : numeric_limits<F>::max(); e = ios_base::failbit; }
        }
        if (g >= n) e |= ios_base::eofbit;
        if (e) this->setstate(e);
        return *this;
    }
    S &operator>>(float &v) { return __extf(v); }
    S &operator>>(double &v) { return __extf(v); }
    S &operator>>(S &(*f)(S &)) { return f(*this); }
    S &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    S &operator>>(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
    streamsize gcount() const { return __gc; }
    int_type get()
    {
        __gc = 0;
        if (!__sentry(true)) return T::eof();
        if (!__left()) { this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); }
        __gc = 1;
        return T::to_int_type(this->__b->s[this->__b->g++]);
    }
    S &get(C &c)
    {
        int_type i = get();
        if (!T::eq_int_type(i, T::eof())) c = T::to_char_type(i);
        return *this;
    }
    int_type peek()
    {
        __gc = 0;
        if (!__sentry(true)) return T::eof();
        if (!__left()) { this->setstate(ios_base::eofbit); return T::eof(); }
        return T::to_int_type(__cur());
    }
    S &unget() { this->clear(this->_st & ~ios_base::eofbit); if (this->__b && this->__b->g) this->__b->g--; return *this; }
    S &putback(C) { return unget(); }
    S &read(C *d, streamsize n)
    {
        __gc = 0;
        if (!__sentry(true)) return *this;
        size_t k = __left() < (size_t)n ? __left() : (size_t)n;
        T::copy(d, this->__b->s.data() + this->__b->g, k);
        this->__b->g += k;
        __gc = k;
        if (k < (size_t)n) this->setstate(ios_base::eofbit | ios_base::failbit);
        return *this;
    }
    S &ignore(streamsize n = 1, int_type d = T::eof())
    {
        __gc = 0;
        if (!__sentry(true)) return *this;
        while (n-- > 0) {
            if (!__left()) { this->setstate(ios_base::eofbit); break; }
            C c = this->__b->s[this->__b->g++];
            __gc++;
            if (!T::eq_int_type(d, T::eof()) && T::eq_int_type(T::to_int_type(c), d)) break;
        }
        return *this;
    }
    typename basic_ios<C, T>::pos_type tellg() { return this->fail() ? -1 : (long)this->__b->g; }
    S &seekg(typename basic_ios<C, T>::pos_type p) { this->clear(this->_st & ~ios_base::eofbit); this->__b->g = (long)p; return *this; }
};
template <typename C, typename T>
inline basic_istream<C, T> &ws(basic_istream<C, T> &i)
{
    while (i.__left() && basic_istream<C, T>::__sp(i.__cur())) i.__b->g++;
    if (!i.__left()) i.setstate(ios_base::eofbit);
    return i;
}
template <typename C, typename T>
inline basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c)
{
    if (i.__sentry(false)) {
        if (i.__left()) c = i.__b->s[i.__b->g++];
        else i.setstate(ios_base::eofbit | ios_base::failbit);
    }
    return i;
}
template <typename T>
inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { return i >> (char &)c; }
template <typename T>
inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &c) { return i >> (char &)c; }

template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
public:
    basic_iostream() {}
    virtual ~basic_iostream() {}
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T>
{
};
template <typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T>
{
    __pfs_buf<C, T> _own;

public:
    explicit basic_ostringstream(ios_base::openmode = ios_base::out) { this->__b = &_own; }
    explicit basic_ostringstream(const basic_string<C, T, A> &s, ios_base::openmode m = ios_base::out)
    {
        this->__b = &_own;
        _own.s = s;
        if (!(m & (ios_base::ate | ios_base::app))) { if (!s.empty()) pfs_unmodelled("overwriting ostringstream"); }
    }
    basic_ostringstream(const basic_ostringstream &) = delete;
    basic_ostringstream(basic_ostringstream &&o) : basic_ostream<C, T>() { _own = o._own; this->__b = &_own; this->copyfmt(o); this->_st = o._st; }
    basic_string<C, T, A> str() const { return _own.s; }
    void str(const basic_string<C, T, A> &s) { _own.s = s; }
};
template <typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T>
{
    __pfs_buf<C, T> _own;

public:
    explicit basic_istringstream(ios_base::openmode = ios_base::in) { this->__b = &_own; }
    explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in) { this->__b = &_own; _own.s = s; }
    basic_istringstream(const basic_istringstream &) = delete;
    basic_string<C, T, A> str() const { return _own.s; }
    void str(const basic_string<C, T, A> &s) { _own.s = s; _own.g = 0; }
};
template <typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T>
{
    __pfs_buf<C, T> _own;

public:
    explicit basic_stringstream(ios_base::openmode = ios_base::in | ios_base::out) { this->__b = &_own; }
    explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in | ios_base::out) { this->__b = &_own; _own.s = s; }
    basic_stringstream(const basic_stringstream &) = delete;
    basic_string<C, T, A> str() const { return _own.s; }
    void str(const basic_string<C, T, A> &s) { _own.s = s; _own.g = 0; }
};

template <typename C, typename T>
class basic_filebuf : public basic_streambuf<C, T>
{
};
_GLIBCXX_END_NAMESPACE_CXX11
template <typename C, typename T>
class basic_ofstream : public basic_ostream<C, T>
{
    __pfs_buf<C, T> _own;
    string _path;
    bool _open = false, _app = false;

public:
    basic_ofstream() { this->__b = &_own; }
    explicit basic_ofstream(const char *p, ios_base::openmode m = ios_base::out) { this->__b = &_own; open(p, m); }
    explicit basic_ofstream(const string &p, ios_base::openmode m = ios_base::out) { this->__b = &_own; open(p.c_str(), m); }
    ~basic_ofstream() { if (_open) __flush(); }
    bool is_open() const { return _open; }
    void open(const char *p, ios_base::openmode m = ios_base::out)
    {
        _app = m & ios_base::app;
        if (_open || pfs_vfs_write(p, "", 0, _app)) { this->setstate(ios_base::failbit); return; }
        _path = p;
        _open = true;
        this->clear();
    }
    void open(const string &p, ios_base::openmode m = ios_base::out) { open(p.c_str(), m); }
    void __flush() override
    {
        if (!_open) return;
        pfs_vfs_write(_path.c_str(), _own.s.data(), _own.s.size(), _app);
        if (_app) _own.s.clear();
    }
    void close()
    {
        if (!_open) { this->setstate(ios_base::failbit); return; }
        __flush();
        _open = false;
    }
};
template <typename C, typename T>
class basic_ifstream : public basic_istream<C, T>
{
    __pfs_buf<C, T> _own;
    bool _open = false;

public:
    basic_ifstream() { this->__b = &_own; }
    explicit basic_ifstream(const char *p, ios_base::openmode m = ios_base::in) { this->__b = &_own; open(p, m); }
    explicit basic_ifstream(const string &p, ios_base::openmode m = ios_base::in) { this->__b = &_own; open(p.c_str(), m); }
    bool is_open() const { return _open; }
    void open(const char *p, ios_base::openmode = ios_base::in)
    {
        const char *d;
        size_t n;
        if (pfs_vfs_read(p, &d, &n)) { this->setstate(ios_base::failbit); return; }
        _own.s.assign(d, n);
        _open = true;
    }
    void open(const string &p, ios_base::openmode m = ios_base::in) { open(p.c_str(), m); }
    void close() { _open = false; }
};

extern ostream cout, cerr, clog;
extern istream cin;

inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }

struct __Setw { int n; };
struct __Setprec { int n; };
template <typename C> struct __Setfill { C c; };
struct __Setbase { int n; };
struct __Setflags { ios_base::fmtflags f, m; };
inline __Setw setw(int n) { return {n}; }
inline __Setprec setprecision(int n) { return {n}; }
template <typename C> inline __Setfill<C> setfill(C c) { return {c}; }
inline __Setbase setbase(int n) { return {n}; }
inline __Setflags setiosflags(ios_base::fmtflags f) { return {f, f}; }
inline __Setflags resetiosflags(ios_base::fmtflags f) { return {0, f}; }
inline void __apply(ios_base &b, __Setw x) { b.width(x.n); }
inline void __apply(ios_base &b, __Setprec x) { b.precision(x.n); }
inline void __apply(ios_base &b, __Setbase x) { b.setf(x.n == 8 ? ios_base::oct : x.n == 10 ? ios_base::dec : x.n == 16 ? ios_base::hex : 0u, ios_base::basefield); }
inline void __apply(ios_base &b, __Setflags x) { b.setf(x.f, x.m); }
#define PFS_MANIP(M)                                                                                                              \
    template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, M m) { __apply(o, m); return o; } \
    template <typename C, typename T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &o, M m) { __apply(o, m); return o; }
PFS_MANIP(__Setw)
PFS_MANIP(__Setprec)
PFS_MANIP(__Setbase)
PFS_MANIP(__Setflags)
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, __Setfill<C> m) { o.fill(m.c); return o; }
// rvalue stream insertion
template <typename S, typename V>
inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value, S &&>::type operator<<(S &&o, const V &v) { o << v; return static_cast<S &&>(o); }
template <typename S, typename V>
inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value, S &&>::type operator>>(S &&o, V &&v) { o >> v; return static_cast<S &&>(o); }
}
