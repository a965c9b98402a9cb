// Minimal replacement for the iostream library (the real one drags in locales): same interface, same observable
// behaviour for the operations used here (unformatted output, integers, strings, string streams, get areas).
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <bits/postypes.h>
#include <exception>
#include <cstdint>
namespace std {
class ios_base {
  public:
    typedef int iostate; typedef int openmode; typedef int fmtflags;
    enum seekdir { beg = 0, cur = 1, end = 2 };
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr fmtflags dec = 2, hex = 8, oct = 64, left = 32, right = 128, internal = 16, adjustfield = 176, basefield = 74;
    class failure : public exception { public: explicit failure(const char *s) : s_(s) {} const char *what() const noexcept override { return s_; } private: const char *s_; };
    virtual ~ios_base() {}
    ios_base(ios_base const &) = delete;
    ios_base &operator=(ios_base const &) = delete;
    streamsize width() const { return width_; }
    streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
    streamsize precision() const { return prec_; }
    streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
    fmtflags flags() const { return flags_; }
    fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { flags_ &= ~f; }
  protected:
    ios_base() {}
    streamsize width_ = 0, prec_ = 6;
    fmtflags flags_ = dec;
};
template <class C, class T> class basic_streambuf {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    streamsize in_avail() { return egptr_ - gptr_; }
    int_type sgetc() { return gptr_ < egptr_ ? T::to_int_type(*gptr_) : underflow(); }
    int_type sbumpc() { if (gptr_ < egptr_) { return T::to_int_type(*gptr_++); } return uflow(); }
    int_type snextc() { if (T::eq_int_type(sbumpc(), T::eof())) return T::eof(); return sgetc(); }
    int_type sputbackc(C c) { if (eback_ < gptr_ && T::eq(c, gptr_[-1])) { --gptr_; return T::to_int_type(*gptr_); } return pbackfail(T::to_int_type(c)); }
    int_type sungetc() { if (eback_ < gptr_) { --gptr_; return T::to_int_type(*gptr_); } return pbackfail(); }
    streamsize sgetn(C *s, streamsize n) { return xsgetn(s, n); }
    int_type sputc(C c) { if (pptr_ < epptr_) { *pptr_++ = c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
    streamsize sputn(C const *s, streamsize n) { return xsputn(s, n); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode w = ios_base::in | ios_base::out) { return seekoff(o, d, w); }
    pos_type pubseekpos(pos_type o, ios_base::openmode w = ios_base::in | ios_base::out) { return seekpos(o, w); }
    int pubsync() { return sync(); }
  protected:
    basic_streambuf() {}
    basic_streambuf(basic_streambuf const &) = default;
    basic_streambuf &operator=(basic_streambuf const &) = default;
    C *eback() const { return eback_; }
    C *gptr() const { return gptr_; }
    C *egptr() const { return egptr_; }
    C *pbase() const { return pbase_; }
    C *pptr() const { return pptr_; }
    C *epptr() const { return epptr_; }
    void gbump(int n) { gptr_ += n; }
    void pbump(int n) { pptr_ += n; }
    void setg(C *a, C *b, C *c) { eback_ = a; gptr_ = b; egptr_ = c; }
    void setp(C *a, C *b) { pbase_ = pptr_ = a; epptr_ = b; }
    virtual int_type underflow() { return T::eof(); }
    virtual int_type uflow() { int_type r = underflow(); if (!T::eq_int_type(r, T::eof())) ++gptr_; return r; }
    virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
    virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
    virtual streamsize xsgetn(C *s, streamsize n) {
        streamsize r = 0;
        while (r < n) {
            streamsize a = egptr_ - gptr_;
            if (a > 0) { if (a > n - r) a = n - r; T::copy(s + r, gptr_, static_cast<size_t>(a)); gptr_ += a; r += a; }
            else { int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[r++] = T::to_char_type(c); }
        }
        return r;
    }
    virtual streamsize xsputn(C const *s, streamsize n) {
        streamsize r = 0;
        while (r < n) {
            streamsize a = epptr_ - pptr_;
            if (a > 0) { if (a > n - r) a = n - r; T::copy(pptr_, s + r, static_cast<size_t>(a)); pptr_ += a; r += a; }
            else { if (T::eq_int_type(overflow(T::to_int_type(s[r])), T::eof())) break; ++r; }
        }
        return r;
    }
    virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
    virtual pos_type seekpos(pos_type, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
    virtual int sync() { return 0; }
  private:
    C *eback_ = nullptr, *gptr_ = nullptr, *egptr_ = nullptr, *pbase_ = nullptr, *pptr_ = nullptr, *epptr_ = nullptr;
};
template <class C, class T> class basic_ios : public ios_base {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ios(basic_streambuf<C, T> *b) { init(b); }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate rdstate() const { return st_; }
    void clear(iostate s = goodbit) { st_ = buf_ ? s : (s | badbit); if (st_ & exc_) throw failure("basic_ios::clear"); }
    void setstate(iostate s) { clear(st_ | s); }
    bool good() const { return st_ == 0; }
    bool eof() const { return (st_ & eofbit) != 0; }
    bool fail() const { return (st_ & (badbit | failbit)) != 0; }
    bool bad() const { return (st_ & badbit) != 0; }
    iostate exceptions() const { return exc_; }
    void exceptions(iostate e) { exc_ = e; clear(st_); }
    basic_streambuf<C, T> *rdbuf() const { return buf_; }
    basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto *o = buf_; buf_ = b; clear(); return o; }
    C fill() const { return fill_; }
    C fill(C c) { C o = fill_; fill_ = c; return o; }
  protected:
    basic_ios() {}
    void init(basic_streambuf<C, T> *b) { buf_ = b; st_ = b ? goodbit : badbit; exc_ = goodbit; }
  private:
    basic_streambuf<C, T> *buf_ = nullptr;
    iostate st_ = badbit, exc_ = goodbit;
    C fill_ = ' ';
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
    virtual ~basic_ostream() {}
    struct sentry { basic_ostream &o; explicit sentry(basic_ostream &o) : o(o) {} explicit operator bool() const { return o.good(); } };
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(bool x) { return put_u(x ? 1 : 0, false); }
    basic_ostream &operator<<(short x) { return put_s(x); }
    basic_ostream &operator<<(unsigned short x) { return put_u(x, false); }
    basic_ostream &operator<<(int x) { return put_s(x); }
    basic_ostream &operator<<(unsigned x) { return put_u(x, false); }
    basic_ostream &operator<<(long x) { return put_s(x); }
    basic_ostream &operator<<(unsigned long x) { return put_u(x, false); }
    basic_ostream &operator<<(long long x) { return put_s(x); }
    basic_ostream &operator<<(unsigned long long x) { return put_u(x, false); }
    basic_ostream &operator<<(double x);
    basic_ostream &operator<<(float x) { return *this << static_cast<double>(x); }
    basic_ostream &operator<<(long double x) { return *this << static_cast<double>(x); }
    basic_ostream &operator<<(const void *);
    basic_ostream &operator<<(basic_streambuf<C, T> *b) {
        if (b) for (;;) { int_type c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); }
        return *this;
    }
    basic_ostream &put(C c) { if (this->good()) { if (T::eq_int_type(this->rdbuf()->sputc(c), T::eof())) this->setstate(ios_base::badbit); } return *this; }
    basic_ostream &write(C const *s, streamsize n) { if (this->good()) { if (this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit); } return *this; }
    basic_ostream &flush() { if (this->rdbuf()) this->rdbuf()->pubsync(); return *this; }
    pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::out); }
    basic_ostream &seekp(pos_type p) { if (!this->fail()) { if (this->rdbuf()->pubseekpos(p, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  protected:
    basic_ostream() {}
  private:
    basic_ostream &put_s(long long x) { return x < 0 ? put_u(0 - static_cast<unsigned long long>(x), true) : put_u(static_cast<unsigned long long>(x), false); }
    basic_ostream &put_u(unsigned long long x, bool neg) {
        C b[24]; int i = 24;
        if (x <= 0xffffffffULL) { uint32_t y = static_cast<uint32_t>(x); do { b[--i] = static_cast<C>('0' + y % 10); y /= 10; } while (y); }
        else { do { b[--i] = static_cast<C>('0' + x % 10); x /= 10; } while (x); }
        if (neg) b[--i] = '-';
        return write(b + i, 24 - i);
    }
};
template <class C, class T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, C const *s, streamsize n) {
    streamsize w = o.width();
    if (w > n) {
        bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
        if (!left) for (streamsize i = n; i < w; ++i) o.put(o.fill());
        o.write(s, n);
        if (left) for (streamsize i = n; i < w; ++i) o.put(o.fill());
    } else o.write(s, n);
    o.width(0);
    return o;
}
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { if (o.width()) return __ostream_insert(o, &c, 1); return o.put(c); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << static_cast<char>(c); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << static_cast<char>(c); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) {
    if (!s) { o.setstate(ios_base::badbit); return o; }
    return __ostream_insert(o, s, static_cast<streamsize>(T::length(s)));
}
template <class C, class T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
template <class C, class T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <class C, class T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <class O, class V> inline auto operator<<(O &&o, V const &v) -> typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value, O &&>::type { o << v; return std::move(o); }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
    virtual ~basic_istream() {}
    struct sentry { bool ok; explicit sentry(basic_istream &i, bool = false) : ok(i.good()) { if (!ok) i.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    streamsize gcount() const { return gc_; }
    int_type get() { gc_ = 0; if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); } int_type c = this->rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1; return c; }
    basic_istream &get(C &c) { int_type x = get(); if (gc_) c = T::to_char_type(x); return *this; }
    int_type peek() { gc_ = 0; if (!this->good()) return T::eof(); int_type c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
    basic_istream &unget() { gc_ = 0; this->clear(this->rdstate() & ~ios_base::eofbit); if (this->good()) this->rdbuf()->sungetc(); return *this; }
    basic_istream &read(C *s, streamsize n) {
        gc_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        gc_ = this->rdbuf()->sgetn(s, n);
        if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit);
        return *this;
    }
    basic_istream &ignore(streamsize n = 1, int_type d = T::eof()) { gc_ = 0; while (gc_ < n && this->good()) { int_type c = this->rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } ++gc_; if (T::eq_int_type(c, d)) break; } return *this; }
    basic_istream &operator>>(int &x);
    basic_istream &operator>>(unsigned &x);
    pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::in); }
    basic_istream &seekg(pos_type p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) this->rdbuf()->pubseekpos(p, ios_base::in); return *this; }
    basic_istream &seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) this->rdbuf()->pubseekoff(o, d, ios_base::in); return *this; }
  protected:
    basic_istream() {}
    streamsize gc_ = 0;
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_iostream(basic_streambuf<C, T> *b) { this->init(b); }
    virtual ~basic_iostream() {}
  protected:
    basic_iostream() {}
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
  public:
    typedef basic_string<C, T, A> S; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    basic_stringbuf() {}
    explicit basic_stringbuf(S const &s) : s_(s) { resetg(0); }
    S str() const { return s_; }
    void str(S const &s) { s_ = s; resetg(0); }
    void ateEnd() {}
  protected:
    int_type overflow(int_type c) override { if (T::eq_int_type(c, T::eof())) return T::not_eof(c); size_t g = goff(); s_.push_back(T::to_char_type(c)); resetg(g); return c; }
    streamsize xsputn(C const *s, streamsize n) override { size_t g = goff(); s_.append(s, static_cast<size_t>(n)); resetg(g); return n; }
    int_type underflow() override { size_t g = goff(); if (g < s_.size()) { resetg(g); return T::to_int_type(*this->gptr()); } return T::eof(); }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode w) override {
        if (d == ios_base::cur) o += (w & ios_base::in) ? static_cast<off_type>(goff()) : static_cast<off_type>(s_.size());
        else if (d == ios_base::end) o += static_cast<off_type>(s_.size());
        return seekpos(pos_type(o), w);
    }
    pos_type seekpos(pos_type p, ios_base::openmode w) override {
        off_type o = off_type(p);
        if (o < 0 || o > static_cast<off_type>(s_.size())) return pos_type(off_type(-1));
        if (w & ios_base::in) resetg(static_cast<size_t>(o));
        return p;
    }
  private:
    size_t goff() const { return this->gptr() ? static_cast<size_t>(this->gptr() - this->eback()) : 0; }
    void resetg(size_t off) { C *b = const_cast<C *>(s_.data()); this->setg(b, b + off, b + s_.size()); }
    S s_;
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  public:
    typedef basic_string<C, T, A> S;
    basic_ostringstream() { this->init(&b_); }
    explicit basic_ostringstream(ios_base::openmode) { this->init(&b_); }
    explicit basic_ostringstream(S const &s, ios_base::openmode = ios_base::out) : b_(s) { this->init(&b_); }
    S str() const { return b_.str(); }
    void str(S const &s) { b_.str(s); }
  private:
    basic_stringbuf<C, T, A> b_;
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  public:
    typedef basic_string<C, T, A> S;
    basic_istringstream() { this->init(&b_); }
    explicit basic_istringstream(S const &s, ios_base::openmode = ios_base::in) : b_(s) { this->init(&b_); }
    S str() const { return b_.str(); }
    void str(S const &s) { b_.str(s); }
  private:
    basic_stringbuf<C, T, A> b_;
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  public:
    typedef basic_string<C, T, A> S;
    basic_stringstream() { this->init(&b_); }
    explicit basic_stringstream(S const &s, ios_base::openmode = ios_base::in | ios_base::out) : b_(s) { this->init(&b_); }
    S str() const { return b_.str(); }
    void str(S const &s) { b_.str(s); }
  private:
    basic_stringbuf<C, T, A> b_;
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> { public: bool is_open() const { return false; } };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { // no file exists
  public:
    basic_ifstream() { this->init(&b_); }
    explicit basic_ifstream(string const &, ios_base::openmode = ios_base::in) { this->init(&b_); this->setstate(ios_base::failbit); }
    explicit basic_ifstream(const char *, ios_base::openmode = ios_base::in) { this->init(&b_); this->setstate(ios_base::failbit); }
    bool is_open() const { return false; }
    void close() {}
  private:
    basic_filebuf<C, T> b_;
};
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  public:
    basic_ofstream() { this->init(&b_); }
    explicit basic_ofstream(string const &, ios_base::openmode = ios_base::out) { this->init(&b_); this->setstate(ios_base::failbit); }
    bool is_open() const { return false; }
    void close() {}
  private:
    basic_filebuf<C, T> b_;
};
namespace symx_io {
struct NullBuf : basic_streambuf<char, char_traits<char>> { int overflow(int c) override { return c == -1 ? 0 : c; } streamsize xsputn(char const *, streamsize n) override { return n; } };
inline NullBuf nullBuf;
}
inline ostream cout(&symx_io::nullBuf);
inline ostream cerr(&symx_io::nullBuf);
inline ostream clog(&symx_io::nullBuf);
inline istream cin(&symx_io::nullBuf);
} // namespace std
