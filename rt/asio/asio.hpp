// Stand-in for asio: sockets read from and write to byte strings owned by the harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <exception>
#include <string>
#include <vector>
namespace pfsnet
{
struct Conn
{
    std::string in, out;      // bytes the peer sends / receives
    size_t pos = 0;           // read position
    size_t writeLimit = (size_t)-1; // bytes accepted before the peer is gone
    bool used = false;
};
// connections waiting to be accepted, in order
inline std::vector<Conn *> &pending() { static std::vector<Conn *> p; return p; }
inline int &boundPort() { static int b = -1; return b; }
inline int &brokenPort() { static int b = 0; return b; }
// what a client that connects is given, or null when nobody listens there
typedef Conn *(*Peer)(const std::string &host, const std::string &port);
inline Peer &peer() { static Peer p = nullptr; return p; }
}
namespace asio
{
struct error_code
{
    int v;
    error_code(int x = 0) : v(x) {}
    int value() const { return v; }
    explicit operator bool() const { return v != 0; }
    std::string message() const { return v == 2 ? "End of file" : v ? "error" : "Success"; }
};
inline bool operator==(const error_code &a, const error_code &b) { return a.v == b.v; }
inline bool operator!=(const error_code &a, const error_code &b) { return a.v != b.v; }
struct system_error : std::exception
{
    error_code c;
    system_error(error_code e) : c(e) {}
    const char *what() const noexcept override { return "asio error"; }
    error_code code() const { return c; }
};
namespace error
{
enum { eof = 2, connection_reset = 3, broken_pipe = 4, operation_aborted = 5 };
}
struct mutable_buffer { void *p; size_t n; };
struct const_buffer
{
    const void *p;
    size_t n;
    const_buffer(const void *a, size_t b) : p(a), n(b) {}
    const_buffer(const mutable_buffer &m) : p(m.p), n(m.n) {}
};
typedef mutable_buffer mutable_buffers_1;
typedef const_buffer const_buffers_1;
inline mutable_buffer buffer(void *p, size_t n) { return {p, n}; }
inline const_buffer buffer(const void *p, size_t n) { return {p, n}; }
template <class T, class A> mutable_buffer buffer(std::vector<T, A> &v) { return {v.data(), v.size() * sizeof(T)}; }
template <class T, class A> const_buffer buffer(const std::vector<T, A> &v) { return {v.data(), v.size() * sizeof(T)}; }
template <class T, class A> mutable_buffer buffer(std::vector<T, A> &v, size_t n) { return {v.data(), n}; }
template <class T, class A> const_buffer buffer(const std::vector<T, A> &v, size_t n) { return {v.data(), n}; }
inline const_buffer buffer(const std::string &s) { return {s.data(), s.size()}; }
struct io_service
{
    std::vector<std::function<bool()>> work;
    bool stopped = false;
    void stop() { stopped = true; }
    void reset() { stopped = false; }
    size_t run(error_code &ec)
    {
        ec = error_code();
        size_t k = 0;
        while (!stopped && !work.empty()) {
            std::function<bool()> w = work.front();
            work.erase(work.begin());
            if (!w()) break;
            k++;
        }
        return k;
    }
    size_t run() { error_code e; return run(e); }
};
typedef io_service io_context;
struct socket_base
{
    struct linger { linger(bool, int) {} };
    struct enable_connection_aborted { enable_connection_aborted(bool) {} };
    struct reuse_address { reuse_address(bool) {} };
    struct keep_alive { keep_alive(bool) {} };
};
namespace ip
{
struct tcp
{
    int proto = 6;
    static tcp v4() { return tcp(); }
    static tcp v6() { return tcp(); }
    struct no_delay { no_delay(bool) {} };
    struct endpoint
    {
        unsigned short port;
        endpoint(tcp, unsigned short p) : port(p) {}
        tcp protocol() const { return tcp(); }
    };
    struct socket : socket_base
    {
        pfsnet::Conn *c = nullptr;
        socket(io_service &) {}
        explicit socket(pfsnet::Conn *k) : c(k) {}
        template <class O> void set_option(O) {}
        template <class O> void set_option(O, error_code &e) { e = error_code(); }
        bool is_open() const { return c != nullptr; }
        void close() { c = nullptr; }
        void close(error_code &e) { c = nullptr; e = error_code(); }
    };
    struct resolver
    {
        struct query
        {
            std::string h, s;
            query(const std::string &a, const std::string &b) : h(a), s(b) {}
        };
        typedef query results_type;
        typedef query iterator;
        resolver(io_service &) {}
        query resolve(const query &q) { return q; }
        query resolve(const std::string &h, const std::string &p) { return query(h, p); }
    };
    struct acceptor : socket_base
    {
        io_service &s;
        acceptor(io_service &x) : s(x) {}
        void open(tcp) {}
        template <class O> void set_option(O) {}
        void bind(const endpoint &e)
        {
            if (pfsnet::brokenPort()) throw system_error(error_code(9));
            pfsnet::boundPort() = e.port;
        }
        void listen(int = 0) {}
        void close() {}
        template <class H> void async_accept(socket &k, H h)
        {
            s.work.push_back([&k, h]() -> bool {
                if (pfsnet::pending().empty()) return false;
                k.c = pfsnet::pending().front();
                pfsnet::pending().erase(pfsnet::pending().begin());
                k.c->used = true;
                h(error_code());
                return true;
            });
        }
    };
};
}
inline size_t write(ip::tcp::socket &s, const_buffer b, error_code &ec)
{
    ec = error_code();
    if (!s.c) { ec = error_code(error::broken_pipe); return 0; }
    size_t room = s.c->writeLimit - s.c->out.size();
    size_t n = b.n < room ? b.n : room;
    s.c->out.append((const char *)b.p, n);
    if (n < b.n) ec = error_code(error::broken_pipe);
    return n;
}
inline size_t read(ip::tcp::socket &s, mutable_buffer b, error_code &ec)
{
    ec = error_code();
    if (!s.c) { ec = error_code(error::broken_pipe); return 0; }
    size_t left = s.c->in.size() - s.c->pos;
    size_t n = b.n < left ? b.n : left;
    if (n) memcpy(b.p, s.c->in.data() + s.c->pos, n);
    s.c->pos += n;
    if (n < b.n) ec = error_code(error::eof);
    return n;
}
inline void connect(ip::tcp::socket &s, const ip::tcp::resolver::query &q, error_code &ec)
{
    s.c = pfsnet::peer() ? pfsnet::peer()(q.h, q.s) : nullptr;
    ec = error_code(s.c ? 0 : 6);
}
inline void connect(ip::tcp::socket &s, const ip::tcp::resolver::query &q)
{
    error_code e;
    connect(s, q, e);
    if (e) throw system_error(e);
}
inline size_t write(ip::tcp::socket &s, const_buffer b) { error_code e; size_t n = write(s, b, e); if (e) throw system_error(e); return n; }
inline size_t read(ip::tcp::socket &s, mutable_buffer b) { error_code e; size_t n = read(s, b, e); if (e) throw system_error(e); return n; }
}
