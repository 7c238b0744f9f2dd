// C25: messages between a client and the remote processor server, over a network that may cut, alter or invent bytes
#include "fw.hpp"
#include <asio.hpp>
#include "RequestMessage.h"
#include "AnswerMessage.h"
#include "RemoteProcessorServer.h"
#include "RemoteCommandHandler.h"
#include "Socket.h"
using namespace fw;
typedef std::vector<S> Words;
static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static S trim(S s)
{
    while (!s.empty() && blank(s.back())) s.pop_back();
    while (!s.empty() && blank(s[0])) s.erase(0, 1);
    return s;
}
struct Recorder : IRemoteCommandHandler
{
    std::vector<Words> seen;
    S answer = "ok";
    bool ok = true;
    bool remoteCommandProcess(const IRemoteCommand &c, S &r) override
    {
        Words w{c.getCommand()};
        for (size_t i = 0; i < c.getArgumentCount(); i++) w.push_back(c.getArgument(i));
        seen.push_back(w);
        r = answer;
        return ok;
    }
};
static S wire(CMessage &m)
{
    pfsnet::Conn c;
    asio::ip::tcp::socket s(&c);
    S e;
    CHECK(m.serialize(Socket(s), true, e) == CMessage::success, "a message can be sent");
    return c.out;
}
static S request(const Words &w)
{
    CRequestMessage m(w[0]);
    for (size_t i = 1; i < w.size(); i++) m.addArgument(w[i]);
    return wire(m);
}
static unsigned u32(const S &b, size_t at)
{
    unsigned v = 0;
    for (int i = 3; i >= 0; i--) v = v << 8 | (unsigned char)b[at + i];
    return v;
}
// the first message of some bytes: 1 well formed, 0 not
static bool parse(const S &b, Words &w, size_t &used)
{
    if (b.size() < 8 || (unsigned char)b[0] != 0xBE || (unsigned char)b[1] != 0xBA) return false;
    unsigned n = u32(b, 2);
    if (n < 5 || n - 1 + 8 > b.size()) return false;
    unsigned char sum = 0;
    for (size_t i = 6; i < 6 + n; i++) sum = (unsigned char)(sum + (unsigned char)b[i]);
    if (sum != (unsigned char)b[6 + n]) return false;
    size_t at = 7, end = 6 + n;
    while (at < end) {
        if (end - at < 4) return false;
        unsigned l = u32(b, at);
        at += 4;
        if (l > end - at) return false;
        S t = b.substr(at, l);
        w.push_back(trim(t.substr(0, t.find('\0'))));
        at += l;
    }
    used = 6 + n + 1;
    return true;
}
static S word(const char *n, size_t len)
{
    S s = symText(n, len);
    for (char c : s) ASSUME(c != 0);
    return s;
}
extern "C" void harness_main()
{
    Recorder r;
    CRemoteProcessorServer server(5000);
    S e;
    CHECK(server.start(e), "the server starts");
    pfsnet::Conn a, b, c;
    int mode = param("mode");
    size_t len = (size_t)param("len", 3);
    if (mode == 0) { // as sent, so received; whatever is lost or altered on the way is noticed
        Words w{word("command", choice("commandLen", (unsigned)len) + 1)};
        unsigned n = choice("args", (unsigned)param("args", 2) + 1);
        for (unsigned i = 0; i < n; i++) w.push_back(word(i ? "arg1" : "arg0", choice(i ? "len1" : "len0", (unsigned)len + 1)));
        for (char ch : w[0]) ASSUME(!blank(ch));
        S m = request(w);
        for (size_t i = 1; i < w.size(); i++) w[i] = trim(w[i]);
        unsigned what = choice("fault", 3);
        if (what == 0) {
            a.in = m + m;
        } else if (what == 1) a.in = m.substr(0, (size_t)choice("cut", (unsigned)m.size()));
        else {
            a.in = m;
            size_t at = choice("at", (unsigned)m.size() - 6);
            char v = (char)sym("byte", 8);
            ASSUME(v != a.in[at >= 2 ? at + 4 : at]);
            a.in[at >= 2 ? at + 4 : at] = v; // the marker, the kind, the contents or the check
        }
        pfsnet::pending().push_back(&a);
        b.in = request({"next"});
        pfsnet::pending().push_back(&b);
        server.process(r);
        CHECK(a.used && b.used, "connections are served one after the other");
        size_t k = what == 0 ? 2 : 0;
        CHECK(r.seen.size() == k + 1 && r.seen.back() == Words{"next"}, "exactly the messages that arrive whole are obeyed");
        for (size_t i = 0; i < k && i < r.seen.size(); i++) CHECK(r.seen[i] == w, "a command arrives as it was sent");
        if (what == 0) REACH("accepted");
        else REACH("rejected");
    } else if (mode == 1) { // any bytes
        S g = symText("byte", len);
        if (param("framed", 0)) { // the frame is right, the contents are anything
            S d = g;
            unsigned char sum = 0;
            for (char ch : d) sum = (unsigned char)(sum + (unsigned char)ch);
            g = S("\xBE\xBA", 2) + S(1, (char)(d.size() + 1)) + S(3, '\0') + S(1, '\0') + d + S(1, (char)sum);
        } else if (len >= 6) {
            unsigned n = u32(g, 2);
            ASSUME(n <= 40);
        }
        a.in = g;
        b.in = request({"next", "x"});
        pfsnet::pending().push_back(&a);
        pfsnet::pending().push_back(&b);
        server.process(r);
        Words w;
        size_t used = 0;
        bool fine = parse(g, w, used);
        CHECK(a.used && b.used, "connections are served one after the other");
        CHECK(r.seen.size() == (fine ? 2u : 1u) && r.seen.back() == (Words{"next", "x"}), "exactly the messages that arrive whole are obeyed");
        if (fine && r.seen.size() == 2) CHECK(r.seen[0] == w, "a command arrives as it was sent");
        CHECK(a.out.empty() == !fine, "an answer is sent to each command obeyed and to nothing else");
        if (fine) REACH("accepted");
        else REACH("rejected");
    } else { // answers
        r.answer = word("answer", choice("answerLen", (unsigned)len + 1));
        r.ok = maybe("ok");
        unsigned n = choice("requests", 2) + 1;
        for (unsigned i = 0; i < n; i++) a.in += request({"get", S(1, (char)('a' + i))});
        bool gone = maybe("peerGone");
        S one;
        {
            CAnswerMessage m(r.answer, r.ok);
            one = wire(m);
        }
        if (gone) a.writeLimit = choice("limit", (unsigned)one.size());
        b.in = request({"next"});
        pfsnet::pending().push_back(&a);
        pfsnet::pending().push_back(&b);
        server.process(r);
        CHECK(b.used && r.seen.size() == (gone ? 2u : n + 1) && r.seen.back() == Words{"next"}, "a connection lost does not disturb the next one");
        if (!gone) {
            c.in = a.out;
            asio::ip::tcp::socket s(&c);
            for (unsigned i = 0; i < n; i++) {
                CAnswerMessage m;
                CHECK(m.serialize(Socket(s), false, e) == CMessage::success, "an answer can be received");
                CHECK(m.getAnswer() == r.answer && m.success() == r.ok, "an answer arrives as it was given");
            }
            CHECK(c.pos == c.in.size(), "one answer per command");
            REACH("accepted");
        } else REACH("rejected");
    }
}
