// C35: the remote client program (remote-process/main.cpp) against the framework's server
#include "fw.hpp"
#include <asio.hpp>
#include <CommandHandlerInterface.h>
#include "RemoteProcessorServer.h"
#include "RemoteCommandHandler.h"
#include <iostream>
#include <sstream>
#include <cstring>
#define main client_main
#include <../remote-process/main.cpp>
#undef main
using namespace fw;
typedef std::vector<S> Words;
#ifdef PFS_RT_STREAMS
typedef std::__pfs_buf<char, std::char_traits<char>> Buf;
static void redirect(Buf &o, Buf &e) { std::cout.__b = &o; std::cerr.__b = &e; }
static S text(Buf &b) { return b.s; }
static void fill(Buf &b, const S &t) { b.s = t; b.g = 0; }
#else
typedef std::stringbuf Buf;
static void redirect(Buf &o, Buf &e) { std::cout.rdbuf(&o); std::cerr.rdbuf(&e); }
static S text(Buf &b) { return b.str(); }
static void fill(Buf &b, const S &t) { b.str(t); }
#endif
static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static S trim(S s)
{
    while (!s.empty() && blank(s.back())) s.pop_back();
    while (!s.empty() && blank(s[0])) s.erase(0, 1);
    return s;
}
struct Recorder : IRemoteCommandHandler
{
    std::vector<Words> seen;
    S answer;
    bool ok = true;
    CommandHandlerInterface *to = nullptr;
    bool remoteCommandProcess(const IRemoteCommand &c, S &r) override
    {
        Words w{c.getCommand()};
        for (size_t i = 0; i < c.getArgumentCount(); i++) w.push_back(c.getArgument(i));
        seen.push_back(w);
        if (to) return to->process(w[0], Words(w.begin() + 1, w.end()), r);
        r = answer;
        return ok;
    }
};
static pfsnet::Conn *gConn;
static S *gHost, *gPort;
static unsigned gAsked;
static pfsnet::Conn *peer(const S &h, const S &p)
{
    gAsked++;
    *gHost = h;
    *gPort = p;
    return gConn;
}
struct Said
{
    int rc;
    S out, err;
};
static Said run(const Words &w)
{
    static Buf &o = *new Buf, &e = *new Buf; // outlives the streams
    fill(o, "");
    fill(e, "");
    redirect(o, e);
    std::vector<S> keep = w;
    char *argv[12];
    for (size_t i = 0; i < keep.size(); i++) argv[i] = &keep[i][0];
    argv[keep.size()] = nullptr;
    gAsked = 0;
    pfsnet::peer() = peer;
    Said s;
    s.rc = client_main((int)keep.size(), argv);
    s.out = text(o);
    s.err = text(e);
    return s;
}
static S word(const char *n, size_t len)
{
    S s = symText(n, len);
    for (char c : s) ASSUME(c != 0);
    return s;
}
extern "C" void harness_main()
{
    S host, port, e;
    gHost = &host;
    gPort = &port;
    unsigned mode = param("mode", 0), len = param("len", 2);
    Recorder r;
    CRemoteProcessorServer server(5000);
    CHECK(server.start(e), "the server starts");
    Words w{"remote-process", "target", "5000"};
    PF *pf = nullptr;
    std::unique_ptr<CommandHandlerInterface> cmd, cmd2;
    bool direct = true;
    S told;
    if (mode == 0) { // any words, any answer
        if (maybe("elsewhere")) { w[1] = word("host", 2); w[2] = word("port", 1); }
        unsigned n = choice("words", (unsigned)param("words", 3) + 1);
        static const char *const N[4] = {"word0", "word1", "word2", "word3"};
        static const char *const L[4] = {"len0", "len1", "len2", "len3"};
        for (unsigned i = 0; i < n; i++) w.push_back(word(N[i], choice(L[i], len + (i > 0)) + (i == 0)));
        if (n) for (char c : w[3]) ASSUME(!blank(c));
        r.answer = word("answer", choice("answerLen", len + 1));
        r.ok = direct = maybe("ok");
        told = r.answer;
    } else if (mode == 1) { // a framework at the other end
        Cfg c;
        c.instances = "<IntegerParameter Name='a' Size='8'/><StringParameter Name='t' MaxLength='5'/>";
        c.withDomains = false;
        pf = new PF(c);
        pf->upTuning();
        cmd.reset(pf->createCommandHandler());
        r.to = cmd.get();
        Words s;
        switch (choice("command", 7)) {
        case 0: s = {"setParameter", "/test/test/a", S(1, (char)('0' + choice("digit", 10)))}; break;
        case 1: s = {"getParameter", "/test/test/a"}; break;
        case 2: s = {"getParameter", "/test/test/b"}; break;
        case 3: s = {"setParameter", "/test/test/t", word("text", 2)}; for (char c : s[2]) ASSUME(!blank(c)); break;
        case 4: s = {"createDomain", "D"}; break;
        case 5: s = {"help"}; break;
        case 6: s = {"listDomains", "more"}; break;
        }
        w.insert(w.end(), s.begin(), s.end());
    }
    bool enough = w.size() > 3;
    // nobody there
    gConn = nullptr;
    Said none = run(w);
    CHECK(none.rc == 1 && none.out.empty() && none.err.size() > 1, "a client that gets no answer says so and fails");
    CHECK(gAsked == (enough ? 1u : 0u), "a connection is attempted once the arguments are there");
    if (enough) CHECK(host == w[1] && port == w[2], "the client connects where it is told to");
    // somebody who takes what is said and leaves, at any time
    pfsnet::Conn a;
    bool faults = param("faults", 1), cut = faults && mode == 0 && enough && maybe("cut");
    if (cut) a.writeLimit = choice("limit", 30);
    gConn = &a;
    Said left = run(w);
    CHECK(left.rc == 1 && left.out.empty() && left.err.size() > 1, "a client that gets no answer says so and fails");
    if (!enough) {
        CHECK(!gAsked && a.out.empty(), "nothing is sent without a command");
        REACH("usage");
        return;
    }
    if (cut && a.out.size() == a.writeLimit) {
        REACH("cut");
        return;
    }
    // the server
    pfsnet::Conn s;
    s.in = a.out;
    pfsnet::pending().push_back(&s);
    server.process(r);
    Words want(w.begin() + 3, w.end());
    for (size_t i = 1; i < want.size(); i++) want[i] = trim(want[i]);
    CHECK(r.seen.size() == 1 && r.seen[0] == want, "the server is given the words as they were");
    if (pf) { // what the command does when given directly, to an equal framework
        S t;
        Cfg c;
        c.instances = "<IntegerParameter Name='a' Size='8'/><StringParameter Name='t' MaxLength='5'/>";
        c.withDomains = false;
        PF *pg = new PF(c);
        pg->upTuning();
        cmd2.reset(pg->createCommandHandler());
        direct = cmd2->process(want[0], Words(want.begin() + 1, want.end()), told);
        for (auto p : {"/test/test/a", "/test/test/t"}) {
            S x, y;
            CHECK(pf->get(p, x) == pg->get(p, y) && x == y, "a command given through the client does what it does when given directly");
        }
        delete pg;
    }
    // its answer, whole or not
    bool part = faults && maybe("part");
    pfsnet::Conn b;
    b.in = part ? s.out.substr(0, choice("until", (unsigned)s.out.size() > 40 ? 40 : (unsigned)s.out.size())) : s.out;
    gConn = &b;
    Said got = run(w);
    CHECK(b.out == a.out, "the same words are sent again the same");
    if (part) {
        CHECK(got.rc == 1 && got.out.empty() && got.err.size() > 1, "a client that gets no answer says so and fails");
        REACH("part");
    } else if (direct) {
        CHECK(got.rc == 0, "the client succeeds exactly if the command does");
        CHECK(got.out == told + "\n" && got.err.empty(), "the answer is printed");
        REACH("done");
    } else {
        CHECK(got.rc == 1, "the client succeeds exactly if the command does");
        CHECK(got.err == told + "\n" && got.out.empty(), "a failure is printed as an error");
        REACH("failed");
    }
    delete pf;
}
