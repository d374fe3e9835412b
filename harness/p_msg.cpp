// C14: the channels between debugger and machine: TCP under fragmentation, merging, delay and loss, and the in-process queues under TSan.
#include "dbgsession.h"
#include "common/TCP.h"
#include <csignal>
#include <netinet/tcp.h>
#include <poll.h>
#include <optional>

using Msgs = std::vector<std::string>;
static void nap(Rng& g) { switch (g.below(6)) { case 0: std::this_thread::yield(); break; case 1: usleep(g.below(60)); break; case 2: for (volatile int k = 0; k < (int)g.below(400); ++k) {} break; default: break; } }
static Msgs messages(Rng& g, size_t maxN, bool big) {
    Msgs r; size_t n = g.range(0, (int64_t)maxN); size_t total = 0;
    for (size_t k = 0; k < n; ++k) {
        size_t len = 0; switch (g.below(8)) { case 0: len = 0; break; case 1: len = g.below(10); break; case 2: len = g.pick<size_t>({1, 7, 8, 9, 15, 16, 255, 256, 257}); break; case 3: len = g.below(3000); break;
            case 4: len = big && total < 4000000 ? g.pick<size_t>({65535, 65536, 70000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2500000}) : 10; break; default: len = g.below(60); }
        total += len; std::string s(len, 0);
        switch (g.below(4)) { case 0: for (auto& ch : s) ch = (char)g.next(); break; case 1: for (auto& ch : s) ch = (char)g.pick<int>({0, 255, 10, 13, 8}); break; case 2: { uint64_t v = g.below(40); for (size_t q = 0; q < len; ++q) s[q] = (char)(q % 8 ? 0 : v); break; } default: for (size_t q = 0; q < len; ++q) s[q] = (char)('a' + (q + k) % 26); }
        r.push_back(s);
    }
    return r;
}
static std::string shape(const Msgs& v) { std::string o; for (auto& s : v) o += " " + std::to_string(s.size()); return o; }
static size_t wire(const Msgs& v, size_t n) { size_t t = 0; for (size_t k = 0; k < n; ++k) t += 8 + v[k].size(); return t; }

// ---- sockets
struct Fd { int f = -1; Fd(int f = -1) : f(f) {} Fd(Fd&& o) : f(o.f) { o.f = -1; } Fd& operator=(Fd&& o) { close(); f = o.f; o.f = -1; return *this; } ~Fd() { close(); } void close() { if (f >= 0) ::close(f); f = -1; } };
static std::pair<int, int> listener() { // fd, port
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (s < 0 || bind(s, (sockaddr*)&a, sizeof a) || listen(s, 8)) { if (s >= 0) close(s); throw Discard{}; }
    socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); return {s, ntohs(a.sin_port)};
}
static int dial(int port) {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s;
}
static void nodelay(int f) { int one = 1; setsockopt(f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
static std::pair<int, int> pairOf(Rng& g, bool tcp) {
    int v[2];
    if (!tcp) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) throw Discard{}; if (g.chance(1, 3)) for (int f : v) { int sz = 4096; setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); } return {v[0], v[1]}; }
    auto [l, port] = listener(); int a = dial(port); int b = a < 0 ? -1 : accept(l, nullptr, nullptr); close(l); if (b < 0) throw Discard{}; nodelay(a); nodelay(b); return {a, b};
}
static void reset(int f) { linger l{1, 0}; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); }

// forwards bytes from one socket to another in pieces of its own; ends when the source ends or after 'limit' bytes
struct Pump {
    Rng g; int from, to; size_t limit; std::atomic<size_t> moved{0}; std::atomic<size_t> pieces{0}; int style; bool shutWhenDone; std::thread th;
    Pump(uint64_t seed, int from, int to, size_t limit, bool shutWhenDone) : g(seed), from(from), to(to), limit(limit), shutWhenDone(shutWhenDone) { style = (int)g.below(5); }
    void run() {
        std::vector<char> b(1 << 16);
        while (moved < limit) {
            size_t want = b.size(); size_t budget = moved < 20000 ? 1 : 0;
            switch (style) { case 0: want = budget ? 1 : 5000; break; case 1: want = budget ? g.range(1, 9) : g.range(500, 9000); break; case 2: want = g.range(1, budget ? 40 : 60000); break; case 3: want = 8; if (!budget) want = 4096; break; default: break; }
            want = std::min(want, limit - moved.load());
            if (style == 4 && g.chance(1, 3)) usleep(g.below(200)); // merge
            { int one = 1; setsockopt(from, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); } ssize_t n = read(from, b.data(), want); if (n > 0) { int one = 1; setsockopt(from, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); } if (n < 0 && errno == EINTR) continue; if (n <= 0) break;
            for (ssize_t p = 0; p < n;) { ssize_t w = send(to, b.data() + p, n - p, MSG_NOSIGNAL); if (w < 0 && errno == EINTR) continue; if (w <= 0) return; p += w; }
            moved += n; ++pieces; nap(g);
        }
        if (shutWhenDone) shutdown(to, SHUT_WR);
    }
    void start() { th = std::thread([this] { run(); }); }
    ~Pump() { if (th.joinable()) th.join(); }
};
static void onUsr(int) {}
struct Nag { // interrupts blocking calls of the threads
    std::atomic<bool> stop{false}; std::vector<pthread_t> who; std::thread th; Rng g;
    Nag(uint64_t seed, std::vector<pthread_t> w, bool on) : who(std::move(w)), g(seed) { if (!on) return; struct sigaction s{}; s.sa_handler = onUsr; sigaction(SIGUSR1, &s, nullptr); th = std::thread([this] { while (!stop) { usleep(50 + g.below(400)); if (stop) break; pthread_kill(who[g.below(who.size())], SIGUSR1); } }); }
    void end() { stop = true; if (th.joinable()) th.join(); }
    ~Nag() { end(); }
};
struct Outcome { Msgs got; bool ended = false, error = false, other = false; std::string what; size_t sent = 0; bool sendError = false, sendOther = false; };
// the system calls of a thread which asked for it are interrupted, and transfer less than they were asked for
struct Faults { Rng g; std::atomic<size_t>& n; int eintr, cut; };
static thread_local Faults* faults = nullptr; static std::atomic<size_t> injected{0};
static bool disturb(size_t& n) {
    if (!faults) return false;
    if ((int)faults->g.below(100) < faults->eintr) { ++injected; errno = EINTR; return true; }
    if (n > 1 && (int)faults->g.below(100) < faults->cut) { ++injected; n = faults->g.chance(1, 2) ? faults->g.range(1, (int64_t)std::min<size_t>(n - 1, 20)) : faults->g.range(1, (int64_t)n - 1); }
    return false;
}
extern "C" {
ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_send(int f, const void* b, size_t n, int fl) { return disturb(n) ? -1 : __real_send(f, b, n, fl); }
ssize_t __wrap_recv(int f, void* b, size_t n, int fl) { return disturb(n) ? -1 : __real_recv(f, b, n, fl); }
ssize_t __wrap_read(int f, void* b, size_t n) { return disturb(n) ? -1 : __real_read(f, b, n); }
ssize_t __wrap_write(int f, const void* b, size_t n) { return disturb(n) ? -1 : __real_write(f, b, n); }
}
struct Disturb { Faults f; Disturb(Rng& g, bool on) : f{Rng(g.next()), injected, 0, 0} { if (!on) return; f.eintr = (int)g.pick<int>({0, 10, 60}); f.cut = (int)g.pick<int>({0, 10, 80}); faults = &f; } ~Disturb() { faults = nullptr; } };
static void receiveAll(Rng g, int f, Outcome& o, bool disturbed = false) {
    Disturb d(g, disturbed);
    try { while (true) { auto m = TCP::Receive(f); if (!m) { o.ended = true; break; } o.got.push_back(std::move(*m)); nap(g); } }
    catch (const TCP::TCPError& e) { o.error = true; o.what = e.what(); } catch (const std::exception& e) { o.other = true; o.what = e.what(); }
}
static void sendAll(Rng g, int f, const Msgs& v, Outcome& o, bool disturbed = false) {
    Disturb d(g, disturbed);
    try { for (auto& s : v) { TCP::Send(f, s); ++o.sent; nap(g); } } catch (const TCP::TCPError& e) { o.sendError = true; } catch (const std::exception& e) { o.sendOther = true; o.what = e.what(); }
}
// both directions at once, each through a pump
static void tcpFrag(Ctx& c) {
    Rng& g = c.rng; bool tcp = g.chance(1, 2); auto [a1, a2] = pairOf(g, tcp); Fd A(a1), PA(a2); auto [b1, b2] = pairOf(g, tcp); Fd PB(b1), B(b2);
    Msgs ab = messages(g, 25, true), ba = messages(g, 25, g.chance(1, 2)); int how = g.chance(1, 2) ? 0 : (int)g.range(1, 2); // clean, cut, reset
    size_t tot = wire(ab, ab.size()); size_t cut = SIZE_MAX;
    if (how) { switch (g.below(3)) { case 0: cut = g.below(tot + 1); break; case 1: { size_t k = g.below(ab.size() + 1); cut = wire(ab, k) + g.below(9); break; } default: { size_t k = g.below(ab.size() + 1); cut = wire(ab, k); } } cut = std::min(cut, tot); }
    c.detail = std::string(tcp ? "TCP" : "socket pair") + ", lengths A->B:" + shape(ab) + "; B->A:" + shape(ba) + (how ? "; connection lost after byte " + std::to_string(cut) + (how == 2 ? " (reset)" : "") : "") + "\n"; c.sample(c.detail);
    Outcome oa, ob; std::string extra;
    {
        Pump p1(g.next(), PA.f, PB.f, cut, false), p2(g.next(), PB.f, PA.f, SIZE_MAX, false);
        Rng r1(g.next()), r2(g.next()), r3(g.next()), r4(g.next()); bool ds[4]; for (bool& x : ds) x = g.chance(1, 3); size_t in0 = injected;
        struct Count { Ctx& c; size_t n; ~Count() { c.count("disturbed-calls", injected - n); } } counting{c, in0};
        std::thread sa([&] { sendAll(r1, A.f, ab, oa, ds[0]); if (!how) shutdown(A.f, SHUT_WR); }), sb([&] { sendAll(r2, B.f, ba, ob, ds[1]); if (!how) shutdown(B.f, SHUT_WR); });
        std::thread ra([&] { receiveAll(r3, A.f, ob, ds[2]); }), rb([&] { receiveAll(r4, B.f, oa, ds[3]); }); // oa: what A sent
        std::vector<pthread_t> who = {sa.native_handle(), sb.native_handle(), ra.native_handle(), rb.native_handle()};
        bool nag = g.chance(1, 3); Nag* n = new Nag(g.next(), who, nag);
        p1.start(); p2.start();
        if (how) { p1.th.join(); if (how == 2) { reset(PA.f); reset(PB.f); } shutdown(PB.f, how == 2 ? SHUT_RDWR : SHUT_WR); shutdown(PA.f, SHUT_RDWR);
            if (how == 1) { rb.join(); } shutdown(PB.f, SHUT_RDWR); p2.th.join(); PA.close(); PB.close(); }
        else { p1.th.join(); shutdown(PB.f, SHUT_WR); p2.th.join(); shutdown(PA.f, SHUT_WR); }
        delete n; // before the threads are joined
        sa.join(); sb.join(); ra.join(); if (rb.joinable()) rb.join();
        c.count("pieces", p1.pieces + p2.pieces); c.count("bytes", p1.moved + p2.moved);
    }
    auto judge = [&](const char* dir, const Msgs& v, const Outcome& o, bool complete, std::optional<size_t> exactly) {
        if (o.other || o.sendOther) c.fail("exception", std::string(dir) + ": something else than a TCPError: " + o.what);
        if (o.got.size() > v.size()) c.fail("surplus", std::string(dir) + ": " + std::to_string(o.got.size()) + " messages received, " + std::to_string(v.size()) + " sent");
        for (size_t k = 0; k < o.got.size(); ++k) if (o.got[k] != v[k]) c.fail("content", std::string(dir) + ": message " + std::to_string(k) + " differs: received " + std::to_string(o.got[k].size()) + " bytes, sent " + std::to_string(v[k].size()));
        if (complete) { if (o.sent != v.size()) c.fail("send", std::string(dir) + ": sending fails"); if (o.got.size() != v.size()) c.fail("lost", std::string(dir) + ": only " + std::to_string(o.got.size()) + " of " + std::to_string(v.size()) + " messages received"); if (!o.ended) c.fail("end", std::string(dir) + ": the end of the connection is not reported"); }
        if (exactly && o.got.size() != *exactly) c.fail("lost", std::string(dir) + ": " + std::to_string(o.got.size()) + " messages received, " + std::to_string(*exactly) + " arrived whole");
        c.count("messages", o.got.size()); c.eval(o.got.size() + 1);
    };
    std::optional<size_t> whole; if (how == 1) { size_t k = 0; while (k < ab.size() && wire(ab, k + 1) <= cut) ++k; whole = k; }
    judge("A->B", ab, oa, !how, whole); judge("B->A", ba, ob, !how, std::nullopt);
    c.count(how == 0 ? "clean" : how == 1 ? "cut" : "reset"); c.feature(shape(ab) + "/" + shape(ba) + std::to_string(cut));
}
// a peer which does not keep to the format
static void tcpHostile(Ctx& c) {
    Rng& g = c.rng; auto [x, y] = pairOf(g, g.chance(1, 2)); Fd X(x), Y(y); Msgs ok = messages(g, 4, false);
    std::string raw; for (auto& s : ok) { uint64_t l = s.size(); raw.append((char*)&l, 8); raw += s; }
    uint64_t l = g.pick<uint64_t>({UINT64_MAX, 1ull << 63, (1ull << 63) - 1, 1ull << 40, 1ull << 32, 1ull << 31, 1000, 1}); std::string tail((char*)&l, g.chance(1, 4) ? g.below(8) : 8); if (tail.size() == 8) tail += std::string(std::min<uint64_t>(g.below(2000), l - 1), 'x'); raw += tail;
    c.detail = "lengths" + shape(ok) + ", then a header announcing " + std::to_string(l) + " bytes, " + std::to_string(tail.size()) + " bytes in all, then the end\n";
    std::thread th([&] { for (size_t p = 0; p < raw.size();) { size_t n = g.range(1, 400); ssize_t w = send(X.f, raw.data() + p, std::min(n, raw.size() - p), MSG_NOSIGNAL); if (w <= 0) break; p += w; } shutdown(X.f, SHUT_WR); });
    Outcome o; receiveAll(Rng(1), Y.f, o); th.join();
    if (o.other) c.fail("exception", "something else than a TCPError: " + o.what); if (o.got != ok) c.fail("truncated", std::to_string(o.got.size()) + " messages received, " + std::to_string(ok.size()) + " were whole"); c.eval(); c.count("hostile");
    c.feature(c.detail);
}
// TCPServer and TCPClient themselves
using Srv = TCP::TCPServer;
using Cl = TCP::TCPClient;
struct Ends { std::unique_ptr<Srv> s; std::unique_ptr<Cl> c; int port = 0; };
static int freePort() { auto [f, p] = listener(); close(f); return p; }
static Ends connectEnds() {
    for (int t = 0; t < 20; ++t) {
        Ends e; e.port = freePort(); e.s = std::make_unique<Srv>(e.port); std::atomic<int> st{0}; auto* s = e.s.get();
        std::thread th([&st, s] { try { s->Initialize(); st = 1; } catch (const TCP::TCPError&) { st = 2; } });
        bool up = false;
        for (int k = 0; k < 4000 && st != 2; ++k) { auto cl = std::make_unique<Cl>(e.port); try { cl->Initialize(); e.c = std::move(cl); up = true; break; } catch (const TCP::TCPError&) { usleep(500); } }
        if (!up && st != 2) { int f = dial(e.port); if (f >= 0) close(f); }
        th.join(); if (up && st == 1) return e;
    }
    throw Discard{};
}
static void tcpEnds(Ctx& c) {
    Rng& g = c.rng; Msgs ab = messages(g, 20, true), ba = messages(g, 20, g.chance(1, 2)); c.detail = "client->server:" + shape(ab) + "; server->client:" + shape(ba) + "\n";
    { TCP::TCPClient n(1); int k = 0; try { n.Send("x"); } catch (const TCP::TCPError&) { ++k; } try { n.Receive(); } catch (const TCP::TCPError&) { ++k; } try { n.Initialize(); } catch (const TCP::TCPError&) { ++k; } c.check(k == 3, "unconnected", "an unconnected end does not refuse"); }
    Ends e = connectEnds(); bool again = false; try { e.c->Initialize(); } catch (const TCP::TCPError&) { again = true; } c.check(again, "again", "connecting twice is not refused");
    size_t stop = g.chance(1, 2) ? ab.size() : g.below(ab.size() + 1); std::string err; Msgs gs, gc; bool ended = false; Rng r1(g.next()), r2(g.next()), r3(g.next());
    std::thread srv([&] { try { while (true) { auto m = e.s->Receive(); if (!m) { ended = true; break; } gs.push_back(*m); nap(r1); } } catch (const TCP::TCPError&) { ended = true; } catch (const std::exception& x) { err = x.what(); } });
    std::thread snd([&] { try { for (auto& s : ba) { e.s->Send(s); nap(r2); } } catch (const std::exception& x) { err = x.what(); } });
    std::thread rcv([&] { try { for (size_t k = 0; k < ba.size(); ++k) { auto m = e.c->Receive(); if (!m) break; gc.push_back(*m); } } catch (const std::exception& x) { err = x.what(); } });
    try { for (size_t k = 0; k < stop; ++k) { e.c->Send(ab[k]); nap(r3); } } catch (const std::exception& x) { err = x.what(); }
    snd.join(); rcv.join(); e.c.reset(); srv.join(); ab.resize(stop);
    if (!err.empty()) c.fail("exception", err); if (gs != ab) c.fail("messages", "server received" + shape(gs)); if (gc != ba) c.fail("messages", "client received" + shape(gc)); c.check(ended, "end", "the end of the connection is not reported");
    bool threw = false; try { for (int k = 0; k < 2000; ++k) { e.s->Send(std::string(4000, 'x')); } } catch (const TCP::TCPError&) { threw = true; } c.check(threw, "send-to-nobody", "sending on a lost connection is never refused");
    c.count("messages", gs.size() + gc.size()); c.eval(gs.size() + gc.size() + 1); c.feature(c.detail);
}
// ---- in-process
static void threads(Ctx& c) {
    Rng& g = c.rng; Msgs ab = messages(g, 60, false), ba = messages(g, 60, false); bool owner = g.chance(1, 2); c.detail = std::string(owner ? "owner" : "plain") + ", A->B:" + shape(ab) + "; B->A:" + shape(ba) + "\n";
    ThreadQueue<std::string> q1, q2; auto own = std::make_unique<ThreadMessengerOwner>(); std::unique_ptr<Messenger> A, B;
    if (owner) B = std::make_unique<ThreadMessenger>(own->GetOutQueue(), own->GetInQueue()); else { A = std::make_unique<ThreadMessenger>(q1, q2); B = std::make_unique<ThreadMessenger>(q2, q1); }
    Messenger* a = owner ? (Messenger*)own.get() : A.get(); Msgs ga, gb; int style = (int)g.below(3); bool missing = false; Rng r[4] = {Rng(g.next()), Rng(g.next()), Rng(g.next()), Rng(g.next())};
    auto rx = [&](Messenger* m, Msgs& o, Rng& r) { auto x = m->Receive(); if (x) o.push_back(std::move(*x)); else missing = true; nap(r); };
    if (style == 0) { // a thread per end, sending and receiving in turn
        size_t n = std::min(ab.size(), ba.size()); ab.resize(n); ba.resize(n);
        std::thread t1([&] { for (auto& s : ab) { a->Send(s); nap(r[0]); rx(a, ga, r[0]); } }), t2([&] { for (auto& s : ba) { rx(B.get(), gb, r[1]); B->Send(s); nap(r[1]); } }); t1.join(); t2.join();
    } else if (style == 1) { // all messages one way, then the other
        std::thread t1([&] { for (auto& s : ab) { a->Send(s); nap(r[0]); } for (size_t k = 0; k < ba.size(); ++k) rx(a, ga, r[0]); }), t2([&] { for (size_t k = 0; k < ab.size(); ++k) rx(B.get(), gb, r[1]); for (auto& s : ba) { B->Send(s); nap(r[1]); } }); t1.join(); t2.join();
    } else { // sender and receiver threads at both ends
        std::thread t1([&] { for (auto& s : ab) { a->Send(s); nap(r[0]); } }), t2([&] { for (auto& s : ba) { B->Send(s); nap(r[1]); } }), t3([&] { for (size_t k = 0; k < ba.size(); ++k) rx(a, ga, r[2]); }), t4([&] { for (size_t k = 0; k < ab.size(); ++k) rx(B.get(), gb, r[3]); });
        t1.join(); t2.join(); t3.join(); t4.join();
    }
    c.check(!missing, "missing", "a receiver gets nothing"); if (gb != ab) c.fail("messages", "A->B received" + shape(gb)); if (ga != ba) c.fail("messages", "B->A received" + shape(ga));
    c.count("messages", ga.size() + gb.size()); c.eval(ga.size() + gb.size() + 1); c.feature(c.detail + std::to_string(style));
}
// ---- whole sessions
struct Jitter : Messenger { std::unique_ptr<Messenger> m; Rng g; Jitter(std::unique_ptr<Messenger> m, uint64_t s) : m(std::move(m)), g(s) {} void Send(const std::string& s) override { nap(g); m->Send(s); nap(g); } std::optional<std::string> Receive() override { nap(g); return m->Receive(); } };
struct ThreadLink : ses::Link {
    ThreadQueue<std::string> q1, q2; uint64_t s; explicit ThreadLink(uint64_t s) : s(s) {}
    std::unique_ptr<Messenger> vmEnd() override { return std::make_unique<Jitter>(std::make_unique<ThreadMessenger>(q1, q2), s); }
    std::unique_ptr<Messenger> dbgEnd() override { return std::make_unique<Jitter>(std::make_unique<ThreadMessenger>(q2, q1), s + 1); }
    void close() override { std::lock_guard l(q2.m); q2.q.push("TERMINATE"); q2.cv.notify_one(); }
};
struct TcpLink : ses::Link { // machine -- pumps -- debugger
    Ends e1, e2; Fd in, out; std::unique_ptr<Pump> p1, p2; // the real server for the machine, the real client for the debugger
    std::unique_ptr<Srv> vm; std::unique_ptr<Cl> dbg; std::mutex m; bool closed = false;
    TcpLink(Rng& g) {
        bool up = false;
        for (int t = 0; t < 20 && !up; ++t) { // the machine's side
            int port = freePort(); vm = std::make_unique<Srv>(port); std::atomic<int> st{0}; auto* s = vm.get(); std::thread th([&st, s] { try { s->Initialize(); st = 1; } catch (const TCP::TCPError&) { st = 2; } });
            for (int k = 0; k < 4000 && st != 2; ++k) { int f = dial(port); if (f >= 0) { in = Fd(f); break; } usleep(300); }
            th.join(); up = st == 1 && in.f >= 0;
        }
        if (!up) throw Discard{};
        auto [l, port] = listener(); Fd L(l); dbg = std::make_unique<Cl>(port); std::thread th([&, l = l] { out = Fd(accept(l, nullptr, nullptr)); }); bool ok = true; try { dbg->Initialize(); } catch (const TCP::TCPError&) { ok = false; int f = dial(port); if (f >= 0) ::close(f); } th.join(); if (!ok || out.f < 0) throw Discard{};
        nodelay(in.f); nodelay(out.f); p1 = std::make_unique<Pump>(g.next(), in.f, out.f, SIZE_MAX, true); p2 = std::make_unique<Pump>(g.next(), out.f, in.f, SIZE_MAX, true); p1->start(); p2->start();
    }
    std::unique_ptr<Messenger> vmEnd() override { return std::move(vm); }
    std::unique_ptr<Messenger> dbgEnd() override { return std::move(dbg); }
    void cut(bool rst) { std::lock_guard l(m); if (closed) return; closed = true; if (rst) { reset(in.f); reset(out.f); } shutdown(in.f, SHUT_RDWR); shutdown(out.f, SHUT_RDWR); p1->th.join(); p2->th.join(); in.close(); out.close(); }
    void close() override { cut(false); }
    ~TcpLink() { cut(false); }
};
static const Weights W_MIX = {5, 6, 2, 1, 4, 2, 1, 1, 2, 1, 2, 1, 2, 1, 3, 2};
static void session(Ctx& c, std::shared_ptr<ses::Link> link, TcpLink* tcp) {
    struct Use { Use(std::shared_ptr<ses::Link> l) { ses::useLink = std::move(l); } ~Use() { ses::useLink.reset(); } } use(link);
    std::unique_ptr<Session> hold; Session* s = mk(c, 30, dopt(c), hold); size_t n = c.rng.range(2, 18); bool lose = tcp && c.rng.chance(1, 3);
    for (size_t k = 0; k < n && !s->ended; ++k) s->act(W_MIX);
    if (!lose) { s->state("the end"); s->finish(); c.count("sessions"); return; }
    // the connection is lost: the machine ends, the debugger is told
    s->note("connection lost"); bool threw = false; std::string other; tcp->cut(c.rng.chance(1, 2));
    for (int k = 0; k < 2 && other.empty(); ++k) try { switch (c.rng.below(4)) { case 0: s->nat->GetRegisters(); break; case 1: s->nat->ReadMemory(0, 1); break; case 2: s->nat->ReadText(0, 1); break; default: s->nat->ContinueExecution(); s->nat->WaitForDebugEvent(); } } catch (const DebuggerError&) { threw = true; } catch (const TCP::TCPError&) { threw = true; } catch (const std::exception& e) { other = e.what(); }
    if (!other.empty()) c.fail("lost-kind", "the lost connection is reported as: " + other); c.check(threw, "lost-unreported", "a request on a lost connection succeeds");
    s->machine->join(); c.count("sessions-lost"); c.eval(); c.feature(s->h);
}
static void threadSession(Ctx& c) { session(c, std::make_shared<ThreadLink>(c.rng.next()), nullptr); }
static void tcpSession(Ctx& c) { auto l = std::make_shared<TcpLink>(c.rng); session(c, l, l.get()); }

std::vector<ModeDef> modes() { return {{"tcp-frag", tcpFrag}, {"tcp-hostile", tcpHostile}, {"tcp-ends", tcpEnds}, {"threads", threads}, {"thread-session", threadSession}, {"tcp-session", tcpSession}}; }
int main(int argc, char** argv) { return harnessMain(argc, argv); }
