// C19: TLS connections; C20: identities from certificates
#include "tls.h"
#include "p2p.h"
int g_draws, g_enum;
namespace {
struct TLog {
    std::map<const void *, std::string> h; std::vector<MsgNet::conn_t> keep; int err = 0, fatal = 0, bad = 0; std::string got; std::string early; std::map<const void *, std::string> cert;
    void check(const char *who) {
        mc::Quiet q;
        for (auto &p: h) MC_ASSERT(p.second == "U" || p.second == "UD" || p.second == "D", "%s: connection notified '%s'", who, p.second.c_str());
        MC_ASSERT(!fatal, "%s: fatal error", who); MC_ASSERT(!bad, "%s: corrupted message", who);
    }
    std::string sum() { mc::Quiet q; std::vector<std::string> v; for (auto &p: h) v.push_back(p.second); std::sort(v.begin(), v.end()); std::string r; for (auto &x: v) r += x + ","; return r; }
    int n(char c) { mc::Quiet q; int k = 0; for (auto &p: h) k += std::count(p.second.begin(), p.second.end(), c); return k; }
};
struct TNode: Node<MsgNet> {
    TLog log; std::function<bool(const MsgNet::conn_t &, bool)> f;
    TNode(const MsgNet::Config &c): Node<MsgNet>(c) {
        net->reg_conn_handler([this](const ConnPool::conn_t &cc, bool up) {
            auto c = static_pointer_cast<MsgNet::Conn>(cc);
            std::string d; if (up) { auto x = c->get_peer_cert(); MC_ASSERT(x, "no peer certificate"); auto v = x->get_der(); d.assign((const char *)&v[0], v.size()); }
            bool r = f ? f(c, up) : true;
            { mc::Quiet q; log.h[c.get()] += up ? 'U' : 'D'; log.cert[c.get()] = d; }
            log.keep.push_back(c);
            return r; });
        net->reg_error_handler([this](const std::exception_ptr, bool f, int32_t) { mc::Quiet q; log.err++; log.fatal += f; });
        net->reg_handler([this](MsgData &&m, const MsgNet::conn_t &c) { mc::Quiet q; if (!m.ok) log.bad++; log.got += char('a' + m.id); auto it = log.h.find(c.get()); if (it == log.h.end() || it->second[0] != 'U') log.early += char('a' + m.id); });
    }
    void finish() { on_loop([this] { log.keep.clear(); }); stop_loop(); destroy(); }
};
MsgNet::Config tcfg(int i, int nw, int chunk = 64) { MsgNet::Config c; c.max_msg_queue_size(4); c.recv_chunk_size(chunk); if (nw) c.nworker(2); tlsx::use(c, i); return c; }

std::string *wire_bytes; // everything the kernel took
void on_send(int, const void *p, size_t n) { mc::Quiet q; wire_bytes->append((const char *)p, n); }


bool sentp(const std::string &got, const char *all) { return got == all; }
// A connects to B; both send 3 messages; windows and short writes. thr: A's messages are sent by another thread, at any point after the connection is up
void duplex(long a) {
    int nw = a & 1, win = a >> 1 & 4095, sw = a >> 13 & 3, sr = a >> 15 & 3, thr = a >> 17 & 1, big = a >> 18 & 1;
    tlsx::begin();
    std::string wb; wire_bytes = &wb;
    if (win) simos::cfg().sockbuf = win;
    simos::cfg().short_write = sw; simos::cfg().short_read = sr; simos::cfg().max_env = 3;
    simos::on_send(on_send);
    {
    TNode A(tcfg(0, nw)), B(tcfg(1, nw));
    int L = big ? 150 : 30;
    A.f = [&](const MsgNet::conn_t &c, bool up) { if (up && !thr) { A.net->send_msg(MsgData(0, L), c); A.net->send_msg(MsgData(1, 3), c); A.net->send_msg(MsgData(2, 20), c); } return true; };
    B.f = [&](const MsgNet::conn_t &c, bool up) { if (up) { B.net->send_msg(MsgData(0, 3), c); B.net->send_msg(MsgData(1, L), c); B.net->send_msg(MsgData(2, 3), c); } return true; };
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    if (thr) { auto c = A.net->connect_sync(lo(1000)); mc::anywhen(); A.net->send_msg(MsgData(0, L), c); A.net->send_msg(MsgData(1, 3), c); A.net->send_msg(MsgData(2, 20), c); }
    else A.net->connect(lo(1000));
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q;
      MC_ASSERT(A.log.sum() == "U," && B.log.sum() == "U,", "A %s B %s", A.log.sum().c_str(), B.log.sum().c_str());
      MC_ASSERT(A.log.got == "abc" && B.log.got == "abc", "A received '%s', B '%s'", A.log.got.c_str(), B.log.got.c_str());
      MC_ASSERT(A.log.early == "" && B.log.early == "", "messages before the connection was accepted");
      MC_ASSERT(A.log.cert.begin()->second == tlsx::der(1) && B.log.cert.begin()->second == tlsx::der(0), "wrong peer certificate");
      MC_ASSERT(!A.log.err && !B.log.err, "errors reported");
      for (int i = 0; i < 3; i++) for (int l: {20, L}) MC_ASSERT(wb.find(payload(i, l)) == std::string::npos, "a message is on the wire in clear"); }
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// the handler of A (1), B (2) or both refuses; everybody sends as early as possible and at any point
void approve(long a) {
    int nw = a & 1, rej = a >> 1 & 3, any = a >> 3 & 1;
    tlsx::begin();
    {
    TNode A(tcfg(0, nw)), B(tcfg(1, nw));
    A.f = [&](const MsgNet::conn_t &c, bool up) { if (up) { A.net->send_msg(MsgData(0, 3), c); } return !(rej & 1); };
    B.f = [&](const MsgNet::conn_t &c, bool up) { if (up) { B.net->send_msg(MsgData(0, 3), c); } return !(rej & 2); };
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    auto c = A.net->connect_sync(lo(1000));
    if (any) { mc::anywhen(); A.net->send_msg(MsgData(1, 3), c); }
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q; std::string sa = A.log.sum(), sb = B.log.sum();
      mc::outcome("%s %s %s %s", sa.c_str(), sb.c_str(), A.log.got.c_str(), B.log.got.c_str());
      MC_ASSERT((sa == "UD," || (rej != 1 && sa == "D,")) && (sb == "UD," || (rej == 1 && (sb == "D," || sb == ""))), "a refused connection: A %s, B %s", sa.c_str(), sb.c_str());
      if (rej & 1) MC_ASSERT(A.log.got == "", "A refused the connection but received '%s'", A.log.got.c_str());
      if (rej & 2) MC_ASSERT(B.log.got == "", "B refused the connection but received '%s'", B.log.got.c_str());
      MC_ASSERT(A.log.early == "" && B.log.early == "", "messages before the connection was accepted"); }
    MC_ASSERT(c->is_terminated(), "a refused connection is not terminated");
    MC_ASSERT(simos::nsock_open() == 1, "%d sockets open", simos::nsock_open());
    c = nullptr;
    A.finish(); B.finish();
    }
}
// a slow receiver: the first handler call takes its time; nothing is lost and the transfer goes on afterwards
void flow(long a) {
    int nw = a & 1, chunk = a >> 1 & 127, segs = a >> 8 & 15, qs = a >> 12 & 15, win = a >> 16;
    tlsx::begin();
    if (win) simos::cfg().sockbuf = win;
    {
    auto cb = tcfg(1, nw, chunk); cb.max_recv_buff_size(segs); cb.max_msg_queue_size(qs);
    TNode A(tcfg(0, nw)), B(cb); std::string got; int bad = 0;
    B.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &) { if (m.id == 0) for (int i = 0; i < 12; i++) mc::yield(); mc::Quiet q; if (!m.ok) bad++; got += char('a' + m.id); });
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    auto c = A.net->connect_sync(lo(1000));
    for (int i = 0; i < 8; i++) A.net->send_msg(MsgData(i, i % 3 == 1 ? 30 : 5), c);
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q; MC_ASSERT(got == "abcdefgh" && !bad, "B received '%s'", got.c_str()); MC_ASSERT(A.log.sum() == "U,", "A %s", A.log.sum().c_str()); }
    c = nullptr;
    A.finish(); B.finish();
    }
}
// X bothers B, A and B are connected and exchange messages before and after
enum { X_CLOSE, X_RST, X_PLAIN, X_GARBAGE, X_HELLO, X_NOCERT, X_REFUSED, X_BADREC, X_HALFMSG, X_SILENT, X_N };
void intruder(long a) {
    int kind = a & 15, nw = a >> 4 & 1, early = a >> 5 & 1;
    tlsx::begin();
    {
    TNode A(tcfg(0, nw)), B(tcfg(1, nw));
    std::string d2 = tlsx::der(2); int xs = 0;
    B.f = [&](const MsgNet::conn_t &c, bool up) { if (!up) return true; auto v = c->get_peer_cert()->get_der(); mc::Quiet q; bool isx = std::string((const char *)&v[0], v.size()) == d2; xs += isx; return !(isx && kind == X_REFUSED); };
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    auto c = A.net->connect_sync(lo(1000));
    if (!early) mc::quiesce();
    A.net->send_msg(MsgData(0, 3), c);
    mc::anywhen();
    int x = simos::raw_connect(1000);
    {
    tlsx::Raw t(x, false, kind == X_NOCERT ? -1 : 2);
    auto hand = [&] { bool ok = false; for (int i = 0; i < 6 && !ok; i++) { ok = t.pump(); mc::quiesce(); } t.pump(); mc::quiesce(); return ok; };
    switch (kind) {
    case X_CLOSE: break;
    case X_RST: simos::raw_rst(x); break;
    case X_PLAIN: raw_send_all(x, dframe(9, 3), false); break;
    case X_GARBAGE: raw_send_all(x, mc::choose(2, "garbage", 0) ? std::string("GET / HTTP/1.0\r\n\r\n") : std::string(64, '\x16'), false); break;
    case X_HELLO: { std::string h = t.hello(); MC_ASSERT(h.size() > 20, "harness"); size_t n[] = {1, 5, h.size() / 2, h.size() - 1, h.size()}; raw_send_all(x, h.substr(0, n[mc::choose(5, "cut", 0)]), false); mc::quiesce(); break; }
    case X_NOCERT: hand(); t.write(dframe(9, 3)); break;
    case X_REFUSED: MC_ASSERT(hand(), "harness"); t.write(dframe(9, 3)); break;
    case X_BADREC: MC_ASSERT(hand(), "harness"); t.write(dframe(8, 3)); mc::quiesce(); raw_send_all(x, std::string("\x17\x03\x03\x00\x20", 5) + std::string(32, 'z'), false); break;
    case X_HALFMSG: MC_ASSERT(hand(), "harness"); t.write(dframe(8, 3) + dframe(9, 3).substr(0, 15)); if (mc::choose(2, "notify", 0)) t.shutdown(); break;
    case X_SILENT: hand(); break;
    }
    mc::quiesce();
    if (kind != X_CLOSE && kind != X_RST && kind != X_HELLO && kind != X_HALFMSG && kind != X_SILENT) MC_ASSERT(simos::raw_eof(x), "the connection of a misbehaving client is not ended");
    if (kind != X_RST) { switch (mc::choose(2, "end", 0)) { case 0: simos::raw_close(x); break; default: simos::raw_rst(x); } }
    }
    mc::quiesce();
    simos::cfg().sockbuf = 10;  // records arrive in pieces
    A.net->send_msg(MsgData(1, 3), c);
    mc::quiesce();
    B.on_loop([&] { MsgNet::conn_t b; { mc::Quiet q; for (auto &k: B.log.keep) if (B.log.cert[k.get()] == tlsx::der(0)) b = k; } MC_ASSERT(b, "no connection with A"); B.net->send_msg(MsgData(2, 3), b); });
    mc::quiesce();
    A.net->send_msg(MsgData(2, 3), c);
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q; std::string g, gx; for (char ch: B.log.got) (ch < 'i' ? g : gx) += ch;
      mc::outcome("%s %s", B.log.sum().c_str(), B.log.got.c_str());
      MC_ASSERT(g == "abc" && A.log.got == "c", "B received '%s', A '%s'", B.log.got.c_str(), A.log.got.c_str());
      MC_ASSERT(A.log.sum() == "U,", "the connection of A is disturbed: %s", A.log.sum().c_str());
      MC_ASSERT(gx == (kind == X_BADREC || kind == X_HALFMSG ? "i" : ""), "messages of the intruder: '%s'", gx.c_str());
      MC_ASSERT(B.log.early == "", "messages before the connection was accepted");
      MC_ASSERT(xs == (kind >= X_REFUSED ? 1 : 0), "the intruder was announced %d times", xs);
      MC_ASSERT(B.log.n('U') == 1 + xs && B.log.n('D') == 1, "B %s", B.log.sum().c_str()); }
    MC_ASSERT(simos::nsock_open() == 3, "%d sockets open", simos::nsock_open());
    c = nullptr;
    A.finish(); B.finish();
    }
}
// A is connected with B and connects to X, which is no TLS server, closes at any time, or has no certificate
void badserver(long a) {
    int kind = a & 7, nw = a >> 3 & 1;
    tlsx::begin();
    {
    TNode A(tcfg(0, nw)), B(tcfg(1, nw));
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    int l = simos::raw_listen(3000);
    auto c = A.net->connect_sync(lo(1000));
    mc::quiesce();
    auto cx = A.net->connect_sync(lo(3000));
    mc::anywhen();
    int x = simos::raw_accept(l);
    if (x < 0) { mc::quiesce(); x = simos::raw_accept(l); }
    MC_ASSERT(x >= 0, "harness");
    switch (kind) {
    case 0: break;
    case 1: simos::raw_rst(x); break;
    case 2: raw_send_all(x, dframe(9, 3), false); break;
    case 3: raw_send_all(x, std::string("\x15\x03\x01\x00\x02\x02\x28", 7), false); break; // a fatal alert
    case 4: mc::quiesce(); break;
    case 5: { tlsx::Raw t(x, true, 2); for (int i = 0; i < 4; i++) { mc::quiesce(); t.pump(); } t.write(dframe(9, 3).substr(0, 16)); mc::quiesce(); if (mc::choose(2, "notify", 0)) t.shutdown(); break; }
    }
    if (kind != 1) simos::raw_close(x);
    mc::quiesce();
    simos::cfg().sockbuf = 10;  // records arrive in pieces
    A.net->send_msg(MsgData(1, 3), c);
    B.on_loop([&] { MC_ASSERT(B.log.keep.size(), "no connection with A"); B.net->send_msg(MsgData(2, 3), B.log.keep[0]); });
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q; std::string hc = A.log.h[c.get()], hx = A.log.h[cx.get()];
      mc::outcome("%s %s", hc.c_str(), hx.c_str());
      MC_ASSERT(hc == "U" && B.log.sum() == "U,", "another connection is disturbed: A %s, B %s", hc.c_str(), B.log.sum().c_str());
      MC_ASSERT(hx == (kind == 5 ? "UD" : "D"), "the failed connection is notified as '%s'", hx.c_str());
      MC_ASSERT(A.log.got == "c" && B.log.got == "b", "A received '%s', B '%s'", A.log.got.c_str(), B.log.got.c_str()); }
    MC_ASSERT(cx->is_terminated() && simos::nsock_open() == 3, "%d sockets open", simos::nsock_open());
    c = cx = nullptr;
    A.finish(); B.finish();
    }
}
// ended at any point of the handshake or later
void tls_end(long a) {
    int op = a & 7, nw = a >> 3 & 1, late = a >> 4 & 1;
    tlsx::begin();
    {
    TNode A(tcfg(0, nw)), B(tcfg(1, nw));
    A.f = [&](const MsgNet::conn_t &c, bool up) { if (up) A.net->send_msg(MsgData(0, 3), c); return true; };
    B.f = [&](const MsgNet::conn_t &c, bool up) { if (up) B.net->send_msg(MsgData(0, 3), c); return true; };
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    auto c = A.net->connect_sync(lo(1000));
    if (late) mc::quiesce();
    mc::anywhen();
    bool gone = false;
    switch (op) {
    case 0: A.net->terminate(c); break;
    case 1: B.on_loop([&] { if (B.log.keep.size()) B.net->terminate(B.log.keep[0]); else A.net->terminate(c); }); break;
    case 2: { int i = simos::find_estab(0); if (i >= 0) simos::rst_pair(i); else A.net->terminate(c); break; }
    case 3: A.net->stop(); gone = true; break;
    case 4: B.net->stop(); gone = true; break;
    case 5: { int i = simos::find_estab(0); if (i >= 0) simos::rst_half(i, true); else A.net->terminate(c); break; }
    case 6: A.net->terminate(c); A.net->send_msg(MsgData(1, 3), c); A.net->terminate(c); break;
    }
    mc::quiesce();
    if (!gone) { // the other end may only notice when it writes
        A.net->send_msg(MsgData(2, 3), c); mc::quiesce();
        A.log.check("A"); B.log.check("B");
        mc::Quiet q; std::string sa = A.log.sum(), sb = B.log.sum(); mc::outcome("%s %s %s %s", sa.c_str(), sb.c_str(), A.log.got.c_str(), B.log.got.c_str());
        MC_ASSERT(sa == "UD," || sa == "D,", "A %s", sa.c_str()); MC_ASSERT(sb == "UD," || sb == "D," || sb == "", "B %s", sb.c_str());
        MC_ASSERT(A.log.early == "" && B.log.early == "", "messages before the connection was accepted");
        MC_ASSERT(A.log.got.size() <= 1 && B.log.got.size() <= (op >= 5 ? 2u : 1u), "A received '%s', B '%s'", A.log.got.c_str(), B.log.got.c_str());
        MC_ASSERT(simos::nsock_open() == 1, "%d sockets open", simos::nsock_open());
    }
    // and a new connection works
    if (!gone) { auto d = A.net->connect_sync(lo(1000)); mc::quiesce(); size_t n; { mc::Quiet q; n = B.log.got.size(); MC_ASSERT(n && B.log.got.back() == 'a' && !d->is_terminated(), "a new connection does not work"); } d = nullptr; }
    c = nullptr;
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
int only0(int, X509_STORE_CTX *ctx) { auto x = X509_STORE_CTX_get0_cert(ctx); return x && X509_cmp(x, tlsx::cert[0]) == 0; }
// the verification asked for is done. cb: a callback that accepts only certificate 0; otherwise the default, which accepts no self-signed certificate
void verify(long a) {
    int nw = a & 1, who = a >> 1 & 1, cb = a >> 2 & 1, id = a >> 3 & 3;
    tlsx::begin();
    {
    auto ca = tcfg(who ? 1 : id, nw), cc = tcfg(who ? id : 1, nw);
    auto &cv = who ? ca : cc;           // who: the connecting side verifies
    cv.tls_skip_ca_check(false); if (cb) cv.tls_verify_callback(only0);
    bool ok = cb && id == 0;
    TNode A(ca), B(cc);
    A.f = [&](const MsgNet::conn_t &c, bool up) { if (up) A.net->send_msg(MsgData(0, 3), c); return true; };
    B.f = [&](const MsgNet::conn_t &c, bool up) { if (up) B.net->send_msg(MsgData(0, 3), c); return true; };
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    A.net->connect(lo(1000));
    mc::quiesce();
    A.log.check("A"); B.log.check("B");
    { mc::Quiet q; std::string sv = who ? A.log.sum() : B.log.sum(), so = who ? B.log.sum() : A.log.sum(), gv = who ? A.log.got : B.log.got, go = who ? B.log.got : A.log.got;
      if (ok) MC_ASSERT(sv == "U," && so == "U," && gv == "a" && go == "a", "an acceptable certificate is not accepted: %s %s", sv.c_str(), so.c_str());
      else MC_ASSERT(sv == "D," && (so == "D," || so == "UD,") && gv == "" && go == "", "an unacceptable certificate: %s %s", sv.c_str(), so.c_str()); }
    A.finish(); B.finish();
    }
}
// ---- C20
void settle(int ms) { for (int i = 0; i < 3; i++) { mc::quiesce(); mc::sleep_ms(ms / 3); } mc::quiesce(); }
PeerId cid(int i) { auto x = std::unique_ptr<salticidae::X509>(tlsx::new_cert(i)); return PeerId(*x); }
struct CNode: PNode {
    int me; std::string wrong; int ok_unk = 0;
    static PeerNet::Config conf(int i, int nw) { auto c = pcfg(nw + 1); tlsx::use(c, i); c.id_mode(PeerNet::CERT_BASED); return c; }
    CNode(int i, int port, int nw): PNode(conf(i, nw), port), me(i) {
        pid = cid(i);
        net->reg_peer_handler([this](const PeerNet::conn_t &c, bool up) {
            { mc::Quiet q; log.ev.push_back({c.get(), up, mc::now()}); } log.keep.push_back(c);
            if (!up) return;
            auto x = c->get_peer_cert(); MC_ASSERT(x, "no certificate");
            PeerId p = c->get_peer_id(); bool null = p == PeerId();
            if (!null) MC_ASSERT(p == PeerId(*x), "a peer is reported as connected with the certificate of somebody else"); });
    }
};
void agree_check(CNode &A, CNode &B, const char *when) {
    A.log.check("A"); B.log.check("B");
    MC_ASSERT(A.log.nup() == 1 && B.log.nup() == 1, "%s: %d and %d established connections (A %s, B %s)", when, A.log.nup(), B.log.nup(), A.log.str().c_str(), B.log.str().c_str());
    auto ca = A.net->get_peer_conn(B.pid), cb = B.net->get_peer_conn(A.pid);
    MC_ASSERT(ca.get() == A.log.cur() && cb.get() == B.log.cur(), "%s: get_peer_conn() is not the established connection", when);
    MC_ASSERT(ca->get_peer_id() == B.pid && cb->get_peer_id() == A.pid, "%s: the connection has another identity", when);
    MC_ASSERT(A.net->send_msg(MsgData(2, 3), B.pid) && B.net->send_msg(MsgData(2, 3), A.pid), "send refused");
    mc::quiesce();
    mc::Quiet q; MC_ASSERT(A.log.got.size() && A.log.got.back() == 'c' && B.log.got.size() && B.log.got.back() == 'c', "%s: messages do not get through", when);
}
// two nodes find each other by certificate; ids are the hashes of the certificates
void cpeers(long a) {
    int who = a & 3, nw = a >> 2 & 1, dis = a >> 3 & 3;
    tlsx::begin(); rand_init(1);
    {
    CNode A(0, 1000, nw), B(1, 2000, nw);
    A.up(); B.up();
    MC_ASSERT(A.net->get_peer_id() == A.pid && B.net->get_peer_id() == B.pid, "own identity is not the hash of the certificate");
    A.know(B); B.know(A);
    if (who & 2) B.net->conn_peer(A.pid, -1, 0.1);
    if (who & 1) { if ((who & 2) && !dis) mc::anywhen(); A.net->conn_peer(B.pid, -1, 0.1); }
    if (dis) { mc::anywhen(); int i = simos::find_estab(0); if (i >= 0) { if (dis == 1) simos::rst_pair(i); else if (dis == 2) A.net->terminate(A.net->get_peer_conn(B.pid)); else B.net->terminate(B.net->get_peer_conn(A.pid)); } }
    settle(3000);
    mc::outcome("%s %s", A.log.str().c_str(), B.log.str().c_str());
    agree_check(A, B, "at the end");
    MC_ASSERT(simos::nsock_open() == 4, "%d sockets open", simos::nsock_open());
    A.finish(); B.finish();
    }
}
// at B's address somebody else (certificate 2) answers. known: A also knows the owner of certificate 2 (as C, at 3000)
void cimpostor(long a) {
    int known = a & 1, nw = a >> 1 & 1, conn = a >> 2 & 1, swap = a >> 3 & 1;
    tlsx::begin(); rand_init(0);
    {
    CNode A(0, 1000, nw), X(2, 2000, nw);
    PeerId bid = cid(1);
    A.up(); X.up();
    X.know(A);
    A.net->add_peer(bid); A.net->set_peer_addr(bid, lo(2000));
    if (known) { A.net->add_peer(X.pid); A.net->set_peer_addr(X.pid, lo(2000)); }
    if (known && conn) { A.net->conn_peer(X.pid, -1, 0.1); settle(900); }
    mc::quiesce();
    A.net->send_msg(MsgData(5, 3), bid);
    A.net->conn_peer(bid, 3, 0.1);
    if (known && conn == 0 && swap) { mc::anywhen(); A.net->conn_peer(X.pid, -1, 0.1); }
    settle(3000);
    mc::outcome("%s %s", A.log.str().c_str(), X.log.str().c_str());
    A.log.check("A"); X.log.check("X");
    { auto c = A.net->get_peer_conn(bid); MC_ASSERT(c->is_terminated() || c->get_peer_id() != bid, "A is connected with an impostor"); }
    { mc::Quiet q; MC_ASSERT(X.log.got == "", "a message for somebody else was delivered to the impostor"); }
    if (known && (conn || swap)) { MC_ASSERT(A.log.nup() == 1 && X.log.nup() == 1, "the genuine connection is lost: A %s, X %s", A.log.str().c_str(), X.log.str().c_str());
        auto c = A.net->get_peer_conn(X.pid); MC_ASSERT(!c->is_terminated() && c->get_peer_id() == X.pid, "the genuine connection is lost");
        MC_ASSERT(A.net->send_msg(MsgData(1, 3), X.pid), "send refused"); mc::quiesce(); mc::Quiet q; MC_ASSERT(X.log.got == "b", "X received '%s'", X.log.got.c_str()); }
    else if (!known) MC_ASSERT(A.log.n(true) == 0 && X.log.n(true) == 0, "a stranger is connected: A %s, X %s", A.log.str().c_str(), X.log.str().c_str());
    // the real B appears
    X.finish();
    CNode B(1, 2000, nw); B.up(); B.know(A);
    A.net->conn_peer(bid, -1, 0.1);
    settle(1500);
    { auto c = A.net->get_peer_conn(bid); MC_ASSERT(!c->is_terminated() && c->get_peer_id() == bid && B.log.nup() == 1, "the genuine peer is not reached: A %s, B %s", A.log.str().c_str(), B.log.str().c_str()); }
    { mc::Quiet q; MC_ASSERT(B.log.got == "f", "B received '%s'", B.log.got.c_str()); }
    A.finish(); B.finish();
    }
}
// X (certificate 2, not known to A) talks to A and claims to be B's address
void chostile(long a) {
    int nw = a & 1, late = a >> 1 & 1;
    tlsx::begin(); rand_init(0);
    {
    CNode A(0, 1000, nw), B(1, 2000, nw); std::string uc; int nu = 0;
    A.net->reg_unknown_peer_handler([&](const NetAddr &ad, const salticidae::X509 *x) { MC_ASSERT(x, "no certificate"); auto v = x->get_der(); mc::Quiet q; nu++; A.log.unk.push_back(ad); uc.assign((const char *)&v[0], v.size()); });
    A.up(); B.up(); A.know(B); B.know(A);
    B.net->conn_peer(A.pid, -1, 0.1);
    if (late) settle(900);
    mc::anywhen();
    int x = simos::raw_connect(1000); NetAddr cl = lo(2000); int k = mc::choose(5, "item", 0); int port = mc::choose(2, "claims", 0) ? 2000 : 3000;
    {
    tlsx::Raw t(x, false, 2); bool ok = false;
    for (int i = 0; i < 6 && !ok; i++) { ok = t.pump(); mc::quiesce(); }
    t.pump(); mc::quiesce();
    NetAddr ad = lo(port); std::string ab = std::string((const char *)&ad.ip, 4) + std::string((const char *)&ad.port, 2);
    switch (k) {
    case 0: t.write(frame(0xf0, std::string(1, 1) + ab + le32(1))); break;
    case 1: t.write(frame(0xf0, std::string(1, 1) + ab + le32(0xffffffff))); break;
    case 2: t.write(frame(0xf0, std::string(1, 1) + ab + le32(0))); break;
    case 3: t.write(frame(0xf1, std::string(1, 1) + ab + le32(7))); break;
    case 4: t.write(frame(0xf0, std::string(1, 0)) + frame(0xf1, std::string(1, 0))); break;
    }
    mc::quiesce();
    if (k <= 2) { MC_ASSERT(simos::raw_eof(x), "the connection of an unknown peer is not ended"); mc::Quiet q; MC_ASSERT(nu == 1 && A.log.unk[0] == lo(port) && uc == tlsx::der(2), "unknown peer reported %d times", nu); }
    else { mc::Quiet q; MC_ASSERT(nu == 0, "unknown peer reported"); }
    simos::raw_close(x);
    }
    settle(1500);
    if (late) { mc::Quiet q; MC_ASSERT(A.log.str() == "U0" && B.log.str() == "U0", "an established connection is disturbed: A %s, B %s", A.log.str().c_str(), B.log.str().c_str()); }
    agree_check(A, B, "after the intruder left");
    MC_ASSERT(simos::nsock_open() == 4, "%d sockets open", simos::nsock_open());
    A.finish(); B.finish();
    }
}
struct Reg { Reg() {
    static char nm[100];
    for (int nw: {0, 1}) for (int thr: {0, 1}) { snprintf(nm, sizeof nm, "duplex-n%d-t%d", nw + 1, thr); mc::scenario("C19", nm, duplex, nw | thr << 17, netopts(1, 2)); }
    for (int win: {20, 100, 500}) for (int big: {0, 1}) { snprintf(nm, sizeof nm, "duplex-win%d-b%d", win, big); mc::scenario("C19", nm, duplex, win << 1 | big << 18, netopts(1, 2)); }
    for (int sw: {0, 3}) for (int sr: {0, 3}) if (sw || sr) { snprintf(nm, sizeof nm, "duplex-short-w%d-r%d", sw, sr); mc::scenario("C19", nm, duplex, sw << 13 | sr << 15 | 1 << 18, netopts(1, 2)); }
    for (int rej: {1, 2, 3}) for (int nw: {0, 1}) for (int any: {0, 1}) { snprintf(nm, sizeof nm, "approve-r%d-n%d-a%d", rej, nw + 1, any); mc::scenario("C19", nm, approve, nw | rej << 1 | any << 3, netopts(1, 2)); }
    for (int nw: {0, 1}) for (int chunk: {16, 64}) for (int qs: {1, 3}) for (int win: {0, 40}) { snprintf(nm, sizeof nm, "flow-n%d-c%d-q%d-w%d", nw + 1, chunk, qs, win); mc::scenario("C19", nm, flow, nw | chunk << 1 | (chunk == 16 ? 4 : 2) << 8 | qs << 12 | win << 16, netopts(1, 2)); }
    for (int kind = 0; kind < X_N; kind++) for (int nw: {0, 1}) for (int early: {0, 1}) { snprintf(nm, sizeof nm, "intruder-k%d-n%d-e%d", kind, nw + 1, early); mc::scenario("C19", nm, intruder, kind | nw << 4 | early << 5, netopts(early ? 0 : 1, early ? 1 : 2)); }
    for (int kind = 0; kind < 6; kind++) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "badserver-k%d-n%d", kind, nw + 1); mc::scenario("C19", nm, badserver, kind | nw << 3, netopts(1, 2)); }
    for (int op = 0; op < 7; op++) for (int nw: {0, 1}) for (int late: {0, 1}) if (late || op != 5) { snprintf(nm, sizeof nm, "tlsend-o%d-n%d-l%d", op, nw + 1, late); mc::scenario("C19", nm, tls_end, op | nw << 3 | late << 4, netopts(late || (!nw && op < 3) ? 1 : 0, 2)); }
    for (int nw: {0, 1}) for (int who: {0, 1}) for (int cb: {0, 1}) for (int id: {0, 2}) { snprintf(nm, sizeof nm, "verify-n%d-w%d-c%d-i%d", nw + 1, who, cb, id); mc::scenario("C19", nm, verify, nw | who << 1 | cb << 2 | id << 3, netopts(1, 2)); }
    for (int who: {1, 2, 3}) for (int nw: {0, 1}) for (int dis = 0; dis < 4; dis++) { snprintf(nm, sizeof nm, "cpeers-w%d-n%d-d%d", who, nw + 1, dis); mc::scenario("C20", nm, cpeers, who | nw << 2 | dis << 3, netopts(!nw && dis == 0 && who != 3 ? 1 : 0, 1)); }
    for (int known: {0, 1}) for (int nw: {0, 1}) for (int cs = 0; cs < (known ? 3 : 1); cs++) { snprintf(nm, sizeof nm, "cimpostor-k%d-n%d-c%d", known, nw + 1, cs); mc::scenario("C20", nm, cimpostor, known | nw << 1 | (cs == 1) << 2 | (cs == 2) << 3, netopts(cs == 2 ? 0 : 1, cs == 2 ? 1 : 2)); }
    for (int nw: {0, 1}) for (int late: {0, 1}) { snprintf(nm, sizeof nm, "chostile-n%d-l%d", nw + 1, late); mc::scenario("C20", nm, chostile, nw | late << 1, netopts(0, 1)); }
} } reg;
}
