// C24: unknown and misbehaving peers; C25: the peer table and the errors of its calls; C28: heartbeats
#include "p2p.h"
int g_draws, g_enum;
namespace {
void settle(int ms) { for (int i = 0; i < 3; i++) { mc::quiesce(); mc::sleep_ms(ms / 3); } mc::quiesce(); }
std::string addr_bytes(int port) { NetAddr a = lo(port); return std::string((const char *)&a.ip, 4) + std::string((const char *)&a.port, 2); }
enum { PING = 0xf0, PONG = 0xf1 };
std::string hs(int op, int port, uint32_t nonce) { return frame(op, std::string(1, 1) + addr_bytes(port) + le32(nonce)); }
std::string beat(int op) { return frame(op, std::string(1, 0)); }

void agree_check(PNode &A, PNode &B, const char *when, int extra = 0) {
    A.log.check("A"); B.log.check("B");
    MC_ASSERT(A.log.nup() == 1 && B.log.nup() == 1, "%s: %d and %d established connections (A %s, B %s)", when, A.log.nup(), B.log.nup(), A.log.str().c_str(), B.log.str().c_str());
    auto ca = A.net->get_peer_conn(B.pid), cb = B.net->get_peer_conn(A.pid);
    MC_ASSERT(ca.get() == A.log.cur() && cb.get() == B.log.cur(), "%s: get_peer_conn() is not the established connection", when);
    MC_ASSERT(simos::nsock_open() == 4 + extra, "%s: %d sockets open instead of %d", when, simos::nsock_open(), 4 + extra);
    MC_ASSERT(A.net->send_msg(MsgData(2, 3), B.pid) && B.net->send_msg(MsgData(2, 3), A.pid), "send refused");
    mc::quiesce();
    mc::Quiet q; MC_ASSERT(A.log.got.size() && A.log.got.back() == 'c' && B.log.got.size() && B.log.got.back() == 'c', "%s: messages do not get through", when);
}

// ---- C24. X talks to A as it likes, at any point.
struct Item { const char *name; int kind; }; // kind: 0 harmless, 1 claims to be B, 2 claims to be somebody unknown, 3 malformed: the connection ends
std::string item(int k, int *kind) {
    *kind = 0;
    switch (k) {
    case 0: *kind = 2; return hs(PING, 3000, 1);
    case 1: *kind = 1; return hs(PING, 2000, 1);
    case 2: *kind = 1; return hs(PING, 2000, 0xffffffff);
    case 3: return beat(PONG);
    case 4: return hs(PONG, 2000, 5);
    case 5: *kind = 3; return frame(PING, "");
    case 6: *kind = 3; return frame(PING, std::string(1, 1) + addr_bytes(2000));
    case 7: return hs(PING, 2000, 0);           // a manual connection
    case 8: return beat(PING);
    case 9: *kind = 2; return hs(PING, 3000, 0);
    case 10: *kind = 3; return frame(PONG, std::string(1, 1));
    case 11: return frame(77, "xyz");           // an opcode nobody handles
    default: *kind = 1; return hs(PING, 2000, 0xffff);
    }
}
enum { NITEM = 13 };
// who as in p2p.cpp; n items; late: X starts once A and B are connected; from: X connects from B's listening port
void hostile(long a) {
    int who = a & 3, nw = a >> 2 & 1, n = a >> 3 & 3, late = a >> 5 & 1, from = a >> 6 & 1, one = a >> 7 & 15;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up();
    A.know(B); B.know(A);
    auto conn = [&] { if (who & 2) B.net->conn_peer(A.pid, -1, 0.1); if (who & 1) A.net->conn_peer(B.pid, -1, 0.1); };
    if (!from) conn();
    if (late) { settle(900); } 
    if (!from) mc::anywhen();
    int x = simos::raw_connect(1000, from ? 2000 : 0);
    MC_ASSERT(x >= 0, "harness");
    if (from) { mc::quiesce(); conn(); mc::anywhen(); }
    int claims = 0, unknown = 0, bad = 0; std::string in;
    for (int i = 0; i < n; i++) {
        int kind; std::string d = item(i == 0 && one ? one - 1 : mc::choose(NITEM, "item", 0), &kind);
        // after a malformed message or an unknown name the rest is not looked at any more (or may be)
        claims += kind == 1; unknown += kind == 2; bad += kind == 3;
        raw_send_all(x, d, false);
        if (i + 1 < n && mc::choose(2, "pause", 0)) mc::quiesce();
    }
    mc::quiesce();
    in = raw_drain(x);
    if (unknown || bad) MC_ASSERT(simos::raw_eof(x), "the connection of an unknown or misbehaving peer is not ended");
    { mc::Quiet q;
      if (unknown && !bad && !claims) MC_ASSERT(A.log.unknown >= 1, "unknown peer not reported");
      MC_ASSERT(A.log.unknown <= unknown, "unknown peer reported %d times", A.log.unknown);
      for (auto &u: A.log.unk) MC_ASSERT(u == lo(3000), "unknown peer reported with another address"); }
    switch (mc::choose(2, "end", 0)) { case 0: simos::raw_close(x); break; default: simos::raw_rst(x); }
    settle(3000);
    mc::outcome("%s %s %d %zu", A.log.str().c_str(), B.log.str().c_str(), A.log.unknown, in.size());
    { mc::Quiet q; std::string sa = A.log.str();
      if (late && !claims) MC_ASSERT(sa == "U0" && B.log.str() == "U0", "an established connection is disturbed: A %s, B %s", sa.c_str(), B.log.str().c_str());
      MC_ASSERT(!A.log.err || bad, "A: error reported (%d)", A.log.codes[0]); }
    agree_check(A, B, "after the intruder left");
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// A connects to X (peer at 3000), which answers as it likes; A's connection with B is not affected
void impostor(long a) {
    int nw = a & 1, n = a >> 1 & 3;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up();
    A.know(B); B.know(A);
    B.net->conn_peer(A.pid, -1, 0.1);
    settle(900);
    int l = simos::raw_listen(3000); PeerId xid(lo(3000));
    A.net->add_peer(xid); A.net->set_peer_addr(xid, lo(3000));
    int ntry = mc::choose(2, "tries", 0) ? 1 : -1;
    A.net->conn_peer(xid, ntry, 0.1);
    mc::quiesce();
    int x = simos::raw_accept(l); MC_ASSERT(x >= 0, "no connection attempt");
    std::string in = raw_drain(x); bool good = false, bad = false;
    { mc::Quiet q; MC_ASSERT(in.size() == HDR + 11 && (uint8_t)in[4] == PING && in[HDR] == 1 && in.substr(HDR + 1, 6) == addr_bytes(1000), "the handshake does not start with a ping of the own address"); }
    for (int i = 0; i < n; i++) {
        std::string d;
        switch (mc::choose(9, "item", 0)) {
        case 0: d = beat(PONG); break;
        case 1: d = hs(PONG, 3000, 0xffff); good = true; break;
        case 2: d = hs(PONG, 3000, 0); break;      // the other side insists on its own connection
        case 3: d = hs(PONG, 2000, 0xffff); break; // somebody else
        case 4: d = hs(PING, 3000, 1); break;
        case 5: d = frame(PONG, ""); bad = true; break;
        case 6: d = beat(PING); break;
        case 7: d = hs(PING, 2000, 0xffff); break;
        case 8: d = hs(PONG, 3000, 0xffffffff); good = true; break;
        }
        raw_send_all(x, d, false);
        if (i + 1 < n && mc::choose(2, "pause", 0)) mc::quiesce();
    }
    mc::quiesce();
    raw_drain(x);
    int ups = A.log.n(true);
    if (!good) MC_ASSERT(ups == 1, "a peer that did not answer the handshake is reported as connected");
    { mc::Quiet q; MC_ASSERT(ups <= 2, "A: %s", A.log.str().c_str()); }
    switch (mc::choose(3, "end", 0)) { case 0: simos::raw_close(x); break; case 1: simos::raw_rst(x); break; default: simos::raw_close(l); simos::raw_close(x); }
    settle(1000);
    mc::outcome("%s", A.log.str().c_str());
    A.net->del_peer(xid);
    settle(600);
    for (int y; (y = simos::raw_accept(l)) >= 0;) simos::raw_close(y);
    long k = simos::nsys(3);
    settle(900);
    MC_ASSERT(simos::nsys(3) == k, "a removed peer is still being connected to");
    { mc::Quiet q; MC_ASSERT(B.log.str() == "U0", "the connection with another peer is disturbed: B %s", B.log.str().c_str()); int d = 0; const void *c0 = A.log.ev[0].c; for (auto &e: A.log.ev) d += e.c == c0; MC_ASSERT(d == 1, "the connection with another peer is disturbed: A %s", A.log.str().c_str()); }
    A.log.check("A");
    MC_ASSERT(A.net->send_msg(MsgData(2, 3), B.pid) && B.net->send_msg(MsgData(2, 3), A.pid), "send refused");
    mc::quiesce();
    { mc::Quiet q; MC_ASSERT(A.log.got == "c" && B.log.got == "c", "messages do not get through"); }
    MC_ASSERT(simos::nsock_open() == 4, "%d sockets open instead of 4", simos::nsock_open());
    A.finish(); B.finish();
    }
}

// ---- C25: all sequences of calls on the peer table, against a reference model
struct Ref { bool known = false, addr = false, conn = false; int nconn = 0; std::string sent; };
// who: B also connects to A; check: the table is read back after every call
void table(long a) {
    int nw = a & 1, n = a >> 1 & 7, check = a >> 4 & 1, any = a >> 5 & 1, pre = a >> 6 & 3;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up(); B.know(A);
    PeerId pid[2] = {B.pid, PeerId(lo(3000))}; NetAddr ad[2] = {lo(2000), lo(3000)};
    Ref m[2]; std::map<int, int> want; int nid = 0, churn = 0, last = -1; std::string all;
    auto expect = [&](int id, int code) { mc::Quiet q; MC_ASSERT(id > last, "the identifiers of two calls are not different (%d, %d)", last, id); last = id; if (code) want[id] = code; };
    auto readback = [&] {
        for (int i = 0; i < 2; i++) {
            bool h = A.net->has_peer(pid[i]); MC_ASSERT(h == m[i].known, "has_peer() = %d", h);
            int r = 0; try { auto c = A.net->get_peer_conn(pid[i]); MC_ASSERT(c, "no connection object"); r = 1; } catch (const PeerNetworkError &e) { r = e.get_code() == SALTI_ERROR_PEER_NOT_EXIST ? 0 : 2; }
            MC_ASSERT(r == (int)m[i].known, "get_peer_conn(): %d", r);
        } };
    static const int pres[4][7] = {{-1}, {0, 2, -1}, {0, 2, 4, -1}, {0, 2, 1, 3, 5, 4, -1}}; // start states: B known, B connected, both
    int np = 0; while (pres[pre][np] >= 0) np++;
    n += np;
    for (int s = 0; s < n; s++) {
        if (s == np && pre) settle(600);
        int op = s < np ? pres[pre][s] : mc::choose(13, "op", 0), i = op & 1; Ref &r = m[i];
        if (any && s == n - 1) { mc::anywhen(); }
        int miss = SALTI_ERROR_PEER_NOT_EXIST;
        switch (op >> 1) {
        case 0: expect(A.net->add_peer(pid[i]), r.known ? SALTI_ERROR_PEER_ALREADY_EXISTS : 0); if (!r.known) { mc::Quiet q; r = Ref(); r.known = true; } break;
        case 1: expect(A.net->set_peer_addr(pid[i], ad[i]), r.known ? 0 : miss); if (r.known) r.addr = true; break;
        case 2: expect(A.net->conn_peer(pid[i], -1, 0.1), !r.known ? miss : r.addr ? 0 : SALTI_ERROR_PEER_NOT_READY); if (r.known && r.addr) { r.conn = true; r.nconn++; } break;
        case 3: expect(A.net->del_peer(pid[i]), r.known ? 0 : miss); { mc::Quiet q; if (!i && r.known && r.nconn) churn++; r = Ref(); } break;
        case 4: { int id = nid++; expect(A.net->send_msg_deferred(MsgData(id, 4), pid[i]), r.known ? 0 : miss); mc::Quiet q; if (r.known) r.sent += char('a' + id); break; }
        case 5: { // the direct call: the table is changed asynchronously, let it settle
            mc::quiesce(); int id = nid++, res = 0; try { res = A.net->send_msg(MsgData(id, 4), pid[i]); } catch (const PeerNetworkError &e) { res = e.get_code() == miss ? -1 : -2; }
            MC_ASSERT(res == (r.known ? 1 : -1), "send_msg() = %d", res); mc::Quiet q; if (r.known) r.sent += char('a' + id); break; }
        case 6: { int id = nid++; expect(A.net->multicast_msg(MsgData(id, 4), {pid[0], pid[1]}), m[0].known && m[1].known ? 0 : miss); mc::Quiet q; if (m[0].known) m[0].sent += char('a' + id); break; }
        }
        { mc::Quiet q; all = m[0].sent; }
        if (check) readback();
    }
    readback();
    settle(600);
    readback();
    { mc::Quiet q; std::map<int, int> got; int extra = 0;
      for (auto &e: A.log.calls) { extra += got.count(e.first); got[e.first] = e.second; }
      MC_ASSERT(!extra && got == want, "%zu errors reported (%d twice) instead of %zu", got.size(), extra, want.size());
      std::string g = B.log.got; int r0 = m[0].conn;
      if (m[0].conn && m[0].nconn == 1) { MC_ASSERT(g.size() >= m[0].sent.size() && g.substr(g.size() - m[0].sent.size()) == m[0].sent, "B received '%s', '%s' was sent", g.c_str(), m[0].sent.c_str()); if (!churn) MC_ASSERT(g == m[0].sent, "B received '%s', '%s' was sent", g.c_str(), m[0].sent.c_str()); }
      for (size_t k = 1; k < g.size(); k++) MC_ASSERT(g[k - 1] < g[k], "B received '%s'", g.c_str()); }
    if (m[0].conn) { auto c = A.net->get_peer_conn(pid[0]); MC_ASSERT(!c->is_terminated() && B.log.nup() == 1 && simos::estab_count() == 1, "not connected (%d)", simos::estab_count());
        MC_ASSERT(c->get_peer_id() == pid[0] && c->get_peer_addr() == ad[0], "the connection does not know its peer"); }
    else MC_ASSERT(simos::estab_count() == 0 && B.log.nup() == 0, "%d connections", simos::estab_count());
    A.log.check("A"); B.log.check("B");
    mc::outcome("%s %s %d", A.log.str().c_str(), B.log.got.c_str(), (int)want.size());
    // remove everything: nothing goes on
    for (int i = 0; i < 2; i++) if (m[i].known) expect(A.net->del_peer(pid[i]), 0);
    mc::quiesce(); long k = simos::nsys(3);
    settle(600);
    MC_ASSERT(simos::nsys(3) == k, "a removed peer is still being connected to");
    MC_ASSERT(simos::estab_count() == 0, "the connection of a removed peer is still there");
    MC_ASSERT(A.net->get_npending() == 0, "pending connections");
    // and the peer can be added again
    expect(A.net->add_peer(pid[0]), 0); expect(A.net->set_peer_addr(pid[0], ad[0]), 0); expect(A.net->conn_peer(pid[0], 1, 0.1), 0);
    settle(600);
    MC_ASSERT(!A.net->get_peer_conn(pid[0])->is_terminated() && B.log.nup() == 1, "a peer added again is not reached");
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// B is removed and added again at any point while another thread uses it
void churn(long a) {
    int nw = a & 1, late = a >> 1 & 1, kind = a >> 2 & 3;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up(); A.know(B); B.know(A);
    A.net->conn_peer(B.pid, -1, 0.1);
    if (late) settle(600);
    std::string sent;
    std::thread t([&] { mc::anywhen(300);
        for (int i = 0; i < 2; i++) {
            int r;
            try { if (kind == 0) r = A.net->send_msg(MsgData(i, 4), B.pid); else if (kind == 1) { A.net->send_msg_deferred(MsgData(i, 4), B.pid); r = 1; } else { auto c = A.net->get_peer_conn(B.pid); r = c ? 1 : 0; if (kind == 3) { bool z = c->get_peer_id() == PeerId(); r = A.net->send_msg(MsgData(i, 4), c); } } }
            catch (const PeerNetworkError &e) { r = e.get_code() == SALTI_ERROR_PEER_NOT_EXIST ? 1 : -2; }
            MC_ASSERT(r == 1, "a call on a peer that is being removed: %d", r);
        } });
    mc::anywhen();
    A.net->del_peer(B.pid);
    mc::quiesce();
    MC_ASSERT(!A.net->has_peer(B.pid), "the peer is not removed");
    A.know(B); A.net->conn_peer(B.pid, -1, 0.1);
    mc::sleep_ms(300);
    t.join();
    settle(900);
    mc::outcome("%s %s %s", A.log.str().c_str(), B.log.str().c_str(), B.log.got.c_str());
    { mc::Quiet q; std::string g = B.log.got; MC_ASSERT(g == "" || g == "a" || g == "b" || g == "ab", "B received '%s'", g.c_str()); A.log.check("A"); B.log.check("B"); }
    MC_ASSERT(!A.net->get_peer_conn(B.pid)->is_terminated() && B.log.nup() == 1 && simos::estab_count() == 1, "a peer added again is not reached: %d connections", simos::estab_count());
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// a peer is removed at any point of a handshake: its connections are ended at once, and no attempt follows.
// dir: bit0 A connects to X, bit1 X connects to A; what X sends on the connection of A: 0 nothing, 1 a part of the answer, 2 an acceptable answer, 3 a heartbeat, 4 "use my connection"
void delmute(long a) {
    int dir = a & 3, what = a >> 2 & 7, nw = a >> 5 & 1;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1, 30, 60), 1000); A.up();
    PeerId xid(lo(2000)); A.net->add_peer(xid); A.net->set_peer_addr(xid, lo(2000));
    int l = simos::raw_listen(2000); std::vector<int> xs;
    auto take = [&] { for (int y; (y = simos::raw_accept(l)) >= 0;) xs.push_back(y); };
    if (dir & 1) A.net->conn_peer(xid, -1, 10);
    std::thread t([&] {
        mc::anywhen(400);
        A.net->del_peer(xid);
    });
    if (dir & 2) { if (dir & 1) mc::quiesce(); int x = simos::raw_connect(1000); MC_ASSERT(x >= 0, "harness"); raw_send_all(x, hs(PING, 2000, what == 2 ? 0xffffffff : 3), false); xs.push_back(x); }
    mc::quiesce(); take();
    std::string d;
    switch (what) { case 1: d = hs(PONG, 2000, 0xffff).substr(0, 17); break; case 2: d = hs(PONG, 2000, 0xffff); break; case 3: d = beat(PONG); break; case 4: d = hs(PONG, 2000, 0); break; }
    if (dir & 1 && d.size() && xs.size() && simos::raw_open(xs.back())) raw_send_all(xs.back(), d, false);
    mc::quiesce(); take();
    mc::sleep_ms(400); t.join(); mc::quiesce(); take();
    MC_ASSERT(!A.net->has_peer(xid), "the peer is not removed");
    for (int x: xs) { raw_drain(x); MC_ASSERT(simos::raw_eof(x), "a removed peer is still connected"); }
    MC_ASSERT(simos::nsock_open() <= 2 + (int)xs.size(), "%d sockets open", simos::nsock_open());
    long k = simos::nsys(3); settle(25000); take();
    MC_ASSERT(simos::nsys(3) == k, "a removed peer is still being connected to");
    A.log.check("A"); MC_ASSERT(A.log.nup() <= 1, "A: %s", A.log.str().c_str()); for (int e: A.log.codes) MC_ASSERT(e == SALTI_ERROR_PEER_NOT_MATCH, "error %d reported", e); // (an attempt completed after the removal)
    mc::outcome("%s %zu", A.log.str().c_str(), xs.size());
    MC_ASSERT(A.net->get_npending() == 0, "pending connections");
    A.finish();
    }
}
// pending connections are counted; the address of a peer changes while A connects to it
void pending(long a) {
    int nw = a & 1, n = a >> 1;
    rand_init(0);
    {
    auto c = pcfg(nw + 1, 1, 2);
    PNode A(c, 1000); A.up();
    std::vector<int> x;
    for (int i = 0; i < n; i++) { x.push_back(simos::raw_connect(1000)); if (i % 16 == 15) mc::quiesce(); }
    mc::quiesce();
    size_t k = A.net->get_npending();
    MC_ASSERT(k == (size_t)n, "%zu pending connections instead of %d", k, n);
    if (n) { simos::raw_close(x[0]); mc::quiesce(); k = A.net->get_npending(); MC_ASSERT(k == (size_t)n - 1, "%zu pending connections instead of %d", k, n - 1); }
    settle(6000);
    k = A.net->get_npending();
    MC_ASSERT(k == 0 && simos::nsock_open() == 1, "%zu connections without a handshake are still pending after the timeout, %d sockets", k, simos::nsock_open());
    A.finish();
    }
}
void moving(long a) {
    int nw = a & 1, back = a >> 1 & 1, peer = a >> 2 & 1;
    rand_init(0);
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up();
    A.know(B); B.know(A);
    A.net->conn_peer(B.pid, -1, 0.1);
    mc::anywhen();
    A.net->set_peer_addr(B.pid, peer ? lo(3000) : NetAddr());
    if (back) { mc::anywhen(300); A.net->set_peer_addr(B.pid, B.addr); mc::sleep_ms(300); }
    settle(900);
    A.log.check("A"); B.log.check("B");
    MC_ASSERT(A.log.nup() <= 1 && B.log.nup() <= 1, "A %s, B %s", A.log.str().c_str(), B.log.str().c_str());
    mc::outcome("%s %s", A.log.str().c_str(), B.log.str().c_str());
    A.net->set_peer_addr(B.pid, B.addr);
    A.net->conn_peer(B.pid, -1, 0.1);
    settle(1500);
    agree_check(A, B, "at the right address again");
    A.finish(); B.finish();
    }
}

// ---- C28: heartbeats
// mode 0: an idle connection stays; 1, 2: the network is cut (and heals); 3: both idle, timers at any time; 4 messages in between
void beats(long a) {
    int mode = a & 7, nw = a >> 3 & 1, who = a >> 4 & 3;
    rand_init(0);
    {
    auto c = pcfg(nw + 1, 1, 3);
    PNode A(c, 1000), B(c, 2000);
    A.up(); B.up();
    A.know(B); B.know(A);
    if (who & 2) B.net->conn_peer(A.pid, -1, 0.5);
    if (who & 1) A.net->conn_peer(B.pid, -1, 0.5);
    settle(600);
    std::string a0, b0; { mc::Quiet q; a0 = A.log.str(); b0 = B.log.str(); }
    if (mode == 3) { simos::cfg().early_timers = true; simos::cfg().early_ms = 1000; } // together less than the timeout
    if (mode != 2) for (int i = 0; i < (mode == 3 ? 4 : 10); i++) { mc::sleep_ms(1000); if (mode == 4) { A.net->send_msg(MsgData(i & 7, 4), B.pid); } mc::quiesce(); }
    else mc::anywhen(1500), mc::sleep_ms(1500);
    if (mode == 0 || mode == 3 || mode == 4 || mode == 1) {
        mc::Quiet q; MC_ASSERT(A.log.nup() == 1 && B.log.nup() == 1 && A.log.str() == a0 && B.log.str() == b0, "an idle connection is not kept: A %s, then %s, B %s, then %s", a0.c_str(), A.log.str().c_str(), b0.c_str(), B.log.str().c_str());
    }
    if (mode == 1 || mode == 2) {
        bool was = A.log.nup() == 1 && B.log.nup() == 1;
        simos::partition(true); uint64_t t0 = mc::now();
        for (int i = 0; i < 7; i++) { mc::sleep_ms(1000); mc::quiesce(); }
        MC_ASSERT(A.log.nup() == 0 && B.log.nup() == 0, "a dead connection is still regarded as established after 7 s (timeout 3 s): A %s, B %s", A.log.str().c_str(), B.log.str().c_str());
        if (was) { mc::Quiet q; for (PNode *N: {&A, &B}) for (auto &e: N->log.ev) if (!e.up && e.t >= t0) MC_ASSERT(e.t - t0 <= 5000, "noticed after %d ms", (int)(e.t - t0)); }
        simos::partition(false);
        settle(9000);
        agree_check(A, B, "after the network healed");
    } else agree_check(A, B, "at the end");
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// a scripted peer: answers n heartbeats and falls silent (how 0), closes the reading side (1), or goes on without answering pings but sending data (2)
void silent(long a) {
    int n = a & 7, how = a >> 3 & 3, nw = a >> 5 & 1;
    rand_init(0);
    {
    auto c = pcfg(nw + 1, 1, 3);
    PNode A(c, 1000); A.up();
    PeerId xid(lo(2000)); A.net->add_peer(xid);
    int x = simos::raw_connect(1000);
    raw_send_all(x, hs(PING, 2000, 1));
    mc::quiesce();
    std::string in; int pings = 0; size_t pos = 0; uint64_t last = mc::now();
    MC_ASSERT(A.log.n(true) == 1, "not connected");
    for (int t = 0; t < (n + 1) * 2 + 8; t++) {
        in += raw_drain(x);
        for (; pos + HDR <= in.size();) { uint32_t len; memcpy(&len, in.data() + pos + 5, 4); if (pos + HDR + len > in.size()) break;
            if ((uint8_t)in[pos + 4] == PING && len == 1) { if (pings < n) { raw_send_all(x, beat(PONG), false); last = mc::now(); } pings++; }
            pos += HDR + len; }
        if (how == 2 && !simos::raw_eof(x)) raw_send_all(x, dframe(1, 3), false);
        if (how == 1 && !simos::raw_eof(x)) raw_send_all(x, beat(PING), false);
        mc::quiesce(); mc::sleep_ms(500); mc::quiesce();
        if (pings <= n && t < n * 2) MC_ASSERT(!simos::raw_eof(x), "a peer that answers is dropped after %d heartbeats", pings);
        if (simos::raw_eof(x)) break;
    }
    { mc::Quiet q; MC_ASSERT(pings >= n, "only %d heartbeats", pings); MC_ASSERT(pings <= n + 1, "%d heartbeats sent without an answer", pings - n);
      MC_ASSERT(A.log.str() == "U0D0", "A: %s", A.log.str().c_str());
      uint64_t d = A.log.ev[1].t - last; MC_ASSERT(d <= 5000 && d >= 2500, "a silent peer is dropped %d ms after its last answer (timeout 3 s)", (int)d); }
    MC_ASSERT(simos::raw_eof(x), "the connection of a silent peer is not ended");
    A.finish();
    }
}
// a remote that never completes the handshake; dir 0: it connects to A, 1: A connects to it; what: it sends 0 nothing, 1 half a ping, 2 heartbeats, 3 data, 4 answers to heartbeats
void mute(long a) {
    int dir = a & 1, what = a >> 1 & 7, nw = a >> 4 & 1;
    rand_init(0);
    {
    auto c = pcfg(nw + 1, 1, 2);
    PNode A(c, 1000), B(c, 3000); A.up(); B.up(); A.know(B); B.know(A);
    PeerId xid(lo(2000)); A.net->add_peer(xid); A.net->set_peer_addr(xid, lo(2000));
    A.net->conn_peer(B.pid, -1, 0.1);
    settle(300);
    int l = dir ? simos::raw_listen(2000) : -1;
    if (dir) A.net->conn_peer(xid, -1, 10); // (a retry while the attempt is pending supersedes it)
    for (int round = 0; round < 2; round++) {
        mc::quiesce();
        for (int i = 0; i < 40 && dir && !simos::raw_pending(l); i++) { mc::sleep_ms(500); mc::quiesce(); }
        int x = dir ? simos::raw_accept(l) : simos::raw_connect(1000);
        MC_ASSERT(x >= 0, "no connection attempt");
        mc::quiesce(); uint64_t t0 = mc::now();
        if (what == 1) raw_send_all(x, hs(PING, 2000, 1).substr(0, 15), false);
        for (;;) {
            if (what == 2) raw_send_all(x, beat(PING), false);
            if (what == 3) raw_send_all(x, dframe(1, 3), false);
            if (what == 4) raw_send_all(x, beat(PONG), false);
            mc::sleep_ms(250); mc::quiesce(); raw_drain(x);
            uint64_t t = mc::now() - t0;
            if (simos::raw_eof(x)) { MC_ASSERT(t >= 1500, "a connection is given up after %d ms (timeout 2 s)", (int)t); break; }
            MC_ASSERT(t <= 3500, "a remote that does not complete the handshake is still connected after %d ms (timeout 2 s)", (int)t);
        }
        simos::raw_close(x);
    }
    { mc::Quiet q; MC_ASSERT(A.log.str() == "U0" || A.log.str().substr(0, 2) == "U0", "A: %s", A.log.str().c_str()); MC_ASSERT(A.log.n(true) == 1, "a remote that does not complete the handshake is reported as connected: %s", A.log.str().c_str());
      MC_ASSERT(B.log.str() == "U0", "the connection with another peer is disturbed: %s", B.log.str().c_str()); }
    MC_ASSERT(A.net->get_npending() == 0, "pending connections");
    mc::outcome("%s", A.log.str().c_str());
    A.finish(); B.finish();
    }
}
struct Reg { Reg() {
    static char nm[100];
    for (int who: {1, 2, 3}) for (int nw: {0, 1}) for (int late: {0, 1}) {
        snprintf(nm, sizeof nm, "hostile1-w%d-n%d-l%d", who, nw + 1, late); mc::scenario("C24", nm, hostile, who | nw << 2 | 1 << 3 | late << 5, netopts(late ? 1 : 0, 1));
    }
    for (int who: {1, 2}) for (int nw: {0, 1}) for (int late: {0, 1}) {
        snprintf(nm, sizeof nm, "hostile2-w%d-n%d-l%d", who, nw + 1, late); mc::scenario("C24", nm, hostile, who | nw << 2 | 2 << 3 | late << 5, [&] { auto o = netopts(0, late ? 1 : 0); o.thorough_only = !late; return o; }());
    }
    for (int who: {1, 2, 3}) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "hostile-from-w%d-n%d", who, nw + 1); mc::scenario("C24", nm, hostile, who | nw << 2 | 1 << 3 | 1 << 6, netopts(0, 1)); }
    for (int n: {1, 2}) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "impostor%d-n%d", n, nw + 1); mc::scenario("C24", nm, impostor, nw | n << 1, netopts(n == 1 ? 1 : 0, n == 1 ? 2 : 1)); }
    for (int dir: {0, 1}) for (int what = 0; what < 5; what++) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "mute-d%d-s%d-n%d", dir, what, nw + 1); mc::scenario("C24", nm, mute, dir | what << 1 | nw << 4, netopts(1, 2)); }
    for (int pre = 0; pre < 4; pre++) for (int nw: {0, 1}) for (int ck: {0, 1}) {
        snprintf(nm, sizeof nm, "table3-p%d-n%d-c%d", pre, nw + 1, ck); mc::scenario("C25", nm, table, nw | 3 << 1 | ck << 4 | pre << 6, netopts(0, 1));
        snprintf(nm, sizeof nm, "table1-p%d-n%d-c%d", pre, nw + 1, ck); mc::scenario("C25", nm, table, nw | 1 << 1 | ck << 4 | pre << 6, netopts(1, 2));
        auto o = netopts(0, 0); o.thorough_only = true; auto o1 = o; o1.bound_thorough = 1;
        snprintf(nm, sizeof nm, "table2-p%d-n%d-c%d", pre, nw + 1, ck); mc::scenario("C25", nm, table, nw | 2 << 1 | ck << 4 | pre << 6, o1);
        snprintf(nm, sizeof nm, "table5-p%d-n%d-c%d", pre, nw + 1, ck); mc::scenario("C25", nm, table, nw | 5 << 1 | ck << 4 | pre << 6, o);
    }
    for (int pre = 0; pre < 4; pre++) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "table-any2-p%d-n%d", pre, nw + 1); mc::scenario("C25", nm, table, nw | 2 << 1 | 1 << 5 | pre << 6, netopts(0, 1)); }
    for (int kind = 0; kind < 4; kind++) for (int nw: {0, 1}) for (int late: {0, 1}) { snprintf(nm, sizeof nm, "churn-k%d-n%d-l%d", kind, nw + 1, late); mc::scenario("C25", nm, churn, nw | late << 1 | kind << 2, netopts(late, 1)); }
    for (int dir: {1, 2, 3}) for (int what = 0; what < 5; what++) for (int nw: {0, 1}) { if (dir == 2 && what && what != 2) continue; snprintf(nm, sizeof nm, "delmute-d%d-s%d-n%d", dir, what, nw + 1); mc::scenario("C25", nm, delmute, dir | what << 2 | nw << 5, netopts(1, 2)); }
    for (int nw: {0, 1}) for (int n: {0, 1, 3, 257}) { snprintf(nm, sizeof nm, "pending%d-n%d", n, nw + 1); auto o = netopts(n < 20 ? 1 : 0, n < 20 ? 2 : 0); o.horizon = 600000; mc::scenario("C25", nm, pending, nw | n << 1, o); }
    for (int nw: {0, 1}) for (int back: {0, 1}) for (int p: {0, 1}) { snprintf(nm, sizeof nm, "moving-b%d-p%d-n%d", back, p, nw + 1); mc::scenario("C25", nm, moving, nw | back << 1 | p << 2, netopts(back ? 0 : 1, back ? 1 : 2)); }
    for (int mode = 0; mode < 5; mode++) for (int nw: {0, 1}) for (int who: {1, 3}) { snprintf(nm, sizeof nm, "beats-m%d-n%d-w%d", mode, nw + 1, who); mc::scenario("C28", nm, beats, mode | nw << 3 | who << 4, netopts(mode == 3 ? 2 : 1, 2)); }
    for (int n: {0, 1, 3}) for (int how = 0; how < 3; how++) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "silent-a%d-h%d-n%d", n, how, nw + 1); mc::scenario("C28", nm, silent, n | how << 3 | nw << 5, netopts(1, 2)); }
} } reg;
}
