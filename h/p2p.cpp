// C21: two peers agree on exactly one connection; C22: retry and reconnection; C23: messages to a peer
#include "p2p.h"
int g_draws, g_enum;
namespace {
void settle(int ms) { for (int i = 0; i < 3; i++) { mc::quiesce(); mc::sleep_ms(ms / 3); } mc::quiesce(); }

void agree_check(PNode &A, PNode &B, const char *when) {
    A.log.check("A"); B.log.check("B");
    MC_ASSERT(A.log.nup() == 1 && B.log.nup() == 1, "%s: %d and %d established connections (A %s, B %s)", when, A.log.nup(), B.log.nup(), A.log.str().c_str(), B.log.str().c_str());
    auto ca = A.net->get_peer_conn(B.pid), cb = B.net->get_peer_conn(A.pid);
    MC_ASSERT(ca.get() == A.log.cur() && cb.get() == B.log.cur(), "%s: get_peer_conn() is not the established connection", when);
    MC_ASSERT(!ca->is_terminated() && !cb->is_terminated(), "%s: the connection is terminated", when);
    MC_ASSERT(ca->get_mode() != cb->get_mode(), "%s: both sides have the same mode", when);
    MC_ASSERT(simos::nsock_open() == 4, "%s: %d sockets open instead of 4", when, simos::nsock_open());
    MC_ASSERT(ca->get_peer_id() == B.pid && cb->get_peer_id() == A.pid, "%s: peer id of the connection", when);
}
// who: bit0 A calls conn_peer, bit1 B calls conn_peer. mode: bit0 A does not know B's address (only B connects), bit1 at any point, bit2 messages
void agree(long a) {
    int who = a & 3, nw = a >> 2 & 1, en = a >> 3 & 7, mode = a >> 6 & 15;
    rand_init(en);
    if (mode & 8) { simos::cfg().early_timers = true; simos::cfg().early_ms = 150; }
    {
    PNode A(pcfg(nw + 1), 1000), B(pcfg(nw + 1), 2000);
    A.up(); B.up();
    A.know(B, !(mode & 1)); B.know(A);
    if (mode & 4) { for (int i = 0; i < 2; i++) { A.net->send_msg_deferred(MsgData(i, 5), B.pid); B.net->send_msg_deferred(MsgData(i, 7), A.pid); } }
    std::thread t;
    if (who & 2) t = std::thread([&] { if (mode & 2) mc::anywhen(); B.net->conn_peer(A.pid, -1, 0.1); });
    if (who & 1) A.net->conn_peer(B.pid, -1, 0.1);
    if (t.joinable()) t.join();
    settle(1500);
    agree_check(A, B, "after conn_peer");
    MC_ASSERT(A.net->send_msg(MsgData(2, 3), B.pid) && B.net->send_msg(MsgData(2, 3), A.pid), "send refused");
    mc::quiesce();
    mc::outcome("%s %s", A.log.str().c_str(), B.log.str().c_str());
    // whatever is in flight on a connection that is given up in favour of another one may be lost, nothing else
    auto fine = [&](const std::string &g) { return g == "abc" || (!(mode & 4) && g == "c") || (mode & 4 && who == 3 && (g == "bc" || g == "ac" || g == "c")); };
    { mc::Quiet q; MC_ASSERT(fine(A.log.got) && fine(B.log.got), "messages: A got '%s', B got '%s'", A.log.got.c_str(), B.log.got.c_str()); }
    A.finish(); B.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}

// ---- C22: the connection breaks at any point; the peers find each other again.
// how: 8 B makes one attempt which is reset; 9, 10 only one end sees the reset; 11, 12 and the next connection is reset, too; 13 the peer that sees the reset makes one attempt which is reset; 0 reset by the network, 1 A terminates its connection, 2 B does, 3 both, 4 B restarts, 5 A calls conn_peer again, 6 both do, 7 reset twice
void recover(long a) {
    int who = a & 3, nw = a >> 2 & 1, en = a >> 3 & 7, how = a >> 6 & 7, late = a >> 9 & 1, early = a >> 10 & 1;
    if (a >> 11 & 1) how += 8;
    rand_init(en);
    if (early) { simos::cfg().early_timers = true; simos::cfg().early_ms = 150; }
    {
    auto c = how >= 9 ? pcfg(nw + 1, 1, 2) : pcfg(nw + 1);
    PNode A(c, 1000); PNode *B = new PNode(c, 2000);
    A.up(); B->up();
    A.know(*B); B->know(A);
    if (who & 2) B->net->conn_peer(A.pid, -1, 0.1);
    if (who & 1) A.net->conn_peer(B->pid, -1, 0.1);
    if (late) settle(900);
    auto term = [](PNode &N, PNode &o) { auto c = N.net->get_peer_conn(o.pid); N.net->terminate(c); };
    auto rst = [] { int i = simos::find_estab(0); if (i >= 0) simos::rst_pair(i); };
    std::thread t;
    if (how == 3 || how == 6) t = std::thread([&] { mc::anywhen(how == 11 || how == 12 ? 2500 : 400); if (how == 3) { if (!B->net->get_peer_conn(A.pid)->is_terminated()) term(*B, A); } else B->net->conn_peer(A.pid, -1, 0.1); });
    if (how == 8 || how >= 11) t = std::thread([&] { mc::anywhen(how == 11 || how == 12 ? 2500 : 400); int n = simos::estab_count(); if (n > 0) simos::rst_pair(simos::find_estab(n - 1)); });
    if (how == 7) t = std::thread([&] { mc::anywhen(how == 11 || how == 12 ? 2500 : 400); int i = simos::find_estab(1); if (i < 0) i = simos::find_estab(0); if (i >= 0) simos::rst_pair(i); });
    mc::anywhen();
    switch (how) {
    case 0: case 7: rst(); break;
    case 1: case 3: if (!A.net->get_peer_conn(B->pid)->is_terminated()) term(A, *B); break;
    case 2: if (!B->net->get_peer_conn(A.pid)->is_terminated()) term(*B, A); break;
    case 4: B->stop_loop(); B->log.keep.clear(); B->destroy(); delete B; B = new PNode(c, 2000); B->up(); B->know(A); if (who & 2) B->net->conn_peer(A.pid, -1, 0.1); break;
    case 5: case 6: A.net->conn_peer(B->pid, -1, 0.1); break;
    case 8: B->net->conn_peer(A.pid, 1, 0.1); break;
    case 13: { int i = simos::find_estab(0); if (i >= 0) { simos::rst_half(i, true); mc::quiesce(); } B->net->conn_peer(A.pid, 1, 0.1); break; }
    case 9: case 10: case 11: case 12: { int i = simos::find_estab(0); if (i >= 0) simos::rst_half(i, how & 1); break; }
    }
    if (t.joinable()) { mc::sleep_ms(how == 11 || how == 12 ? 2500 : 400); t.join(); }
    settle(how >= 9 ? 8000 : 3000);
    agree_check(A, *B, "after recovery");
    MC_ASSERT(A.net->send_msg(MsgData(2, 3), B->pid) && B->net->send_msg(MsgData(2, 3), A.pid), "send refused");
    mc::quiesce();
    mc::outcome("%s %s", A.log.str().c_str(), B->log.str().c_str());
    { mc::Quiet q; MC_ASSERT(A.log.got == "c" && B->log.got == "c", "messages: A got '%s', B got '%s'", A.log.got.c_str(), B->log.got.c_str()); }
    A.finish(); B->finish();
    delete B;
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// the number of attempts. kind 0: nobody listens, 1: silence; n attempts (-1: unlimited, then stopped by conn_peer(0))
void attempts(long a) {
    int kind = a & 1, n = (int)(a >> 1 & 7) - 1, nw = a >> 4 & 1;
    rand_init(0);
    {
    PeerNet::Config c = pcfg(nw + 1); c.conn_server_timeout(0.05);
    PNode A(c, 1000);
    if (kind) simos::blackhole(2000);
    A.up();
    PeerId pid(lo(2000));
    A.net->add_peer(pid); A.net->set_peer_addr(pid, lo(2000));
    A.net->conn_peer(pid, n, 0.1);
    settle(2000);
    long k = simos::nsys(3);
    if (n >= 0) MC_ASSERT(k == n, "%ld attempts to connect instead of %d", k, n);
    else {
        MC_ASSERT(k >= 5, "only %ld attempts in 2 s", k);
        A.net->conn_peer(pid, 0);
        mc::quiesce(); k = simos::nsys(3);
        settle(2000);
        MC_ASSERT(simos::nsys(3) == k, "attempts go on after giving up");
    }
    MC_ASSERT(A.log.n(true) == 0, "a peer that cannot be reached is reported as connected");
    A.log.check("A");
    MC_ASSERT(simos::nsock_open() == 1, "%d sockets open", simos::nsock_open());
    // the peer appears: a new call finds it
    if (!kind) {
        PNode B(pcfg(), 2000); B.up(); B.know(A);
        A.net->conn_peer(B.pid, 1, 0.1);
        settle(1000);
        agree_check(A, B, "after the peer appears");
        B.finish();
    }
    A.finish();
    }
}
// a peer that was reached and lost gets its tries again (the connection counts as the first). The first k attempts are reset (how 0) or closed by the remote (1), the next one
// succeeds; the established connection is reset (end 0) or closed (1) while nobody listens any more (2: the peer is back for the last attempt).
std::string addr_bytes(int port) { NetAddr a = lo(port); return std::string((const char *)&a.ip, 4) + std::string((const char *)&a.port, 2); }
std::string pong(int port) { return frame(0xf1, std::string(1, 1) + addr_bytes(port) + le32(0xffff)); }
void again(long a) {
    int n = a & 3, k = a >> 2 & 3, how = a >> 4 & 1, end = a >> 5 & 3, nw = a >> 7 & 1;
    rand_init(0);
    {
    PeerNet::Config c = pcfg(nw + 1); c.conn_server_timeout(0.05);
    PNode A(c, 1000); A.up();
    PeerId pid(lo(2000)); A.net->add_peer(pid); A.net->set_peer_addr(pid, lo(2000));
    int l = simos::raw_listen(2000);
    A.net->conn_peer(pid, n, 0.1);
    auto next = [&] { mc::quiesce(); for (int i = 0; i < 20 && !simos::raw_pending(l); i++) { mc::sleep_ms(50); mc::quiesce(); } return simos::raw_accept(l); };
    for (int round = 0; round < 2; round++) {
        int x;
        for (int i = 0; i < k - round; i++) { x = next(); MC_ASSERT(x >= 0, "only %d of %d attempts", i, n); how ? simos::raw_close(x) : simos::raw_rst(x); }
        x = next(); MC_ASSERT(x >= 0, "only %d of %d attempts", k, n);
        raw_drain(x); raw_send_all(x, pong(2000), false); mc::quiesce();
        MC_ASSERT(A.log.nup() == 1, "not connected: %s", A.log.str().c_str());
        bool last = round == 1 || end < 2;
        if (last) simos::raw_close(l);
        long s = simos::nsys(3);
        end & 1 ? simos::raw_close(x) : simos::raw_rst(x);
        if (last) {
            settle(2000);
            long got = simos::nsys(3) - s;
            MC_ASSERT(got == n - 1, "a lost peer gets %ld further attempts to connect instead of %d", got, n - 1);
            break;
        }
    }
    A.log.check("A"); MC_ASSERT(A.log.nup() == 0, "a lost peer is still reported as connected");
    mc::outcome("%s", A.log.str().c_str());
    A.finish();
    }
}

// ---- C23: messages to a peer survive reconnections.
// Every accepted message arrives at most once, in the order of the sending thread, intact; only those completely handed to the
// kernel of a connection that ended can be missing.
std::map<int, std::string> *g_tap;
void tap(int s, const void *p, size_t n) { (*g_tap)[s].append((const char *)p, n); }
std::string handed() { // ids of the messages completely handed to the kernel
    std::string r;
    for (auto &t: *g_tap) for (size_t k = 0; k + HDR <= t.second.size();) {
        const std::string &d = t.second; uint32_t len; memcpy(&len, d.data() + k + 5, 4);
        if (k + HDR + len > d.size()) break;
        if ((uint8_t)d[k + 4] == 1) r += char('a' + (uint8_t)d[k + HDR]);
        k += HDR + len;
    }
    return r;
}
// sent: one string of ids per sending thread
void conveyed(const char *who, const std::vector<std::string> &sent, const std::string &got) {
    mc::Quiet q; std::string h = handed(), all;
    for (auto &s: sent) {
        size_t k = 0; all += s;
        for (char c: got) if (s.find(c) != std::string::npos) { size_t p = s.find(c, k); MC_ASSERT(p != std::string::npos, "%s received '%s', '%s' was sent: twice or out of order", who, got.c_str(), s.c_str()); k = p + 1; }
        for (char c: s) MC_ASSERT(got.find(c) != std::string::npos || h.find(c) != std::string::npos, "%s received '%s', '%s' was sent: '%c' is lost though it was never transmitted", who, got.c_str(), s.c_str(), c);
    }
    for (char c: got) MC_ASSERT(all.find(c) != std::string::npos, "%s received '%c' which nobody sent", who, c);
}
// how as in recover; kind 0 send_msg, 1 send_msg_deferred, 2 multicast_msg; win: window of the sockets; off: the messages are sent while disconnected (before conn_peer: 1, after the connection was lost: 2)
void talk(long a) {
    int who = a & 3, nw = a >> 2 & 1, how = a >> 3 & 7, kind = a >> 6 & 3, win = a >> 8 & 63, off = a >> 14 & 3, nt = (a >> 16 & 1) + 1, cap = a >> 17 & 1, any = a >> 18 & 1;
    rand_init(0);
    if (win) simos::cfg().sockbuf = win;
    std::map<int, std::string> tp; { mc::Quiet q; g_tap = &tp; } simos::on_send(tap);
    {
    auto c = pcfg(nw + 1); if (cap) c.max_send_buff_size(4);
    PNode A(c, 1000); PNode *B = new PNode(c, 2000);
    A.up(); B->up();
    A.know(*B); B->know(A);
    const PeerId bpid = B->pid;
    std::vector<std::string> sent(3); std::string sb, gb;
    auto snd = [&](int t, int n) { for (int i = 0; i < n; i++) {
        int id = t * 8 + (int)sent[t].size(); bool ok = true;
        if (kind == 0) ok = A.net->send_msg(MsgData(id, 4), bpid); else if (kind == 1) A.net->send_msg_deferred(MsgData(id, 4), bpid); else A.net->multicast_msg(MsgData(id, 4), {bpid});
        MC_ASSERT(ok || cap, "send refused");
        mc::Quiet q; if (ok) sent[t] += char('a' + id); else break; } };
    auto conn = [&](int w) { if (w & 2) B->net->conn_peer(A.pid, -1, 0.2); if (w & 1) A.net->conn_peer(bpid, -1, 0.2); };
    std::vector<std::thread> th;
    if (off == 1) mc::quiesce();
    else { conn(who); if (off == 2 || off == 0) settle(900); }
    auto rst = [] { int i = simos::find_estab(0); if (i >= 0) simos::rst_pair(i); };
    auto disrupt = [&] { switch (how) {
        case 0: rst(); break;
        case 1: { auto x = A.net->get_peer_conn(bpid); if (!x->is_terminated()) A.net->terminate(x); break; }
        case 2: { auto x = B->net->get_peer_conn(A.pid); if (!x->is_terminated()) B->net->terminate(x); break; }
        case 3: B->net->conn_peer(A.pid, -1, 0.2); break;
        case 4: { mc::Quiet q; gb = B->log.got; } B->stop_loop(); B->log.keep.clear(); B->destroy(); { mc::Quiet q; gb = B->log.got; } delete B; B = new PNode(c, 2000); B->up(); B->know(A); break;
        case 5: A.net->conn_peer(bpid, -1, 0.2); break;
    } };
    if (off == 2) { disrupt(); mc::quiesce(); }
    for (int t = 1; t < nt; t++) th.emplace_back([&, t] { if (any) mc::anywhen(500); snd(t, 2); });
    if (off) { snd(0, cap ? 8 : 2); for (auto &t: th) t.join(); mc::quiesce(); { mc::Quiet q; MC_ASSERT(off == 2 || A.log.got + B->log.got == "", "delivered without a connection"); } if (off == 1) conn(who); }
    else {
        th.emplace_back([&] { mc::anywhen(); disrupt(); });
        if (how != 4) { B->net->send_msg(MsgData(20, 4), A.pid); mc::Quiet q; sb = "u"; }
        snd(0, 3);
        if (any) mc::sleep_ms(500);
        for (auto &t: th) t.join();
    }
    settle(3000);
    agree_check(A, *B, "after recovery");
    { mc::Quiet q; gb += B->log.got; }
    conveyed("B", sent, gb); conveyed("A", {sb}, A.log.got);
    if (off && how != 4) { mc::Quiet q; size_t n = 0; for (auto &s: sent) n += s.size(); MC_ASSERT(gb.size() == n, "%zu messages of %zu sent while disconnected arrive: '%s'", gb.size(), n, gb.c_str()); }
    MC_ASSERT(A.net->send_msg(MsgData(21, 3), B->pid) && B->net->send_msg(MsgData(21, 3), A.pid), "send refused");
    settle(60);
    mc::outcome("%s %s %s %s", A.log.str().c_str(), B->log.str().c_str(), gb.c_str(), A.log.got.c_str());
    { mc::Quiet q; MC_ASSERT(A.log.got.size() && A.log.got.back() == 'v' && B->log.got.size() && B->log.got.back() == 'v', "a message on the new connection is lost: A got '%s', B got '%s'", A.log.got.c_str(), B->log.got.c_str()); }
    A.log.check("A"); B->log.check("B");
    A.finish(); B->finish();
    delete B;
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// three peers: A sends to B and C, the connection between A and B is disturbed (how: 0 reset, 1 A terminates it, 2 B does, 3 B connects again , 5 A and B connect only now);
// full: B and C are peers, too. C receives everything exactly once in order whatever happens to B.
void three(long a) {
    int how = a & 7, full = a >> 3 & 1, kind = a >> 4 & 3, nw = a >> 6 & 1, cap = a >> 7 & 1;
    rand_init(0);
    std::map<int, std::string> tp; { mc::Quiet q; g_tap = &tp; } simos::on_send(tap);
    {
    auto c = pcfg(nw + 1); if (cap) c.max_send_buff_size(2);
    PNode A(c, 1000), B(pcfg(1), 2000), C(pcfg(1), 3000);
    A.up(); B.up(); C.up();
    A.know(B); A.know(C); B.know(A); C.know(A);
    if (full) { B.know(C); C.know(B); }
    if (how != 5) A.net->conn_peer(B.pid, -1, 0.2);
    C.net->conn_peer(A.pid, -1, 0.2);
    if (full) B.net->conn_peer(C.pid, -1, 0.2);
    settle(900);
    const PeerId bp = B.pid, cp = C.pid;
    std::string sb, sc; std::vector<int> refused;
    auto snd = [&](int id) {
        bool ok = true; int call = -1;
        switch (kind) {
        case 0: call = A.net->multicast_msg(MsgData(id, 4), {bp, cp}); break;
        case 1: call = A.net->multicast_msg(MsgData(id, 4), {cp, bp}); break;
        case 2: call = A.net->send_msg_deferred(MsgData(id, 4), bp); A.net->send_msg_deferred(MsgData(id, 4), cp); break;
        default: ok = A.net->send_msg(MsgData(id, 4), cp); MC_ASSERT(ok, "send refused"); ok = A.net->send_msg(MsgData(id, 4), bp); MC_ASSERT(ok || cap, "send refused");
        }
        if (cap) { mc::quiesce(); mc::Quiet q; for (auto &e: A.log.calls) if (e.first == call) { MC_ASSERT(e.second == SALTI_ERROR_CONN_NOT_READY, "error code %d", e.second); ok = false; } }
        mc::Quiet q; if (ok) sb += char('a' + id); else refused.push_back(id); sc += char('a' + id);
    };
    auto disrupt = [&] { switch (how) {
        case 0: { for (int j = 0, i; (i = simos::find_estab(j)) >= 0; j++) if (simos::remote_port(i) == 2000) { simos::rst_pair(i); break; } break; }
        case 1: { auto x = A.net->get_peer_conn(bp); if (!x->is_terminated()) A.net->terminate(x); break; }
        case 2: { auto x = B.net->get_peer_conn(A.pid); if (!x->is_terminated()) B.net->terminate(x); break; }
        case 3: B.net->conn_peer(A.pid, -1, 0.2); break;
        case 5: A.net->conn_peer(bp, -1, 0.2); break;
    } };
    if (cap) { for (int i = 0; i < 8; i++) snd(i); disrupt(); }
    else {
        std::thread t([&] { mc::anywhen(); disrupt(); });
        for (int i = 0; i < 3; i++) snd(i);
        t.join();
    }
    settle(3000);
    A.log.check("A"); B.log.check("B"); C.log.check("C");
    int e = full ? 2 : 1;
    MC_ASSERT(A.log.nup() == 2 && B.log.nup() == e && C.log.nup() == e, "%d %d %d established connections (A %s B %s C %s)", A.log.nup(), B.log.nup(), C.log.nup(), A.log.str().c_str(), B.log.str().c_str(), C.log.str().c_str());
    MC_ASSERT(simos::nsock_open() == 3 + 2 * (full ? 3 : 2), "%d sockets open", simos::nsock_open());
    { auto x = A.net->get_peer_conn(cp), y = A.net->get_peer_conn(bp); MC_ASSERT(x != y && x->get_peer_id() == cp && y->get_peer_id() == bp && !x->is_terminated() && !y->is_terminated(), "the connections of two peers are mixed up"); }
    { mc::Quiet q; MC_ASSERT(C.log.str() == (full ? "U0U1" : "U0"), "the connection with another peer is disturbed: C %s", C.log.str().c_str());
      MC_ASSERT(C.log.got == sc, "C received '%s', '%s' was sent", C.log.got.c_str(), sc.c_str());
      std::string h = handed(), g = B.log.got; size_t k = 0;
      for (char x: g) { size_t z = sb.find(x, k); MC_ASSERT(z != std::string::npos, "B received '%s', '%s' was sent", g.c_str(), sb.c_str()); k = z + 1; }
      for (char x: sb) MC_ASSERT(g.find(x) != std::string::npos || std::count(h.begin(), h.end(), x) > 1, "B received '%s', '%s' was sent: '%c' is lost though it was never transmitted", g.c_str(), sb.c_str(), x);
      if (how == 5) MC_ASSERT(g == sb, "B received '%s', '%s' was sent", g.c_str(), sb.c_str());
      if (cap) MC_ASSERT(!refused.empty(), "no message was refused"); }
    for (PNode *n: {&A, &B}) MC_ASSERT(n->net->send_msg(MsgData(21, 3), n == &A ? cp : A.pid), "send refused");
    if (full) MC_ASSERT(B.net->send_msg(MsgData(22, 3), cp), "send refused");
    mc::quiesce();
    mc::outcome("%s %s %s", A.log.str().c_str(), B.log.str().c_str(), B.log.got.c_str());
    { mc::Quiet q; std::string w = sc + "v" + (full ? "w" : ""), w2 = sc + "wv"; MC_ASSERT((C.log.got == w || (full && C.log.got == w2)) && A.log.got == "v", "A got '%s', C got '%s'", A.log.got.c_str(), C.log.got.c_str()); }
    A.finish(); B.finish(); C.finish();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
struct Reg { Reg() {
    char nm[90];
    for (int who: {1, 2, 3}) for (int nw: {0, 1}) for (int mode = 0; mode < 8; mode++) {
        if ((mode & 1) && (who & 1)) continue;
        if ((mode & 2) && !(who & 2)) continue;
        snprintf(nm, sizeof nm, "agree-c%d-w%d-m%d", who, nw, mode);
        int en = who == 3 ? mode & 2 ? 1 : 2 : 0;
        mc::scenario("C21", nm, agree, who | nw << 2 | en << 3 | mode << 6, who == 3 ? netopts(1, 2) : netopts(2, 3));
        if (who == 3) { snprintf(nm, sizeof nm, "agree-nonces-c%d-w%d-m%d", who, nw, mode); mc::scenario("C21", nm, agree, who | nw << 2 | 4 << 3 | mode << 6, netopts(0, 1)); }
    }
    for (int who: {2, 3}) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "agree-early-c%d-w%d", who, nw); mc::scenario("C21", nm, agree, who | nw << 2 | 2 << 3 | 10 << 6, netopts(1, 2)); }
    for (int how = 8; how < 14; how++) for (int who: {1, 3}) for (int nw: {0, 1}) for (int late: {0, 1}) {
        if (how == 13 && !(who == 1 && late)) continue;
        bool one = late && (how == 9 || how == 10);
        auto o = one ? netopts(1, 2) : netopts(0, 1);
        if (!late && how != 9 && how != 10) o.thorough_only = true;
        snprintf(nm, sizeof nm, "recover-h%d-c%d-w%d-l%d", how, who, nw, late); mc::scenario("C22", nm, recover, who | nw << 2 | 1 << 3 | (how - 8) << 6 | late << 9 | 1 << 11, o); }
    for (int how: {0, 1, 5}) for (int who: {1, 3}) { snprintf(nm, sizeof nm, "recover-early-h%d-c%d", how, who); mc::scenario("C22", nm, recover, who | 1 << 2 | 1 << 3 | how << 6 | 1 << 10, who == 1 && how != 5 ? netopts(1, 2) : netopts(0, 1)); }
    for (int how = 0; how < 8; how++) for (int who: {1, 3}) for (int nw: {0, 1}) for (int late: {0, 1}) {
        snprintf(nm, sizeof nm, "recover-h%d-c%d-w%d-l%d", how, who, nw, late);
        bool two = how == 3 || how == 6 || how == 7;   // a second thread at any point
        bool one = late ? !two : who == 1 && nw == 0 && (how == 0 || how == 2 || how == 5);
        auto o = one ? netopts(1, 2) : netopts(0, 1);
        int en = one ? 1 : 2;
        if (two && !late) { if (how != 3 && who == 3 && nw == 0) en = 0; else o.thorough_only = true; }
        mc::scenario("C22", nm, recover, who | nw << 2 | en << 3 | how << 6 | late << 9, o);
    }
    for (int off: {1, 2}) for (int nw: {0, 1}) for (int kind: {0, 1, 2}) for (int how: {0, 1, 2, 3, 5}) for (int cap: {0, 1}) {
        if (off == 1 && how) continue;
        if (cap && kind) continue;
        snprintf(nm, sizeof nm, "offline%d-h%d-w%d-k%d-c%d", off, how, nw, kind, cap);
        mc::scenario("C23", nm, talk, (off == 1 ? 1 : 3) | nw << 2 | how << 3 | kind << 6 | off << 14 | (kind == 0 && !cap ? 1 << 16 : 0) | cap << 17, netopts(1, 2));
    }
    for (int how = 0; how < 6; how++) for (int nw: {0, 1}) for (int win: {0, 20}) for (int nt: {0, 1}) {
        snprintf(nm, sizeof nm, "talk-h%d-w%d-b%d-t%d", how, nw, win, nt);
        mc::scenario("C23", nm, talk, 1 | nw << 2 | how << 3 | win << 8 | nt << 16, netopts(1, 2));
    }
    for (int how: {0, 1, 2, 3, 5}) for (int nw: {0, 1}) for (int win: {0, 20}) { snprintf(nm, sizeof nm, "talk-any-h%d-w%d-b%d", how, nw, win); mc::scenario("C23", nm, talk, 1 | nw << 2 | how << 3 | win << 8 | 1 << 16 | 1 << 18, netopts(0, 1)); }
    for (int k: {0, 1}) for (int n = -1; n < 4; n++) { snprintf(nm, sizeof nm, "attempts-k%d-n%d", k, n); mc::scenario("C22", nm, attempts, k | (n + 1) << 1, netopts(1, 2)); }
    for (int n: {1, 2, 3}) for (int k = 0; k < n; k++) for (int how: {0, 1}) for (int end = 0; end < 4; end++) for (int nw: {0, 1}) { if ((!k && how) || (n == 1 && end > 1)) continue; snprintf(nm, sizeof nm, "again-n%d-k%d-h%d-e%d-w%d", n, k, how, end, nw); mc::scenario("C22", nm, again, n | k << 2 | how << 4 | end << 5 | nw << 7, netopts(n < 3 && end < 2 ? 2 : 1, n < 3 ? 3 : 2)); }
    for (int how: {0, 1, 2, 3, 5}) for (int full: {0, 1}) for (int kind = 0; kind < 4; kind++) for (int nw: {0, 1}) { if (kind > 1 && nw) continue; snprintf(nm, sizeof nm, "three-h%d-f%d-k%d-w%d", how, full, kind, nw); mc::scenario("C23", nm, three, how | full << 3 | kind << 4 | nw << 6, netopts((!full && (kind == 0 || how == 5)) || kind == 3 ? 1 : 0, 1 + !full)); }
    for (int kind: {0, 1}) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "three-full-k%d-w%d", kind, nw); mc::scenario("C23", nm, three, 5 | kind << 4 | nw << 6 | 1 << 7, netopts(1, 2)); }
} } reg;
}
