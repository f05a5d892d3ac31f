// C17: life cycle of connections; C18: outcome of connect and listen; C27: shutdown at any time.
#include "net.h"
#include <map>
namespace {
// what the connection handler of one node saw, per connection
struct Log {
    std::map<const void *, std::string> h; std::vector<ConnPool::conn_t> keep; int err = 0, fatal = 0; std::vector<int> ids;
    template<typename Net> void attach(Net &net, std::function<bool(const ConnPool::conn_t &, bool)> f = nullptr) {
        net.reg_conn_handler([this, f](const ConnPool::conn_t &c, bool up) {
            { mc::Quiet q; h[c.get()] += up ? 'U' : 'D'; }
            keep.push_back(c);
            return f ? f(c, up) : true;
        });
        net.reg_error_handler([this](const std::exception_ptr e, bool f, int32_t id) {
            mc::Quiet q; err++; fatal += f; if (id >= 0) ids.push_back(id);
            try { std::rethrow_exception(e); } catch (const std::exception &) {} 
        });
    }
    // every history is U, UD or (when the connection never came up) D
    void check(const char *who) {
        mc::Quiet q;
        for (auto &p: h) MC_ASSERT(p.second == "U" || p.second == "UD" || p.second == "D", "%s: connection notified '%s'", who, p.second.c_str());
        MC_ASSERT(!fatal, "%s: fatal error", who);
    }
    std::string sum() { mc::Quiet q; std::vector<std::string> v; for (auto &p: h) v.push_back(p.second); std::sort(v.begin(), v.end()); std::string r; for (auto &x: v) r += x + ","; return r; }
    bool all_down() { mc::Quiet q; for (auto &p: h) if (p.second.back() != 'D') return false; return true; }
};
MsgNet::Config cfg0(int nworker = 1) { MsgNet::Config c; c.max_msg_queue_size(4); c.recv_chunk_size(64); if (nworker > 1) c.nworker(nworker); return c; }
MsgNet::conn_t down(const ConnPool::conn_t &c) { return static_pointer_cast<MsgNet::Conn>(c); }

enum { OP_NONE, OP_TA, OP_TB, OP_RST, OP_TATB, OP_TATA, OP_TA_UP, OP_TB_UP, OP_TA_MSG, OP_TB_MSG, OP_TARST, OP_TBRST, OP_TA_SEND, OP_N };

// A connects to B, both send one message; the connection is ended by op at any point.
void pair_end(long a) {
    int op = a & 15, nw = a >> 4 & 3, sync = a >> 6 & 1;
    Log la, lb; std::string ga, gb;
    {
    Node<MsgNet> A(cfg0(nw & 1 ? 2 : 1)), B(cfg0(nw & 2 ? 2 : 1));
    la.attach(*A.net, [&](const ConnPool::conn_t &c, bool up) {
        if (up && op == OP_TA_UP) A.net->terminate(c);
        if (up && !sync) A.net->send_msg(MsgData(1, 3), down(c));
        return true; });
    lb.attach(*B.net, [&](const ConnPool::conn_t &c, bool up) {
        if (up) B.net->send_msg(MsgData(2, 3), down(c));
        if (up && op == OP_TB_UP) B.net->terminate(c);
        return true; });
    A.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &c) { { mc::Quiet q; ga += char('0' + m.id); if (!m.ok) ga += '!'; } if (op == OP_TA_MSG) A.net->terminate(c); });
    B.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &c) { { mc::Quiet q; gb += char('0' + m.id); if (!m.ok) gb += '!'; } if (op == OP_TB_MSG) B.net->terminate(c); });
    A.start(); B.start();
    B.net->listen(lo(1000));
    A.run(); B.run();
    MsgNet::conn_t conn;
    if (sync) conn = A.net->connect_sync(lo(1000)); else A.net->connect(lo(1000));
    std::vector<std::thread> th;
    auto termB = [&] { B.on_loop([&] { if (lb.keep.size()) B.net->terminate(lb.keep[0]); }); };
    auto termA = [&] { if (sync) A.net->terminate(conn); else A.on_loop([&] { if (la.keep.size()) A.net->terminate(la.keep[0]); }); };
    auto rst = [&] { int i = simos::find_estab(0); if (i >= 0) simos::rst_pair(i); };
    switch (op) {
    case OP_TATB: case OP_TBRST: th.emplace_back(termB); break;
    case OP_TATA: case OP_TARST: th.emplace_back(termA); break;
    case OP_TA_SEND: th.emplace_back([&] { mc::anywhen(); A.net->send_msg(MsgData(3, 3), conn); }); break;
    }
    bool ends = op != OP_NONE;
    if (op == OP_TA || op == OP_TB || op == OP_RST || op == OP_TATB || op == OP_TATA || op == OP_TARST || op == OP_TBRST || op == OP_TA_SEND) {
        mc::anywhen();
        switch (op) { case OP_TB: termB(); break; case OP_RST: case OP_TARST: case OP_TBRST: rst(); break; default: termA(); }
    }
    else if (sync) A.net->send_msg(MsgData(1, 3), conn);
    for (auto &t: th) t.join();
    mc::quiesce();
    la.check("A"); lb.check("B");
    { mc::Quiet q;
    std::string sa = la.sum(), sb = lb.sum();
    MC_ASSERT(la.h.size() == 1, "A notified of %zu connections", la.h.size());
    MC_ASSERT(lb.h.size() <= 1, "B notified of %zu connections", lb.h.size());
    if (!ends) { MC_ASSERT(sa == "U," && sb == "U,", "a connection nobody ended: A %s B %s", sa.c_str(), sb.c_str()); MC_ASSERT(ga == "2" && gb == "1", "messages: A '%s' B '%s'", ga.c_str(), gb.c_str()); }
    else {
        // ended on one side means ended on both; every terminate takes effect unless it found no connection to end
        bool da = la.all_down(), db = lb.all_down();
        MC_ASSERT(da == db, "ended on one side only: A %s B %s", sa.c_str(), sb.c_str());
        if (op == OP_TA_UP || op == OP_TB_UP || op == OP_TA_MSG || op == OP_TB_MSG || (sync && (op == OP_TA || op == OP_TATA || op == OP_TARST || op == OP_TA_SEND || op == OP_TATB))) MC_ASSERT(da, "the connection is not ended: A %s B %s", sa.c_str(), sb.c_str());
        MC_ASSERT((ga == "" || ga == "2") && (gb == "" || gb == "1" || gb == "3"), "messages: A '%s' B '%s'", ga.c_str(), gb.c_str());
    }
    MC_ASSERT(simos::nsock_open() == (la.all_down() ? 1 : 3), "%d sockets open, A %s B %s", simos::nsock_open(), sa.c_str(), sb.c_str());
    mc::outcome("%s%s%s%s%d%d", sa.c_str(), sb.c_str(), ga.c_str(), gb.c_str(), la.err, lb.err);
    }
    if (sync) {
        bool t = conn->is_terminated(); MC_ASSERT(t == la.all_down(), "is_terminated() = %d", t);
        A.net->send_msg(MsgData(9, 1), conn);     // harmless on an ended connection
        A.net->terminate(conn);                   // again: no second notification
        mc::quiesce();
        la.check("A");
        MC_ASSERT(la.all_down(), "terminate() without effect");
        mc::quiesce(); MC_ASSERT(lb.all_down(), "terminate() not noticed by the other side");
    }
    A.on_loop([&] { la.keep.clear(); }); B.on_loop([&] { lb.keep.clear(); });
    conn = nullptr;
    A.stop_loop(); B.stop_loop();
    A.destroy(); B.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets left open", simos::nsock_open());
    }
}

// terminate() of a connection being established, behind n other calls to the dispatcher
void busy_terminate(long a) {
    int n = a & 255, nw = a >> 8;
    Log la;
    {
    auto c = cfg0(nw); Node<MsgNet> A(c);
    la.attach(*A.net);
    A.start(); A.run();
    int l = simos::raw_listen(1000);
    auto dead = A.net->connect_sync(lo(2000));
    mc::quiesce();
    MC_ASSERT(la.sum() == "D,", "a refused connection is notified as %s", la.sum().c_str());
    auto conn = A.net->connect_sync(lo(1000));
    for (int i = 0; i < n; i++) A.net->terminate(dead);
    A.net->terminate(conn);
    mc::quiesce();
    la.check("A");
    MC_ASSERT(la.all_down() && la.h.size() == 2 && conn->is_terminated(), "terminated connection notified as %s", la.sum().c_str());
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets open", simos::nsock_open());
    int s = simos::raw_accept(l);
    MC_ASSERT(s < 0 || simos::raw_eof(s), "the connection is still open");
    mc::outcome("%s", la.sum().c_str());
    A.on_loop([&] { la.keep.clear(); });
    conn = nullptr; dead = nullptr;
    A.stop_loop(); A.destroy();
    }
}

// A raw peer (kind bit0: it connects to us, else we connect to it) ends the connection or sends garbage at any point.
// what: 0 close, 1 reset, 2 close after sending part of a message, 3 reset with data on the way, 4 oversized message, 5 nothing but messages, 6 close and our terminate, 7 oversized message and our terminate
void raw_end(long a) {
    int kind = a & 1, what = a >> 1 & 7, nw = a >> 4 & 3;
    Log la; int got = 0, up = 0;
    {
    auto c = cfg0(nw); c.max_msg_size(64);
    Node<MsgNet> A(c);
    la.attach(*A.net, [&](const ConnPool::conn_t &c, bool u) { if (u) { { mc::Quiet q; up++; } A.net->send_msg(MsgData(1, 30), down(c)); } return true; });
    A.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &) { mc::Quiet q; MC_ASSERT(m.ok, "corrupt message"); got++; });
    A.start();
    int l = -1, s;
    MsgNet::conn_t conn;
    if (kind) { A.net->listen(lo(1000)); A.run(); s = simos::raw_connect(1000); }
    else { l = simos::raw_listen(1000); A.run(); conn = A.net->connect_sync(lo(1000)); s = simos::raw_accept(l); }
    MC_ASSERT(s >= 0, "no connection");
    std::thread t;
    if (what >= 6) t = std::thread([&] { mc::anywhen(); A.on_loop([&] { if (la.keep.size()) A.net->terminate(la.keep[0]); }); });
    if (what != 2 && what != 4 && what != 7) raw_send_all(s, dframe(5, 4));
    mc::anywhen();
    switch (what) {
    case 0: case 6: raw_drain(s); simos::raw_close(s); break;
    case 1: simos::raw_rst(s); break;
    case 2: raw_send_all(s, dframe(5, 4) + dframe(6, 9).substr(0, 16)); raw_drain(s); simos::raw_close(s); break;
    case 3: raw_send_all(s, dframe(5, 4).substr(0, 15)); simos::raw_rst(s); break;
    case 4: case 7: raw_send_all(s, dframe(5, 4) + dframe(6, 200)); break;
    case 5: raw_send_all(s, dframe(5, 4)); break;
    }
    if (t.joinable()) t.join();
    mc::quiesce();
    la.check("A");
    mc::Quiet q;
    std::string sa = la.sum();
    MC_ASSERT(la.h.size() == 1, "%zu connections notified", la.h.size());
    if (what != 5) MC_ASSERT(sa == "UD," || (!kind && sa == "D,"), "ended connection notified as %s", sa.c_str());
    if ((what == 0 || what == 2 || what == 4) && !simos::nsys(5)) MC_ASSERT(got == 1, "%d messages received before the end delivered, not 1", got);
    if (what == 5) MC_ASSERT(got == 2 && sa == "U,", "a healthy connection: %s %d", sa.c_str(), got);
    MC_ASSERT(simos::nsock_open() == (what == 5) + kind, "%d sockets open", simos::nsock_open());
    if (what == 4 || what == 7) MC_ASSERT(simos::raw_eof(s), "the other side does not see the end");
    if (!kind) MC_ASSERT(conn->is_terminated() == (what != 5), "is_terminated() is wrong");
    mc::outcome("%s%d%d", sa.c_str(), got, la.err);
    A.on_loop([&] { la.keep.clear(); });
    conn = nullptr;
    A.stop_loop(); A.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets left open", simos::nsock_open());
    }
}

// ---- C18
// kind 0 refused, 1 no answer, 2 no answer for a while, then the listener appears (too late / in time), 3 connected and idle past the timeout
void outcome_(long a) {
    int kind = a & 7, sync = a >> 3 & 1, nw = a >> 4 & 3;
    Log la;
    {
    auto c = cfg0(nw); c.conn_server_timeout(0.5);
    Node<MsgNet> A(c);
    la.attach(*A.net);
    A.start(); A.run();
    int l = -1;
    if (kind == 1) simos::blackhole(1000);
    if (kind == 3) l = simos::raw_listen(1000);
    MsgNet::conn_t conn;
    uint64_t t0 = mc::now();
    if (sync) conn = A.net->connect_sync(lo(1000)); else A.net->connect(lo(1000));
    mc::quiesce();
    if (kind == 1) {
        MC_ASSERT(la.h.empty(), "notified before the timeout");
        mc::sleep_ms(400); mc::quiesce();
        MC_ASSERT(la.h.empty(), "given up after %d ms, the timeout is 500 ms", (int)(mc::now() - t0));
        mc::sleep_ms(150); mc::quiesce();
        MC_ASSERT(la.sum() == "D,", "an attempt without an answer is notified as '%s' after 550 ms", la.sum().c_str());
    }
    if (kind == 3) {
        MC_ASSERT(la.sum() == "U,", "notified as %s", la.sum().c_str());
        mc::sleep_ms(3000); mc::quiesce();
        MC_ASSERT(la.sum() == "U,", "an idle connection is notified as %s", la.sum().c_str());
        int s = simos::raw_accept(l);
        raw_send_all(s, dframe(1, 1));
        mc::quiesce();
        MC_ASSERT(!simos::raw_eof(s), "an idle connection is ended");
        simos::raw_close(s); mc::quiesce();
        MC_ASSERT(la.sum() == "UD,", "notified as %s", la.sum().c_str());
    }
    if (kind == 0) MC_ASSERT(la.sum() == "D,", "a refused connection is notified as %s", la.sum().c_str());
    if (kind == 0 || kind == 1) MC_ASSERT(la.err == 1, "%d errors reported", la.err);
    else MC_ASSERT(la.err == 0, "%d errors reported", la.err);
    if (sync) MC_ASSERT(conn->is_terminated(), "handle of a failed connection is not terminated");
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets open", simos::nsock_open());
    la.check("A");
    if (sync) { A.net->terminate(conn); A.net->send_msg(MsgData(1, 1), conn); mc::quiesce(); la.check("A"); }
    A.on_loop([&] { la.keep.clear(); });
    conn = nullptr;
    A.stop_loop(); A.destroy();
    }
}
// System calls fail during connect (kind 0 async, 1 sync), listen (2), accept (3, 4: then listening again).
void faults(long a) {
    int kind = a & 7, nf = a >> 3 & 3, nw = a >> 5 & 3;
    Log la;
    {
    Node<MsgNet> A(cfg0(nw));
    la.attach(*A.net);
    A.start(); A.run();
    int l = simos::raw_listen(1000);
    int thrown = 0, tries = 3, up = 0;
    std::vector<int> ids; std::vector<MsgNet::conn_t> cs;
    if (kind <= 1) {
        simos::cfg().fail_calls = nf;
        for (int i = 0; i < tries; i++) {
            if (kind == 0) { int id = A.net->connect(lo(1000)); for (int x: ids) MC_ASSERT(x != id, "two calls share the id %d", id); ids.push_back(id); }
            else try { cs.push_back(A.net->connect_sync(lo(1000))); } catch (const SalticidaeError &) { thrown++; }
            mc::quiesce();
        }
        simos::cfg().fail_calls = 0;
        la.check("A");
        mc::Quiet q;
        int u = 0, d = 0; for (auto &p: la.h) { if (p.second == "U") u++; else if (p.second == "D") d++; else MC_ASSERT(false, "connection notified as %s", p.second.c_str()); }
        int failed = kind ? thrown : (int)la.ids.size();
        // every attempt ends as a connection, a failed connection or a reported failure
        MC_ASSERT(u + d + failed == tries, "%d attempts: %d connected, %d failed, %d failures reported", tries, u, d, failed);
        MC_ASSERT(failed + d <= nf, "more failures than faults");
        for (int x: la.ids) { bool f = false; for (int y: ids) f |= x == y; MC_ASSERT(f, "failure reported for the unknown id %d", x); }
        for (size_t i = 0; i < la.ids.size(); i++) for (size_t j = 0; j < i; j++) MC_ASSERT(la.ids[i] != la.ids[j], "the failure of id %d is reported twice", la.ids[i]);
        MC_ASSERT(simos::nsock_open() == u, "%d sockets open for %d connections", simos::nsock_open(), u);
        mc::outcome("%d %d %d", u, d, failed);
    } else if (kind == 2) {
        simos::cfg().fail_calls = nf;
        bool ok = false;
        for (int i = 0; i < tries && !ok; i++) try { A.net->listen(lo(2000)); ok = true; } catch (const SalticidaeError &e) { MC_ASSERT(e.get_code() == SALTI_ERROR_LISTEN, "listen fails with code %d", e.get_code()); thrown++; }
        simos::cfg().fail_calls = 0;
        MC_ASSERT(ok && thrown <= nf, "listen fails %d times with %d faults", thrown, nf);
        int s = simos::raw_connect(2000); MC_ASSERT(s >= 0, "nobody listens after listen() returned"); mc::quiesce();
        MC_ASSERT(la.sum() == "U,", "an incoming connection is notified as '%s'", la.sum().c_str());
        try { A.net->listen(lo(1000)); mc::fail("listen() on a port in use succeeds"); } catch (const SalticidaeError &e) { MC_ASSERT(e.get_code() == SALTI_ERROR_LISTEN, "listen fails with code %d", e.get_code()); }
        A.net->listen(lo(2001));
        MC_ASSERT(simos::raw_connect(2000) < 0, "the previous port is still served");
        MC_ASSERT(simos::raw_connect(2001) >= 0, "the new port is not served"); mc::quiesce();
        MC_ASSERT(la.sum() == "U,U,", "incoming connections are notified as '%s'", la.sum().c_str());
        MC_ASSERT(simos::nsock_open() == 3, "%d sockets open", simos::nsock_open());
        mc::outcome("%d", thrown);
    } else {
        A.net->listen(lo(2000));
        simos::cfg().fail_calls = nf;
        int n = 0; for (int i = 0; i < tries; i++) { int s = simos::raw_connect(2000); if (s >= 0) n++; if (kind == 4) mc::quiesce(); }
        mc::quiesce();
        simos::cfg().fail_calls = 0;
        la.check("A");
        { mc::Quiet q; up = la.h.size(); }
        MC_ASSERT(la.all_down() == (up == 0) && la.err <= nf && up >= n - la.err - (la.err ? tries : 0), "%d connects, %d notified, %d errors", n, up, la.err);
        MC_ASSERT(la.err || up == tries, "%d connections out of %d notified, no error", up, tries);
        // after an error listening again serves everybody
        A.net->listen(lo(2000));
        int s = simos::raw_connect(2000); mc::quiesce();
        { mc::Quiet q; MC_ASSERT(s >= 0 && (int)la.h.size() == up + 1, "not served after listening again"); }
        MC_ASSERT(simos::nsock_open() == 1 + up + 1, "%d sockets open for %d connections", simos::nsock_open(), up + 1);
        mc::outcome("%d %d", up, la.err);
    }
    (void)l;
    A.on_loop([&] { la.keep.clear(); });
    cs.clear();
    A.stop_loop(); A.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets left open", simos::nsock_open());
    }
}
// k threads connect n times each to node B; everybody is notified on both sides, ids differ.
void many(long a) {
    int k = a & 3, n = a >> 2 & 3, nw = a >> 4 & 3, sync = a >> 6 & 1;
    Log la, lb;
    {
    Node<MsgNet> A(cfg0(nw)), B(cfg0(nw));
    la.attach(*A.net); lb.attach(*B.net);
    A.start(); B.start(); B.net->listen(lo(1000)); A.run(); B.run();
    std::vector<std::vector<int>> ids(k); std::vector<std::thread> th;
    auto f = [&](int t) { for (int i = 0; i < n; i++) { if (sync) { auto c = A.net->connect_sync(lo(1000)); MC_ASSERT(c && c->get_addr() == lo(1000), "wrong handle"); } else { int id = A.net->connect(lo(1000)); mc::Quiet q; ids[t].push_back(id); } } };
    for (int t = 1; t < k; t++) th.emplace_back(f, t);
    f(0);
    for (auto &t: th) t.join();
    mc::quiesce();
    la.check("A"); lb.check("B");
    std::string w; for (int i = 0; i < n * k; i++) w += "U,";
    MC_ASSERT(la.sum() == w && lb.sum() == w && !la.err && !lb.err, "A '%s' B '%s'", la.sum().c_str(), lb.sum().c_str());
    { mc::Quiet q; std::vector<int> v; for (auto &x: ids) v.insert(v.end(), x.begin(), x.end()); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) MC_ASSERT(v[i] != v[j], "two attempts share the id %d", v[i]); }
    A.on_loop([&] { la.keep.clear(); }); B.on_loop([&] { lb.keep.clear(); });
    A.stop_loop(); B.stop_loop(); A.destroy(); B.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets left open", simos::nsock_open());
    }
}

// ---- C27: A is stopped at any point of a conversation with B.
// how: 0 loop stopped, then destroyed; 1 stop() while the loop runs, then the loop stops, then destroyed; 2 stop() on the loop; 3 stop() twice;
//      4 the loop never ran; 5 never started
void shutdown_(long a) {
    int how = a & 7, nw = a >> 3 & 3, act = a >> 5 & 3;   // act 0: A connects, 1: A listens, 2: A connects to nobody (hangs), 3: both directions
    Log la, lb;
    {
    Node<MsgNet> B(cfg0(1)); Node<MsgNet> A(cfg0(nw));
    auto echo = [](Node<MsgNet> &N) { return [&N](MsgData &&m, const MsgNet::conn_t &c) { if (m.len < 6) N.net->send_msg(MsgData(m.id, m.len + 1), c); }; };
    auto hi = [](Node<MsgNet> &N) { return [&N](const ConnPool::conn_t &c, bool up) { if (up) N.net->send_msg(MsgData(1, 1), down(c)); return true; }; };
    A.net->reg_handler(echo(A)); B.net->reg_handler(echo(B));
    la.attach(*A.net, hi(A)); lb.attach(*B.net, hi(B));
    B.start(); B.run(); B.net->listen(lo(1000));
    if (how != 5) { A.start(); if (act == 1 || act == 3) A.net->listen(lo(2000)); if (how != 4) A.run(); }
    if (act == 2) simos::blackhole(3000);
    if (act == 0 || act == 3) A.net->connect(lo(1000));
    if (act == 2) A.net->connect(lo(3000));
    if ((act == 1 || act == 3) && how != 5) B.net->connect(lo(2000));
    mc::anywhen();
    switch (how) {
    case 1: A.net->stop(); break;
    case 2: A.on_loop([&] { A.net->stop(); }); break;
    case 3: A.net->stop(); A.net->stop(); break;
    }
    A.stop_loop();
    { la.keep.clear(); }
    A.destroy();
    MC_ASSERT(how == 5 || true, "");
    mc::quiesce();
    lb.check("B");
    // B sees the end of everything
    MC_ASSERT(lb.all_down(), "B still has a connection: %s", lb.sum().c_str());
    MC_ASSERT(simos::nsock_open() == 1, "%d sockets open", simos::nsock_open());
    mc::outcome("%s%s", la.sum().c_str(), lb.sum().c_str());
    B.on_loop([&] { lb.keep.clear(); });
    B.stop_loop(); B.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "%d sockets left open", simos::nsock_open());
    }
}
struct Reg { Reg() {
    for (int n: {0, 126, 127, 128}) for (int nw: {1, 2}) { char nm[80]; snprintf(nm, sizeof nm, "busy-terminate-n%d-w%d", n, nw); mc::scenario("C17", nm, busy_terminate, n | nw << 8, netopts(1, 2)); }
    for (int op = 0; op < OP_N; op++) for (int nw: {0, 3}) for (int sy: {0, 1}) {
        if (op == OP_TA_SEND && !sy) continue;
        char nm[80]; snprintf(nm, sizeof nm, "end-op%d-w%d-s%d", op, nw, sy);
        mc::scenario("C17", nm, pair_end, op | nw << 4 | sy << 6, netopts(2, 3));
    }
    char nm[80];
    for (int k: {0, 1}) for (int w = 0; w < 8; w++) for (int nw: {1, 2}) { snprintf(nm, sizeof nm, "raw-k%d-e%d-w%d", k, w, nw); mc::scenario("C17", nm, raw_end, k | w << 1 | nw << 4, netopts(2, 3)); }
    for (int k: {0, 1, 3}) for (int sy: {0, 1}) for (int nw: {1, 2}) { snprintf(nm, sizeof nm, "outcome-k%d-s%d-w%d", k, sy, nw); mc::scenario("C18", nm, outcome_, k | sy << 3 | nw << 4, netopts(2, 3)); }
    for (int k = 0; k < 5; k++) for (int nf: {1, 2}) for (int nw: {1, 2}) { snprintf(nm, sizeof nm, "faults-k%d-f%d-w%d", k, nf, nw); mc::scenario("C18", nm, faults, k | nf << 3 | nw << 5, netopts(2, 3)); }
    for (int nw: {1, 2}) for (int sy: {0, 1}) { snprintf(nm, sizeof nm, "many-k2-n1-w%d-s%d", nw, sy); mc::scenario("C18", nm, many, 2 | 1 << 2 | nw << 4 | sy << 6, netopts(2, 3)); snprintf(nm, sizeof nm, "many-k1-n3-w%d-s%d", nw, sy); mc::scenario("C18", nm, many, 1 | 3 << 2 | nw << 4 | sy << 6, netopts(2, 3)); }
    for (int how = 0; how < 6; how++) for (int nw: {1, 2}) for (int act = 0; act < 4; act++) { snprintf(nm, sizeof nm, "shutdown-h%d-w%d-a%d", how, nw, act); mc::scenario("C27", nm, shutdown_, how | nw << 3 | act << 5, netopts(act == 2 || (act != 3 && how != 3 && nw == 1) ? 2 : 1, 3)); }
} } reg;
}
