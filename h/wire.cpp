// C15: what is written to a connection arrives, complete and in order; C16: backpressure.
#include "net.h"
namespace {
struct Sent { std::string f; bool ok; };

// splits a received stream into frames; returns false when it is not a sequence of frames
bool split_frames(const std::string &s, std::vector<std::string> &out, std::string &rest) {
    size_t p = 0;
    while (p + HDR <= s.size()) {
        uint32_t len = (uint8_t)s[p + 5] | (uint8_t)s[p + 6] << 8 | (uint8_t)s[p + 7] << 16 | (uint32_t)(uint8_t)s[p + 8] << 24;
        if (len > 4096) return false;
        if (p + HDR + len > s.size()) break;
        out.push_back(s.substr(p, HDR + len)); p += HDR + len;
    }
    rest = s.substr(p);
    return true;
}

// One node sends n messages from k threads to a raw peer with a small window that drains in steps.
// mode bit0: writes an empty segment in between; bit1: bounded send buffer; bit2: passive side (the raw peer connects);
// bit3: messages sent before the peer accepts/answers; bit4: send_msg_deferred; bit5: the peer sends as well
void send_raw(long a) {
    int win = a & 127, nthr = a >> 7 & 3, n = a >> 9 & 15, mode = a >> 13 & 255, env = a >> 21 & 3, sz = a >> 23 & 63;
    std::vector<std::vector<Sent>> sent(nthr); std::string in; int ups = 0, downs = 0, errs = 0, defer_err = 0; int got = 0;
    std::string want_tail;
    {
    MsgNet::Config c;
    c.max_msg_queue_size(8);
    c.recv_chunk_size(16);
    if (mode & 2) c.max_send_buff_size(2);
    Node<MsgNet> nd(c);
    auto &net = *nd.net;
    int connected_ = 0;
    net.reg_conn_handler([&](const ConnPool::conn_t &, bool up) { mc::Quiet q; (up ? ups : downs)++; return true; });
    net.reg_error_handler([&](const std::exception_ptr, bool, int32_t id) { mc::Quiet q; if (id >= 0) defer_err++; else errs++; });
    net.reg_handler([&](MsgData &&m, const MsgNet::conn_t &) { mc::Quiet q; MC_ASSERT(m.ok && m.id == 50 + got, "wrong message from the peer"); got++; });
    nd.start();
    if (env) simos::cfg().short_write = env;
    MsgNet::conn_t conn; int s, l = -1;
    if (mode & 4) {
        net.listen(lo(1000));
        MsgNet::conn_t seen;
        net.reg_conn_handler([&](const ConnPool::conn_t &cn, bool up) { { mc::Quiet q; (up ? ups : downs)++; } if (up) seen = static_pointer_cast<MsgNet::Conn>(cn); return true; });
        nd.run();
        s = simos::raw_connect(1000);
        mc::quiesce();
        MC_ASSERT(ups == 1, "the connection is not reported");
        nd.on_loop([&] { conn = std::move(seen); net.reg_conn_handler([&](const ConnPool::conn_t &, bool up) { mc::Quiet q; (up ? ups : downs)++; return true; }); });
        simos::cfg().sockbuf = win;
    } else {
        l = simos::raw_listen(1000);
        nd.run();
        simos::cfg().sockbuf = win;
        conn = net.connect_sync(lo(1000));
        if (!(mode & 8)) mc::quiesce();
        s = simos::raw_accept(l);
        MC_ASSERT(s >= 0, "no connection reaches the peer");
    }
    auto sender = [&](int t) {
        for (int i = 0; i < n; i++) {
            int id = t * 16 + i, len = (sz * (i + 1 + t)) % 23;
            if (mode & 1) MC_ASSERT(conn->write(bytearray_t()), "an empty write is refused");
            if (mode & 16) { net.send_msg_deferred(MsgData(id, len), conn); mc::Quiet q; sent[t].push_back({dframe(id, len), true}); }
            else { bool ok = net.send_msg(MsgData(id, len), conn); mc::Quiet q; sent[t].push_back({dframe(id, len), ok}); }
        }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < nthr; t++) th.emplace_back(sender, t);
    if (mode & 32) for (int i = 0; i < 3; i++) raw_send_all(s, dframe(50 + i, i * 9));
    sender(0);
    for (auto &t: th) t.join();
    for (int i = 0; i < 400; i++) {
        mc::quiesce();
        char b[64]; size_t k = simos::raw_recv(s, b, win > 20 ? 64 : win == 1 ? 1 : win - 1);
        mc::Quiet q; in.append(b, k);
        if (!k) break;
    }
    // everything accepted has to be there; nobody else wakes the connection up
    size_t total = 0; int nok = 0;
    { mc::Quiet q; for (auto &v: sent) for (auto &x: v) if (x.ok) { total += x.f.size(); nok++; } }
    if ((mode & 16) && (mode & 2)) ; else MC_ASSERT(in.size() == total, "%zu bytes arrive, %zu were accepted", in.size(), total);
    if (mode & 2) { // the buffer is empty again: there is room for one more message
        bool ok = net.send_msg(MsgData(99, 3), conn);
        MC_ASSERT(ok, "a message is refused although the send buffer is empty");
        mc::quiesce(); mc::Quiet q; std::string x; for (int i = 0; i < 40; i++) { mc::quiesce(); auto y = raw_drain(s); if (y.empty()) break; x += y; }
        MC_ASSERT(x == dframe(99, 3), "the message sent after a drain does not arrive");
    }
    MC_ASSERT(!simos::raw_eof(s), "the connection is ended");
    if (mode & 32) MC_ASSERT(got == 3, "%d of 3 messages of the peer delivered", got);
    simos::raw_close(s);
    mc::quiesce();
    nd.stop_loop();
    conn = nullptr;
    nd.destroy();
    MC_ASSERT(errs == 0, "errors reported");
    }
    std::vector<std::string> fr; std::string rest;
    MC_ASSERT(split_frames(in, fr, rest) && rest.empty(), "the stream is not a sequence of whole messages");
    std::vector<size_t> pos(nthr, 0);
    for (auto &f: fr) {
        int t = (uint8_t)f[HDR] / 16;
        MC_ASSERT(t < nthr, "an unknown message arrives");
        auto &v = sent[t];
        if ((mode & 16) && (mode & 2)) { while (pos[t] < v.size() && v[pos[t]].f != f) pos[t]++; }
        else while (pos[t] < v.size() && !v[pos[t]].ok) pos[t]++;
        MC_ASSERT(pos[t] < v.size() && v[pos[t]].f == f, "messages of one thread arrive out of order or altered");
        pos[t]++;
    }
    if ((mode & 16) && (mode & 2)) MC_ASSERT((int)fr.size() + defer_err == nthr * n, "%zu deferred messages arrive, %d reported as failed, of %d", fr.size(), defer_err, nthr * n);
    else MC_ASSERT(defer_err == 0, "deferred sends reported as failed");
    mc::outcome("%zu/%d", fr.size(), nthr * n);
}

// Two nodes; A sends nm messages, B answers each (B -> A), with fragmentation by the network in both directions.
// mode: bit0 two workers on B; bit1 small receive buffer; bit2 small message queue
void echo(long a) {
    int nm = a & 15, mode = a >> 4 & 15, env = a >> 8 & 3, win = a >> 10 & 127;
    std::string atA, atB; int badA = 0;
    {
    MsgNet::Config c; c.max_msg_queue_size(mode & 4 ? 2 : 16); c.recv_chunk_size(mode & 2 ? 24 : 64); if (mode & 2) c.max_recv_buff_size(env ? 4 + env : 4); // room for a whole message
    if (mode & 4) c.burst_size(1);
    MsgNet::Config cb = c; if (mode & 1) cb.nworker(2);
    Node<MsgNet> A(c), B(cb);
    A.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &) { mc::Quiet q; if (!m.ok) badA++; atA += char('a' + m.id); });
    B.net->reg_handler([&](MsgData &&m, const MsgNet::conn_t &cn) { { mc::Quiet q; if (!m.ok) badA++; atB += char('a' + m.id); } B.net->send_msg(MsgData(m.id, m.len), cn); });
    A.start(); B.start();
    B.net->listen(lo(1000));
    A.run(); B.run();
    simos::cfg().sockbuf = win; simos::cfg().short_write = env; simos::cfg().short_read = env;
    auto conn = A.net->connect_sync(lo(1000));
    std::string want;
    for (int i = 0; i < nm; i++) { MC_ASSERT(A.net->send_msg(MsgData(i, (i * 11) % 40), conn), "unbounded send refused"); mc::Quiet q; want += char('a' + i); }
    mc::quiesce(); mc::sleep_ms(5); mc::quiesce();
    MC_ASSERT(atB == want, "B got '%s' instead of '%s'", atB.c_str(), want.c_str());
    MC_ASSERT(atA == want && !badA, "A got '%s' instead of '%s' (%d corrupt)", atA.c_str(), want.c_str(), badA);
    A.stop_loop(); B.stop_loop();
    conn = nullptr;
    A.destroy(); B.destroy();
    }
    mc::outcome("%s", atA.c_str());
}

struct Reg { Reg() {
    auto s = [](const char *pr, int win, int nthr, int n, int mode, int env, int sz, int bq, int bt) {
        char nm[100]; snprintf(nm, sizeof nm, "send-w%d-t%d-n%d-m%d-e%d-s%d", win, nthr, n, mode, env, sz);
        mc::scenario(pr, nm, send_raw, win | nthr << 7 | n << 9 | mode << 13 | (long)env << 21 | (long)sz << 23, netopts(bq, bt));
    };
    for (int win: {100, 20, 7, 2}) { s("C15", win, 1, 4, 0, 3, 5, 2, 3); s("C15", win, 2, 2, 4, 1, 7, 2, 3); }
    s("C15", 100, 1, 3, 1, 0, 5, 2, 3); s("C15", 12, 1, 3, 1, 0, 5, 2, 3); s("C15", 12, 2, 2, 5, 0, 5, 2, 3);
    s("C15", 100, 1, 3, 8, 3, 5, 2, 3); s("C15", 20, 2, 2, 8, 0, 5, 2, 3); s("C15", 20, 2, 2, 16 + 8, 0, 5, 2, 3); s("C15", 30, 1, 3, 32, 3, 9, 2, 3); s("C15", 30, 2, 2, 32 + 4, 0, 9, 2, 3);
    for (int win: {100, 20, 7}) for (int m: {2, 6, 10, 18, 22}) s("C16", win, m & 4 ? 2 : 1, m & 4 ? 4 : 7, m, 0, 5, 2, 3);
    auto e = [](const char *pr, int nm, int mode, int env, int win, int bq, int bt) {
        char n[100]; snprintf(n, sizeof n, "echo-n%d-m%d-e%d-w%d", nm, mode, env, win);
        mc::scenario(pr, n, echo, nm | mode << 4 | env << 8 | (long)win << 10, netopts(bq, bt));
    };
    for (int m = 0; m < 8; m++) { e(m & 6 ? "C15,C16" : "C15", 4, m, 0, 100, 2, 3); e(m & 6 ? "C15,C16" : "C15", 3, m, 3, 30, 2, 3); }
} } reg;
}
