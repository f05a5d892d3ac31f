// C26: ClientNetwork routes messages by client address.
#include "net.h"
#include <map>
#include <algorithm>
namespace {
struct CLog {
    std::map<int, std::string> up; // port -> history
    std::vector<CliNet::conn_t> keep; int fatal = 0; std::vector<std::pair<int, int>> errs; int bad = 0;
};
// the frames in a raw byte stream: ids of well-formed data messages, '!' for anything else
std::string ids(const std::string &d) {
    std::string r; size_t k = 0;
    while (k + HDR <= d.size()) {
        uint32_t len; memcpy(&len, d.data() + k + 5, 4);
        if (k + HDR + len > d.size()) break;
        std::string p = d.substr(k + HDR, len);
        r += d.substr(k, HDR + len) == dframe((uint8_t)p[0], len - 1) ? char('a' + (uint8_t)p[0]) : '!';
        k += HDR + len;
    }
    if (k != d.size()) r += '~';
    return r;
}
struct Cli { int s = -1; int port = 0; std::string in; void pull() { if (s >= 0) { auto d = raw_drain(s); mc::Quiet q; in += d; } } std::string got() { pull(); mc::Quiet q; return ids(in); } };

enum { SEND, DEFER, CSEND, CDEFER };
// how: 0 nothing, 1 the client closes, 2 resets, 3 the server terminates, 4 closes and comes back from the same address, 5 resets and comes back, 6 the server terminates and the client comes back
// kind: the way messages are sent; any: the second sender at any point
void route(long a) {
    int how = a & 7, nw = a >> 3 & 1, kind = a >> 4 & 3, any = a >> 6 & 1, win = a >> 7 & 63;
    CLog log; simos::cfg().reuse_ports = true;
    if (win) simos::cfg().sockbuf = win;
    {
    CliNet::Config c; c.max_msg_queue_size(8); c.recv_chunk_size(64); if (nw) c.nworker(2);
    Node<CliNet> S(c);
    auto send = [&](int id, const NetAddr &to) { // 1 accepted, 0 refused, -1 no such client, else the id of the call
        switch (kind) {
        case SEND: try { return (int)S.net->send_msg(MsgData(id, 3), to); } catch (const ClientNetworkError &e) { return e.get_code() == SALTI_ERROR_CLIENT_NOT_EXIST ? -1 : -2; }
        case DEFER: S.net->send_msg_deferred(MsgData(id, 3), to); return 1;
        case CSEND: { CliNet::Msg m(MsgData(id, 3), 0); return clientnetwork_send_msg(S.net, &m, &to) ? 1 : -1; }
        default: { CliNet::Msg m(MsgData(id, 3), 0); clientnetwork_send_msg_deferred_by_move(S.net, &m, &to); return 1; }
        } };
    S.net->reg_conn_handler([&](const ConnPool::conn_t &c, bool up) { { mc::Quiet q; log.up[ntohs(c->get_addr().port)] += up ? 'U' : 'D'; }
        if (up) { log.keep.push_back(static_pointer_cast<CliNet::Conn>(c)); }
        return true; });
    S.net->reg_error_handler([&](const std::exception_ptr e, bool f, int32_t id) { mc::Quiet q; log.fatal += f; int code = -2;
        try { std::rethrow_exception(e); } catch (const SalticidaeError &x) { code = x.get_code(); } catch (...) {} log.errs.push_back({id, code}); });
    S.net->reg_handler([&](MsgData &&m, const CliNet::conn_t &c) {
        { mc::Quiet q; if (!m.ok) log.bad++; }
        int r = send(m.id + 4, c->get_addr());      // the answer goes to the sender
        MC_ASSERT(r == 1 || how, "the answer to a connected client is refused (%d)", r);
    });
    S.start(); S.net->listen(lo(1000)); S.run();
    Cli k[3];
    for (int i = 0; i < 2; i++) { k[i].s = simos::raw_connect(1000); k[i].port = simos::local_port(k[i].s); }
    MC_ASSERT(k[0].port != k[1].port, "harness");
    for (int i = 0; i < 2; i++) raw_send_all(k[i].s, dframe(i * 8, 2));
    std::thread t;
    t = std::thread([&] { if (any) mc::anywhen(); send(2, lo(k[0].port)); send(10, lo(k[1].port)); });
    if (how) mc::anywhen();
    int p0 = k[0].port;
    if (how == 1 || how == 4) { k[0].pull(); simos::raw_close(k[0].s); }
    if (how == 2 || how == 5) { k[0].pull(); simos::raw_rst(k[0].s); }
    if (how == 3 || how == 6) { S.on_loop([&] { for (auto &c: log.keep) if (ntohs(c->get_addr().port) == p0) { S.net->terminate(c); break; } }); k[0].pull(); if (simos::raw_eof(k[0].s)) simos::raw_close(k[0].s); }
    if (how == 1 || how == 2 || (how == 3 && !simos::raw_open(k[0].s)) ) k[0].s = -1;
    if (how >= 4 && !simos::raw_open(k[0].s)) {
        k[0].s = -1; k[2].s = simos::raw_connect(1000); k[2].port = simos::local_port(k[2].s);
        MC_ASSERT(k[2].port == p0, "harness: not the same address");
        raw_send_all(k[2].s, dframe(16, 2));
    }
    if (t.joinable()) t.join();
    for (int i = 0; i < 6; i++) { mc::quiesce(); k[0].pull(); k[1].pull(); k[2].pull(); }
    int last = k[2].s >= 0 ? 2 : k[0].s >= 0 && !simos::raw_eof(k[0].s) ? 0 : -1;
    if (last == 0 && how) { std::string h; { mc::Quiet q; h = log.up[p0]; } if (h != "U") last = -2; } // terminated before it was noticed
    // each address: established and ended alternate
    { mc::Quiet q; std::string h = log.up[p0], h1 = log.up[k[1].port];
      MC_ASSERT(h1 == "U", "client 1: %s", h1.c_str());
      MC_ASSERT(!log.fatal && !log.bad, "fatal error or corrupted message"); }
    int r0 = send(23, lo(p0)), r1 = send(21, lo(k[1].port));
    int r2 = send(22, lo(9));
    for (int i = 0; i < 6; i++) { mc::quiesce(); k[0].pull(); k[1].pull(); k[2].pull(); }
    std::string g0 = k[0].got(), g1 = k[1].got(), g2 = k[2].got();
    mc::outcome("%s %s %s %d", g0.c_str(), g1.c_str(), g2.c_str(), r0);
    { mc::Quiet q;
    // client 1: its answer, the message of the other thread and the last one (the thread may be earlier than the connection)
    auto cnt = [](const std::string &s, char c) { return std::count(s.begin(), s.end(), c); };
    auto only = [&](const char *who, const std::string &s, const std::string &set) { for (char c: s) MC_ASSERT(set.find(c) != std::string::npos && cnt(s, c) == 1, "%s received '%s'", who, s.c_str()); };
    only("client 1", g1, "mkv"); only("client 0", g0, last == 0 ? "ecx" : "ec"); only("the new client 0", g2, "uecx");
    MC_ASSERT(cnt(g1, 'm') && cnt(g1, 'v') && g1.back() == 'v', "client 1 received '%s'", g1.c_str());
    if (!how) MC_ASSERT(cnt(g0, 'e') && g0.back() == 'x', "client 0 received '%s'", g0.c_str());
    if (last == 2) MC_ASSERT(cnt(g2, 'u') && g2.back() == 'x', "the new client 0 received '%s'", g2.c_str());
    if (last == -1 && kind == SEND) MC_ASSERT(r0 == -1, "message to a client that left: %d", r0);
    if (last == -1 && kind == CSEND) MC_ASSERT(r0 == -1, "message to a client that left: %d", r0);
    if (last >= 0) MC_ASSERT(r0 == 1, "message to a connected client: %d", r0);
    MC_ASSERT(r1 == 1, "message to a connected client: %d", r1);
    if (kind == SEND || kind == CSEND) MC_ASSERT(r2 == -1, "message to an unknown client: %d", r2);
    else { int n = 0; for (auto &e: log.errs) n += e.second == SALTI_ERROR_CLIENT_NOT_EXIST; MC_ASSERT(n >= (last == -1 ? 2 : 1), "no error reported for an unknown client"); }
    }
    S.on_loop([&] { log.keep.clear(); });
    S.stop_loop(); S.destroy();
    MC_ASSERT(simos::nsock_open() == 0, "sockets left open");
    }
}
// a limited send buffer: every message accepted arrives, every message refused is reported
void limited(long a) {
    int kind = a & 3, nw = a >> 2 & 1;
    CLog log; simos::cfg().sockbuf = 20;
    {
    CliNet::Config c; c.max_msg_queue_size(8); c.recv_chunk_size(64); c.max_send_buff_size(2); if (nw) c.nworker(2);
    Node<CliNet> S(c);
    S.net->reg_error_handler([&](const std::exception_ptr e, bool f, int32_t id) { mc::Quiet q; log.fatal += f; int code = -2;
        try { std::rethrow_exception(e); } catch (const SalticidaeError &x) { code = x.get_code(); } catch (...) {} log.errs.push_back({id, code}); });
    S.start(); S.net->listen(lo(1000)); S.run();
    Cli k; k.s = simos::raw_connect(1000); k.port = simos::local_port(k.s);
    mc::quiesce();
    std::string want; std::map<int, int> call;
    for (int i = 0; i < 10; i++) {
        CliNet::Msg m(MsgData(i, 3), 0); NetAddr to = lo(k.port); bool ok = true; int id = -1;
        switch (kind) { case SEND: ok = S.net->send_msg(MsgData(i, 3), to); break; case DEFER: id = S.net->send_msg_deferred(MsgData(i, 3), to); break; case CSEND: ok = clientnetwork_send_msg(S.net, &m, &to); break; default: id = clientnetwork_send_msg_deferred_by_move(S.net, &m, &to); }
        mc::quiesce();
        mc::Quiet q; if (id >= 0) for (auto &e: log.errs) if (e.first == id) { MC_ASSERT(e.second == SALTI_ERROR_CONN_NOT_READY, "error code %d", e.second); ok = false; }
        if (ok) want += char('a' + i);
    }
    for (int i = 0; i < 30; i++) { mc::quiesce(); k.pull(); }
    std::string g = k.got();
    { mc::Quiet q; MC_ASSERT(g == want, "the client received '%s', accepted are '%s'", g.c_str(), want.c_str()); MC_ASSERT(want.size() < 10, "no message was refused"); }
    S.stop_loop(); S.destroy();
    }
}
struct Reg { Reg() {
    static char nm[100];
    for (int how = 0; how < 7; how++) for (int nw: {0, 1}) for (int kind = 0; kind < 4; kind++) {
        snprintf(nm, sizeof nm, "route-h%d-w%d-k%d", how, nw, kind);
        mc::scenario("C26", nm, route, how | nw << 3 | kind << 4, netopts(kind < 2 ? (nw ? 1 : 2) : 1, kind < 2 && !nw ? 3 : 2));
    }
    for (int how: {0, 1, 3, 4, 6}) for (int nw: {0, 1}) { snprintf(nm, sizeof nm, "route-any-h%d-w%d", how, nw); mc::scenario("C26", nm, route, how | nw << 3 | 1 << 6, netopts(1, 2)); }
    for (int nw: {0, 1}) for (int kind = 0; kind < 4; kind++) { snprintf(nm, sizeof nm, "limited-w%d-k%d", nw, kind); mc::scenario("C26", nm, limited, kind | nw << 2, netopts(1, 2)); }
} } reg;
}
