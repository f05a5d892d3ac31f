// A PeerNetwork node for the p2p harnesses.
#pragma once
#include "net.h"
#include <map>
#include <algorithm>
struct PLog {
    struct Ev { const void *c; bool up; uint64_t t; };
    std::vector<Ev> ev; std::vector<PeerNet::conn_t> keep; int err = 0, fatal = 0, unknown = 0; std::vector<int> ids, codes; std::vector<std::pair<int, int>> calls; std::string got; int bad = 0; int msgs_after = 0;
    std::vector<NetAddr> unk;
    int n(bool up) { int k = 0; for (auto &e: ev) k += e.up == up; return k; }
    // per connection: U, UD or D
    void check(const char *who) {
        mc::Quiet q; std::map<const void *, std::string> h;
        for (auto &e: ev) h[e.c] += e.up ? 'U' : 'D';
        for (auto &p: h) MC_ASSERT(p.second == "U" || p.second == "UD" || p.second == "D", "%s: peer connection notified '%s'", who, p.second.c_str());
        MC_ASSERT(!fatal, "%s: fatal error reported (code %d)", who, codes.size() ? codes.back() : -1);
        MC_ASSERT(!bad, "%s: corrupted message", who);
    }
    int nup() { mc::Quiet q; std::map<const void *, int> h; for (auto &e: ev) h[e.c] += e.up ? 1 : -1; int k = 0; for (auto &p: h) k += p.second == 1; return k; }
    const void *cur() { mc::Quiet q; std::map<const void *, int> h; for (auto &e: ev) h[e.c] += e.up ? 1 : -1; for (auto &p: h) if (p.second == 1) return p.first; return nullptr; }
    std::string str() { mc::Quiet q; std::string r; std::map<const void *, int> id; for (auto &e: ev) { int k = id.emplace(e.c, (int)id.size()).first->second; r += (e.up ? 'U' : 'D'); r += char('0' + k); } return r; }
};
struct PNode: Node<PeerNet> {
    PLog log; NetAddr addr; PeerId pid;
    PNode(const PeerNet::Config &c, int port): Node<PeerNet>(c), addr(lo(port)), pid(addr) {
        net->reg_peer_handler([this](const PeerNet::conn_t &c, bool up) { { mc::Quiet q; log.ev.push_back({c.get(), up, mc::now()}); } log.keep.push_back(c); });
        net->reg_unknown_peer_handler([this](const NetAddr &a, const salticidae::X509 *) { mc::Quiet q; log.unknown++; log.unk.push_back(a); });
        net->reg_error_handler([this](const std::exception_ptr e, bool f, int32_t id) {
            mc::Quiet q; log.err++; log.fatal += f; if (id >= 0) log.ids.push_back(id);
            try { std::rethrow_exception(e); } catch (const SalticidaeError &x) { log.codes.push_back(x.get_code()); } catch (...) { log.codes.push_back(-2); }
            if (id >= 0) log.calls.push_back({id, log.codes.back()});
        });
        net->reg_handler([this](MsgData &&m, const PeerNet::conn_t &) { mc::Quiet q; if (!m.ok) log.bad++; log.got += char('a' + m.id); });
    }
    void up() { start(); net->listen(addr); run(); }
    void know(PNode &o, bool set_addr = true) { net->add_peer(o.pid); if (set_addr) net->set_peer_addr(o.pid, o.addr); }
    void finish() { on_loop([this] { log.keep.clear(); }); stop_loop(); destroy(); }
};
inline PeerNet::Config pcfg(int nworker = 1, double ping = 30, double tmo = 180) {
    PeerNet::Config c; c.max_msg_queue_size(8); c.recv_chunk_size(64); if (nworker > 1) c.nworker(nworker);
    c.id_mode(PeerNet::ADDR_BASED).ping_period(ping).conn_timeout(tmo); return c;
}
extern int g_draws, g_enum;
// the first `en` random numbers are smaller than, equal to or larger than the next one
inline int draw() { int k; { mc::Quiet q; k = g_draws++; } mc::touch(&g_draws, true); if (k < g_enum) { int c = mc::choose(3, "nonce", 0); return c == 0 ? 5 : c == 1 ? 11 + k : 30 + k; } return 10 + k; }
inline void rand_init(int en) { { mc::Quiet q; g_draws = 0; g_enum = en; } simos::on_rand(draw); }
