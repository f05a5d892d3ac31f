// C32: the C functions of the networks do what the C++ member functions do.  Every scenario runs the same program
// twice, once through the C++ interface and once through the C functions, and compares everything observable.
#include "tls.h"
#include <map>
namespace {
struct Ctx;
struct Tr { std::string s; uint64_t t0; };
Tr *g_tr;
void tr(const char *f, ...) __attribute__((format(printf, 1, 2)));
void tr(const char *f, ...) { mc::Quiet q; char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); char t[32]; snprintf(t, sizeof t, "[%lu] ", (unsigned long)(mc::now() - g_tr->t0)); g_tr->s += t; g_tr->s += b; g_tr->s += '\n'; if (mc::replaying()) mc::note("%s%s", t, b); }
int pport(const NetAddr &a) { int p = ntohs(a.port); return p < 5000 ? p : 9999; } // ephemeral ports differ
int codeof(const std::exception_ptr &e) { try { std::rethrow_exception(e); } catch (const SalticidaeError &x) { return x.get_code() * 1000 + x.get_cerr().oscode; } catch (...) { return SALTI_ERROR_UNKNOWN * 1000; } }
int ccode(const SalticidaeCError &e) { return e.code * 1000 + e.oscode; }
bytearray_t bytes_of(int id, int len) { std::string p = payload(id, len); return bytearray_t(p.begin(), p.end()); }
MsgBase<uint8_t> cxxmsg(int op, int id, int len) { return MsgBase<uint8_t>(op, bytes_of(id, len)); }
msg_t *cmsg(int op, int id, int len) { bytearray_t b = bytes_of(id, len); return msg_new_moved_from_bytearray(op, &b); }
std::string hexof(const bytearray_t &b) { mc::Quiet q; std::string r; char t[4]; for (auto x: b) { snprintf(t, 4, "%02x", x); r += t; } return r; }

// one process under test; c: driven through the C functions
struct Ctx {
    bool c; eventcontext_t *ec; Efd stopfd; FdEvent stopev; BoxObj<ThreadCall> tc; std::thread loop; bool running = false;
    msgnetwork_t *net = nullptr; peernetwork_t *pn = nullptr; clientnetwork_t *cn = nullptr;
    msgnetwork_conn_t *last = nullptr; // the connection reported last
    int refuse = 0, nmsg = 0, ntask = 0; bool post = false; const char *who;
    Ctx(bool c, const char *who): c(c), who(who) {
        ec = c ? eventcontext_new() : new EventContext();
        tc = new ThreadCall(*ec); stopev = FdEvent(*ec, stopfd.fd, [this](int, int) { stopfd.reset(); if (this->c) eventcontext_stop(ec); else ec->stop(); }); stopev.add(FdEvent::READ);
    }
    void keep(const msgnetwork_conn_t &x) {
        if (c) { auto o = last; last = msgnetwork_conn_copy(&x); if (o) msgnetwork_conn_free(o); }
        else { auto o = last; last = new msgnetwork_conn_t(x); delete o; }
    }
    void conn_seen(const msgnetwork_conn_t &x, bool up) {
        bool same; int mode, port, term; std::string cert; NetAddr ad;
        if (c) { same = msgnetwork_conn_get_net(&x) == net; mode = msgnetwork_conn_get_mode(&x); ad = *msgnetwork_conn_get_addr(&x); term = msgnetwork_conn_is_terminated(&x); auto p = msgnetwork_conn_get_peer_cert(&x); if (p) { auto d = x509_get_der(p); cert = hexof(*d).substr(0, 400); bytearray_free(d); } }
        else { same = x->get_net() == net; mode = x->get_mode(); ad = x->get_addr(); term = x->is_terminated(); auto p = x->get_peer_cert(); if (p) cert = hexof(p->get_der()).substr(0, 400); }
        port = pport(ad); (void)term;
        mc::Quiet q; tr("%s: connection %s, net %d, mode %d, port %d, ip %x, cert %s", who, up ? "up" : "down", same, mode, port, ad.ip, cert.c_str());
    }
    bool on_conn(const msgnetwork_conn_t &x, bool up) { conn_seen(x, up); keep(x); return !(up && refuse); }
    void on_msg(int op, const bytearray_t &p, int magic) {
        tr("%s: message %d magic %d '%s'", who, op, magic, hexof(p).c_str()); nmsg++;
        if (post && nmsg == 1) { if (c) threadcall_async_call(tc.get(), [](threadcall_handle_t *, void *u) { ((Ctx *)u)->task(); }, this); else tc->async_call([this](ThreadCall::Handle &) { task(); }); }
    }
    void task() { tr("%s: posted call runs", who); ntask++; }
    void on_err(int code, bool fatal, int id) { tr("%s: error %d fatal %d id %d", who, code, fatal, id); }
    void on_peer(const peernetwork_conn_t &x, bool up) {
        NetAddr a; bytearray_t id;
        if (c) { netaddr_t *p = peernetwork_conn_get_peer_addr(&x); a = *p; netaddr_free(p); peerid_t *i = peernetwork_conn_get_peer_id(&x); id = bytearray_t(*peerid_as_uint256(i)); peerid_free(i);
                 msgnetwork_conn_t *m = msgnetwork_conn_new_from_peernetwork_conn(&x); peernetwork_conn_t *y = peernetwork_conn_new_from_msgnetwork_conn_unsafe(m), *z = peernetwork_conn_copy(y); MC_ASSERT(y->get() == x.get() && z->get() == x.get() && m->get() == x.get(), "a converted connection is another one"); peernetwork_conn_free(y); peernetwork_conn_free(z); msgnetwork_conn_free(m); }
        else { a = x->get_peer_addr(); id = bytearray_t(x->get_peer_id()); }
        mc::Quiet q; tr("%s: peer %s port %d id %s", who, up ? "up" : "down", pport(a), hexof(id).c_str());
    }
    void on_unknown(const NetAddr &a, const salticidae::X509 *x) { tr("%s: unknown peer port %d cert %d", who, pport(a), x != nullptr); }
    void handlers() {
        if (c) {
            for (int op: {1, 2, 77}) msgnetwork_reg_handler(net, op, [](const msg_t *m, const msgnetwork_conn_t *x, void *u) { Ctx *t = (Ctx *)u; datastream_t *d = msg_consume_payload(m); bytearray_t *b = bytearray_new_copied_from_datastream(d); MC_ASSERT(msgnetwork_conn_get_net(x) == t->net, "message handler: wrong connection"); t->on_msg(msg_get_opcode(m), *b, msg_get_magic(m)); bytearray_free(b); datastream_free(d); }, this);
            msgnetwork_reg_conn_handler(net, [](const msgnetwork_conn_t *x, bool up, void *u) { return ((Ctx *)u)->on_conn(*x, up); }, this);
            msgnetwork_reg_error_handler(net, [](const SalticidaeCError *e, bool f, int32_t id, void *u) { ((Ctx *)u)->on_err(ccode(*e), f, id); }, this);
            if (pn) {
                peernetwork_reg_peer_handler(pn, [](const peernetwork_conn_t *x, bool up, void *u) { ((Ctx *)u)->on_peer(*x, up); }, this);
                peernetwork_reg_unknown_peer_handler(pn, [](const netaddr_t *a, const x509_t *x, void *u) { ((Ctx *)u)->on_unknown(*a, x); }, this);
            }
        } else {
            for (int op: {1, 2, 77}) net->set_handler(op, [this](const msgnetwork_t::Msg &m, const msgnetwork_conn_t &x) { MC_ASSERT(x->get_net() == net, "message handler: wrong connection"); on_msg(m.get_opcode(), bytearray_t(m.get_payload()), m.get_magic()); });
            net->reg_conn_handler([this](const ConnPool::conn_t &x, bool up) { auto y = static_pointer_cast<msgnetwork_t::Conn>(x); return on_conn(y, up); });
            net->reg_error_handler([this](const std::exception_ptr e, bool f, int32_t id) { on_err(codeof(e), f, id); });
            if (pn) {
                pn->reg_peer_handler([this](const peernetwork_conn_t &x, bool up) { on_peer(x, up); });
                pn->reg_unknown_peer_handler([this](const NetAddr &a, const salticidae::X509 *x) { on_unknown(a, x); });
            }
        }
    }
    // configs are passed as a list of (setting, value)
    enum { MAXMSG, QUEUE, BURST, BACKLOG, SRVTMO, CHUNK, NWORKER, RBUF, SBUF, TLS, KEYMOVE, CERTMOVE, KEYFILE, CERTFILE, PING, TMO, IDMODE, NSET };
    typedef std::vector<std::pair<int, double>> Set;
    static const char *fname(int v) { return v == 0 ? "/nonexistent/salticidae-verif" : "/dev/null"; }
    static void set(bool c, msgnetwork_config_t *m, peernetwork_config_t *p, int k, double v) {
        switch (k) {
        case MAXMSG: if (c) msgnetwork_config_max_msg_size(m, v); else m->max_msg_size(v); break;
        case QUEUE: if (c) msgnetwork_config_max_msg_queue_size(m, v); else m->max_msg_queue_size(v); break;
        case BURST: if (c) msgnetwork_config_burst_size(m, v); else m->burst_size(v); break;
        case BACKLOG: if (c) msgnetwork_config_max_listen_backlog(m, v); else m->max_listen_backlog(v); break;
        case SRVTMO: if (c) msgnetwork_config_conn_server_timeout(m, v); else m->conn_server_timeout(v); break;
        case CHUNK: if (c) msgnetwork_config_recv_chunk_size(m, v); else m->recv_chunk_size(v); break;
        case NWORKER: if (c) msgnetwork_config_nworker(m, v); else m->nworker(v); break;
        case RBUF: if (c) msgnetwork_config_max_recv_buff_size(m, v); else m->max_recv_buff_size(v); break;
        case SBUF: if (c) msgnetwork_config_max_send_buff_size(m, v); else m->max_send_buff_size(v); break;
        case TLS: if (c) msgnetwork_config_enable_tls(m, v); else m->enable_tls(v); break;
        case KEYMOVE: { auto k = tlsx::new_key((int)v); if (c) msgnetwork_config_tls_key_by_move(m, k); else m->tls_key(new PKey(std::move(*k))); delete k; } break;
        case CERTMOVE: { auto k = tlsx::new_cert((int)v); if (c) msgnetwork_config_tls_cert_by_move(m, k); else m->tls_cert(new salticidae::X509(std::move(*k))); delete k; } break;
        case KEYFILE: if (c) msgnetwork_config_tls_key_file(m, fname((int)v)); else m->tls_key_file(fname((int)v)); break;
        case CERTFILE: if (c) msgnetwork_config_tls_cert_file(m, fname((int)v)); else m->tls_cert_file(fname((int)v)); break;
        case PING: if (c) peernetwork_config_ping_period(p, v); else p->ping_period(v); break;
        case TMO: if (c) peernetwork_config_conn_timeout(p, v); else p->conn_timeout(v); break;
        case IDMODE: if (c) peernetwork_config_id_mode(p, v ? ID_MODE_CERT_BASED : ID_MODE_ADDR_BASED); else p->id_mode(v ? peernetwork_t::CERT_BASED : peernetwork_t::ADDR_BASED); break;
        }
    }
    // kind 0 MsgNetwork, 1 PeerNetwork, 2 ClientNetwork
    bool create(int kind, const Set &s) {
        SalticidaeCError e; e.code = 77; e.oscode = 5;
        if (kind == 1) {
            peernetwork_config_t *p = c ? peernetwork_config_new() : new peernetwork_config_t(); msgnetwork_config_t *m = c ? peernetwork_config_as_msgnetwork_config(p) : p;
            for (auto &x: s) set(c, m, p, x.first, x.second);
            if (c) { pn = peernetwork_new(ec, p, &e); tr("%s: new %d", who, ccode(e)); if (pn) { net = peernetwork_as_msgnetwork(pn); MC_ASSERT(msgnetwork_as_peernetwork_unsafe(net) == pn, "converted network is another one"); } peernetwork_config_free(p); }
            else { try { pn = new peernetwork_t(*ec, *p); tr("%s: new 0", who); } catch (...) { tr("%s: new %d", who, codeof(std::current_exception())); } net = pn; delete p; }
        } else {
            msgnetwork_config_t *m = c ? msgnetwork_config_new() : new msgnetwork_config_t();
            for (auto &x: s) set(c, m, nullptr, x.first, x.second);
            if (c) { if (kind) { cn = clientnetwork_new(ec, m, &e); if (cn) { net = clientnetwork_as_msgnetwork(cn); MC_ASSERT(msgnetwork_as_clientnetwork_unsafe(net) == cn, "converted network is another one"); } } else net = msgnetwork_new(ec, m, &e); tr("%s: new %d", who, ccode(e)); msgnetwork_config_free(m); }
            else { try { if (kind) net = cn = new clientnetwork_t(*ec, *m); else net = new msgnetwork_t(*ec, *m); tr("%s: new 0", who); } catch (...) { tr("%s: new %d", who, codeof(std::current_exception())); } delete m; }
        }
        if (net) handlers();
        return net;
    }
    void start() { if (c) msgnetwork_start(net); else net->start(); }
    void run() { running = true; loop = std::thread([this] { if (c) eventcontext_dispatch(ec); else ec->dispatch(); }); }
    template<typename F> void on_loop(F f) { tc->call([f](ThreadCall::Handle &) { f(); }).get(); }
    void listen(int port) {
        NetAddr a = lo(port);
        if (c) { SalticidaeCError e; e.code = 77; e.oscode = 5; if (pn) peernetwork_listen(pn, &a, &e); else msgnetwork_listen(net, &a, &e); tr("%s: listen %d backlog %d", who, ccode(e), simos::backlog(port)); }
        else try { if (pn) pn->listen(a); else net->listen(a); tr("%s: listen 0 backlog %d", who, simos::backlog(port)); } catch (...) { tr("%s: listen %d backlog %d", who, codeof(std::current_exception()), simos::backlog(port)); }
    }
    void connect(int port) { NetAddr a = lo(port); int id = c ? msgnetwork_connect(net, &a) : net->connect(a); tr("%s: connect -> %d", who, id); }
    void connect_sync(int port) {
        NetAddr a = lo(port); int code = 0; msgnetwork_conn_t *x = nullptr;
        if (c) { SalticidaeCError e; e.code = 77; e.oscode = 5; x = msgnetwork_connect_sync(net, &a, &e); code = ccode(e); } else try { x = new msgnetwork_conn_t(net->connect_sync(a)); } catch (...) { code = codeof(std::current_exception()); }
        tr("%s: connect_sync %d -> %d", who, x != nullptr, code); if (x) { if (c) msgnetwork_conn_free(x); else delete x; }
    }
    bool send(int op, int id, int len, bool deferred) { // to the last connection, on the loop
        if (!last) return false; bool r = true; int32_t aid = -1;
        if (c) { msg_t *m = cmsg(op, id, len); if (deferred) aid = msgnetwork_send_msg_deferred_by_move(net, m, last); else r = msgnetwork_send_msg(net, m, last); msg_free(m); }
        else { auto m = cxxmsg(op, id, len); if (deferred) aid = net->_send_msg_deferred(std::move(m), *last); else r = net->_send_msg(m, *last); }
        tr("%s: send %d, id %d", who, r, aid); return r;
    }
    void terminate() { if (!last) return; if (c) msgnetwork_terminate(net, last); else net->terminate(*last); }
    void drop() { if (last) { if (c) msgnetwork_conn_free(last); else delete last; last = nullptr; } }
    void finish(bool stop_net = false) {
        if (running) { on_loop([this] { drop(); }); running = false; stopfd.notify(); loop.join(); }
        drop();
        if (net) { if (stop_net) { if (c) msgnetwork_stop(net); else net->stop(); }
            if (!c) delete net; else if (pn) peernetwork_free(pn); else if (cn) clientnetwork_free(cn); else msgnetwork_free(net); net = nullptr; }
    }
    ~Ctx() { finish(); stopev.clear(); tc = nullptr; if (c) eventcontext_free(ec); else delete ec; }
};
typedef Ctx::Set Set;
Set base() { return {{Ctx::QUEUE, 8}, {Ctx::CHUNK, 64}}; }
Set pbase() { return {{Ctx::QUEUE, 8}, {Ctx::CHUNK, 64}, {Ctx::IDMODE, 0}, {Ctx::PING, 5}, {Ctx::TMO, 12}}; }
int nrand; int rnd() { mc::Quiet q; return 10 + nrand++; }
template<typename F> void both(F f) {
    Tr t[2]; int choices = 0; (void)choices;
    tlsx::begin(); simos::on_rand(rnd);
    for (int c = 0; c < 2; c++) {
        { mc::Quiet q; nrand = 0; g_tr = &t[c]; t[c].t0 = mc::now(); }
        f(c); mc::quiesce();
        tr("open sockets %d", simos::nsock_open());
    }
    mc::Quiet q;
    if (t[0].s != t[1].s) {
        size_t i = 0; while (t[0].s[i] == t[1].s[i]) i++; // both end with a newline and differ
        auto line = [&](const std::string &s) { size_t b = s.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; size_t e = s.find('\n', b); return s.substr(b, e - b); };
        std::string a = line(t[0].s), b = line(t[1].s);
        mc::fail("C++: \"%s\", C: \"%s\"", a.c_str(), b.c_str());
    }
    mc::outcome("%zx", std::hash<std::string>()(t[0].s));
}
void settle(uint64_t ms) { mc::quiesce(); mc::sleep_ms(ms); mc::quiesce(); }

// ---- every configuration function against a program in which every setting is visible
void config(long tlsok) {
    static const std::pair<int, double> V[] = {{-1, 0}, {Ctx::MAXMSG, 10}, {Ctx::MAXMSG, 11}, {Ctx::QUEUE, 2}, {Ctx::QUEUE, 4}, {Ctx::BURST, 1}, {Ctx::BURST, 3}, {Ctx::BACKLOG, 3}, {Ctx::BACKLOG, 17}, {Ctx::SRVTMO, 1}, {Ctx::SRVTMO, 4}, {Ctx::CHUNK, 16}, {Ctx::CHUNK, 40}, {Ctx::NWORKER, 2}, {Ctx::NWORKER, 3}, {Ctx::RBUF, 2}, {Ctx::RBUF, 3}, {Ctx::SBUF, 2}, {Ctx::SBUF, 4}};
    int k = mc::choose(sizeof V / sizeof *V, "setting", 0), kind = mc::choose(3, "kind", 0); (void)tlsok;
    simos::cfg().sockbuf = 40;
    both([&](bool c) {
        Ctx n(c, "n"); Set s = kind == 1 ? pbase() : base(); if (k) s.push_back(V[k]); n.post = true;
        int th0 = mc::count_threads(); long r0 = simos::nsys(1);
        if (!n.create(kind, s)) return; n.start(); n.listen(1000); tr("%d threads", mc::count_threads() - th0);
        n.run(); int s1 = simos::raw_connect(1000); mc::quiesce();
        // the user loop is busy: how much is taken from the connection
        std::atomic<int> go(0); n.tc->async_call([&go](ThreadCall::Handle &) { while (!go) mc::yield(); }); for (int i = 0; i < 10; i++) mc::yield();
        std::string d; for (int i = 0; i < 30; i++) d += dframe(i, 10); size_t a = 0; for (int i = 0; i < 40 && a < d.size(); i++) { a += simos::raw_send(s1, d.data() + a, d.size() - a); for (int j = 0; j < 10; j++) mc::yield(); }
        tr("%zu bytes accepted, %ld reads", a, simos::nsys(1) - r0);
        go = 1; mc::quiesce(); raw_send_all(s1, d.substr(a)); mc::quiesce(); tr("eof %d, %ld reads", simos::raw_eof(s1), simos::nsys(1) - r0);
        n.on_loop([&] { for (int i = 0; i < 9 && n.last; i++) if (!n.send(1, i, 30, false)) break; });
        mc::quiesce(); std::string got; for (int i = 0; i < 60; i++) { std::string x = raw_drain(s1); { mc::Quiet q; got += x; } if (x.empty()) break; mc::quiesce(); } tr("sent %zu bytes", got.size());
        simos::raw_close(s1); mc::quiesce();
        if (kind != 2) { simos::blackhole(1001); n.connect(1001); settle(6000); }
        n.finish(k & 1);
    });
}
// ---- all sequences of calls on a MsgNetwork
void ops(long a) {
    int depth = a & 7, tls = a >> 3 & 1; int o[6]; for (int i = 0; i < depth; i++) o[i] = mc::choose(14, "call", 0);
    both([&](bool c) {
        Ctx n(c, "n"), m(false, "m"); Set s = base(), s2 = base(); s.push_back({Ctx::SRVTMO, 3}); if (tls) { for (auto x: {&s, &s2}) { x->push_back({Ctx::TLS, 1}); x->push_back({Ctx::KEYMOVE, x == &s ? 0 : 1}); x->push_back({Ctx::CERTMOVE, x == &s ? 0 : 1}); } }
        n.create(0, s); m.create(0, s2); n.start(); m.start(); m.listen(2000); n.run(); m.run(); simos::blackhole(2002);
        std::vector<int> raw;
        for (int i = 0; i < depth; i++) { tr("- call %d", o[i]); switch (o[i]) {
            case 0: n.listen(1000); break;
            case 1: n.connect(2000); break;
            case 2: n.connect(2001); break;             // refused
            case 3: n.connect_sync(2000); break;
            case 4: n.connect_sync(2001); break;
            case 5: n.on_loop([&] { n.send(1, 1, 5, false); }); break;
            case 6: n.on_loop([&] { n.send(77, 2, 0, true); }); break;
            case 7: n.on_loop([&] { n.terminate(); }); break;
            case 8: m.on_loop([&] { m.send(2, 3, 9, false); m.send(9, 4, 1, false); }); break; // opcode 9 has no handler
            case 9: m.on_loop([&] { m.terminate(); }); break;
            case 10: n.on_loop([&] { n.refuse = !n.refuse; }); break;
            case 11: n.connect(2002); break;            // nobody answers
            case 13: n.listen(2000); break;             // in use
            case 12: { int r = simos::raw_connect(1000); tr("raw %d", r >= 0); if (r >= 0) { { mc::Quiet q; raw.push_back(r); } raw_send_all(r, tls ? std::string("hello") : dframe(7, 3, 0x1234)); } } break;
            }
            settle(100); }
        settle(4000);
        for (int r: raw) { std::string x = raw_drain(r); tr("raw got %zu eof %d", x.size(), simos::raw_eof(r)); simos::raw_close(r); } mc::quiesce();
        n.finish(true); m.finish();
    });
}
// ---- all sequences of calls on a PeerNetwork
void peers(long a) {
    int depth = a & 7, tls = a >> 3 & 1; int o[6]; for (int i = 0; i < depth; i++) o[i] = mc::choose(15, "call", 0);
    both([&](bool c) {
        Ctx n(c, "n"), m(false, "m"); Set s = pbase(), s2 = pbase(); if (tls) for (auto x: {&s, &s2}) { int k = x != &s; x->push_back({Ctx::IDMODE, 1}); x->push_back({Ctx::TLS, 1}); x->push_back({Ctx::KEYMOVE, k}); x->push_back({Ctx::CERTMOVE, k}); }
        n.create(1, s); m.create(1, s2); n.start(); m.start(); n.listen(1000); m.listen(2000); n.run(); m.run();
        auto mk = [&](int k) -> peerid_t * { // 0 n, 1 m, 2 nobody
            peerid_t *r;
            if (tls) { auto x = tlsx::new_cert(k); r = c ? peerid_new_from_x509(x) : new PeerId(*x); delete x; } else { NetAddr ad = lo(1000 * (k + 1)); r = c ? peerid_new_from_netaddr(&ad) : new PeerId(ad); }
            if (c) { peerid_t *y = peerid_new_copied_from_uint256(peerid_as_uint256(r)); uint256_t u(*peerid_as_uint256(r)); peerid_t *z = peerid_new_moved_from_uint256(&u); MC_ASSERT(*y == *r && *z == *r, "a copied peer identifier is another one"); peerid_free(y); peerid_free(z); }
            tr("id %s", hexof(bytearray_t(*r)).c_str()); return r; };
        peerid_t *N = mk(0), *M = mk(1), *X = mk(2);
        m.pn->add_peer(*N); if (tls) m.pn->set_peer_addr(*N, lo(1000)); mc::quiesce();
        auto err = [&](const char *w, int code) { tr("%s -> %d", w, code); };
        for (int i = 0; i < depth; i++) { tr("- call %d", o[i]); NetAddr ad = lo(2000); switch (o[i]) {
            case 0: err("add_peer", c ? peernetwork_add_peer(n.pn, M) : n.pn->add_peer(*M)); break;
            case 1: err("del_peer", c ? peernetwork_del_peer(n.pn, M) : n.pn->del_peer(*M)); break;
            case 2: err("set_peer_addr", c ? peernetwork_set_peer_addr(n.pn, M, &ad) : n.pn->set_peer_addr(*M, ad)); break;
            case 3: err("conn_peer", c ? peernetwork_conn_peer(n.pn, M, 2, 1.5) : n.pn->conn_peer(*M, 2, 1.5)); break;
            case 4: err("has_peer", c ? peernetwork_has_peer(n.pn, M) : n.pn->has_peer(*M)); break;
            case 5: { int code = 0; bool got = false, term = false;
                if (c) { SalticidaeCError e; e.code = 77; e.oscode = 5; auto x = peernetwork_get_peer_conn(n.pn, M, &e); code = ccode(e); if ((got = x)) { term = !(bool)*x; n.on_loop([&] { peernetwork_conn_free(x); }); } }
                else try { auto x = new peernetwork_conn_t(n.pn->get_peer_conn(*M)); got = true; term = !(bool)*x; n.on_loop([&] { delete x; }); } catch (...) { code = codeof(std::current_exception()); }
                tr("get_peer_conn %d %d -> %d", got, term, code); } break;
            case 6: { bool r = false; if (c) { msg_t *x = cmsg(1, 1, 5); r = peernetwork_send_msg(n.pn, x, M); msg_free(x); } else try { r = n.pn->_send_msg(cxxmsg(1, 1, 5), *M); } catch (...) {} tr("send_msg %d", r); } break;
            case 7: { int r; if (c) { msg_t *x = cmsg(2, 2, 6); r = peernetwork_send_msg_deferred_by_move(n.pn, x, M); msg_free(x); } else r = n.pn->_send_msg_deferred(cxxmsg(2, 2, 6), *M); err("send_msg_deferred", r); } break;
            case 8: case 9: { int r; const peerid_t *v[] = {M, X}; if (o[i] == 8) std::swap(v[0], v[1]); size_t k = 1 + (o[i] == 8); if (c) { peerid_array_t *e = peerid_array_new(); MC_ASSERT(e->empty(), "new array"); peerid_array_free(e); msg_t *x = cmsg(77, 3, 7); peerid_array_t *p = peerid_array_new_from_peers(v, k); r = peernetwork_multicast_msg_by_move(n.pn, x, p); msg_free(x); peerid_array_free(p); } else { std::vector<PeerId> p; for (size_t j = 0; j < k; j++) p.push_back(*v[j]); r = n.pn->_multicast_msg(cxxmsg(77, 3, 7), p); } err("multicast_msg", r); } break;
            case 10: m.pn->conn_peer(*N, 1, 1.5); break;
            case 11: n.on_loop([&] { n.terminate(); }); break;
            case 12: settle(7000); break;               // a heartbeat
            case 13: { int k = simos::find_estab(0); if (k >= 0) simos::partition(true); settle(16000); simos::partition(false); } break;
            case 14: n.listen(2000); break;             // in use
            }
            settle(50); }
        settle(4000);
        n.finish(o[0] & 1); m.finish();
        if (c) { peerid_free(N); peerid_free(M); peerid_free(X); } else { delete N; delete M; delete X; }
    });
}
// ---- how often the heartbeat runs and when a dead peer is given up
void heart(long) {
    int p = mc::choose(3, "ping_period", 0), t = mc::choose(3, "conn_timeout", 0);
    both([&](bool c) {
        Ctx n(c, "n"), m(false, "m"); Set s = pbase(); s.push_back({Ctx::PING, 1.0 + 2 * p}); s.push_back({Ctx::TMO, 5.0 + 4 * t}); n.create(1, s); m.create(1, pbase()); n.start(); m.start(); n.listen(1000); m.listen(2000); n.run(); m.run();
        PeerId N(lo(1000)), M(lo(2000)); m.pn->add_peer(N); n.pn->add_peer(M); mc::quiesce(); n.pn->set_peer_addr(M, lo(2000)); n.pn->conn_peer(M, 1, 1); mc::quiesce();
        long k = simos::nsys(0); for (int i = 0; i < 12; i++) { settle(1000); long j = simos::nsys(0); tr("%ld messages", j - k); k = j; }
        simos::partition(true); settle(30000); simos::partition(false); settle(1000);
        n.finish(); m.finish();
    });
}
// ---- wrong key or certificate files
void files(long) {
    int kind = mc::choose(3, "kind", 0), en = mc::choose(2, "tls", 0), kf = mc::choose(4, "key", 0), cf = mc::choose(4, "cert", 0), rep = mc::choose(2, "order", 0);
    both([&](bool c) {
        Ctx n(c, "n"); Set s = kind == 1 ? pbase() : base(); s.push_back({Ctx::TLS, en});
        auto key = [&] { if (kf < 2) s.push_back({Ctx::KEYFILE, kf}); else if (kf == 2) s.push_back({Ctx::KEYMOVE, 0}); }; auto cert = [&] { if (cf < 2) s.push_back({Ctx::CERTFILE, cf}); else if (cf == 2) s.push_back({Ctx::CERTMOVE, rep}); };
        if (rep) { cert(); key(); } else { key(); cert(); }
        if (n.create(kind, s)) { n.start(); n.listen(1000); n.run(); settle(10); }
        n.finish();
    });
}
// ---- clients
void clients(long a) {
    int depth = a & 7; int o[6]; for (int i = 0; i < depth; i++) o[i] = mc::choose(8, "call", 0);
    both([&](bool c) {
        Ctx n(c, "n"); n.create(2, base()); n.start(); n.listen(1000); n.run(); mc::quiesce();
        int s[2] = {-1, -1};
        auto snd = [&](int port, bool def) { NetAddr ad = lo(port); if (c) { msg_t *x = cmsg(1, 1, 5); if (def) tr("deferred %d", clientnetwork_send_msg_deferred_by_move(n.cn, x, &ad)); else tr("send %d", clientnetwork_send_msg(n.cn, x, &ad)); msg_free(x); } else { bool r = false; if (def) tr("deferred %d", n.cn->_send_msg_deferred(cxxmsg(1, 1, 5), ad)); else { try { r = n.cn->_send_msg(cxxmsg(1, 1, 5), ad); } catch (...) {} tr("send %d", r); } } };
        for (int i = 0; i < depth; i++) { tr("- call %d", o[i]); int k = o[i] & 1; switch (o[i] >> 1) {
            case 0: if (s[k] < 0) s[k] = simos::raw_connect(1000, 3000 + k); else { simos::raw_close(s[k]); s[k] = -1; } break;
            case 1: snd(3000 + k, false); break;
            case 2: snd(3000 + k, true); break;
            case 3: if (k && s[0] >= 0) raw_send_all(s[0], dframe(3, 3)); if (!k) n.on_loop([&] { if (!n.last) return; if (c) { clientnetwork_conn_t *y = clientnetwork_conn_new_from_msgnetwork_conn_unsafe(n.last), *z = clientnetwork_conn_copy(y); msgnetwork_conn_t *w = msgnetwork_conn_new_from_clientnetwork_conn(z); MC_ASSERT(w->get() == n.last->get(), "a converted connection is another one"); msgnetwork_conn_free(w); clientnetwork_conn_free(z); clientnetwork_conn_free(y); } n.terminate(); }); break;
            }
            settle(20); for (int j = 0; j < 2; j++) if (s[j] >= 0) { std::string x = raw_drain(s[j]); tr("client %d got %zu eof %d", j, x.size(), simos::raw_eof(s[j])); } }
        for (int j = 0; j < 2; j++) if (s[j] >= 0) simos::raw_close(s[j]);
        mc::quiesce(); n.finish(depth & 1);
    });
}
struct Reg { Reg() {
    mc::scenario("C32", "config", config, 0, netopts(0, 0)); mc::scenario("C32", "files", files, 0, netopts(0, 0)); mc::scenario("C32", "heart", heart, 0, netopts(0, 0));
    mc::Opts t = netopts(0, 0); t.thorough_only = true;
    mc::scenario("C32", "ops", ops, 3, netopts(0, 0)); mc::scenario("C32", "ops-tls", ops, 3 | 8, netopts(0, 0)); mc::scenario("C32", "ops-deep", ops, 4, t); mc::scenario("C32", "ops-tls-deep", ops, 4 | 8, t);
    mc::scenario("C32", "peers", peers, 4, netopts(0, 0)); mc::scenario("C32", "peers-tls", peers, 3 | 8, netopts(0, 0)); mc::scenario("C32", "peers-deep", peers, 5, t); mc::scenario("C32", "peers-tls-deep", peers, 4 | 8, t);
    mc::scenario("C32", "clients", clients, 4, netopts(0, 0)); mc::scenario("C32", "clients-deep", clients, 5, t);
} } reg;
}

