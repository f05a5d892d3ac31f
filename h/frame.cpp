// C14: framing of the byte stream into messages, for every fragmentation and for malformed input.
#include "net.h"
namespace {
struct Exp { int op, id, len; };

struct Script {
    const char *name; const char *items; // see below
};
// D<len> data; O opcode 2; E empty payload opcode 2 (its handler cannot parse it); C corrupt payload; K corrupt checksum;
// U unknown opcode; B body larger than the limit; L length field 0xffffffff; H half a message, then silence;
// X close the sending side right after the preceding bytes
const Script scripts[] = {
    {"plain", "D0 D3 O D5"}, {"corrupt", "D2 C3 D1 K2 D4"}, {"corrupt-last", "D1 D2 C1"}, {"corrupt-first", "C0 D1 O"}, {"unknown", "D1 U2 D2 U0 O"},
    {"big", "D1 B D2"}, {"bigfirst", "B D0 D1"}, {"biglen", "D0 L D3 D1"}, {"parse", "D1 E D2"}, {"partial", "D2 D1 H"},
    {"close", "D1 D2 X"}, {"limit", "D31 D30 O"}, {"zero", "Z D1 Z"}, {"manysmall", "O O O O O"}, {"bigclose", "D2 B X"}, {"halfclose", "D4 H X"}, {"corrupt2", "C1 K1 D1"},
    {"fullbig", "O O O O O O B O"}, {"fulllen", "O O O O O O L O"}, {"full", "O O O O O C1 O D3 O"}, {"biglen2", "L D1"},
};

struct State { std::vector<Exp> got; int ups, downs, errs, fatal; std::string bad; };

void body(long a) {
    int si = a & 63, chunk = a >> 6 & 127, segs = a >> 13 & 127, qcap = a >> 20 & 7, burst = a >> 23 & 7, cuts = a >> 26 & 3; bool burstin = a >> 29 & 1; uint32_t magic = (a >> 28 & 1) ? 0xa1b2c3d4 : 0;
    const size_t limit = 32;
    std::string S; std::vector<Exp> want; bool dead = false, close_after = false; int nerr = 0; int id = 0;
    {
        mc::Quiet q;
        const char *p = scripts[si].items;
        while (*p) {
            char c = *p++; int n = 0; while (*p >= '0' && *p <= '9') n = n * 10 + *p++ - '0';
            while (*p == ' ') p++;
            id++;
            bool live = !dead;
            switch (c) {
                case 'D': S += dframe(id, n, magic); if (live) want.push_back({1, id, n}); break;
                case 'O': S += frame(2, payload(id, 0), magic); if (live) want.push_back({2, id, 0}); break;
                case 'Z': S += frame(3, "", magic); if (live) want.push_back({3, 0, 0}); break;
                case 'E': S += frame(2, "", magic); dead = true; break;
                case 'C': { auto f = dframe(id, n, magic); f[HDR] ^= 1; S += f; break; }
                case 'K': { auto f = dframe(id, n, magic); f[9] ^= 0x10; S += f; break; }
                case 'U': S += frame(0x77, payload(id, n), magic); break;
                case 'B': S += dframe(id, limit, magic); if (live) nerr++; dead = true; break;
                case 'L': S += le32(magic) + char(1) + le32(0xffffffff) + le32(0); if (live) nerr++; dead = true; break;
                case 'H': { auto f = dframe(id, 4, magic); S += f.substr(0, HDR + 2); break; }
                case 'X': close_after = true; break;
            }
        }
    }
    // a handler that cannot parse its message ends the connection from the user's loop: what had been queued by then may still be delivered
    bool loose = strchr(scripts[si].items, 'E');
    State st{{}, 0, 0, 0, 0, ""};
    {
    MsgNet::Config c;
    c.max_msg_size(limit);
    c.burst_size(burst ? burst : 1000);
    c.max_msg_queue_size(qcap ? qcap : 16);
    if (magic) { auto &r = c.msg_magic(magic); MC_ASSERT(&r == &c, "the configuration setter does not return the configuration"); }
    c.recv_chunk_size(chunk);
    if (segs) c.max_recv_buff_size(segs);
    Node<MsgNet> nd(c);
    auto &net = *nd.net;
    net.reg_handler([&st](MsgData &&m, const MsgNet::conn_t &) { if (!m.ok) st.bad = "corrupt payload"; st.got.push_back({1, m.id, m.len}); });
    net.reg_handler([&st](MsgOther &&m, const MsgNet::conn_t &) { st.got.push_back({2, m.id, 0}); });
    net.set_handler(3, [&st](const MsgNet::Msg &m, const MsgNet::conn_t &) { st.got.push_back({3, (int)m.get_length(), 0}); });
    net.reg_conn_handler([&st](const ConnPool::conn_t &, bool up) { (up ? st.ups : st.downs)++; return true; });
    net.reg_error_handler([&st](const std::exception_ptr, bool fatal, int32_t id) { st.errs++; if (fatal) st.fatal++; if (id != -1) st.bad = "error id"; });
    nd.start();
    net.listen(lo(1000));
    nd.run();
    if (burstin) simos::cfg().epoll_order = true;
    int s = simos::raw_connect(1000);
    // every way to cut the stream into up to cuts+1 pieces
    size_t pos = 0; int npieces = 0;
    for (int k = 0; k < cuts; k++) {
        int n = (int)(S.size() - pos); if (n < 2) break;
        int x = mc::choose(n, "cut", 0);
        if (x == 0) { if (k == 0) mc::quiesce(); continue; } // no cut here
        raw_send_all(s, S.substr(pos, x)); pos += x; npieces++;
        if (!burstin) mc::quiesce(); else { mc::point("between pieces"); mc::sleep_ms(0); }
    }
    raw_send_all(s, S.substr(pos));
    if (close_after) simos::raw_close(s);
    mc::quiesce(); mc::sleep_ms(50); mc::quiesce();
    bool eof = close_after || simos::raw_eof(s);
    if (dead) MC_ASSERT(eof, "the connection survives malformed input");
    else MC_ASSERT(close_after || !eof, "the connection is ended by well-formed input");
    if (!close_after) simos::raw_close(s);
    mc::quiesce();
    nd.stop_loop();
    nd.destroy();
    MC_ASSERT(st.ups == 1 && st.downs == 1, "connection callbacks: %d up, %d down", st.ups, st.downs);
    }
    MC_ASSERT(st.bad.empty(), "%s", st.bad.c_str());
    MC_ASSERT(st.fatal == 0, "a malformed message is reported as a fatal error of the network");
    MC_ASSERT(st.errs == nerr, "%d errors reported, %d expected", st.errs, nerr);
    MC_ASSERT(loose ? st.got.size() >= want.size() : st.got.size() == want.size(), "%zu messages delivered, %zu expected", st.got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++)
        MC_ASSERT(st.got[i].op == want[i].op && st.got[i].id == want[i].id && st.got[i].len == want[i].len, "message %zu is (%d,%d,%d), expected (%d,%d,%d)", i, st.got[i].op, st.got[i].id, st.got[i].len, want[i].op, want[i].id, want[i].len);
    mc::outcome("%zu %d", st.got.size(), st.errs);
}
struct Reg { Reg() {
    auto add = [](int si, int chunk, int segs, int qcap, int burst, int cuts, int magic, int bq, int bt, bool tonly = false, int burstin = 0) {
        char nm[100]; snprintf(nm, sizeof nm, "frame-%s-c%d-r%d-q%d-b%d-k%d%s", scripts[si].name, chunk, segs, qcap, burst, cuts, magic ? "-m" : burstin ? "-x" : "");
        auto o = netopts(bq, bt); o.thorough_only = tonly;
        mc::scenario("C14", nm, body, si | chunk << 6 | segs << 13 | qcap << 20 | burst << 23 | cuts << 26 | (long)magic << 28 | (long)burstin << 29, o);
    };
    int n = sizeof scripts / sizeof *scripts;
    for (int i = 0; i < n; i++) {
        // the receive buffer always has room for one message of the maximal size
        add(i, 64, 0, 0, 0, 1, 0, 1, 2);
        add(i, 64, 4, 2, 1, 2, 0, 0, 1);
        add(i, 64, 0, 0, 0, 1, 0, strlen(scripts[i].items) < 10 ? 2 : 1, 2, false, 1);
        add(i, 13, 7, 0, 0, 1, i & 1, 0, 2);
        add(i, 5, 12, 2, 1, 1, 1, 0, 1);
        add(i, 1, 50, 2, 2, 1, 0, 0, 1);
    }
} } reg;
}
