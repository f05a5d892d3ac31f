// Helpers for the network harnesses: a node (user loop thread + network), messages, raw wire peers.
#pragma once
#include "rt.h"
#include "simos.h"
#include <thread>
#include <vector>
#include <string>
#include <functional>
#include <cstring>
#include "salticidae/event.h"
#include "salticidae/network.h"
#include <sys/eventfd.h>
#include <unistd.h>
using namespace salticidae;

using MsgNet = MsgNetwork<uint8_t>;
using PeerNet = PeerNetwork<uint8_t>;
using CliNet = ClientNetwork<uint8_t>;

struct Efd {
    int fd;
    Efd(): fd(eventfd(0, EFD_NONBLOCK)) {}
    ~Efd() { close(fd); }
    void reset() { uint64_t x; if (read(fd, &x, 8) != 8) {} }
    void notify() { uint64_t x = 1; if (write(fd, &x, 8) != 8) {} }
};

// a message: one id byte followed by len pattern bytes
struct MsgData {
    static const uint8_t opcode = 1;
    DataStream serialized;
    int id, len; bool ok;
    MsgData(int id, int len) { serialized << (uint8_t)id; for (int i = 0; i < len; i++) serialized << (uint8_t)(id * 31 + i * 7 + 3); }
    MsgData(DataStream &&s) {
        uint8_t x; s >> x; id = x; len = 0; ok = true;
        while (s.size()) { s >> x; if (x != (uint8_t)(id * 31 + len * 7 + 3)) ok = false; len++; }
    }
};
struct MsgOther { // a second opcode
    static const uint8_t opcode = 2;
    DataStream serialized; int id;
    MsgOther(int id) { serialized << (uint8_t)id; }
    MsgOther(DataStream &&s) { uint8_t x; s >> x; id = x; }
};

// independent encoder of the wire image
inline std::string le32(uint32_t x) { std::string r; for (int i = 0; i < 4; i++) r += char(x >> (8 * i)); return r; }
uint32_t ref_checksum(const std::string &payload); // first four bytes of SHA-1, little-endian
inline std::string frame(uint8_t op, const std::string &payload, uint32_t magic = 0) {
    return le32(magic) + char(op) + le32((uint32_t)payload.size()) + le32(ref_checksum(payload)) + payload;
}
inline std::string payload(int id, int len) { std::string p; p += char(id); for (int i = 0; i < len; i++) p += char(id * 31 + i * 7 + 3); return p; }
inline std::string dframe(int id, int len, uint32_t magic = 0) { return frame(1, payload(id, len), magic); }
enum { HDR = 13 };

// One process: an event loop run by its own thread and a network.
template<typename Net> struct Node {
    EventContext ec;
    Efd stopfd;
    FdEvent stopev;
    BoxObj<ThreadCall> tc;     // to run things on the user loop
    Net *net;
    std::thread loop;
    bool running;
    Node(const typename Net::Config &c): net(new Net(ec, c)), running(false) {
        tc = new ThreadCall(ec);
        stopev = FdEvent(ec, stopfd.fd, [this](int, int) { stopfd.reset(); ec.stop(); });
        stopev.add(FdEvent::READ);
    }
    void start() { net->start(); }
    void run() { running = true; loop = std::thread([this] { ec.dispatch(); }); }
    // runs f on the user loop and waits
    template<typename F> void on_loop(F f) { tc->call([f](ThreadCall::Handle &) { f(); }).get(); }
    void stop_loop() { if (running) { running = false; stopfd.notify(); loop.join(); } }
    void destroy() { delete net; net = nullptr; }
    ~Node() { stop_loop(); if (net) destroy(); stopev.clear(); tc = nullptr; }
};

// send bytes through a raw peer, all of them (waits for room)
inline void raw_send_all(int s, const std::string &d, bool wait = true) {
    size_t k = 0; int stall = 0;
    while (k < d.size()) {
        size_t r = simos::raw_send(s, d.data() + k, d.size() - k);
        k += r;
        if (!r) { if (!wait || simos::raw_eof(s) || ++stall > 100) return; mc::quiesce(); if (stall > 3) mc::sleep_ms(1); }
        else stall = 0;
    }
}
inline std::string raw_drain(int s) {
    std::string r; char b[4096]; size_t n;
    while ((n = simos::raw_recv(s, b, sizeof b))) r.append(b, n);
    return r;
}
inline NetAddr lo(int port) { return NetAddr(htonl(INADDR_LOOPBACK), htons(port)); }
inline mc::Opts netopts(int bq, int bt) {
    mc::Opts o; o.bound_quick = bq; o.bound_thorough = bt; o.atomic_points = false; o.free_switch = false; o.horizon = 60000; return o;
}
