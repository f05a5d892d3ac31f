// Simulated kernel objects (eventfd, TCP sockets) and a simulated libuv, driven by mcrt.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>

namespace simos {
struct Cfg {
    size_t sockbuf = 1 << 16;    // receive window of a socket, bytes
    int short_write = 0;         // number of alternative answers of send(): 1 byte, half, EAGAIN (0..3)
    int short_read = 0;          // number of alternative answers of recv(): 1 byte, half, EAGAIN (0..3)
    bool spurious_eagain = false;// an extra EAGAIN answer on read/recv
    bool epoll_order = false;    // order of ready descriptors within one loop iteration
    bool early_timers = false;   // a timer may expire before pending work is done
    uint64_t early_ms = 1000;    // only timers at most that far in the future
    bool timer_point = false;
    int fail_calls = 0;          // number of injectable failures of socket/setsockopt/fcntl/accept/bind/listen
    bool reuse_ports = false;    // the ephemeral port of a closed client socket is handed out again
    bool loop_points = true;     // scheduling point before every loop callback
    size_t chunk_cap = 0;        // cap one send() to that many bytes (0: none)
    bool eventfd_points = true;
    bool sock_points = true;
    int max_env = 1000000;       // at most that many environment deviations are offered per execution
};
extern Cfg &cfg();               // reset to defaults at the start of every execution

// raw TCP peers for harnesses (not visible to the code under test as file descriptors)
int raw_connect(int port, int lport = 0); // from local port lport; -1 if refused
int raw_listen(int port);               // a listening endpoint that never belongs to the code under test
int raw_accept(int l);                  // -1 if nobody waits
bool raw_pending(int l);
size_t raw_send(int s, const void *p, size_t n);   // bytes accepted
size_t raw_avail(int s);                // bytes readable
size_t raw_recv(int s, void *p, size_t n);
bool raw_eof(int s);                    // the other side closed or reset
bool raw_reset(int s);                  // the other side reset (not an orderly close)
void raw_close(int s);
void raw_rst(int s);
size_t raw_space(int s);
void blackhole(int port);               // connects to that port hang
bool raw_open(int s);

// inspection / control
int nsock_open();                       // sockets of the code under test that are still open
int nfd_open();
int nsocks();                           // sockets ever created (index range)
void rst_pair(int idx);                 // network fault: both ends of socket idx see a reset
void rst_half(int idx, bool other);     // only one end (of socket idx, or the other one) sees a reset
void partition(bool on);                // nothing gets through between any two established or new sockets until it is lifted
int find_estab(int nth);                // index of the nth established socket pair (client side), -1
int estab_count();
void raise_signal(int sig);
long nsys(int what);                    // 0 send 1 recv 2 close 3 connect 4 accept 5 resets received
void set_rand(uint64_t seed);
void on_rand(int (*f)(void));           // answers 2-byte RAND_bytes draws
void on_close(void (*f)(int fd, int sock));
void on_send(void (*f)(int sock, const void *p, size_t n)); // bytes the kernel took from the code under test
int local_port(int idx); int remote_port(int idx);
bool is_open(int idx);
int backlog(int port);                   // as given to listen(), -1 if nobody listens there
uint64_t now_ms();
}
