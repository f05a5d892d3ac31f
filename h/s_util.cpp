// C12: network addresses and string helpers; C13: configuration files and command lines.
#include "seq.h"
#include <cstring>
#include <map>
#include <cmath>
#include <getopt.h>
extern "C" int memfd_create(const char *, unsigned);
#include <sys/stat.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
#include "salticidae/util.h"
#include "salticidae/stream.h"
#include "salticidae/netaddr.h"
using namespace salticidae;
// names are resolved without a resolver: dotted quads and one host name
extern "C" struct hostent *gethostbyname(const char *name) {
    static struct hostent h; static char addr[4]; static char *list[2] = {addr, nullptr}; in_addr a;
    if (!strcmp(name, "localhost")) { addr[0] = 127; addr[1] = addr[2] = 0; addr[3] = 1; }
    else { int p[4], n = 0; if (sscanf(name, "%d.%d.%d.%d%n", p, p + 1, p + 2, p + 3, &n) != 4 || name[n]) { errno = 2; return nullptr; } for (int i = 0; i < 4; i++) { if (p[i] < 0 || p[i] > 255) { errno = 2; return nullptr; } addr[i] = p[i]; } }
    (void)a; h.h_addr_list = list; h.h_length = 4; h.h_addrtype = AF_INET; return &h;
}
namespace {
typedef std::vector<uint8_t> bytes;
void quiet() { static bool done; if (done) return; done = true; int e = dup(2); __sanitizer_set_report_fd((void *)(intptr_t)e); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }

bool addr(const std::string &s, NetAddr &out, bool &other) { try { out = NetAddr(s); return true; } catch (SalticidaeError &e) { other = e.get_code() != SALTI_ERROR_NETADDR_INVALID; return false; } catch (...) { other = true; return false; } }
void na_parse(long) {
    const char *IP[] = {"127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3", "localhost", "", "1.2.3", "256.0.0.1", "1.2.3.4.5", "nohost"}; const uint32_t V[] = {0x0100007f, 0, 0xffffffff, 0x0302010a, 0x0100007f}; const bool OK[] = {1, 1, 1, 1, 1, 0, 0, 0, 0, 0};
    const char *PT[] = {"0", "1", "80", "443", "9999", "65535", "65536", "-1", "99999999999999999999", "", "x", "12x", "1 2", "8.0", ":"}; const int PV[] = {0, 1, 80, 443, 9999, 65535, -1, -1, -1, -1, -1, -1, -1, -1, -1};
    int i = seq::pick(10), p = seq::pick(15), colon = seq::pick(2); std::string s = std::string(IP[i]) + (colon ? ":" : "") + PT[p]; seq::note("%s", s.c_str());
    bool ok = OK[i] && PV[p] >= 0 && colon; if (!colon && strchr(PT[p], ':')) return;
    NetAddr a; bool other = false; bool got = addr(s, a, other); SEQ_ASSERT(!other, "\"%s\" is rejected with the wrong error", s.c_str()); SEQ_ASSERT(got == ok, "\"%s\" is %s", s.c_str(), got ? "accepted" : "rejected");
    if (ok) { SEQ_ASSERT(a.ip == V[i] && ntohs(a.port) == PV[p], "\"%s\" parsed as %x:%d", s.c_str(), a.ip, ntohs(a.port)); NetAddr b(IP[i], PV[p]); SEQ_ASSERT(a == b && !(a != b), "construction from host and port differs"); }
    SalticidaeCError e; e.code = 77; netaddr_t *c = netaddr_new_from_sipport(s.c_str(), &e); SEQ_ASSERT((c != nullptr) == ok, "C binding: \"%s\"", s.c_str()); SEQ_ASSERT(e.code == (ok ? SALTI_NORMAL : SALTI_ERROR_NETADDR_INVALID), "C binding: error code %d for \"%s\"", e.code, s.c_str());
    if (c) { netaddr_t *d = netaddr_copy(c); SEQ_ASSERT(netaddr_is_eq(c, d) && netaddr_get_ip(c) == a.ip && netaddr_get_port(c) == a.port && netaddr_is_null(c) == a.is_null(), "C binding"); const netaddr_t *arr[2] = {c, d}; netaddr_array_t *v = netaddr_array_new_from_addrs(arr, 2); SEQ_ASSERT(v->size() == 2 && (*v)[0] == a && (*v)[1] == a, "address array"); netaddr_array_free(v); netaddr_free(c); netaddr_free(d); }
    seq::step();
}
void na_ports(long) {
    int hi = seq::pick(256);
    for (int lo = 0; lo < 256; lo++) {
        int p = hi << 8 | lo; NetAddr a("127.0.0.1:" + std::to_string(p)); SEQ_ASSERT(a.port == htons(p) && a.ip == 0x0100007f, "port %d", p);
        SEQ_ASSERT(std::string(a) == "<NetAddr 127.0.0.1:" + std::to_string(p) + ">", "text form of port %d: %s", p, std::string(a).c_str());
        DataStream s; s << a; SEQ_ASSERT(s.size() == 6, "encoded size"); NetAddr b; s >> b; SEQ_ASSERT(a == b && s.size() == 0, "address round trip");
        struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_addr.s_addr = a.ip; si.sin_port = a.port; NetAddr c(&si); SEQ_ASSERT(c == a, "from sockaddr");
        NetAddr n(a.ip, a.port ^ htons(1)), m(a.ip ^ 1, a.port); SEQ_ASSERT(n != a && !(n == a) && m != a && !(m == a), "different addresses compare equal"); SEQ_ASSERT(!a.is_null() && NetAddr().is_null(), "is_null"); SEQ_ASSERT(std::hash<NetAddr>()(a) == std::hash<NetAddr>()(b), "hash"); seq::bulk(1);
    }
}
std::string word(int maxlen) { const char A[] = {'a', ' ', '\t', ',', '\n', 'b'}; int n = seq::pick(maxlen + 1); std::string t; for (int i = 0; i < n; i++) t += A[seq::pick(6)]; return t; }
std::string rtrim(const std::string &s) { size_t i = 0, j = s.size(); auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }; while (i < j && sp(s[i])) i++; while (j > i && sp(s[j - 1])) j--; return s.substr(i, j - i); }
void str_ops(long n) {
    std::string s = word(n); seq::note("\"%s\"", s.c_str());
    SEQ_ASSERT(trim(s) == rtrim(s), "trim(\"%s\") is \"%s\"", s.c_str(), trim(s).c_str()); size_t ti = 0, tj = s.size(); while (ti < tj && s[ti] == 'a') ti++; while (tj > ti && s[tj - 1] == 'a') tj--; SEQ_ASSERT(trim(s, "a") == s.substr(ti, tj - ti), "trim with a set");
    for (const char *d: {",", "ab", " ", ",,"}) {
        auto v = split(s, d); std::string j; for (size_t i = 0; i < v.size(); i++) { if (i) j += d; j += v[i]; SEQ_ASSERT(v[i].find(d) == std::string::npos, "a part contains the delimiter"); }
        SEQ_ASSERT(j == s, "parts of \"%s\" do not join to it", s.c_str()); size_t c = 0, p = 0; while ((p = s.find(d, p)) != std::string::npos) { c++; p += strlen(d); } SEQ_ASSERT(v.size() == c + 1, "number of parts");
        auto t = trim_all(v); SEQ_ASSERT(t.size() == v.size(), "trim_all"); for (size_t i = 0; i < v.size(); i++) SEQ_ASSERT(t[i] == rtrim(v[i]), "trim_all");
    }
    seq::step();
}
void fmt_len(long) {
    int hi = seq::pick(12); for (int lo = 0; lo < 256; lo++) { int n = hi * 256 + lo; std::string s(n, 'a'); for (int i = 0; i < n; i++) s[i] = 'a' + i % 23; seq::cur(&n, sizeof n);
        std::string g = stringprintf("%s", s.c_str()); SEQ_ASSERT(g == s, "formatting a string of %d characters gives %zu (%s)", n, g.size(), g.size() == s.size() ? "different" : "length"); g = stringprintf("%d-%s-%c", n, s.c_str(), 'Z'); SEQ_ASSERT(g == std::to_string(n) + "-" + s + "-Z", "formatted text of %zu characters differs", g.size());
        if (n < 2000) { SalticidaeError e("%s!", s.c_str()); SEQ_ASSERT(std::string(e.what()) == s + "!" && e.get_code() == SALTI_ERROR_GENERIC && e.get_oscode() == 0, "error message"); } seq::bulk(1); }
}
void err_codes(long) {
    int c = seq::pick(31); SalticidaeError e(c); SEQ_ASSERT(e.get_code() == c && e.get_oscode() == 0 && std::string(e.what()) == salticidae_strerror(c), "error %d", c); SalticidaeError f(c, 5); SEQ_ASSERT(f.get_oscode() == 5 && f.get_cerr().code == c && f.get_cerr().oscode == 5, "os error"); SEQ_ASSERT(std::string(f.what()).find(strerror(5)) != std::string::npos, "os error text");
    for (int k = 0; k < 31; k++) if (k != c) SEQ_ASSERT(strcmp(salticidae_strerror(k), salticidae_strerror(c)), "errors %d and %d have the same text", k, c);
    SEQ_ASSERT(!strcmp(salticidae_strerror(-1), "invalid") && !strcmp(salticidae_strerror(31 + c), "invalid"), "unknown code"); SEQ_ASSERT(SalticidaeError().get_code() == SALTI_NORMAL && SalticidaeError().get_oscode() == 0, "default error");
    SEQ_ASSERT(std::string(salticidae_strerror(SALTI_ERROR_CONN_OVERSIZED_MSG)) == "oversized message" && std::string(salticidae_strerror(SALTI_ERROR_NETADDR_INVALID)) == "invalid NetAddr format" && std::string(salticidae_strerror(SALTI_ERROR_PEER_NOT_EXIST)) == "peer does not exist", "text table out of step with the codes"); seq::step();
}
void times(long) { int a = seq::pick(50); for (int f = 0; f < 1000; f += 7) { double t = a + f / 1000.0; struct timeval tv; sec2tv(t, tv); double b = tv.tv_sec + tv.tv_usec * 1e-6; SEQ_ASSERT(tv.tv_usec >= 0 && tv.tv_usec < 1000000 && fabs(b - t) < 2e-6, "sec2tv(%f)", t); double g = gen_rand_timeout(t + 0.001, 0.5); SEQ_ASSERT(g >= t + 0.001 && g <= (t + 0.001) * 1.5 + 1e-9, "gen_rand_timeout(%f) = %f", t + 0.001, g); seq::bulk(1); } }

// ------------------------------------------------------------------ configuration
// configuration files live in memory
std::string file(int k) { static int fd[3] = {-1, -1, -1}; if (fd[k] < 0) fd[k] = memfd_create("conf", 0); return "/proc/self/fd/" + std::to_string(fd[k]); }
void put_file(const std::string &n, const std::string &c) { int fd = open(n.c_str(), O_WRONLY | O_TRUNC); if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) abort(); close(fd); }
struct Vals { bool flag = false; int num = 5; double dbl = 0.5; std::string str = "def"; std::vector<std::string> vec; };
struct Bad {};
bool pint(const std::string &s, int &v) { errno = 0; char *e; long x = strtol(s.c_str(), &e, 10); if (e == s.c_str() || *e || errno || x > 2147483647 || x < -2147483648l) return false; v = x; return true; }
bool pdbl(const std::string &s, double &v) { errno = 0; char *e; double x = strtod(s.c_str(), &e); if (e == s.c_str() || *e || errno) return false; v = x; return true; }
struct Line { const char *text; const char *name; const char *val; };    // name null: ignored
const Line LINES[] = {
    {"num = 7\n", "num", "7"}, {"num=8\n", "num", "8"}, {"  str \t= a b \n", "str", "a b"}, {"str =\n", "str", ""}, {"vec = x\n", "vec", "x"}, {"vec=y\n", "vec", "y"}, {"dbl = 1.5\n", "dbl", "1.5"}, {"flag = 1\n", "flag", "1"},
    {"unknown = 3\n", nullptr, nullptr}, {"no equal sign\n", nullptr, nullptr}, {"\n", nullptr, nullptr}, {"str = k=v\n", "str", "k=v"}, {"n = 9\n", "num", "9"}, {"num = x\n", "num", "x"}, {"num = 99999999999\n", "num", "99999999999"}, {"str = last", "str", "last"} };
const int NL = sizeof LINES / sizeof *LINES;
struct Arg { const char *a, *b; const char *name; const char *val; };
const Arg ARGS[] = {
    {nullptr, nullptr, nullptr, nullptr}, {"--num=11", nullptr, "num", "11"}, {"--num", "12", "num", "12"}, {"-n", "13", "num", "13"}, {"-n14", nullptr, "num", "14"}, {"--str", "s1", "str", "s1"}, {"--vec=p", nullptr, "vec", "p"}, {"-v", "q", "vec", "q"}, {"--flag", nullptr, "flag", ""}, {"-f", nullptr, "flag", ""},
    {"--dbl=2.5", nullptr, "dbl", "2.5"}, {"--dbl=zz", nullptr, "dbl", "zz"}, {"--num=1x", nullptr, "num", "1x"}, {"--bogus", nullptr, "?", nullptr}, {"-z", nullptr, "?", nullptr}, {"file1", nullptr, "", nullptr}, {"--conf", "@extra", "conf", nullptr}, {"-c", "@extra", "conf", nullptr}, {"--conf=/nonexistent/x", nullptr, nullptr, nullptr}, {"--num", nullptr, "!num", nullptr} };
const int NA = sizeof ARGS / sizeof *ARGS;
void apply(Vals &v, const char *name, const std::string &val) {
    if (!strcmp(name, "num")) { if (!pint(val, v.num)) throw Bad(); } else if (!strcmp(name, "dbl")) { if (!pdbl(val, v.dbl)) throw Bad(); }
    else if (!strcmp(name, "str")) v.str = val; else if (!strcmp(name, "vec")) v.vec.push_back(val); else if (!strcmp(name, "flag")) v.flag = true;
}
void cfg_run(long a) {
    quiet(); int nl = a & 15, na = a >> 4 & 15;
    std::string conf = nl ? file(0) : "/nonexistent/main.conf", extra = file(1); std::string text; Vals want; int bad = 0; std::vector<int> li;
    bool have = nl ? true : false;
    for (int i = 0; i < nl; i++) { int k = seq::pick(NL); li.push_back(k); if (text.size() && text.back() != '\n') text += "\n"; text += LINES[k].text; seq::note("%s|", LINES[k].text); }
    if (have) put_file(conf, text);
    put_file(extra, "num = 77\nvec = e\n");
    std::vector<std::string> av{"prog"}; std::vector<const Arg *> as;
    for (int i = 0; i < na; i++) { const Arg &x = ARGS[seq::pick(NA)]; if (!x.a) continue; as.push_back(&x); av.push_back(x.a); if (x.b) av.push_back(x.b[0] == '@' ? extra : x.b); seq::note(" %s%s%s", x.a, x.b ? " " : "", x.b ? x.b : ""); }
    try {
        for (int k: li) if (LINES[k].name) apply(want, LINES[k].name, LINES[k].val);
        for (size_t i = 0; i < as.size(); i++) {
            const Arg *x = as[i]; if (!x->name || !*x->name) continue; if (x->name[0] == '?') { bad = 2; throw Bad(); }
            if (x->name[0] == '!') { // takes the next argument whatever it is
                if (i + 1 >= as.size()) { bad = 2; throw Bad(); }
                const Arg *y = as[i + 1]; try { apply(want, x->name + 1, y->a); } catch (Bad &) { bad = 1; throw; } if (y->b) { /* its value becomes positional */ } i++; continue;
            }
            if (!strcmp(x->name, "conf")) { apply(want, "num", "77"); apply(want, "vec", "e"); } else apply(want, x->name, x->val);
        }
    } catch (Bad &) { if (!bad) bad = 1; }
    std::vector<char *> argv; std::vector<std::string> copy = av; for (auto &s: copy) argv.push_back(&s[0]); argv.push_back(nullptr);
    optind = 0; opterr = 0; int got = 0; Vals v; size_t rest = 0;
    {
        Config c(conf); auto f = Config::OptValFlag::create(false); auto n = Config::OptValInt::create(5); auto db = Config::OptValDouble::create(0.5); auto s = Config::OptValStr::create("def"); auto vc = Config::OptValStrVec::create();
        c.add_opt("flag", f, Config::SWITCH_ON, 'f'); c.add_opt("num", n, Config::SET_VAL, 'n', "number"); c.add_opt("dbl", db, Config::SET_VAL); c.add_opt("str", s, Config::SET_VAL, 's'); c.add_opt("vec", vc, Config::APPEND, 'v');
        bool dup = false; try { c.add_opt("num", n, Config::SET_VAL); } catch (SalticidaeError &e) { dup = e.get_code() == SALTI_ERROR_OPTNAME_ALREADY_EXISTS; } SEQ_ASSERT(dup, "duplicate option name accepted"); dup = false; try { c.add_opt("vec", s, Config::SET_VAL, 'q'); } catch (SalticidaeError &e) { dup = e.get_code() == SALTI_ERROR_OPTNAME_ALREADY_EXISTS; } SEQ_ASSERT(dup, "duplicate option name accepted");
        try { rest = c.parse(av.size(), argv.data()); } catch (SalticidaeError &e) { got = e.get_code() == SALTI_ERROR_OPT_INVALID ? 2 : e.get_code() == SALTI_ERROR_OPTVAL_INVALID ? 1 : 99; }
        v.flag = f->get(); v.num = n->get(); v.dbl = db->get(); v.str = s->get(); v.vec = vc->get();
    }
    SEQ_ASSERT(got == bad, "parsing reports %d, expected %d (0 fine, 1 bad value, 2 bad option)", got, bad);
    if (!bad) {
        SEQ_ASSERT(v.num == want.num, "number is %d, expected %d", v.num, want.num); SEQ_ASSERT(v.flag == want.flag, "flag is %d", v.flag); SEQ_ASSERT(v.dbl == want.dbl, "double is %f", v.dbl); SEQ_ASSERT(v.str == want.str, "string is \"%s\", expected \"%s\"", v.str.c_str(), want.str.c_str()); SEQ_ASSERT(v.vec == want.vec, "list has %zu items, expected %zu", v.vec.size(), want.vec.size());
        SEQ_ASSERT(rest >= 1 && rest <= av.size(), "index of the first positional argument"); for (size_t i = rest; i < av.size(); i++) SEQ_ASSERT(argv[i][0] != '-', "option left unparsed");
    }
    seq::step(); seq::state(std::to_string(v.num) + v.str + std::to_string(v.vec.size()) + std::to_string(v.flag) + std::to_string(got));
}
void cfg_long(long) {
    quiet(); std::string conf = file(2); const int L[] = {65520, 65533, 65534, 65535, 65536, 70000}; int n = L[seq::pick(6)];
    std::string t = "str = "; t += std::string(n - 7, 'x'); t += "\n"; put_file(conf, t); bool threw = false; Config c; auto s = Config::OptValStr::create(""); c.add_opt("str", s, Config::SET_VAL);
    try { SEQ_ASSERT(c.load(conf), "file not found"); } catch (SalticidaeError &e) { SEQ_ASSERT(e.get_code() == SALTI_ERROR_CONFIG_LINE_TOO_LONG, "wrong error"); threw = true; }
    if (!threw) SEQ_ASSERT(s->get() == std::string(n - 7, 'x'), "a line of %d bytes is cut without an error", n); if (n < 65535) SEQ_ASSERT(!threw, "line of %d bytes refused", n);
    Config e; SEQ_ASSERT(!e.load("/nonexistent/missing"), "missing file reported as loaded"); seq::step();
}
struct Reg { Reg() {
    seq::Opts t; t.thorough_only = true; seq::Opts s1; s1.sd = 1; seq::Opts s2; s2.sd = 2; seq::Opts nl = s2; nl.leaks = false; seq::Opts nt = nl; nt.thorough_only = true;
    seq::group("C12,C30", "addr-parse", na_parse, 0, s2); seq::group("C12", "addr-ports", na_ports, 0, s1); seq::group("C12", "strings", str_ops, 6); seq::group("C12", "strings-deep", str_ops, 8, t); seq::group("C12", "format-lengths", fmt_len, 0, s1); seq::group("C12", "error-codes", err_codes, 0, s1); seq::group("C12", "times", times, 0, s1);
    seq::group("C13", "config-file3", cfg_run, 3, nl); seq::group("C13", "config-args2", cfg_run, 2 << 4, nl); seq::group("C13", "config-file1-args2", cfg_run, 1 | 2 << 4, nl); seq::group("C13", "config-args3", cfg_run, 3 << 4, nl); seq::group("C13", "config-file2-args2", cfg_run, 2 | 2 << 4, nl); seq::group("C13", "config-file1-args3", cfg_run, 1 | 3 << 4, nt); seq::group("C13", "config-long-lines", cfg_long, 0, nl);
} } reg;
}
