// C08 DataStream codec, C09 hex / 256-bit values / bit arrays, C10 message encoding, C11 segmented
// buffer: all operation sequences and inputs within the bounds, against reference implementations.
#include "seq.h"
#include <cstring>
#include <deque>
#include <memory>
#include <openssl/sha.h>
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "salticidae/queue.h"
#include "salticidae/event.h"
#include "salticidae/buffer.h"
#undef htole
using namespace salticidae;
namespace {
typedef std::vector<uint8_t> bytes;
std::string hexs(const uint8_t *p, size_t n) { std::string r; const char *d = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; } return r; }
std::string hexs(const bytes &b) { return hexs(b.data(), b.size()); }
bytes blob(int n, int seed) { bytes b(n); for (int i = 0; i < n; i++) b[i] = seed + i * 37; return b; }
const uint64_t VAL[] = {0, 1, 0x7f, 0x80, 0xff, 0x0123456789abcdefull, 0x8000000000000000ull, 0xffffffffffffffffull};

// ------------------------------------------------------------------ DataStream against bytes+offset
struct Model { bytes b; size_t off = 0; bytes rest() const { return bytes(b.begin() + off, b.end()); } };
void same(DataStream &s, const Model &m) {
    SEQ_ASSERT(s.size() == m.b.size() - m.off, "size() is %zu, expected %zu", s.size(), m.b.size() - m.off);
    bytes r = m.rest();
    bytes c = s;                               // const & conversion
    SEQ_ASSERT(c == r, "content is %s, expected %s", hexs(c).c_str(), hexs(r).c_str());
    if (!r.empty()) SEQ_ASSERT(!memcmp(s.data(), r.data(), r.size()), "data() points to the wrong bytes");
}
template<typename T> void put(DataStream &s, Model &m, uint64_t v) { T x = (T)v; s << x; for (size_t i = 0; i < sizeof(T); i++) m.b.push_back((uint8_t)((uint64_t)(typename std::make_unsigned<T>::type)x >> 8 * i)); }
template<typename T> void get(DataStream &s, Model &m) {
    T x = 0x5a; bool threw = false;
    try { s >> x; } catch (std::ios_base::failure &) { threw = true; }
    bool enough = m.b.size() - m.off >= sizeof(T);
    SEQ_ASSERT(threw == !enough, "reading %zu bytes with %zu left %s", sizeof(T), m.b.size() - m.off, threw ? "fails" : "succeeds");
    if (enough) { uint64_t v = 0; for (size_t i = 0; i < sizeof(T); i++) v |= (uint64_t)m.b[m.off + i] << 8 * i; SEQ_ASSERT((typename std::make_unsigned<T>::type)x == (typename std::make_unsigned<T>::type)v, "decoded a wrong integer"); m.off += sizeof(T); }
}
struct Pair: public Serializable { uint16_t a = 0; uint8_t b = 0; void serialize(DataStream &s) const override { s << salticidae::htole(a) << b; } void unserialize(DataStream &s) override { s >> a >> b; a = letoh(a); } };
int xval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
void ds_op(DataStream &s, Model &m, int tag) {
    seq::step();
    int o = seq::pick(27);
    seq::note("%d;", o);
    switch (o) {
        case 0: put<uint8_t>(s, m, 0x11 + tag); break;
        case 1: put<uint16_t>(s, m, 0x1234 + tag); break;
        case 2: put<uint32_t>(s, m, 0xfedcba98u + tag); break;
        case 3: put<uint64_t>(s, m, 0xf123456789abcde0ull + tag); break;
        case 4: put<int8_t>(s, m, -3); break;
        case 5: put<int16_t>(s, m, -2000); break;
        case 6: put<int32_t>(s, m, -200000); break;
        case 7: put<int64_t>(s, m, -20000000000ll); break;
        case 8: { s << std::string("xyz"); bytes t{'x', 'y', 'z'}; m.b.insert(m.b.end(), t.begin(), t.end()); } break;
        case 9: { bytes t = blob(5, tag); s << t; m.b.insert(m.b.end(), t.begin(), t.end()); } break;
        case 10: { bytes t = blob(2, tag); s.put_data(t.data(), t.data() + t.size()); m.b.insert(m.b.end(), t.begin(), t.end()); } break;
        case 11: s << "q"; m.b.push_back('q'); break;
        case 12: get<uint8_t>(s, m); break;
        case 13: get<uint16_t>(s, m); break;
        case 14: get<uint32_t>(s, m); break;
        case 15: get<uint64_t>(s, m); break;
        case 16: get<int16_t>(s, m); break;
        case 17: {
            size_t left = m.b.size() - m.off; const size_t L[] = {0, 1, 3, left, left + 1, (size_t)-1};
            size_t n = L[seq::pick(6)]; bool threw = false; const uint8_t *p = nullptr;
            try { p = s.get_data_inplace(n); } catch (std::ios_base::failure &) { threw = true; }
            SEQ_ASSERT(threw == (n > left), "get_data_inplace(%zu) with %zu left %s", n, left, threw ? "fails" : "succeeds");
            if (!threw) { SEQ_ASSERT(!n || !memcmp(p, m.b.data() + m.off, n), "get_data_inplace gives the wrong bytes"); m.off += n; }
        } break;
        case 18: { DataStream c(s); same(c, m); s = c; } break;
        case 19: { DataStream c(std::move(s)); same(c, m); s = std::move(c); } break;
        case 20: s.clear(); m.b.clear(); m.off = 0; break;
        case 21: { std::string h = s.get_hex(); SEQ_ASSERT(h == hexs(m.rest()), "get_hex gives %s", h.c_str()); } break;
        case 22: { uint8_t d[32]; bytes r = m.rest(); ::SHA256(r.data(), r.size(), d); uint256_t h = s.get_hash(); SEQ_ASSERT(bytes(h) == bytes(d, d + 32), "get_hash is not the SHA-256 of the remaining bytes"); } break;
        case 23: { DataStream c(s); bytes r = bytes(std::move(c)); SEQ_ASSERT(r == m.rest(), "moving the bytes out gives %s, expected %s", hexs(r).c_str(), hexs(m.rest()).c_str()); std::string t = std::string(s); SEQ_ASSERT(bytes(t.begin(), t.end()) == r, "string conversion"); } break;
        case 24: { Pair p; p.a = 0x0102; p.b = 3; s << p; m.b.push_back(2); m.b.push_back(1); m.b.push_back(3); } break;
        case 25: { Pair p; bool threw = false; size_t left = m.b.size() - m.off; try { s >> p; } catch (std::ios_base::failure &) { threw = true; }
            SEQ_ASSERT(threw == (left < 3), "decoding an object of 3 bytes with %zu left", left);
            if (!threw) { SEQ_ASSERT(p.a == (m.b[m.off] | m.b[m.off + 1] << 8) && p.b == m.b[m.off + 2], "object decoded wrongly"); m.off += 3; }
            else m.off = m.b.size() - s.size(); } break;   // (26 follows) how much a failed object read consumes is the object's business
        case 26: { const char *H[] = {"", "0aF1", "00112233445566778899", "1", "12g4", "1 2 "}; int k = seq::pick(6); bool threw = false; try { s.load_hex(H[k]); } catch (std::invalid_argument &) { threw = true; }
            SEQ_ASSERT(threw == (k >= 3), "load_hex(\"%s\") %s", H[k], threw ? "fails" : "succeeds");
            if (threw) { s.clear(); m = Model(); } else { m = Model(); for (const char *p = H[k]; *p; p += 2) m.b.push_back(xval(p[0]) << 4 | xval(p[1])); } } break;
    }
}
void ds_ops(long depth) {
    DataStream s; Model m; int start = seq::pick(3);
    if (start == 1) { bytes b = blob(9, 3); s = DataStream(b.data(), b.data() + b.size()); m.b = b; }
    if (start == 2) { std::string t("hello world"); s = DataStream(t); m.b.assign(t.begin(), t.end()); uint16_t x; s >> x; m.off = 2; }
    for (int i = 0; i < depth; i++) { ds_op(s, m, i); same(s, m); seq::state(hexs(m.b) + std::to_string(m.off)); }
}
// typed round trips: all sequences of 3 typed values x all boundary values
template<typename T> void rt1(DataStream &s, bytes &b, uint64_t v) { T x = (T)v; s << x; const size_t n = sizeof(T); for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(v >> 8 * i)); }
void put_any(DataStream &s, bytes &b, int t, uint64_t v) {
    switch (t) { case 0: rt1<uint8_t>(s, b, v); break; case 1: rt1<uint16_t>(s, b, v); break; case 2: rt1<uint32_t>(s, b, v); break; case 3: rt1<uint64_t>(s, b, v); break;
        case 4: rt1<int8_t>(s, b, v); break; case 5: rt1<int16_t>(s, b, v); break; case 6: rt1<int32_t>(s, b, v); break; case 7: rt1<int64_t>(s, b, v); break; }
}
template<typename T> void ck1(DataStream &s, uint64_t v) { T x; s >> x; SEQ_ASSERT(x == (T)v, "value does not survive encoding and decoding"); }
void get_any(DataStream &s, int t, uint64_t v) {
    switch (t) { case 0: ck1<uint8_t>(s, v); break; case 1: ck1<uint16_t>(s, v); break; case 2: ck1<uint32_t>(s, v); break; case 3: ck1<uint64_t>(s, v); break;
        case 4: ck1<int8_t>(s, v); break; case 5: ck1<int16_t>(s, v); break; case 6: ck1<int32_t>(s, v); break; case 7: ck1<int64_t>(s, v); break; }
}
void ds_typed(long) {
    int t[3]; uint64_t v[3]; DataStream s; bytes b; int n = 3;
    for (int i = 0; i < n; i++) { t[i] = seq::pick(8); v[i] = VAL[seq::pick(8)]; put_any(s, b, t[i], v[i]); }
    SEQ_ASSERT(bytes(s) == b, "encoding is %s, expected %s", s.get_hex().c_str(), hexs(b).c_str());
    size_t cut = b.size() ? seq::pick(2) : 0;
    DataStream r(bytes(b.begin(), b.end() - cut)); int i = 0; bool threw = false;
    try { for (; i < n; i++) get_any(r, t[i], v[i]); } catch (std::ios_base::failure &) { threw = true; }
    SEQ_ASSERT(threw == (cut > 0), "truncated input %s", cut ? "accepted" : "rejected");
    if (!threw) SEQ_ASSERT(r.size() == 0, "bytes left over");
    seq::step(n * 2);
}
// ------------------------------------------------------------------ hex
bool isx(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int xv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
void hex_one(const std::string &t) {
    bool ok = t.size() % 2 == 0; for (unsigned char c: t) ok = ok && isx(c);
    bytes want; if (ok) for (size_t i = 0; i < t.size(); i += 2) want.push_back(xv(t[i]) << 4 | xv(t[i + 1]));
    seq::cur(t.data(), t.size());
    bool threw = false; bytes got;
    try { got = from_hex(t); } catch (std::invalid_argument &) { threw = true; }
    SEQ_ASSERT(threw == !ok, "hex string \"%s\" is %s", t.c_str(), threw ? "rejected" : "accepted");
    if (ok) { SEQ_ASSERT(got == want, "hex string \"%s\" decodes to %s", t.c_str(), hexs(got).c_str()); SEQ_ASSERT(get_hex(got) == hexs(want), "encoding differs"); }
    seq::bulk(1);
}
void hex_all2(long) { int hi = seq::pick(256); for (int lo = 0; lo < 256; lo++) hex_one(std::string() + (char)hi + (char)lo); }
void hex_words(long maxlen) {
    const char A[] = {'0', '9', 'a', 'F', 'g', ' ', '-', 'x', '+', '\n', 0}; int n = seq::pick(maxlen + 1); std::string t;
    for (int i = 0; i < n; i++) t += A[seq::pick(sizeof A)];
    hex_one(t);
}
void hex_bytes(long) { int a = seq::pick(256); for (int b = 0; b < 256; b++) { bytes x{(uint8_t)a, (uint8_t)b}; SEQ_ASSERT(get_hex(x) == hexs(x), "hex of %02x%02x", a, b); SEQ_ASSERT(from_hex(get_hex(x)) == x, "hex round trip"); seq::bulk(1); } }
// ------------------------------------------------------------------ uint256
bytes pat256(int k) {
    bytes b(32);
    if (k < 32) b[k] = 1; else if (k < 64) b[k - 32] = 0x80; else if (k == 64) {} else if (k == 65) b.assign(32, 0xff); else if (k == 66) b = blob(32, 1); else if (k == 67) { b.assign(32, 0xff); b[31] = 0x7f; } else { b = blob(32, 1); b[k == 68 ? 0 : k == 69 ? 16 : 31] ^= 1; }
    return b;
}
const int NP = 71;
int cmp256(const bytes &a, const bytes &b) { for (int i = 31; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }   // little-endian number
void u256_one(long) {
    bytes b = pat256(seq::pick(NP)); seq::note("%s", hexs(b).c_str());
    uint256_t x(b), y(b.data()), z; uint256_t n;
    SEQ_ASSERT(n.is_null() && !x.is_null() && !y.is_null(), "is_null");
    SEQ_ASSERT(bytes(x) == b && x.to_bytes() == b && x.to_hex() == hexs(b), "bytes of a 256-bit value are not preserved");
    z.from_bytes(b); SEQ_ASSERT(z == x && x == y && !(z != x) && !z.is_null(), "equality after round trip");
    z = uint256_t(); z.from_hex(hexs(b)); SEQ_ASSERT(z == x, "from_hex");
    uint256_t w(x); SEQ_ASSERT(w == x && std::hash<uint256_t>()(w) == std::hash<uint256_t>()(x), "copy");
    DataStream s; s << x << (uint8_t)7; uint256_t v; uint8_t t; s >> v >> t; SEQ_ASSERT(v == x && t == 7 && s.size() == 0, "stream round trip");
    DataStream q; q << n; SEQ_ASSERT(bytes(q) == bytes(32), "a null value is encoded as zeros");
    for (int cut = 0; cut < 32; cut++) {
        bool threw = false; uint256_t u; try { u.from_bytes(bytes(b.begin(), b.begin() + cut)); } catch (std::ios_base::failure &) { threw = true; } SEQ_ASSERT(threw, "256-bit value decoded from %d bytes", cut);
        threw = false; try { uint256_t g(bytes(b.begin(), b.begin() + cut)); } catch (std::invalid_argument &) { threw = true; } SEQ_ASSERT(threw, "256-bit value constructed from %d bytes", cut);
        seq::bulk(2);
    }
    bytes longer = b; longer.push_back(0); bool threw = false; try { uint256_t g(longer); } catch (std::invalid_argument &) { threw = true; } SEQ_ASSERT(threw, "256-bit value constructed from 33 bytes");
    uint8_t d[32]; ::SHA256(b.data(), 32, d); SEQ_ASSERT(bytes(get_hash(x)) == bytes(d, d + 32), "get_hash");
}
void u256_pairs(long) {
    bytes a = pat256(seq::pick(NP)), b = pat256(seq::pick(NP)); uint256_t x(a), y(b); int c = cmp256(a, b);
    SEQ_ASSERT((x == y) == (c == 0) && (x != y) == (c != 0), "equality of %s and %s", hexs(a).c_str(), hexs(b).c_str());
    SEQ_ASSERT((x < y) == (c < 0) && (y < x) == (c > 0), "order of %s and %s", hexs(a).c_str(), hexs(b).c_str());
    if (c == 0) SEQ_ASSERT(std::hash<uint256_t>()(x) == std::hash<uint256_t>()(y), "equal values hash differently");
    seq::step();
}
template<size_t N, typename T> void blobs(long) {
    int k = seq::pick(N / 8), v = seq::pick(4); const int V[] = {1, 0x7f, 0x80, 0xff}; bytes b(N / 8); b[k] = V[v];
    Blob<N, T> x(b); SEQ_ASSERT(bytes(x) == b, "blob bytes"); Blob<N, T> y; DataStream s(b); s >> y; SEQ_ASSERT(bytes(y) == b, "blob round trip"); seq::step();
}
// ------------------------------------------------------------------ Bits
void bits_load(long) {
    int len = seq::pick(20), kind = seq::pick(4); bytes b(len);
    for (int i = 0; i < len; i++) b[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? 0x80 >> (i & 7) : i * 53 + 17;
    int hot = len ? seq::pick(len) : 0; if (len) b[hot] ^= 0xa5;
    seq::note("%s", hexs(b).c_str());
    Bits x(b), y(b.data(), (uint32_t)len);
    SEQ_ASSERT(x.size() == (uint32_t)len * 8 && y.size() == x.size(), "size of the bit array");
    for (int i = 0; i < len * 8; i++) { int w = b[i / 8] >> (i % 8) & 1; SEQ_ASSERT(x.get(i) == w && x[i] == w && y.get(i) == w, "bit %d is %d after loading %s", i, x.get(i), hexs(b).c_str()); }
    DataStream s; s << x; Bits z; z.unserialize(s); SEQ_ASSERT(s.size() == 0 && z.size() == x.size(), "bit array round trip");
    for (int i = 0; i < len * 8; i++) SEQ_ASSERT(z.get(i) == x.get(i), "bit %d after round trip", i);
    Bits c(x); for (int i = 0; i < len * 8; i++) SEQ_ASSERT(c.get(i) == x.get(i), "bit %d of the copy", i);
    seq::step();
}
void bits_ops(long depth) {
    const int NB[] = {1, 7, 63, 64, 65, 130}; int nb = NB[seq::pick(6)]; Bits x((uint32_t)nb); std::vector<int> m(nb, 0); x.clear();
    int idx[8]; int ni = 0; for (int c: {0, 1, 31, 32, 62, 63, 64, 129}) if (c < nb) idx[ni++] = c;
    for (int i = 0; i < depth; i++) {
        int o = seq::pick(5), k = o == 3 ? 0 : idx[seq::pick(ni)]; seq::note("%d(%d);", o, k);
        switch (o) {
            case 0: x.set(k); m[k] = 1; break; case 1: x.unset(k); m[k] = 0; break; case 2: x.flip(k); m[k] ^= 1; break; case 3: x.clear(); std::fill(m.begin(), m.end(), 0); break;
            case 4: { Bits c(x); x.flip(k); SEQ_ASSERT(c.get(k) == m[k], "a copy shares its storage"); x.flip(k); DataStream s; s << c; Bits d; s >> d; SEQ_ASSERT(d.size() == (uint32_t)nb, "size after round trip"); for (int j = 0; j < nb; j++) SEQ_ASSERT(d[j] == m[j], "bit %d after round trip", j); } break;
        }
        seq::step();
        uint64_t h = nb; for (int j = 0; j < nb; j++) { SEQ_ASSERT(x.get(j) == m[j], "bit %d is %d, expected %d", j, x.get(j), m[j]); h = h * 3 + m[j]; } seq::state(h);
    }
}
void bits_malformed(long) {
    const uint32_t NB[] = {0, 1, 63, 64, 65, 128, 129, 0x7fffffff, 0x80000000u, 0xffffffc0u, 0xffffffc1u, 0xfffffffeu, 0xffffffffu};
    uint32_t nb = NB[seq::pick(13)]; int have = seq::pick(34);
    DataStream s; s << salticidae::htole(nb); for (int i = 0; i < have; i++) s << (uint8_t)(i + 1);
    int hdr = seq::pick(5); bytes raw = s; if (hdr < 4) raw.resize(hdr);
    DataStream r(raw); Bits x; bool threw = false;
    uint64_t words = ((uint64_t)nb + 63) / 64; bool ok = hdr == 4 && words * 8 <= (uint64_t)have;
    try { r >> x; } catch (std::ios_base::failure &) { threw = true; } catch (std::bad_alloc &) { seq::fail("a bit array of %u bits is allocated for %d bytes of input", nb, have); }
    SEQ_ASSERT(threw == !ok, "%u bits with %d bytes of data: %s", nb, have, threw ? "rejected" : "accepted");
    if (ok) { SEQ_ASSERT(x.size() == nb, "size"); for (uint32_t i = 0; i < nb; i++) SEQ_ASSERT(x.get(i) == ((i / 8 + 1) >> (i % 8) & 1), "bit %u", i); }
    seq::step();
}
// ------------------------------------------------------------------ messages
template<typename Op> struct TMsg { static const Op opcode; DataStream serialized; TMsg(const bytes &b): serialized(b) {} };
typedef MsgBase<uint8_t> Msg8; typedef MsgBase<uint16_t> Msg16;
template<> const uint8_t TMsg<uint8_t>::opcode = 0x42; template<> const uint16_t TMsg<uint16_t>::opcode = 0x1337;
bytes payload(int k) { const int L[] = {0, 1, 2, 55, 56, 63, 64, 65, 300}; bytes b = blob(L[k], 9); return b; }
uint32_t sum(const bytes &b) { uint8_t d[20]; ::SHA1(b.data(), b.size(), d); uint32_t r; memcpy(&r, d, 4); return r; }
template<typename Op> bytes wire(uint32_t magic, Op op, const bytes &p) {
    bytes r; auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) r.push_back(v >> 8 * i); };
    u32(magic); for (size_t i = 0; i < sizeof(Op); i++) r.push_back(op >> 8 * i); u32(p.size()); u32(sum(p)); r.insert(r.end(), p.begin(), p.end()); return r;
}
template<typename Op> void msg_rt(long) {
    typedef MsgBase<Op> M; const uint32_t MG[] = {0, 1, 0x12345678, 0xffffffffu};
    bytes p = payload(seq::pick(9)); uint32_t mg = MG[seq::pick(4)]; seq::note("payload %zu magic %x", p.size(), mg);
    TMsg<Op> t(p); M m(t, mg);
    bytes w = m.serialize(); SEQ_ASSERT(w == wire<Op>(mg, TMsg<Op>::opcode, p), "wire format is %s", hexs(w).c_str());
    SEQ_ASSERT(M::header_size == w.size() - p.size(), "header_size"); SEQ_ASSERT(m.get_length() == p.size() && m.get_opcode() == TMsg<Op>::opcode && m.get_magic() == mg && m.verify_checksum(), "fields");
    M r(DataStream(bytes(w.begin(), w.begin() + M::header_size)));
    SEQ_ASSERT(r.get_length() == p.size() && r.get_opcode() == TMsg<Op>::opcode && r.get_magic() == mg, "fields of the decoded header");
    bool threw = false; try { r.get_payload(); } catch (std::runtime_error &) { threw = true; } SEQ_ASSERT(threw, "a decoded header has a payload");
    r.set_payload(bytes(w.begin() + M::header_size, w.end())); SEQ_ASSERT(r.verify_checksum(), "checksum of an intact message fails");
    M c(r); SEQ_ASSERT(c.serialize() == w && c.verify_checksum(), "copy");
    M d; d = c; SEQ_ASSERT(d.serialize() == w, "assignment"); M e(std::move(d)); SEQ_ASSERT(e.serialize() == w, "move"); M f; f = std::move(e); SEQ_ASSERT(f.serialize() == w, "move assignment");
    M g(0x99); g.swap(f); SEQ_ASSERT(g.serialize() == w, "swap");
    { DataStream q = r.get_payload(); SEQ_ASSERT(bytes(q) == p, "payload differs"); }
    threw = false; try { r.get_payload(); } catch (std::runtime_error &) { threw = true; } SEQ_ASSERT(threw, "payload handed out twice");
    SEQ_ASSERT(bytes(c.get_payload()) == p, "payload of the copy");
    g.set_magic(7); g.set_opcode(3); SEQ_ASSERT(g.get_magic() == 7 && g.get_opcode() == 3, "setters");
    for (size_t cut = 0; cut < M::header_size; cut++) { bool th = false; try { M x(DataStream(bytes(w.begin(), w.begin() + cut))); } catch (std::ios_base::failure &) { th = true; } SEQ_ASSERT(th, "header decoded from %zu bytes", cut); seq::bulk(1); }
}
// two messages in every state (nothing, header only, payload, payload taken) under all sequences of copies, moves and swaps
struct MM { uint32_t magic = 0; uint8_t op = 0xff; bool has = false, len = false; bytes p; size_t n = 0; };
void msg_ops(long depth) {
    Msg8 m[2]; MM r[2];
    auto make = [](Msg8 &m, MM &r, int kind, int tag) {
        bytes p = blob(3 + tag, tag); r.magic = 0x100 + tag; r.op = 0x42; r.len = true; r.n = p.size();
        TMsg<uint8_t> t(p); Msg8 f(t, r.magic); bytes w = f.serialize();
        switch (kind) { case 0: m = Msg8(DataStream(bytes(w.begin(), w.begin() + Msg8::header_size))); r.has = false; break;
            case 1: m = f; r.has = true; r.p = p; break;
            default: m = Msg8(DataStream(bytes(w.begin(), w.begin() + Msg8::header_size))); m.set_payload(DataStream(p)); r.has = true; r.p = p; } };
    for (int i = 0; i < depth; i++) {
        int o = seq::pick(12), x = seq::pick(2), y = 1 - x; seq::step(); seq::note("%d.%d;", o, x);
        switch (o) {
        case 0: case 1: case 2: make(m[x], r[x], o, i); break;
        case 3: { Msg8 c(m[x]); m[y] = c; r[y] = r[x]; break; }
        case 4: m[y] = m[x]; r[y] = r[x]; break;
        case 5: { Msg8 c(std::move(m[x])); m[x] = std::move(c); break; }
        case 6: m[y] = std::move(m[x]); r[y] = r[x]; make(m[x], r[x], 0, i); break;
        case 7: m[x].swap(m[y]); std::swap(r[x], r[y]); break;
        case 8: { Msg8 &z = m[x]; m[x] = z; break; }
        case 9: { bool threw = false; bytes p; try { p = bytes(m[x].get_payload()); } catch (std::runtime_error &) { threw = true; } SEQ_ASSERT(threw == !r[x].has, "get_payload() %s", threw ? "fails" : "succeeds without a payload"); if (!threw) SEQ_ASSERT(p == r[x].p, "payload"); r[x].has = false; break; }
        case 10: m[x].set_magic(i + 9); r[x].magic = i + 9; break;
        case 11: { bytes p = blob(2, i); m[x].set_payload(bytes(p)); m[x].set_checksum(); r[x].p = p; r[x].n = 2; r[x].has = r[x].len = true; break; }
        }
        for (int k = 0; k < 2; k++) {
            SEQ_ASSERT(m[k].get_magic() == r[k].magic && m[k].get_opcode() == r[k].op && (!r[k].len || m[k].get_length() == r[k].n), "fields of message %d", k);
            bool threw = false, ok = false; try { ok = m[k].verify_checksum(); } catch (std::runtime_error &) { threw = true; } SEQ_ASSERT(threw == !r[k].has, "the checksum of a message %s", threw ? "cannot be computed" : "without a payload is computed");
            if (!threw) { SEQ_ASSERT(ok, "checksum"); SEQ_ASSERT(m[k].serialize() == wire<uint8_t>(r[k].magic, r[k].op, r[k].p), "wire format"); }
        }
        char b[200]; int n = 0; for (int k = 0; k < 2; k++) n += snprintf(b + n, sizeof b - n, "%u %u %d %zu %s;", r[k].magic, r[k].op, r[k].has, r[k].n, hexs(r[k].p).c_str()); seq::state(b);
    }
}
void msg_corrupt(long) {
    bytes p = payload(1 + seq::pick(8)); TMsg<uint8_t> t(p); Msg8 m(t, 5); bytes w = m.serialize(); const size_t H = Msg8::header_size;
    int where = seq::pick(w.size() - 9); size_t at = where < 4 ? 9 + where : H + where - 4;      // checksum field or payload
    for (int bit = 0; bit < 8; bit++) for (int x = 0; x < (at < H ? 1 : 2); x++) {
        bytes b = w; b[at] ^= x ? 0xff - (1 << bit) : 1 << bit;
        seq::cur(b.data(), b.size());
        Msg8 r(DataStream(bytes(b.begin(), b.begin() + H))); r.set_payload(bytes(b.begin() + H, b.end()));
        SEQ_ASSERT(!r.verify_checksum(), "corruption of byte %zu of a message of %zu goes unnoticed", at, w.size());
        seq::bulk(1);
    }
    seq::step();
}
void msg_hashes(long) {
    int n = seq::pick(4); std::vector<uint256_t> v; for (int i = 0; i < n; i++) v.push_back(uint256_t(pat256(60 + i * 3)));
    Msg8 m; DataStream s; m.gen_hash_list(s, v); bytes raw = s; SEQ_ASSERT(raw.size() == 4 + 32u * n, "hash list encoding");
    std::vector<uint256_t> u; DataStream r(raw); m.parse_hash_list(r, u); SEQ_ASSERT(u == v && r.size() == 0, "hash list round trip");
    for (size_t cut = 0; cut < raw.size(); cut++) { DataStream q(bytes(raw.begin(), raw.begin() + cut)); bool th = false; try { m.parse_hash_list(q, u); } catch (std::ios_base::failure &) { th = true; } SEQ_ASSERT(th, "truncated hash list accepted"); seq::bulk(1); }
    const uint32_t C[] = {4, 5, 100, 0x10000, 0x7fffffff, 0xffffffffu}; for (uint32_t c: C) { bytes b = raw; for (int i = 0; i < 4; i++) b[i] = c >> 8 * i; DataStream q(b); bool th = false; try { m.parse_hash_list(q, u); } catch (std::ios_base::failure &) { th = true; } catch (std::bad_alloc &) { seq::fail("%u hashes are allocated for %zu bytes", c, b.size()); } SEQ_ASSERT(th, "hash list count %u accepted", c); seq::bulk(1); }
}
// ------------------------------------------------------------------ segmented buffer
void seg_ops(long a) {
    int depth = a & 255; bool zeros = a >> 8 & 1; SegBuffer s; std::deque<bytes> m; uint8_t nx = 1;
    auto sz = [&](const std::deque<bytes> &m) { size_t n = 0; for (auto &x: m) n += x.size(); return n; };
    auto mk = [&](int n) { bytes b; for (int i = 0; i < n; i++) b.push_back(nx++); return b; };
    auto flat = [&] { bytes b; for (auto &x: m) b.insert(b.end(), x.begin(), x.end()); return b; };
    for (int i = 0; i < depth; i++) {
        int o = seq::pick(6); seq::step();
        switch (o) {
            case 0: { bytes b = mk(zeros ? seq::pick(3) : 1 + seq::pick(3)); seq::note("push%zu;", b.size()); m.push_back(b); s.push(std::move(b)); } break;
            case 1: { bytes b = mk(zeros ? seq::pick(3) : 1 + seq::pick(2)); seq::note("rewind%zu;", b.size()); m.push_front(b); s.rewind(std::move(b)); } break;
            case 2: { int n = seq::pick(6); seq::note("pop%d;", n); bytes f = flat(); size_t k = std::min((size_t)n, f.size()); bytes g = s.pop(n);
                SEQ_ASSERT(g == bytes(f.begin(), f.begin() + k), "pop(%d) gives %s, expected %s", n, hexs(g).c_str(), hexs(bytes(f.begin(), f.begin() + k)).c_str());
                size_t left = n; while (left && !m.empty()) { size_t c = std::min(left, m.front().size()); m.front().erase(m.front().begin(), m.front().begin() + c); left -= c; if (m.front().empty()) m.pop_front(); else break; } } break;
            case 3: { while (!m.empty() && m.front().empty()) { SEQ_ASSERT(s.move_pop().empty(), "move_pop"); m.pop_front(); } if (m.empty()) break; seq::note("mpop;"); bytes g = s.move_pop(); SEQ_ASSERT(g == m.front(), "move_pop gives %s, expected %s", hexs(g).c_str(), hexs(m.front()).c_str()); m.pop_front(); } break;
            case 4: { seq::note("copy;"); SegBuffer c(s); SegBuffer d; d = c; SEQ_ASSERT(d.size() == sz(m) && d.pop(100) == flat(), "copy has different content"); SEQ_ASSERT(c.size() == sz(m), "the copy shares its storage"); s = c; } break;
            case 5: { seq::note("move;"); SegBuffer c(std::move(s)); s = std::move(c); SEQ_ASSERT(c.size() == 0, "moved-from buffer is not empty"); } break;
        }
        SEQ_ASSERT(s.size() == sz(m), "size() is %zu, expected %zu", s.size(), sz(m));
        if (sz(m)) SEQ_ASSERT(!s.empty(), "empty() although bytes are pending"); else if (!zeros) SEQ_ASSERT(s.empty(), "not empty() although all bytes were taken");
        uint64_t h = 7; for (auto &x: m) h = h * 17 + x.size(); seq::state(h);
    }
    bytes f = flat(); SEQ_ASSERT(s.pop(1000) == f, "remaining content differs"); SEQ_ASSERT(s.size() == 0, "size after taking everything");
    s.push(mk(2)); s.clear(); SEQ_ASSERT(s.size() == 0 && s.empty(), "clear");
}
// ------------------------------------------------------------------ C bindings
void cb_stream(long depth) {
    datastream_t *s = datastream_new(); Model m;
    if (seq::pick(2)) { bytes b = blob(6, 4); datastream_free(s); s = datastream_new_from_bytes(b.data(), b.size()); m.b = b; }
    for (int i = 0; i < depth; i++) {
        int o = seq::pick(22); seq::note("%d;", o); seq::step(); bool ok = true; size_t left = m.b.size() - m.off;
        auto pb = [&](uint64_t v, int n, bool r) { SEQ_ASSERT(r, "put reports failure"); for (int k = 0; k < n; k++) m.b.push_back(v >> 8 * k); };
        auto gb = [&](uint64_t got, unsigned n, bool succ) { SEQ_ASSERT(succ == (left >= n), "reading %u bytes with %zu left reports %s", n, left, succ ? "success" : "failure"); if (succ) { uint64_t v = 0; for (unsigned k = 0; k < n; k++) v |= (uint64_t)m.b[m.off + k] << 8 * k; uint64_t mask = n == 8 ? ~0ull : (1ull << 8 * n) - 1; SEQ_ASSERT((got & mask) == v, "wrong value read"); m.off += n; } };
        bool succ = (i & 1);     // whatever was there before must not matter
        switch (o) {
            case 0: pb(0x81, 1, datastream_put_u8(s, 0x81)); break; case 1: pb(0x8182, 2, datastream_put_u16(s, 0x8182)); break;
            case 2: pb(0x81828384u, 4, datastream_put_u32(s, 0x81828384u)); break; case 3: pb(0x8182838485868788ull, 8, datastream_put_u64(s, 0x8182838485868788ull)); break;
            case 4: pb((uint8_t)-2, 1, datastream_put_i8(s, -2)); break; case 5: pb((uint16_t)-2, 2, datastream_put_i16(s, -2)); break; case 6: pb((uint32_t)-2, 4, datastream_put_i32(s, -2)); break; case 7: pb((uint64_t)-2, 8, datastream_put_i64(s, -2)); break;
            case 8: { auto v = datastream_get_u8(s, &succ); gb(v, 1, succ); } break; case 9: { auto v = datastream_get_u16(s, &succ); gb(v, 2, succ); } break; case 10: { auto v = datastream_get_u32(s, &succ); gb(v, 4, succ); } break; case 11: { auto v = datastream_get_u64(s, &succ); gb(v, 8, succ); } break;
            case 12: { auto v = datastream_get_i8(s, &succ); gb(v, 1, succ); } break; case 13: { auto v = datastream_get_i16(s, &succ); gb(v, 2, succ); } break; case 14: { auto v = datastream_get_i32(s, &succ); gb(v, 4, succ); } break; case 15: { auto v = datastream_get_i64(s, &succ); gb(v, 8, succ); } break;
            case 16: { bytes b = blob(3, 8); SEQ_ASSERT(datastream_put_data(s, b.data(), 3), "put_data"); m.b.insert(m.b.end(), b.begin(), b.end()); } break;
            case 17: { size_t n = seq::pick(2) ? left : left + 1; const uint8_t *p = datastream_get_data_inplace(s, n); SEQ_ASSERT((p == nullptr) == (n > left) || n == 0, "get_data_inplace"); if (n <= left) { SEQ_ASSERT(!n || !memcmp(p, m.b.data() + m.off, n), "get_data_inplace"); m.off += n; } } break;
            case 18: { datastream_t *c = datastream_copy(s); SEQ_ASSERT(c && datastream_size(c) == left, "copy"); bytearray_t *a = bytearray_new_moved_from_datastream(c); SEQ_ASSERT(a && *a == m.rest(), "moved bytes differ"); bytearray_free(a); datastream_free(c); } break;
            case 19: { bytearray_t *a = bytearray_new_copied_from_datastream(s); SEQ_ASSERT(a && bytearray_size(a) == left && *a == m.rest(), "copied bytes differ"); if (left) SEQ_ASSERT(!memcmp(bytearray_data(a), m.b.data() + m.off, left), "bytearray_data"); datastream_t *d = datastream_new_from_bytearray(a); SEQ_ASSERT(datastream_size(d) == left, "from bytearray"); datastream_free(d); d = datastream_new_moved_from_bytearray(a); SEQ_ASSERT(datastream_size(d) == left && (!left || !memcmp(datastream_data(d), m.b.data() + m.off, left)), "moved from bytearray"); datastream_free(d); bytearray_free(a); } break;
            case 20: { char *h = datastream_get_hex(s); SEQ_ASSERT(hexs(m.rest()) == h, "hex"); free(h); uint256_t *x = datastream_get_hash(s); uint8_t d[32]; bytes r = m.rest(); ::SHA256(r.data(), r.size(), d); SEQ_ASSERT(bytes(*x) == bytes(d, d + 32), "hash"); uint256_t *y = uint256_new_from_bytes(d); SEQ_ASSERT(uint256_is_eq(x, y) && !uint256_is_null(x), "uint256"); uint256_free(x); uint256_free(y); } break;
            case 21: { uint256_t *x = uint256_new(); SEQ_ASSERT(uint256_is_null(x), "null"); bytes p = pat256(66); bytearray_t q(p); uint256_t *y = uint256_new_from_bytearray(&q); SEQ_ASSERT(y && !uint256_is_null(y) && !uint256_is_eq(x, y), "uint256"); uint256_serialize(y, s); m.b.insert(m.b.end(), p.begin(), p.end()); q.pop_back(); SEQ_ASSERT(uint256_new_from_bytearray(&q) == nullptr, "short uint256 accepted"); uint256_free(x); uint256_free(y); } break;
        }
        SEQ_ASSERT(datastream_size(s) == m.b.size() - m.off, "size"); (void)ok;
        seq::state(hexs(m.b) + "/" + std::to_string(m.off));
    }
    if (m.b.size() > m.off) SEQ_ASSERT(!memcmp(datastream_data(s), m.b.data() + m.off, m.b.size() - m.off), "data");
    datastream_clear(s); SEQ_ASSERT(datastream_size(s) == 0, "clear");
    datastream_free(s);
}
void cb_msg(long) {
    int op = seq::pick(256); bytes p = payload(seq::pick(9)); bytearray_t *a = bytearray_new_from_bytes(p.data(), p.size());
    msg_t *m = msg_new_moved_from_bytearray(op, a); SEQ_ASSERT(msg_get_opcode(m) == op && msg_get_magic(m) == 0, "message fields"); msg_set_magic(m, 0xabcd); SEQ_ASSERT(msg_get_magic(m) == 0xabcd, "magic");
    SEQ_ASSERT(m->serialize() == wire<uint8_t>(0xabcd, op, p), "wire format");
    datastream_t *s = msg_consume_payload(m); SEQ_ASSERT(bytes(*s) == p, "payload"); datastream_free(s); msg_free(m); bytearray_free(a);
    const char *H[] = {"", "00ff", "0g", "abc", "AbCd"}; int hi = op % 5; bytearray_t *h = bytearray_new_from_hex(H[hi]); SEQ_ASSERT((h == nullptr) == (hi == 2 || hi == 3), "bytearray_new_from_hex(\"%s\")", H[hi]); if (h) bytearray_free(h);
    bytearray_t *e = bytearray_new(); SEQ_ASSERT(bytearray_size(e) == 0, "new bytearray"); bytearray_free(e); seq::step();
}
struct Reg { Reg() {
    seq::Opts t; t.thorough_only = true; seq::Opts s1; s1.sd = 1; seq::Opts s2; s2.sd = 2;
    seq::group("C08", "stream-ops", ds_ops, 4); seq::group("C08", "stream-ops-deep", ds_ops, 5, t);
    seq::group("C08", "stream-typed", ds_typed, 0);
    seq::group("C09", "hex-all-pairs", hex_all2, 0, s1); seq::group("C09", "hex-words", hex_words, 5, s2); seq::group("C09", "hex-words-deep", hex_words, 6, t); seq::group("C09", "hex-bytes", hex_bytes, 0, s1);
    seq::group("C09", "u256-values", u256_one, 0, s1); seq::group("C09", "u256-pairs", u256_pairs, 0, s2);
    seq::group("C09", "blob-64x8", blobs<64, uint64_t>, 0, s2); seq::group("C09", "blob-512", blobs<512, uint64_t>, 0, s2); seq::group("C09", "blob-96x32", blobs<96, uint32_t>, 0, s2); seq::group("C09", "blob-32x16", blobs<32, uint16_t>, 0, s2);
    seq::group("C09", "bits-load", bits_load, 0); seq::group("C09", "bits-ops", bits_ops, 3); seq::group("C09", "bits-ops-deep", bits_ops, 4, t); seq::group("C09", "bits-malformed", bits_malformed, 0, s2);
    seq::group("C10", "msg-roundtrip-8", msg_rt<uint8_t>, 0, s2); seq::group("C10", "msg-roundtrip-16", msg_rt<uint16_t>, 0, s2); seq::group("C10", "msg-ops", msg_ops, 4); seq::group("C10", "msg-ops-deep", msg_ops, 5, t); seq::group("C10", "msg-corruption", msg_corrupt, 0, s2); seq::group("C10", "msg-hash-list", msg_hashes, 0, s1);
    seq::group("C11", "segbuffer", seg_ops, 5); seq::group("C11", "segbuffer-empty-segments", seg_ops, 5 | 256); seq::group("C11", "segbuffer-deep", seg_ops, 6, t); seq::group("C11", "segbuffer-empty-segments-deep", seg_ops, 6 | 256, t);
    seq::group("C30", "c-datastream", cb_stream, 4); seq::group("C30", "c-datastream-deep", cb_stream, 5, t); seq::group("C30", "c-msg", cb_msg, 0, s2);
} } reg;
}
