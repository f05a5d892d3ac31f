// C29: keys, certificates and digests survive their encodings and reject everything else.
#include "seq.h"
#include <cstring>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ec.h>
#include <openssl/rand.h>
#include <openssl/err.h>
extern "C" int memfd_create(const char *, unsigned);
#include "salticidae/network.h"
using namespace salticidae;
namespace {
uint64_t rs = 1; // deterministic keys, so that a replay sees the same ones
int rb(unsigned char *p, int n) { for (int i = 0; i < n; i++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; p[i] = (unsigned char)(rs >> 24); } return 1; }
int rok() { return 1; }
RAND_METHOD meth = {nullptr, rb, nullptr, nullptr, rb, rok};
enum { NK = 4 };
EVP_PKEY *keys[NK]; const char *kname[NK] = {"P-384", "RSA-2048", "P-256", "Ed25519"};
void init() {
    if (keys[0]) return;
    RAND_set_rand_method(&meth); rs = 88172645463325252ull;
    keys[0] = EVP_EC_gen("P-384"); keys[1] = EVP_RSA_gen(2048); keys[2] = EVP_EC_gen("P-256"); unsigned char seed[32]; memset(seed, 5, 32); keys[3] = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed, 32);
    for (auto k: keys) if (!k) abort();
}
EVP_PKEY *ref(int i) { init(); EVP_PKEY_up_ref(keys[i]); return keys[i]; }
bytearray_t priv_der(int i) { init(); unsigned char *d = nullptr; int n = i2d_PrivateKey(keys[i], &d); bytearray_t r(d, d + n); OPENSSL_free(d); return r; }
::X509 *mk(int i, int serial = 1) { // a certificate made without the code under test
    init(); ::X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), serial); X509_set_version(x, 2); X509_set_pubkey(x, keys[i]);
    ASN1_TIME_set_string_X509(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string_X509(X509_getm_notAfter(x), "20490101000000Z");
    auto n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char *)"x", -1, -1, 0); X509_set_issuer_name(x, n);
    if (!X509_sign(x, keys[i], i == 3 ? nullptr : EVP_sha256())) abort(); return x; }
bytearray_t x_der(::X509 *x) { unsigned char *d = nullptr; int n = i2d_X509(x, &d); bytearray_t r(d, d + n); OPENSSL_free(d); return r; }
int nfd() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
template<typename F> int code(F f) { try { f(); return 0; } catch (const SalticidaeError &e) { return e.get_code(); } catch (const std::exception &) { return -2; } }
std::string file(int k) { static int fd[3] = {-1, -1, -1}; if (fd[k] < 0) fd[k] = memfd_create("pem", 0); if (ftruncate(fd[k], 0)) abort(); return "/proc/self/fd/" + std::to_string(fd[k]); }
std::string pem(const std::function<int(BIO *)> &f) { BIO *b = BIO_new(BIO_s_mem()); if (!f(b)) abort(); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
void put(const std::string &n, const std::string &c) { int fd = open(n.c_str(), O_WRONLY | O_TRUNC); if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) abort(); close(fd); }
std::string slurp(const std::string &n) { int fd = open(n.c_str(), O_RDONLY); std::string r; char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); close(fd); return r; }

void key_der(long) {
    int i = seq::pick(NK); seq::note("%s", kname[i]); bytearray_t d = priv_der(i);
    PKey a(ref(i)); SEQ_ASSERT(a.get_privkey_der() == d, "the encoding of a private key is wrong");
    PKey b = PKey::create_privkey_from_der(d); SEQ_ASSERT(b.get_privkey_der() == d, "a private key does not survive its encoding");
    SalticidaeCError e; pkey_t *c = pkey_new_privkey_from_der(&d, &e); SEQ_ASSERT(c && e.code == SALTI_NORMAL, "C binding"); bytearray_t *cd = pkey_get_privkey_der(c); SEQ_ASSERT(*cd == d, "C binding"); delete cd;
    if (i != 3) { unsigned char *p = nullptr; int n = i2d_PublicKey(keys[i], &p); bytearray_t pd(p, p + n); OPENSSL_free(p); SEQ_ASSERT(a.get_pubkey_der() == pd && b.get_pubkey_der() == pd, "the encoding of a public key is wrong"); bytearray_t *cp = pkey_get_pubkey_der(c); SEQ_ASSERT(*cp == pd, "C binding"); delete cp;
        for (int j = 0; j < 3; j++) if (j != i) SEQ_ASSERT(PKey(ref(j)).get_pubkey_der() != pd, "different keys have the same encoding"); }
    else SEQ_ASSERT(code([&] { a.get_pubkey_der(); }) == SALTI_ERROR_TLS_KEY, "no error for a public key without this encoding");
    pkey_free(c); PKey m(std::move(b)); SEQ_ASSERT(m.get_privkey_der() == d, "a moved key changes"); seq::step();
}
void key_bad(long) { // every truncation, every byte changed
    int i = seq::pick(NK); bytearray_t d = priv_der(i); int pos = seq::pick((int)d.size()); seq::note("%s byte %d", kname[i], pos);
    bytearray_t t(d.begin(), d.begin() + pos); int r = code([&] { PKey::create_privkey_from_der(t); }); SEQ_ASSERT(r == SALTI_ERROR_TLS_KEY, "a private key cut to %d bytes: %d", pos, r);
    SalticidaeCError e; e.code = 0; pkey_t *c = pkey_new_privkey_from_der(&t, &e); SEQ_ASSERT(!c && e.code == SALTI_ERROR_TLS_KEY, "C binding: %d", e.code);
    for (int v: {0x00, 0x01, 0x7f, 0x80, 0xff}) { if (d[pos] == v) continue; bytearray_t x = d; x[pos] = v; seq::cur(&x[0], x.size());
        try { PKey k = PKey::create_privkey_from_der(x); k.get_privkey_der(); } catch (const SalticidaeError &e) { SEQ_ASSERT(e.get_code() == SALTI_ERROR_TLS_KEY, "error code %d", e.get_code()); } seq::bulk(1); }
    ERR_clear_error();
}
void cert_der(long) {
    int i = seq::pick(NK), s = seq::pick(3); seq::note("%s %d", kname[i], s); ::X509 *x = mk(i, 1 + s * 77); bytearray_t d = x_der(x);
    salticidae::X509 a(x); SEQ_ASSERT(a.get_der() == d, "the encoding of a certificate is wrong");
    salticidae::X509 b = salticidae::X509::create_from_der(d); SEQ_ASSERT(b.get_der() == d, "a certificate does not survive its encoding"); SEQ_ASSERT(PeerId(a) == PeerId(b), "the same certificate has two identities");
    { salticidae::X509 o(mk(i, 2 + s * 77)), p(mk((i + 1) % NK, 1 + s * 77)); SEQ_ASSERT(PeerId(o) != PeerId(a) && PeerId(p) != PeerId(a), "different certificates have the same identity"); }
    PKey k = a.get_pubkey(); if (i != 3) SEQ_ASSERT(k.get_pubkey_der() == PKey(ref(i)).get_pubkey_der(), "the key of a certificate is wrong");
    SalticidaeCError e; x509_t *c = x509_new_from_der(&d, &e); SEQ_ASSERT(c && e.code == SALTI_NORMAL, "C binding"); bytearray_t *cd = x509_get_der(c); SEQ_ASSERT(*cd == d, "C binding"); delete cd; pkey_t *ck = x509_get_pubkey(c); SEQ_ASSERT(ck, "C binding"); pkey_free(ck); x509_free(c);
    salticidae::X509 m(std::move(b)); SEQ_ASSERT(m.get_der() == d, "a moved certificate changes"); seq::step();
}
void cert_bad(long) {
    static bytearray_t dd[NK]; int i = seq::pick(NK); if (dd[i].empty()) { rs = 99 + i; ::X509 *x = mk(i); dd[i] = x_der(x); X509_free(x); } bytearray_t d = dd[i]; int pos = seq::pick((int)d.size()); seq::note("%s byte %d", kname[i], pos);
    bytearray_t t(d.begin(), d.begin() + pos); int r = code([&] { salticidae::X509::create_from_der(t); }); SEQ_ASSERT(r == SALTI_ERROR_TLS_X509, "a certificate cut to %d bytes: %d", pos, r);
    SalticidaeCError e; e.code = 0; x509_t *c = x509_new_from_der(&t, &e); SEQ_ASSERT(!c && e.code == SALTI_ERROR_TLS_X509, "C binding: %d", e.code);
    for (int v: {0x00, 0x01, 0x7f, 0x80, 0xff}) { if (d[pos] == v) continue; bytearray_t x = d; x[pos] = v; seq::cur(&x[0], x.size());
        try { auto k = salticidae::X509::create_from_der(x); k.get_der(); k.get_pubkey(); } catch (const SalticidaeError &e) { SEQ_ASSERT(e.get_code() == SALTI_ERROR_TLS_X509, "error code %d", e.get_code()); } seq::bulk(1); }
    ERR_clear_error();
}
// files: what is in the file x how it is opened
std::string big(int n) { std::string s; for (int i = 0; i < n; i++) s += char('a' + i % 26); return s; }
void pem_load(long) {
    int i = seq::pick(NK), what = seq::pick(10), use = seq::pick(6); std::string f = file(0), t; init(); if (what >= 4 && i == 3) return;
    const int PL[] = {4, 8, 31, 255, 600, 1023}; std::string pw = big(PL[what >= 4 ? what - 4 : 0]);
    std::string kp = pem([&](BIO *b) { return PEM_write_bio_PrivateKey(b, keys[i], nullptr, nullptr, 0, nullptr, nullptr); }), cp; { ::X509 *x = mk(i); cp = pem([&](BIO *b) { return PEM_write_bio_X509(b, x); }); X509_free(x); }
    switch (what) { case 0: t = kp; break; case 1: t = cp; break; case 2: t = ""; break; case 3: t = cp + kp; break;
        default: t = pem([&](BIO *b) { return PEM_write_bio_PrivateKey_traditional(b, keys[i], i == 3 ? nullptr : EVP_aes_128_cbc(), (unsigned char *)pw.data(), (int)pw.size(), nullptr, nullptr) == 1 ? 1 : 0; }); }
    put(f, t); seq::note("%s file %d use %d", kname[i], what, use);
    int n0 = nfd(); bytearray_t d = priv_der(i); bool haskey = what == 0 || what == 3, enc = what >= 4, hascert = what == 1 || what == 3;
    std::string right = enc ? pw : "xyz1", wrong = pw + "!", longer = big(2000); std::string *p = use == 1 ? &right : use == 2 ? &wrong : use == 3 ? &longer : nullptr;
    bool ok = haskey || (enc && use == 1); std::string name = use == 4 ? "/nonexistent/dir/x.pem" : use == 5 ? "/proc/self/fd" : f; if (use >= 4) ok = false;
    try { PKey k = PKey::create_privkey_from_pem_file(name, p); SEQ_ASSERT(ok, "a key was read"); SEQ_ASSERT(k.get_privkey_der() == d, "another key was read"); }
    catch (const SalticidaeError &e) { SEQ_ASSERT(!ok, "a key cannot be read"); SEQ_ASSERT(e.get_code() == SALTI_ERROR_TLS_KEY, "error code %d", e.get_code()); }
    SalticidaeCError e; e.code = 0; pkey_t *c = pkey_new_privkey_from_pem_file(name.c_str(), p ? p->c_str() : nullptr, &e); SEQ_ASSERT((c != nullptr) == ok && (e.code == SALTI_NORMAL) == ok, "C binding: code %d", e.code); if (c) pkey_free(c);
    bool okc = hascert && use < 4;
    try { auto x = salticidae::X509::create_from_pem_file(name, p); SEQ_ASSERT(okc, "a certificate was read"); x.get_der(); }
    catch (const SalticidaeError &e) { SEQ_ASSERT(!okc && e.get_code() == SALTI_ERROR_TLS_X509, "a certificate cannot be read: %d", e.get_code()); }
    x509_t *xc = x509_new_from_pem_file(name.c_str(), p ? p->c_str() : nullptr, &e); SEQ_ASSERT((xc != nullptr) == okc && (e.code == SALTI_NORMAL) == okc, "C binding: code %d", e.code); if (xc) x509_free(xc);
    ERR_clear_error(); int n1 = nfd(); SEQ_ASSERT(n1 == n0, "%d file(s) left open", n1 - n0); seq::step();
}
void pem_save(long) {
    int i = seq::pick(NK), bad = seq::pick(2); std::string f = bad ? "/nonexistent/dir/x.pem" : file(1), g = bad ? f : file(2); seq::note("%s %d", kname[i], bad); int n0 = nfd();
    PKey k(ref(i)); ::X509 *xx = mk(i); salticidae::X509 x(xx);
    int r1 = code([&] { k.save_privkey_to_file(f); }), r2 = code([&] { x.save_to_file(g); });
    if (bad) SEQ_ASSERT(r1 > 0 && r2 > 0, "saving to an impossible place: %d, %d", r1, r2);
    else { SEQ_ASSERT(!r1 && !r2, "cannot save: %d %d", r1, r2); SEQ_ASSERT(PKey::create_privkey_from_pem_file(f).get_privkey_der() == k.get_privkey_der(), "another key was saved"); SEQ_ASSERT(salticidae::X509::create_from_pem_file(g).get_der() == x.get_der(), "another certificate was saved");
        TLSContext c; c.use_cert_file(g); c.use_privkey_file(f); SEQ_ASSERT(c.check_privkey(), "key and certificate do not match"); SEQ_ASSERT(code([&] { c.use_cert_file(f + "x"); }) == SALTI_ERROR_TLS_LOAD_CERT && code([&] { c.use_privkey_file(f + "x"); }) == SALTI_ERROR_TLS_LOAD_KEY && code([&] { c.use_cert_file(f); }) == SALTI_ERROR_TLS_LOAD_CERT, "files that are not there"); }
    ERR_clear_error(); int n1 = nfd(); SEQ_ASSERT(n1 == n0, "%d file(s) left open", n1 - n0); seq::step();
}
void selfsigned(long) {
    int i = seq::pick(3), cn = seq::pick(4); const char *CN[] = {"localhost", "a", "node 17", "x.example.org"}; seq::note("%s %s", kname[i], CN[cn]); PKey k(ref(i));
    salticidae::X509 x = salticidae::X509::create_self_signed_from_pubkey(k, "US", CN[cn]); SEQ_ASSERT(x.get_pubkey().get_pubkey_der() == k.get_pubkey_der(), "certificate for another key");
    bytearray_t d = x.get_der(); const unsigned char *p = &d[0]; ::X509 *r = d2i_X509(nullptr, &p, d.size()); SEQ_ASSERT(r, "not a certificate"); char b[64] = {0}; X509_NAME_get_text_by_NID(X509_get_subject_name(r), NID_commonName, b, 64); SEQ_ASSERT(!strcmp(b, CN[cn]), "common name '%s'", b);
    X509_NAME_get_text_by_NID(X509_get_issuer_name(r), NID_countryName, b, 64); SEQ_ASSERT(!strcmp(b, "US"), "country '%s'", b); SEQ_ASSERT(X509_verify(r, keys[i]) == 1, "the signature is not valid"); X509_free(r);
    TLSContext c; c.use_cert(x); c.use_privkey(k); SEQ_ASSERT(c.check_privkey(), "key and certificate do not match"); ERR_clear_error(); seq::step();
}
void match(long) { // certificate i with key j
    int i = seq::pick(NK), j = seq::pick(NK), net = seq::pick(2); seq::note("certificate %s key %s", kname[i], kname[j]); init();
    int r;
    if (!net) r = code([&] { salticidae::X509 x(mk(i)); PKey k(ref(j)); TLSContext c; c.use_cert(x); c.use_privkey(k); if (!c.check_privkey()) throw SalticidaeError(SALTI_ERROR_TLS_KEY_NOT_MATCH); });
    else r = code([&] { EventContext ec; MsgNetwork<uint8_t>::Config cfg; cfg.enable_tls(true).tls_cert(new salticidae::X509(mk(i))).tls_key(new PKey(ref(j))); MsgNetwork<uint8_t> n(ec, cfg); });
    SEQ_ASSERT((r == 0) == (i == j) && r >= 0, "certificate %s with key %s: %d", kname[i], kname[j], r); ERR_clear_error(); seq::step();
}
template<typename H> bytearray_t one(H &h, const std::string &s, size_t a, size_t b, int way) {
    auto part = [&](size_t x, size_t y) { std::string t = s.substr(x, y - x); bytearray_t v(t.begin(), t.end()); if (v.empty() && way != 2) return; switch (way) { case 0: h.update(v); break; case 1: h.update(v.begin(), v.size()); break; default: h.update((const uint8_t *)t.data(), t.size()); } };
    part(0, a); part(a, b); part(b, s.size()); if (way == 1) { bytearray_t md; h.digest(md); return md; } return h.digest();
}
void digest(long) {
    int n = seq::pick(seq::thorough ? 200 : 131), way = seq::pick(3); std::string s = big(n); bytearray_t w1(20), w2(32); ::SHA1((const unsigned char *)s.data(), n, &w1[0]); ::SHA256((const unsigned char *)s.data(), n, &w2[0]); seq::note("%d bytes", n);
    salticidae::SHA1 h1; salticidae::SHA256 h2;
    { salticidae::SHA1 f1; salticidae::SHA256 f2; auto r1 = one(f1, s, 0, n, way), r2 = one(f2, s, 0, n, way); r1.resize(20); SEQ_ASSERT(r1 == w1 && r2 == w2, "digest of a new object"); }
    for (int a = 0; a <= n; a++) for (int b = a; b <= n; b += 1 + (b - a) / 4) { h1.reset(); h2.reset(); auto r1 = one(h1, s, a, b, way), r2 = one(h2, s, a, b, way); r1.resize(20); SEQ_ASSERT(r1 == w1, "SHA1 of %d bytes in three parts (%d, %d)", n, a, b); SEQ_ASSERT(r2 == w2, "SHA256 of %d bytes in three parts (%d, %d)", n, a, b); seq::bulk(1); }
}
struct Reg { Reg() {
    seq::Opts o; o.sd = 1; seq::Opts o2; o2.sd = 2; o.leaks = o2.leaks = false;
    seq::group("C29", "key_der", key_der, 0, o); seq::group("C29", "cert_der", cert_der, 0, o2); seq::group("C29", "key_bad", key_bad, 0, o2); seq::group("C29", "cert_bad", cert_bad, 0, o2);
    seq::group("C29", "pem_load", pem_load, 0, o2); seq::group("C29", "pem_save", pem_save, 0, o2); seq::group("C29", "selfsigned", selfsigned, 0, o2); seq::group("C29", "match", match, 0, o2); seq::group("C29", "digest", digest, 0, o2);
} } reg;
}
