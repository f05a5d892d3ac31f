#include "tls.h"
namespace tlsx {
EVP_PKEY *key[NCERT]; ::X509 *cert[NCERT];
static uint32_t cnt[64];
static int rb(unsigned char *p, int n) {
    int s = mc::active() ? mc::self() : 0;
    uint64_t x = 0x9e3779b97f4a7c15ull * (s + 1) + 0xbf58476d1ce4e5b9ull * ++cnt[s & 63];
    for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = (unsigned char)(x >> 24); }
    return 1;
}
static int rst() { return 1; }
static RAND_METHOD meth = {nullptr, rb, nullptr, nullptr, rb, rst};
void begin() { mc::Quiet q; memset(cnt, 0, sizeof cnt); }
std::string der(int i) { mc::Quiet q; unsigned char *d = nullptr; int n = i2d_X509(cert[i], &d); std::string r((char *)d, n); OPENSSL_free(d); return r; }
static SSL_CTX *cctx[NCERT + 1];
struct Init { Init() {
    OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG, nullptr);
    RAND_set_rand_method(&meth);
    for (int i = 0; i < NCERT; i++) {
        unsigned char seed[32]; memset(seed, 17 + i, 32);
        key[i] = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed, 32);
        ::X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 7 + i); X509_set_version(x, 2);
        X509_set_pubkey(x, key[i]);
        ASN1_TIME_set_string_X509(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string_X509(X509_getm_notAfter(x), "20490101000000Z");
        auto n = X509_get_subject_name(x); char nm[8] = "node0"; nm[4] += i; X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char *)nm, -1, -1, 0);
        X509_set_issuer_name(x, n);
        if (!X509_sign(x, key[i], nullptr)) { fprintf(stderr, "cannot sign\n"); _exit(3); }
        cert[i] = x;
    }
    for (int i = 0; i <= NCERT; i++) {
        cctx[i] = SSL_CTX_new(TLS_method());
        SSL_CTX_set_verify(cctx[i], SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
        if (i < NCERT) { SSL_CTX_use_certificate(cctx[i], cert[i]); SSL_CTX_use_PrivateKey(cctx[i], key[i]); }
    }
    // warm up: everything OpenSSL initialises lazily is initialised before the first execution
    SSL *s[2]; BIO *b[2][2];
    for (int i = 0; i < 2; i++) { s[i] = SSL_new(cctx[i]); b[i][0] = BIO_new(BIO_s_mem()); b[i][1] = BIO_new(BIO_s_mem()); SSL_set_bio(s[i], b[i][0], b[i][1]); }
    SSL_set_accept_state(s[0]); SSL_set_connect_state(s[1]);
    for (int k = 0; k < 10; k++) for (int i = 0; i < 2; i++) { SSL_do_handshake(s[i]); char buf[8192]; int n; SSL_read(s[i], buf, sizeof buf); while ((n = BIO_read(b[i][1], buf, sizeof buf)) > 0) BIO_write(b[!i][0], buf, n); }
    if (!SSL_is_init_finished(s[0]) || !SSL_is_init_finished(s[1])) { fprintf(stderr, "TLS warm-up failed\n"); _exit(3); }
    SSL_write(s[0], "x", 1);
    SSL_free(s[0]); SSL_free(s[1]);
    ERR_clear_error();
} } init;
Raw::Raw(int sock, bool server, int c): s(sock) {
    mc::Quiet q;
    ssl = SSL_new(cctx[c < 0 ? (int)NCERT : c]); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); SSL_set_bio(ssl, rb, wb);
    if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
}
static void flush(BIO *wb, int s) { char b[4096]; int n; for (;;) { { mc::Quiet q; n = BIO_read(wb, b, sizeof b); } if (n <= 0) return; std::string d(b, n); raw_send_all(s, d); } }
bool Raw::pump() {
    std::string in = raw_drain(s);
    { mc::Quiet q; if (in.size()) BIO_write(rb, in.data(), (int)in.size()); if (!SSL_is_init_finished(ssl)) SSL_do_handshake(ssl); ERR_clear_error(); }
    flush(wb, s);
    return SSL_is_init_finished(ssl);
}
std::string Raw::hello() { mc::Quiet q; SSL_do_handshake(ssl); char b[4096]; int n = BIO_read(wb, b, sizeof b); ERR_clear_error(); return std::string(b, n > 0 ? n : 0); }
bool Raw::write(const std::string &d) { int r; { mc::Quiet q; r = SSL_write(ssl, d.data(), (int)d.size()); ERR_clear_error(); } flush(wb, s); return r == (int)d.size(); }
std::string Raw::read() {
    pump();
    mc::Quiet q; std::string r; char b[4096]; int n; while ((n = SSL_read(ssl, b, sizeof b)) > 0) r.append(b, n); ERR_clear_error(); return r;
}
void Raw::shutdown() { { mc::Quiet q; SSL_shutdown(ssl); ERR_clear_error(); } flush(wb, s); }
Raw::~Raw() { mc::Quiet q; SSL_free(ssl); }
}
