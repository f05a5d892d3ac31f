// TLS in the simulated world: real OpenSSL over simulated sockets, Ed25519 certificates made at start-up.
#pragma once
#include "net.h"
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/rand.h>
#include <openssl/err.h>
namespace tlsx {
enum { NCERT = 3 };
extern EVP_PKEY *key[NCERT]; extern ::X509 *cert[NCERT];
void begin();                                   // at the start of every execution
std::string der(int i);                         // the certificate as bytes
inline salticidae::X509 *new_cert(int i) { X509_up_ref(cert[i]); return new salticidae::X509(cert[i]); }
inline salticidae::PKey *new_key(int i) { EVP_PKEY_up_ref(key[i]); return new salticidae::PKey(key[i]); }
template<typename C> C &use(C &c, int i) { c.enable_tls(true); c.tls_cert(new_cert(i)); c.tls_key(new_key(i)); return c; }
// a scripted TLS endpoint
struct Raw {
    SSL *ssl = nullptr; BIO *rb, *wb; int s;
    Raw(int sock, bool server, int cert_no);    // -1: without a certificate
    bool pump();                                // moves bytes; true when the handshake is complete
    bool write(const std::string &d);
    std::string read();                         // decrypted bytes
    void shutdown();                            // close_notify
    std::string hello();                        // the first flight
    ~Raw();
};
}
