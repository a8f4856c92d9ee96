#pragma once
// Stand-in for libsodium's stream cipher: an ideal key stream (a stream of n
// bytes is not a prefix of a longer one; the schemes always use one length).
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
int crypto_stream_chacha20(unsigned char*       c,
                           unsigned long long   clen,
                           const unsigned char* n,
                           const unsigned char* k);
int crypto_stream_chacha20_xor(unsigned char*       c,
                               const unsigned char* m,
                               unsigned long long   mlen,
                               const unsigned char* n,
                               const unsigned char* k);
