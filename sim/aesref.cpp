// Reference AES-256-CBC, written from FIPS-197 with the S-box computed from its definition.
#include "world.hpp"
static uint8_t S[256], IS[256]; static bool ready;
static uint8_t xt(uint8_t a){ return (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
static uint8_t mul(uint8_t a, uint8_t b){ uint8_t r = 0; while(b){ if(b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static void init(){ if(ready) return; ready = true;
	for(int i = 0; i < 256; i++){ uint8_t inv = 0; if(i) for(int j = 1; j < 256; j++) if(mul(i, j) == 1){ inv = j; break; }
		uint8_t x = inv, r = 0x63; for(int k = 0; k < 5; k++){ r ^= x; x = (uint8_t)(x << 1 | x >> 7); } S[i] = r; }
	for(int i = 0; i < 256; i++) IS[S[i]] = i; }
static void expand(const uint8_t* key, uint8_t w[60][4]){ memcpy(w, key, 32); uint8_t rc = 1;
	for(int i = 8; i < 60; i++){ uint8_t t[4]; memcpy(t, w[i - 1], 4);
		if(i % 8 == 0){ uint8_t a = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[a]; rc = xt(rc); } else if(i % 8 == 4) for(int k = 0; k < 4; k++) t[k] = S[t[k]];
		for(int k = 0; k < 4; k++) w[i][k] = w[i - 8][k] ^ t[k]; } }
static void ark(uint8_t* s, uint8_t w[60][4], int r){ for(int i = 0; i < 16; i++) s[i] ^= w[r * 4 + i / 4][i % 4]; }
static void enc(uint8_t* s, uint8_t w[60][4]){
	ark(s, w, 0);
	for(int r = 1; r <= 14; r++){ uint8_t t[16]; for(int c = 0; c < 4; c++) for(int k = 0; k < 4; k++) t[c * 4 + k] = S[s[((c + k) % 4) * 4 + k]];
		for(int c = 0; c < 4; c++){ uint8_t* a = t + c * 4; if(r < 14) for(int k = 0; k < 4; k++) s[c * 4 + k] = mul(a[k], 2) ^ mul(a[(k + 1) % 4], 3) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; else memcpy(s + c * 4, a, 4); }
		ark(s, w, r); } }
static void dec(uint8_t* s, uint8_t w[60][4]){
	for(int r = 14; r >= 1; r--){ ark(s, w, r); uint8_t t[16];
		if(r < 14){ for(int c = 0; c < 4; c++){ uint8_t* a = s + c * 4; for(int k = 0; k < 4; k++) t[c * 4 + k] = mul(a[k], 14) ^ mul(a[(k + 1) % 4], 11) ^ mul(a[(k + 2) % 4], 13) ^ mul(a[(k + 3) % 4], 9); } memcpy(s, t, 16); }
		for(int c = 0; c < 4; c++) for(int k = 0; k < 4; k++) t[((c + k) % 4) * 4 + k] = IS[s[c * 4 + k]]; memcpy(s, t, 16); }
	ark(s, w, 0); }
Str ref_raw_encrypt(const Str& padded, const uint8_t key[32], const uint8_t iv[16]){ init(); uint8_t w[60][4]; expand(key, w); Str o = padded; uint8_t prev[16]; memcpy(prev, iv, 16);
	for(size_t i = 0; i + 16 <= o.size(); i += 16){ uint8_t b[16]; for(int k = 0; k < 16; k++) b[k] = (uint8_t)o[i + k] ^ prev[k]; enc(b, w); memcpy(&o[i], b, 16); memcpy(prev, b, 16); } return o; }
Str ref_encrypt(const Str& plain, const uint8_t key[32], const uint8_t iv[16]){ int pad = 16 - plain.size() % 16; return ref_raw_encrypt(plain + Str(pad, (char)pad), key, iv); }
bool ref_decrypt(const Str& c, const uint8_t key[32], const uint8_t iv[16], Str& plain){ init(); if(c.empty() || c.size() % 16) return false; uint8_t w[60][4]; expand(key, w); uint8_t prev[16]; memcpy(prev, iv, 16); plain = c;
	for(size_t i = 0; i < c.size(); i += 16){ uint8_t b[16]; memcpy(b, &c[i], 16); dec(b, w); for(int k = 0; k < 16; k++) plain[i + k] = (char)(b[k] ^ prev[k]); memcpy(prev, &c[i], 16); }
	int pad = (uint8_t)plain.back(); if(pad < 1 || pad > 16) return false; for(int k = 1; k <= pad; k++) if((uint8_t)plain[plain.size() - k] != pad) return false;
	plain.resize(plain.size() - pad); return true; }
