#include "common.h"
// C11: hexadecimal, pointer and binary text.
static long long n_; static int nbits_;
static unsigned long long number() { // every 64-bit value, one path per bit length
  nbits_ = (int)vf_concretize((uint64_t)vf_range("bits", 0, 64)); if (nbits_ == 0) return 0; if (nbits_ == 64) return (unsigned long long)vf_range("n", (int64_t)0x8000000000000000ULL, -1); return (unsigned long long)vf_range("n", (int64_t)(1ULL << (nbits_ - 1)), (int64_t)((1ULL << nbits_) - 1)); }
static void digits(const char *b, int len, unsigned long long x, int bits, int width) { // value and alphabet
  int want = (nbits_ + bits - 1) / bits; if (want < 1) want = 1; if (want < width) want = width; vf_check(len == want, "digit_count"); bool ok = true;
  for (int i = 0; i < want; i++) { int sh = bits * (want - 1 - i); unsigned d = sh >= 64 ? 0 : (unsigned)(x >> sh) & ((1u << bits) - 1); ok &= b[i] == (d < 10 ? (char)('0' + d) : (char)('A' + d - 10)); } vf_check(ok, "digit_values"); if (nbits_ == 0) vf_cover("zero"); if (nbits_ == 64) vf_cover("all_bits"); }
#define HEX(W) ENTRY h_hex##W() { unsigned long long x = number(); char *b = vf_buf(W > 16 ? W : 16); memset(b, '?', 16); int n = write_hex_unsafe<W>(b, x); digits(b, n, x, 4, W); vf_observe("n", n); vf_end(); }
HEX(0) HEX(2) HEX(8) HEX(16)
ENTRY h_hex_signed() { long long x = (long long)number(); char *b = vf_buf(16); int n = write_hex_unsafe<0>(b, x); digits(b, n, (unsigned long long)x, 4, 0); vf_end(); }
#define BIN(W) ENTRY h_bin##W() { unsigned long long x = number(); char *b = vf_buf(64); memset(b, '?', 64); int n = write_bin_unsafe<W>(b, x); digits(b, n, x, 1, W); vf_observe("n", n); vf_end(); }
BIN(0) BIN(8) BIN(64)
ENTRY h_bin_signed() { long long x = (long long)number(); char *b = vf_buf(64); int n = write_bin_unsafe<0>(b, x); digits(b, n, (unsigned long long)x, 1, 0); vf_end(); }
static const void *ptr_; static bool seen;
static void on_ptr(const char *, const char *p, long len) { seen = true; if (!ptr_) { vf_check(len == 5 && vf_eq(p, "null\n", 5), "null_pointer_text"); vf_cover("null"); return; }
  vf_check(p[0] == '0' && p[1] == 'x' && p[len - 1] == '\n', "pointer_prefix"); digits(p + 2, (int)len - 3, (unsigned long long)(uintptr_t)ptr_, 4, 0); }
ENTRY h_pointer() { ptr_ = (const void *)(uintptr_t)number(); vf_start(VF_SYNC1); env_on_write = on_ptr; { vf_stream() << ptr_; } vf_check(seen, "record_written"); vf_end(); }
// write_binary: a dump of 0..3 arbitrary bytes shows each byte twice: as a character (or a dot) and as two hex digits
static unsigned char by[3]; static int nb; static char hexd(unsigned d) { return (char)(d < 10 ? '0' + d : 'A' + d - 10); }
static void on_bin(const char *, const char *p, long len) { seen = true; long i = 0; auto find = [&](char c) { while (i < len && p[i] != c) i++; i++; };
  find(':'); i++; bool ok = true; for (int k = 0; k < nb; k++) { unsigned char c = by[k]; bool pr = c >= 32 && c < 127; ok &= p[i] == ' ' && p[i + 1] == (pr ? (char)c : '.') && p[i + 2] == ' '; i += 3; } vf_check(ok, "dump_characters");
  ok = p[i] == '\r'; find(':'); i++; for (int k = 0; k < nb; k++) { ok &= p[i] == hexd(by[k] >> 4) && p[i + 1] == hexd(by[k] & 15) && p[i + 2] == ' '; i += 3; } ok &= p[i] == '\r'; vf_check(ok, "dump_hex"); }
ENTRY h_dump() { static char fix[4]; nb = (int)vf_concretize((uint64_t)vf_range("n", 0, 3)); vf_sym_bytes(by, 3, "b"); for (int i = 0; i < 3; i++) fix[i] = (char)by[i]; vf_start(VF_SYNC1); env_on_write = on_bin; { vf_stream().write_binary(fix, nb); } vf_check(seen, "record_written"); vf_end(); }
