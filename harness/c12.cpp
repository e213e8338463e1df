#include "common.h"
// C12: floating point text of the stream.
static bool seen; static double x_; static void (*spec)(const char *, int);
static void on_write(const char *, const char *p, long len) { seen = true; vf_check(len >= 1 && p[len - 1] == '\n', "record_line"); spec(p, (int)len - 1); }
static double bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
template <class T> static void run(T v) { vf_start(VF_SYNC1); env_on_write = on_write; { vf_stream() << v; } vf_check(seen, "record_written"); vf_end(); }
static bool text(const char *p, int n, const char *t) { int m = (int)strlen(t); return n == m && vf_eq(p, t, m); }
// zero, subnormal, infinite, not a number
static int kind;
static void s_special(const char *p, int n) { if (kind <= 1) { vf_check(text(p, n, "0"), "zero_text"); } else if (kind == 2) vf_check(text(p, n, "inf"), "inf_text"); else vf_check(text(p, n, "nan"), "nan_text"); }
ENTRY h_special() { kind = (int)vf_concretize((uint64_t)vf_range("kind", 0, 3)); uint64_t s = (uint64_t)vf_range("sign", 0, 1) << 63, m = (uint64_t)vf_range("m", 1, (1LL << 52) - 1); spec = s_special;
  x_ = bits(kind == 0 ? s : kind == 1 ? s | m : kind == 2 ? s | 0x7ffULL << 52 : s | 0x7ffULL << 52 | m); vf_cover(kind == 0 ? "zero" : kind == 1 ? "subnormal" : kind == 2 ? "infinite" : "nan"); run(x_); }
// [0.0001, 2^60): sign, exact integer part, fraction cut (not rounded) to four digits
static uint64_t mant; static int ex; static bool neg;
static void s_mid(const char *p, int n) {
  vf_check(n >= 1 && n <= 29, "float_length"); int i = 0; if (neg) { vf_check(p[0] == '-', "negative_sign"); vf_cover("negative"); i = 1; }
  double f = __builtin_fabs(x_), t = __builtin_trunc(f); uint64_t ip = (uint64_t)t, q = (uint64_t)((f - t) * 10000); // the definition, in IEEE arithmetic
  int d0 = i; while (i < n && p[i] != '.') i++; bool dot = i < n; int e = i; vf_check(e > d0 && e - d0 <= 19, "integer_part_present");
  uint64_t y = ip; int k = e - 1; for (; k >= d0; k--) { vf_check(p[k] == (char)('0' + y % 10), "integer_part_exact"); y /= 10; if (y == 0) break; } vf_check(k == d0 && y == 0, "integer_part_length");
  int nd = dot ? n - e - 1 : 0; vf_check(dot ? nd >= 2 && nd <= 4 : true, "fraction_digits"); char fd[4] = {'0', '0', '0', '0'}; for (int m = 0; m < nd; m++) fd[m] = p[e + 1 + m]; if (dot) vf_cover("fraction");
  vf_check(fd[0] == (char)('0' + q / 1000) && fd[1] == (char)('0' + q / 100 % 10) && fd[2] == (char)('0' + q / 10 % 10) && fd[3] == (char)('0' + q % 10), "fraction_truncated_to_four_digits"); }
static int ELO = -14, EHI = 59;
static void mid(int lo, int hi, int mbits) { ex = (int)vf_concretize((uint64_t)(vf_range("e", lo, hi) + 64)) - 64; neg = vf_range("neg", 0, 1) != 0; mant = (uint64_t)vf_range("m", 0, (1LL << mbits) - 1) << (52 - mbits); x_ = bits((uint64_t)neg << 63 | (uint64_t)(ex + 1023) << 52 | mant); vf_assume(__builtin_fabs(x_) >= 0.0001); spec = s_mid; }
#ifndef EL
#define EL 0
#define EH 3
#endif
#ifndef SMB
#define SMB 32
#endif
#ifndef MB
#define MB 52
#endif
ENTRY h_mid() { mid(EL, EH, MB); run(x_); }
ENTRY h_midf() { ex = (int)vf_concretize((uint64_t)(vf_range("e", EL, EH) + 64)) - 64; neg = vf_range("neg", 0, 1) != 0; uint32_t b = (uint32_t)neg << 31 | (uint32_t)(ex + 127) << 23 | (uint32_t)vf_range("m", 0, (1LL << 23) - 1); float f; memcpy(&f, &b, 4); x_ = f; vf_assume(__builtin_fabs(x_) >= 0.0001); spec = s_mid; run(f); }
// (1e-7, 0.0001): eight digits after the point, sign kept
static void s_small(const char *p, int n) { int i = 0; if (neg) { vf_check(p[0] == '-', "negative_sign"); vf_cover("negative"); i = 1; } vf_check(n == i + 10 && p[i] == '0' && p[i + 1] == '.', "small_layout"); uint64_t q = 0; bool ok = true; for (int k = 0; k < 8; k++) { ok &= p[i + 2 + k] >= '0' && p[i + 2 + k] <= '9'; q = q * 10 + (uint64_t)(p[i + 2 + k] - '0'); } vf_check(ok, "small_digits");
  uint64_t w = (uint64_t)(__builtin_fabs(x_) * 1e8); vf_check(q == w || q == w + 1, "small_value_within_a_unit_of_the_last_digit"); }
ENTRY h_small() { const int MB_ = SMB; ex = (int)vf_concretize((uint64_t)(vf_range("e", -24, -14) + 64)) - 64; neg = vf_range("neg", 0, 1) != 0; mant = (uint64_t)vf_range("m", 0, (1LL << MB_) - 1) << (52 - MB_); x_ = bits((uint64_t)neg << 63 | (uint64_t)(ex + 1023) << 52 | mant); vf_assume(__builtin_fabs(x_) < 0.0001 && __builtin_fabs(x_) > 0.0000001); spec = s_small; run(x_); }
// outside (1e-7, 2^60]: the text comes from the C library with 16 significant digits; the stream passes it through unchanged
static char lib[24]; static int libn; static double lib_arg;
static void s_lib(const char *p, int n) { vf_check(n == env_gcvt_len && vf_eq(p, env_gcvt_text, n), "library_text_passed_through"); vf_check(env_gcvt_arg == x_ && env_gcvt_digits == 16, "library_gets_the_number"); }
ENTRY h_far() { neg = vf_range("neg", 0, 1) != 0; int big = (int)vf_concretize((uint64_t)vf_range("big", 0, 1)); ex = big ? (int)vf_range("e", 60, 1023) : (int)vf_range("e", -1022, -25); mant = (uint64_t)vf_range("m", 0, (1LL << 52) - 1); x_ = bits((uint64_t)neg << 63 | (uint64_t)(ex + 1023) << 52 | mant); vf_assume(ex != 60 || mant > 0); spec = s_lib; run(x_); }
// a ratio shown as a percentage (C27)
static void s_percent(const char *p, int n) { vf_check(n >= 2 && p[n - 1] == '%', "percent_sign"); if (x_ == 0) vf_check(text(p, n, "00.00%"), "zero_percent_text"); else s_mid(p, n - 1); }
ENTRY h_percent() { ex = (int)vf_concretize((uint64_t)(vf_range("e", EL, EH) + 64)) - 64; uint32_t b = (uint32_t)(ex + 127) << 23 | (uint32_t)vf_range("m", 0, (1LL << 23) - 1); float f; memcpy(&f, &b, 4); if (f < 0.000001) { x_ = 0; vf_cover("zero"); } else { x_ = f * 100.0; vf_cover("shown"); } neg = false; spec = s_percent; run(LogPercent(f)); }
