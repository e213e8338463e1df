#include "common.h"
// C10: decimal text of integers as it reaches the device.  Oracle: successive division by ten, written independently.
static bool neg_; static unsigned long long mag_;
static void on_write(const char *, const char *p, long len) {
  vf_observe("len", len); int neg = neg_ ? 1 : 0; vf_check(len >= 2 + neg && len <= 22, "dec_len"); vf_check(p[len - 1] == '\n', "dec_newline");
  if (neg_) { vf_check(p[0] == '-', "dec_sign"); vf_cover("negative"); }
  unsigned long long y = mag_; long i = len - 2;
  for (; i >= neg; i--) { vf_check(p[i] == (char)('0' + y % 10), "dec_digit"); y /= 10; if (y == 0) break; }
  vf_check(i == neg && y == 0, "dec_exact_len"); vf_observe("c0", (unsigned char)p[0]); }
template <class T> static void dec() {
  T x = (T)vf_sym("x", sizeof(T) * 8); neg_ = x < 0; mag_ = x < 0 ? 0ULL - (unsigned long long)x : (unsigned long long)x;
  env_on_write = on_write; vf_start(VF_SYNC1); { LogStream s = vf_stream(); s << x; } vf_check(env_nwrites == 1, "dec_one_line"); }
ENTRY h_u64() { dec<unsigned long long>(); }
ENTRY h_s64() { dec<long long>(); }
ENTRY h_long() { dec<long>(); }
ENTRY h_ulong() { dec<unsigned long>(); }
ENTRY h_int() { dec<int>(); }
ENTRY h_uint() { dec<unsigned>(); }
ENTRY h_short() { dec<short>(); }
ENTRY h_ushort() { dec<unsigned short>(); }
ENTRY h_uchar() { dec<unsigned char>(); }
