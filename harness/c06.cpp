#define FN_LOG_MAX_DEVICE_SIZE 4
#include "common.h"
// C06: when the call on a synchronous channel returns, every matching file device has the record in its file, whatever devices stand around it.
static const char *KIND[] = {"file", "screen", "empty"}; static int kind[4], prio[4], wr[4], len_; static char cfg[600];
static void on_write(const char *path, const char *p, long n) { int i = (path[0] == '.' ? path[2] : path[0]) - 'a'; vf_check((i >= 0) & (i < 4) & (n == len_ + 1), "record_intact"); wr[i & 3]++; }
ENTRY h_files() { int per = (int)vf_range("prio", 0, 6); for (int i = 0; i < 4; i++) { kind[i] = i == 2 ? 0 : (int)vf_concretize((uint64_t)vf_range("kind", 0, 2)); prio[i] = (int)vf_range("threshold", 0, 6); } int nrec = 2; len_ = (int)vf_concretize((uint64_t)vf_range("length", 1, 3)); int lim = (int)vf_concretize((uint64_t)vf_range("limit", 0, 1));
  char *q = cfg; auto add = [&](const char *s) { while (*s) *q++ = *s++; }; add("- channel: 0\n  sync: sync\n"); for (int i = 0; i < 4; i++) { add("  -device: "); *q++ = (char)('0' + i); add("\n    disable: false\n    out_type: "); add(KIND[kind[i]]); add("\n"); if (kind[i] == 0) { add("    file: \""); *q++ = (char)('a' + i); add("\"\n"); } } *q = 0;
  vf_start(cfg); for (int i = 0; i < 4; i++) { SetDeviceConfig(vf_logger(), 0, i, DEVICE_CFG_PRIORITY, prio[i]); if (lim) SetDeviceConfig(vf_logger(), 0, i, DEVICE_CFG_FILE_LIMIT_SIZE, 3); } env_on_write = on_write;
  for (int r = 1; r <= nrec; r++) { { LogStream s = vf_stream(0, per); char t[4] = {'x', 'y', 'z', 0}; s.write_buffer(t, len_); } bool all = true; for (int i = 0; i < 4; i++) if (kind[i] == 0) all &= (wr[i] == r) == (per >= prio[i]) && (wr[i] == 0 || wr[i] == r); vf_check(all, "delivered_when_the_call_returns"); vf_check(!env_unflushed(), "in_the_file_when_the_call_returns"); }
  if (wr[2]) vf_cover("written"); else vf_cover("refused"); vf_check(StopLogger(vf_logger()) == 0, "stop_succeeds"); for (int i = 0; i < ENV_HANDLES; i++) vf_check(!env_handles[i].open, "stop_closes_the_files"); vf_observe("w", (uint64_t)(wr[0] + wr[1] * 10 + wr[2] * 100 + wr[3] * 1000)); }
