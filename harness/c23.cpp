#define FN_LOG_MAX_CHANNEL_SIZE 3
#include "common.h"
// C23: transmitting records to another channel, from the hook of a virtual device and directly.
static const char *Y = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n  -device: 1\n    disable: false\n    out_type: virtual\n"
  "- channel: 1\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"b\"\n  -device: 1\n    disable: false\n    out_type: file\n    file: \"c\"\n- channel: 2\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"d\"\n";
#ifndef S
#define S FN_LOG_MAX_LOG_SIZE
#endif
static char src[S + 8]; static int slen; static int seen[4]; static int at; // a position of the source record to look at; text, how often each file was written, a position to look at
static bool text_ok = true;
static void on_write(const char *path, const char *p, long len) { int f = path[0] - 'a'; vf_check(f >= 0 && f < 4, "only_the_files_configured"); if (f < 0 || f > 3) return; seen[f]++; long n = slen < S - 2 ? slen : S - 2; bool ok = len == n + 1; if (ok) { ok = p[n] == '\n'; for (long k = 0; k < n; k++) ok &= p[k] == src[k]; } vf_check(ok, f == 0 ? "source_text_unchanged" : "transmitted_text_equal"); }
static int target, target2, tcat; static long long tid; static int hooked, answers; static bool twice;
static void send_on(const LogData &log) { LogData *before = (LogData *)malloc(sizeof(LogData)); before->channel_id_ = log.channel_id_; before->priority_ = log.priority_; before->category_ = log.category_; before->identify_ = log.identify_; before->content_len_ = log.content_len_; before->timestamp_ = log.timestamp_; before->precise_ = log.precise_; before->thread_ = log.thread_; before->prefix_len_ = log.prefix_len_; char b = log.content_[at]; hooked++;
  answers |= TransmitChannel(vf_logger(), target, tcat, tid, log); if (twice) answers |= TransmitChannel(vf_logger(), target2, tcat, tid, log);
  bool ok = before->channel_id_ == log.channel_id_; ok &= before->priority_ == log.priority_; ok &= before->category_ == log.category_; ok &= before->identify_ == log.identify_; ok &= before->content_len_ == log.content_len_; ok &= before->timestamp_ == log.timestamp_; ok &= before->precise_ == log.precise_; ok &= before->thread_ == log.thread_; ok &= before->prefix_len_ == log.prefix_len_; ok &= b == log.content_[at]; vf_check(ok, "source_record_unchanged"); }
static void start() { env_on_write = on_write; vf_start(Y); SetVirtualDevice(send_on); }
static int any(const char *n) { int x = (int)vf_range(n, -2147483648ll, 2147483647ll); for (int i = 0; i < 3; i++) if (x == i) return i; return x; }
static bool in_range(long long x, long long b, long long n) { return (n <= 0) | ((x >= b) & (x < b + n)); }
// every text length and content
ENTRY h_text() { slen = (int)vf_concretize((uint64_t)vf_range("len", 0, S)); vf_sym_bytes(src, S, "text"); at = (int)vf_concretize((uint64_t)vf_range("at", 0, 2)); at = slen == 0 ? 0 : at == 0 ? 0 : at == 1 ? slen / 2 : slen - 1; target = 1; tcat = 7; tid = 9; start();
  { LogStream s = vf_stream(0, PRIORITY_INFO, 1, 2); s.write_buffer(src, slen); } vf_check(hooked == 1 && answers == 0, "hook_called_once"); vf_check(seen[0] == 1 && seen[1] == 1 && seen[2] == 1 && seen[3] == 0, "one_copy_at_the_target"); vf_cover(slen == 0 ? "empty" : "text"); }
// every target number, two targets
ENTRY h_target() { target = any("target"); target2 = any("target2"); slen = 2; vf_sym_bytes(src, 2, "text"); at = (int)vf_range("at", 0, 1); twice = true; tcat = 7; tid = 9; start(); { LogStream s = vf_stream(0, PRIORITY_INFO, 1, 2); s.write_buffer(src, 2); } vf_check(hooked == 1, "hook_called_once"); int n1 = (target == 1) + (target2 == 1), n2 = (target == 2) + (target2 == 2); vf_check(seen[0] == 1 && seen[1] == n1 && seen[2] == n1 && seen[3] == n2, "one_copy_at_the_target"); if (n1 + n2) vf_cover("sent"); else vf_cover("no_target"); }
// the filters of the target channel and of its devices decide by the priority of the record and the given category and identify
ENTRY h_filters() { int prio = (int)vf_range("prio", 0, PRIORITY_FATAL), cat = (int)vf_range("cat", 0, 63); long long id = vf_range("id", 0, 63); target = 1; tcat = (int)vf_range("tcat", 0, 63); tid = vf_range("tid", 0, 63); slen = 1; src[0] = 'x'; at = 0; start(); Logger &l = vf_logger(); long long c[7], d[7]; bool mask = vf_concretize((uint64_t)vf_range("masks", 0, 1)) != 0;
  for (int i = 0; i < 7; i++) { bool m = i == 3 || i == 6; c[i] = i == 0 ? vf_range("cp", 0, 8) : m != mask ? 0 : m ? vf_range("cm", (-9223372036854775807ll - 1), 9223372036854775807ll) : vf_range("cr", 0, 70); d[i] = i == 0 ? vf_range("dp", 0, 8) : m != mask ? 0 : m ? vf_range("dm", (-9223372036854775807ll - 1), 9223372036854775807ll) : vf_range("dr", 0, 70); SetChannelConfig(l, 1, (ChannelConfigEnum)i, c[i]); SetDeviceConfig(l, 1, 0, (DeviceConfigEnum)(DEVICE_CFG_PRIORITY + i), d[i]); }
  bool on = vf_concretize((uint64_t)vf_range("on", 0, 1)) != 0; SetDeviceConfig(l, 1, 1, DEVICE_CFG_ABLE, on);
  { LogStream s = vf_stream(0, prio, cat, id); s << 'x'; }
  auto pass = [&](long long *f) { bool r = prio >= f[0]; r &= in_range(tcat, f[1], f[2]); r &= in_range(tid, f[4], f[5]); r &= (f[3] == 0) | ((((unsigned long long)f[3] >> tcat) & 1) != 0); r &= (f[6] == 0) | ((((unsigned long long)f[6] >> tid) & 1) != 0); return r; }; bool pc = pass(c), p0 = pc & pass(d), p1 = pc & on;
  vf_check(seen[0] == 1 && hooked == 1, "hook_called_once"); vf_check((seen[1] == 1) == p0 && (seen[2] == 1) == p1 && seen[1] < 2 && seen[2] < 2, "accepted_as_the_target_filters"); if (seen[1]) vf_cover("accepted"); else vf_cover("refused"); }
// a record that is handed over directly: all attributes reach the devices of the target
ENTRY h_direct() { Logger &l = vf_logger(); int up = (int)vf_concretize((uint64_t)vf_range("state", 0, 2)); target = any("target"); LogData &d = *(LogData *)calloc(1, sizeof(LogData)); d.channel_id_ = any("from"); d.priority_ = (int)vf_range("prio", 0, PRIORITY_FATAL); d.category_ = (int)vf_range("cat", -2147483648ll, 2147483647ll); d.identify_ = vf_range("id", (-9223372036854775807ll - 1), 9223372036854775807ll); d.code_line_ = 77; d.code_file_ = "file"; d.code_file_len_ = 4; d.code_func_ = "func"; d.code_func_len_ = 4; d.timestamp_ = vf_range("ts", 1000, 1ll << 34); d.precise_ = (int)vf_range("ms", 0, 999); d.thread_ = (unsigned)vf_range("thread", 0, 4294967295ll); d.prefix_len_ = (int)vf_range("prefix", 0, 3); d.content_len_ = slen = 3; for (int i = 0; i < 3; i++) d.content_[i] = src[i] = "abc"[i]; at = (int)vf_range("at", 0, 2); tcat = (int)vf_range("tcat", -2147483648ll, 2147483647ll); tid = vf_range("tid", (-9223372036854775807ll - 1), 9223372036854775807ll);
  if (up) start(); if (up == 1) vf_check(StopLogger(l) == 0, "logger_stops"); bool in = (up == 2) & (target >= 0) & (target <= 2) & (target != d.channel_id_); if (in) { int n = l.shm_->ring_buffers_[target].hold_idx_; send_on(d); LogData &t = l.shm_->ring_buffers_[target].buffer_[n]; bool ok = t.channel_id_ == target; ok &= t.priority_ == d.priority_; ok &= t.category_ == tcat; ok &= t.identify_ == (decltype(t.identify_))tid; ok &= t.code_line_ == 77; ok &= t.code_file_ == d.code_file_; ok &= t.code_func_ == d.code_func_; ok &= t.code_file_len_ == 4; ok &= t.code_func_len_ == 4; ok &= t.timestamp_ == d.timestamp_; ok &= t.precise_ == d.precise_; ok &= t.thread_ == d.thread_; ok &= t.prefix_len_ == d.prefix_len_; vf_check(ok, "attributes_kept"); vf_check(seen[0] == (target == 0) && seen[1] == (target == 1) && seen[2] == (target == 1) && seen[3] == (target == 2), "one_copy_at_the_target"); vf_cover("sent"); } else { send_on(d); vf_check(seen[0] + seen[1] + seen[2] + seen[3] == 0, "one_copy_at_the_target"); vf_cover("no_target"); } }
