#define FN_LOG_MAX_DEVICE_SIZE 5
#include "common.h"
// C25: the counters of channels and devices.
static const char *Y = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n  -device: 1\n    disable: false\n    out_type: screen\n  -device: 2\n    disable: false\n    out_type: udp\n    udp_addr: 1.2.3.4:5\n  -device: 3\n    disable: false\n    out_type: empty\n  -device: 4\n    disable: false\n    out_type: virtual\n"
  "- channel: 1\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"b\"\n";
#ifndef NREC
#define NREC 3
#endif
static const int ND[2] = {5, 1}, P = PRIORITY_MAX; static int hooked;
struct Count { long long line, byte, lose, prio[PRIORITY_MAX]; }; static Count dev[2][5], chan[2]; static long long taken[2], fsize[2];
static void hook(const LogData &) { hooked++; }
static long long D(int c, int d, int f) { return GetDeviceLog(vf_logger(), c, d, (DeviceLogEnum)f); }
static long long C(int c, int f) { return GetChannelLog(vf_logger(), c, (ChannelLogEnum)f); }
static void same() { for (int c = 0; c < 2; c++) { bool ok = true; for (int d = 0; d < ND[c]; d++) { Count &w = dev[c][d]; vf_check(D(c, d, DEVICE_LOG_TOTAL_WRITE_LINE) == w.line, "lines_counted"); vf_check(D(c, d, DEVICE_LOG_TOTAL_WRITE_BYTE) == w.byte, "bytes_counted"); vf_check(D(c, d, DEVICE_LOG_TOTAL_LOSE_LINE) == w.lose, "losses_counted"); for (int p = 0; p < P; p++) ok &= D(c, d, DEVICE_LOG_PRIORITY + p) == w.prio[p]; }
    vf_check(ok, "device_bytes_by_priority_counted"); ok = true; for (int p = 0; p < P; p++) ok &= C(c, CHANNEL_LOG_PRIORITY + p) == chan[c].prio[p]; vf_check(ok, "channel_bytes_by_priority_counted"); vf_check((C(c, CHANNEL_LOG_HOLD) == taken[c]) & (C(c, CHANNEL_LOG_PUSH) == taken[c]), "records_taken_counted"); vf_check((C(c, CHANNEL_LOG_PROCESSED) == taken[c]) & (C(c, CHANNEL_LOG_PROCESSED_BYTES) == chan[c].byte), "records_processed_counted"); vf_check(D(c, 0, DEVICE_LOG_CUR_FILE_SIZE) == fsize[c], "file_size_counted"); } }
static void add(Count &w, long long len, int prio) { w.line++; w.byte += len; for (int p = 0; p < P; p++) w.prio[p] += prio == p ? len : 0; }
static void log(int c, int prio, int len, int cat = 0, int id = 0) { LogStream s = vf_stream(c, prio, cat, id); if (s.log_data_) s.log_data_->content_len_ = len; }
static void start() { vf_start(Y); SetVirtualDevice(hook); }
// lengths, priorities and channels
ENTRY h_counts() { int len[NREC], prio[NREC], ch[NREC]; for (int i = 0; i < NREC; i++) { len[i] = (int)vf_range("length", 0, LogData::LOG_SIZE); ch[i] = i < 2 ? (int)vf_concretize((uint64_t)vf_range("channel", 0, 1)) : 0; prio[i] = (int)vf_concretize((uint64_t)vf_range("priority", 0, PRIORITY_FATAL)); } start();
  for (int i = 0; i < NREC; i++) { int c = ch[i], w = env_nwrites; log(c, prio[i], len[i]); long long n = (len[i] < LogData::LOG_SIZE - 2 ? len[i] : LogData::LOG_SIZE - 2) + 1; vf_check(env_nwrites == w + 1 && env_writes[w].len == n, "record_written"); taken[c]++; add(chan[c], n, prio[i]); fsize[c] += n; for (int d = 0; d < ND[c]; d++) add(dev[c][d], d == 4 ? len[i] : n, prio[i]); same(); }
  bool up = vf_concretize((uint64_t)vf_range("stop", 0, 1)) != 0; if (up) { vf_check(StopLogger(vf_logger()) == 0, "logger_stops"); same(); vf_cover("stopped"); } else vf_cover("running"); }
// what the filters refuse is counted nowhere
ENTRY h_filters() { int cp = (int)vf_range("channel_from", 0, PRIORITY_MAX), dp[5], prio = (int)vf_range("priority", 0, PRIORITY_FATAL), cat = (int)vf_range("category", 0, 9); long long from = vf_range("category_from", 0, 9); bool on[5]; int off = (int)vf_concretize((uint64_t)vf_range("off", 0, 5)); for (int d = 0; d < 5; d++) { dp[d] = (int)vf_range("from", 0, PRIORITY_MAX); on[d] = d != off; } start(); Logger &l = vf_logger(); SetChannelConfig(l, 0, CHANNEL_CFG_PRIORITY, cp); SetDeviceConfig(l, 0, 2, DEVICE_CFG_CATEGORY, from); SetDeviceConfig(l, 0, 2, DEVICE_CFG_CATEGORY_EXTEND, 3); for (int d = 0; d < 5; d++) { SetDeviceConfig(l, 0, d, DEVICE_CFG_PRIORITY, dp[d]); SetDeviceConfig(l, 0, d, DEVICE_CFG_ABLE, on[d]); }
  log(0, prio, 10, cat); bool in = prio >= cp, any = false; for (int d = 0; d < 5; d++) { bool w = in & on[d] & (prio >= dp[d]); if (d == 2) w &= (cat >= from) & (cat < from + 3); any |= w; } long long k = C(0, CHANNEL_LOG_HOLD); vf_check((k == 1) | ((k == 0) & !any), "records_taken_counted"); vf_check(in | (k == 0), "records_taken_counted"); vf_check((C(0, CHANNEL_LOG_PUSH) == k) & (C(0, CHANNEL_LOG_PROCESSED) == k) & (C(0, CHANNEL_LOG_PROCESSED_BYTES) == 11 * k), "records_taken_counted"); for (int d = 0; d < 5; d++) { bool w = in & on[d] & (prio >= dp[d]); if (d == 2) w &= (cat >= from) & (cat < from + 3); long long m = w ? 1 : 0, n = d == 4 ? 10 : 11; vf_check(D(0, d, DEVICE_LOG_TOTAL_WRITE_LINE) == m, "lines_counted"); vf_check(D(0, d, DEVICE_LOG_TOTAL_WRITE_BYTE) == m * n, "bytes_counted"); vf_check(D(0, d, DEVICE_LOG_TOTAL_LOSE_LINE) == 0, "losses_counted"); bool ok = true; for (int p = 0; p < P; p++) ok &= D(0, d, DEVICE_LOG_PRIORITY + p) == (p == prio ? m * n : 0); vf_check(ok, "device_bytes_by_priority_counted"); }
  vf_check((env_nwrites == 1) == ((int)D(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) == 1), "lines_counted"); vf_check(hooked == D(0, 4, DEVICE_LOG_TOTAL_WRITE_LINE), "lines_counted"); vf_check(hooked < 2, "lines_counted"); if (in) vf_cover("taken"); else vf_cover("refused"); }
// failures: a record that does not reach the file or the network is lost exactly once
static int sent; static void on_send(unsigned, unsigned short, const char *, long) { sent++; }
ENTRY h_faults() { int f[NREC], g[NREC], dt[NREC]; for (int i = 0; i < NREC; i++) { f[i] = (int)vf_concretize((uint64_t)vf_range("file", 0, 2)); g[i] = (int)vf_concretize((uint64_t)vf_range("network", 0, 2)); dt[i] = (int)vf_range("seconds", 0, 6); } env_on_send = on_send; start(); int written = 0; bool shortw = false;
  for (int i = 0; i < NREC; i++) { env_now += dt[i]; env_fopen_fails = f[i] == 1; env_fwrite_short = f[i] == 2; env_socket_fails = g[i] == 1; env_send_fails = g[i] == 2; int w = env_nwrites, s = sent; long long l0 = D(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE), l2 = D(0, 2, DEVICE_LOG_TOTAL_LOSE_LINE); log(0, PRIORITY_INFO, 10); int wrote = env_nwrites - w; written += wrote; shortw |= f[i] == 2; vf_check(wrote <= 1 && sent - s <= 1, "record_written_at_most_once"); vf_check(D(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE) == l0 + 1 - wrote, "losses_counted"); vf_check(D(0, 2, DEVICE_LOG_TOTAL_LOSE_LINE) == l2 + 1 - (sent - s), "losses_counted"); if (wrote == 0) vf_cover("lost"); else vf_cover("written"); if (sent == s) vf_cover("not_sent"); else vf_cover("sent");
    for (int d = 0; d < 5; d++) { long long n = D(0, d, DEVICE_LOG_TOTAL_WRITE_LINE); vf_check(n <= i + 1, "lines_counted"); vf_check(n >= (d == 0 ? written : d == 2 ? sent : i + 1), "lines_counted"); vf_check(D(0, d, DEVICE_LOG_TOTAL_WRITE_BYTE) == n * (d == 4 ? 10 : 11), "bytes_counted"); vf_check(D(0, d, DEVICE_LOG_PRIORITY + PRIORITY_INFO) == n * (d == 4 ? 10 : 11), "device_bytes_by_priority_counted"); if (d != 0 && d != 2) vf_check(D(0, d, DEVICE_LOG_TOTAL_LOSE_LINE) == 0, "losses_counted"); } if (!shortw) vf_check(D(0, 0, DEVICE_LOG_CUR_FILE_SIZE) == 11 * written, "file_size_counted"); vf_check((C(0, CHANNEL_LOG_PROCESSED) == i + 1) & (C(0, CHANNEL_LOG_PROCESSED_BYTES) == 11 * (i + 1)), "records_processed_counted"); } }
// any number as priority: counted under one priority, nothing else changes
ENTRY h_priority() { int prio = (int)vf_range("priority", -2147483648ll, 2147483647ll); start(); log(0, prio, 10); int n = (int)C(0, CHANNEL_LOG_HOLD); vf_check((n == 0) | (n == 1), "records_taken_counted"); vf_check((prio < 0) | (prio > PRIORITY_FATAL) | (n == 1), "records_taken_counted"); n = (int)vf_concretize((uint64_t)n); long long s = 0; int used = 0; for (int p = 0; p < P; p++) { long long b = C(0, CHANNEL_LOG_PRIORITY + p); s += b; used += b != 0; for (int d = 0; d < 5; d++) vf_check(D(0, d, DEVICE_LOG_PRIORITY + p) == (d == 4 && b ? 10 : b), "device_bytes_by_priority_counted"); vf_check((prio != p) | (b == 11 * n), "channel_bytes_by_priority_counted"); } vf_check((s == 11 * n) & (used == n), "channel_bytes_by_priority_counted");
  vf_check((C(0, CHANNEL_LOG_PUSH) == n) & (C(0, CHANNEL_LOG_WAIT_COUNT) == 0) & (C(0, CHANNEL_LOG_PROCESSED) == n) & (C(0, CHANNEL_LOG_PROCESSED_BYTES) == 11 * n), "records_taken_counted"); for (int i = CHANNEL_LOG_PRIORITY_MAX; i < CHANNEL_LOG_PROCESSED; i++) vf_check(C(0, i) == 0, "records_taken_counted"); for (int d = 0; d < 5; d++) { vf_check(D(0, d, DEVICE_LOG_TOTAL_WRITE_LINE) == n, "lines_counted"); vf_check(D(0, d, DEVICE_LOG_TOTAL_WRITE_BYTE) == (d == 4 ? 10 : 11) * n, "bytes_counted"); vf_check(D(0, d, DEVICE_LOG_TOTAL_LOSE_LINE) == 0, "losses_counted"); vf_check(d == 0 || D(0, d, DEVICE_LOG_CUR_FILE_SIZE) == 0, "file_size_counted"); }
  for (int i = 0; i < DEVICE_CFG_MAX_ID; i++) vf_check(i == DEVICE_CFG_ABLE || GetDeviceConfig(vf_logger(), 1, 0, (DeviceConfigEnum)i) == 0 || i >= DEVICE_CFG_UDP_IP, "settings_untouched"); if (n) vf_cover("taken"); else vf_cover("refused"); }
// the counters go on over a stop and start, and in shared memory over a crash
static const char *K = "- shm_key: 77\n"; 
ENTRY h_restart() { int len[2], prio[2], how = (int)vf_concretize((uint64_t)vf_range("how", 0, 2)); for (int i = 0; i < 2; i++) { len[i] = (int)vf_range("length", 0, LogData::LOG_SIZE - 2); prio[i] = (int)vf_concretize((uint64_t)vf_range("priority", PRIORITY_DEBUG, PRIORITY_ERROR)); } std::string text = std::string(K) + Y;
  vf_start(text.c_str()); SetVirtualDevice(hook);
  for (int i = 0; i < 2; i++) { for (int c = 0; c < 2; c++) { log(c, prio[i], len[i]); long long n = len[i] + 1; taken[c]++; add(chan[c], n, prio[i]); fsize[c] += n; for (int d = 0; d < ND[c]; d++) add(dev[c][d], d == 4 ? len[i] : n, prio[i]); } same(); if (i) break;
    if (how < 2) vf_check(StopLogger(vf_logger()) == 0, "logger_stops"); else L = nullptr;
    if (how == 0) vf_check(StartLogger(vf_logger()) == 0, "logger_starts"); else vf_start(text.c_str()); SetVirtualDevice(hook); for (int c = 0; c < 2; c++) { vf_check(C(c, CHANNEL_LOG_PUSH) == taken[c] && C(c, CHANNEL_LOG_PROCESSED_BYTES) == chan[c].byte && D(c, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) == dev[c][0].byte, "counters_kept"); } }
  if (how == 0) vf_cover("started_again"); else if (how == 1) vf_cover("configured_again"); else vf_cover("crashed"); }
