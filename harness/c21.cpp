#define FN_LOG_MAX_CHANNEL_SIZE 3
#include "common.h"
// C21: hot update on synchronous channels.  The configuration file is replaced between records; the running configuration is compared
// with the values of the old or of the new text.
struct Conf { long v[16]; long ch[8]; };
static char txt[4][900]; static int tn[4]; static void add(int k, const char *s) { while (*s) txt[k][tn[k]++] = *s++; txt[k][tn[k]] = 0; }
static void num(int k, const char *key, int v) { add(k, key); char d[4] = {(char)('0' + v / 10), (char)('0' + v % 10), '\n', 0}; add(k, d); }
static const char *PR[] = {"trace", "debug", "info", "warn"}; static bool bmask;
// every numeric setting of one channel with one device: values[0..9]
static int val_[4][12]; static bool able[4];
static void text(int k, bool hot, bool sym, bool full = false) { char id[8] = "v"; int *v = val_[k]; for (int i = 0; i < 10; i++) v[i] = sym ? (int)vf_range("value", 10, 99) : 11 + i; able[k] = sym ? vf_concretize((uint64_t)vf_range("disabled", 0, 1)) == 0 : true; int p = v[10] = sym ? (int)vf_concretize((uint64_t)vf_range("priority", 0, 1)) : 0;
  add(k, hot ? "- hot_update: true\n" : "- hot_update: false\n"); add(k, "- channel: 0\n  sync: sync\n  priority: "); add(k, PR[p]); add(k, "\n"); num(k, "  category: ", v[0]); num(k, "  category_extend: ", v[1]); num(k, "  identify: ", v[2]); num(k, "  identify_extend: ", v[3]); if (full) { num(k, "  category_wmask: ", 77); num(k, "  identify_wmask: ", 78); }
  add(k, "  -device: 0\n"); add(k, able[k] ? "    disable: false\n" : "    disable: true\n"); add(k, "    out_type: file\n    file: \"a\"\n    priority: "); add(k, PR[p + 1]); add(k, "\n"); num(k, "    category: ", v[4]); num(k, "    category_extend: ", v[5]); num(k, "    identify: ", v[6]); num(k, "    identify_extend: ", v[7]); num(k, "    limit_size: ", v[8]); num(k, "    rollback: ", v[9]); if (full) { num(k, "    category_wmask: ", 75); num(k, "    identify_wmask: ", 76); add(k, "    rolldaily: true\n    rollhourly: true\n    stuff_up: true\n    udp_addr: 1.2.3.4:55\n"); } if (sym) add(k, "    rolldaily: true\n    stuff_up: true\n"); (void)id; }
static bool is(int k) { Channel &c = vf_logger().shm_->channels_[0]; Device &d = c.devices_[0]; int *v = val_[k]; bool ok = true; auto C = [&](int f, long x) { ok &= (long)AtomicLoadC(c, f) == x; }; auto D = [&](int f, long x) { ok &= (long)AtomicLoadC(d, f) == x; };
  C(CHANNEL_CFG_PRIORITY, v[10]); C(CHANNEL_CFG_CATEGORY, v[0]); C(CHANNEL_CFG_CATEGORY_EXTEND, v[1]); C(CHANNEL_CFG_IDENTIFY, v[2]); C(CHANNEL_CFG_IDENTIFY_EXTEND, v[3]); D(DEVICE_CFG_ABLE, able[k]); D(DEVICE_CFG_PRIORITY, v[10] + 1); D(DEVICE_CFG_CATEGORY, v[4]); D(DEVICE_CFG_CATEGORY_EXTEND, v[5]); D(DEVICE_CFG_IDENTIFY, v[6]); D(DEVICE_CFG_IDENTIFY_EXTEND, v[7]); D(DEVICE_CFG_FILE_LIMIT_SIZE, v[8] * 1000000L); D(DEVICE_CFG_FILE_ROLLBACK, v[9]); D(DEVICE_CFG_FILE_ROLLDAILY, k != 0 && k != 3); D(DEVICE_CFG_FILE_STUFF_UP, k != 0 && k != 3); return ok; }
static long nlog, nbytes; static int nlines; // what the channel was given and the device has written
static bool admitted(int *v, int o, int prio, int p, long cat, long id) { return (prio >= p) & (cat >= v[o]) & (cat < v[o] + v[o + 1]) & (id >= v[o + 2]) & (id < v[o + 2] + v[o + 3]); }
static void put(const char *path, int k, time_t m) { env_text_file(path, txt[k], tn[k], m); }
static void log(int prio, int cat, long id, char mark) { int w = env_nwrites; { LogStream s = vf_stream(0, prio, cat, id); s << mark; } (void)w; }
// one record under the configuration k: it is written exactly when both filters let it pass
static void expect(int k, char mark) { int prio = (int)vf_range("prio", 0, 8), cat = (int)vf_range("cat", 0, 220); long id = (long)vf_range("id", 0, 220); int w = env_nwrites; bool c = admitted(val_[k], 0, prio, val_[k][10], cat, id), d = c & able[k] & admitted(val_[k], 4, prio, val_[k][10] + 1, cat, id); long before = GetChannelLog(vf_logger(), 0, CHANNEL_LOG_PROCESSED), lines = GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE); log(prio, cat, id, mark);
  vf_check(env_nwrites - w == (d ? 1 : 0), "filters_in_force"); vf_check((GetChannelLog(vf_logger(), 0, CHANNEL_LOG_PROCESSED) - before == 1) == d, "filters_in_force"); vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) - lines == (d ? 1 : 0), "counters_kept"); if (d) vf_cover("passes"); }
static void trigger(char mark) { // passes the first configuration: 11..22, 13..26 / 15..30, 17..34
  log(PRIORITY_FATAL, 16, 20, mark); }
static void start() { vf_check(LoadAndStartLogger(vf_logger(), "c.yml") == 0, "logger_starts"); }
ENTRY h_apply() { time_t m0 = (time_t)vf_range("mtime0", 0, 1ll << 40), m1 = (time_t)vf_range("mtime1", 0, 1ll << 40); int dt = (int)vf_range("dt", 0, 100); text(0, true, false); text(1, true, true); put("c.yml", 0, m0); start(); vf_check(is(0), "first_configuration"); trigger('A'); vf_check(env_nwrites == 1 && is(0), "first_configuration"); int opened = env_nopen - 1; put("c.yml", 1, m1); env_now += dt; trigger('B'); vf_check(env_nwrites == 2, "record_not_disturbed"); (void)opened;
  if (m0 == m1) { vf_check(is(0), "unchanged_file_changes_nothing"); expect(0, 'C'); } else if (dt >= 5) { vf_cover("applied"); vf_check(is(1), "changed_file_takes_effect"); expect(1, 'C'); } else { bool a = is(0), b = is(1); vf_check(a | b, "either_old_or_new"); env_now += 5; if (!b) trigger('C'); vf_check(is(1), "changed_file_takes_effect"); } }
// the file disappears, is unreadable or empty for a while
ENTRY h_gone() { text(0, true, false); text(1, true, true); put("c.yml", 0, 100); start(); trigger('A'); int how = (int)vf_concretize((uint64_t)vf_range("how", 0, 2)); int i = env_find("c.yml"); if (how == 0) env_files[i].used = false; else if (how == 1) { env_files[i].text_len = 0; env_files[i].size = 0; env_files[i].mtime = 101; } else { env_files[i].text_len = (long)vf_concretize((uint64_t)vf_range("cut", 0, 13)); env_files[i].mtime = 101; } env_now += 5; trigger('B'); vf_check(is(0), "unusable_file_changes_nothing"); env_now += 5; expect(0, 'C'); env_now += 5; put("c.yml", 1, 102); trigger('D'); if (!is(1)) { env_now += 5; trigger('E'); } vf_check(is(1), "changed_file_takes_effect"); }
// arbitrary bytes in the new file: all of it takes effect or nothing
#ifndef K
#define K 3
#endif
ENTRY h_broken() { char b[16]; vf_sym_bytes(b, K, "bytes"); text(0, true, false); text(1, true, false, true); int at = (int)vf_concretize((uint64_t)vf_range("at", 0, 2)); tn[2] = 0; if (at == 0) { for (int i = 0; i < K; i++) txt[2][tn[2]++] = b[i]; add(2, "\n"); add(2, txt[1]); } else if (at == 1) { add(2, "- hot_update: true\n- channel: 0\n  sync: sync\n  category: 1"); for (int i = 0; i < K; i++) txt[2][tn[2]++] = b[i]; add(2, "\n  -device: 0\n    disable: false\n    file: \"a\"\n"); } else { add(2, txt[1]); for (int i = 0; i < K; i++) txt[2][tn[2]++] = b[i]; }
  put("c.yml", 0, 100); start(); trigger('A'); put("c.yml", 2, 101); env_now += 5; std::string t(txt[2], (size_t)tn[2]); LexState *ls = (LexState *)calloc(1, sizeof(LexState)); new (ls) LexState; int r = ParseLogger(*ls, t); trigger('B'); vf_check(env_nwrites == 2, "record_not_disturbed"); Channel &c = vf_logger().shm_->channels_[0];
  if (r != 0 || ls->channel_size_ < 1) { vf_cover("broken"); vf_check(is(0), "broken_file_changes_nothing"); } else { vf_cover("accepted"); bool ok = true; for (int i = 0; i < CHANNEL_CFG_MAX_ID; i++) ok &= (long long)AtomicLoadC(c, i) == (long long)AtomicLoadC(ls->channels_[0], i); vf_check(ok, "changed_file_takes_effect"); if (ls->channels_[0].device_size_ > 0) { ok = true; for (int i = 0; i < DEVICE_CFG_MAX_ID; i++) ok &= (long long)AtomicLoadC(c.devices_[0], i) == (long long)AtomicLoadC(ls->channels_[0].devices_[0], i); vf_check(ok, "changed_file_takes_effect"); } } }
// the new file has more, fewer or as many devices
ENTRY h_devices() { int a = (int)vf_concretize((uint64_t)vf_range("before", 1, 3)), b = (int)vf_concretize((uint64_t)vf_range("after", 0, 4)); int x[4]; for (int i = 0; i < 4; i++) x[i] = (int)vf_range("category", 10, 99); for (int k = 0; k < 2; k++) { add(k, "- hot_update: true\n- channel: 0\n  sync: sync\n"); for (int i = 0; i < (k ? b : a); i++) { char d[2] = {(char)('0' + i), 0}; add(k, "  -device: "); add(k, d); add(k, "\n    disable: false\n    out_type: file\n    file: \"f"); add(k, d); add(k, "\"\n"); if (k) { num(k, "    category: ", x[i]); num(k, "    category_extend: ", 99); } } }
  put("c.yml", 0, 100); start(); log(PRIORITY_INFO, 0, 0, 'A'); vf_check(env_nwrites == a, "record_not_disturbed"); put("c.yml", 1, 101); env_now += 5; log(PRIORITY_INFO, 0, 0, 'B'); vf_check(env_nwrites == 2 * a, "record_not_disturbed"); int n = vf_logger().shm_->channels_[0].device_size_; vf_check(n == (a > b ? a : b), "devices_added_never_removed"); int cat = (int)vf_range("cat", 0, 120), w = env_nwrites; log(PRIORITY_INFO, cat, 0, 'C'); int want = 0; for (int i = 0; i < n; i++) want += i < b ? (((cat >= x[i]) & (cat < x[i] + 99)) ? 1 : 0) : 1; vf_check(env_nwrites - w == want, "filters_in_force"); for (int i = 0; i < n; i++) vf_check(GetDeviceLog(vf_logger(), 0, i, DEVICE_LOG_TOTAL_WRITE_LINE) == (i < a ? 2 : 0) + (i < b ? (((cat >= x[i]) & (cat < x[i] + 99)) ? 1 : 0) : 1), "counters_kept"); }
// two channels follow the file each on its own; a channel that is gone keeps running
ENTRY h_channels() { int b = (int)vf_concretize((uint64_t)vf_range("channels_after", 1, 3)), first = (int)vf_concretize((uint64_t)vf_range("first", 0, 1)), second = (int)vf_concretize((uint64_t)vf_range("second", 0, 1)); int x[3]; for (int i = 0; i < 3; i++) x[i] = (int)vf_range("category", 10, 99); for (int k = 0; k < 2; k++) { add(k, "- hot_update: true\n"); for (int i = 0; i < (k ? b : 2); i++) { char d[2] = {(char)('0' + i), 0}; add(k, "- channel: "); add(k, d); add(k, "\n  sync: sync\n"); if (k) num(k, "  category: ", x[i]); add(k, "  -device: 0\n    disable: false\n    out_type: file\n    file: \"f"); add(k, d); add(k, "\"\n"); } }
  put("c.yml", 0, 100); start(); for (int c = 0; c < 2; c++) { LogStream s = vf_stream(c); s << 'A'; } vf_check(env_nwrites == 2, "record_not_disturbed"); put("c.yml", 1, 101); env_now += 5; int n = 2; for (int k = 0; k < 2; k++) { int c = k ? second : first; if (k && second == first) break; { LogStream s = vf_stream(c); s << 'B'; } vf_check(env_nwrites == ++n, "record_not_disturbed"); }
  vf_check(vf_logger().shm_->channel_size_ == 2, "channels_kept"); for (int c = 0; c < 2; c++) { bool upd = (c == first || c == second) && c < b; vf_check((long)AtomicLoadC(vf_logger().shm_->channels_[c], CHANNEL_CFG_CATEGORY) == (upd ? x[c] : 0), "changed_file_takes_effect"); } }
// hot update off, from the start or by the new file
ENTRY h_off() { bool h0 = vf_concretize((uint64_t)vf_range("hot0", 0, 1)) != 0, h1 = vf_concretize((uint64_t)vf_range("hot1", 0, 1)) != 0; text(0, h0, false); text(1, h1, true); text(2, true, true); put("c.yml", 0, 100); start(); trigger('A'); put("c.yml", 1, 101); env_now += 5; trigger('B'); vf_check(is(h0 ? 1 : 0), h0 ? "changed_file_takes_effect" : "hot_update_off_changes_nothing"); put("c.yml", 2, 102); env_now += 5; HotUpdateLogger(vf_logger(), 0); vf_check(is(h0 ? h1 ? 2 : 1 : 0), h0 && h1 ? "changed_file_takes_effect" : "hot_update_off_changes_nothing"); }
