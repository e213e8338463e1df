#include "common.h"
// C22: lifecycle and setting calls in any order and with any numbers, compared with a model of the logger.
static const char *G1 = "- logger_name: one\n- channel: 0\n  sync: sync\n  priority: debug\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n";
static const char *G2 = "- logger_name: two\n- channel: 0\n  sync: sync\n  priority: info\n  category: 3\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"b\"\n  -device: 1\n    disable: false\n    out_type: screen\n    priority: warn\n- channel: 1\n  sync: sync\n  identify: 5\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"c\"\n";
static const char *BAD = "- logger_name: three\n- channel: 0\n  sync: sync\n  priority: fatal\n  nonsense: 1\n", *NONE = "\n# nothing here\n";
// the model
static int st, cfg; // 0 never initialised, 1 stopped, 2 running; configuration 1 or 2
static bool name_is(const char *s) { Logger &l = vf_logger(); int n = (int)strlen(s); return l.name_len_ == n && vf_eq(l.name_, s, n + 1); }
static void agree() { Logger &l = vf_logger();
  vf_check(l.logger_state_ == (st == 2 ? LOGGER_STATE_RUNNING : LOGGER_STATE_UNINIT), "state_as_documented"); vf_check(!l.hot_update_ && l.desc_len_ == 0, "no_effect_of_a_failed_call");
  vf_check(name_is(st == 0 ? "vfprog" : cfg == 1 ? "one" : "two"), "no_effect_of_a_failed_call");
  if (st == 0) { vf_check(l.shm_ == nullptr || l.shm_->channel_size_ == 0, "no_effect_of_a_failed_call"); return; }
  bool ok = l.shm_ && l.shm_->channel_size_ == cfg; vf_check(ok, "configuration_as_documented"); if (!ok) return; Channel &c = l.shm_->channels_[0];
  ok = (long)AtomicLoadC(c, CHANNEL_CFG_PRIORITY) == (cfg == 1 ? PRIORITY_DEBUG : PRIORITY_INFO); ok &= (long)AtomicLoadC(c, CHANNEL_CFG_CATEGORY) == (cfg == 1 ? 0 : 3); ok &= c.device_size_ == cfg; ok &= c.devices_[cfg - 1].out_type_ == (unsigned)(cfg == 1 ? DEVICE_OUT_FILE : DEVICE_OUT_SCREEN);
  if (cfg == 2) { ok &= (long)AtomicLoadC(l.shm_->channels_[1], CHANNEL_CFG_IDENTIFY) == 5; ok &= (long)AtomicLoadC(c.devices_[1], DEVICE_CFG_PRIORITY) == PRIORITY_WARN; }
  vf_check(ok, "configuration_as_documented"); for (int i = 0; i < cfg; i++) vf_check(l.shm_->channels_[i].channel_state_ == (st == 2 ? CHANNEL_STATE_RUNNING : CHANNEL_STATE_NULL), "state_as_documented"); }
static void answer(int r, bool ok) { vf_check((r == 0) == ok, "succeeds_or_fails_as_documented"); }
static int any(const char *n) { int x = (int)vf_range(n, -2147483648ll, 2147483647ll); if (x == 0) return 0; if (x == 1) return 1; return x; } // the numbers in use are decided one by one
static char last_file; static void on_write(const char *path, const char *, long) { last_file = path[0]; }
static void record() { int ch = any("channel"), prio = (int)vf_range("priority", -2147483648ll, 2147483647ll); env_on_write = on_write; last_file = 0; int w = env_nwrites; bool in = st == 2; if (in) in = (ch == 0 && prio >= (cfg == 1 ? PRIORITY_DEBUG : PRIORITY_INFO)) || (ch == 1 && cfg == 2 && prio >= 0);
  { LogStream s = vf_stream(ch, prio); s << 'x'; } vf_check(env_nwrites - w == (in ? 1 : 0), "records_of_a_running_logger_only"); if (in) vf_check(last_file == (ch == 1 ? 'c' : cfg == 1 ? 'a' : 'b') && env_writes[env_nwrites - 1].len == 2 && env_writes[env_nwrites - 1].head[0] == 'x' && env_writes[env_nwrites - 1].head[1] == '\n', "records_of_a_running_logger_only"); }
static bool once(int &n) { n++; return true; } static int ran[3];
static void step(int op) { Logger &l = vf_logger(); switch (op) {
  case 0: case 1: { bool ok = st != 2; answer(InitFromYMAL(l, op ? G2 : G1, ""), ok); if (ok) { st = 1; cfg = op + 1; } } break;
  case 2: answer(InitFromYMAL(l, BAD, ""), false); break;
  case 3: answer(InitFromYMAL(l, NONE, ""), false); break;
  case 4: answer(InitFromYMALFile(l, "missing.yml"), false); break;
  case 5: { bool ok = st == 1; answer(StartLogger(l), ok); if (ok) st = 2; } break;
  case 6: { bool ok = st == 2; answer(StopLogger(l), ok); if (ok) st = 1; } break;
  case 7: { bool ok = st != 2; answer(ParseAndStartLogger(l, G2), ok); if (ok) { st = 2; cfg = 2; } } break;
  case 8: answer(ParseAndStartLogger(l, BAD), false); break;
  case 9: answer(LoadAndStartLogger(l, "missing.yml"), false); break;
  case 10: { bool ok = st != 2; answer(LoadAndStartLogger(l, "good.yml"), ok); if (ok) { st = 2; cfg = 1; } } break;
  default: record(); break; } once(ran[st]); agree(); }
#ifndef NREC
#define NREC 3
#endif
#ifndef FROM
#define FROM 0
#endif
static const char *tail_cfg;
ENTRY h_calls() { env_text_file("good.yml", G1, (long)strlen(G1), 100); st = 0; agree(); if (FROM >= 1) step(FROM - 1); for (int i = 0; i < NREC; i++) step((int)vf_concretize((uint64_t)vf_range("call", 0, 11))); record(); if (st == 2) vf_cover("running"); else vf_cover("not_running");
  bool run = st == 2; delete L; L = nullptr; int open = 0; for (int i = 0; i < ENV_HANDLES; i++) open += env_handles[i].open; vf_check(open == 0, "destroying_closes_the_files"); (void)run; (void)tail_cfg; }
// settings: every channel, device and field number
static long long snap[2][CHANNEL_CFG_MAX_ID], snapd[2][FN_LOG_MAX_DEVICE_SIZE][DEVICE_CFG_MAX_ID];
static void save() { for (int c = 0; c < 2; c++) { Channel &h = vf_logger().shm_->channels_[c]; for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) snap[c][f] = AtomicLoadC(h, f); for (int d = 0; d < FN_LOG_MAX_DEVICE_SIZE; d++) for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) snapd[c][d][f] = AtomicLoadC(h.devices_[d], f); } }
// exactly the cells chosen by the two predicates hold v, all others are unchanged
template <class A, class B> static void changed(A a, B b, long long v) { bool ok = true; for (int c = 0; c < 2; c++) { Channel &h = vf_logger().shm_->channels_[c]; for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) { long long x = AtomicLoadC(h, f); bool t = a(c, f); ok &= (t & (x == v)) | (!t & (x == snap[c][f])); } for (int d = 0; d < FN_LOG_MAX_DEVICE_SIZE; d++) for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) { long long x = AtomicLoadC(h.devices_[d], f); bool t = b(c, d, f); ok &= (t & (x == v)) | (!t & (x == snapd[c][d][f])); } } vf_check(ok, "sets_exactly_the_field_named"); }
static int how() { int s = (int)vf_concretize((uint64_t)vf_range("state", 0, 2)); Logger &l = vf_logger(); if (s >= 1) vf_check(InitFromYMAL(l, G2, "") == 0, "logger_starts"); if (s == 2) vf_check(StartLogger(l) == 0, "logger_starts"); if (s) { for (int c = 0; c < 2; c++) { Channel &h = l.shm_->channels_[c]; for (int i = 0; i < CHANNEL_LOG_MAX_ID; i++) AtomicStoreChannelLog(h, i, 1000 + 100 * c + i); for (int d = 0; d < FN_LOG_MAX_DEVICE_SIZE; d++) for (int i = 0; i < DEVICE_LOG_MAX_ID; i++) AtomicStoreDeviceLog(h, d, i, 2000 + 400 * c + 100 * d + i); } save(); } return s; }
static int devices(int c) { return c == 0 ? 2 : 1; }
ENTRY h_set_channel() { int s = how(), ch = any("channel"), f = any("field"); long long v = vf_range("value", (-9223372036854775807ll - 1), 9223372036854775807ll); SetChannelConfig(vf_logger(), ch, (ChannelConfigEnum)f, v); if (!s) { vf_check(vf_logger().shm_ == nullptr, "sets_exactly_the_field_named"); return; } changed([&](int c, int g) { return (c == ch) & (g == f); }, [](int, int, int) { return false; }, v); vf_cover("set"); }
ENTRY h_set_device() { int s = how(), ch = any("channel"), d = any("device"), f = any("field"); long long v = vf_range("value", (-9223372036854775807ll - 1), 9223372036854775807ll); SetDeviceConfig(vf_logger(), ch, d, (DeviceConfigEnum)f, v); long long got = GetDeviceConfig(vf_logger(), ch, d, (DeviceConfigEnum)f); if (!s) { vf_check(got == 0, "gets_the_field_named"); return; } bool valid = false; for (int c = 0; c < 2; c++) valid |= (ch == c) & (d >= 0) & (d < devices(c)) & (f >= 0) & (f < DEVICE_CFG_MAX_ID); changed([](int, int) { return false; }, [&](int c, int e, int g) { return valid & (c == ch) & (e == d) & (g == f); }, v); vf_check((valid & (got == v)) | (!valid & (got == 0)), "gets_the_field_named"); vf_cover("set"); }
ENTRY h_get() { int s = how(), ch = any("channel"), d = any("device"), f = any("field"); long long c = GetChannelLog(vf_logger(), ch, (ChannelLogEnum)f), l = GetDeviceLog(vf_logger(), ch, d, (DeviceLogEnum)f), x = GetDeviceConfig(vf_logger(), ch, d, (DeviceConfigEnum)f); if (!s) { vf_check(c == 0 && l == 0 && x == 0, "gets_the_field_named"); return; }
  bool vc = (ch >= 0) & (ch < 2) & (f >= 0) & (f < CHANNEL_LOG_MAX_ID), vd = false; for (int k = 0; k < 2; k++) vd |= (ch == k) & (d >= 0) & (d < devices(k)) & (f >= 0) & (f < DEVICE_LOG_MAX_ID);
  vf_check((vc & (c == 1000 + 100ll * ch + f)) | (!vc & (c == 0)), "gets_the_field_named"); vf_check((vd & (l == 2000 + 400ll * ch + 100ll * d + f)) | (!vd & (l == 0)), "gets_the_field_named"); bool ok = true; bool vx = false; for (int k = 0; k < 2; k++) for (int e = 0; e < devices(k); e++) for (int g = 0; g < DEVICE_CFG_MAX_ID; g++) { bool t = (ch == k) & (d == e) & (f == g); vx |= t; ok &= !t | (x == snapd[k][e][g]); } vf_check(ok & (vx | (x == 0)), "gets_the_field_named"); changed([](int, int) { return false; }, [](int, int, int) { return false; }, 0); vf_cover("get"); }
ENTRY h_batch() { int s = how(), f = any("field"), t = any("type"); long long v = vf_range("value", (-9223372036854775807ll - 1), 9223372036854775807ll); bool dev = vf_concretize((uint64_t)vf_range("which", 0, 1)) != 0; if (dev) BatchSetDeviceConfig(vf_logger(), (DeviceOutType)t, (DeviceConfigEnum)f, v); else BatchSetChannelConfig(vf_logger(), (ChannelConfigEnum)f, v); if (!s) { vf_check(vf_logger().shm_ == nullptr, "sets_exactly_the_field_named"); return; }
  changed([&](int, int g) { return !dev & (g == f); }, [&](int c, int e, int g) { int o = (c == 0 && e == 1) ? DEVICE_OUT_SCREEN : DEVICE_OUT_FILE; return dev & (e < devices(c)) & (g == f) & ((t == o) | (t == DEVICE_OUT_NULL)); }, v); vf_cover("set"); }
// the shorthands
ENTRY h_short() { int s = how(); long long v = (long long)vf_concretize((uint64_t)vf_range("on", 0, 1)); int b = (int)vf_range("priority", 0, 15), n = (int)vf_range("count", -2147483648ll, 2147483647ll); Logger &l = vf_logger(); int k = (int)vf_concretize((uint64_t)vf_range("call", 0, 7)); auto no = [](int, int) { return false; }; auto file = [](int c, int e) { return (c == 0 && e == 0) || (c == 1 && e == 0); }; auto scr = [](int c, int e) { return c == 0 && e == 1; };
  switch (k) { case 0: EnableAllFileDevice(l, v != 0); break; case 1: EnableAllScreenDevice(l, v != 0); break; case 2: EnableAllUDPDevice(l, v != 0); break; case 3: SetAllChannelPriority(l, (LogPriority)b); break; case 4: SetAllFilePriority(l, (LogPriority)b); break; case 5: SetAllScreenPriority(l, (LogPriority)b); break; case 6: SetAllFileLimitSize(l, n); break; default: SetAllFileRollbackCount(l, n); break; }
  if (!s) { vf_check(vf_logger().shm_ == nullptr, "sets_exactly_the_field_named"); return; }
  changed([&](int c, int g) { return k == 3 ? g == CHANNEL_CFG_PRIORITY : no(c, g); }, [&](int c, int e, int g) { return k == 0 ? file(c, e) && g == DEVICE_CFG_ABLE : k == 1 ? scr(c, e) && g == DEVICE_CFG_ABLE : k == 4 ? file(c, e) && g == DEVICE_CFG_PRIORITY : k == 5 ? scr(c, e) && g == DEVICE_CFG_PRIORITY : k == 6 ? file(c, e) && g == DEVICE_CFG_FILE_LIMIT_SIZE : k == 7 ? file(c, e) && g == DEVICE_CFG_FILE_ROLLBACK : false; }, k < 2 ? v : k < 6 ? b : n); vf_cover("set"); }
// the calls below the stream: any numbers are refused or have their effect
ENTRY h_push() { int s = how(), ch = any("channel"), idx = any("idx"), prio = any("priority"), cat = any("category"); long long id = vf_range("identify", (-9223372036854775807ll - 1), 9223372036854775807ll); Logger &l = vf_logger(); int w = env_nwrites; bool in = (s == 2) & (((ch == 0) & (prio >= PRIORITY_INFO)) | ((ch == 1) & (prio >= 0)));
  bool blocked = BlockInput(l, ch, prio, cat, id); if (s != 2) vf_check(blocked, "refuses_or_takes"); bool unheld = ch < 0 || ch > 1 || idx < 0 || idx >= FN_LOG_MAX_LOG_QUEUE_SIZE || s != 2; if (unheld) { vf_cover("refused"); vf_check(PushLog(l, ch, idx) != 0, "refuses_or_takes"); vf_check(s == 0 || l.shm_->ring_buffers_[0].write_idx_ == 0, "refuses_or_takes"); }
  int h = HoldChannel(l, ch, prio, cat, id); vf_check((h >= 0) == in && (!in || h < FN_LOG_MAX_LOG_QUEUE_SIZE), "refuses_or_takes"); if (in) { vf_check(blocked == false, "refuses_or_takes"); int c = ch == 1; LogData &d = l.shm_->ring_buffers_[c].buffer_[h]; InitLogData(l, d, c, prio, cat, (unsigned long long)id, LOG_PREFIX_NULL); d.content_len_ = (int)vf_range("len", 0, FN_LOG_MAX_LOG_SIZE); vf_check(PushLog(l, ch, h) == 0, "refuses_or_takes"); vf_check(env_nwrites == w + 1, "refuses_or_takes"); vf_cover("taken"); } else vf_check(env_nwrites == w, "refuses_or_takes");
  vf_check(HotUpdateLogger(l, ch) != 0, "refuses_or_takes"); }
// shared memory: initialising again with another key
static char kt[2][256]; static void withkey(int i, int k) { char *p = kt[i]; auto add = [&](const char *s) { while (*s) *p++ = *s++; }; if (k) { add("- shm_key: "); *p++ = (char)('0' + k); add("\n"); } add(VF_SYNC1); *p = 0; }
ENTRY h_shm() { int a = (int)vf_concretize((uint64_t)vf_range("key0", 0, 2)), b = (int)vf_concretize((uint64_t)vf_range("key1", 0, 2)), mid = (int)vf_concretize((uint64_t)vf_range("run", 0, 1)); withkey(0, a); withkey(1, b); Logger &l = vf_logger(); vf_check(InitFromYMAL(l, kt[0], "") == 0, "logger_starts"); if (mid) { vf_check(StartLogger(l) == 0, "logger_starts"); { LogStream s = vf_stream(0); s << 'x'; } vf_check(env_nwrites == 1 && StopLogger(l) == 0, "records_of_a_running_logger_only"); }
  vf_check(InitFromYMAL(l, kt[1], "") == 0 && StartLogger(l) == 0, "logger_starts"); { LogStream s = vf_stream(0); s << 'y'; } vf_check(env_nwrites == 1 + mid, "records_of_a_running_logger_only"); delete L; L = nullptr; vf_check(env_shm_attached == 0 && !env_shm_exists, "shared_memory_released_as_attached"); vf_check(env_nclose == env_nopen, "destroying_closes_the_files"); vf_cover("released"); }
