#include "common.h"
// C26: every form of a log call produces the same record: its own priority, the channel, category and identify given, the place of the call,
// the text; and the ready-made configurations send records where they are documented to go.
static int where, lines_, hooks_, ch, cat, prio, line_, form; static long long id; static char c_; static int d_; static const char *func_;
static const char *NAMES[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
static char ex[512]; static int en; static void put(const char *s) { while (*s) ex[en++] = *s++; }
static void putd(int v) { char t[12]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) ex[en++] = t[--k]; }
static const char *short_() { static const char f[] = __FILE__; int seps = 0; for (int i = (int)sizeof f - 2; i >= 0; i--) if (f[i] == '/' && ++seps == 3) return f + i + 1; return f; }
static void expect() { en = 0; put("[20200913 12:26:40.123]"); put(NAMES[prio]); put("["); put(short_()); put(":"); putd(line_); put("] ("); en -= 2; put("("); put(func_); put(") "); ex[en++] = c_; ex[en++] = (char)('0' + d_); put("\n"); }
static void on_write(const char *path, const char *p, long len) { lines_++; vf_check(path[2] == (ch ? 'b' : 'a') || path[0] == (ch ? 'b' : 'a'), "written_to_the_channel_named"); expect(); bool ok = len == en; for (int i = 0; i < en && i < len; i++) ok &= p[i] == ex[i]; vf_check(ok, "line_as_documented"); }
static void hook(const LogData &d) { hooks_++; vf_check((d.channel_id_ == ch) & (d.priority_ == prio) & (d.category_ == cat) & ((long long)d.identify_ == id) & (d.code_line_ == line_), "record_carries_its_attributes"); }
// all forms of one priority
#define FORMS(W, C, T) static void form_##T(int f) { func_ = __FUNCTION__; line_ = __LINE__; switch (f) { \
  case 0: Log##W##Stream(ch, cat, id) << c_ << d_; break; case 1: Log##W() << c_ << d_; break; \
  case 2: Log##W##Pack(ch, cat, id, c_, d_); break; case 3: Pack##W(c_, d_); break; \
  case 4: LOG_##C(ch, cat, id, c_ << d_); break; case 5: LOG##T(c_ << d_); break; \
  case 6: LOGFMT_##C(ch, cat, id, "%c%d", c_, d_); break; default: LOGFMT##T("%c%d", c_, d_); break; } }
FORMS(Trace, TRACE, T)
FORMS(Debug, DEBUG, D)
FORMS(Info, INFO, I)
FORMS(Warn, WARN, W)
FORMS(Error, ERROR, E)
FORMS(Alarm, ALARM, A)
FORMS(Fatal, FATAL, F)
static void call() { switch (prio) { case 0: form_T(form); break; case 1: form_D(form); break; case 2: form_I(form); break; case 3: form_W(form); break; case 4: form_E(form); break; case 5: form_A(form); break; default: form_F(form); break; } }
static const char *Y = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n  -device: 1\n    disable: false\n    out_type: virtual\n- channel: 1\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"b\"\n  -device: 1\n    disable: false\n    out_type: virtual\n";
static void draw() { prio = (int)vf_concretize((uint64_t)vf_range("prio", 0, 6)); form = (int)vf_concretize((uint64_t)vf_range("form", 0, 7)); c_ = (char)vf_range("char", 32, 126); d_ = (int)vf_concretize((uint64_t)vf_range("digit", 0, 9)); if (form % 2 == 0) { ch = (int)vf_concretize((uint64_t)vf_range("channel", 0, 1)); cat = (int)vf_range("category", -2147483648ll, 2147483647ll); id = vf_range("identify", (-9223372036854775807ll - 1), 9223372036854775807ll); } }
ENTRY h_forms() { draw(); vf_check(FastStartDefaultLogger(Y) == 0, "logger_starts"); SetVirtualDevice(hook); env_on_write = on_write; call(); vf_check(lines_ == 1 && hooks_ == 1, "one_record_per_call"); vf_check(&GetDefaultLogger() == &GetDefaultLogger() && GetChannelLog(GetDefaultLogger(), ch, CHANNEL_LOG_PUSH) == 1, "one_record_per_call"); }
// with filters: exactly the calls the channel accepts
ENTRY h_filtered() { draw(); int thr = (int)vf_range("threshold", 0, 6), which = (int)vf_concretize((uint64_t)vf_range("filter", 0, 2)); int c0 = (int)vf_range("first_category", -1000, 1000); long long i0 = vf_range("first_identify", -1000, 1000); vf_check(FastStartDefaultLogger(Y) == 0, "logger_starts"); Logger &l = GetDefaultLogger(); SetChannelConfig(l, ch, CHANNEL_CFG_PRIORITY, thr); bool in = prio >= thr;
  if (which == 1) { SetChannelConfig(l, ch, CHANNEL_CFG_CATEGORY, c0); SetChannelConfig(l, ch, CHANNEL_CFG_CATEGORY_EXTEND, 2); in &= (cat >= c0) & (cat < c0 + 2); } if (which == 2) { SetChannelConfig(l, ch, CHANNEL_CFG_IDENTIFY, i0); SetChannelConfig(l, ch, CHANNEL_CFG_IDENTIFY_EXTEND, 2); in &= (id >= i0) & (id < i0 + 2); }
  SetVirtualDevice(hook); env_on_write = on_write; call(); vf_check((lines_ == 1) == in && (hooks_ == 1) == in && lines_ <= 1, "one_record_per_accepted_call"); if (lines_) vf_cover("accepted"); else vf_cover("refused"); }
// before the start and after the stop every form does nothing
ENTRY h_stopped() { draw(); int s = (int)vf_concretize((uint64_t)vf_range("state", 0, 1)); if (s) { vf_check(FastStartDefaultLogger(Y) == 0, "logger_starts"); vf_check(StopLogger(GetDefaultLogger()) == 0, "logger_starts"); } call(); vf_check(env_nwrites == 0 && env_nopen == env_nclose, "nothing_while_stopped"); vf_cover("end"); }
// the ready-made configurations
static int seen_, debug_; static const char *FN[] = {"vfprog.log", "vfprog_error.log", "vfprog_sync.log", "vfprog_sync_info.log"};
static long len_(const char *s) { long n = 0; while (s[n]) n++; return n; }
static bool text_ok(const char *p, long len) { return (len > 4) & (p[len - 1] == '\n') & (p[len - 2] == (char)('0' + d_)) & (p[len - 3] == c_); }
static void on_default(const char *path, const char *p, long len) { const char *b = path; for (const char *q = path; *q; q++) if (*q == '/') b = q + 1; int k = -1; for (int i = 0; i < 4; i++) if (vf_eq(b, FN[i], len_(FN[i]) + 1)) k = i; vf_check(k >= 0, "documented_file"); vf_check(text_ok(p, len), "line_as_documented"); vf_check(!(seen_ >> k & 1), "written_once"); seen_ |= 1 << k; }
static void on_screen(const char *, const char *t) { long n = len_(t); vf_check(text_ok(t, n), "line_as_documented"); vf_check(!(seen_ & 16), "written_once"); seen_ |= 16; }
static void run(void *) { int r = debug_ ? FastStartDebugLogger() : FastStartDefaultLogger(); vf_check(r == 0, "logger_starts"); SHMLogger *m = GetDefaultLogger().shm_; for (int i = 0; i < 2; i++) { Channel &c = m->channels_[i]; vf_invisible(&c.channel_log_fields_, sizeof c.channel_log_fields_ + sizeof c.device_log_fields_); } env_on_print = on_screen; env_screen_capture = true; form = 2 * (int)(form / 2); call(); if (ch == 1) vf_cover("sync"); else vf_cover("async"); env_screen_capture = ch == 0; vf_check(StopLogger(GetDefaultLogger()) == 0, "logger_stops"); }
ENTRY h_default() { prio = (int)vf_concretize((uint64_t)vf_range("prio", 0, 6)); debug_ = (int)vf_concretize((uint64_t)vf_range("debug", 0, 1)); ch = (int)vf_concretize((uint64_t)vf_range("channel", 0, 1)); form = 2 * (int)vf_concretize((uint64_t)vf_range("form", 0, 3)); c_ = (char)vf_range("char", 33, 126); d_ = (int)vf_concretize((uint64_t)vf_range("digit", 5, 6)); env_on_write = on_default; vf_key(&prio, 4); vf_key(&debug_, 4); vf_key(&ch, 4); vf_key(&form, 4); vf_key(&d_, 4); vf_key(&seen_, 4); env_threaded = 1; vf_thread(run, nullptr, 0); vf_run_threads();
  int want = ch == 0 ? 1 | (prio >= PRIORITY_ERROR ? 2 : 0) : 4 | (debug_ || prio >= PRIORITY_INFO ? 8 : 0); if (prio >= (debug_ ? PRIORITY_DEBUG : PRIORITY_INFO)) want |= 16; vf_check(seen_ == want, "goes_where_documented"); }
