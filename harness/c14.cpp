#define FN_LOG_MAX_LOG_SIZE 1000
#include "common.h"
// C14: the prefix of a line.  The expected line is put together from the requested parts, written independently of the code.
static char ex[4096]; static int en; static int seen;
static void put(const char *s, int n) { for (int i = 0; i < n; i++) ex[en++] = s[i]; }
static void puts_(const char *s) { put(s, (int)strlen(s)); }
static void putd(unsigned v, int k) { for (int i = k - 1; i >= 0; i--) { unsigned p = 1; for (int j = 0; j < i; j++) p *= 10; ex[en++] = (char)('0' + v / p % 10); } }
static void on_write(const char *, const char *p, long len) { seen++; vf_check(len == en, "line_length"); bool ok = true; for (int i = 0; i < en; i++) ok &= p[i] == ex[i]; vf_check(ok, "line_text"); vf_observe("len", (uint64_t)len); }
static const char *Y(const char *name, const char *desc) { static char b[512]; snprintf(b, 512, "- logger_name: \"%s\"\n- logger_desc: \"%s\"\n%s", name, desc, VF_SYNC1); return b; }
static const char *NAMES[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
static int line_no, line_k, prio, mask, ms;
static void draw_line() { line_k = (int)vf_concretize((uint64_t)vf_range("digits", 1, 5)); static const int P[] = {1, 10, 100, 1000, 10000, 100000}; line_no = (int)vf_range("line", line_k == 1 ? 0 : P[line_k - 1], P[line_k] - 1); }
// the parts in the documented order (LOG_PREFIX_* flags)
static void expect(const char *name, const char *desc, const char *file, int filen, const char *func, int funcn) {
  en = 0; if (mask & LOG_PREFIX_TIMESTAMP) { puts_("[20200913 12:26:40."); putd((unsigned)ms, 3); puts_("]"); }
  if (mask & LOG_PREFIX_PRIORITY) puts_(NAMES[prio < 0 ? 0 : prio > 6 ? 6 : prio]);
  if (mask & LOG_PREFIX_THREAD) puts_("[100]");
  if (mask & LOG_PREFIX_NAME) { puts_("["); puts_(name); puts_("]"); }
  if (mask & LOG_PREFIX_DESC) { puts_("["); puts_(desc); puts_("]"); }
  if (mask & LOG_PREFIX_FILE) { puts_("["); if (filen > 0) put(file, filen); else puts_("nofile"); puts_(":"); putd((unsigned)line_no, line_k); puts_("]"); }
  if (mask & LOG_PREFIX_FUNCTION) { puts_("("); if (funcn > 0) put(func, funcn); else puts_("null"); puts_(")"); }
  if (mask) puts_(" "); puts_("msg\n"); }
static void log_it(const char *file, int fl, const char *func, int fn) { env_on_write = on_write; { LogStream s(vf_logger(), 0, prio, 0, 0, file, fl, line_no, func, fn, (unsigned)mask); s << "msg"; } vf_check(seen == 1, "line_written"); }
ENTRY h_parts() { ms = (int)vf_range("ms", 0, 999); env_usec = ms * 1000L + vf_range("us", 0, 999); draw_line(); mask = (int)vf_concretize((uint64_t)vf_range("mask", 0, 127)); prio = (int)vf_range("prio", 0, 6); prio = (int)vf_concretize((uint64_t)prio);
  vf_start(Y("nm", "a desc")); expect("nm", "a desc", "src/main.cpp", 12, "fun", 3); log_it("src/main.cpp", 12, "fun", 3); }
// missing names, and priorities outside the range
ENTRY h_missing() { ms = 123; draw_line(); mask = (int)vf_concretize((uint64_t)vf_range("mask", 0, 3)) * 0x20 | LOG_PREFIX_PRIORITY | LOG_PREFIX_NAME | LOG_PREFIX_DESC; prio = (int)vf_range("prio", 5, 9); prio = (int)vf_concretize((uint64_t)prio); int fk = (int)vf_concretize((uint64_t)vf_range("file", 0, 3)), gk = (int)vf_concretize((uint64_t)vf_range("func", 0, 3));
  vf_start(VF_SYNC1); expect("vfprog", "", "f", fk == 3 ? 1 : 0, "g", gk == 3 ? 1 : 0); log_it(fk == 0 ? nullptr : "f", fk == 1 ? 0 : fk == 2 ? -1 : 1, gk == 0 ? nullptr : "g", gk == 1 ? 0 : gk == 2 ? -1 : 1); }
// any path: its last three components
#ifndef PL
#define PL 9
#endif
ENTRY h_path() { int n = (int)vf_concretize((uint64_t)vf_range("n", 1, PL)); char *f = vf_buf(n); vf_sym_bytes(f, n, "path"); mask = LOG_PREFIX_FILE; line_no = 7; line_k = 1; prio = 2;
  int from = 0, seps = 0; for (int i = n - 1; i >= 0; i--) { bool sep = f[i] == '/' || f[i] == '\\'; if (sep) seps++; if (sep && seps == 3) { from = i + 1; vf_cover("shortened"); break; } } 
  vf_start(VF_SYNC1); expect("", "", f + from, n - from, "", 0); if (n == from) { en = 0; puts_("[:7] msg\n"); } log_it(f, n, "", 0); }
// names of any length: the line stays inside the record and keeps every part that fits
static char big[3000];
static int len_of(int k) { static const int L[] = {1, 200, 255, 256, 600, 930, 950, 980, 990, 997, 998, 999, 1000, 1001, 2000, 2990}; return L[k]; }
static long full_len; static void on_long(const char *, const char *p, long len) { seen++; vf_check(len <= 999 && p[len - 1] == '\n', "overlong_line_ends"); bool ok = true;
  if (full_len <= 960) { vf_check(len == full_len + 1, "overlong_line_length"); for (long i = 0; i < full_len; i++) ok &= p[i] == ex[i]; vf_cover("fits"); } // parts are left out or cut only when the record is (nearly) full
  else { vf_check(len > 960, "overlong_line_fills_the_record"); for (long i = 0; i < 8 && i < len - 1; i++) ok &= p[i] == ex[i]; vf_cover("cut"); }
  vf_check(ok, "overlong_line_text"); }
ENTRY h_long() { for (int i = 0; i < 3000; i++) big[i] = (char)('a' + i % 23); int a = len_of((int)vf_concretize((uint64_t)vf_range("file", 0, 15))), b = len_of((int)vf_concretize((uint64_t)vf_range("func", 0, 15))); mask = LOG_PREFIX_PRIORITY | LOG_PREFIX_FILE | LOG_PREFIX_FUNCTION; prio = 4; line_no = (int)vf_range("line", 100, 999); line_k = 3; 
  vf_start(VF_SYNC1); en = 0; puts_("[ERROR]["); 
  put(big, a < 1200 ? a : 1200); puts_(":"); putd((unsigned)line_no, 3); puts_("]("); put(big, b < 1200 ? b : 1200); puts_(") msg"); full_len = 8 + a + 1 + 3 + 2 + b + 5; 
  env_on_write = on_long; { LogStream s(vf_logger(), 0, prio, 0, 0, big, a, line_no, big, b, (unsigned)mask); s << "msg"; } vf_check(seen == 1, "line_written");
  const char *nb = (const char *)&vf_logger().shm_->ring_buffers_[0].buffer_[1]; bool clean = true; for (size_t i = 0; i < sizeof(LogData); i++) clean &= nb[i] == 0; vf_check(clean, "next_record_untouched"); }
// any logger name and description; any thread number
ENTRY h_names() { static const int NL[] = {0, 1, 2, 49, 50, 51, 99, 127, 128, 200, 248, 249, 250, 299}, DL_[] = {0, 1, 2, 20, 32, 48, 49, 50, 60}; int n = NL[vf_concretize((uint64_t)vf_range("name_length", 0, 13))], d = DL_[vf_concretize((uint64_t)vf_range("desc_length", 0, 8))];
  static char nm[310], ds[70], y[900]; for (int i = 0; i < n; i++) nm[i] = (char)('a' + i % 23); for (int i = 0; i < d; i++) ds[i] = (char)('A' + i % 23); char a = (char)vf_range("name_last", '0', '9'), b = (char)vf_range("desc_last", 'a', 'z'); if (n) nm[(n > 249 ? 249 : n) - 1] = a; if (d) ds[(d > 49 ? 49 : d) - 1] = b; 
  int k = 0; auto add = [&](const char *s, int m) { for (int i = 0; i < m; i++) y[k++] = s[i]; }; if (n) { add("- logger_name: \"", 16); add(nm, n); add("\"\n", 2); } if (d) { add("- logger_desc: \"", 16); add(ds, d); add("\"\n", 2); } add(VF_SYNC1, (int)strlen(VF_SYNC1)); y[k] = 0; vf_start(y); if (n > 249) n = 249; if (d > 49) d = 49;
  en = 0; puts_("["); put(n ? nm : "vfprog", n ? n : 6); puts_("]["); put(ds, d); puts_("] msg\n"); mask = LOG_PREFIX_NAME | LOG_PREFIX_DESC; prio = 2; line_no = 1; log_it("f", 1, "g", 1); }
static void on_thread(const char *, const char *p, long len) { seen++; int k = (int)len - 7; vf_check((k >= 1) & (k <= 10) & (p[0] == '[') & (p[k + 1] == ']'), "line_text"); unsigned long long y = (unsigned long long)env_tid; int i = k; for (; i >= 1; i--) { vf_check(p[i] == (char)('0' + y % 10), "line_text"); y /= 10; if (y == 0) break; } vf_check(i == 1, "line_text"); }
ENTRY h_thread() { static const long P[] = {0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 4294967296}; int k = (int)vf_concretize((uint64_t)vf_range("digits", 1, 10)); env_tid = vf_range("thread", P[k - 1], P[k] - 1); vf_start(VF_SYNC1); env_on_write = on_thread; { LogStream s(vf_logger(), 0, 2, 0, 0, "f", 1, 1, "g", 1, LOG_PREFIX_THREAD); s << "msg"; } vf_check(seen == 1, "line_written"); }
