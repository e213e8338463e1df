#include "common.h"
#include <cstddef>
#include <list>
#include <map>
#include <vector>
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>
// C09: no stream operation ever leaves the record or spoils its neighbours; text is appended in order, cut at the record size,
// and the published record is the text plus "\n" and a NUL.
// Induction over the operations: the record holds k arbitrary bytes (any k in [0, LOG_SIZE]) and one operation is applied.
static const int N = LogData::LOG_SIZE;
static int k, j, want_len; static bool window; // window: earlier text is looked at just before the operation and at the record start, else at every position
static bool published; static const char *rec_content;
static void on_write(const char *, const char *p, long len) {
  published = true; vf_check(len == want_len + 1, "record_length"); vf_check(p[len - 1] == '\n' && p[len] == 0, "record_ends_with_newline_and_nul"); vf_check(j >= want_len || p[j] == 'C', "record_text_kept"); }
static bool canary(const char *n) { const uint64_t *w = (const uint64_t *)n; uint64_t bad = 0; for (int i = 0; i < 6; i++) bad |= w[i] ^ 0x5a5a5a5a5a5a5a5aULL; return bad == 0; }
static LogStream open_() { k = (int)vf_range("k", 0, N); j = (int)vf_range("j", 0, N - 1); vf_start(VF_SYNC1); return vf_stream(); }
static void fill(LogStream &s) { memset(s.log_data_->content_, 'C', N); s.log_data_->content_len_ = k; LogData *n = s.log_data_ + 1; memset((void *)n, 0x5a, 64); }
static void guard(LogStream &s) { // neighbours untouched, earlier text untouched, length stays inside
  LogData &d = *s.log_data_; vf_check(d.content_len_ >= k && d.content_len_ <= N, "length_stays_inside_the_record"); 
  if (window) { bool ok = true; for (int i = 1; i <= 8; i++) if (k >= i) ok &= *(d.content_ + k - i) == 'C'; if (k > 0) ok &= d.content_[0] == 'C'; vf_check(ok, "earlier_text_untouched"); }
  else vf_check(j >= k || d.content_[j] == 'C', "earlier_text_untouched");
  vf_check(canary((const char *)(s.log_data_ + 1)), "neighbour_record_untouched");
  vf_check(d.channel_id_ == 0 && d.priority_ == PRIORITY_INFO, "own_header_untouched"); vf_observe("len", d.content_len_); }
// text operations: exactly the text, cut where the record ends
static void appended(LogStream &s, const char *t, int n) { LogData &d = *s.log_data_; int room = N - k, m = n < room ? n : room; vf_check(d.content_len_ == k + m, "text_cut_at_the_record_end"); if (m < n) vf_cover("cut"); bool ok = true; for (int i = 0; i < n; i++) if (i < m) ok &= d.content_[k + i] == t[i]; vf_check(ok, "text_appended_in_order"); }
#define OPW(name, ...) ENTRY h_##name() { window = true; LogStream s = open_(); fill(s); { __VA_ARGS__; } guard(s); vf_end(); }
#define OP(name, ...) ENTRY h_##name() { LogStream s = open_(); fill(s); { __VA_ARGS__; } guard(s); vf_end(); }
static char txt[64]; static const char *letters(int n) { for (int i = 0; i < n; i++) txt[i] = (char)('a' + i % 26); txt[n] = 0; return txt; }
static int pick(const char *name, int hi) { return (int)vf_concretize((uint64_t)vf_range(name, 0, hi)); }
OP(cstr, int n = pick("n", 6); n = n == 6 ? 33 : n; s << letters(n); appended(s, txt, n))
OP(buffer, int n = pick("n", 7) - 1; n = n == 6 ? 20 : n; letters(40); s.write_buffer(txt, n); appended(s, txt, n < 0 ? 0 : n))
OP(null, s << (const char *)nullptr; appended(s, "null", 4))
OP(string, int n = pick("n", 5); n *= 4; std::string x(letters(n)); s << x; appended(s, txt, n))
OP(long_string, vf_assume(k == 0 || k == 300 || k >= N - 20); k = (int)vf_concretize((uint64_t)k); std::string x(N + 50, 'z'); s << x; LogData &d = *s.log_data_; vf_check(d.content_len_ == N, "text_cut_at_the_record_end"); vf_check(j < k || d.content_[j] == 'z', "text_appended_in_order"))
OP(char, char c = (char)vf_sym("c", 8); s << c; appended(s, &c, 1))
OP(bool, bool b = vf_range("b", 0, 1) != 0; s << b; if (b) appended(s, "true", 4); else appended(s, "false", 5))
static unsigned long long mag(int d) { unsigned long long p = 1; while (d--) p *= 10; return p; } // a number with d+1 digits
OP(int, int d = pick("digits", 9); int neg = pick("neg", 1); int x = (int)mag(d); s << (neg ? -x : x))
OP(uchar, unsigned char c = (unsigned char)vf_sym("x", 8); s << c)
OP(longlong, int d = pick("digits", 18); int neg = pick("neg", 1); long long x = (long long)mag(d); s << (neg ? -x : x))
OP(ulonglong, int d = pick("digits", 19); s << mag(d))
OP(pointer, int d = pick("digits", 16); s << (const void *)(d == 0 ? 0 : 1ULL << (4 * d - 1)))
OP(nullptr, s << nullptr)
OPW(float, float f; unsigned b = (unsigned)pick("which", 7); static const float tab[] = {0.0f, 1.5f, -3.25f, 1e30f, -1e-9f, 0.00001f, 123456.789f, -0.125f}; f = tab[b]; s << f)
OPW(double, double f; unsigned b = (unsigned)pick("which", 7); static const double tab[] = {0.0, 1.5, -1.7976931348623157e308, 1e18, -1e-300, -0.000012345, 1152921504606846975.0, __builtin_inf()}; f = tab[b]; s << f)
OPW(percent, LogPercent p(0.25f); unsigned b = (unsigned)pick("which", 3); if (b == 1) p.v_ = 0; if (b == 2) p.v_ = 3e37f; if (b == 3) p.v_ = 1.0f; s << p)
OP(timestamp, long long ts = 18518LL * 86400 + pick("sec", 3) * 40000; s << LogTimestamp(ts, pick("ms", 3) * 333))
OP(align, s << LogBlankAlign<100>(); int want = k >= 100 || k + 100 >= N ? k : 100; vf_check(s.log_data_->content_len_ == want, "aligned_to_column"))
OP(align_wide, s << LogBlankAlign<N + 100>(); vf_check(s.log_data_->content_len_ == k, "too_wide_alignment_ignored"))
OP(pair, s << std::make_pair(std::string("ab"), 'c'); appended(s, "<ab:c>", 6))
template <class C> static void cont(LogStream &s, C &c) { s << c; }
OPW(vector, int n = pick("n", 7); std::vector<char> v; for (int i = 0; i < n; i++) v.push_back((char)('a' + i)); s << v)
OPW(list, int n = pick("n", 6); std::list<bool> v; for (int i = 0; i < n; i++) v.push_back(true); s << v)
OPW(deque, int n = pick("n", 6); std::deque<char> v; for (int i = 0; i < n; i++) v.push_back('x'); s << v)
OPW(map, int n = pick("n", 3); std::map<int, char> v; for (int i = 0; i < n; i++) v[i] = 'x'; s << v)
OPW(set, int n = pick("n", 3); std::set<int> v; for (int i = 0; i < n; i++) v.insert(i); s << v)
OPW(binary, char t[40]; int n = pick("n", 3); n = n == 0 ? 0 : n == 1 ? 5 : n == 2 ? 32 : 33; for (int i = 0; i < 40; i++) t[i] = (char)('A' + i); s.write_binary(t, n))
// publication of any record: cut to the size, newline, NUL
ENTRY h_publish() { LogStream s0 = open_(); env_on_write = on_write; { LogStream s(std::move(s0)); fill(s); rec_content = s.log_data_->content_; want_len = k < N - 2 ? k : N - 2; if (k > N - 2) vf_cover("cut"); }
  vf_check(published, "record_written"); const char *n = (const char *)(vf_logger().shm_->ring_buffers_[0].buffer_ + 1); vf_check(canary(n), "neighbour_record_untouched"); }
// the same with a virtual device hook, which sees the text NUL-terminated
static bool hooked; static void hook(const LogData &d) { hooked = true; int m = d.content_len_ < N - 1 ? d.content_len_ : N - 1; vf_check(d.content_[m] == 0, "hook_sees_a_c_string"); vf_check(j >= m || d.content_[j] == 'C', "record_text_kept"); }
ENTRY h_publish_virtual() { k = (int)vf_range("k", 0, N); j = (int)vf_range("j", 0, N - 1); vf_start("- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n  -device: 1\n    disable: false\n    out_type: virtual\n");
  SetVirtualDevice(hook); env_on_write = on_write; { LogStream s = vf_stream(); fill(s); want_len = k < N - 2 ? k : N - 2; } vf_check(published && hooked, "record_written"); const char *n = (const char *)(vf_logger().shm_->ring_buffers_[0].buffer_ + 1); vf_check(canary(n), "neighbour_record_untouched"); }
// the printf style macro: the formatted text is cut at the record end
static char big[N + 40]; static int bn;
static void on_write_fmt(const char *, const char *p, long len) { published = true; long m = bn < N - 2 ? bn : N - 2; vf_check(len == m + 1, "record_length"); vf_check(p[len - 1] == '\n' && p[len] == 0, "record_ends_with_newline_and_nul"); vf_check(j >= m || p[j] == 'F', "record_text_kept"); }
ENTRY h_format() { bn = (int)vf_range("n", N - 8, N + 8); j = (int)vf_range("j", 0, N - 1); memset(big, 'F', sizeof(big)); bn = (int)vf_concretize(bn); big[bn] = 0; env_on_write = on_write_fmt;
  vf_check(FastStartDefaultLogger(VF_SYNC1) == 0, "logger_starts"); memset((void *)(GetDefaultLogger().shm_->ring_buffers_[0].buffer_ + 1), 0x5a, 64); LOG_FORMAT(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL, "%s", big); vf_check(published, "record_written");
  const char *n = (const char *)(GetDefaultLogger().shm_->ring_buffers_[0].buffer_ + 1); vf_check(canary(n), "neighbour_record_untouched"); }
// a record that was refused is inert: every operation on it is a no-op
ENTRY h_refused() { vf_logger(); LogStream s = vf_stream(); vf_check(s.log_data_ == nullptr, "not_started"); long long x = (long long)vf_sym("x", 64); char t[4] = {1, 2, 3, 4};
  s << "a" << (const char *)nullptr << 'c' << true << (int)x << x << (unsigned long long)x << (const void *)t << nullptr << 1.5 << 2.5f << std::string("s") << std::make_pair(1, 2) << std::vector<int>(3, 1) << LogPercent(0.5f) << LogTimestamp(1600000000, 1) << LogBlankAlign<50>() << (unsigned char)x << (short)x; s.write_binary(t, 4); s.write_buffer(t, 4); s.set_category((int)x); vf_check(env_nwrites == 0, "refused_is_inert"); }
