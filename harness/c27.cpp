#include "common.h"
#include <list>
#include <map>
#include <vector>
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>
// the hash containers stay with one bucket (growing them is the C++ library)
extern "C" std::pair<bool, std::size_t> __wrap__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, std::size_t, std::size_t, std::size_t) { return std::pair<bool, std::size_t>(false, 0); }
// C27: compound values.  The expected text is put together independently: kind, size, the first five elements in iteration order.
#ifndef MAXN
#define MAXN 11
#endif
static char ex[700]; static int en; static bool seen;
static void put(const char *s) { while (*s) ex[en++] = *s++; }
static void putd(long long v) { char t[24]; int k = 0; if (v < 0) { ex[en++] = '-'; v = -v; } do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) ex[en++] = t[--k]; }
static void e_(char c) { ex[en++] = c; } static void e_(bool b) { put(b ? "true" : "false"); } static void e_(int v) { putd(v); } static void e_(unsigned char v) { putd(v); } static void e_(const std::string &s) { for (size_t i = 0; i < s.size(); i++) ex[en++] = s[i]; }
template <class C> static void e_(const char *kind, const C &c); template <class T> static void e_(const std::vector<T> &c); template <class T> static void e_(const std::list<T> &c);
template <class A, class B> static void e_(const std::pair<A, B> &p) { put("<"); e_(p.first); put(":"); e_(p.second); put(">"); }
template <class T> static void e_(const std::vector<T> &c) { e_("vector", c); }
template <class T> static void e_(const std::list<T> &c) { e_("list", c); }
template <class C> static void e_(const char *kind, const C &c) { put(kind); put(":("); putd((long long)c.size()); put(")["); int k = 0; for (const auto &x : c) { if (k == 5) { put("..., "); vf_cover("shortened"); break; } if (k++) put(", "); e_(x); } put("]"); }
static void on_write(const char *, const char *p, long len) { seen = true; vf_check(len == en + 1 && p[len - 1] == '\n', "text_length"); bool ok = true; for (int i = 0; i < en && i < len; i++) ok &= p[i] == ex[i]; vf_check(ok, "text_as_documented"); }
static int pick(const char *n, int lo, int hi) { return (int)vf_concretize((uint64_t)vf_range(n, lo, hi)); }
template <class T> static void show(const T &v) { vf_start(VF_SYNC1); env_on_write = on_write; { LogStream s = vf_stream(); s << v; vf_check(s.log_data_->content_len_ == en, "text_length"); } vf_check(seen, "record_written"); }
static char S[40]; static void sym(int n) { vf_sym_bytes(S, n, "element"); }
ENTRY h_vector() { sym(MAXN); int n = pick("n", 0, MAXN); std::vector<char> v(S, S + n); e_(v); show(v); }
ENTRY h_list() { sym(MAXN); int n = pick("n", 0, MAXN); std::list<char> v(S, S + n); e_(v); show(v); }
ENTRY h_deque() { sym(MAXN); int n = pick("n", 0, MAXN); std::deque<char> v(S, S + n); e_("deque", v); show(v); }
// sorted containers: the keys in any order of insertion
ENTRY h_set() { int n = pick("n", 0, 7); std::set<int> v; for (int i = 0; i < n; i++) { static const int K[] = {5, -3, 100, 7, 0, 42, -20}; v.insert(K[i]); } e_("set", v); int last = -1000; bool up = true; for (int x : v) { up &= x > last; last = x; } vf_check(up, "text_as_documented"); show(v); }
ENTRY h_map() { sym(7); int n = pick("n", 0, 7); std::map<int, char> v; for (int i = 0; i < n; i++) { static const int K[] = {5, -3, 100, 7, 0, 42, -20}; v[K[i]] = S[i]; } e_("map", v); show(v); }
ENTRY h_pair() { sym(3); int f = pick("form", 0, 3); int t = pick("int", 0, 9) * 37 - 111; bool b = pick("bool", 0, 1) != 0; if (f == 0) { auto v = std::make_pair(S[0], t); e_(v); show(v); } else if (f == 1) { auto v = std::make_pair(b, std::string(S + 0, 3)); e_(v); show(v); } else if (f == 2) { auto v = std::make_pair(std::make_pair(t, S[1]), b); e_(v); show(v); } else { auto v = std::make_pair(std::string("key"), std::vector<char>(S, S + 3)); e_(v); show(v); } }
// compounds in compounds
ENTRY h_nested() { sym(9); int n = pick("n", 0, 7), m = pick("m", 0, 6); std::vector<std::vector<char>> v; for (int i = 0; i < n; i++) v.push_back(std::vector<char>(S + (i & 1), S + (i & 1) + (i == 1 ? m : 1))); e_(v); show(v); }
ENTRY h_pairs() { sym(8); int n = pick("n", 0, 7); std::list<std::pair<bool, char>> v; for (int i = 0; i < n; i++) v.push_back(std::make_pair(i % 3 == 1, S[i])); e_(v); show(v); }
ENTRY h_strings() { sym(6); int n = pick("n", 0, 6), k = pick("len", 0, 6); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(std::string(S, (size_t)(i == 2 ? k : i))); e_(v); show(v); }
template <class C> static void hashed(const char *kind, const C &v) { e_(kind, v); show(v); }
ENTRY h_hashed() { sym(6); int n = pick("n", 0, 6), f = pick("form", 0, 1); if (f) { std::unordered_map<int, char> v; for (int i = 0; i < n; i++) v[i * 10] = S[i]; hashed("unordered_map", v); } else { std::unordered_set<int> v; for (int i = 0; i < n; i++) v.insert(i * 3); hashed("unordered_set", v); } }
// several values in one record follow each other without anything in between
ENTRY h_chain() { sym(4); int n = pick("n", 0, 4), a = pick("a", 0, 5) * 111 - 222; bool b = pick("b", 0, 1) != 0; unsigned char u = (unsigned char)(pick("u", 0, 5) * 51); std::string s(S, (size_t)n); e_(S[0]); e_(a); e_(s); e_(b); e_(u); put("null"); e_(s); e_(std::make_pair(S[1], u)); vf_start(VF_SYNC1); env_on_write = on_write; { vf_stream() << S[0] << a << s << b << u << (const char *)nullptr << s << std::make_pair(S[1], u); } vf_check(seen, "record_written"); }
