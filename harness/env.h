// Environment of the code under test: clock, time zone, file system, sockets, shared memory, locks, threads, screen.
// The same definitions serve the symbolic run (calls to X reach __wrap_X) and the native replay (linked with -Wl,--wrap=X),
// so a counterexample is replayed in exactly the environment it was found in.
#pragma once
#include "vf.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <memory>
#include <thread>
#include <mutex>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <new>

#ifndef ENV_FILES
#define ENV_FILES 12
#endif
#ifndef ENV_PATH
#define ENV_PATH 272
#endif
#ifndef ENV_EVENTS
#define ENV_EVENTS 48
#endif
#ifndef ENV_HANDLES
#define ENV_HANDLES 8
#endif

struct EnvFile { char path[ENV_PATH]; bool used; bool dir; long size; int gen; time_t mtime; const char *text; long text_len; };
struct EnvHandle { bool open; int file; long pos; bool wr; bool buffered; }; // buffered: something was written since the last flush
struct EnvWrite { int gen; const char *ptr; long len; char head[4]; };
static EnvFile env_files[ENV_FILES];
static EnvHandle env_handles[ENV_HANDLES];
static EnvWrite env_writes[ENV_EVENTS];
static void (*env_on_flush)(const char *path);
static bool env_unflushed() { bool u = false; for (int i = 0; i < ENV_HANDLES; i++) u |= env_handles[i].open & env_handles[i].buffered; return u; }
static long env_tid = 100;
static int env_nwrites, env_gen, env_nopen, env_nclose, env_nflush, env_nrename, env_nremove, env_nmkdir;
static time_t env_now = 1600000000; static long env_usec = 123000;
static bool env_fopen_fails, env_fwrite_short, env_mkdir_fails, env_dirs_exist = true;
static void (*env_on_write)(const char *path, const char *p, long len); static void (*env_on_send)(unsigned ip, unsigned short port, const char *p, long len); static void (*env_on_print)(const char *color, const char *text);
static const char *env_cmdline = "/opt/vfprog"; static long env_cmdline_len = 11; static char env_mkdirs[8][32]; // what mkdir was called with
static long env_file_touch; // mtime given to files on write

#ifdef VF_ENGINE
extern "C" {
size_t __wrap_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __wrap_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return nullptr; }
char *__wrap_strchr(const char *s, int c) { while (true) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; s++; } }
int __wrap_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
int __wrap_strcasecmp(const char *a, const char *b) { auto lo = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : (int)c; }; while (*a && lo(*a) == lo(*b)) { a++; b++; } return lo(*a) - lo(*b); }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *__wrap_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *__wrap_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *__wrap_strcat(char *d, const char *s) { __wrap_strcpy(d + __wrap_strlen(d), s); return d; }
char *__wrap_strrchr(const char *s, int c) { char *r = nullptr; while (true) { if (*s == (char)c) r = (char *)s; if (!*s) return r; s++; } }
char *__wrap_strstr(const char *a, const char *b) { for (;; a++) { size_t i = 0; while (b[i] && a[i] == b[i]) i++; if (!b[i]) return (char *)a; if (!*a) return nullptr; } }
void *__wrap_memrchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return nullptr; }
int __wrap_isdigit(int c) { return c >= '0' && c <= '9'; }
int __wrap_isblank(int c) { return c == ' ' || c == '\t'; }
int __wrap_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int __wrap_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int __wrap_isalnum(int c) { return __wrap_isalpha(c) || __wrap_isdigit(c); }
int __wrap_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __wrap_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int __wrap_abs(int c) { return c < 0 ? -c : c; }
int __wrap_isprint(int c) { return c >= 32 && c < 127; }
static int env_errno_; int *__wrap___errno_location() { return &env_errno_; }
long long __wrap_strtoll(const char *s, char **end, int base) {
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  bool neg = false; if (*s == '+') s++; else if (*s == '-') { neg = true; s++; }
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && ((s[2] >= '0' && s[2] <= '9') || (s[2] >= 'a' && s[2] <= 'f') || (s[2] >= 'A' && s[2] <= 'F'))) { s += 2; base = 16; }
  else if (base == 0) base = s[0] == '0' ? 8 : 10;
  unsigned long long v = 0; bool ovf = false; const unsigned long long lim = neg ? 0x8000000000000000ULL : 0x7fffffffffffffffULL;
  while (true) { unsigned d; char c = *s; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; if (d >= (unsigned)base) break;
    if (v > lim / 16) { if (v > (lim - d) / base) ovf = true; } v = v * base + d; s++; }
  if (end) *end = (char *)s; if (ovf) return neg ? (long long)0x8000000000000000ULL : 0x7fffffffffffffffLL; return neg ? -(long long)v : (long long)v; }
unsigned long long __wrap_strtoull(const char *s, char **end, int base) { // decimal only
  vf_check(base == 10, "env_strtoull_base"); while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; bool neg = false; if (*s == '+') s++; else if (*s == '-') { neg = true; s++; } unsigned long long v = 0; bool ovf = false;
  while (*s >= '0' && *s <= '9') { unsigned d = (unsigned)(*s - '0'); ovf |= (v > 1844674407370955161ULL) | ((v == 1844674407370955161ULL) & (d > 5)); v = v * 10 + d; s++; }
  if (end) *end = (char *)s; return ovf ? ~0ULL : neg ? 0 - v : v; }
unsigned long long __wrap___isoc23_strtoull(const char *s, char **e, int b) { return __wrap_strtoull(s, e, b); }
unsigned long __wrap_strtoul(const char *s, char **e, int b) { return (unsigned long)__wrap_strtoull(s, e, b); }
unsigned long __wrap___isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)__wrap_strtoull(s, e, b); }
long long __wrap_atoll(const char *s) { return __wrap_strtoll(s, nullptr, 10); }
long long __wrap___isoc23_strtoll(const char *s, char **e, int b) { return __wrap_strtoll(s, e, b); }
long __wrap___isoc23_strtol(const char *s, char **e, int b) { return (long)__wrap_strtoll(s, e, b); }
long __wrap_strtol(const char *s, char **e, int b) { return (long)__wrap_strtoll(s, e, b); }
long __wrap_atol(const char *s) { return (long)__wrap_strtoll(s, nullptr, 10); }
int __wrap_atoi(const char *s) { return (int)__wrap_strtoll(s, nullptr, 10); }
// string streams are only used to print messages: they keep no text, but read what is written to them
void __wrap__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(void *) {}
void __wrap__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(void *) {}
static volatile char env_sink;
void *__wrap__ZNSo5writeEPKcl(void *o, const char *p, long n) { for (long i = 0; i < n; i++) env_sink = p[i]; return o; }
void *__wrap__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void *o, const char *p) { while (*p) env_sink = *p++; return o; }
void *__wrap__ZNSolsEi(void *o, int) { return o; }
void *__wrap__ZNSolsEj(void *o, unsigned) { return o; }
void *__wrap__ZNSolsEl(void *o, long) { return o; }
void *__wrap__ZNSolsEm(void *o, unsigned long) { return o; }
double __wrap_modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; if (x - x != 0 && x == x) return __builtin_copysign(0.0, x); return __builtin_copysign(x - t, x); }
// snprintf for the conversions the code uses: %d %u %s %c %x %ld %lld %llu %% with 0 flag and width
static void env_putc(char *d, size_t n, size_t &p, char c) { if (p + 1 < n) d[p] = c; p++; }
static char env_numbuf[24];
int __wrap_snprintf(char *d, size_t n, const char *fmt, ...) {
  int a = 0; size_t p = 0;
  for (; *fmt; fmt++) {
    if (*fmt != '%') { env_putc(d, n, p, *fmt); continue; }
    fmt++; if (*fmt == '%') { env_putc(d, n, p, '%'); continue; }
    bool zero = false; int width = 0; int prec = -1; if (*fmt == '0') { zero = true; fmt++; } while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
    if (*fmt == '.') { fmt++; prec = 0; while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0'); }
    int l = 0; while (*fmt == 'l') { l++; fmt++; }
    if (*fmt == 's') { const char *s = (const char *)vf_va(a++); while (*s) env_putc(d, n, p, *s++); continue; }
    if (*fmt == 'c') { env_putc(d, n, p, (char)vf_va(a++)); continue; }
    if (*fmt == 'd' || *fmt == 'u' || *fmt == 'x') {
      unsigned long long v = vf_va(a++); bool neg = false; unsigned base = *fmt == 'x' ? 16 : 10;
      if (*fmt == 'd') { long long sv = l ? (long long)v : (long long)(int)v; if (sv < 0) { neg = true; v = 0 - (unsigned long long)sv; } else v = (unsigned long long)sv; } else if (!l) v = (unsigned)v;
      int k = 0; do { unsigned q = (unsigned)(v % base); env_numbuf[k++] = (char)(q < 10 ? '0' + q : 'a' + q - 10); v /= base; } while (v);
      int len = k + (neg ? 1 : 0); if (!zero) while (width > len) { env_putc(d, n, p, ' '); width--; }
      if (neg) env_putc(d, n, p, '-'); if (zero) while (width > len) { env_putc(d, n, p, '0'); width--; }
      while (k) env_putc(d, n, p, env_numbuf[--k]); continue; }
    if (*fmt == 'f') { // contract: correctly rounded to `prec` digits; only |v| < 1 is modelled
      double v; unsigned long long bits = vf_va(a++); memcpy(&v, &bits, 8); double s = 1; for (int i = 0; i < prec; i++) s *= 10;
      bool fneg = __builtin_signbit(v); v = __builtin_fabs(v); vf_check(v < 1, "env_snprintf_f_range"); if (fneg) env_putc(d, n, p, '-'); double t = v * s, ti = __builtin_trunc(t), fr = t - ti; unsigned long long q = (unsigned long long)ti; if (fr > 0.5 || (fr == 0.5 && (q & 1))) q++;
      char tmp[24]; for (int i = prec - 1; i >= 0; i--) { tmp[i] = (char)('0' + q % 10); q /= 10; }
      env_putc(d, n, p, (char)('0' + q)); env_putc(d, n, p, '.'); for (int i = 0; i < prec; i++) env_putc(d, n, p, tmp[i]); continue; }
    vf_check(false, "env_snprintf_unsupported_conversion");
  }
  if (n) d[p < n ? p : n - 1] = 0; return (int)p; }
in_addr_t __wrap_inet_addr(const char *s) { unsigned long r = 0; for (int i = 0; i < 4; i++) { if (!(*s >= '0' && *s <= '9')) return INADDR_NONE; unsigned v = 0; while (*s >= '0' && *s <= '9') { v = v * 10 + (*s++ - '0'); if (v > 255) return INADDR_NONE; } r |= (unsigned long)v << (8 * i); if (i < 3) { if (*s != '.') return INADDR_NONE; s++; } } if (*s) return INADDR_NONE; return (in_addr_t)r; }
uint16_t __wrap_htons(uint16_t x) { return (uint16_t)((x >> 8) | (x << 8)); }
char *__wrap_inet_ntoa(struct in_addr) { return (char *)"0.0.0.0"; }
const char *__wrap_inet_ntop(int, const void *, char *b, socklen_t) { b[0] = 0; return b; }
void __wrap__ZSt21__glibcxx_assert_failPKciS0_S0_(const char *, int, const char *, const char *) { vf_check(false, "standard_library_precondition"); vf_end(); }
struct EnvNode { EnvNode *next, *prev; };
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(EnvNode *t, EnvNode *pos) { t->next = pos; t->prev = pos->prev; pos->prev->next = t; pos->prev = t; }
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(EnvNode *t) { t->prev->next = t->next; t->next->prev = t->prev; }
struct EnvRb { int color; EnvRb *p, *l, *r; }; // std::map and std::set without rebalancing: same order, same contents
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, EnvRb *x, EnvRb *p, EnvRb *h) { x->p = p; x->l = x->r = nullptr; if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; } else { p->r = x; if (p == h->r) h->r = x; } }
EnvRb *__wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(EnvRb *x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } EnvRb *y = x->p; while (x == y->r) { x = y; y = y->p; } return x->r != y ? y : x; }
const EnvRb *__wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const EnvRb *x) { return __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base((EnvRb *)x); }
EnvRb *__wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(EnvRb *x) { if (x->l) { x = x->l; while (x->r) x = x->r; return x; } EnvRb *y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
void __wrap__ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(std::string *ret, const void *) { new (ret) std::string(); }
}
#endif

// gcvt(…,16): contract: a NUL-terminated text of at most 23 characters without spaces
static char env_gcvt_text[24]; static int env_gcvt_len, env_gcvt_digits; static double env_gcvt_arg;
extern "C" char *__wrap_gcvt(double x, int nd, char *b) { env_gcvt_arg = x; env_gcvt_digits = nd; int k = (int)vf_concretize((uint64_t)vf_range("gcvt_len", 1, 23)); env_gcvt_len = k; for (int i = 0; i < 23; i++) { char c = (char)vf_sym("gcvt_ch", 8); vf_assume(c != 0 && c != '\n'); env_gcvt_text[i] = c; if (i < k) b[i] = c; } b[k] = 0; return b; }
// ------------------------------------------------------------------ clock and time zone
// The zone is a parameter: offset env_off0 before env_switch, env_off1 from it on (one transition covers the window of a run).
static long env_off0 = 0, env_off1 = 0; static time_t env_switch = 0; static bool env_zone = false;
static int env_nmktime;
struct EnvDay { int y, m, d; };
static void env_civil(long z, int &yy, int &mm, int &dd) { // days since 1970-01-01 (z >= 0)
  z += 719468; long era = z / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int y = (int)yoe + (int)era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; dd = (int)(doy - (153 * mp + 2) / 5 + 1); mm = (int)(mp < 10 ? mp + 3 : mp - 9); yy = y + (mm <= 2); }
static long env_days(int y, int m, int d) { y -= m <= 2; long era = y / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153u * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
static long env_offset(time_t t) { return (!env_zone || t < env_switch) ? env_off0 : env_off1; }
// a harness may narrow the calendar to a fixed base day (env_base_day) plus small day numbers; the date then comes from a table
static long env_base_day = -1; static int env_base_n; static EnvDay env_base_tab[8];
static void env_set_base(long day, int n) { env_base_day = day; env_base_n = n; for (int i = 0; i < n; i++) env_civil(day + i, env_base_tab[i].y, env_base_tab[i].m, env_base_tab[i].d); }
// a harness may register moments together with their calendar fields: no arithmetic is needed for exactly these moments
struct EnvMoment { time_t t; int y, mo, d, h, mi, s; }; static EnvMoment env_moments[4]; static int env_nmoments, env_nlocal;
extern "C" {
time_t __wrap_time(time_t *p) { if (p) *p = env_now; return env_now; }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = env_now; tv->tv_usec = env_usec; return 0; }
struct tm *__wrap_localtime_r(const time_t *t, struct tm *o) {
  env_nlocal++; for (int i = 0; i < env_nmoments; i++) if (env_moments[i].t == *t) { const EnvMoment &m = env_moments[i]; o->tm_year = m.y - 1900; o->tm_mon = m.mo - 1; o->tm_mday = m.d; o->tm_hour = m.h; o->tm_min = m.mi; o->tm_sec = m.s; o->tm_wday = 0; o->tm_yday = 0; o->tm_isdst = env_zone && *t >= env_switch; o->tm_gmtoff = env_offset(*t); o->tm_zone = ""; return o; }
  long l = (long)*t + env_offset(*t);
  if (env_base_day >= 0) { long s = l - env_base_day * 86400L; vf_assume(s >= 0 && s < env_base_n * 86400L); unsigned us = (unsigned)s; unsigned dd = us / 86400u, r = us % 86400u; o->tm_hour = (int)(r / 3600u); o->tm_min = (int)(r % 3600u / 60u); o->tm_sec = (int)(r % 60u); o->tm_year = env_base_tab[dd].y - 1900; o->tm_mon = env_base_tab[dd].m - 1; o->tm_mday = env_base_tab[dd].d; }
  else { long d = l / 86400, r = l % 86400; o->tm_hour = (int)(r / 3600); o->tm_min = (int)(r % 3600 / 60); o->tm_sec = (int)(r % 60); int y, m, dd; env_civil(d, y, m, dd); o->tm_year = y - 1900; o->tm_mon = m - 1; o->tm_mday = dd; }
  o->tm_wday = 0; o->tm_yday = 0; o->tm_isdst = env_zone && *t >= env_switch; o->tm_gmtoff = env_offset(*t); o->tm_zone = ""; return o; }
struct tm *__wrap_localtime(const time_t *t) { static struct tm b; return __wrap_localtime_r(t, &b); }
time_t __wrap_mktime(struct tm *t) { // glibc: the zone rule named by tm_isdst is preferred, then the other
  env_nmktime++; long days = -1;
  if (env_base_day >= 0) { for (int k = 0; k < 2 && days < 0; k++) for (int i = 0; i < env_base_n; i++) if (t->tm_year + 1900 == env_base_tab[i].y && t->tm_mon + 1 == env_base_tab[i].m && t->tm_mday - k == env_base_tab[i].d) days = env_base_day + i + k; vf_assume(days >= 0); }
  else days = env_days(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday);
  long l = days * 86400 + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
  time_t a = l - env_off0, b = l - env_off1, r; bool dst;
  bool aok = !env_zone || a < env_switch, bok = env_zone && b >= env_switch;
  if (t->tm_isdst > 0) dst = bok || !aok; else if (t->tm_isdst == 0) dst = !aok && bok; else dst = !aok && bok;
  // a tm_isdst that contradicts the zone in force at that moment shifts the result (the requested offset is used)
  if (t->tm_isdst > 0 && !bok) r = b; else if (t->tm_isdst == 0 && !aok && env_zone) r = a; else r = dst ? b : a;
  return r; }
}
// ------------------------------------------------------------------ files
static int env_find(const char *p) { for (int i = 0; i < ENV_FILES; i++) if (env_files[i].used && strcmp(env_files[i].path, p) == 0) return i; return -1; }
static int env_mkfile(const char *p) { for (int i = 0; i < ENV_FILES; i++) if (!env_files[i].used) { EnvFile &f = env_files[i]; size_t n = strlen(p); vf_check(n < ENV_PATH, "env_path_too_long"); memcpy(f.path, p, n + 1); f.used = true; f.dir = false; f.size = 0; f.gen = ++env_gen; f.mtime = 0; f.text = nullptr; f.text_len = 0; return i; } vf_check(false, "env_too_many_files"); return 0; }
static int env_text_file(const char *p, const char *text, long len, time_t mtime) { int i = env_find(p); if (i < 0) i = env_mkfile(p); env_files[i].text = text; env_files[i].text_len = env_files[i].size = len; env_files[i].mtime = mtime; return i; }
extern "C" {
FILE *__wrap_fopen(const char *p, const char *mode) {
  int fi = -1;
  if (p[0] == '/' && p[1] == 'p' && p[2] == 'r' && p[3] == 'o' && p[4] == 'c') { fi = env_find("/proc"); if (fi < 0) { fi = env_mkfile("/proc"); env_files[fi].text = env_cmdline; env_files[fi].text_len = env_files[fi].size = env_cmdline_len; } }
  else { if (env_fopen_fails && mode[0] != 'r') return nullptr; fi = env_find(p); if (fi < 0) { if (mode[0] == 'r') return nullptr; fi = env_mkfile(p); } else if (mode[0] == 'w') env_files[fi].size = 0; }
  for (int i = 0; i < ENV_HANDLES; i++) if (!env_handles[i].open) { EnvHandle &h = env_handles[i]; h.open = true; h.file = fi; h.pos = 0; h.wr = mode[0] != 'r'; h.buffered = false; env_nopen++; return (FILE *)&h; }
  vf_check(false, "env_too_many_open_files"); return nullptr; }
static EnvHandle *env_h(FILE *f) { EnvHandle *h = (EnvHandle *)f; vf_check(h >= env_handles && h < env_handles + ENV_HANDLES && h->open, "file_handle_valid"); return h; }
int __wrap_fclose(FILE *f) { if (env_on_flush) env_on_flush(env_files[env_h(f)->file].path); env_h(f)->open = false; env_nclose++; return 0; }
size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f) {
  EnvHandle *h = env_h(f); EnvFile &ef = env_files[h->file]; if (env_fwrite_short) return 0; vf_check(env_nwrites < ENV_EVENTS, "env_too_many_writes");
  EnvWrite &w = env_writes[env_nwrites++]; w.gen = ef.gen; w.ptr = (const char *)p; w.len = (long)(a * n); for (int i = 0; i < 4; i++) w.head[i] = (size_t)i < a * n ? ((const char *)p)[i] : 0; ef.size += (long)(a * n); ef.mtime = env_file_touch; h->buffered = true; if (env_on_write) env_on_write(ef.path, (const char *)p, (long)(a * n)); return n; }
size_t __wrap_fread(void *p, size_t a, size_t n, FILE *f) { EnvHandle *h = env_h(f); EnvFile &ef = env_files[h->file]; size_t left = ef.text ? (size_t)(ef.text_len - h->pos) : 0; size_t k = a * n < left ? a * n : left; if (k) memcpy(p, ef.text + h->pos, k); h->pos += (long)k; return k; }
char *__wrap_fgets(char *b, int n, FILE *f) { EnvHandle *h = env_h(f); EnvFile &ef = env_files[h->file]; int k = 0; while (k < n - 1 && h->pos < ef.text_len) { b[k++] = ef.text[h->pos++]; if (b[k - 1] == '\n') break; } b[k] = 0; return k ? b : nullptr; }
int __wrap_fflush(FILE *f) { env_nflush++; for (int i = 0; i < ENV_HANDLES; i++) if (env_handles[i].open && (!f || f == (FILE *)&env_handles[i])) { env_handles[i].buffered = false; if (env_on_flush) env_on_flush(env_files[env_handles[i].file].path); } return 0; }
int __wrap_fileno(FILE *f) { return 100 + (int)(env_h(f) - env_handles); }
int __wrap_fsync(int) { return 0; }
int __wrap_posix_fadvise(int, off_t, off_t, int) { return 0; }
int __wrap_fstat(int fd, struct stat *st) { memset(st, 0, sizeof(*st)); EnvFile &ef = env_files[env_handles[fd - 100].file]; st->st_size = ef.size; st->st_mtime = ef.mtime; return 0; }
DIR *__wrap_opendir(const char *p) { if (env_dirs_exist) return (DIR *)env_files; size_t n = strlen(p); for (int i = 0; i < ENV_FILES; i++) if (env_files[i].used && env_files[i].dir) { size_t m = strlen(env_files[i].path); if (strcmp(env_files[i].path, p) == 0 || (n == m + 1 && p[n - 1] == '/' && memcmp(p, env_files[i].path, m) == 0)) return (DIR *)env_files; } return nullptr; }
int __wrap_closedir(DIR *) { return 0; }
int __wrap_mkdir(const char *p, mode_t) { if (env_nmkdir < 8) { int k = 0; while (k < 31 && p[k]) { env_mkdirs[env_nmkdir][k] = p[k]; k++; } env_mkdirs[env_nmkdir][k] = 0; } env_nmkdir++; if (env_mkdir_fails) return -1; int i = env_mkfile(p); env_files[i].dir = true; return 0; }
int __wrap_access(const char *p, int) { return env_find(p) >= 0 ? 0 : -1; }
int __wrap_remove(const char *p) { int i = env_find(p); env_nremove++; if (i < 0) return -1; env_files[i].used = false; return 0; }
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
int __wrap_rename(const char *a, const char *b) { env_nrename++; int i = env_find(a); if (i < 0) return -1; int j = env_find(b); if (j >= 0 && j != i) env_files[j].used = false; size_t n = strlen(b); vf_check(n < ENV_PATH, "env_path_too_long"); memcpy(env_files[i].path, b, n + 1); return 0; }
pid_t __wrap_getpid() { return 4321; }
long __wrap_syscall(long, ...) { return env_tid + vf_tid(); }
}
// ------------------------------------------------------------------ sockets
struct EnvSock { bool open; bool bound; int fl; };
struct EnvPkt { int fd; unsigned ip; unsigned short port; const char *ptr; long len; char head[4]; };
static EnvSock env_socks[8]; static EnvPkt env_sent[16]; static int env_nsent, env_nsocket, env_nbind; static bool env_socket_fails, env_send_fails, env_bind_fails;
static int (*env_recv)(char *, int); static unsigned env_bind_ip; static unsigned short env_bind_port;
extern "C" {
int __wrap_socket(int, int, int) { env_nsocket++; if (env_socket_fails) return -1; for (int i = 0; i < 8; i++) if (!env_socks[i].open) { env_socks[i].open = true; env_socks[i].bound = false; return 50 + i; } vf_check(false, "socket_leak"); return -1; }
int __wrap_fcntl(int, int, ...) { return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) { env_nbind++; if (env_bind_fails) return -1; env_bind_ip = ((const sockaddr_in *)a)->sin_addr.s_addr; env_bind_port = ((const sockaddr_in *)a)->sin_port; env_socks[fd - 50].bound = true; return 0; }
int __wrap_close(int fd) { vf_check(fd >= 50 && fd < 58 && env_socks[fd - 50].open, "socket_valid_on_close"); env_socks[fd - 50].open = false; return 0; }
ssize_t __wrap_sendto(int fd, const void *p, size_t n, int, const struct sockaddr *a, socklen_t) { vf_check(fd >= 50 && fd < 58 && env_socks[fd - 50].open, "socket_valid_on_send"); if (env_send_fails) return -1; vf_check(env_nsent < 16, "env_too_many_packets"); EnvPkt &k = env_sent[env_nsent++]; k.fd = fd; k.ip = ((const sockaddr_in *)a)->sin_addr.s_addr; k.port = ((const sockaddr_in *)a)->sin_port; k.ptr = (const char *)p; k.len = (long)n; for (int i = 0; i < 4; i++) k.head[i] = (size_t)i < n ? ((const char *)p)[i] : 0; if (env_on_send) env_on_send(k.ip, k.port, k.ptr, k.len); return (ssize_t)n; }
ssize_t __wrap_recvfrom(int, void *p, size_t n, int, struct sockaddr *, socklen_t *) { return env_recv ? env_recv((char *)p, (int)n) : -1; }
struct hostent *__wrap_gethostbyname(const char *) { return nullptr; }
int __wrap_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **) { return -1; }
}
// ------------------------------------------------------------------ shared memory
static void *env_shm_mem; static size_t env_shm_size; static bool env_shm_exists; static int env_shm_attached, env_nshm_calls; static long env_shm_key;
extern "C" {
int __wrap_shmget(key_t k, size_t n, int fl) { env_nshm_calls++; if (env_shm_exists && env_shm_key == k) { if ((fl & IPC_EXCL)) { errno = EEXIST; return -1; } return 77; } if (!(fl & IPC_CREAT)) { errno = ENOENT; return -1; } env_shm_exists = true; env_shm_key = k; env_shm_size = n; env_shm_mem = calloc(1, n); return 77; }
void *__wrap_shmat(int id, const void *, int) { if (id != 77 || !env_shm_exists) return (void *)-1; env_shm_attached++; return env_shm_mem; }
int __wrap_shmdt(const void *p) { vf_check(env_shm_exists && p == env_shm_mem, "shared_memory_released_as_attached"); env_shm_attached--; return 0; }
int __wrap_shmctl(int id, int, struct shmid_ds *) { vf_check(env_shm_exists && id == 77, "shared_memory_released_as_attached"); env_shm_exists = false; return 0; }
}
// ------------------------------------------------------------------ screen
struct EnvScreen { const char *text; const char *color; }; static EnvScreen env_screen[ENV_EVENTS]; static int env_nscreen; static bool env_screen_capture;
// ------------------------------------------------------------------ locks, threads, sleeping
static int env_threaded; // harness threads are running
static int env_mutex_ops; static int env_nsleep, env_early_wake; // so many sleeps end before anything has changed
static void (*env_on_sleep)();
struct EnvState { virtual ~EnvState() {} virtual void run() = 0; }; // layout of std::thread::_State
struct EnvThread { bool started, done; EnvState *st; }; static EnvThread env_threads[6]; static int env_nthreads; static bool env_thread_daemon = true;
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { // owner in the first word, depth in the second; recursive when the kind says so
  volatile int *w = (volatile int *)m; env_mutex_ops++; int me = vf_tid() + 1;
  if (w[0] == me) { vf_check(((int *)m)[4] == 1, "no_self_deadlock"); w[1]++; return 0; }
  if (!env_threaded) { vf_check(w[0] == 0, "no_deadlock"); w[0] = me; return 0; }
  while (!__sync_bool_compare_and_swap((int *)m, 0, me)) vf_wait();
  return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { volatile int *w = (volatile int *)m; vf_check(w[0] == vf_tid() + 1, "unlock_by_owner"); if (w[1] > 0) { w[1]--; return 0; } w[0] = 0; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { volatile int *w = (volatile int *)m; int me = vf_tid() + 1; if (w[0] == me && ((int *)m)[4] == 1) { w[1]++; return 0; } if (w[0] == 0 && __sync_bool_compare_and_swap((int *)m, 0, me)) return 0; return EBUSY; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { env_nsleep++; if (env_on_sleep) env_on_sleep(); if (env_threaded) { if (env_early_wake > 0 && vf_tid() == 1) env_early_wake--; else vf_wait(); } return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return __wrap_nanosleep(nullptr, nullptr); }
int __wrap_usleep(useconds_t) { return __wrap_nanosleep(nullptr, nullptr); }
static void env_thread_main(void *a) { EnvThread *t = (EnvThread *)a; t->st->run(); *(volatile bool *)&t->done = true; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *self, void **st, void (*)()) {
  vf_check(env_nthreads < 6, "env_too_many_threads"); EnvThread &t = env_threads[env_nthreads++]; t.started = true; t.done = false; t.st = (EnvState *)*st; *st = nullptr; *(unsigned long *)self = (unsigned long)env_nthreads; vf_visible((const void *)&t.done, 1);
  vf_thread(env_thread_main, &t, env_thread_daemon); }
void __wrap__ZNSt6thread4joinEv(std::thread *self) { unsigned long id = *(unsigned long *)self; vf_check(id >= 1 && id <= 6, "join_valid"); if (env_threaded) while (!*(volatile bool *)&env_threads[id - 1].done) vf_wait(); *(unsigned long *)self = 0; }
void __wrap__ZNSt6thread6_StateD2Ev(void *) {}
int __wrap_printf(const char *fmt, ...) { 
  if (env_screen_capture && env_nscreen < ENV_EVENTS) {
#ifdef VF_ENGINE
    int n = 0; for (const char *p = fmt; *p; p++) if (p[0] == '%' && p[1] == 's') n++; bool two = n >= 2; if (n) { env_screen[env_nscreen].color = two ? (const char *)vf_va(0) : ""; env_screen[env_nscreen].text = two ? (const char *)vf_va(1) : (const char *)vf_va(0); env_nscreen++; if (env_on_print) env_on_print(env_screen[env_nscreen - 1].color, env_screen[env_nscreen - 1].text); }
#else
    int n = 0; for (const char *p = fmt; *p; p++) if (p[0] == '%' && p[1] == 's') n++; bool two = n >= 2; if (n) { va_list ap; va_start(ap, fmt); const char *a = va_arg(ap, const char *), *b = two ? va_arg(ap, const char *) : a; va_end(ap); env_screen[env_nscreen].color = two ? a : ""; env_screen[env_nscreen].text = b; env_nscreen++; if (env_on_print) env_on_print(env_screen[env_nscreen - 1].color, env_screen[env_nscreen - 1].text); }
#endif
  } return 0; }
int __wrap_puts(const char *) { return 0; }
}
