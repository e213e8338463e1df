#include "common.h"
// C20: daily and hourly files.  Moments are drawn as local calendar fields plus the side of the clock change they lie on (as in C13).
#ifndef NM
#define NM 2
#endif
#ifndef NO
#define NO 2
#endif
#ifndef ND
#define ND 3
#endif
#ifndef BASE
#define BASE env_days(2020, 2, 28)
#endif
static EnvMoment M[4]; static bool late_[4]; static int day_[4], cur; static bool hourly;
static int dig(int v, int k) { while (k--) v /= 10; return '0' + v % 10; }
static void on_write(const char *path, const char *p, long len) { const EnvMoment &m = M[cur]; vf_check(len == 2 && p[0] == 'A' + cur, "record_written"); bool ok = path[0] == 'f'; ok &= (path[1] == dig(m.mo, 1)) & (path[2] == dig(m.mo, 0)) & (path[3] == dig(m.d, 1)) & (path[4] == dig(m.d, 0)); vf_check(ok, "file_of_the_day"); if (hourly) vf_check((path[5] == dig(m.h, 1)) & (path[6] == dig(m.h, 0)), "file_of_the_hour"); vf_observe("c", p[0]); }
enum { FIXED, CHANGE };
static void draw(int kind) { bool zone = kind == CHANGE; env_set_base(BASE - 1, ND + 3); env_zone = zone; long base = BASE * 86400L;
  static const int DF[4] = {60, -60, 30, -30}, O[5] = {0, -210, 765, 330, -600}, SH[5] = {2, 22, 1, 3, 12}; int diff = zone ? DF[vf_concretize((uint64_t)vf_range("difference", 0, hourly ? 1 : 3))] : 0;
  int o0 = zone ? O[vf_concretize((uint64_t)vf_range("offset", 0, NO - 1))] : (int)vf_range("off0", -14 * 60, 14 * 60), o1 = o0 + diff; env_off0 = o0 * 60L; env_off1 = env_off0 + diff * 60L;
  if (zone) { int swd = (int)vf_concretize((uint64_t)vf_range("switch_day", 0, ND - 1)), swh = SH[vf_concretize((uint64_t)vf_range("switch_hour", 0, NO - 1))]; env_switch = base + swd * 86400L + swh * 3600L - env_off0; }
  for (int i = 0; i < NM; i++) { EnvMoment &m = M[i]; int sec = (int)vf_range("s", 0, 59), d = (int)vf_concretize((uint64_t)vf_range("day", 0, ND - 1)); m.h = (int)vf_range("h", 0, 23); m.mi = (int)vf_range("m", 0, 59); const EnvDay &D = env_base_tab[d + 1]; m.y = D.y; m.mo = D.m; m.d = D.d; day_[i] = d; bool late = zone && vf_concretize((uint64_t)vf_range("late", 0, 1)); late_[i] = late; m.s = sec; m.t = base + d * 86400L + m.h * 3600L + m.mi * 60L + sec - (late ? env_off1 : env_off0); if (zone) vf_assume((m.t >= env_switch) == late); env_moments[env_nmoments++] = m; } }
static void run(const char *roll, const char *extra = "") { static char t[400]; int n = 0; auto add = [&](const char *s) { while (*s) t[n++] = *s++; t[n] = 0; }; add("- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"f$MON$DAY$HOUR\"\n    "); add(roll); add(extra); vf_start(t); env_on_write = on_write;
  for (cur = 0; cur < NM; cur++) { int opened = env_nopen, closed = env_nclose; env_now = M[cur].t; { LogStream s = vf_stream(); env_now = M[cur].t + 7; s << (char)('A' + cur); } vf_check(env_nwrites == cur + 1, "record_written"); vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP) <= M[cur].t || cur, "opened_with_the_record");
    if (cur) { const EnvMoment &a = M[cur - 1], &b = M[cur]; bool same = day_[cur - 1] == day_[cur]; if (hourly && same) same = (a.h == b.h) & (late_[cur - 1] == late_[cur]); int o = env_nopen - opened, c = env_nclose - closed; vf_check((o == (same ? 0 : 1)) & (c == (same ? 0 : 1)), "new_file_exactly_with_a_new_period"); if (day_[cur - 1] == day_[cur]) vf_cover("same_day"); else vf_cover(day_[cur - 1] < day_[cur] ? "next_day" : "earlier_day"); } } }
// hourly: two records in one hour of the clock on different sides of a change may or may not share a file, which has one name anyway
ENTRY h_daily() { draw(FIXED); run("rolldaily: true\n"); }
ENTRY h_hourly() { hourly = true; draw(FIXED); run("rollhourly: true\n"); }
ENTRY h_daily_change() { draw(CHANGE); run("rolldaily: true\n"); }
ENTRY h_hourly_change() { hourly = true; draw(CHANGE); run("rollhourly: true\n"); }
ENTRY h_daily_limit() { draw(FIXED); run("rolldaily: true\n", "    limit_size: 1\n    rollback: 3\n    stuff_up: true\n"); }
