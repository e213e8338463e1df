#include "common.h"
// C13: formatted timestamps.  A moment is drawn as local calendar fields plus the side of the offset change it lies on, so the
// expected text needs no calendar arithmetic; the environment's localtime_r answers exactly these moments from the drawn fields.
#ifndef NM
#define NM 2
#endif
#ifndef ND
#define ND 3
#endif
static EnvMoment M[4]; static int pre[4], cur; static bool drawn_ms;
static int dig(int v, int k) { while (k--) v /= 10; return '0' + v % 10; }
static void on_write(const char *, const char *p, long len) { if (cur < NM - 1) return; // the earlier moments only shape what the thread remembers
  const EnvMoment &m = M[cur]; vf_check(len >= 24, "timestamp_length"); vf_check(p[0] == '[' && p[9] == ' ' && p[12] == ':' && p[15] == ':' && p[18] == '.' && p[22] == ']', "timestamp_layout");
  vf_check(p[1] == dig(m.y, 3) && p[2] == dig(m.y, 2) && p[3] == dig(m.y, 1) && p[4] == dig(m.y, 0), "year"); vf_check(p[5] == dig(m.mo, 1) && p[6] == dig(m.mo, 0), "month"); vf_check(p[7] == dig(m.d, 1) && p[8] == dig(m.d, 0), "day");
  vf_check(p[10] == dig(m.h, 1) & p[11] == dig(m.h, 0), "hour"); vf_check(p[13] == dig(m.mi, 1) & p[14] == dig(m.mi, 0), "minute"); vf_check(p[16] == dig(m.s, 1) & p[17] == dig(m.s, 0), "second");
  int ms = pre[cur]; vf_check(p[19] == dig(ms, 2) & p[20] == dig(ms, 1) & p[21] == dig(ms, 0), "millisecond"); vf_observe("c", p[17]); }
static void warm() { vf_start(VF_SYNC1); { LogStream s = vf_stream(); s << "w"; } vf_check(env_nwrites == 1, "warm"); env_nwrites = 0; env_on_write = on_write; } // the file is open before the zone is chosen
#ifndef BASE
#define BASE env_days(2020, 2, 28)
#endif
// Time is counted in minutes: a moment is base day + tm minutes + s seconds, its local minute is tm + offset.  Every moment after the
// first lies in the minute of an earlier one, or some minutes after or before the previous one (the three cases are exhaustive).
static void draw(bool zone, bool utc = false, bool near = false) { warm(); env_set_base(BASE - 1, ND + 2); // zone: one change of the offset at some full minute
  env_zone = zone; static const int P[4][2] = {{0, 60}, {60, 0}, {-300, -240}, {330, 330}}, S[6] = {0, 700, 1439, 1505, 1559, 2500}; int pi = near ? (int)vf_concretize((uint64_t)vf_range("pair", 0, 3)) : 0, si = near ? (int)vf_concretize((uint64_t)vf_range("start", 0, 5)) : 0;
  int o0 = near ? P[pi][0] : utc ? 0 : (int)vf_range("off0", -14 * 60, 14 * 60), o1 = near ? P[pi][1] : zone ? (int)vf_range("off1", -14 * 60, 14 * 60) : o0; env_off0 = o0 * 60L; env_off1 = o1 * 60L;
  long base = BASE * 86400L; int sw = near ? 1560 : zone ? (int)vf_range("switch", 0, ND * 1440) : 0; if (zone) env_switch = base + 60L * sw;
  int tm[4]; long mt[4]; bool lt[4];
  for (int i = 0; i < NM; i++) { EnvMoment &m = M[i]; int how = i ? (int)vf_concretize((uint64_t)vf_range("how", 0, 1 + i)) : 0; int sec = (int)vf_range("s", 0, 59);
    if (how >= 2) { int j = how - 2; vf_cover("same_minute"); lt[i] = lt[j]; m = M[j]; tm[i] = tm[j]; mt[i] = mt[j]; }
    else {
      if (i == 0) { tm[0] = near ? S[si] + 840 : (int)vf_range("minute", 0, ND * 1440 + 1680); mt[0] = base - 840 * 60 + 60L * tm[0]; tm[0] -= 840; } else { int delta = (int)vf_range("delta", 1, near ? 511 : ND * 1440 + 1680); tm[i] = how ? tm[i - 1] + delta : tm[i - 1] - delta; mt[i] = how ? mt[i - 1] + 60L * delta : mt[i - 1] - 60L * delta; }
      int d = (int)vf_concretize((uint64_t)vf_range("day", 0, ND - 1)); m.h = (int)vf_range("h", 0, 23); m.mi = (int)vf_range("m", 0, 59); const EnvDay &D = env_base_tab[d + 1]; m.y = D.y; m.mo = D.m; m.d = D.d;
      bool late = zone && vf_concretize((uint64_t)vf_range("late", 0, 1)); lt[i] = late; if (i && lt[i - 1] != late) vf_cover("across_the_change"); if (i && !how) vf_cover("backwards"); if (zone) vf_assume((tm[i] >= sw) == late); vf_assume(d * 1440 + m.h * 60 + m.mi == tm[i] + (late ? o1 : o0)); }
    m.s = sec; m.t = mt[i] + sec; env_moments[env_nmoments++] = m; } }
static void moments(bool zone, bool near = false) {
  draw(zone, false, near); for (int i = 0; i < NM; i++) pre[i] = (int)vf_range("ms", 0, 999);
  
  for (cur = 0; cur < NM; cur++) { if (cur < NM - 1) vf_merge_open(); { LogStream s = vf_stream(); s << LogTimestamp(M[cur].t, pre[cur]); } if (cur < NM - 1) vf_merge_close(); } vf_check(env_nwrites == NM, "all_written");
}
ENTRY h_fixed() { moments(false); }
ENTRY h_zone() { moments(true); }
ENTRY h_near() { moments(true, true); } // a few fixed offsets and first moments, everything else as before
// the moment a record was created is shown by its prefix
ENTRY h_prefix() { draw(true); long us[4]; for (int i = 0; i < NM; i++) { us[i] = vf_range("us", 0, 999999); pre[i] = (int)(us[i] / 1000); }
  
  for (cur = 0; cur < NM; cur++) { env_now = M[cur].t; env_usec = us[cur]; if (cur < NM - 1) vf_merge_open(); { LogStream s = vf_stream(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_TIMESTAMP); env_now = 0; env_usec = 0; s << "x"; } if (cur < NM - 1) vf_merge_close(); } vf_check(env_nwrites == NM, "all_written"); }
// milliseconds out of range never spoil the layout
ENTRY h_ms() { draw(false); int ms = (int)vf_sym("anyms", 32); cur = NM - 1; M[cur] = M[0];  pre[cur] = ms < 0 || ms > 999 ? 999 : ms;  { LogStream s = vf_stream(); s << LogTimestamp(M[cur].t, ms); } vf_check(env_nwrites == 1, "all_written"); }
// a moment given in milliseconds
ENTRY h_total() { draw(false, true); cur = NM - 1; M[cur] = M[0];  pre[cur] = (int)vf_range("ms", 0, 999);  { LogStream s = vf_stream(); s << LogTimestamp(M[cur].t * 1000LL + pre[cur]); } vf_check(env_nwrites == 1, "all_written"); }
// two threads format different moments at the same time
static int seen_;
static void on_write_t(const char *, const char *p, long len) { int i = (p[21] == '1'); const EnvMoment &m = M[i]; bool ok = len == 24; ok &= p[0] == '[' && p[9] == ' ' && p[12] == ':' && p[15] == ':' && p[18] == '.' && p[22] == ']'; ok &= (p[1] == dig(m.y, 3)) & (p[2] == dig(m.y, 2)) & (p[3] == dig(m.y, 1)) & (p[4] == dig(m.y, 0)) & (p[5] == dig(m.mo, 1)) & (p[6] == dig(m.mo, 0)) & (p[7] == dig(m.d, 1)) & (p[8] == dig(m.d, 0)); ok &= (p[10] == dig(m.h, 1)) & (p[11] == dig(m.h, 0)) & (p[13] == dig(m.mi, 1)) & (p[14] == dig(m.mi, 0)) & (p[16] == dig(m.s, 1)) & (p[17] == dig(m.s, 0)) & (p[19] == '0') & (p[20] == '0'); vf_check(ok, "own_moment_shown"); vf_check(!(seen_ & (1 << i)), "all_written"); seen_ |= 1 << i; }
static void one(void *a) { int i = (int)(long)a; LogStream s = vf_stream(); s << LogTimestamp(M[i].t, i); }
static void both(void *) { vf_thread(one, (void *)1L, 0); vf_yield(); one(nullptr); }
ENTRY h_threads() { warm(); env_on_write = on_write_t; env_set_base(BASE - 1, ND + 2); env_zone = false; env_off0 = env_off1 = 0; for (int i = 0; i < 2; i++) { EnvMoment &m = M[i]; const EnvDay &D = env_base_tab[1 + i]; m.y = D.y; m.mo = D.m; m.d = D.d; m.h = 7 + 6 * i; m.mi = 11 + 30 * i; m.s = (int)vf_range("s", 0, 59); m.t = (BASE + i) * 86400L + m.h * 3600L + m.mi * 60L + m.s; env_moments[env_nmoments++] = m; }
  Channel &c = vf_logger().shm_->channels_[0]; vf_invisible(&c.channel_log_fields_, sizeof c.channel_log_fields_ + sizeof c.device_log_fields_); env_threaded = 1; vf_thread(both, nullptr, 0); vf_run_threads(); vf_check(seen_ == 3, "all_written"); vf_cover("end"); }
