#include "common.h"
// C18: names of opened files.  A pattern is put together from placeholders, parts of placeholders and other characters; the expected
// name is written by an independent left-to-right scan of the configured text.
#ifndef K
#define K 2
#endif
static const char *P[] = {"$PNAME", "$PID", "$YEAR", "$MON", "$DAY", "$HOUR", "$MIN", "$SEC", "%F", "$", "%", "$P", "$M", "NAME", "IN", "F", "a", "$YEA", "$D", "AY", "\\", "/", "b/"};
static EnvMoment m; static char pat[64], fil[64], e[400]; static int pn, fn, en; static const char *prog = "vfprog"; static int progn = 6; static char ecur[400]; static int ecurn; static bool written; static const char *rec = "x\n"; static long path_len = -1;
static void add(char *t, int &n, const char *s) { while (*s) t[n++] = *s++; t[n] = 0; }
static void num(int v, int w) { int d = 1; for (int i = 1; i < w; i++) d *= 10; for (; d; d /= 10) e[en++] = (char)('0' + v / d % 10); }
static bool at(const char *s, const char *k) { while (*k) if (*s++ != *k++) return false; return true; }
static void expect(const char *s) { for (; *s;) { if (at(s, "%F")) { num(m.y, 4); e[en++] = '-'; num(m.mo, 2); e[en++] = '-'; num(m.d, 2); s += 2; } else if (at(s, "$PNAME")) { for (int i = 0; i < progn; i++) e[en++] = prog[i]; s += 6; } else if (at(s, "$PID")) { num(4321, 6); s += 4; } else if (at(s, "$YEAR")) { num(m.y, 4); s += 5; } else if (at(s, "$MON")) { num(m.mo, 2); s += 4; } else if (at(s, "$MIN")) { num(m.mi, 2); s += 4; } else if (at(s, "$DAY")) { num(m.d, 2); s += 4; } else if (at(s, "$HOUR")) { num(m.h, 2); s += 5; } else if (at(s, "$SEC")) { num(m.s, 2); s += 4; } else e[en++] = *s++; } }
static void on_write(const char *path, const char *p, long len) { vf_check(!written, "one_file"); written = true; if (path_len >= 0) { bool ok = true; for (long i = 0; i < path_len; i++) ok &= path[i] != 0; vf_check(ok && path[path_len] == 0, "file_name"); vf_observe("c", path[0]); return; } bool ok = true; int i = 0; for (; i < en; i++) { ok &= path[i] == e[i]; } ok &= path[i] == 0; vf_check(ok, "file_name"); vf_check(len == 2 && p[0] == 'x', "record_written"); vf_observe("c", path[0]); }
// any second of six days at the ends of months and years, any offset of full minutes
static void moment() { static const int B[3][3] = {{2020, 2, 28}, {2020, 12, 30}, {2009, 9, 8}}; int b = (int)vf_concretize((uint64_t)vf_range("month", 0, 2)), d = (int)vf_concretize((uint64_t)vf_range("day", 0, 1)); long base = env_days(B[b][0], B[b][1], B[b][2]); env_set_base(base - 1, 4); m.y = env_base_tab[d + 1].y; m.mo = env_base_tab[d + 1].m; m.d = env_base_tab[d + 1].d; m.h = (int)vf_range("h", 0, 23); m.mi = (int)vf_range("m", 0, 59); m.s = (int)vf_range("s", 0, 59); int off = (int)vf_range("offset", -14 * 60, 14 * 60); env_off0 = env_off1 = off * 60L; m.t = (base + d) * 86400L + m.h * 3600L + m.mi * 60L + m.s - off * 60L; env_moments[env_nmoments++] = m; env_now = m.t; }
static char cfg[900]; static int cn;
static void line(const char *a, const char *v) { if (!*v) return; add(cfg, cn, "    "); add(cfg, cn, a); add(cfg, cn, ": \""); add(cfg, cn, v); add(cfg, cn, "\"\n"); }
static void go(int ch = 0, int dev = 0) { cn = 0; for (int c = 0; c <= ch; c++) { char t[2] = {(char)('0' + c), 0}; add(cfg, cn, "- channel: "); add(cfg, cn, t); add(cfg, cn, "\n  sync: sync\n"); for (int d = 0; d <= dev; d++) { t[0] = (char)('0' + d); add(cfg, cn, "  -device: "); add(cfg, cn, t); add(cfg, cn, "\n    out_type: file\n"); if (c == ch && d == dev) add(cfg, cn, "    disable: false\n"); else add(cfg, cn, "    disable: true\n"); line("path", pat); line("file", fil); } } vf_step_limit(600000, "naming_ends"); vf_start(cfg); env_on_write = on_write; { LogStream s = vf_stream(ch); env_now += 3600; s << "x"; } }
static void done() { vf_check(written, "record_written"); }
static int piece(int n, const char *id) { return (int)vf_concretize((uint64_t)vf_range(id, 0, n - 1)); }
ENTRY h_file() { moment(); for (int i = 0; i < K; i++) add(fil, fn, P[piece(20, "piece")]); expect(fil); add(e, en, ".log"); go(); done(); }
ENTRY h_path() { moment(); for (int i = 0; i < K; i++) add(pat, pn, P[piece(23, "piece")]); add(fil, fn, "f$MIN"); expect(pat); for (int i = 0; i < en; i++) if (e[i] == '\\') e[i] = '/'; if (e[en - 1] != '/') e[en++] = '/'; expect(fil); add(e, en, ".log"); go(); done(); }
ENTRY h_default() { moment(); int ch = (int)vf_concretize((uint64_t)vf_range("channel", 0, 1)), d = (int)vf_concretize((uint64_t)vf_range("device", 0, 2)); expect("$PNAME_$YEAR$MON$DAY_$PID."); e[en++] = (char)('0' + ch); e[en++] = (char)('0' + d); add(e, en, ".log"); go(ch, d); done(); }
#ifndef NREC
#define NREC 4
#endif
// arbitrary characters in front of and behind a placeholder
ENTRY h_chars() { moment(); char t[16] = {0}; vf_sym_bytes(t, NREC, "chars"); for (int i = 0; i < NREC; i++) { char c = t[i]; vf_assume((c == '$') | (c == 'D') | (c == 'A') | (c == 'Y') | (c == 'M') | (c == 'I') | (c == 'NREC') | (c == '%') | (c == 'F') | (c == '0')); } for (int i = 0; i < NREC; i++) fil[fn++] = t[i]; add(fil, fn, "DAY$M"); expect(fil); add(e, en, ".log"); go(); done(); }
// the program's own name may hold anything but a slash
ENTRY h_program() { moment(); static char cl[16] = "/a/"; static char t[8]; int n = (int)vf_concretize((uint64_t)vf_range("length", 1, 5)); vf_sym_bytes(t, (size_t)n, "program"); for (int i = 0; i < n; i++) { char c = t[i]; vf_assume((c == '$') | (c == '%') | (c == 'F') | (c == 'D') | (c == 'A') | (c == 'Y') | (c == '0')); cl[3 + i] = c; } env_cmdline = cl; env_cmdline_len = 3 + n; prog = t; progn = n; add(fil, fn, "p$PNAME"); expect(fil); add(fil, fn, ".$DAY"); expect(".$DAY"); add(e, en, ".log"); go(); done(); }
ENTRY h_program_hang() { moment(); env_cmdline = "/a/$PNAME"; env_cmdline_len = 9; prog = "$PNAME"; progn = 6; add(fil, fn, "$PNAME"); expect(fil); add(e, en, ".log"); go(); done(); }
// missing directories are made one level after the other before the file is opened
ENTRY h_dirs() { moment(); env_dirs_exist = false; int lv = (int)vf_concretize((uint64_t)vf_range("levels", 1, 4)), abs = (int)vf_concretize((uint64_t)vf_range("absolute", 0, 1)), have = (int)vf_concretize((uint64_t)vf_range("present", 0, 4)); vf_assume(have <= lv); if (abs) add(pat, pn, "/"); static char want[5][32]; for (int i = 0; i < lv; i++) { if (i) add(pat, pn, i & 1 ? "/" : "\\"); add(pat, pn, i == 1 ? "$DAY" : "d"); en = 0; expect(pat); for (int j = 0; j < en; j++) if (e[j] == '\\') e[j] = '/'; for (int j = 0; j < en; j++) want[i][j] = e[j]; want[i][en] = 0; }
  for (int i = 0; i < have; i++) { int k = env_mkfile(want[i]); env_files[k].dir = true; } e[en++] = '/'; add(fil, fn, "f"); expect(fil); add(e, en, ".log"); go(); done(); vf_check(env_nmkdir == lv - have, "missing_directories_made"); for (int i = have; i < lv; i++) { bool ok = true; for (int j = 0; j < 32; j++) { ok &= env_mkdirs[i - have][j] == want[i][j]; if (!want[i][j]) break; } vf_check(ok, "missing_directories_made"); } if (have < lv) vf_cover("made"); }
// an overlong name is never cut or opened, and the logger goes on
ENTRY h_long() { int k = (int)vf_concretize((uint64_t)vf_range("path", 0, 3)), a = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 150 : 198; int b = (int)vf_concretize((uint64_t)vf_range("program_length", 1, 256)); static char pp[260], cl[270]; for (int i = 0; i < a; i++) pp[i] = 'p'; cl[0] = '/'; for (int i = 0; i < b; i++) cl[1 + i] = 'v'; env_cmdline = cl; env_cmdline_len = b + 1; int want = a + (a ? 1 : 0) + b + 4; path_len = want; cn = 0; add(cfg, cn, "- channel: 0\n  sync: sync\n  -device: 0\n    out_type: file\n    disable: false\n"); line("path", pp); line("file", "$PNAME"); vf_step_limit(600000, "naming_ends"); vf_start(cfg); env_on_write = on_write; { LogStream s = vf_stream(); s << "x"; } vf_check(written == (want < 250), "overlong_name_is_refused"); if (written) vf_cover("opened"); else vf_cover("refused"); vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_LAST_TRY_CREATE_ERROR) == (written ? 0 : 1), "refusal_is_noted"); }
