#define FN_LOG_MAX_DEVICE_SIZE 3
#include "common.h"
// C16: every documented option sets the setting it names, where it stands, and nothing else.
// The configuration has two channels with two devices each; the option under test is put on one of them.
struct Ex { long long cfg[2][CHANNEL_CFG_MAX_ID]; int sync[2]; long long dev[2][2][DEVICE_CFG_MAX_ID]; unsigned out[2][2], in[2][2]; char file[2][2][50], path[2][2][200]; bool hot; long long shm; };
static Ex ex; static char *cfg; static size_t cn; static int on; static std::string *text;
static void add(const char *s) { while (*s) cfg[cn++] = *s++; }
static void addc(char c) { cfg[cn++] = c; }
// fills cfg with the configuration; the line goes to channel c (dev < 0) or to one of its devices, or (c < 0) to the logger
static int at_c, at_d; static int line_at;
static void head(int c, int d) { at_c = c; at_d = d; cfg = vf_buf(700); cn = 0; if (c < 0) return; add(c == 0 ? "- channel: 0\n" : "- channel: 0\n  -device: 0\n  -device: 1\n- channel: 1\n"); if (d >= 0) { add("  -device: 0\n"); if (d == 1) add("  -device: 1\n"); } add(d < 0 ? "  " : "    "); }
static void tail() { add("\n"); if (at_c < 0) { add("- channel: 0\n  -device: 0\n  -device: 1\n- channel: 1\n  -device: 0\n  -device: 1\n"); } else { if (at_d < 0) add("  -device: 0\n"); if (at_d <= 0) add("  -device: 1\n"); if (at_c == 0) add("- channel: 1\n  -device: 0\n  -device: 1\n"); } cfg[cn] = 0; }
static LexState *ls;
static int parse() { ls = (LexState *)malloc(sizeof(LexState)); text = new std::string(cfg, cn); return ParseLogger(*ls, *text); }
static void same_text(const char *a, const char *b, long n, const char *id) { bool ok = true; for (long i = 0; i < n; i++) { ok &= a[i] == b[i]; if (!b[i]) break; } vf_check(ok, id); }
static void compare() {
  vf_check(ls->channel_size_ == 2, "all_channels_read"); vf_check(ls->hot_update_ == ex.hot, "hot_update"); vf_check(ls->shm_key_ == ex.shm, "shm_key");
  for (int c = 0; c < 2; c++) { Channel &ch = ls->channels_[c]; vf_check(ch.device_size_ == 2, "all_devices_read"); vf_check(ch.channel_type_ == ex.sync[c], "channel_sync"); for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) vf_check((long long)ch.config_fields_[f] == ex.cfg[c][f], "channel_settings");
    int virt = -1; for (int d = 0; d < 2; d++) { Device &dv = ch.devices_[d]; vf_check(dv.out_type_ == ex.out[c][d] && dv.in_type_ == ex.in[c][d], "device_types"); if (ex.out[c][d] == DEVICE_OUT_VIRTUAL) virt = d; for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) vf_check((long long)dv.config_fields_[f] == ex.dev[c][d][f], "device_settings"); same_text(dv.out_file_, ex.file[c][d], 50, "device_file"); same_text(dv.out_path_, ex.path[c][d], 200, "device_path"); }
    vf_check(ch.virtual_device_id_ == virt, "virtual_device"); } }
static void where(int lo) { int w = (int)vf_concretize((uint64_t)vf_range("where", lo, 5)); head(w < 2 ? w : (w - 2) / 2, w < 2 ? -1 : (w - 2) % 2); }
static void done() { tail(); int ret = parse(); vf_check(ret == 0, "accepted"); compare(); }
// a number of nd digits, the last four (NS) of them arbitrary; the first one is not 0
#ifndef NS
#define NS 4
#endif
static unsigned long long number(int nd, bool neg) { static const char *LEAD = "2147483640912873465"; unsigned long long v = 0, low = 0; if (neg) addc('-'); for (int i = 0; i < nd - NS; i++) { addc(LEAD[i]); v = v * 10 + (unsigned)(LEAD[i] - '0'); } for (int i = nd > NS ? nd - NS : 0; i < nd; i++) { int q = (int)vf_range("digit", nd > 1 && i == 0 ? 1 : 0, 9); addc((char)('0' + q)); low = low * 10 + (unsigned)q; v *= 10; } v += low; return neg ? 0 - v : v; }
#ifndef ND
#define ND 10
#endif
// filters
ENTRY h_number() { static const char *KEY[] = {"category", "category_extend", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wmask", "identify_bmask", "limit_size", "rollback"};
  int k = (int)vf_concretize((uint64_t)vf_range("option", 0, 9)); where(k < 8 ? 0 : 2); bool chan = at_d < 0; bool cat32 = k < 2; bool neg = vf_concretize((uint64_t)vf_range("sign", 0, 1)) != 0; if (k >= 8 || k == 1 || k == 5 || k == 2 || k == 3 || k == 6 || k == 7) neg = false;
  int nd = (int)vf_concretize((uint64_t)vf_range("digits", 1, cat32 ? 9 : k >= 8 ? 3 : ND)); int q = (int)vf_concretize((uint64_t)vf_range("form", 0, 3)); add(KEY[k]); add(q == 0 ? ": " : q == 1 ? ":" : q == 2 ? " :  \"" : ": {"); unsigned long long v = number(nd, neg); if (q >= 2) add(q == 2 ? "\"" : "}"); if (k == 8) add(" m"); add(q & 1 ? "  # 77" : ""); 
  static const int CF[] = {CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK, CHANNEL_CFG_IDENTIFY_MASK};
  static const int DF[] = {DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_FILE_LIMIT_SIZE, DEVICE_CFG_FILE_ROLLBACK};
  if (k == 3 || k == 7) v = ~v; if (k == 8) v *= 1000000; if (chan) ex.cfg[at_c][CF[k]] = (long long)v; else ex.dev[at_c][at_d][DF[k]] = (long long)v; done(); if (neg) vf_cover("negative"); }
// masks and identifies with 19 and 20 digits, up to the largest 64-bit value
ENTRY h_wide() { static const char *KEY[] = {"category_wmask", "category_bmask", "identify_wmask", "identify_bmask"}; int k = (int)vf_concretize((uint64_t)vf_range("option", 0, 3)); where(0); bool chan = at_d < 0; int nd = (int)vf_concretize((uint64_t)vf_range("digits", 19, 20)); add(KEY[k]); add(": ");
  const char *lead = nd == 20 ? "1844674407370955" : "922337203685477"; unsigned long long v = 0, low = 0; add(lead); for (int i = 0; lead[i]; i++) v = v * 10 + (unsigned)(lead[i] - '0'); for (int i = 0; i < 4; i++) { int q = (int)vf_range("digit", 0, 9); addc((char)('0' + q)); low = low * 10 + (unsigned)q; v *= 10; } if (nd == 20) vf_assume(low <= 1615); v += low;
  if (k & 1) v = ~v; if (chan) ex.cfg[at_c][k < 2 ? CHANNEL_CFG_CATEGORY_MASK : CHANNEL_CFG_IDENTIFY_MASK] = (long long)v; else ex.dev[at_c][at_d][k < 2 ? DEVICE_CFG_CATEGORY_MASK : DEVICE_CFG_IDENTIFY_MASK] = (long long)v; done(); }
// lists of bits: single numbers and ranges
ENTRY h_list() { static const char *KEY[] = {"category_wlist", "category_blist", "identify_wlist", "identify_blist"}; int k = (int)vf_concretize((uint64_t)vf_range("option", 0, 3)), b = (int)vf_concretize((uint64_t)vf_range("brackets", 0, 2)); where(0); bool chan = at_d < 0; add(KEY[k]); add(b == 0 ? ": " : b == 1 ? ": [" : ":{ "); unsigned long long m = 0; int n = (int)vf_concretize((uint64_t)vf_range("items", 1, 2));
  for (int i = 0; i < n; i++) { if (i) add(b ? ", " : ","); 
    int nd = (int)vf_concretize((uint64_t)vf_range("digits", 1, 2)); if (i == 1) nd = 2; int q1 = nd == 2 ? (int)vf_range("tens", 1, 6) : 0, q0 = (int)vf_range("ones", 0, 9); if (nd == 2) addc((char)('0' + q1)); addc((char)('0' + q0)); int v = q1 * 10 + q0; if (v < 64) m |= 1ULL << v;  }
  if (b) add(b == 1 ? "]" : "}"); if (k & 1) m = ~m; if (chan) ex.cfg[at_c][k < 2 ? CHANNEL_CFG_CATEGORY_MASK : CHANNEL_CFG_IDENTIFY_MASK] = (long long)m; else ex.dev[at_c][at_d][k < 2 ? DEVICE_CFG_CATEGORY_MASK : DEVICE_CFG_IDENTIFY_MASK] = (long long)m; done(); }
ENTRY h_range() { head(0, 0); add("category_wlist: "); int a = (int)vf_concretize((uint64_t)vf_range("from", 0, 63)), b = (int)vf_concretize((uint64_t)vf_range("to", 0, 63)), sp = (a ^ b) & 1, a1 = a / 10, a0 = a % 10, b1 = b / 10, b0 = b % 10;
  addc((char)('0' + a1)); addc((char)('0' + a0)); add(sp ? " - " : "-"); addc((char)('0' + b1)); addc((char)('0' + b0)); add(",3"); int lo = a < b ? a : b, hi = a < b ? b : a; unsigned long long m = 8; for (int i = 0; i < 64; i++) m |= (unsigned long long)((i >= lo) & (i <= hi)) << i; ex.dev[0][0][DEVICE_CFG_CATEGORY_MASK] = (long long)m; done(); if (a > 3) vf_cover("range"); }
// words, in both letter cases
static void word(const char *s) { int up = (int)vf_concretize((uint64_t)vf_range("case", 0, 2)); for (int i = 0; s[i]; i++) addc(s[i] >= 'a' && s[i] <= 'z' && (up == 1 || (up == 2 && i == 0)) ? (char)(s[i] - 32) : s[i]); }
ENTRY h_word() { static const char *PR[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"}; static const char *BL[] = {"false", "true"}; static const char *OT[] = {"null", "screen", "file", "udp", "virtual", "empty"}; static const unsigned OV[] = {DEVICE_OUT_NULL, DEVICE_OUT_SCREEN, DEVICE_OUT_FILE, DEVICE_OUT_UDP, DEVICE_OUT_VIRTUAL, DEVICE_OUT_EMPTY};
  static const char *KEY[] = {"priority", "sync", "disable", "out_type", "in_type", "rolldaily", "rollhourly", "stuff_up", "hot_update"}; int k = (int)vf_concretize((uint64_t)vf_range("option", 0, 8));
  if (k == 8) head(-1, -1); else if (k == 1) { int c = (int)vf_concretize((uint64_t)vf_range("where", 0, 1)); head(c, -1); } else where(k == 0 ? 0 : 2); int c = at_c, d = at_d; bool brackets = vf_concretize((uint64_t)vf_range("quoted", 0, 1)) != 0; add(KEY[k]); add(brackets ? " : \"" : ":  ");
  if (k == 0) { int v = (int)vf_concretize((uint64_t)vf_range("value", 0, 6)); word(PR[v]); if (d < 0) ex.cfg[c][CHANNEL_CFG_PRIORITY] = v; else ex.dev[c][d][DEVICE_CFG_PRIORITY] = v; }
  else if (k == 1) { int v = (int)vf_concretize((uint64_t)vf_range("value", 0, 1)); word(v ? "sync" : "async"); ex.sync[c] = v ? CHANNEL_SYNC : CHANNEL_ASYNC; }
  else if (k == 3) { int v = (int)vf_concretize((uint64_t)vf_range("value", 0, 5)); word(OT[v]); ex.out[c][d] = OV[v]; }
  else if (k == 4) { int v = (int)vf_concretize((uint64_t)vf_range("value", 0, 1)); word(v ? "udp" : "null"); ex.in[c][d] = v ? DEVICE_IN_UDP : DEVICE_IN_NULL; }
  else { int v = (int)vf_concretize((uint64_t)vf_range("value", 0, 1)); word(BL[v]); if (k == 8) ex.hot = v; else if (k == 2) ex.dev[c][d][DEVICE_CFG_ABLE] = !v; else ex.dev[c][d][k == 5 ? DEVICE_CFG_FILE_ROLLDAILY : k == 6 ? DEVICE_CFG_FILE_ROLLHOURLY : DEVICE_CFG_FILE_STUFF_UP] = v; }
  if (brackets) add("\""); done(); }
// texts: file and path keep exactly the given characters
#ifndef TL
#define TL 4
#endif
ENTRY h_text() { where(2); bool path = vf_concretize((uint64_t)vf_range("path", 0, 1)) != 0; int q = (int)vf_concretize((uint64_t)vf_range("quotes", 0, 3)); add(path ? "path" : "file"); static const char *OP[] = {": ", ": \"", ": [", ": {"}; static const char CL[] = {0, '"', ']', '}'}; add(OP[q]); if (path) add("\t "); int n = (int)vf_concretize((uint64_t)vf_range("length", 1, TL)); char *e = path ? ex.path[at_c][at_d] : ex.file[at_c][at_d];
  char v[TL + 1]; vf_sym_bytes(v, (size_t)n, "text"); 
  for (int i = 0; i < n; i++) { char ch = v[i]; bool bl = (ch == ' ') | (ch == '\t') | (ch == '\v') | (ch == '\f'); vf_assume((ch != 0) & (ch != '\n') & (ch != '\r') & (ch != '#') & (ch != CL[q])); if (i == 0 || i == n - 1) vf_assume(!bl); if (i == 0) vf_assume((ch != '"') & (ch != '[') & (ch != '{')); addc(ch); e[i] = ch; } e[n] = 0;
  static const char *AFTER[] = {"", "  ", " # comment", "\t", "\t# x", "#", "\r", " \v\f"}; int t = (int)vf_concretize((uint64_t)vf_range("after", 0, 7)), in = (int)vf_concretize((uint64_t)vf_range("inside", 0, 1)); if (q) { if (in) add("\t "); addc(CL[q]); } add(AFTER[t]); done(); vf_cover("text"); }
ENTRY h_names() { cfg = vf_buf(300); cn = 0; at_c = -1; int n = (int)vf_concretize((uint64_t)vf_range("length", 1, 3)), w = (int)vf_concretize((uint64_t)vf_range("which", 0, 1)); add(w ? "logger_desc: \"" : "- logger_name: \""); char v[4]; vf_sym_bytes(v, (size_t)n, "text"); for (int i = 0; i < n; i++) { vf_assume((v[i] != 0) & (v[i] != '\n') & (v[i] != '\r') & (v[i] != '#') & (v[i] != '"') & (v[i] != ' ') & (v[i] != '\t') & (v[i] != '\v') & (v[i] != '\f')); addc(v[i]); } addc('"'); done();
  vf_check((w ? ls->desc_len_ : ls->name_len_) == n && (w ? ls->name_len_ : ls->desc_len_) == 0, "logger_name_length"); bool ok = true; for (int i = 0; i < n; i++) ok &= (w ? ls->desc_ : ls->name_)[i] == v[i]; vf_check(ok, "logger_name_text"); }
ENTRY h_shm_key() { cfg = vf_buf(300); cn = 0; at_c = -1; add("- shm_key: "); bool hex = vf_concretize((uint64_t)vf_range("hex", 0, 1)) != 0; int nd = (int)vf_concretize((uint64_t)vf_range("digits", 1, 7)); long long v = 0; if (hex) add("0x"); for (int i = 0; i < nd; i++) { int q = (int)vf_range("digit", i == 0 ? 1 : 0, hex ? 15 : 9); addc((char)(q < 10 ? '0' + q : 'a' + q - 10)); v = v * (hex ? 16 : 10) + q; } ex.shm = v; done(); }
ENTRY h_address() { int c = (int)vf_concretize((uint64_t)vf_range("where", 0, 3)); head(c / 2, c % 2); add("udp_addr: \""); unsigned ip = 0; int k = (int)vf_concretize((uint64_t)vf_range("octet", 0, 3)), nd = (int)vf_concretize((uint64_t)vf_range("digits", 1, 3)); for (int i = 0; i < 4; i++) { int o; if (i) addc('.'); if (i == k) { o = 0; for (int j = 0; j < nd; j++) { int q = (int)vf_range("digit", nd > 1 && j == 0 ? 1 : 0, nd == 3 && j == 0 ? 2 : 9); o = o * 10 + q; addc((char)('0' + q)); } vf_assume(o < 256); } else { o = 10 + i; addc('1'); addc((char)('0' + i)); } ip |= (unsigned)o << (8 * i); }
  int s = (int)vf_concretize((uint64_t)vf_range("separator", 0, 1)); add(s ? " : " : ":"); int pd = (int)vf_concretize((uint64_t)vf_range("port_digits", 1, 5)), port = 0; for (int j = 0; j < pd; j++) { int q = (int)vf_range("port_digit", j == 0 ? 1 : 0, 9); port = port * 10 + q; addc((char)('0' + q)); } vf_assume(port < 65536); addc('"'); ex.dev[at_c][at_d][DEVICE_CFG_UDP_IP] = (long long)ip; ex.dev[at_c][at_d][DEVICE_CFG_UDP_PORT] = (long long)(((port & 255) << 8) | (port >> 8)); done(); }
// numbering
ENTRY h_numbering() { cfg = vf_buf(300); cn = 0; int n = (int)vf_concretize((uint64_t)vf_range("channels", 1, 3)); bool ok = true, room = true; for (int i = 0; i < n; i++) { int q = (int)vf_range("number", 0, 3); add("- channel: "); addc((char)('0' + q)); add("\n"); if (i >= Logger::MAX_CHANNEL_SIZE) room = false; else ok &= q == i; } cfg[cn] = 0; int r = parse(); vf_check((r == 0) == (ok & room), "channels_numbered_consecutively"); if (room && ok) vf_check(ls->channel_size_ == n, "all_channels_read"); vf_observe("r", (uint64_t)r); }
ENTRY h_device_numbering() { cfg = vf_buf(300); cn = 0; int n = (int)vf_concretize((uint64_t)vf_range("devices", 1, 4)); bool ok = true, room = true; add("- channel: 0\n"); for (int i = 0; i < n; i++) { int q = (int)vf_range("number", 0, 4); add(" - device: "); addc((char)('0' + q)); add("\n"); if (i >= Channel::MAX_DEVICE_SIZE) room = false; else ok &= q == i; } cfg[cn] = 0; int r = parse(); vf_check((r == 0) == (ok & room), "devices_numbered_consecutively"); if (room && ok) vf_check(ls->channels_[0].device_size_ == n, "all_devices_read"); vf_observe("r", (uint64_t)r); }
// where a line belongs is decided by its indentation
ENTRY h_indent() { cfg = vf_buf(300); cn = 0; int a = (int)vf_concretize((uint64_t)vf_range("channel_indent", 0, 2)), b = a + (int)vf_concretize((uint64_t)vf_range("device_indent", 1, 3)), c = (int)vf_concretize((uint64_t)vf_range("line_indent", 0, 8)); for (int i = 0; i < a; i++) addc(' '); add("- channel: 0\n"); for (int i = 0; i < b; i++) addc(' '); add("- device: 0\n"); for (int i = 0; i < c; i++) addc(' '); add("priority: error\n"); cfg[cn] = 0; int r = parse();
  if (c <= a) { vf_check(r != 0, "option_out_of_place_is_an_error"); vf_cover("logger"); } else { vf_check(r == 0, "accepted"); vf_check((long long)ls->channels_[0].config_fields_[CHANNEL_CFG_PRIORITY] == (c <= b ? PRIORITY_ERROR : 0) && (long long)ls->channels_[0].devices_[0].config_fields_[DEVICE_CFG_PRIORITY] == (c > b ? PRIORITY_ERROR : 0), "indentation_decides"); } }
// options where they do not belong
ENTRY h_misplaced() { static const char *CH[] = {"disable: true", "out_type: file", "in_type: udp", "file: a", "path: a", "limit_size: 1", "rollback: 1", "rolldaily: true", "rollhourly: true", "stuff_up: true", "udp_addr: 1.2.3.4:5", "hot_update: true", "shm_key: 1", "logger_name: a", "logger_desc: a", "define: aa b", "var: a=b", "channel: 1", "unknown: 1", "xyz: 1", "zz: 1"};
  static const char *DV[] = {"sync: sync", "device: 1", "hot_update: true", "shm_key: 1", "logger_name: a", "logger_desc: a", "define: aa b", "var: a=b", "channel: 1", "xyz: 1", "zz: 1"}; static const char *LG[] = {"sync: sync", "device: 0", "priority: error", "category: 1", "category_extend: 1", "category_wlist: 1", "category_blist: 1", "category_wmask: 1", "category_bmask: 1", "identify: 1", "identify_extend: 1", "identify_wlist: 1", "identify_blist: 1", "identify_wmask: 1", "identify_bmask: 1", "disable: true", "out_type: file", "in_type: udp", "file: a", "path: a", "limit_size: 1", "rollback: 1", "rolldaily: true", "rollhourly: true", "stuff_up: true", "udp_addr: 1.2.3.4:5", "xyz: 1", "zz: 1"};
  int w = (int)vf_concretize((uint64_t)vf_range("level", 0, 2)); int k = (int)vf_concretize((uint64_t)vf_range("option", 0, w == 0 ? 27 : w == 1 ? 20 : 10)); if (w == 0) head(-1, -1); else head((int)vf_concretize((uint64_t)vf_range("channel", 0, 1)), w == 1 ? -1 : 1); add(w == 0 ? LG[k] : w == 1 ? CH[k] : DV[k]); tail(); int r = parse(); vf_check(r != 0, "option_out_of_place_is_an_error"); }
// two options on the same place do not disturb each other, in both orders (of two options for the same setting the later one counts)
static const char *OPT[] = {"category: 5", "category_extend: 6", "category_wmask: 7", "category_bmask: 7", "category_wlist: 1,2", "category_blist: 1,2", "identify: 8", "identify_extend: 9", "identify_wmask: 7", "identify_bmask: 7", "identify_wlist: 1", "identify_blist: 1", "priority: warn", "disable: false", "out_type: file", "in_type: udp", "file: a", "path: b", "limit_size: 3", "rollback: 4", "rolldaily: true", "rollhourly: true", "stuff_up: true", "udp_addr: 1.2.3.4:5", "disable: true", "rolldaily: false", "stuff_up: false", "out_type: virtual"};
static void apply(int k) { int c = at_c, d = at_d; if (d < 0) { if (k == 12) { ex.cfg[c][CHANNEL_CFG_PRIORITY] = PRIORITY_WARN; return; } static const int F[] = {CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK, CHANNEL_CFG_IDENTIFY_MASK, CHANNEL_CFG_IDENTIFY_MASK, CHANNEL_CFG_IDENTIFY_MASK}; static const long long VAL[] = {5, 6, 7, ~7LL, 6, ~6LL, 8, 9, 7, ~7LL, 2, ~2LL}; ex.cfg[c][F[k]] = VAL[k]; return; }
  long long *f = ex.dev[c][d]; static const int F[] = {DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_IDENTIFY_MASK, DEVICE_CFG_PRIORITY}; static const long long VAL[] = {5, 6, 7, ~7LL, 6, ~6LL, 8, 9, 7, ~7LL, 2, ~2LL, PRIORITY_WARN}; if (k < 13) { f[F[k]] = VAL[k]; return; }
  switch (k) { case 13: f[DEVICE_CFG_ABLE] = 1; break; case 14: ex.out[c][d] = DEVICE_OUT_FILE; break; case 15: ex.in[c][d] = DEVICE_IN_UDP; break; case 16: ex.file[c][d][0] = 'a'; break; case 17: ex.path[c][d][0] = 'b'; break; case 18: f[DEVICE_CFG_FILE_LIMIT_SIZE] = 3000000; break; case 19: f[DEVICE_CFG_FILE_ROLLBACK] = 4; break; case 20: f[DEVICE_CFG_FILE_ROLLDAILY] = 1; break; case 21: f[DEVICE_CFG_FILE_ROLLHOURLY] = 1; break; case 22: f[DEVICE_CFG_FILE_STUFF_UP] = 1; break; case 23: f[DEVICE_CFG_UDP_IP] = 0x04030201; f[DEVICE_CFG_UDP_PORT] = 5 << 8; break; case 24: f[DEVICE_CFG_ABLE] = 0; break; case 25: f[DEVICE_CFG_FILE_ROLLDAILY] = 0; break; case 26: f[DEVICE_CFG_FILE_STUFF_UP] = 0; break; default: ex.out[c][d] = DEVICE_OUT_VIRTUAL; } }
ENTRY h_two() { where(0); int n = at_d < 0 ? 12 : 27; int a = (int)vf_concretize((uint64_t)vf_range("first", 0, n)), b = (int)vf_concretize((uint64_t)vf_range("second", 0, n)); add(OPT[a]); add(at_d < 0 ? "\n  " : "\n    "); add(OPT[b]); apply(a); apply(b); done(); }
