#define FN_LOG_MAX_DEVICE_SIZE 3
#include "common.h"
// C17: definitions and variables.  The text of a device's file name, which consists of M arbitrary characters, is compared with an
// independent left-to-right substitution.
#ifndef M
#define M 4
#endif
#ifndef KL
#define KL 2
#endif
static char cfg[600]; static int cn; static void add(const char *s) { while (*s) cfg[cn++] = *s++; } static void addn(const char *s, int n) { for (int i = 0; i < n; i++) cfg[cn++] = s[i]; }
static bool name(char c) { return (c == 'x') | (c == 'y') | (c == 'z') | (c == '_') | (c == '7'); }
static void draw(char *p, int n, const char *id, int kind) { vf_sym_bytes(p, (size_t)n, id); for (int i = 0; i < n; i++) { char c = p[i]; if (kind == 0) vf_assume((c == 'x') | (c == 'y') | ((i > 0) & ((c == '_') | (c == '7')))); else if (kind == 4) vf_assume((c == 'x') | (c == 'y') | (c == '.') | ((i > 0) & ((c == '_') | (c == '7')))); else if (kind == 1) vf_assume((c == 'x') | (c == '.') | (c == '=') | (c == ':') | (c == '$')); else if (kind == 2) vf_assume((c == 'x') | (c == 'y') | (c == '7') | (c == '.') | (c == '_')); else vf_assume((c == 'x') | (c == 'y') | (c == '$') | (c == '{') | (c == '}') | (c == '.')); } }
static char key[8], val[8], t[16], e[32]; static int kn, vn, tn, en;
// replaces every occurrence of k (kl characters) in t by v, padded with blanks to the length of k; scans on behind what it has put in
static void subst(char *s, int n, const char *k, int kl, const char *v, int vl, bool pre, bool post, char before, char after) { for (int i = 0; i + kl <= n;) { bool hit = true; for (int j = 0; j < kl; j++) hit &= s[i + j] == k[j]; char b = i ? s[i - 1] : before, a = i + kl < n ? s[i + kl] : after; if (pre) hit &= !name(b); if (post) hit &= !name(a); if (hit) { for (int j = 0; j < kl; j++) s[i + j] = j < vl ? v[j] : ' '; i += kl; vf_cover("substituted"); } else i++; } }
static LexState *ls; static int parse() { cfg[cn] = 0; ls = (LexState *)malloc(sizeof(LexState)); std::string *text = new std::string(cfg, (size_t)cn); vf_step_limit(400000, "substitution_ends"); return ParseLogger(*ls, *text); }
// a quoted value without blanks inside it at either end
static void same(int d, const char *s, int n, const char *id) { int b = 0; while (b < n && s[b] == ' ') b++; while (n > b && s[n - 1] == ' ') n--; const char *f = ls->channels_[0].devices_[d].out_file_; bool ok = true; for (int i = b; i < n; i++) ok &= f[i - b] == s[i]; ok &= f[n - b] == 0; vf_check(ok, id); }
static void sizes(int lo) { kn = (int)vf_concretize((uint64_t)vf_range("key_length", 1, KL)); vn = (int)vf_concretize((uint64_t)vf_range("value_length", lo, 3)); tn = M; }
// a braces character inside the quotes of one device, before and after the definition
static void devices() { add("- channel: 0\n  -device: 0\n    file: \""); }
ENTRY h_define() { sizes(1); draw(key, kn, "key", 4); draw(val, vn, "value", 2); draw(t, tn, "text", 2); int q = (int)vf_concretize((uint64_t)vf_range("form", 0, 2)); 
  // an earlier name stays as it is
  add("- logger_name: \""); addn(t, tn); add("\"\n"); add(q == 0 ? "- define: " : q == 1 ? "- define: \"" : "- define: {"); addn(key, kn); add(q == 1 ? "   " : " "); addn(val, vn); add(q == 0 ? "\n" : q == 1 ? "\"\n" : "}\n"); devices(); addn(t, tn); add("\"\n  -device: 1\n    file: \""); addn(t, tn); add("\""); int r = parse();
  if (vn > kn) { vf_check(r != 0, "longer_value_is_an_error"); vf_cover("too_long"); return; } vf_check(r == 0, "accepted"); bool ok = ls->name_len_ == tn; for (int i = 0; i < tn; i++) ok &= ls->name_[i] == t[i]; vf_check(ok, "earlier_text_unchanged");
  for (int i = 0; i < tn; i++) e[i] = t[i]; subst(e, tn, key, kn, val, vn, true, true, '"', '"'); same(0, e, tn, "define_replaced_where_named"); same(1, e, tn, "define_replaced_where_named"); }
static char vk[8], bk[10];
ENTRY h_var() { sizes(0); draw(key, kn, "key", 0); draw(val, vn, "value", 1); draw(t, tn, "text", 3); int sp = (int)vf_concretize((uint64_t)vf_range("blanks", 0, 3)), q = (int)vf_concretize((uint64_t)vf_range("form", 0, 1)); for (int i = 0; i < vn; i++) if (q == 0 && i == 0) vf_assume(val[i] != '"');
  add("- logger_name: \""); addn(t, tn); add("\"\n"); add(q ? "- var: {" : "- var: "); addn(key, kn); add(sp & 1 ? " = " : "="); addn(val, vn); add(sp & 2 ? "  " : ""); add(q ? "}\n" : "\n"); devices(); addn(t, tn); add("\""); int r = parse();
  if (vn > kn + 1) { vf_check(r != 0, "longer_value_is_an_error"); vf_cover("too_long"); return; } vf_check(r == 0, "accepted"); bool ok = ls->name_len_ == tn; for (int i = 0; i < tn; i++) ok &= ls->name_[i] == t[i]; vf_check(ok, "earlier_text_unchanged");
  for (int i = 0; i < tn; i++) e[i] = t[i]; bk[0] = '$'; bk[1] = '{'; vk[0] = '$'; for (int i = 0; i < kn; i++) bk[2 + i] = vk[1 + i] = key[i]; bk[2 + kn] = '}'; subst(e, tn, bk, kn + 3, val, vn, false, false, '"', '"'); subst(e, tn, vk, kn + 1, val, vn, false, true, '"', '"'); same(0, e, tn, "variable_replaced_where_named"); }
// lists of variables, and definitions that use each other
ENTRY h_list() { kn = (int)vf_concretize((uint64_t)vf_range("key_length", 1, 2)); draw(key, kn, "key", 0); char a = (char)vf_sym("a", 8), b = (char)vf_sym("b", 8); vf_assume((a >= '0') & (a <= '9') & (b >= '0') & (b <= '9')); vf_assume(kn != 1 || key[0] != 'y'); int sp = (int)vf_concretize((uint64_t)vf_range("blanks", 0, 7)); add("- var: "); addn(key, kn); add(sp & 1 ? " =" : "="); addn(&a, 1); add(sp & 2 ? " , " : ","); add("y"); add(sp & 4 ? " = " : "="); addn(&b, 1); add("\n"); devices(); tn = 0; t[tn++] = '$'; for (int i = 0; i < kn; i++) t[tn++] = key[i]; t[tn++] = '.'; t[tn++] = '$'; t[tn++] = 'y'; t[tn++] = '.'; t[tn++] = '$'; t[tn++] = '{'; t[tn++] = 'y'; t[tn++] = '}'; t[tn++] = '-'; addn(t, tn); add("\""); int r = parse(); vf_check(r == 0, "accepted");
  en = 0; e[en++] = a; for (int i = 0; i < kn; i++) e[en++] = ' '; e[en++] = '.'; e[en++] = b; e[en++] = ' '; e[en++] = '.'; e[en++] = b; e[en++] = ' '; e[en++] = ' '; e[en++] = ' '; e[en++] = '-'; same(0, e, en, "variable_replaced_where_named"); }
ENTRY h_chain() { char a = (char)vf_sym("a", 8), b = (char)vf_sym("b", 8); vf_assume(((a == 'x') | (a == 'y') | (a == '.')) & ((b == 'x') | (b == 'y') | (b == 'z') | (b == '7'))); draw(t, tn = M, "text", 2); bool v = vf_concretize((uint64_t)vf_range("second_is_a_variable", 0, 1)) != 0; add("- define: x "); addn(&a, 1); add(v ? "\n- var: y=" : "\n- define: y "); addn(&b, 1); add("\n"); devices(); if (v) add("$y${y}"); addn(t, tn); add("\""); int r = parse(); vf_check(r == 0, "accepted");
  // the first definition also applies to the line of the second one
  char b2 = b == 'x' ? a : b; en = 0; if (v) { e[en++] = '$'; e[en++] = 'y'; e[en++] = '$'; e[en++] = '{'; e[en++] = 'y'; e[en++] = '}'; } for (int i = 0; i < tn; i++) e[en++] = t[i]; subst(e, en, "x", 1, &a, 1, true, true, '"', '"'); if (v) { subst(e, en, "${y}", 4, &b2, 1, false, false, '"', '"'); subst(e, en, "$y", 2, &b2, 1, false, true, '"', '"'); } else subst(e, en, "y", 1, &b2, 1, true, true, '"', '"'); same(0, e, en, "definitions_apply_in_order"); }
// a definition inside a file: numbers and option values are substituted as well
ENTRY h_value() { int q = (int)vf_range("value", 10, 99), k = (int)vf_concretize((uint64_t)vf_range("form", 0, 2)); char d[3] = {(char)('0' + q / 10), (char)('0' + q % 10), 0}; add(k == 0 ? "- define: LEVEL " : "- var: level="); addn(d, 2); add("\n- channel: 0\n  category: "); add(k == 0 ? "LEVEL" : k == 1 ? "$level" : "${level}"); add("\n  identify: 1"); int r = parse(); vf_check(r == 0, "accepted"); vf_check((long long)ls->channels_[0].config_fields_[CHANNEL_CFG_CATEGORY] == q, "option_value_substituted"); vf_check((long long)ls->channels_[0].config_fields_[CHANNEL_CFG_IDENTIFY] == 1, "later_text_unchanged"); }
