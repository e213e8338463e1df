// Common part of all harnesses: the real library, a small configuration of it, and helpers.
#pragma once
#ifndef FN_LOG_MAX_LOG_SIZE
#define FN_LOG_MAX_LOG_SIZE 700
#endif
#ifndef FN_LOG_MAX_LOG_QUEUE_SIZE
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#endif
#ifndef FN_LOG_MAX_DEVICE_SIZE
#define FN_LOG_MAX_DEVICE_SIZE 4
#endif
#include "fn_log.h"
#include "env.h"
using namespace FNLog;
#define ENTRY extern "C" void
static Logger *L;
static Logger &vf_logger() { if (!L) L = new Logger(); return *L; }
static void vf_start(const char *yaml) { int r = ParseAndStartLogger(vf_logger(), yaml); vf_check(r == 0, "logger_starts"); }
static char *vf_buf(size_t n) { return (char *)malloc(n); } // exact-size heap block: the engine and ASan see any access outside
static bool vf_eq(const char *a, const char *b, long n) { for (long i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
// one synchronous channel with one enabled file device
static const char *VF_SYNC1 = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n";
static LogStream vf_stream(int channel = 0, int prio = PRIORITY_INFO, int cat = 0, long long id = 0, unsigned prefix = LOG_PREFIX_NULL) { return LogStream(vf_logger(), channel, prio, cat, id, "", 0, 0, "", 0, prefix); }
