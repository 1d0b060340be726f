// Stand-in for glog: only fatal messages have an effect.
#pragma once
extern "C" [[noreturn]] void vp_fatal(const char *message);
#define RAW_LOG_INFO(...) ((void)0)
#define RAW_LOG_WARNING(...) ((void)0)
#define RAW_LOG_ERROR(...) ((void)0)
#define RAW_LOG_FATAL(format, ...) vp_fatal(format)
