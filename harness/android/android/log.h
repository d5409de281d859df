#pragma once
#include <stdarg.h>
#include <stdio.h>
enum { ANDROID_LOG_DEBUG = 3, ANDROID_LOG_INFO, ANDROID_LOG_WARN, ANDROID_LOG_ERROR, ANDROID_LOG_FATAL };
static inline int __android_log_vprint(int prio, const char* tag, const char* fmt, va_list ap) {
	char b[4096];
	(void)prio;
	(void)tag;
	return vsnprintf(b, sizeof(b), fmt, ap);
}
