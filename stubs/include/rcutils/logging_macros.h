#ifndef STUB_RCUTILS_LOG
#define STUB_RCUTILS_LOG
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
void rcutils_stub_log(const char * severity, const char * name, const char * format, ...);
#ifdef __cplusplus
}
#endif
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) rcutils_stub_log("DEBUG", name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) rcutils_stub_log("INFO", name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) rcutils_stub_log("WARN", name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) rcutils_stub_log("ERROR", name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) rcutils_stub_log("FATAL", name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) rcutils_stub_log("DEBUG", "", __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) rcutils_stub_log("WARN", "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) rcutils_stub_log("ERROR", "", __VA_ARGS__)
#define RCUTILS_SAFE_FWRITE_TO_STDERR(msg) rcutils_stub_log("STDERR", "", "%s", msg)
#define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(...) rcutils_stub_log("STDERR", "", __VA_ARGS__)
#endif
