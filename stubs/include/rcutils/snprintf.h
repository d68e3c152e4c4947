#ifndef STUB_RCUTILS_SNPRINTF
#define STUB_RCUTILS_SNPRINTF
#include <stdarg.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...);
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args);
#ifdef __cplusplus
}
#endif
#endif
