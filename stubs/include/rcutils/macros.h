#ifndef STUB_RCUTILS_MACROS
#define STUB_RCUTILS_MACROS
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_UNLIKELY(x) (x)
#define RCUTILS_LIKELY(x) (x)
#define RCUTILS_DEPRECATED_WITH_MSG(msg)
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(e)
#define RCUTILS_CAN_FAIL_WITH(e)
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#endif
