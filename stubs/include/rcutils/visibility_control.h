#ifndef STUB_RCUTILS_VIS
#define STUB_RCUTILS_VIS
#define RCUTILS_PUBLIC
#define RCUTILS_LOCAL
#endif
