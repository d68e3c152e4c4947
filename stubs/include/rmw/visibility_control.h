#ifndef RMW_PUBLIC
#define RMW_PUBLIC
#define RMW_PUBLIC_TYPE
#define RMW_LOCAL
#endif
