#ifndef VSTUB_SOT_CONFIG
#define VSTUB_SOT_CONFIG
#define SOT_CORE_DLLAPI
#define SOT_CORE_DLLEXPORT
#define SOT_CORE_LOCAL
#define SOT_CORE_VERSION "4"
#endif
