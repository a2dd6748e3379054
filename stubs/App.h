#ifndef VP_STUB_APP_H
#define VP_STUB_APP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
typedef enum { APP_MAIN, APP_LIBRMN, APP_LIBFST, APP_LIBWB, APP_LIBGMM, APP_LIBVGRID, APP_LIBINTERPV, APP_LIBGEOREF } TApp_Lib;
typedef enum { APP_VERBATIM=-1, APP_ALWAYS=0, APP_FATAL=1, APP_SYSTEM=2, APP_ERROR=3, APP_WARNING=4, APP_INFO=5, APP_TRIVIAL=6, APP_DEBUG=7, APP_EXTRA=8, APP_QUIET=9 } TApp_LogLevel;
typedef struct { int LogLevel[16]; } TVpApp;
static TVpApp __attribute__((unused)) vp_app_, __attribute__((unused)) *App = &vp_app_;
#define Lib_Log(...) ((void)0)
#define Lib_LogLevel(a,b) (0)
#define Lib_LogLevelNo(a,b) (0)
#endif
