/* configuration the checks build with (the values configure finds in this sandbox) */
#ifndef VF_CONFIG_H
#define VF_CONFIG_H
#define HAVE_GETOPT_LONG 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_STAT_ST_BLOCKS 1
#define HAVE_ST_BLOCKS 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "detox"
#define PACKAGE_BUGREPORT "detox.dharple at gmail.com"
#define PACKAGE_NAME "detox"
#define PACKAGE_STRING "detox 3.0.0-beta2"
#define PACKAGE_TARNAME "detox"
#define PACKAGE_URL "https://github.com/dharple/detox"
#define PACKAGE_VERSION "3.0.0-beta2"
#define STDC_HEADERS 1
#define VERSION "3.0.0-beta2"
#define YYTEXT_POINTER 1
#endif
