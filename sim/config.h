/* Build configuration for the simulated build (what configure finds here, minus MySQL). */
#define HAVE_ASPRINTF 1
#define HAVE_REGCOMP 1
#define HAVE_SQLITE3 /**/
#define HAVE_STRCASECMP 1
#define HAVE___ATTRIBUTE__ 1
#define HAVE_PTHREAD 1
#define STDC_HEADERS 1
#define PACKAGE "apophenia"
#define VERSION "1.0"
