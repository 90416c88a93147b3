/* Generator of delimited and fixed-width text, together with the fields a reader should find in it. */
#ifndef TEXTGEN_H
#define TEXTGEN_H
#include "dbcommon.h"
#define TG_MAXROWS 24
typedef struct {
    int rows, cols;            // data lines; fields in the first of them (row name included)
    int *nf;                   // fields present on each line
    char ***cell;              // [row][field]
    char **name; int names;    // the header line (names==0: none)
    int hasrows, hascols, fixed;
    int ends[16];              // fixed width; followed by spare slots
    char delim[8]; int usedefault;
    sbuf text; size_t *lineend; // bytes up to and including the text of line i (before its newline)
    int overlong;              // this line has more fields than the first (-1: none)
} textgen;
enum { TG_DB=1, TG_WIDE=2 };
textgen *text_gen(int flags);
#endif
