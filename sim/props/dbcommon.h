/* What the database scenarios share: a reference database (plain SQLite in memory, never through Apophenia), and
canonical dumps of a database's contents. */
#ifndef DBCOMMON_H
#define DBCOMMON_H
#include "common.h"
#include <sqlite3.h>
extern sqlite3 *db;                             // the library's connection
typedef struct { char *s; size_t n,cap; } sbuf;
void sb_add(sbuf *b,const char *fmt,...) __attribute__((format(printf,2,3)));
void sb_mem(sbuf *b,const void *p,size_t n);
sqlite3 *ref_open(void);                        // an in-memory database
sqlite3 *raw_open(const char *file);            // the file on the simulated disk, seen by another connection
int ref_exec(sqlite3 *h,const char *sql);       // must be valid SQL; dies as a harness error otherwise
void ref_copy(sqlite3 *from,sqlite3 *to);       // make `to` hold what `from` holds
char *db_dump(sqlite3 *h);                      // every table: its columns and its rows in order; NULL if it can't be read
char *q_dump(sqlite3 *h,const char *sql,int *rows,int *cols); // one query's result, canonical; NULL on error
void sb_num(sbuf *b,double v);
void sb_cell(sbuf *b,sqlite3_stmt *s,int i);
const char *first_diff(const char *a,const char *b);
char *sql_quote(const char *s);                 // 'it''s'
double rand_num(int wild);                      // workload: a cell value
const char *rand_text(int wild);
apop_data *rand_set(int rows,int allow_names,int wild); // a data set with some of vector, matrix, text, weights, row names
#endif
