/* stdio / signal / process seam.  The library's calls to fopen, system, signal, raise are redirected here
(objcopy --redefine-syms on the library objects).  Files live in memory; streams are fopencookie streams. */
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>

extern int mem_oom_scope;
#define MAXFILES 24
static struct { char name[128]; simfile f; } files[MAXFILES]; static int nfiles;
static int open_streams;
int io_read_failed, io_truncated, io_write_failed, io_system_calls;
static int rchunk;
int io_open_streams(void){ return open_streams; }
void io_read_chunk(int m){ rchunk=m; }
simfile *io_file(const char *name,int create){
    for (int i=0;i<nfiles;i++) if (!strcmp(files[i].name,name)) { if (!files[i].f.exists && !create) return NULL; files[i].f.exists=1; return &files[i].f; }
    if (!create) return NULL;
    if (nfiles>=MAXFILES) sim_error("too many simulated files");
    snprintf(files[nfiles].name,128,"%s",name); files[nfiles].f=(simfile){.exists=1};
    return &files[nfiles++].f;
}
void io_remove(const char *name){ simfile *f=io_file(name,0); if (f){ f->exists=0; f->len=0; } }
static void grow(simfile *f,size_t n){ if (n>f->cap){ size_t c=n*2+256; int s=mem_oom_scope; mem_oom_scope=0; f->data=realloc(f->data,c); mem_oom_scope=s; f->cap=c; } }
void io_put(const char *name,const char *d,size_t n){ simfile *f=io_file(name,1); grow(f,n+1); memcpy(f->data,d,n); f->len=n; }
typedef struct { simfile *f; size_t pos; int append, dead; } ck;
static ssize_t c_read(void *v,char *b,size_t n){
    ck *c=v; uint32_t a;
    if (c->dead==1) { errno=EIO; return -1; }
    if (c->dead==2) return 0;
    size_t left=c->f->len-c->pos;
    if (left && f_point(FK_RD_ERR,0,NULL)){ io_read_failed=1; c->dead=1; errno=EIO; return -1; }
    if (left && f_point(FK_RD_TRUNC,65536,&a)){ io_truncated=1; c->dead=2; size_t k=a%(left<n?left:n); memcpy(b,c->f->data+c->pos,k); c->pos+=k; return k; }
    size_t k=left<n?left:n;
    if (rchunk==2 && k>1) k=1;
    if (k>1 && f_point(FK_RD_SHORT,65536,&a)) k=1+a%(k-1);
    memcpy(b,c->f->data+c->pos,k); c->pos+=k; return k;
}
static ssize_t c_write(void *v,const char *b,size_t n){
    ck *c=v; uint32_t a;
    if (f_point(FK_WR_ERR,65536,&a)){ io_write_failed=1; size_t k=n? a%n:0; grow(c->f,c->f->len+k); memcpy(c->f->data+c->f->len,b,k); c->f->len+=k; errno=ENOSPC; return 0; }
    if (c->append) c->pos=c->f->len;
    grow(c->f,c->pos+n); if (c->pos>c->f->len) memset(c->f->data+c->f->len,0,c->pos-c->f->len);
    memcpy(c->f->data+c->pos,b,n); c->pos+=n; if (c->pos>c->f->len) c->f->len=c->pos; return n;
}
static int c_seek(void *v,off64_t *o,int w){ ck*c=v; off64_t p = w==0?*o: w==1? (off64_t)c->pos+*o : (off64_t)c->f->len+*o; if (p<0) return -1; c->pos=p; *o=p; return 0; }
static int c_close(void *v){ open_streams--; free(v); return 0; }
FILE *sim_fopen(const char *name,const char *mode){
    sim_point();
    if (f_point(FK_OPEN_FAIL,0,NULL)){ errno=EACCES; return NULL; }
    simfile *f;
    if (mode[0]=='r'){ f=io_file(name,0); if (!f){ errno=ENOENT; return NULL; } }
    else { f=io_file(name,1); if (mode[0]=='w') f->len=0; }
    int s=mem_oom_scope; mem_oom_scope=0;
    ck *c=malloc(sizeof *c); *c=(ck){.f=f,.append=mode[0]=='a'};
    FILE *o=fopencookie(c,mode,(cookie_io_functions_t){c_read,c_write,c_seek,c_close});
    mem_oom_scope=s;
    open_streams++;
    return o;
}
/* read-side or write-side stream handed to the library as a pipe */
FILE *sim_pipe(const char *name,const char *mode){ int e=f_suspended; f_suspended=1; FILE *o=sim_fopen(name,mode); f_suspended=e; return o; }
int sim_system(const char *cmd){ (void)cmd; io_system_calls++; return 0; }

static sim_sighandler handlers[65];
sim_sighandler sim_signal(int sig,sim_sighandler h){ sim_sighandler o=handlers[sig]; handlers[sig]=h; return o; }
int sim_sigaction(int sig,const struct sigaction *n,struct sigaction *o){ if (o){ memset(o,0,sizeof *o); o->sa_handler=handlers[sig]; } if (n) handlers[sig]=n->sa_handler; return 0; }
sim_sighandler sim_signal_installed(int sig){ return handlers[sig]; }
int sim_raise_lib(int sig){ if (sig==SIGABRT||sig==SIGTRAP) abort(); sim_raise(sig); return 0; }
void sim_raise(int sig){
    sim_sighandler h=handlers[sig];
    if (h==SIG_IGN) return;
    if (h==SIG_DFL || !h) sim_fail("killed-by-signal","signal %d arrived while the default action was installed: the process dies",sig);
    h(sig);
}
