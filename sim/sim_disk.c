/* Simulated disk: a SQLite VFS over a durable image plus a log of operations that are not yet durable. */
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <string.h>
#include <sqlite3.h>
#include <sys/mman.h>

#define NF 12
#define FSZ (3u<<20)
#define LOGSZ (12u<<20)
#define MAXOPS 8192
enum { OP_WRITE, OP_TRUNC, OP_DELETE, OP_CREATE };
typedef struct { int type, file, done; uint64_t off; uint32_t len; uint32_t dpos; } dop;
typedef struct { char name[120]; int used, exists, dur_exists, temp; uint64_t size, dur_size; int shared; void *reserved, *pending, *exclusive; int other; int epoch; } dfile;
typedef struct {
    dfile f[NF]; uint32_t nops; dop ops[MAXOPS]; uint32_t logpos;
    uint64_t opct, crash_at, errs; long capacity; int epoch; uint64_t rnd; double simtime; int full_latched, ro;
    uint64_t syncs, writes, reads;
} disk;
static disk *D; static char *cur[NF], *dur[NF], *dlog;
typedef struct { sqlite3_file base; int fi; int lock; int epoch; int del; } sfile;
uint64_t disk_errs_delivered;
extern void sim_point(void);
uint64_t disk_ops(void){ return D->opct; }
void disk_crash_at(uint64_t n){ D->crash_at=n? D->opct+n:0; }
void disk_set_capacity(long b){ D->capacity=b; }
static void err(void){ D->errs++; disk_errs_delivered=D->errs; }
static int ferr(int kind){ if (f_point(kind,0,NULL)){ err(); return 1; } return 0; }
static void tick(void){
    D->opct++; D->simtime+=0.0005;
    if (D->crash_at && D->opct>=D->crash_at){ sim_event("power loss at I/O operation %llu",(unsigned long long)D->opct); g_out->faults[FK_CRASH]++; sim_power_loss(); }
}
static void applyop(const dop *o,char *img,uint64_t *size,int *exists,uint32_t len){
    if (o->type==OP_WRITE){ if (o->off>*size) memset(img+*size,0,o->off-*size); memcpy(img+o->off,dlog+o->dpos,len); if (o->off+len>*size) *size=o->off+len; *exists=1; }
    else if (o->type==OP_TRUNC) { if (o->off<*size) *size=o->off; else { memset(img+*size,0,o->off-*size); *size=o->off; } }
    else if (o->type==OP_DELETE){ *exists=0; *size=0; }
    else if (o->type==OP_CREATE){ *exists=1; }
}
static void compact(void){ uint32_t k=0; for (uint32_t i=0;i<D->nops;i++) if (!D->ops[i].done) D->ops[k++]=D->ops[i]; D->nops=k; if (!k) D->logpos=0; }
static void addop(int type,int fi,uint64_t off,uint32_t len,const void *data){
    if (D->f[fi].temp) return;
    if (D->nops>=MAXOPS) compact();
    if (D->nops>=MAXOPS||D->logpos+len>LOGSZ) sim_error("simulated disk log full");
    dop *o=&D->ops[D->nops++]; *o=(dop){type,fi,0,off,len,D->logpos}; if (len) memcpy(dlog+D->logpos,data,len); D->logpos+=len;
}
static void flush_file(int fi){  // everything pending for this file becomes durable, in order
    for (uint32_t i=0;i<D->nops;i++){ dop*o=&D->ops[i]; if (o->file==fi&&!o->done){ applyop(o,dur[fi],&D->f[fi].dur_size,&D->f[fi].dur_exists,o->len); o->done=1; } }
    compact();
}
static int find(const char *n,int create){
    for (int i=0;i<NF;i++) if (D->f[i].used && !strcmp(D->f[i].name,n)) return i;
    if (!create) return -1;
    for (int i=0;i<NF;i++) if (!D->f[i].used){ D->f[i]=(dfile){.used=1}; snprintf(D->f[i].name,120,"%s",n); return i; }
    sim_error("too many simulated disk files"); return -1;
}
/* ---- io methods ---- */
static int x_close(sqlite3_file *f);
static int dead(sfile *s){ return s->epoch!=D->epoch; }
static int x_read(sqlite3_file *f,void *b,int n,sqlite3_int64 off){
    sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; sim_point(); D->reads++; D->simtime+=0.0001;
    if (!d->temp && ferr(FK_DISK_RDERR)) return SQLITE_IOERR_READ;
    if ((uint64_t)off>=d->size){ memset(b,0,n); return SQLITE_IOERR_SHORT_READ; }
    uint64_t k=d->size-off; if (k>(uint64_t)n) k=n; memcpy(b,cur[s->fi]+off,k);
    if (k<(uint64_t)n){ memset((char*)b+k,0,n-k); return SQLITE_IOERR_SHORT_READ; } return SQLITE_OK;
}
static int x_write(sqlite3_file *f,const void *b,int n,sqlite3_int64 off){
    sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; sim_point(); D->writes++;
    if (!d->temp){ tick();
        if (ferr(FK_DISK_WRERR)) return SQLITE_IOERR_WRITE;
        if (ferr(FK_DISK_FULL)) return SQLITE_FULL;
        if (D->capacity>=0 && off+n>(sqlite3_int64)d->size){ long tot=0; for (int i=0;i<NF;i++) if (D->f[i].used&&D->f[i].exists&&!D->f[i].temp) tot+=D->f[i].size; if (tot+(long)(off+n-d->size)>D->capacity){ err(); g_out->faults[FK_DISK_FULL]++; return SQLITE_FULL; } }
    }
    if ((uint64_t)off+n>FSZ){ err(); return SQLITE_FULL; }
    if ((uint64_t)off>d->size) memset(cur[s->fi]+d->size,0,off-d->size);
    memcpy(cur[s->fi]+off,b,n); if ((uint64_t)off+n>d->size) d->size=off+n;
    addop(OP_WRITE,s->fi,off,n,b); return SQLITE_OK;
}
static int x_trunc(sqlite3_file *f,sqlite3_int64 n){ sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; if (!d->temp) tick(); if ((uint64_t)n<d->size) d->size=n; addop(OP_TRUNC,s->fi,n,0,NULL); return SQLITE_OK; }
static int x_sync(sqlite3_file *f,int fl){ (void)fl; sfile*s=(sfile*)f; sim_point(); if (D->f[s->fi].temp) return SQLITE_OK; tick(); D->syncs++; D->simtime+=0.005; if (ferr(FK_DISK_SYNCERR)) return SQLITE_IOERR_FSYNC; flush_file(s->fi); return SQLITE_OK; }
static int x_size(sqlite3_file *f,sqlite3_int64 *o){ *o=D->f[((sfile*)f)->fi].size; return SQLITE_OK; }
static int x_lock(sqlite3_file *f,int l){
    sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; sim_point();
    if (s->lock>=l) return SQLITE_OK;
    if (!d->temp && s->lock<l && ferr(FK_DISK_BUSY)) return SQLITE_BUSY;
    if (l==SQLITE_LOCK_SHARED){ if ((d->exclusive&&d->exclusive!=s)||(d->pending&&d->pending!=s)||d->other>=3) { err(); return SQLITE_BUSY; } d->shared++; s->lock=1; return SQLITE_OK; }
    if (l==SQLITE_LOCK_RESERVED){ if ((d->reserved&&d->reserved!=s)||d->other>=2){ err(); return SQLITE_BUSY; } d->reserved=s; s->lock=2; return SQLITE_OK; }
    if (l==SQLITE_LOCK_EXCLUSIVE){ if ((d->pending&&d->pending!=s)||d->other>=2){ err(); return SQLITE_BUSY; } d->pending=s; s->lock=3; if (d->shared>1||d->other>=1){ err(); return SQLITE_BUSY; } d->exclusive=s; s->lock=4; return SQLITE_OK; }
    return SQLITE_OK;
}
static int x_unlock(sqlite3_file *f,int l){
    sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; if (s->lock<=l) return SQLITE_OK;
    if (d->exclusive==s) d->exclusive=NULL; if (d->pending==s) d->pending=NULL; if (d->reserved==s) d->reserved=NULL;
    if (l==0 && s->lock>=1) d->shared--;
    s->lock=l; sim_point(); return SQLITE_OK;
}
static int x_crl(sqlite3_file *f,int *o){ dfile*d=&D->f[((sfile*)f)->fi]; *o=d->reserved!=NULL||d->other>=2; return SQLITE_OK; }
static int x_fc(sqlite3_file *f,int op,void *a){ (void)f;(void)op;(void)a; return SQLITE_NOTFOUND; }
static int x_ss(sqlite3_file *f){ (void)f; return 512; }
static int x_dc(sqlite3_file *f){ (void)f; return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
static const sqlite3_io_methods iom={1,x_close,x_read,x_write,x_trunc,x_sync,x_size,x_lock,x_unlock,x_crl,x_fc,x_ss,x_dc,0,0,0,0,0,0};
static int tempct;
static int v_open(sqlite3_vfs *v,const char *n,sqlite3_file *f,int fl,int *of){
    (void)v; sfile*s=(sfile*)f; s->base.pMethods=NULL; char tn[40]; int temp=0;
    if (!n){ snprintf(tn,40,"\1tmp%d",tempct++); n=tn; temp=1; fl|=SQLITE_OPEN_DELETEONCLOSE|SQLITE_OPEN_CREATE; }
    if (!temp && ferr(FK_DISK_OPENERR)) return SQLITE_CANTOPEN;
    int i=find(n,0);
    if ((i<0||!D->f[i].exists) && !(fl&SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
    if (!temp && !(fl&SQLITE_OPEN_MAIN_DB)) tick();
    if (i<0) i=find(n,1);
    D->f[i].temp=temp;
    if (!D->f[i].exists){ D->f[i].exists=1; D->f[i].size=0; addop(OP_CREATE,i,0,0,NULL); }
    *s=(sfile){.fi=i,.epoch=D->epoch,.del=!!(fl&SQLITE_OPEN_DELETEONCLOSE)}; s->base.pMethods=&iom; if (of) *of=fl; return SQLITE_OK;
}
static int v_delete(sqlite3_vfs *v,const char *n,int sd){ (void)v; int i=find(n,0); tick(); sim_point();
    if (i<0||!D->f[i].exists) return SQLITE_IOERR_DELETE_NOENT;
    if (ferr(FK_DISK_WRERR)) return SQLITE_IOERR_DELETE;
    D->f[i].exists=0; D->f[i].size=0; addop(OP_DELETE,i,0,0,NULL); (void)sd; flush_file(i); /* the removal of a name is durable at once: SQLite in its default mode relies on that */ return SQLITE_OK; }
static int x_close(sqlite3_file *f){ sfile*s=(sfile*)f; dfile*d=&D->f[s->fi]; x_unlock(f,0); if (s->del){ d->exists=0; d->size=0; if (d->temp) d->used=0; else addop(OP_DELETE,s->fi,0,0,NULL);} return SQLITE_OK; }
static int v_access(sqlite3_vfs *v,const char *n,int fl,int *o){ (void)v;(void)fl; int i=find(n,0); *o= i>=0&&D->f[i].exists&&(fl!=SQLITE_ACCESS_EXISTS||D->f[i].size>0||1); return SQLITE_OK; }
static int v_full(sqlite3_vfs *v,const char *n,int k,char *o){ (void)v; snprintf(o,k,"%s",n); return SQLITE_OK; }
static int v_rand(sqlite3_vfs *v,int n,char *o){ (void)v; for (int i=0;i<n;i++) o[i]=sim_splitmix(&D->rnd); return n; }
static int v_sleep(sqlite3_vfs *v,int us){ (void)v; D->simtime+=us*1e-6; sim_point_strong(); return us; }
static int v_time(sqlite3_vfs *v,double *t){ (void)v; *t=2459000.5+D->simtime/86400; return SQLITE_OK; }
static int v_time64(sqlite3_vfs *v,sqlite3_int64 *t){ (void)v; *t=(sqlite3_int64)((2459000.5+D->simtime/86400)*86400000.0); return SQLITE_OK; }
static int v_le(sqlite3_vfs *v,int n,char *o){ (void)v;(void)n;(void)o; return 0; }
static sqlite3_vfs vfs={2,sizeof(sfile),100,NULL,"simdisk",NULL,v_open,v_delete,v_access,v_full,NULL,NULL,NULL,NULL,v_rand,v_sleep,v_time,v_le,v_time64,NULL,NULL,NULL};
/* sqlite calls these itself when the app does not provide an OS layer */
/* ---- mutexes under the simulated scheduler ---- */
struct sqlite3_mutex { int type, owner, depth; };
static struct sqlite3_mutex stat_mtx[16];
static int m_init(void){ return SQLITE_OK; } static int m_end(void){ return SQLITE_OK; }
static sqlite3_mutex *m_alloc(int t){ if (t>=2){ stat_mtx[t].type=t; return &stat_mtx[t]; } sqlite3_mutex *m=calloc(1,sizeof *m); if (m) m->type=t; return m; }
static void m_free(sqlite3_mutex *m){ free(m); }
static void m_enter(sqlite3_mutex *m){ int me=sim_self()+2; if (!sim_active()) { m->owner=me; m->depth++; return; } if (m->owner==me){ m->depth++; return; } sim_point(); while (m->owner) sim_block(m); m->owner=me; m->depth=1; }
static int m_try(sqlite3_mutex *m){ int me=sim_self()+2; if (m->owner && m->owner!=me) return SQLITE_BUSY; m->owner=me; m->depth++; return SQLITE_OK; }
static void m_leave(sqlite3_mutex *m){ if (--m->depth==0){ m->owner=0; if (sim_active()){ sim_wake(m); sim_point(); } } }
static int m_held(sqlite3_mutex *m){ return m->owner==sim_self()+2; } static int m_nheld(sqlite3_mutex *m){ return !m_held(m); }
static const sqlite3_mutex_methods mm={m_init,m_end,m_alloc,m_free,m_enter,m_try,m_leave,m_held,m_nheld};
int disk_oom;             // SQLite's allocations may fail
static int oom(void){ return disk_oom && !f_suspended && f_point(FK_OOM,0,NULL); }
static void *a_malloc(int n){ if (oom()){ if (D) err(); return NULL; } uint64_t *p=malloc(n+16); if (!p) return NULL; p[0]=n; return p+2; }
static void a_free(void *p){ if (p) free((uint64_t*)p-2); }
static void *a_realloc(void *p,int n){ if (oom()){ if (D) err(); return NULL; } uint64_t *q=realloc((uint64_t*)p-2,n+16); if (!q) return NULL; q[0]=n; return q+2; }
static int a_size(void *p){ return p? (int)((uint64_t*)p)[-2]:0; }
static int a_round(int n){ return (n+7)&~7; }
static int a_init(void *v){ (void)v; return 0; } static void a_shut(void *v){ (void)v; }
static const sqlite3_mem_methods am={a_malloc,a_free,a_realloc,a_size,a_round,a_init,a_shut,NULL};
void disk_attach(void){   // install seams into SQLite (once; simulated processes started later inherit them)
    static int did; if (did) return; did=1;
    if (sqlite3_config(SQLITE_CONFIG_MUTEX,&mm)!=SQLITE_OK) sim_error("sqlite3_config");
    if (sqlite3_config(SQLITE_CONFIG_SERIALIZED)!=SQLITE_OK) sim_error("sqlite3_config");
    if (sqlite3_config(SQLITE_CONFIG_MUTEX,&mm)!=SQLITE_OK) sim_error("sqlite3_config");
    sqlite3_config(SQLITE_CONFIG_MALLOC,&am); sqlite3_config(SQLITE_CONFIG_LOOKASIDE,0,0);
    sqlite3_initialize();
    sqlite3_vfs_register(&vfs,1);
}
void disk_init(void){
    D=sim_shared(sizeof *D); memset(D,0,sizeof *D); D->capacity=-1; D->rnd=g_in->seed^0x1234567;
    for (int i=0;i<NF;i++){ cur[i]=sim_shared(FSZ); dur[i]=sim_shared(FSZ); }
    dlog=sim_shared(LOGSZ);
    D->errs=0; disk_errs_delivered=0;
}
uint64_t disk_err_count(void){ return D->errs; }
double disk_time(void){ return D->simtime; }
void disk_time_add(double s){ D->simtime+=s; }
/* Power is back: resolve every operation that was not durable.  With lossy=0 the machine stayed up (only the
process died): everything written is still there. */
void disk_restart(int lossy){
    D->epoch++; D->crash_at=0;
    for (uint32_t i=0;i<D->nops;i++){ dop*o=&D->ops[i]; if (o->done) continue; uint32_t a, len=o->len;
        if (lossy){
            if (f_point(FK_CRASH_LOST,0,NULL)) { o->done=1; continue; }
            if (o->type==OP_WRITE && len>512 && f_point(FK_CRASH_TORN,len/512,&a)) len=512*a;
        }
        if (len||o->type!=OP_WRITE) applyop(o,dur[o->file],&D->f[o->file].dur_size,&D->f[o->file].dur_exists,len); o->done=1; }
    compact();
    for (int i=0;i<NF;i++) if (D->f[i].used){ dfile*d=&D->f[i]; if (d->temp){ d->used=0; continue; } memcpy(cur[i],dur[i],d->dur_size); d->size=d->dur_size; d->exists=d->dur_exists; d->shared=0; d->reserved=d->pending=d->exclusive=NULL; d->other=0; }
}
void disk_other_lock(const char *n,int l){ int i=find(n,0); if (i>=0) D->f[i].other=l; }
int disk_exists(const char *n){ int i=find(n,0); return i>=0&&D->f[i].exists; }
void disk_dump(const char *n,char **o,size_t *l){ int i=find(n,0); *o=i<0?NULL:cur[i]; *l=i<0?0:D->f[i].size; }
