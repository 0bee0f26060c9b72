// Deterministic scheduler + memory checker behind the ThreadSanitizer instrumentation ABI.
//
// The code under test (papaya, seize, std) is compiled with -Zsanitizer=thread but linked against this
// file instead of the real runtime. Exactly one logical thread runs at a time (baton passing); every
// atomic access, fence, futex call and membarrier made while `g_on` is a scheduling point.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <linux/membarrier.h>

#define MAXT 6
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef uint16_t u16;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- configuration
typedef struct {
  u32 policy;        // 0 random walk, 1 pct, 2 explicit, 3 write-biased random, 4 stall, 5 stall at sites executed rarely so far, 6 gates: stop a thread at its n-th write (or access) until no other can run
  u32 p_shift;       // random walk: switch probability 2^-p_shift
  u32 depth;         // pct change points / number of stalls; above 5 with gates: T1 comes first and is stopped, T2 is not (6: nor are the others)
  u32 horizon;       // pct/stall: estimated number of steps
  u64 seed;
  u32 tso;           // 0 = sequentially consistent, else max store delay in steps
  u32 cpus;          // reported CPU count
  u32 misalign;      // allocator honours only the requested alignment
  u32 check_races;
  u32 freeze_step;   // !=0: from this step on only `freeze_tid` may run until it is done
  u32 freeze_tid;
  u32 fair_after;    // steps after which the schedule becomes round-robin fair
  u32 step_limit;    // absolute bound
  u32 solo_limit;    // bound on steps of the frozen-phase reader
  u32 spurious;      // 1/2^n chance that a park-like futex wait returns spuriously (0 = never)
  u32 quantum;       // fair phase quantum
  u32 hold_reader;   // the thread freeze_tid does not start before the freeze
  u32 weak;          // !=0: loads may return values that were overwritten at most this many steps ago (C++20 model without load buffering)
  u32 weak_shift;    // a load looks for an older value with probability 2^-weak_shift
  u32 weak_cas;      // !=0: a weak compare-exchange fails spuriously with probability 2^-weak_cas
  u32 weak_nosync;   // the clients' threads do not synchronise between operations
} rt_cfg;

typedef struct { u32 step; u32 tid; } rt_switch;

static rt_cfg C;
static int g_on;
static int g_in_threads;       // concurrent phase running
static int g_active_case;
static u64 g_step;
static u64 g_solo_steps;
static int g_frozen;
static int g_cur;
static int g_n;                // number of logical threads (tids 1..n)
static __thread int my_tid = -1;

enum { T_IDLE, T_RUN, T_BLOCKED, T_DONE };
static int t_status[MAXT];
static void *t_addr[MAXT];     // futex address blocked on
static int t_go[MAXT];
static u64 t_prio[MAXT];
static u64 t_stall_until[MAXT];
static u32 t_gate[MAXT], t_gate_all[MAXT], t_count[MAXT][2];
static u64 g_change[64];
static u32 g_nchange;
static u64 g_low;
static u64 g_run_start;        // step at which the current thread was switched in

static rt_switch g_log[1 << 16];
static u32 g_nlog;
static rt_switch *g_expl; static u32 g_nexpl, g_iexpl;

// statistics
static u64 s_switches, s_blocks, s_wakes, s_atomics, s_plain, s_fences, s_membar, s_flushes, s_frees, s_allocs, s_preempt;
static u64 g_live_zeroed;
static u64 g_alloc_bytes_live, g_alloc_bytes_peak, g_alloc_count_live, g_alloc_total;

// ---------------------------------------------------------------- rng
static u64 g_rng;
static inline u64 rng(void){ u64 z=(g_rng+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
static inline u64 mix(u64 z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}

// ---------------------------------------------------------------- raw syscalls
static inline long sys6(long n,long a,long b,long c,long d,long e,long f){
  register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f; long ret;
  __asm__ volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return ret;
}
static void baton_wait(int tid){
  while(!__atomic_load_n(&t_go[tid],__ATOMIC_ACQUIRE))
    sys6(SYS_futex,(long)&t_go[tid],FUTEX_WAIT|FUTEX_PRIVATE_FLAG,0,0,0,0);
  __atomic_store_n(&t_go[tid],0,__ATOMIC_RELAXED);
}
static void baton_give(int tid){
  __atomic_store_n(&t_go[tid],1,__ATOMIC_RELEASE);
  sys6(SYS_futex,(long)&t_go[tid],FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1,0,0,0);
}

// ---------------------------------------------------------------- violations
extern void mh_on_violation(const char *kind,const char *msg) __attribute__((noreturn));
static int g_reporting;
static void fail(const char*kind,const char*fmt,...){
  static char buf[1024];
  g_on=0;
  if(g_reporting) sys6(SYS_exit_group,12,0,0,0,0,0);
  g_reporting=1;
  va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  mh_on_violation(kind,buf);
}
void rt_fail(const char*kind,const char*msg){ fail(kind,"%s",msg); }

// ---------------------------------------------------------------- arena
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (48ull<<20)
static u8 *arena=(u8*)ARENA_BASE;
static u8 *bstate;              // one byte per arena byte: 0 unallocated 1 live 2 freed
typedef struct { u32 gen; u32 w[MAXT]; u32 r[MAXT]; u8 wm[MAXT]; u8 rm[MAXT]; u8 wa, ra; } cell;
static cell *cells;
static u64 a_top;               // bump offset
static u32 g_gen;
typedef struct { u64 off; u64 size; u32 live; u32 align; u32 step_alloc; u32 step_free; u8 tid_alloc, tid_free; u32 tag; } arec;
static arec *recs; static u32 nrecs; 
#define MAXRECS (1u<<20)
static u32 *recidx;             // per 8-byte granule of allocation start -> rec index+1 

static inline int in_arena(const void*p){ return (u64)p-ARENA_BASE < ARENA_SIZE; }

// ---------------------------------------------------------------- vector clocks
typedef struct { u32 c[MAXT]; } vc;
static vc V[MAXT];              // thread clocks
static vc Vacq[MAXT];           // clocks read by relaxed loads, applied at acquire fence
static vc Vrel[MAXT];           // clock at last release fence
static int hasrel[MAXT];
// visibility clocks: like the happens-before clocks, and in addition joined by SeqCst fences. They decide which stores a
// weak load may miss, whereas V decides what is a race.
static vc W[MAXT], Wacq[MAXT], Wrel[MAXT], Wf, Wsc;
static inline void vjoin(vc*a,const vc*b){ for(int i=0;i<MAXT;i++) if(b->c[i]>a->c[i]) a->c[i]=b->c[i]; }
#define SYNC_N (1u<<16)
typedef struct { u64 addr; u32 gen; vc v, w; int has; } syncv;
static syncv *syncs;
static u32 nsync;
static syncv* sync_get(u64 addr){
  // before any thread starts there is nothing to order
  if(g_n==0 && nsync>SYNC_N/2){ static syncv d; d.has=0; return &d; }
  u32 h=(u32)(mix(addr)>>40)&(SYNC_N-1);
  for(u32 k=0;k<SYNC_N;k++){ syncv*s=&syncs[(h+k)&(SYNC_N-1)];
    if(s->gen!=g_gen){ nsync++; s->gen=g_gen; s->addr=addr; s->has=0; memset(&s->v,0,sizeof s->v); memset(&s->w,0,sizeof s->w); return s; }
    if(s->addr==addr) return s; }
  fail("nontermination","a few operations touched more than %u different atomics: tables grow without end",SYNC_N); return 0;
}

static arec* rec_of(u64 off){ // linear back-search by binary search over increasing offsets
  u32 lo=0,hi=nrecs; while(lo<hi){ u32 m=(lo+hi)/2; if(recs[m].off<=off) lo=m+1; else hi=m; }
  if(lo==0) return 0; arec*r=&recs[lo-1]; return off < r->off+(r->size?r->size:1) ? r : 0;
}
static void describe(char*b,size_t n,const void*p){
  arec*r=rec_of((u64)p-ARENA_BASE);
  if(!r) snprintf(b,n,"arena+0x%llx (no block)",(unsigned long long)((u64)p-ARENA_BASE));
  else snprintf(b,n,"block#%u size %llu align %u offset %llu (allocated by T%u at step %u%s)",(u32)(r-recs),(unsigned long long)r->size,r->align,(unsigned long long)((u64)p-ARENA_BASE-r->off),r->tid_alloc,r->step_alloc,r->live?"":", freed");
}

void* rt_alloc(u64 size,u64 align,int zero){
  u64 off=(a_top+align-1)&~(align-1);
  if(C.misalign && (off & align)==0 && align<16){ off+=align; } // aligned to `align` but not to 2*align
  if(off+size+16>ARENA_SIZE || nrecs>=MAXRECS) fail("memory","the case exhausted %llu bytes of heap in %u allocations (unbounded growth)",(unsigned long long)ARENA_SIZE,nrecs);
  a_top=off+size+9;
  u8*p=arena+off;
  memset(bstate+off,1,size);
  memset(p,zero?0:0xA5,size);
  arec*r=&recs[nrecs++]; r->off=off;r->size=size;r->live=1;r->align=align;r->step_alloc=g_step;r->step_free=0;r->tid_alloc=g_cur;r->tid_free=255;r->tag=zero; if(zero) g_live_zeroed++;
  recidx[off>>3]=nrecs;
  g_alloc_bytes_live+=size; g_alloc_count_live++; g_alloc_total++; s_allocs++;
  if(g_alloc_bytes_live>g_alloc_bytes_peak) g_alloc_bytes_peak=g_alloc_bytes_live;
  return p;
}
static void chk_access(const void*p,u64 n,int write,int atomic,const char*what);
static void tso_flush_range(u64 lo,u64 hi);
void rt_dealloc(void*p,u64 size,u64 align){
  u64 off=(u64)p-ARENA_BASE; arec*r=rec_of(off); char d[256]; describe(d,sizeof d,p);
  if(!r||r->off!=off){ if(size==0) return; fail("memory","free of a pointer that is not a block: %s",d); }
  if(!r->live) fail("memory","double free of %s, freed before by T%u at step %u",d,r->tid_free,r->step_free);
  if(r->size!=size) fail("memory","free with wrong size %llu of %s",(unsigned long long)size,d);
  if(r->align!=align) fail("memory","free with wrong alignment %llu of %s",(unsigned long long)align,d);
  tso_flush_range((u64)p,(u64)p+size);
  int on=g_on; if(g_active_case){ chk_access(p,size,1,0,"free"); }
  g_on=on;
  if(r->tag) g_live_zeroed--;
  r->live=0; r->step_free=g_step; r->tid_free=g_cur;
  memset(bstate+off,2,size);
  memset(p,0xDD,size);
  g_alloc_bytes_live-=size; g_alloc_count_live--; s_frees++;
}
int rt_in_arena(const void*p){ return in_arena(p); }
int rt_is_on(void){ return g_on; }
u64 rt_live_bytes(void){ return g_alloc_bytes_live; }
u64 rt_live_zeroed(void){ return g_live_zeroed; }
u64 rt_live_sizes(u64*o,u64 n){ u64 k=0; for(u32 i=0;i<nrecs;i++) if(recs[i].live&&k<n) o[k++]=recs[i].size; return k; }
u64 rt_max_live(u64 xlo,u64 xhi){ u64 m=0; for(u32 i=0;i<nrecs;i++) if(!(i>=xlo&&i<xhi)&&recs[i].live&&recs[i].size>m) m=recs[i].size; return m; }
u64 rt_live_count(void){ return g_alloc_count_live; }
u64 rt_peak_bytes(void){ return g_alloc_bytes_peak; }
u64 rt_alloc_total(void){ return g_alloc_total; }
void rt_reset_peak(void){ g_alloc_bytes_peak=g_alloc_bytes_live; }
int rt_describe_leak(char*buf,u64 n){
  u32 cnt=0; u64 used=0; buf[0]=0;
  for(u32 i=0;i<nrecs;i++) if(recs[i].live){ cnt++; if(used+80<n) used+=snprintf(buf+used,n-used,"[block#%u size %llu align %u by T%u at step %u] ",i,(unsigned long long)recs[i].size,recs[i].align,recs[i].tid_alloc,recs[i].step_alloc); }
  return cnt;
}
// is [p,p+n) live memory? used by the harness before it looks at an object
int rt_is_live(const void*p,u64 n){
  if(!in_arena(p)) return 1; u64 off=(u64)p-ARENA_BASE; for(u64 i=0;i<n;i++) if(bstate[off+i]!=1) return 0; return 1;
}

// ---------------------------------------------------------------- plain/atomic access checks
static void chk_access(const void*p,u64 n,int write,int atomic,const char*what){
  u64 off=(u64)p-ARENA_BASE;
  for(u64 i=0;i<n;i++) if(__builtin_expect(bstate[off+i]!=1,0)){
    char d[256]; describe(d,sizeof d,p); arec*r=rec_of(off+i);
    if(bstate[off+i]==2) fail("memory","T%d step %llu: %s (%s of %llu bytes) touches freed memory: %s, freed by T%u at step %u",g_cur,(unsigned long long)g_step,what,write?"write":"read",(unsigned long long)n,d,r?r->tid_free:0,r?r->step_free:0);
    fail("memory","T%d step %llu: %s (%s of %llu bytes) is out of bounds: %s",g_cur,(unsigned long long)g_step,what,write?"write":"read",(unsigned long long)n,d);
  }
  int t=g_cur; const vc*me=&V[t];
  u64 g0=off>>3,g1=(off+n-1)>>3; if(n==0) return;
  for(u64 g=g0;g<=g1;g++){
    u64 lo=g==g0?(off&7):0, hi=g==g1?((off+n-1)&7):7; u8 m=(u8)(((1u<<(hi-lo+1))-1)<<lo);
    cell*c=&cells[g];
    if(c->gen!=g_gen){ memset(c,0,sizeof *c); c->gen=g_gen; }
    if(g_n && C.check_races) for(int u=0;u<=g_n;u++){ if(u==t) continue;
      if(c->w[u]>me->c[u] && (c->wm[u]&m) && !(atomic && (c->wa>>u&1))){ char d[256]; describe(d,sizeof d,p); fail("race","data race: T%d %s %s at step %llu is not ordered after a %s write by T%d; %s",t,atomic?"atomic":"plain",what,(unsigned long long)g_step,(c->wa>>u&1)?"atomic":"plain",u,d); }
      if(write && c->r[u]>me->c[u] && (c->rm[u]&m) && !(atomic && (c->ra>>u&1))){ char d[256]; describe(d,sizeof d,p); fail("race","data race: T%d %s %s at step %llu is not ordered after a %s read by T%d; %s",t,atomic?"atomic":"plain",what,(unsigned long long)g_step,(c->ra>>u&1)?"atomic":"plain",u,d); }
    }
    if(write){ if(c->w[t]!=me->c[t]){c->w[t]=me->c[t];c->wm[t]=m; if(atomic) c->wa|=1<<t; else c->wa&=~(1<<t);} else { c->wm[t]|=m; if(!atomic) c->wa&=~(1<<t);} }
    else { if(c->r[t]!=me->c[t]){c->r[t]=me->c[t];c->rm[t]=m; if(atomic) c->ra|=1<<t; else c->ra&=~(1<<t);} else { c->rm[t]|=m; if(!atomic) c->ra&=~(1<<t);} }
  }
}

// ---------------------------------------------------------------- weak memory: store histories
// The last WN stores to a location, and which of them each thread has read. A load may return any store that is not older than
//  - the newest store, or the newest store read, that is visible to the thread (program order, happens-before, SeqCst fences),
//  - for SeqCst loads: the newest SeqCst store, and everything before the last SeqCst fence of any thread,
//  - C.weak steps.
// Read-modify-writes, failed compare-exchanges included, always use the newest one.
#define WN 8
#define WR 4
typedef struct { u64 val, step; vc v, w; u32 ep; u8 tid, has, sc; } went;
typedef struct { u64 addr; u32 gen, first, n; u8 size; went s[WN]; u32 rep[MAXT][WR], ridx[MAXT][WR]; u8 rn[MAXT]; } whist;
#define WH_N (1u<<14)
static whist *wh; static u8 *whflag; static u32 nwh; static u64 s_stale, s_spurcas;
static whist* wh_get(u64 addr,int create){
  u32 h=(u32)(mix(addr)>>40)&(WH_N-1);
  for(u32 k=0;k<WH_N;k++){ whist*x=&wh[(h+k)&(WH_N-1)];
    if(x->gen!=g_gen){ if(!create||nwh>WH_N*3/4) return 0; nwh++; x->gen=g_gen; x->addr=addr; x->n=x->first=0; memset(x->rn,0,sizeof x->rn); return x; }
    if(x->addr==addr) return x; }
  return 0;
}
static void wh_forget(u64 lo,u64 hi){ for(u64 g=(lo-ARENA_BASE)>>3;g<=(hi-1-ARENA_BASE)>>3;g++) if(whflag[g]) for(u64 a=0;a<8;a++){ whist*x=wh_get(ARENA_BASE+g*8+a,0); if(x){ x->n=x->first=0; memset(x->rn,0,sizeof x->rn); } } }
static inline int weak_on(const void*p){ return C.weak && g_in_threads && in_arena(p); }
// remember a store; `old` is what the memory held before
static void wh_store(u64 addr,int size,u64 old,u64 val,const vc*v,const vc*w,int has,int sc){
  syncv*y=sync_get(addr);
  whist*x=wh_get(addr,1); if(!x) return; 
  whflag[(addr-ARENA_BASE)>>3]=1;
  if(x->n && x->size!=size){ x->n=x->first=0; memset(x->rn,0,sizeof x->rn); }
  x->size=size;
  if(!x->n){ went*e=&x->s[x->first%WN]; memset(e,0,sizeof*e); e->val=old; e->tid=255; e->has=y->has; e->v=y->v; e->w=y->w; e->step=g_step; x->n=1; }
  if(x->n==WN){ x->first++; x->n--; }
  went*e=&x->s[(x->first+x->n)%WN]; x->n++;
  e->val=val; e->step=g_step; e->tid=g_cur; e->ep=V[g_cur].c[g_cur]; e->sc=sc; e->has=has; if(has){ e->v=*v; e->w=*w; }
}
static void wh_read(whist*x,u32 idx){
  int t=g_cur; u32 ep=V[t].c[t]; int n=x->rn[t];
  if(n && x->ridx[t][n-1]>=idx) return;
  if(n && x->rep[t][n-1]==ep){ x->ridx[t][n-1]=idx; return; }
  if(n==WR){ // forget the oldest read by pretending that the next one was made that early: a stronger constraint
    for(int i=1;i<WR;i++){ x->ridx[t][i-1]=x->ridx[t][i]; if(i>1) x->rep[t][i-1]=x->rep[t][i]; } n=WR-1; }
  x->rep[t][n]=ep; x->ridx[t][n]=idx; x->rn[t]=n+1;
}
static void fence_sc(int t){ W[t].c[t]=V[t].c[t]; vjoin(&Wf,&W[t]); vjoin(&Wsc,&W[t]); vjoin(&W[t],&Wsc); V[t].c[t]++; }
static void push_sc(int t){ W[t].c[t]=V[t].c[t]; vjoin(&Wsc,&W[t]); V[t].c[t]++; }
// the entry a load reads, or null for the memory itself
static went* wh_load(const void*p,int size,int sc){
  whist*x=wh_get((u64)p,0); if(!x||!x->n||x->size!=size) return 0;
  int t=g_cur; u32 last=x->first+x->n-1, lo=x->first;
  if(g_step<C.fair_after && (mix(C.seed^(g_step*7919+13))&((1ull<<C.weak_shift)-1))==0){
    for(u32 i=last;i>x->first;i--){ went*e=&x->s[i%WN];
      if(e->tid==255||e->tid==t||W[t].c[e->tid]>=e->ep||e->step+C.weak<=g_step||(sc&&(e->sc||Wf.c[e->tid]>=e->ep))){ lo=i; break; } }
    for(int u=0;u<MAXT;u++) for(int k=0;k<x->rn[u];k++) if(x->ridx[u][k]>lo && (u==t||W[t].c[u]>=x->rep[u][k])) lo=x->ridx[u][k];
    if(lo<last){ lo+=mix(C.seed^(g_step*104729+7))%(last-lo+1); if(lo<last) s_stale++; }
  } else lo=last;
  wh_read(x,lo);
  return &x->s[lo%WN];
}

// ---------------------------------------------------------------- TSO store buffers
typedef struct { u64 addr; u64 val; u8 size; u64 due; vc v, w; int hasv; } sbe;
#define SBN 8
static sbe SB[MAXT][SBN]; static int sbn[MAXT];
static void sync_store(u64 addr,const vc*v,const vc*w,int has){ syncv*s=sync_get(addr); s->has=has; if(has){ s->v=*v; s->w=*w; } else { memset(&s->v,0,sizeof s->v); memset(&s->w,0,sizeof s->w); } }
static void raw_store(u64 a,u64 v,int size){ switch(size){case 1:*(volatile u8*)a=v;break;case 2:*(volatile u16*)a=v;break;case 4:*(volatile u32*)a=v;break;default:*(volatile u64*)a=v;} }
static void sb_pop(int t){ sbe*e=&SB[t][0]; raw_store(e->addr,e->val,e->size); sync_store(e->addr,&e->v,&e->w,e->hasv); sbn[t]--; memmove(&SB[t][0],&SB[t][1],sizeof(sbe)*sbn[t]); s_flushes++; }
static void sb_flush(int t){ while(sbn[t]) sb_pop(t); }
static void sb_flush_all(void){ for(int t=0;t<MAXT;t++) sb_flush(t); }
static void tso_flush_range(u64 lo,u64 hi){ for(int t=0;t<MAXT;t++) for(int i=0;i<sbn[t];i++) if(SB[t][i].addr<hi && SB[t][i].addr+SB[t][i].size>lo){ sb_flush(t); break; } }
static inline void plain_hook(const void*p,u64 n,int w){
  if(sbn[g_cur]) { u64 lo=(u64)p,hi=lo+n; for(int i=0;i<sbn[g_cur];i++) if(SB[g_cur][i].addr<hi && SB[g_cur][i].addr+SB[g_cur][i].size>lo){ sb_flush(g_cur); break; } }
  if(in_arena(p)){ s_plain++; chk_access(p,n,w,0,w?"write":"read"); if(w&&C.weak&&g_in_threads) wh_forget((u64)p,(u64)p+n); }
}

// ---------------------------------------------------------------- scheduler
static int g_hold; // freeze_tid is being held back
static int runnable(int t){ return t_status[t]==T_RUN && !(g_hold && t==(int)C.freeze_tid); }
static int nrunnable(void){ int n=0; for(int t=1;t<=g_n;t++) n+=runnable(t); return n; }
static int pick_other(int cur){ int c[MAXT],n=0; for(int t=1;t<=g_n;t++) if(t!=cur&&runnable(t)&&t_stall_until[t]<=g_step) c[n++]=t; if(!n) for(int t=1;t<=g_n;t++) if(t!=cur&&runnable(t)) c[n++]=t; if(!n) return cur; return c[rng()%n]; }
static int rr_next(int cur){ for(int k=1;k<=g_n;k++){ int t=(cur-1+k)%g_n+1; if(runnable(t)) return t; } return 0; }
static void log_switch(int t){ /* forced choices are logged as tid+100 */ if(g_nlog<sizeof g_log/sizeof g_log[0]){ g_log[g_nlog].step=g_step; g_log[g_nlog].tid=t; g_nlog++; } }
static void switch_to(int t){
  int me=my_tid; if(t==me) return;
  s_switches++; g_cur=t; g_run_start=g_step; if(t_stall_until[t]==~0ull) t_stall_until[t]=0;
  baton_give(t); baton_wait(me);
  g_on=1;
}
static void dump_state(char*b,size_t n){ size_t u=0; b[0]=0; for(int t=1;t<=g_n;t++){ const char*s=t_status[t]==T_RUN?"runnable":t_status[t]==T_BLOCKED?"blocked":t_status[t]==T_DONE?"done":"idle"; u+=snprintf(b+u,n-u,"T%d:%s ",t,s);} }
// choose who runs when the current thread cannot
static int choose_forced(int cur){
  if(nrunnable()==0){ if(g_hold){ g_hold=0; if(nrunnable()==0) return 0; } else return 0; }
  if(g_frozen && runnable(C.freeze_tid)) return C.freeze_tid;
  if(C.policy==2){ while(g_iexpl<g_nexpl && (g_expl[g_iexpl].step<g_step || (g_expl[g_iexpl].step==g_step && g_expl[g_iexpl].tid<100))) g_iexpl++; if(g_iexpl<g_nexpl && g_expl[g_iexpl].step==g_step){ int t=(int)g_expl[g_iexpl++].tid-100; if(t>=1&&t<=g_n&&runnable(t)) return t; } return rr_next(cur); }
  if(g_step>C.fair_after) return rr_next(cur);
  if(C.policy==1){ int b=0; for(int t=1;t<=g_n;t++) if(runnable(t)&&(!b||t_prio[t]>t_prio[b])) b=t; return b; }
  return pick_other(cur);
}
static void limits(void){
  if(__builtin_expect(g_step>C.step_limit,0)){ char b[200]; dump_state(b,sizeof b); if(C.policy!=2||1) fail("nontermination","operations did not finish within %u steps although every thread kept being scheduled (%s, running T%d)",C.step_limit,b,g_cur); }
}
// how often each code location was reached in the concurrent phase of this case (policy 5)
static u64 g_site; static u16 g_visits[1024];
// the next gate of a thread, counted from where it is now
static void new_gate(int t){
  t_gate[t]=0;
  if(C.depth>5 && (t==2 || (t>2 && C.depth==6))) return;
  if(!(C.depth>5&&t==1) && rng()%4==0) return;
  t_gate_all[t]=rng()%3==0 && C.depth<=5;
  u32 most=1u<<(2+rng()%6); // 4..128
  if(C.horizon && most>C.horizon) most=C.horizon;
  t_gate[t]=t_count[t][t_gate_all[t]?0:1]+1+(u32)(rng()%(t_gate_all[t]?4*most:most));
}
// scheduling point. kind: 0 load, 1 store/rmw, 2 fence/other
static void point(int kind,const void*addr){
  g_step++;
  if(C.tso) for(int t=0;t<=g_n;t++) while(sbn[t]&&SB[t][0].due<=g_step) sb_pop(t);
  if(!g_in_threads){ limits(); return; }
  limits();
  int cur=g_cur;
  if(C.freeze_step && !g_frozen && g_step>=C.freeze_step && t_status[C.freeze_tid]==T_RUN){ g_frozen=1; g_hold=0; if(cur!=(int)C.freeze_tid){ log_switch(C.freeze_tid); switch_to(C.freeze_tid); } return; }
  if(g_frozen && t_status[C.freeze_tid]!=T_DONE){
    if(cur==(int)C.freeze_tid && ++g_solo_steps>C.solo_limit) fail("blocked-read","the reader T%d took more than %u of its own steps while every other thread was suspended",cur,C.solo_limit);
    return;
  }
  if(nrunnable()<=1) return;
  int target=cur;
  if(C.policy==2){
    while(g_iexpl<g_nexpl && g_expl[g_iexpl].step<g_step) g_iexpl++;
    if(g_iexpl<g_nexpl && g_expl[g_iexpl].step==g_step && g_expl[g_iexpl].tid<100){ int t=g_expl[g_iexpl++].tid; if(t>=1&&t<=g_n&&runnable(t)) target=t; }
    if(g_step>C.fair_after && (g_step-g_run_start)>=C.quantum) target=rr_next(cur);
  } else if(g_step>C.fair_after){
    if(g_step-g_run_start>=C.quantum) target=rr_next(cur);
  } else switch(C.policy){
    case 0: if((rng()&((1ull<<C.p_shift)-1))==0) target=pick_other(cur); break;
    case 3: { u32 sh=kind==0?C.p_shift+3:C.p_shift; if((rng()&((1ull<<sh)-1))==0) target=pick_other(cur); } break;
    case 1: {
      for(u32 i=0;i<g_nchange;i++) if(g_change[i]==g_step){ t_prio[cur]=--g_low; }
      if(g_step-g_run_start>3000){ t_prio[cur]=--g_low; }
      int b=cur; for(int t=1;t<=g_n;t++) if(runnable(t)&&t_prio[t]>t_prio[b]) b=t; target=b; } break;
    case 4: {
      for(u32 i=0;i<g_nchange;i++) if(g_change[i]<=g_step && kind!=0){ g_change[i]=~0ull; t_stall_until[cur]=g_step+C.horizon; target=pick_other(cur); }
      if(target==cur && (rng()&((1ull<<C.p_shift)-1))==0) target=pick_other(cur);
      } break;
    case 5: {
      u16*v=&g_visits[(g_site*0x9E3779B97F4A7C15ull)>>54]; if(*v<60000) ++*v;
      u64 d=((u64)*v)<<(kind==0?C.p_shift+2:C.p_shift);
      if(rng()%d==0){ if(rng()&1) t_stall_until[cur]=g_step+1+rng()%(C.horizon?C.horizon:1); target=pick_other(cur); }
      else if((rng()&255)==0) target=pick_other(cur);
      } break;
    case 6: {
      ++t_count[cur][0]; if(kind==1) ++t_count[cur][1];
      if(t_gate[cur] && (t_gate_all[cur]||kind==1) && t_count[cur][t_gate_all[cur]?0:1]>=t_gate[cur]){ t_stall_until[cur]=~0ull; new_gate(cur); target=pick_other(cur); }
      else if(C.p_shift && (rng()&((1ull<<(C.p_shift+6))-1))==0) target=pick_other(cur);
      } break;
  }
  if(target==cur && g_step-g_run_start>6000 && C.policy!=2) target=pick_other(cur);
  if(target!=cur){ s_preempt++; log_switch(target); switch_to(target); }
}
void rt_point(void){ if(g_on) point(2,0); }

static void block_on(void*addr){
  int me=my_tid;
  sb_flush(me);
  if(g_frozen && me==(int)C.freeze_tid && t_status[me]!=T_DONE) fail("blocked-read","the reader T%d blocked waiting for another thread while all others were suspended",me);
  if(!g_in_threads) fail("deadlock","a single thread with no concurrency blocked forever (step %llu)",(unsigned long long)g_step);
  t_status[me]=T_BLOCKED; t_addr[me]=addr; s_blocks++;
  int t=choose_forced(me);
  if(!t){ char b[200]; sb_flush_all(); dump_state(b,sizeof b); fail("deadlock","no thread can run: %s(step %llu)",b,(unsigned long long)g_step); }
  log_switch(t+100); switch_to(t);
}
static long do_futex(u32*addr,int op,u32 val){
  int cmd=op&FUTEX_CMD_MASK; int me=g_cur;
  if(cmd==FUTEX_WAIT||cmd==FUTEX_WAIT_BITSET){
    point(2,addr); sb_flush(me);
    if(*(volatile u32*)addr!=val) return -EAGAIN;
    if(C.spurious && g_in_threads && (mix(C.seed^g_step*77)&((1ull<<C.spurious)-1))==0) return -EINTR;
    block_on(addr); return 0;
  }
  if(cmd==FUTEX_WAKE||cmd==FUTEX_WAKE_BITSET){
    point(2,addr); sb_flush(g_cur); long n=0;
    for(int t=1;t<=g_n&&n<(long)val;t++) if(t_status[t]==T_BLOCKED&&t_addr[t]==addr){ t_status[t]=T_RUN; t_addr[t]=0; n++; s_wakes++; }
    point(2,addr);
    return n;
  }
  return -ENOSYS;
}
long syscall(long n,...){
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  long r;
  if(n==SYS_futex && g_on && my_tid>=0) r=do_futex((u32*)a,(int)b,(u32)c);
  else if(n==SYS_membarrier){
    if(a==MEMBARRIER_CMD_QUERY) r=MEMBARRIER_CMD_PRIVATE_EXPEDITED|MEMBARRIER_CMD_REGISTER_PRIVATE_EXPEDITED|MEMBARRIER_CMD_GLOBAL;
    else { if(g_on){ s_membar++; point(2,0); sb_flush_all(); if(C.weak){ for(int t=0;t<=g_n;t++) fence_sc(t); for(int t=0;t<=g_n;t++) fence_sc(t); } } r=0; }
  }
  else if(n==SYS_getrandom){ u8*p=(u8*)a; for(long i=0;i<b;i++) p[i]=(u8)(i*37+11); r=b; }
  else r=sys6(n,a,b,c,d,e,f);
  if(r<0&&r>-4096){ errno=-r; return -1; }
  return r;
}
ssize_t getrandom(void*buf,size_t n,unsigned fl){ u8*p=buf; for(size_t i=0;i<n;i++) p[i]=(u8)(i*37+11); (void)fl; return n; }
int sched_getaffinity(pid_t pid,size_t sz,cpu_set_t*set){ (void)pid; memset(set,0,sz); u32 n=C.cpus?C.cpus:2; for(u32 i=0;i<n;i++) ((u8*)set)[i/8]|=1<<(i%8); return 0; }
int open64(const char*path,int flags,...){ mode_t m=0; if(flags&(O_CREAT|O_TMPFILE)){ va_list ap; va_start(ap,flags); m=va_arg(ap,mode_t); va_end(ap);} if(strcmp(path,"/proc/self/cgroup")==0){ errno=ENOENT; return -1; } long r=sys6(SYS_openat,AT_FDCWD,(long)path,flags|O_LARGEFILE,m,0,0); if(r<0){ errno=-r; return -1; } return r; }

// ---------------------------------------------------------------- case / thread control (called from Rust, g_on==0)
static void pin(void){ /* one core per process is set by the parent through taskset-like call below */ }
void rt_pin(int cpu){ u8 m[128]; memset(m,0,sizeof m); m[cpu/8]|=1<<(cpu%8); sys6(SYS_sched_setaffinity,0,sizeof m,(long)m,0,0,0); }
int rt_real_cpus(void){ u8 m[128]; long r=sys6(SYS_sched_getaffinity,0,sizeof m,(long)m,0,0,0); int n=0; for(long i=0;i<r;i++) n+=__builtin_popcount(m[i]); return n; }
int rt_real_cpu_nth(int k){ u8 m[128]; long r=sys6(SYS_sched_getaffinity,0,sizeof m,(long)m,0,0,0); int n=0; for(long i=0;i<r*8;i++) if(m[i/8]>>(i%8)&1){ if(n==k) return i; n++; } return 0; }
static void on_sig(int s){ char b[64]; snprintf(b,sizeof b,"signal %d (%s)",s,s==SIGSEGV?"SIGSEGV":s==SIGBUS?"SIGBUS":s==SIGABRT?"SIGABRT":s==SIGILL?"SIGILL":"SIGFPE"); g_on=0; if(g_active_case) fail("crash","T%d step %llu: %s",g_cur,(unsigned long long)g_step,b); sys6(SYS_exit_group,13,0,0,0,0,0); }
static u8 altstk[1<<16];
void rt_thread_sig(void){ stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; sigaltstack(&ss,0); }
void rt_init(void){
  (void)altstk; (void)pin;
  void*p=mmap((void*)ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(p!=(void*)ARENA_BASE){ fprintf(stderr,"arena mmap failed\n"); _exit(2); }
  bstate=mmap(0,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  cells=mmap(0,sizeof(cell)*(ARENA_SIZE/8+1),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  recs=mmap(0,sizeof(arec)*MAXRECS,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  recidx=mmap(0,4*(ARENA_SIZE/8+1),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  syncs=mmap(0,sizeof(syncv)*SYNC_N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  wh=mmap(0,sizeof(whist)*WH_N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  whflag=mmap(0,ARENA_SIZE/8+16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_sig; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
  int sg[]={SIGSEGV,SIGBUS,SIGABRT,SIGILL,SIGFPE}; for(int i=0;i<5;i++) sigaction(sg[i],&sa,0);
  my_tid=0; rt_thread_sig();
}
void rt_case_begin(const rt_cfg*c,const rt_switch*ex,u32 nex){
  C=*c; g_gen++; g_expl=(rt_switch*)ex; g_nexpl=nex; g_iexpl=0;
  memset(bstate,0,a_top+64<ARENA_SIZE?a_top+64:ARENA_SIZE); memset(recidx,0,(a_top/8+16)*4);
  if(nwh) memset(whflag,0,a_top/8+16>ARENA_SIZE/8?ARENA_SIZE/8:a_top/8+16);
  nwh=0; memset(W,0,sizeof W); memset(Wacq,0,sizeof Wacq); memset(Wrel,0,sizeof Wrel); memset(&Wf,0,sizeof Wf); memset(&Wsc,0,sizeof Wsc);
  if(C.weak) C.tso=0;
  a_top=64; nrecs=0; nsync=0; g_live_zeroed=0; g_alloc_bytes_live=g_alloc_bytes_peak=g_alloc_count_live=g_alloc_total=0;
  g_step=0; g_solo_steps=0; g_frozen=0; g_cur=0; g_n=0; g_in_threads=0; g_nlog=0; g_rng=c->seed; g_run_start=0;
  memset(V,0,sizeof V); memset(Vacq,0,sizeof Vacq); memset(Vrel,0,sizeof Vrel); memset(hasrel,0,sizeof hasrel); memset(sbn,0,sizeof sbn);
  for(int t=0;t<MAXT;t++) V[t].c[t]=1;
  g_active_case=1;
}
void rt_case_end(void){ sb_flush_all(); g_active_case=0; g_on=0; }
void rt_sequential(void){ C.policy=2; g_nexpl=0; g_iexpl=0; C.freeze_step=0; C.tso=0; C.weak=0; C.spurious=0; g_frozen=0; C.fair_after=1u<<30; }
void rt_on(void){ g_on=1; }
void rt_off(void){ g_on=0; }
int rt_set(int v){ int o=g_on; g_on=v; return o; }
int rt_tid(void){ return g_cur; }
u64 rt_step(void){ return g_step; }
int rt_frozen(void){ return g_frozen; }
// a point the client can observe: stands for synchronisation of the client's own
void rt_flush_mine(void){ sb_flush(g_cur); if(C.weak&&g_in_threads&&!C.weak_nosync) fence_sc(g_cur); }
// asked by core's compare_exchange_weak (see build_m.sh)
int mh_cas_weak(void){ if(!g_on||!C.weak_cas||!g_in_threads||g_step>=C.fair_after) return 0; if(mix(C.seed^(g_step*31337+5))&((1ull<<C.weak_cas)-1)) return 0; s_spurcas++; return 1; }
void rt_stats2(u64*o){ o[0]=s_stale; o[1]=s_spurcas; }
u32 rt_log(rt_switch**out){ *out=g_log; return g_nlog; }
void rt_stats(u64*o){ o[0]=s_switches;o[1]=s_preempt;o[2]=s_blocks;o[3]=s_wakes;o[4]=s_atomics;o[5]=s_plain;o[6]=s_fences;o[7]=s_membar;o[8]=s_flushes;o[9]=s_allocs;o[10]=s_frees; o[11]=g_step; o[12]=g_solo_steps; o[13]=g_frozen; }
// tid 0: run logical threads 1..n to completion
void rt_run_threads(u32 n){
  g_n=n; sb_flush(0);
  u64 base=g_step;
  for(u32 t=1;t<=n;t++){ t_status[t]=T_RUN; t_addr[t]=0; t_stall_until[t]=0; vjoin(&V[t],&V[0]); vjoin(&W[t],&V[t]); vjoin(&W[t],&W[0]); t_prio[t]=(1ull<<40)+(rng()>>32); }
  V[0].c[0]++;
  g_low=1ull<<30; g_nchange=0; memset(g_visits,0,sizeof g_visits);
  if(C.policy==1||C.policy==4){ g_nchange=C.depth>60?60:C.depth; for(u32 i=0;i<g_nchange;i++) g_change[i]=base+1+rng()%(C.horizon?C.horizon:1); }
  if(C.policy==6) for(u32 k=1;k<=n;k++){ t_count[k][0]=t_count[k][1]=0; t_gate[k]=0; new_gate(k); }
  // freeze/limits are relative to the start of the concurrent phase
  if(C.freeze_step) C.freeze_step+=base; 
  C.fair_after+=base; C.step_limit+=base;
  g_hold=C.freeze_step&&C.hold_reader&&C.freeze_tid<=n&&n>1;
  g_in_threads=1; g_run_start=g_step;
  int t=C.policy==2?0:(C.policy==1?0:C.policy==6&&C.depth>5?1:(int)(1+rng()%n));
  if(!t||!runnable(t)) t=choose_forced((int)n);
  log_switch(t+100);
  g_cur=t; baton_give(t); baton_wait(0);
  g_in_threads=0; g_cur=0; g_on=0;
  for(u32 k=1;k<=n;k++){ sb_flush(k); vjoin(&V[0],&V[k]); vjoin(&W[0],&W[k]); vjoin(&W[0],&V[k]); }
  C.step_limit+=g_step-base;
}
void rt_worker_register(int tid){ my_tid=tid; rt_thread_sig(); }
void rt_worker_wait(int tid){ baton_wait(tid); g_on=0; }
void rt_worker_done(int tid){
  g_on=0; sb_flush(tid); t_status[tid]=T_DONE; V[tid].c[tid]++;
  if(g_frozen && tid==(int)C.freeze_tid) g_frozen=2;
  int all=1; for(int t=1;t<=g_n;t++) if(t_status[t]!=T_DONE) all=0;
  if(all){ g_cur=0; baton_give(0); return; }
  int t=choose_forced(tid);
  if(!t){ char b[200]; dump_state(b,sizeof b); fail("deadlock","no thread can run: %s(step %llu)",b,(unsigned long long)g_step); }
  log_switch(t+100); g_cur=t; g_run_start=g_step; baton_give(t);
}

// ---------------------------------------------------------------- __tsan_* plain accesses
#define R(n) void __tsan_read##n(void*p){ if(g_on) plain_hook(p,n,0);} void __tsan_write##n(void*p){ if(g_on) plain_hook(p,n,1);} \
  void __tsan_unaligned_read##n(void*p){ if(g_on) plain_hook(p,n,0);} void __tsan_unaligned_write##n(void*p){ if(g_on) plain_hook(p,n,1);} \
  void __tsan_read##n##_pc(void*p,void*q){ (void)q; if(g_on) plain_hook(p,n,0);} void __tsan_write##n##_pc(void*p,void*q){ (void)q; if(g_on) plain_hook(p,n,1);} \
  void __tsan_read_write##n(void*p){ if(g_on){ plain_hook(p,n,0); plain_hook(p,n,1);} } void __tsan_unaligned_read_write##n(void*p){ if(g_on){ plain_hook(p,n,0); plain_hook(p,n,1);} } \
  void __tsan_volatile_read##n(void*p){ if(g_on) plain_hook(p,n,0);} void __tsan_volatile_write##n(void*p){ if(g_on) plain_hook(p,n,1);} \
  void __tsan_unaligned_volatile_read##n(void*p){ if(g_on) plain_hook(p,n,0);} void __tsan_unaligned_volatile_write##n(void*p){ if(g_on) plain_hook(p,n,1);}
R(1) R(2) R(4) R(8) R(16)
void __tsan_read_range(void*p,u64 n){ if(g_on&&n) plain_hook(p,n,0);} void __tsan_write_range(void*p,u64 n){ if(g_on&&n) plain_hook(p,n,1);}
void __tsan_init(void){} void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){}
void __tsan_vptr_update(void**p,void*v){(void)p;(void)v;} void __tsan_vptr_read(void**p){(void)p;}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
void __tsan_acquire(void*p){(void)p;} void __tsan_release(void*p){(void)p;}
void* __tsan_memcpy(void*d,const void*s,size_t n){ if(g_on&&n){ plain_hook(s,n,0); plain_hook(d,n,1);} return memcpy(d,s,n);} 
void* __tsan_memmove(void*d,const void*s,size_t n){ if(g_on&&n){ plain_hook(s,n,0); plain_hook(d,n,1);} return memmove(d,s,n);} 
void* __tsan_memset(void*d,int c,size_t n){ if(g_on&&n) plain_hook(d,n,1); return memset(d,c,n);} 

// ---------------------------------------------------------------- __tsan_* atomics
enum {MO_RLX,MO_CON,MO_ACQ,MO_REL,MO_AR,MO_SC};
static inline int is_acq(int m){ return m==MO_ACQ||m==MO_CON||m==MO_AR||m==MO_SC; }
static inline int is_rel(int m){ return m==MO_REL||m==MO_AR||m==MO_SC; }
static void hb_take(int mo,const vc*v,const vc*w){ int t=g_cur; if(is_acq(mo)){ vjoin(&V[t],v); if(C.weak){ vjoin(&W[t],v); vjoin(&W[t],w); } } else { vjoin(&Vacq[t],v); if(C.weak){ vjoin(&Wacq[t],v); vjoin(&Wacq[t],w); } } }
static void hb_load(u64 a,int mo){ syncv*s=sync_get(a); if(!s->has) return; hb_take(mo,&s->v,&s->w); }
static void hb_store_vc(int mo,vc*out,vc*w,int*has){ int t=g_cur; W[t].c[t]=V[t].c[t]; if(is_rel(mo)){ *out=V[t]; *w=W[t]; *has=1; V[t].c[t]++; } else if(hasrel[t]){ *out=Vrel[t]; *w=Wrel[t]; *has=1; } else { memset(out,0,sizeof*out); memset(w,0,sizeof*w); *has=0; } }
static void hb_rmw(u64 a,int mo){ int t=g_cur; hb_load(a,mo); W[t].c[t]=V[t].c[t]; syncv*s=sync_get(a); if(is_rel(mo)){ vjoin(&s->v,&V[t]); vjoin(&s->w,&W[t]); s->has=1; V[t].c[t]++; } else if(hasrel[t]){ vjoin(&s->v,&Vrel[t]); vjoin(&s->w,&Wrel[t]); s->has=1; } /* relaxed RMW continues the release sequence */ }
// bookkeeping of an atomic write in weak mode, before the memory changes; ep: the epoch the write belongs to
static void weak_rmw(const volatile void*p,int size,u64 old,u64 val,int mo,u32 ep){ if(mo==MO_SC) push_sc(g_cur); if(!weak_on((const void*)p)) return; syncv*s=sync_get((u64)p); wh_store((u64)p,size,old,val,&s->v,&s->w,s->has,mo==MO_SC); whist*x=wh_get((u64)p,0); if(x&&x->n){ x->s[(x->first+x->n-1)%WN].ep=ep; wh_read(x,x->first+x->n-1); } }
static void weak_miss(const volatile void*p,int size){ if(!weak_on((const void*)p)) return; whist*x=wh_get((u64)p,0); if(x&&x->n&&x->size==size) wh_read(x,x->first+x->n-1); }
static int sb_find(int t,u64 a,int size,u64*out){ for(int i=sbn[t]-1;i>=0;i--){ sbe*e=&SB[t][i]; if(e->addr==a&&e->size==size){ *out=e->val; return 1; } if(e->addr<a+size&&e->addr+e->size>a){ sb_flush(t); return 0; } } return 0; }
static inline __attribute__((always_inline)) void apre(const void*p,int n,int write,const char*what){ s_atomics++; g_site=(u64)__builtin_return_address(0)-(u64)&g_on; point(write?1:0,p); if(in_arena(p)) chk_access(p,n,write,1,what); }

#define ATOM(N,T) \
T __tsan_atomic##N##_load(const volatile T*p,int mo){ if(!g_on) return __atomic_load_n(p,__ATOMIC_SEQ_CST); \
  apre((const void*)p,sizeof(T),0,"load"); u64 v; if(sbn[g_cur]&&sb_find(g_cur,(u64)p,sizeof(T),&v)) return (T)v; \
  if(weak_on((const void*)p)){ went*e=wh_load((const void*)p,sizeof(T),mo==MO_SC); if(e){ if(e->has) hb_take(mo,&e->v,&e->w); return (T)e->val; } } \
  hb_load((u64)p,mo); return *p; } \
void __tsan_atomic##N##_store(volatile T*p,T v,int mo){ if(!g_on){ __atomic_store_n(p,v,__ATOMIC_SEQ_CST); return; } \
  apre((const void*)p,sizeof(T),1,"store"); vc o,w; int h; int t=g_cur; u32 ep=V[t].c[t]; hb_store_vc(mo,&o,&w,&h); \
  if(C.tso&&g_in_threads&&mo!=MO_SC){ if(sbn[t]==SBN) sb_pop(t); sbe*e=&SB[t][sbn[t]++]; e->addr=(u64)p;e->val=(u64)v;e->size=sizeof(T);e->due=g_step+1+mix(C.seed^(g_step*1000003))%C.tso;e->v=o;e->w=w;e->hasv=h; return; } \
  sb_flush(t); if(C.weak){ if(weak_on((const void*)p)){ wh_store((u64)p,sizeof(T),*p,v,&o,&w,h,mo==MO_SC); whist*x=wh_get((u64)p,0); if(x&&x->n){ x->s[(x->first+x->n-1)%WN].ep=ep; wh_read(x,x->first+x->n-1); } } if(mo==MO_SC){ push_sc(t); } } \
  *p=v; sync_store((u64)p,&o,&w,h); } \
T __tsan_atomic##N##_exchange(volatile T*p,T v,int mo){ if(!g_on) return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST); apre((const void*)p,sizeof(T),1,"exchange"); sb_flush(g_cur); T o=*p; u32 ep=V[g_cur].c[g_cur]; hb_rmw((u64)p,mo); if(C.weak) weak_rmw(p,sizeof(T),o,v,mo,ep); *p=v; return o; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T*p,T e,T v,int mo,int fmo){ if(!g_on){ T x=e; __atomic_compare_exchange_n(p,&x,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return x; } \
  apre((const void*)p,sizeof(T),1,"compare-exchange"); sb_flush(g_cur); T o=*p; if(o==e){ u32 ep=V[g_cur].c[g_cur]; hb_rmw((u64)p,mo); if(C.weak) weak_rmw(p,sizeof(T),o,v,mo,ep); *p=v; } else { if(C.weak) weak_miss(p,sizeof(T)); hb_load((u64)p,fmo); } return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T*p,T*e,T v,int mo,int fmo){ T o=__tsan_atomic##N##_compare_exchange_val(p,*e,v,mo,fmo); if(o==*e) return 1; *e=o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T*p,T*e,T v,int mo,int fmo){ return __tsan_atomic##N##_compare_exchange_strong(p,e,v,mo,fmo); } \
RMW(N,T,fetch_add,o+v) RMW(N,T,fetch_sub,o-v) RMW(N,T,fetch_and,o&v) RMW(N,T,fetch_or,o|v) RMW(N,T,fetch_xor,o^v) RMW(N,T,fetch_nand,~(o&v))
#define RMW(N,T,name,expr) T __tsan_atomic##N##_##name(volatile T*p,T v,int mo){ if(!g_on){ T o=__atomic_load_n(p,__ATOMIC_SEQ_CST); for(;;){ T nv=(T)(expr); if(__atomic_compare_exchange_n(p,&o,nv,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)) return o; } } \
  apre((const void*)p,sizeof(T),1,#name); sb_flush(g_cur); T o=*p; u32 ep=V[g_cur].c[g_cur]; hb_rmw((u64)p,mo); if(C.weak) weak_rmw(p,sizeof(T),o,(T)(expr),mo,ep); *p=(T)(expr); return o; }
ATOM(8,u8) ATOM(16,u16) ATOM(32,u32) ATOM(64,u64)
void __tsan_atomic_thread_fence(int mo){ if(!g_on) { __sync_synchronize(); return; } s_fences++; point(2,0); int t=g_cur; if(mo==MO_SC) sb_flush(t);
  if(is_acq(mo)){ vjoin(&V[t],&Vacq[t]); if(C.weak){ vjoin(&W[t],&Wacq[t]); vjoin(&W[t],&V[t]); } }
  if(C.weak&&mo==MO_SC) fence_sc(t);
  if(is_rel(mo)){ W[t].c[t]=V[t].c[t]; Vrel[t]=V[t]; Wrel[t]=W[t]; hasrel[t]=1; V[t].c[t]++; } }
void __tsan_atomic_signal_fence(int mo){ (void)mo; }
