/* native runtime for harnesses: replay of recorded inputs, or a seeded search */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
typedef unsigned long long u64;
extern void VH_ENTRY(void);
static u64 *vals; static size_t nvals, pos, cap;
static int searching; static u64 rs; static const char *outf;
static u64 rnd(void){ rs ^= rs<<13; rs ^= rs>>7; rs ^= rs<<17; return rs*2685821657736338717ULL; }
static void rec(u64 v){ if(nvals==cap){cap=cap?2*cap:256; vals=realloc(vals,cap*sizeof *vals);} vals[nvals++]=v; }
static void dump(void){ FILE*f; size_t i; if(!outf) return; f=fopen(outf,"w"); if(!f) return; for(i=0;i<nvals;i++) fprintf(f,"%llu\n",vals[i]); fclose(f);}
static void die(int code){ fflush(stdout); if(searching && code==1) dump(); _exit(code); }
void vh_assume(int c){ if(!c) die(77); }
void vh_stop(void){ die(0); }
void vh_check(int c,const char*name){ if(!c){ fprintf(stderr,"VH-FAIL: %s\n",name); fflush(stderr); die(1);} }
u64 vin(void){ u64 v;
  if(searching){ u64 r=rnd(); switch(r&7){case 0: v=rnd()&1; break; case 1: v=rnd()&0xff; break; case 2: v=rnd()|0xffffffff00000000ULL; v&=0xffffffffULL; break; case 3: v=~(rnd()&0xf); break; case 4: v=1ULL<<(rnd()&63); break; default: v=rnd(); } rec(v); return v; }
  if(pos>=nvals) return 0; return vals[pos++]; }
u64 vin_range(u64 lo,u64 hi){ u64 v;
  if(searching){ u64 w=hi-lo; u64 r=rnd(); u64 k=rnd(); switch(r&7){case 0: v=lo; break; case 1: v=hi; break; case 2: v=lo+(w? (k&3)%(w==~0ULL?w:w+1):0); break; case 3: v=hi-(w?(k&3)%(w==~0ULL?w:w+1):0); break; default: v=(w==~0ULL)?k:lo+k%(w+1);} rec(v); return v; }
  v=vin(); if(v<lo||v>hi) die(77); return v; }
static void onsig(int s){ static const char m[]="VH-FAIL: crash (memory or arithmetic fault) in the code under test\n"; (void)s; if(write(2,m,sizeof m-1)){} if(searching) dump(); _exit(1); }
static void onalrm(int s){ static const char m[]="VH-FAIL: the code under test does not terminate\n"; (void)s; if(write(2,m,sizeof m-1)){} if(searching) dump(); _exit(1); }
void __asan_on_error(void){ if(searching) dump(); }
int main(void){
  const char*vf=getenv("VH_VALUES"),*sv=getenv("VH_SEARCH"); outf=getenv("VH_OUT");
  signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGSEGV,onsig); signal(SIGBUS,onsig); signal(SIGALRM,onalrm);
  if(sv){ unsigned long n,sec; u64 sd,i; double t0; if(sscanf(sv,"%lu,%llu,%lu",&n,&sd,&sec)!=3) return 2; t0=(double)time(NULL);
    for(i=0;i<n;i++){ int st; pid_t p;
      if((double)time(NULL)-t0>sec) break;
      p=fork(); if(p<0) return 2;
      if(!p){ searching=1; rs=(sd*1000003ULL+i+1)*0x9E3779B97F4A7C15ULL|1; rnd();rnd(); alarm(10); VH_ENTRY(); _exit(0); }
      waitpid(p,&st,0);
      if(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==77)) continue;
      if(WIFSIGNALED(st)&&(WTERMSIG(st)==SIGKILL)) continue;
      fprintf(stderr,"VH-SEARCH: iteration %llu failed (status %x)\n",i,st); return 1; }
    fprintf(stderr,"VH-SEARCH: %llu iterations, none failed\n",i);
    return 0; }
  if(vf){ FILE*f=fopen(vf,"r"); u64 v; if(!f) return 2; while(fscanf(f,"%llu",&v)==1) rec(v); fclose(f); }
  alarm(getenv("VH_ALARM")?atoi(getenv("VH_ALARM")):60);
  VH_ENTRY(); fflush(stdout);
  return 0; }
