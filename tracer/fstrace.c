/* Runs a program under ptrace and acts on its file-system operations.
 *   fstrace LOG PLAN exe args...
 * Operations are numbered from 0: opens for writing, writes to such files, their closes, and every
 * call that changes the name space. PLAN is a comma-separated list of
 *   kill@K          SIGKILL before operation K
 *   torn@K:N        perform only the first N bytes of write K, then SIGKILL
 *   err@K:E         operation K fails with errno E
 *   short@K:N       write K transfers N bytes only, the program goes on
 *   openerr=P:E     every open for writing of a path whose base name is P fails with E
 *   writeerr=P:E:B  every write to base name P fails with E once B bytes of it have been accepted in total (a full disk: the part that fits is accepted)
 *   allopen:E / allwrite:E:K   every open / every write from operation K on fails
 *   killout@N       SIGKILL after write N (from 0) to standard output
 * LOG: one line per operation: K name path arg result
 * Exit status: that of the program, 128+signal if it was killed. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#define MAXFD 1024
static char *fdpath[MAXFD]; static long fdbytes[MAXFD];
static FILE *lg; static long opn=0;
struct plan { int kind; long k,n; int e; char *p; } pl[4096]; static int npl=0;
enum { KILL,TORN,ERR,SHORT,OPENERR,WRITEERR,ALLOPEN,ALLWRITE,KILLOUT };
static long nout=0;
static void parse(char *s)
{
   for (char *t=strtok(s,","); t; t=strtok(0,",")) {
      struct plan *q=&pl[npl++]; char *a;
      if (!strncmp(t,"kill@",5)) { q->kind=KILL; q->k=atol(t+5); }
      else if (!strncmp(t,"torn@",5)) { q->kind=TORN; sscanf(t+5,"%ld:%ld",&q->k,&q->n); }
      else if (!strncmp(t,"err@",4)) { q->kind=ERR; sscanf(t+4,"%ld:%d",&q->k,&q->e); }
      else if (!strncmp(t,"short@",6)) { q->kind=SHORT; sscanf(t+6,"%ld:%ld",&q->k,&q->n); }
      else if (!strncmp(t,"killout@",8)) { q->kind=KILLOUT; q->k=atol(t+8); }
      else if (!strncmp(t,"openerr=",8)) { q->kind=OPENERR; q->p=t+8; a=strchr(q->p,':'); *a=0; q->e=atoi(a+1); }
      else if (!strncmp(t,"writeerr=",9)) { q->kind=WRITEERR; q->p=t+9; a=strchr(q->p,':'); *a=0; sscanf(a+1,"%d:%ld",&q->e,&q->n); }
      else if (!strncmp(t,"allopen:",8)) { q->kind=ALLOPEN; sscanf(t+8,"%d:%ld",&q->e,&q->k); }
      else if (!strncmp(t,"allwrite:",9)) { q->kind=ALLWRITE; sscanf(t+9,"%d:%ld",&q->e,&q->k); }
      else if (strcmp(t,"none")) { fprintf(stderr,"bad plan %s\n",t); exit(125); } else npl--;
   }
}
static const char *base(const char *p) { const char *s=strrchr(p,'/'); return s?s+1:p; }
static char *str(pid_t pid,unsigned long a)
{
   static char b[4096]; struct iovec l={b,sizeof b-1}; size_t n=0; memset(b,0,sizeof b);
   while (n<sizeof b-1) { errno=0; long w=ptrace(PTRACE_PEEKDATA,pid,a+n,0); if (errno) break; memcpy(b+n,&w,sizeof w>sizeof b-1-n?sizeof b-1-n:sizeof w); for (int i=0;i<8&&n+i<sizeof b;i++) if (!b[n+i]) return b; n+=8; }
   (void)l; return b;
}
static long peek(pid_t p,unsigned long a) { return ptrace(PTRACE_PEEKDATA,p,a,0); }
static void poke(pid_t p,unsigned long a,long v) { ptrace(PTRACE_POKEDATA,p,a,v); }
#define NTH 64
static struct th { pid_t pid; int in; /* pending action on exit */ int op; long k; int fail; int fd; long len; int killafter; unsigned long iov; long saved[64]; int niov; char path[4096]; long nr; int isopen; } T[NTH];
static struct th *get(pid_t p) { for (int i=0;i<NTH;i++) if (T[i].pid==p) return &T[i]; for (int i=0;i<NTH;i++) if (!T[i].pid) { memset(&T[i],0,sizeof T[i]); T[i].pid=p; return &T[i]; } exit(125); }
static pid_t root;
static void kill_all(void) { kill(root,SIGKILL); for (int i=0;i<NTH;i++) if (T[i].pid) kill(T[i].pid,SIGKILL); }
static const char *nsname(long nr)
{
   switch (nr) { case SYS_unlink: case SYS_unlinkat: return "unlink"; case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename"; case SYS_mkdir: case SYS_mkdirat: return "mkdir"; case SYS_rmdir: return "rmdir"; case SYS_truncate: return "truncate"; case SYS_ftruncate: return "ftruncate"; case SYS_link: case SYS_linkat: return "link"; case SYS_symlink: case SYS_symlinkat: return "symlink"; case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: return "chmod"; case SYS_chdir: return "chdir"; }
   return 0;
}
static void entry(struct th *t)
{
   struct user_regs_struct r; ptrace(PTRACE_GETREGS,t->pid,0,&r); const long nr=r.orig_rax; t->op=0; t->fail=0; t->killafter=0; t->iov=0; t->isopen=0; t->nr=nr; const char *name=0; long arg=0; int wr=0;
   if (nr==SYS_open||nr==SYS_openat||nr==SYS_creat) { const unsigned long pa=nr==SYS_openat?r.rsi:r.rdi; const long fl=nr==SYS_openat?r.rdx:nr==SYS_creat?O_WRONLY|O_CREAT|O_TRUNC:(long)r.rsi;
      if (!(fl&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))) return; strncpy(t->path,str(t->pid,pa),sizeof t->path-1); if (!strncmp(t->path,"/dev/",5)||!strncmp(t->path,"/proc/",6)) return; name="open"; arg=fl; t->isopen=1; }
   else if ((nr==SYS_write||nr==SYS_writev)&&r.rdi==1&&!fdpath[1]) { const long k=nout++; for (int i=0;i<npl;i++) if (pl[i].kind==KILLOUT&&pl[i].k==k) { t->op=2; t->killafter=1; } return; }
   else if (nr==SYS_write||nr==SYS_writev||nr==SYS_pwrite64) { if (r.rdi>=MAXFD||!fdpath[r.rdi]) return; name="write"; t->fd=r.rdi; strcpy(t->path,fdpath[r.rdi]); wr=1;
      if (nr==SYS_writev) { for (unsigned long i=0;i<r.rdx;i++) arg+=peek(t->pid,r.rsi+16*i+8); } else arg=r.rdx; }
   else if (nr==SYS_close) { if (r.rdi>=MAXFD||!fdpath[r.rdi]) return; name="close"; t->fd=r.rdi; strcpy(t->path,fdpath[r.rdi]); }
   else if (nr==SYS_dup||nr==SYS_dup2||nr==SYS_dup3||nr==SYS_mmap) return;
   else if ((name=nsname(nr))) { strncpy(t->path,(nr==SYS_ftruncate||nr==SYS_fchmod)?(r.rdi<MAXFD&&fdpath[r.rdi]?fdpath[r.rdi]:"?"):str(t->pid,(nr==SYS_unlinkat||nr==SYS_mkdirat||nr==SYS_renameat||nr==SYS_renameat2||nr==SYS_fchmodat)?r.rsi:r.rdi),sizeof t->path-1); }
   else return;
   t->op=1; t->k=opn++; t->len=arg; fprintf(lg,"%ld %s %s %ld ",t->k,name,t->path,arg); fflush(lg);
   long cut=-1; int err=0;
   for (int i=0;i<npl;i++) { struct plan *q=&pl[i];
      if (q->kind==KILL&&q->k==t->k) { fprintf(lg,"killed\n"); fflush(lg); kill_all(); return; }
      if (q->kind==TORN&&q->k==t->k&&wr) { cut=q->n; t->killafter=1; }
      if (q->kind==SHORT&&q->k==t->k&&wr) cut=q->n;
      if (q->kind==ERR&&q->k==t->k) err=q->e;
      if (q->kind==OPENERR&&t->isopen&&!strcmp(q->p,base(t->path))) err=q->e;
      if (q->kind==ALLOPEN&&t->isopen&&t->k>=q->k) err=q->e;
      if (q->kind==ALLWRITE&&wr&&t->k>=q->k) err=q->e;
      if (q->kind==WRITEERR&&wr&&!strcmp(q->p,base(t->path))) { const long room=q->n-fdbytes[t->fd]; if (room<=0) err=q->e; else if (room<arg) cut=room; } }
   if (err) { r.orig_rax=-1; t->fail=err; ptrace(PTRACE_SETREGS,t->pid,0,&r); return; }
   if (cut>=0&&cut<arg) {
      if (nr==SYS_writev) { t->iov=r.rsi; t->niov=r.rdx>64?64:r.rdx; long left=cut; for (int i=0;i<t->niov;i++) { t->saved[i]=peek(t->pid,r.rsi+16*i+8); long n=t->saved[i]<left?t->saved[i]:left; poke(t->pid,r.rsi+16*i+8,n); left-=n; } }
      else { r.rdx=cut; ptrace(PTRACE_SETREGS,t->pid,0,&r); } }
}
static void leave(struct th *t)
{
   if (!t->op) return;
   if (t->op==2) { t->op=0; kill_all(); return; }
   struct user_regs_struct r; ptrace(PTRACE_GETREGS,t->pid,0,&r);
   if (t->fail) { r.rax=-(long)t->fail; ptrace(PTRACE_SETREGS,t->pid,0,&r); }
   const long res=r.rax;
   if (t->iov) for (int i=0;i<t->niov;i++) poke(t->pid,t->iov+16*i+8,t->saved[i]);
   if (t->isopen&&res>=0&&res<MAXFD) { free(fdpath[res]); fdpath[res]=strdup(t->path); fdbytes[res]=0; }
   if ((t->nr==SYS_write||t->nr==SYS_writev||t->nr==SYS_pwrite64)&&res>0) fdbytes[t->fd]+=res;
   if (t->nr==SYS_close&&!t->fail) { free(fdpath[t->fd]); fdpath[t->fd]=0; }
   fprintf(lg,"%ld\n",res); fflush(lg); t->op=0;
   if (t->killafter) kill_all();
}
int main(int c,char **v)
{
   if (c<4) return 125; lg=fopen(v[1],"we"); parse(strdup(v[2]));
   root=fork();
   if (!root) { ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); execv(v[3],v+3); _exit(126); }
   int st; waitpid(root,&st,0); ptrace(PTRACE_SETOPTIONS,root,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_EXITKILL|PTRACE_O_TRACECLONE|PTRACE_O_TRACEFORK|PTRACE_O_TRACEVFORK|PTRACE_O_TRACEEXEC);
   get(root); ptrace(PTRACE_SYSCALL,root,0,0); int code=0;
   for (;;) { pid_t p=waitpid(-1,&st,__WALL); if (p<0) break; struct th *t=get(p);
      if (WIFEXITED(st)||WIFSIGNALED(st)) { if (p==root) code=WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); t->pid=0; continue; }
      if (!WIFSTOPPED(st)) continue; int sig=WSTOPSIG(st);
      if (sig==(SIGTRAP|0x80)) { struct __ptrace_syscall_info si; memset(&si,0,sizeof si); if (ptrace(PTRACE_GET_SYSCALL_INFO,p,(void*)sizeof si,&si)>0) t->in=(si.op==PTRACE_SYSCALL_INFO_ENTRY); else t->in=!t->in; if (t->in) entry(t); else leave(t); sig=0; }
      else if (st>>16) sig=0; else if (sig==SIGSTOP) sig=0;
      if (kill(p,0)==0) ptrace(PTRACE_SYSCALL,p,0,sig); }
   fclose(lg); return code;
}
