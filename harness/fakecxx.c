/* Stand-in for the C++ compiler driver: records what it was asked to compile from what sources, and links the records.
   FAKE_DIR: counter and lock. FAKE_PLAN: fail@k | int@k | kill@k for the k-th compilation or link of this command. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <glob.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <stdint.h>
static uint64_t fnv(uint64_t h,const char*p,size_t n){ for(size_t i=0;i<n;i++){ h^=(unsigned char)p[i]; h*=1099511628211ull; } return h; }
static char* slurp(const char*f,size_t*n){ FILE*a=fopen(f,"rb"); if(!a) return 0; char*b=0; *n=0; size_t c=0,k; do{ if(*n+65536>c){ c=2*c+131072; b=realloc(b,c);} k=fread(b+*n,1,65536,a); *n+=k; }while(k); fclose(a); return b; }
static int tick(void){ char f[4096]; snprintf(f,sizeof f,"%s/n",getenv("FAKE_DIR")); int d=open(f,O_RDWR|O_CREAT,0644); flock(d,LOCK_EX); char b[32]={0}; read(d,b,31); int k=atoi(b)+1; lseek(d,0,0); dprintf(d,"%d\n",k); close(d); return k; }
static const char* base(const char*p){ const char*q=strrchr(p,'/'); return q?q+1:p; }
static int ends(const char*a,const char*e){ size_t n=strlen(a),m=strlen(e); return n>=m&&!strcmp(a+n-m,e); }
static char flags[65536];
/* one record: U name srchash hdrhash flags */
static void record(FILE*o,const char*src){
    size_t n; char*b=slurp(src,&n); if(!b){ fprintf(stderr,"fakecxx: no %s\n",src); exit(1); }
    uint64_t h=fnv(1469598103934665603ull,b,n),g=1469598103934665603ull;
    char dir[4096]; snprintf(dir,sizeof dir,"%s",src); char*q=strrchr(dir,'/'); if(q) q[1]=0; else dir[0]=0;
    const char* ds[2]={dir,"../Source/"};
    for(int k=0;k<1;k++){ char pat[4200]; glob_t gl; snprintf(pat,sizeof pat,"%s*.h*",ds[k]); if(!glob(pat,0,0,&gl)) for(size_t i=0;i<gl.gl_pathc;i++){ size_t m; char*c=slurp(gl.gl_pathv[i],&m); if(c){ const char*nm=base(gl.gl_pathv[i]); g=fnv(g,nm,strlen(nm)+1); g=fnv(g,c,m); free(c);} } }
    fprintf(o,"#U %s %016llx %016llx%s\n",base(src),(unsigned long long)h,(unsigned long long)g,flags);
}
int main(int argc,char**argv){
    int c=0; const char*out=0; char*in[1024]; int ni=0;
    for(int i=1;i<argc;i++){ char*a=argv[i];
        if(!strcmp(a,"-c")) c=1; else if(!strcmp(a,"-o")) out=argv[++i]; else if(!strncmp(a,"-o",2)) out=a+2;
        else if(ends(a,".cpp")||ends(a,".o")||ends(a,".a")) in[ni++]=a;
        else if(!strcmp(a,"-I")||!strcmp(a,"-L")||!strcmp(a,"-l")||!strcmp(a,"-x")) i++;
        else if(!strcmp(a,"-D")||!strcmp(a,"-U")){ strcat(flags," "); strcat(flags,a); strcat(flags,argv[++i]); }
        else if(!strncmp(a,"-D",2)||!strncmp(a,"-U",2)||!strcmp(a,"-fopenmp")){ strcat(flags," "); strcat(flags,a); } }
    if(!ni) return 0;
    int k=tick(); const char*pl=getenv("FAKE_PLAN"); char what[16]=""; int at=-1; if(pl) sscanf(pl,"%15[a-z]@%d",what,&at);
    char ob[4096]; if(!out){ if(c){ snprintf(ob,sizeof ob,"%s",base(in[0])); strcpy(strrchr(ob,'.'),".o"); out=ob; } else out="a.out"; }
    if(k==at){
        if(!strcmp(what,"fail")){ unlink(out); fprintf(stderr,"error: injected\n"); return 1; }
        FILE*o=fopen(out,"wb"); fputs("#PARTIAL\n",o); fclose(o);   /* a half-written output */
        kill(0,!strcmp(what,"kill")?SIGKILL:SIGINT); pause();
    }
    char tmp[4200]; snprintf(tmp,sizeof tmp,"%s",out); FILE*o=fopen(tmp,"wb"); if(!o){ perror(out); return 1; }
    if(!c) fputs("#!/bin/sh\ncat \"$0\" > \"$2/ran.exe\"\nexit 0\n",o);
    for(int i=0;i<ni;i++){
        if(ends(in[i],".cpp")) record(o,in[i]);
        else { size_t n; char*b=slurp(in[i],&n); if(!b){ fprintf(stderr,"fakecxx: no %s\n",in[i]); fclose(o); unlink(out); return 1; } if(!strncmp(b,"#PARTIAL",8)){ fprintf(stderr,"%s: file format not recognized\n",in[i]); fclose(o); unlink(out); return 1; } fwrite(b,1,n,o); free(b); }
    }
    fclose(o); if(!c) chmod(out,0755); return 0;
}
