// Running the xmq command line tool on scratch files only. The working directory is the worker's scratch directory.
#pragma once
#include "mc.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
namespace cli {
using std::string; using std::vector;
struct R { int status=-1, sig=0; bool timeout=false; string out, err; bool ok() const { return status==0; } };
static inline string slurp(int fd)
{
    string s; char b[65536]; lseek(fd,0,SEEK_SET); ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); return s;
}
static inline int mem(const string &s) { int fd=memfd_create("in",0); size_t o=0; while (o<s.size()) { ssize_t n=write(fd,s.data()+o,s.size()-o); if (n<=0) break; o+=n; } lseek(fd,0,SEEK_SET); return fd; }
static inline string file(const string &p) { int fd=open(p.c_str(),O_RDONLY); if (fd<0) return "(no file)"; string s=slurp(fd); close(fd); return s; }
static inline bool exists(const string &p) { struct stat st; return !lstat(p.c_str(),&st); }
static inline void put(const string &p, const string &s) { int fd=open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); size_t o=0; while (o<s.size()) { ssize_t n=write(fd,s.data()+o,s.size()-o); if (n<=0) break; o+=n; } close(fd); }
// infd/outfd: use these descriptors instead of the given input / a captured output
// fsize: no file grows beyond this many bytes (writes are cut short, then fail), the messages go through a pipe then
struct Opt { int infd=-1, outfd=-1; vector<string> env; int cpu=10, wall=20; string preload; bool closed_in=false, closed_out=false; long fsize=-1; };
static inline R exec(const vector<string> &args, const string &in="", const Opt &o=Opt())
{
    static const char *X=getenv("XMQ_CLI"); if (!X) { fprintf(stderr,"XMQ_CLI is not set\n"); _exit(3); }
    R r; int fi=o.infd>=0?o.infd:mem(in),fo=o.outfd>=0?o.outfd:memfd_create("out",0),fe=memfd_create("err",0); int ep[2]={-1,-1}; if (o.fsize>=0) { if (pipe2(ep,O_NONBLOCK)) _exit(3); }
    vector<char*> av; av.push_back((char*)X); for (auto &a:args) av.push_back((char*)a.c_str()); av.push_back(NULL);
    vector<string> es=o.env; for (auto e:vector<string>{"PATH=/usr/bin:/bin","HOME="+mc::scratch,"LC_ALL=C.UTF-8","TERM=dumb","ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77"}) es.push_back(e); 
    vector<char*> ev; for (auto &e:es) ev.push_back((char*)e.c_str()); ev.push_back(NULL);
    const char *dir=mc::scratch.c_str(); rlim_t cpu=o.cpu, fs=o.fsize<0?0:o.fsize; bool limit=o.fsize>=0; int few=limit?ep[1]:fe; bool ci=o.closed_in,co=o.closed_out;
    pid_t p=vfork();
    if (p==0) {
        struct rlimit l={cpu,cpu+1}; setrlimit(RLIMIT_CPU,&l); struct rlimit c={0,0}; setrlimit(RLIMIT_CORE,&c);
        if (chdir(dir)) _exit(126);
        dup2(fi,0); dup2(fo,1); dup2(few,2); if (limit) { struct rlimit f={fs,fs}; signal(SIGXFSZ,SIG_IGN); setrlimit(RLIMIT_FSIZE,&f); } if (ci) close(0); if (co) close(1);
        for (int f=3;f<64;f++) close(f);
        sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK,&none,NULL);
        execve(X,av.data(),ev.data()); _exit(127);
    }
    int st=0; struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); int naps=0;
    if (o.wall<=0) waitpid(p,&st,0);
    else for (;;) {
        pid_t w=waitpid(p,&st,WNOHANG); if (w==p) break; if (w<0&&errno!=EINTR) break;
        clock_gettime(CLOCK_MONOTONIC,&t1); if (t1.tv_sec-t0.tv_sec>o.wall) { kill(p,SIGKILL); waitpid(p,&st,0); r.timeout=true; break; }
        struct timespec ts={0,naps<40?100000:1000000}; naps++; nanosleep(&ts,NULL);
    }
    if (WIFEXITED(st)) r.status=WEXITSTATUS(st); else if (WIFSIGNALED(st)) { r.sig=WTERMSIG(st); r.status=128+r.sig; if (r.sig==SIGXCPU) r.timeout=true; }
    if (o.outfd<0) { r.out=slurp(fo); close(fo); } if (o.infd<0) close(fi);
    if (limit) { char b[65536]; ssize_t n; while ((n=read(ep[0],b,sizeof b))>0) r.err.append(b,n); close(ep[0]); close(ep[1]); } else r.err=slurp(fe);
    close(fe);
    return r;
}
static inline string join(const vector<string> &a) { string s="xmq"; for (auto &x:a) s+=" "+mc::esc(x); return s; }
// a crash is never right
static inline R run(const vector<string> &args, const string &in="", const Opt &o=Opt())
{
    R r=exec(args,in,o);
    if (r.timeout) mc::fail("the tool hangs: %s",join(args).c_str());
    if (r.sig) mc::fail("the tool was killed by signal %d: %s\n  %s",r.sig,join(args).c_str(),mc::esc(r.err).substr(0,300).c_str());
    if (r.status==77) mc::fail("sanitizer report: %s\n  %s",join(args).c_str(),mc::esc(r.err).substr(0,1500).c_str());
    if (r.status==127||r.status==126) mc::fail("cannot run the tool");
    return r;
}
}
