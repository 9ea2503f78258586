// P18: files, descriptors, readers and pipes behave like buffers under any pattern of reads, writes and faults.
// Real pipes, fifos and files carry the splits; faults of single calls are injected by wrapping the calls the
// library objects make (-Wl,--wrap) and, for descriptors, by a region of /proc/self/mem that ends in an unmapped page.
#include "forms.h"
#include <dirent.h>
#include <memory>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

// ------------------------------------------------------------------ injection of faults
struct Step { int deliver; int err; };        // deliver that many bytes (0 and no err: end of file) or fail
struct Plan {
    bool on=false; string path; bool std_in=false; bool seekable=true; bool openfail=false; int openerr=0;
    string data; vector<Step> steps; size_t at=0, pos=0; int fd=-1; bool hard=false, soft=false, bypass=false; int calls=0;
    ssize_t next(char *b, size_t n) {
        calls++;
        if (at<steps.size()) {
            Step &s=steps[at];
            if (s.err) { bool transient=s.err==EINTR||s.err==EAGAIN; if (transient) { soft=true; at++; } else hard=true; errno=s.err; return -1; }
            size_t k=std::min(std::min((size_t)s.deliver,n),data.size()-pos); memcpy(b,data.data()+pos,k); pos+=k; s.deliver-=k; if (s.deliver<=0) at++;
            return k;
        }
        size_t k=std::min(n,data.size()-pos); memcpy(b,data.data()+pos,k); pos+=k; return k;
    }
};
static Plan P;
static ssize_t ck_read(void*,char *b,size_t n) { return P.next(b,n); }
static int ck_seek(void*,off64_t *o,int w) { if (!P.seekable) { errno=ESPIPE; return -1; } off64_t t=w==SEEK_SET?*o:w==SEEK_CUR?(off64_t)P.pos+*o:(off64_t)P.data.size()+*o; if (t<0) { errno=EINVAL; return -1; } P.pos=t; *o=t; return 0; }
static int ck_close(void*) { return 0; }
static FILE *cookie() { cookie_io_functions_t f={ck_read,NULL,ck_seek,ck_close}; return fopencookie(NULL,"rb",f); }
static int write_fail_after=-1, write_calls=0; static bool write_watch=false;
extern "C" {
FILE *__real_fopen(const char*,const char*); int __real_open(const char*,int,...); ssize_t __real_read(int,void*,size_t); int __real_fileno(FILE*); int __real_close(int);
FILE *__wrap_fopen(const char *p,const char *m) { if (P.on&&!P.std_in&&P.path==p) { if (P.openfail) { P.hard=true; errno=P.openerr; return NULL; } return cookie(); } return __real_fopen(p,m); }
int __wrap_open(const char *p,int fl,mode_t mode) { if (P.on&&!P.std_in&&P.path==p) { if (P.openfail) { P.hard=true; errno=P.openerr; return -1; } P.fd=__real_open(p,fl,mode); return P.fd; } return __real_open(p,fl,mode); }
ssize_t __wrap_read(int fd,void *b,size_t n) { if (P.on&&(fd==P.fd||(P.std_in&&fd==0))) return P.next((char*)b,n); return __real_read(fd,b,n); }
int __wrap_fileno(FILE *f) { if (P.on&&!P.std_in) P.bypass=true; return __real_fileno(f); }
int __wrap_close(int fd) { if (P.on&&fd==P.fd) P.fd=-1; return __real_close(fd); }
}
static int open_fds() { int n=0; DIR *d=opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

// ------------------------------------------------------------------ entry points
enum { PFILE, PTYPED, PIXML=PTYPED+9, TFILE, TFD, READER, NENTRY };
static const XMQContentType TY[]={XMQ_CONTENT_DETECT,XMQ_CONTENT_XMQ,XMQ_CONTENT_HTMQ,XMQ_CONTENT_XML,XMQ_CONTENT_HTML,XMQ_CONTENT_JSON,XMQ_CONTENT_IXML,XMQ_CONTENT_TEXT,XMQ_CONTENT_CLINES};
static string ename(int e) { static const char *t[]={"detect","xmq","htmq","xml","html","json","ixml","text","clines"}; if (e>=PTYPED&&e<PIXML) return string("xmqParseFileWithType/")+t[e-PTYPED]; return e==PFILE?"xmqParseFile":e==PIXML?"xmqParseFileWithIXML":e==TFILE?"xmqTokenizeFile":e==TFD?"xmqTokenizeFileDescriptor":"xmqParseReader"; }
struct Res { bool ok=false; int err=0; string msg,out; int ct=0; size_t size=0; };
static string show(const Res &r) { return (r.ok?"ok ":"failed ")+std::to_string(r.err)+" "+q(r.msg).substr(0,200)+" "+mc::esc(r.out).substr(0,300); }
static Res finish(Doc &d,bool ok) { Res r; r.ok=ok; r.err=xmqDocErrno(d.d); const char *m=xmqDocError(d.d); if (m) r.msg=m; r.out=ok?dump(d):"";  return r; }
static XMQDoc *grammar() { static XMQDoc *g=NULL; if (!g) { g=xmqNewDoc(); const char *t="d: (w|-s)*. w: [L]+. s: ~[L]. "; if (!xmqParseBufferWithType(g,t,NULL,NULL,XMQ_CONTENT_IXML,0)) { fprintf(stderr,"grammar\n"); _exit(3); } } return g; }
static Res tokens(const std::function<bool(XMQParseState*)> &f)
{
    XMQOutputSettings *os=xmqNewOutputSettings(); XMQParseCallbacks *cb=xmqNewParseCallbacks(); xmqSetupParseCallbacksDebugTokens(cb);
    char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b);
    XMQParseState *st=xmqNewParseState(cb,os);
    Res r; r.ok=f(st); r.err=xmqStateErrno(st); const char *m=xmqStateErrorMsg(st); if (m) r.msg=m; if (a) r.out.assign(a,b);
    free(a); xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    return r;
}
// from a buffer
static Res wanted(int e,const string &s,const char *name,const char *root,int flags)
{
    mc::Exact x(s); Doc d;
    if (e==TFILE||e==TFD) return tokens([&](XMQParseState *st){ if (name) xmqSetStateSourceName(st,name); return xmqTokenizeBuffer(st,x.start,x.stop); });
    if (name) xmqSetDocSourceName(d.d,name);
    if (e==PFILE&&xmqDetectContentType(x.start,x.stop)!=XMQ_CONTENT_XMQ) { Res r; r.err=XMQ_ERROR_NOT_XMQ; r.msg="*"; return r; }
    if (e==PFILE||e==READER) return finish(d,xmqParseBuffer(d.d,x.start,x.stop,root,flags));
    if (e==PIXML) return finish(d,xmqParseBufferWithIXML(d.d,x.start,x.stop,grammar(),flags));
    return finish(d,xmqParseBufferWithType(d.d,x.start,x.stop,root,TY[e-PTYPED],flags));
}
struct Rd { const string *s; size_t pos; const vector<int> *cut; size_t at; };
static size_t rd_read(void *v,char *a,char *b)
{
    Rd *r=(Rd*)v; if (b<=a) { return 0; } size_t n=b-a; if (r->cut&&r->at<r->cut->size()) n=std::min(n,(size_t)(*r->cut)[r->at++]); n=std::min(n,r->s->size()-r->pos);
    memcpy(a,r->s->data()+r->pos,n); r->pos+=n; return n;
}
// path NULL: standard input, or the descriptor fd
static Res actual(int e,const char *path,int fd,const char *root,int flags,const string *s=NULL,const vector<int> *cut=NULL)
{
    Doc d;
    if (e==TFILE) return tokens([&](XMQParseState *st){ return xmqTokenizeFile(st,path); });
    if (e==TFD) return tokens([&](XMQParseState *st){ return xmqTokenizeFileDescriptor(st,fd); });
    if (e==READER) { Rd r={s,0,cut,0}; XMQReader rd={&r,rd_read}; return finish(d,xmqParseReader(d.d,&rd,root,flags)); }
    bool ok=e==PFILE?xmqParseFile(d.d,path,root,flags):e==PIXML?xmqParseFileWithIXML(d.d,path,grammar(),flags):xmqParseFileWithType(d.d,path,root,TY[e-PTYPED],flags);
    const char *sn=xmqGetDocSourceName(d.d); if (path&&(!sn||strcmp(sn,path))) fail("%s of %s names the source %s",ename(e).c_str(),path,sn?sn:"(nothing)");
    return finish(d,ok);
}
// libxml2 counts lines and names files in its own way: the name of the source is not part of the comparison
static string strip_name(string m,const char *name) { string o; size_t i=0,n=name?strlen(name):0; while (i<m.size()) { if (n&&!m.compare(i,n,name)) { i+=n; o+="@"; } else o+=m[i++]; } if (o.size()>2&&o.compare(0,2,"@:")==0) return o; return o; }
static void same(const Res &w,const Res &g,const char *name,const char *what)
{
    if (w.ok!=g.ok||w.err!=g.err||w.out!=g.out) fail("%s gives %s\n  a buffer gives %s",what,show(g).c_str(),show(w).c_str());
    if (w.ok) return;
    if (g.msg.empty()&&w.msg.size()) fail("%s fails without a message: %s",what,show(g).c_str()); // libxml2 reports errors in xml and html by itself
    if (w.msg!="*"&&name&&strip_name(w.msg,name)!=strip_name(g.msg,name)) fail("%s: message %s, a buffer gives %s",what,q(g.msg).c_str(),q(w.msg).c_str());
}
static void cannot_read(const Res &g,const char *what)
{
    if (g.ok) fail("%s succeeds although the source cannot be read: %s",what,show(g).c_str());
    if (g.err!=XMQ_ERROR_CANNOT_READ_FILE) fail("%s: error %d, not cannot-read: %s",what,g.err,show(g).c_str());
    if (g.msg.empty()) fail("%s fails without a message",what);
    if (g.out.size()) fail("%s delivers output although the source cannot be read",what);
}
static void guarded(const std::function<void()> &f) // memory and descriptors
{
    alarm(30); // a blocked call would otherwise wait for ever
    int a=open_fds(); mc::leakcheck(f); alarm(0); int b=open_fds(); if (b!=a) fail("%d descriptors before, %d after",a,b);
}

// ------------------------------------------------------------------ contents
static vector<string> corpus()
{
    vector<string> v={"","a","a=b","a{}","a=1 b=2","{","a='x","a{b","=","//c\na"," \n","<a/>","<a>x</a>","<a>","<?xml version=\"1.0\"?><a b='c'/>","<html><body>x</body></html>","{\"a\":1}","[1,","tru","true","1","x: 'y'.","hello there\nworld","ab 12 cd",
        "\xef\xbb\xbf" "a=1","\xfe\xff" "a","a=\xc3\xa5","a=\xc3","a='x\r\ny'\r\n",string("a='x\0y'",7),string("\0",1),string("a\0",2),"!DOCTYPE=html html{p=x}","a/*b*/","a=(&#10; b)","/a=\"x\\n\"\n","\xff"};
    return v;
}
static const vector<string> &C() { static vector<string> v=corpus(); return v; }
// every way to cut n bytes into pieces, piece by piece
static vector<int> composition(int n) { vector<int> c; while (n>0) { int k=1+choose(n); c.push_back(k); n-=k; } return c; }
static string sv(const vector<int> &c) { string s; for (int x:c) s+=(s.size()?"+":"")+std::to_string(x); return s; }
// pieces over a few cut points
static vector<int> cuts(int n,const vector<int> &pts,int maxcuts)
{
    vector<int> p; for (int x:pts) if (x>0&&x<n&&(p.empty()||x>p.back())) p.push_back(x);
    vector<int> c; int last=0; size_t i=0; int left=maxcuts;
    while (left-->0) { int k=choose(1+(int)p.size()-(int)i); if (k==0) break; int x=p[i+k-1]; c.push_back(x-last); last=x; i+=k; if (i>=p.size()) break; }
    c.push_back(n-last); return c;
}

// ------------------------------------------------------------------ a writer thread that feeds a pipe piece by piece
struct Feed { string path; int fd; const string *s; const vector<int> *cut; int probe; };
static void *feed(void *v)
{
    Feed *f=(Feed*)v; int fd=f->fd; if (fd<0) { fd=open(f->path.c_str(),O_WRONLY); if (fd<0) return NULL; }
    size_t o=0; for (int k:*f->cut) {
        int n; while (ioctl(fd,FIONREAD,&n)==0&&n>0) sched_yield();   // the reader has taken everything before
        size_t e=std::min(f->s->size(),o+k); while (o<e) { ssize_t w=write(fd,f->s->data()+o,e-o); if (w<=0) { close(fd); return NULL; } o+=w; }
    }
    close(fd); return NULL;
}
static Res piped(int e,int how,const string &s,const vector<int> &cut,const char *root,int flags) // how 0: fifo by name, 1: stdin
{
    string p=mc::scratch+"/fifo"; int save=-1; pthread_t t; Feed f={p,-1,&s,&cut,0}; Res r; int pp[2]={-1,-1};
    if (how==0&&e!=TFD) { unlink(p.c_str()); if (mkfifo(p.c_str(),0600)) fail("mkfifo"); pthread_create(&t,NULL,feed,&f); r=actual(e,p.c_str(),-1,root,flags); pthread_join(t,NULL); unlink(p.c_str()); return r; }
    if (pipe(pp)) fail("pipe"); f.fd=pp[1];
    if (e==TFD) { pthread_create(&t,NULL,feed,&f); r=actual(e,NULL,pp[0],root,flags); pthread_join(t,NULL); close(pp[0]); return r; }
    save=fcntl(0,F_DUPFD,10); dup2(pp[0],0); close(pp[0]);
    pthread_create(&t,NULL,feed,&f); r=actual(e,NULL,-1,root,flags);
    dup2(save,0); close(save); pthread_join(t,NULL);   // an abandoned reader ends the feeder with EPIPE
    return r;
}
static void ph_splits()
{
    const string &s=C()[choose(C().size())]; if (s.size()>(mc::thorough()?12:8)) return;
    int e=choose(NENTRY); if (e==READER) { } int how=e==READER?2:choose(2); int imp=choose(2);
    vector<int> c=composition(s.size());
    if (!run(ename(e)+(how==0?" fifo ":how==1?" stdin ":" reader ")+q(s)+" pieces "+sv(c)+(imp?" root":""))) return;
    const char *root=imp?"r":NULL; string nm=how==0&&e!=TFD?mc::scratch+"/fifo":"-"; const char *name=e==READER?NULL:nm.c_str();
    Res w=wanted(e,s,name,root,0);
    guarded([&]{ Res g=how==2?actual(e,NULL,-1,root,0,&s,&c):piped(e,how,s,c,root,0); same(w,g,name,"reading in pieces"); mc::outcome(show(g)); });
}
static string big(int kind,size_t n)
{
    string s; 
    switch (kind) {
    case 0: s="a='"; while (s.size()<n-1) s+=(char)('a'+s.size()%23); s+="'"; break;
    case 1: while (s.size()+8<=n) s+="b="+std::to_string(10000+s.size()%89999)+" "; while (s.size()<n) s+=' '; break;
    case 2: s="<a>"; while (s.size()<n-4) s+=(char)('a'+s.size()%23); s+="</a>"; break;
    case 3: s="[\""; while (s.size()<n-2) s+=(char)('a'+s.size()%23); s+="\"]"; break;
    case 4: while (s.size()<n) s+=(s.size()%31==30)?"\n":string(1,(char)('a'+s.size()%23)); break;
    default: s="a='"; while (s.size()<n) s+=(char)('a'+s.size()%23); break;   // not closed
    }
    s.resize(n); return s;
}
static const vector<int> SZ={9,255,256,257,511,512,513,1022,1023,1024,1025,1026,2047,2048,2049,3072,4095,4096,4097,8191,8192,8193,9999,10000,10001,12288,16384,16385,20000,20001,32768,65535,65536,65537,100000,131072};
static void ph_sizes()
{
    static const vector<int> entries={PFILE,PTYPED,PTYPED+1,PTYPED+3,PTYPED+5,PTYPED+7,TFILE,TFD,READER};
    int kind=choose(6); int n=SZ[choose(SZ.size())]; int e=entries[choose(entries.size())]; int how=e==READER?2:e==TFD?1:choose(3);   // 0 fifo 1 stdin pipe 2 regular file
    int sp=choose(5);  // how the pieces are cut
    if (how==2&&e!=READER&&sp) return;
    if (n>20001&&sp==4) return;
    if (!run(ename(e)+" kind "+std::to_string(kind)+" of "+std::to_string(n)+" bytes source "+std::to_string(how)+" split "+std::to_string(sp))) return;
    string s=big(kind,n); vector<int> c; int step=sp==0?n:sp==1?1024:sp==2?1000:sp==3?4096:37; for (int o=0;o<n;o+=step) c.push_back(std::min(step,n-o));
    string nm=how==0?mc::scratch+"/fifo":how==2?mc::scratch+"/file":"-"; const char *name=e==READER?NULL:nm.c_str();
    Res w=wanted(e,s,name,"r",0);
    if (how==2&&e!=READER) { int fd=open(nm.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if (write(fd,s.data(),s.size())!=(ssize_t)s.size()) fail("disk"); close(fd); }
    guarded([&]{ Res g=e==READER?actual(e,NULL,-1,"r",0,&s,&c):how==2?actual(e,name,-1,"r",0):piped(e,how,s,c,"r",0); same(w,g,name,"reading"); mc::outcome((uint64_t)g.out.size()); });
    if (how==2&&e!=READER) unlink(nm.c_str());
}
// all cut points around the sizes of buffers
static void ph_cuts()
{
    static const vector<int> entries={PFILE,PTYPED,PTYPED+7,TFILE,TFD,READER};
    int kind=choose(2); int n=mc::thorough()?20500:9000; int e=entries[choose(entries.size())]; int how=e==READER?2:e==TFD?1:choose(2);
    vector<int> c=cuts(n,mc::thorough()?vector<int>{1,2,1023,1024,1025,2048,4095,4096,4097,8191,8192,8193,10000,12288,16384,20480}:vector<int>{1,1023,1024,1025,2048,4095,4096,4097,8191,8192,8193},3);
    if (!run(ename(e)+" kind "+std::to_string(kind)+" source "+std::to_string(how)+" pieces "+sv(c))) return;
    string s=big(kind,n); string nm=how==0?mc::scratch+"/fifo":"-"; const char *name=e==READER?NULL:nm.c_str();
    Res w=wanted(e,s,name,"r",0);
    guarded([&]{ Res g=e==READER?actual(e,NULL,-1,"r",0,&s,&c):piped(e,how,s,c,"r",0); same(w,g,name,"reading in pieces"); mc::outcome((uint64_t)g.out.size()); });
}
// regular files: every content, every entry, flags and implicit root
static void ph_files()
{
    int i=choose(C().size()); int e=choose(NENTRY-1); int how=choose(2); int fl=choose(4); int imp=choose(2);
    if (!run(ename(e)+(how?" stdin file ":" file ")+q(C()[i])+" flags "+std::to_string(fl)+(imp?" root":""))) return;
    const string &s=C()[i]; static const int F[]={0,XMQ_FLAG_TRIM_NONE,XMQ_FLAG_TRIM_HEURISTIC,XMQ_FLAG_NOMERGE}; int flags=F[fl]; const char *root=imp?"r":NULL;
    string nm=mc::scratch+"/file"; { int fd=open(nm.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if (s.size()&&write(fd,s.data(),s.size())<0) fail("disk"); close(fd); }
    const char *name=how||e==TFD?"-":nm.c_str(); Res w=wanted(e,s,name,root,flags);
    guarded([&]{
        int fd=open(nm.c_str(),O_RDONLY), save=-1; if (how) { save=fcntl(0,F_DUPFD,10); dup2(fd,0); }
        Res g=actual(e,how?NULL:nm.c_str(),fd,root,flags); if (how) { dup2(save,0); close(save); } close(fd);
        same(w,g,name,"reading"); mc::outcome(show(g));
    });
}
// places that cannot be read
static void ph_unreadable()
{
    int k=choose(12); int e=choose(NENTRY-1); int imp=choose(2);
    static const char *K[]={"missing","directory","below a file","empty name","dangling link","link loop","name too long","missing folder","memory","closed stdin","stdin is a directory","stdin for writing"};
    if (!run(ename(e)+" "+K[k]+(imp?" root":""))) return;
    string d=mc::scratch+"/u"; mkdir(d.c_str(),0700); { int fd=open((d+"/f").c_str(),O_WRONLY|O_CREAT,0600); close(fd); }
    if (symlink("nowhere",(d+"/dang").c_str())) {} if (symlink("loop",(d+"/loop").c_str())) {}
    string p; switch (k) { case 0: p=d+"/missing"; break; case 1: p=d; break; case 2: p=d+"/f/x"; break; case 3: p=""; break; case 4: p=d+"/dang"; break; case 5: p=d+"/loop"; break; case 6: p=d+"/"+string(300,'n'); break; case 7: p=d+"/no/file"; break; case 8: p="/proc/self/mem"; break; default: p="-"; }
    guarded([&]{
        Res g;
        if (k<9&&e!=TFD) g=actual(e,p.c_str(),-1,imp?"r":NULL,0);
        else {
            int fd=k==9?-1:k==11?open((d+"/f").c_str(),O_WRONLY):k==8?open("/proc/self/mem",O_RDONLY):open(d.c_str(),O_RDONLY); int save=fcntl(0,F_DUPFD,10);
            if (fd>=0) { dup2(fd,0); } else close(0);
            g=actual(e,NULL,fd<0?0:fd,imp?"r":NULL,0);
            dup2(save,0); close(save); if (fd>=0) close(fd);
        }
        cannot_read(g,K[k]); mc::outcome(g.msg.substr(0,20));
    });
}
// faults at every call
static const int ERR[]={EIO,EINTR,EAGAIN,EBADF,EISDIR,ENOMEM,ESTALE};
static string es(int e) { return e==EIO?"EIO":e==EINTR?"EINTR":e==EAGAIN?"EAGAIN":e==EBADF?"EBADF":e==EISDIR?"EISDIR":e==ENOMEM?"ENOMEM":e==ESTALE?"ESTALE":e==ENOENT?"ENOENT":e==EACCES?"EACCES":e==EMFILE?"EMFILE":e==ENFILE?"ENFILE":e==ELOOP?"ELOOP":std::to_string(e); }
static void judge(const Res &w,const Res &g,const char *name,const string &what)
{
    if (P.hard) { cannot_read(g,what.c_str()); return; }
    if (P.soft&&!g.ok) { // an interrupted read may be given up, and then it is reported
        if (g.err==XMQ_ERROR_CANNOT_READ_FILE) { cannot_read(g,what.c_str()); return; }
    }
    same(w,g,name,what.c_str());
}
static void ph_faults()
{
    static const vector<string> docs={"a=b","a{b=1}c","<a>x</a>","[1,2]","ab c","{",""}; int di=choose(docs.size()); string s=docs[di];
    int e=choose(NENTRY-1); int how=e==TFD?1:choose(3);   // 0: seekable file, 1: stdin, 2: not seekable
    vector<int> c=composition(s.size()); if (!mc::thorough()&&c.size()>4) return;
    int nf=1+choose(2); vector<std::pair<int,int>> F; for (int i=0;i<nf;i++) { int at=choose(c.size()+1); int er=choose(nf==1?7:3); if (i&&at<F.back().first) return; F.push_back({at,ERR[er]}); }
    string ds=ename(e)+(how==0?" file ":how==1?" stdin ":" pipe ")+q(s)+" pieces "+sv(c); for (auto &f:F) ds+=" call "+std::to_string(f.first)+" "+es(f.second);
    if (!run(ds)) return;
    string nm=how==1?"-":mc::scratch+"/inj"; const char *name=nm.c_str(); Res w=wanted(e,s,name,"r",0);
    if (how!=1) { int fd=open(name,O_WRONLY|O_CREAT|O_TRUNC,0600); if (s.size()&&write(fd,s.data(),s.size())<0) fail("disk"); close(fd); }
    guarded([&]{
        P=Plan(); P.path=nm; P.std_in=how==1; P.seekable=how==0; P.data=s; size_t fi=0;
        for (size_t i=0;i<=c.size();i++) { while (fi<F.size()&&F[fi].first==(int)i) P.steps.push_back({0,F[fi++].second}); if (i<c.size()) P.steps.push_back({c[i],0}); }
        P.on=true; Res g=actual(e,how==1?NULL:name,0,"r",0); P.on=false;
        if (P.hard||P.soft) mc::count(0); else mc::count(1);
        judge(w,g,name,"reading with a fault"); mc::outcome(show(g).substr(0,60));
        P=Plan();
    });
}
static void ph_bigfaults()
{   // a fault after the first blocks
    int kind=choose(3); static const vector<int> N={1024,4096,8192,10000,20001}; int n=N[choose(N.size())]; static const vector<int> entries={PFILE,PTYPED,PTYPED+7,TFILE,TFD}; int e=entries[choose(entries.size())]; int how=e==TFD?1:choose(3); int step=choose(3); int at=choose(mc::thorough()?24:12); int er=ERR[choose(3)];
    if (!run(ename(e)+" kind "+std::to_string(kind)+" of "+std::to_string(n)+(how==0?" file":how==1?" stdin":" pipe")+" step "+std::to_string(step)+" call "+std::to_string(at)+" "+es(er))) return;
    string s=big(kind==2?4:kind,n); string nm=how==1?"-":mc::scratch+"/inj"; const char *name=nm.c_str(); Res w=wanted(e,s,name,"r",0);
    if (how!=1) { int fd=open(name,O_WRONLY|O_CREAT|O_TRUNC,0600); if (write(fd,s.data(),s.size())<0) fail("disk"); close(fd); }
    guarded([&]{
        P=Plan(); P.path=nm; P.std_in=how==1; P.seekable=how==0; P.data=s; int st=step==0?1024:step==1?1000:4096; int i=0; for (int o=0;o<n;o+=st,i++) { if (i==at) P.steps.push_back({0,er}); P.steps.push_back({std::min(st,n-o),0}); } if (at>=i) P.steps.push_back({0,er});
        P.on=true; Res g=actual(e,how==1?NULL:name,0,"r",0); P.on=false;
        judge(w,g,name,"reading with a fault"); mc::outcome((uint64_t)g.err); P=Plan();
    });
}
static void ph_openfail()
{
    static const int E[]={ENOENT,EACCES,EMFILE,ENFILE,ELOOP,ENOMEM,EISDIR,EINTR}; int i=choose(8); int e=choose(NENTRY-2); if (e==TFD) return; int imp=choose(2);
    if (!run(ename(e)+" open fails with "+es(E[i])+(imp?" root":""))) return;
    string nm=mc::scratch+"/inj"; { int fd=open(nm.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); close(fd); }
    guarded([&]{ P=Plan(); P.path=nm; P.openfail=true; P.openerr=E[i]; P.on=true; Res g=actual(e,nm.c_str(),-1,imp?"r":NULL,0); P.on=false; if (P.hard) cannot_read(g,"opening"); P=Plan(); mc::outcome(g.msg.substr(0,9)); });
}
// a region of memory that ends in an unmapped page: real partial reads followed by a real error
static void ph_realfault()
{
    static const vector<int> N={0,1,3,100,1023,1024,1025,2048,4095,4096,5000,8192}; int n=N[choose(N.size())]; int kind=choose(3); int e=choose(NENTRY-1); if (e!=TFD&&e==PIXML&&n>100) return;
    if (!run(ename(e)+" descriptor that fails after "+std::to_string(n)+" bytes of kind "+std::to_string(kind))) return;
    string s=n>8?big(kind==2?4:kind,n):string("a=b").substr(0,n);
    guarded([&]{
        size_t sz=16384; char *m=(char*)mmap(NULL,sz+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(m+sz,4096,PROT_NONE); munmap(m+sz,4096);
        void *guard=mmap(m+sz,4096,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); munmap(guard,4096);
        memcpy(m+sz-n,s.data(),n); int fd=open("/proc/self/mem",O_RDONLY); lseek(fd,(off_t)(uintptr_t)(m+sz-n),SEEK_SET);
        int save=fcntl(0,F_DUPFD,10); if (e!=TFD) dup2(fd,0); Res g=actual(e,NULL,fd,"r",0); dup2(save,0); close(save); close(fd); munmap(m,sz);
        cannot_read(g,"a descriptor that fails"); mc::outcome(g.msg);
    });
}
// histories: the same process reads again and again, documents and descriptors stay independent
static void ph_history()
{
    int len=mc::thorough()?4:3; vector<int> ops; for (int i=0;i<len;i++) ops.push_back(choose(9));
    string ds="reads:"; static const char *ON[]={"file","file2","stdin","missing","directory","broken","fifo","tokenize","descriptor"}; for (int o:ops) ds+=string(" ")+ON[o]; if (!run(ds)) return;
    string f1=mc::scratch+"/h1",f2=mc::scratch+"/h2",f3=mc::scratch+"/h3"; auto put=[&](const string &p,const string &s){ int fd=open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if (write(fd,s.data(),s.size())<0) fail("disk"); close(fd); };
    put(f1,"a=1"); put(f2,"<b/>"); put(f3,"c{"); 
    guarded([&]{
        vector<Doc> keep; 
        for (int o:ops) {
            Res w,g; const char *nm="-"; string s;
            switch (o) {
            case 0: nm=f1.c_str(); w=wanted(PTYPED,"a=1",nm,NULL,0); g=actual(PTYPED,nm,-1,NULL,0); break;
            case 1: nm=f2.c_str(); w=wanted(PTYPED,"<b/>",nm,NULL,0); g=actual(PTYPED,nm,-1,NULL,0); break;
            case 2: { s="d=x"; vector<int> c={1,2}; w=wanted(PTYPED,s,nm,NULL,0); g=piped(PTYPED,1,s,c,NULL,0); break; }
            case 3: g=actual(PTYPED,(mc::scratch+"/missing").c_str(),-1,NULL,0); cannot_read(g,"missing"); continue;
            case 4: g=actual(PFILE,mc::scratch.c_str(),-1,NULL,0); cannot_read(g,"directory"); continue;
            case 5: nm=f3.c_str(); w=wanted(PFILE,"c{",nm,NULL,0); g=actual(PFILE,nm,-1,NULL,0); break;
            case 6: { s="[1]"; vector<int> c={2,1}; string n2=mc::scratch+"/fifo"; w=wanted(PTYPED,s,n2.c_str(),NULL,0); g=piped(PTYPED,0,s,c,NULL,0); nm=NULL; break; }
            case 7: nm=f1.c_str(); w=wanted(TFILE,"a=1",nm,NULL,0); g=actual(TFILE,nm,-1,NULL,0); break;
            case 8: { s="e{f}"; vector<int> c={4}; w=wanted(TFD,s,nm,NULL,0); g=piped(TFD,1,s,c,NULL,0); break; }
            }
            same(w,g,nm,ON[o]);
        }
        // standard input is still there
        int fl=fcntl(0,F_GETFD); if (fl<0) fail("standard input was closed");
    });
    mc::outcome(ds);
}

// ------------------------------------------------------------------ writing
static const char *SRC[]={"a=1","//c\na(k=v){b='x y' c=\xc3\xa5 d='one\n   two'}","p:a(xmlns:p=u){q=&nbsp;}","_{a=1 b(A){_=x _=2}}","html{head body{p='a<b' br}}","a='\t'","/*x*/","","a=\"q'\"","x{y z{w=3}}","!DOCTYPE=html html{p=x}","a=(&#10; 'x')"};
static const int NSRC=sizeof SRC/sizeof*SRC;
struct St { const char *name; Set s; };
static vector<St> G;
static void settings()
{
    auto add=[](const char *n,std::function<void(Set&)> f){ Set s; f(s); G.push_back({n,s}); };
    add("xmq",[](Set&){}); add("compact",[](Set&s){s.compact=true;}); add("esc",[](Set&s){s.nl=s.tab=s.non7=true;}); add("terminal",[](Set&s){s.render=XMQ_RENDER_TERMINAL;s.color=true;}); add("html",[](Set&s){s.render=XMQ_RENDER_HTML;s.color=true;}); add("tex",[](Set&s){s.render=XMQ_RENDER_TEX;s.color=true;});
    add("xml",[](Set&s){s.fmt=XMQ_CONTENT_XML;}); add("asHtml",[](Set&s){s.fmt=XMQ_CONTENT_HTML;}); add("json",[](Set&s){s.fmt=XMQ_CONTENT_JSON;}); add("text",[](Set&s){s.fmt=XMQ_CONTENT_TEXT;}); add("clines",[](Set&s){s.fmt=XMQ_CONTENT_CLINES;});
}
static XMQDoc *load(const char *s) { XMQDoc *d=xmqNewDoc(); if (*s) xmqParseBuffer(d,s,s+strlen(s),"r",0); return d; }
struct Cu { string got; int calls=0; int failat=-1; bool failed=false; };
static bool cu_write(void *v,const char *a,const char *b) { Cu *c=(Cu*)v; int k=c->calls++; if (c->failat>=0&&k>=c->failat) { c->failed=true; return false; } if (!a) return true; if (!b) b=a+strlen(a); c->got.append(a,b); return true; }
enum { MEM, STDOUT_FILE, STDOUT_PIPE, FILENAME, FD_FILE, FD_PIPE, CUSTOM, NTGT };
static const char *TN[]={"memory","stdout to a file","stdout to a pipe","a file","a descriptor of a file","a descriptor of a pipe","a custom writer"};
struct Drain { int fd; string got; int limit; };
static void *drain(void *v) { Drain *d=(Drain*)v; char b[7]; ssize_t n; while ((n=read(d->fd,b,sizeof b))>0) { d->got.append(b,n); if (d->limit>=0&&(int)d->got.size()>=d->limit) break; } close(d->fd); return NULL; }
static string slurp(const string &p) { string s; int fd=open(p.c_str(),O_RDONLY); if (fd<0) return "(no file)"; char b[65536]; ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); close(fd); return s; }
struct Target { // where one print goes
    int t; string path=mc::scratch+"/out"; char *a=NULL,*b=NULL; Cu cu; int save=-1; int pp[2]={-1,-1}; pthread_t th; Drain dr; int fd=-1;
    void begin(XMQOutputSettings *os,int kind,const string &p=mc::scratch+"/out") {
        t=kind; path=p; unlink(path.c_str());
        if (t==MEM) xmqSetupPrintMemory(os,&a,&b);
        if (t==STDOUT_PIPE||t==FD_PIPE) { if (pipe(pp)) fail("pipe"); dr={pp[0],"",-1}; pthread_create(&th,NULL,drain,&dr); }
        if (t==STDOUT_FILE||t==FD_FILE) fd=open(path.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
        if (t==STDOUT_FILE||t==STDOUT_PIPE) { fflush(stdout); save=fcntl(1,F_DUPFD,10); dup2(t==STDOUT_FILE?fd:pp[1],1); if (t==STDOUT_PIPE) { close(pp[1]); } xmqSetupPrintStdOutStdErr(os); }
        if (t==FILENAME) xmqSetupPrintFile(os,path.c_str());
        if (t==FD_FILE) xmqSetupPrintFileDescriptor(os,fd);
        if (t==FD_PIPE) xmqSetupPrintFileDescriptor(os,pp[1]);
        if (t==CUSTOM) { XMQWriter w={&cu,cu_write}; xmqSetWriterContent(os,w); xmqSetWriterError(os,w); }
    }
    // the print is done; last: the settings have been freed
    string flushed() {
        string r;
        if (t==MEM) { if (a) r.assign(a,b); free(a); a=NULL; return r; }
        if (t==STDOUT_FILE||t==STDOUT_PIPE) { fflush(stdout); dup2(save,1); close(save); }
        if (t==STDOUT_FILE||t==FD_FILE) { r=slurp(path); close(fd); }
        if (t==FILENAME) r=slurp(path);
        if (t==CUSTOM) { r=cu.got; cu.got.clear(); }
        return r;
    }
    string piped() { if (t==FD_PIPE&&pp[1]>=0) close(pp[1]); pthread_join(th,NULL); return dr.got; }
    bool is_pipe() { return t==STDOUT_PIPE||t==FD_PIPE; }
};
static void ph_write()
{
    int d=choose(NSRC), g=choose(G.size()), t=choose(NTGT), before=choose(3), skip=choose(2);   // before: 1 the settings first printed to memory, 2 set up for memory and never printed
    if (!run(string(q(SRC[d]))+" "+G[g].name+" to "+TN[t]+(before==1?" after printing to memory":before==2?" set up for memory first":"")+(skip?" with skip":""))) return;
    guarded([&]{
        Doc doc(load(SRC[d])); string want; { XMQOutputSettings *os=make_settings(G[g].s); char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b); xmqPrint(doc.d,os); if (a) want.assign(a,b); free(a); xmqFreeOutputSettings(os); }
        XMQOutputSettings *os=make_settings(G[g].s); char *a=NULL,*b=NULL; size_t sk=77; if (skip) xmqSetupPrintSkip(os,&sk);
        if (before) xmqSetupPrintMemory(os,&a,&b);
        if (before==1) { xmqPrint(doc.d,os); if (string(a?a:"",a?b-a:0)!=want) fail("the first print differs"); free(a); a=NULL; }
        string got; { Target T; T.begin(os,t); xmqPrint(doc.d,os); if (T.is_pipe()) { T.flushed(); xmqFreeOutputSettings(os); got=T.piped(); } else { got=T.flushed(); xmqFreeOutputSettings(os); } }
        if (before==2&&a) { free(a); if (t!=MEM) fail("output went to the old memory target"); }
        if (before==1&&a&&t!=MEM) { free(a); fail("output went to the old memory target"); }
        if (got!=want) fail("printing to %s gives %s\n  printing to memory gives %s",TN[t],q(got).substr(0,400).c_str(),q(want).substr(0,400).c_str());
        mc::outcome(want);
    });
}
static void ph_writehist()
{   // one settings object, several targets in turn
    int d=mc::thorough()?1:choose(4), g=choose(G.size()); int len=mc::thorough()?4:3; vector<int> h; for (int i=0;i<len;i++) h.push_back(choose(NTGT*2));
    string ds=string(q(SRC[d]))+" "+G[g].name+":"; for (int x:h) ds+=string(" ")+TN[x/2]+(x%2?" twice":""); if (!run(ds)) return;
    guarded([&]{
        Doc doc(load(SRC[d])); string want=print(doc.d,G[g].s); XMQOutputSettings *os=make_settings(G[g].s); std::unique_ptr<Target> keep;
        for (size_t i=0;i<h.size();i++) {
            std::unique_ptr<Target> Tp(new Target); Target &T=*Tp; int t=h[i]/2; T.begin(os,t,mc::scratch+"/out"+std::to_string(i)); if (keep) { string r=keep->piped(); keep.reset(); if (r!=want) fail("a pipe got %s",q(r).c_str()); }
            xmqPrint(doc.d,os); string w=want;
            if (h[i]%2) { if (t==MEM) { string r=T.flushed(); if (r!=want) fail("memory got %s, want %s",q(r).c_str(),q(want).c_str()); } else w+=want; xmqPrint(doc.d,os); }
            string r=T.flushed(); 
            if (t==FD_PIPE) { // the copy of the descriptor is open until the settings get another target
                if (h[i]%2) { XMQWriter wr={&T.cu,cu_write}; xmqSetWriterContent(os,wr); r=T.piped(); } else { close(T.pp[1]); T.pp[1]=-1; keep=std::move(Tp); continue; }
            } else if (t==STDOUT_PIPE) r=T.piped();
            if (r!=w) fail("%s got %s, want %s",TN[t],q(r).c_str(),q(w).c_str());
        }
        xmqFreeOutputSettings(os); if (keep) { string r=keep->piped(); if (r!=want) fail("a pipe got %s",q(r).c_str()); }
        for (size_t i=0;i<h.size();i++) unlink((mc::scratch+"/out"+std::to_string(i)).c_str());
    });
    mc::outcome(ds);
}
static void ph_tokwrite()
{
    int d=choose(NSRC), ty=choose(4), t=choose(NTGT), from=choose(3); static const char *TYN[]={"terminal","html","tex","debug"}; static const char *FN[]={"buffer","file","descriptor"};
    if (!run(string("tokenize ")+q(SRC[d])+" as "+TYN[ty]+" from "+FN[from]+" to "+TN[t])) return;
    string p=mc::scratch+"/in"; { int fd=open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if (write(fd,SRC[d],strlen(SRC[d]))<0) fail("disk"); close(fd); }
    guarded([&]{
        auto go=[&](int tgt,bool &ok)->string {
            Set s; s.render=ty==0?XMQ_RENDER_TERMINAL:ty==1?XMQ_RENDER_HTML:XMQ_RENDER_TEX; s.color=true; XMQOutputSettings *os=ty==3?xmqNewOutputSettings():make_settings(s); Target T; T.begin(os,tgt);
            XMQParseCallbacks *cb=xmqNewParseCallbacks(); if (ty==3) xmqSetupParseCallbacksDebugTokens(cb); else xmqSetupParseCallbacksColorizeTokens(cb,s.render);
            XMQParseState *st=xmqNewParseState(cb,os); int fd=-1; 
            ok=from==0?xmqTokenizeBuffer(st,SRC[d],SRC[d]+strlen(SRC[d])):from==1?xmqTokenizeFile(st,p.c_str()):xmqTokenizeFileDescriptor(st,fd=open(p.c_str(),O_RDONLY)); if (fd>=0) close(fd);
            xmqFreeParseState(st); xmqFreeParseCallbacks(cb); string r=T.flushed(); xmqFreeOutputSettings(os); if (T.is_pipe()) r=T.piped(); return r;
        };
        bool o1,o2; string want=go(MEM,o1),got=go(t,o2); if (o1!=o2||(o1&&got!=want)) fail("%d %s, to memory %d %s",o2,q(got).c_str(),o1,q(want).c_str()); mc::outcome(want);
    });
}
static void ph_writefault()
{   // the k:th write fails, the reader goes away after k bytes, the disk is full
    int d=choose(NSRC), g=choose(G.size()), how=choose(5), k=choose(mc::thorough()?40:16); if (how>=3&&k) return;
    static const char *H[]={"custom writer fails at call","stdout pipe closed after","descriptor pipe closed after","stdout full","file full"};
    if (!run(string(q(SRC[d]))+" "+G[g].name+" "+H[how]+" "+std::to_string(k))) return;
    guarded([&]{
        Doc doc(load(SRC[d])); string want=print(doc.d,G[g].s),before=dump(doc); XMQOutputSettings *os=make_settings(G[g].s); string got;
        if (how==0) { Cu c; c.failat=k; XMQWriter w={&c,cu_write}; xmqSetWriterContent(os,w); xmqSetWriterError(os,w); xmqPrint(doc.d,os); got=c.got; xmqFreeOutputSettings(os); }
        else if (how<3) {
            int pp[2]; if (pipe(pp)) fail("pipe"); Drain dr={pp[0],"",k}; pthread_t t; pthread_create(&t,NULL,drain,&dr); int save=-1;
            if (how==1) { fflush(stdout); save=fcntl(1,F_DUPFD,10); dup2(pp[1],1); close(pp[1]); xmqSetupPrintStdOutStdErr(os); xmqPrint(doc.d,os); fflush(stdout); dup2(save,1); close(save); clearerr(stdout); xmqFreeOutputSettings(os); }
            else { xmqSetupPrintFileDescriptor(os,pp[1]); close(pp[1]); xmqPrint(doc.d,os); xmqFreeOutputSettings(os); }
            pthread_join(t,NULL); got=dr.got;
        } else if (how==3) { fflush(stdout); int save=fcntl(1,F_DUPFD,10); int fd=open("/dev/full",O_WRONLY); dup2(fd,1); close(fd); xmqSetupPrintStdOutStdErr(os); xmqPrint(doc.d,os); fflush(stdout); dup2(save,1); close(save); clearerr(stdout); xmqFreeOutputSettings(os); }
        else { xmqSetupPrintFile(os,"/dev/full"); xmqPrint(doc.d,os); xmqFreeOutputSettings(os); }
        if (want.compare(0,got.size(),got)) fail("what was written, %s, is not the beginning of %s",q(got).c_str(),q(want).c_str());
        if (how==0&&k>100000) fail("never");
        if (dump(doc)!=before) fail("the document changed");
        if (print(doc.d,G[g].s)!=want) fail("printing again gives something else");
    });
    mc::outcome((uint64_t)(d*100+g));
}
static void ph_writefile()
{   // files that cannot be opened for writing
    int d=choose(NSRC), g=choose(G.size()), k=choose(4); static const char *K[]={"directory","missing folder","closed descriptor","descriptor for reading"};
    if (!run(string(q(SRC[d]))+" "+G[g].name+" to "+K[k])) return;
    guarded([&]{
        Doc doc(load(SRC[d])); string want=print(doc.d,G[g].s); XMQOutputSettings *os=make_settings(G[g].s); int fd=-1;
        if (k==0) xmqSetupPrintFile(os,mc::scratch.c_str()); else if (k==1) xmqSetupPrintFile(os,(mc::scratch+"/no/file").c_str()); else if (k==2) xmqSetupPrintFileDescriptor(os,-1); else xmqSetupPrintFileDescriptor(os,fd=open("/dev/null",O_RDONLY));
        xmqPrint(doc.d,os); xmqFreeOutputSettings(os); if (fd>=0) close(fd);
        if (print(doc.d,G[g].s)!=want) fail("printing again gives something else");
    });
    mc::outcome((uint64_t)(d*100+g));
}
int main(int c, char **v)
{
    quiet(); signal(SIGPIPE,SIG_IGN); settings(); grammar(); mc::counter_names[0]="runs with a fault delivered"; mc::counter_names[1]="runs that never reached the fault";
    return mc::main_(c,v,"P18",{{"splits",ph_splits},{"sizes",ph_sizes},{"cuts",ph_cuts},{"files",ph_files},{"unreadable",ph_unreadable},{"faults",ph_faults},{"bigfaults",ph_bigfaults},{"openfail",ph_openfail},{"realfault",ph_realfault},{"history",ph_history},
        {"write",ph_write},{"writehist",ph_writehist},{"tokwrite",ph_tokwrite},{"writefault",ph_writefault},{"writefile",ph_writefile}});
}
