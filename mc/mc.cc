#include "mc.h"
#include <algorithm>
#include <map>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3500:"
           "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=3:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:print_legend=0:"
           "allow_user_segv_handler=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
#endif
extern "C" void xmlResetLastError(void) __attribute__((weak));

namespace mc {

const char *counter_names[16];
int case_cpu_seconds = 30;
std::string scratch;

static const int MAXPATH = 400;
static const int MAXW = 16;
static const int MAXPH = 64;
struct Shared {
    struct W {
        volatile uint64_t leaf;        // index of the case being executed
        volatile int busy;             // executing a case?
        volatile int npath;
        volatile uint16_t path[MAXPATH];
        char desc[4096];
        volatile uint64_t leaves, executed, nodes, edges, maxdepth;
        volatile uint64_t counters[16];
        volatile int done;
        char fail[4096]; volatile int failed;
        char knownids[1024];
    } w[MAXW];
    volatile int stop;
    volatile uint8_t outcomes[1<<17];
    struct { volatile int set; char text[600]; } samples[24];
};
static Shared *sh;

static int g_worker, g_workers = 8;
static uint64_t g_skip_to;              // do not execute cases below this index
static uint64_t g_leaf;
static std::vector<uint16_t> g_prefix, g_taken, g_width;
static bool g_single;                   // replay of one path
static bool g_ran;
static bool g_thorough;
static double g_deadline;
static std::string g_prop, g_out, g_phase;
static std::map<std::string,std::string> g_known;
static bool g_in_case;
static uint64_t g_nodes, g_edges;
static std::string g_triage;          // development aid: log every failing case to this file and go on

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int worker() { return g_worker; }
bool thorough() { return g_thorough; }
int tier_pick(int q, int t) { return g_thorough ? t : q; }

std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t"; else if (c=='\r') o+="\\r"; else if (c=='\\') o+="\\\\";
        else if (c<32 || c>=127) { char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; }
        else o+=(char)c;
    }
    return o;
}

int choose(int n)
{
    if (n <= 0) { fprintf(stderr,"mc: choose(%d)\n",n); abort(); }
    if (g_in_case) { fprintf(stderr,"mc: choose inside a case\n"); abort(); }
    size_t i = g_taken.size();
    int c = 0;
    if (i < g_prefix.size()) {
        c = g_prefix[i];
        if (c >= n) { fprintf(stderr,"mc: divergence while replaying a prefix (%d of %d at %zu)\n",c,n,i); abort(); }
        if (i+1 == g_prefix.size()) { g_nodes++; g_edges++; }
    } else { g_nodes++; g_edges++; }
    g_taken.push_back((uint16_t)c);
    g_width.push_back((uint16_t)n);
    if (g_taken.size() > (size_t)MAXPATH-2) { fprintf(stderr,"mc: path too long\n"); abort(); }
    return c;
}

static void arm(int secs)
{
    struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF,&it,NULL);
}

bool run(const std::string &desc)
{
    g_ran = true;
    uint64_t leaf = g_leaf;
    if (!g_single) {
        if (leaf % g_workers != (uint64_t)g_worker || leaf < g_skip_to) return false;
    }
    Shared::W &w = sh->w[g_worker];
    w.leaf = leaf;
    w.npath = (int)g_taken.size();
    for (size_t i=0;i<g_taken.size();i++) w.path[i]=g_taken[i];
    size_t n = std::min(desc.size(), sizeof(w.desc)-1);
    memcpy(w.desc, desc.data(), n); w.desc[n]=0;
    w.busy = 1;
    if (!g_single) {
        uint64_t p=1; int k=0; while (p<leaf) { p*=10; k++; }
        if ((p==leaf || leaf<2) && k<12) {
            int slot = leaf==0?0:k+1;
            if (!sh->samples[slot].set) { snprintf(sh->samples[slot].text,600,"%s: %s",g_phase.c_str(),desc.c_str()); sh->samples[slot].set=1; }
        }
    }
    w.executed++;
    g_in_case = true;
    arm(case_cpu_seconds);
    return true;
}

void failstr(const std::string &s) { throw Fail{s}; }
void fail(const char *fmt, ...)
{
    char buf[4000];
    va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
    throw Fail{buf};
}
bool known(const char *id)
{
    if (!g_known.count(id)) return false;
    Shared::W &w = sh->w[g_worker];
    std::string l = std::string(" ")+id+" ";
    if (!strstr(w.knownids,l.c_str()) && strlen(w.knownids)+l.size()<sizeof w.knownids) strcat(w.knownids,l.c_str());
    return true;
}
void outcome(uint64_t h)
{
    h *= 0x9E3779B97F4A7C15ull; h ^= h>>29;
    sh->outcomes[(h>>3)&((1<<17)-1)] |= (uint8_t)(1<<(h&7));
}
void outcome(const std::string &s)
{
    uint64_t h=1469598103934665603ull; for (unsigned char c : s) { h^=c; h*=1099511628211ull; } outcome(h);
}
void count(int which, uint64_t n) { sh->w[g_worker].counters[which]+=n; }

void leakcheck(const std::function<void()> &f)
{
#ifdef MC_ASAN
    auto mem=[&](){ if (xmlResetLastError) xmlResetLastError(); return __sanitizer_get_current_allocated_bytes(); };
    size_t a=mem(); f(); size_t b=mem();
    if (b<=a) return;
    f(); size_t c=mem();
    if (c<=b) return;
    f(); size_t d=mem();
    if (d>c) fail("memory leak: %zu bytes are not released each time the case runs", d-c);
#else
    f();
#endif
}

// ---------------------------------------------------------------------------------------------
static bool next_path()
{
    // backtrack: last position with an untried alternative
    size_t i = g_taken.size();
    while (i>0 && g_taken[i-1]+1 >= g_width[i-1]) i--;
    if (i==0) return false;
    g_prefix.assign(g_taken.begin(), g_taken.begin()+i);
    g_prefix[i-1]++;
    return true;
}

static void rmtree(const std::string &d) { std::string c="rm -rf -- '"+d+"'"; if (d.size()>8) (void)!system(c.c_str()); }

// Walk the whole tree of one phase in this process.
static void walk(const Phase &ph, int worker)
{
    g_worker = worker; g_phase = ph.name;
    Shared::W &w = sh->w[worker];
    g_prefix.clear(); g_leaf=0; g_nodes=1; g_edges=0;
    uint64_t maxd=0, leaves=0, since=0;
    for (;;) {
        g_taken.clear(); g_width.clear(); g_ran=false; g_in_case=false;
        bool failed=false; std::string msg;
        try { ph.body(); }
        catch (Fail &f) { failed=true; msg=f.msg; }
        catch (Stop &) {}
        if (g_in_case) {
            arm(0);
            w.busy=0;
            if (++since>=500) { since=0; (void)!ftruncate(2,0); lseek(2,0,SEEK_SET); }
        }
        if (failed) {
            if (!g_in_case) { fprintf(stderr,"mc: failure outside a case: %s\n",msg.c_str()); abort(); }
            if (!g_triage.empty()) {
                FILE *f=fopen((g_triage+"."+std::to_string(worker)).c_str(),"a"); fprintf(f,"## %s %s\n   %s\n",ph.name,w.desc,msg.c_str()); fclose(f);
            } else {
                snprintf(w.fail,sizeof w.fail,"%s",msg.c_str());
                w.failed=1;
                _exit(42);
            }
        }
        if (g_ran) { g_leaf++; leaves++; }
        maxd=std::max<uint64_t>(maxd,g_taken.size());
        if (sh->stop) break;
        if ((g_leaf&255)==0 && now()>g_deadline) { sh->stop=2; break; }
        if (!next_path()) break;
    }
    w.leaves=leaves; w.nodes=g_nodes; w.edges=g_edges; w.maxdepth=maxd; w.done=1;
    fflush(NULL);
    _exit(0);
}

struct Viol { std::string phase, desc, msg; std::vector<int> path; uint64_t leaf; int worker; uint64_t from; bool history; };

static std::string slurp(const std::string &f, size_t max)
{
    std::string s; FILE *fp=fopen(f.c_str(),"r"); if (!fp) return s;
    char b[4096]; size_t n; while ((n=fread(b,1,sizeof b,fp))>0 && s.size()<max) s.append(b,n);
    fclose(fp); return s;
}
static std::string crash_summary(int st, const std::string &err)
{
    std::string s;
    if (WIFSIGNALED(st)) {
        int sg=WTERMSIG(st);
        if (sg==SIGPROF) s="does not terminate (CPU limit)"; else { s="killed by signal "+std::to_string(sg); }
    } else s="process ended with status "+std::to_string(WEXITSTATUS(st));
    size_t p=err.find("ERROR: AddressSanitizer"); if (p==std::string::npos) p=err.find("runtime error"); if (p==std::string::npos) p=err.find("ssertion");
    if (p!=std::string::npos) {
        size_t q=err.find('\n',p); s+=": "+err.substr(p,std::min<size_t>(q-p,300));
        // first two frames inside xmq
        size_t f=q; int k=0;
        while (k<3 && (f=err.find(" in ",f))!=std::string::npos) { size_t e=err.find('\n',f); std::string fr=err.substr(f+4,std::min<size_t>(e-f-4,120)); s+=" | "+fr; f=e; k++; }
    }
    return s;
}
static std::string basic_json(const std::string &s)
{
    std::string o="\"";
    for (unsigned char c : s) {
        if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>=127) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c;
    }
    return o+"\"";
}

static std::string errfile(int w) { return g_out+"/stderr."+std::to_string(w); }
static void redirect(int w)
{
    int fd=open(errfile(w).c_str(),O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600);
    if (fd>=0) { dup2(fd,2); close(fd); }
    fd=open("/dev/null",O_RDWR); if (fd>=0) { dup2(fd,1); dup2(fd,0); close(fd); }
    scratch=g_out+"/w"+std::to_string(w); rmtree(scratch); mkdir(scratch.c_str(),0700);
}

// Run one path in a fresh process. Returns "" when it passes.
static std::string replay_one(const Phase &ph, const std::vector<int> &path, std::string *desc)
{
    int wi=MAXW-1;
    Shared::W &w=sh->w[wi]; w.failed=0; w.desc[0]=0; w.busy=0;
    int savestop=sh->stop; sh->stop=0;
    pid_t p=fork();
    if (p==0) {
        redirect(wi); g_single=true; g_worker=wi; g_phase=ph.name;
        g_prefix.assign(path.begin(),path.end());
        std::string msg; bool f=false;
        try { ph.body(); } catch (Fail &x) { f=true; msg=x.msg; } catch (Stop&) {}
        if (f) { snprintf(w.fail,sizeof w.fail,"%s",msg.c_str()); w.failed=1; _exit(42); }
        _exit(g_in_case?0:43);
    }
    int st; waitpid(p,&st,0);
    sh->stop=savestop;
    if (desc) *desc=w.desc;
    if (WIFEXITED(st) && WEXITSTATUS(st)==0) return "";
    if (WIFEXITED(st) && WEXITSTATUS(st)==42 && w.failed) return w.fail;
    if (WIFEXITED(st) && WEXITSTATUS(st)==43) return "mc: path is not a case";
    return crash_summary(st,slurp(errfile(wi),200000));
}
// Run all cases of one worker between two indices in a fresh process: history dependent failures.
static bool replay_history(const Phase &ph, int worker, uint64_t from, uint64_t leaf)
{
    Shared::W save=sh->w[worker];
    sh->w[worker].failed=0; int savestop=sh->stop; sh->stop=0;
    pid_t p=fork();
    if (p==0) { redirect(worker); g_skip_to=from; g_deadline=now()+600; walk(ph,worker); }
    int st; waitpid(p,&st,0);
    bool same = !(WIFEXITED(st)&&WEXITSTATUS(st)==0) && sh->w[worker].leaf==leaf;
    sh->w[worker]=save; sh->stop=savestop;
    return same;
}

int main_(int argc, char **argv, const char *property, const std::vector<Phase> &phases)
{
    g_prop=property;
    std::string replay, only; double limit=0; int maxviol=12;
    std::string outdir="/tmp/mc", knownf, replaydir;
    for (int i=1;i<argc;i++) {
        std::string a=argv[i]; auto val=[&](){ return std::string(i+1<argc?argv[++i]:""); };
        if (a=="--tier") g_thorough = val()=="thorough";
        else if (a=="--workers") g_workers=atoi(val().c_str());
        else if (a=="--out") outdir=val();
        else if (a=="--replaydir") replaydir=val();
        else if (a=="--replay") replay=val();
        else if (a=="--phase") only=val();
        else if (a=="--limit") limit=atof(val().c_str());
        else if (a=="--known") knownf=val();
        else if (a=="--triage") g_triage=val();
        else if (a=="--maxviol") maxviol=atoi(val().c_str());
        else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; }
    }
    if (g_workers>MAXW-2) g_workers=MAXW-2;
    if (limit<=0) limit = g_thorough ? 36000 : 600;
    g_out=outdir; mkdir(g_out.c_str(),0700);
    if (replaydir.empty()) replaydir=g_out;
    sh=(Shared*)mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (!knownf.empty()) { // lines: id<TAB>text
        std::string s=slurp(knownf,1<<20); size_t p=0;
        while (p<s.size()) { size_t e=s.find('\n',p); if (e==std::string::npos) e=s.size(); std::string l=s.substr(p,e-p); size_t t=l.find('\t'); if (t!=std::string::npos) g_known[l.substr(0,t)]=l.substr(t+1); p=e+1; }
    }
    double t0=now(); g_deadline=t0+limit;
    struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
    struct rlimit st={64<<20,64<<20}; setrlimit(RLIMIT_STACK,&st);

    if (!replay.empty()) {
        std::string s=slurp(replay,1<<20); std::string phn; std::vector<int> path; 
        size_t p=s.find("phase: "); if (p!=std::string::npos) phn=s.substr(p+7,s.find('\n',p)-p-7);
        p=s.find("path: "); if (p!=std::string::npos) { const char *c=s.c_str()+p+6; while (*c && *c!='\n') { if (*c==' ') { c++; continue; } path.push_back((int)strtol(c,(char**)&c,10)); } }
        g_thorough = s.find("tier: thorough")!=std::string::npos;
        for (auto &ph : phases) if (phn==ph.name) {
            std::string desc, m=replay_one(ph,path,&desc);
            printf("case: %s\n%s\n",desc.c_str(), m.empty()?"holds":m.c_str());
            std::string err=slurp(errfile(MAXW-1),20000); if (!m.empty()&&!err.empty()) printf("--- stderr\n%s\n",err.c_str());
            return m.empty()?0:1;
        }
        fprintf(stderr,"no such phase %s\n",phn.c_str()); return 2;
    }

    std::vector<Viol> viols; std::string phases_json; uint64_t T_nodes=0,T_edges=0,T_leaves=0,T_exec=0,T_out=0; bool capped=false;
    std::string samples_json; uint64_t counters[16]; memset(counters,0,sizeof counters);
    std::set<std::string> knownhits; uint64_t totalviol=0;
    for (auto &ph : phases) {
        if (!only.empty() && only!=ph.name) continue;
        double p0=now();
        memset((void*)sh,0,sizeof(Shared));
        g_phase=ph.name;
        std::map<pid_t,int> kids; uint64_t from[MAXW]={0};
        std::map<std::string,int> sigs;
        int alive=0;
        auto spawn=[&](int w){ fflush(NULL); sh->w[w].done=0; sh->w[w].failed=0; sh->w[w].busy=0; pid_t p=fork(); if (p==0) { redirect(w); g_skip_to=from[w]; walk(ph,w); } kids[p]=w; alive++; };
        for (int w=0;w<g_workers;w++) spawn(w);
        while (alive>0) {
            int stt; pid_t p=wait(&stt); if (p<0) break;
            auto it=kids.find(p); if (it==kids.end()) continue;
            int w=it->second; kids.erase(it); alive--;
            Shared::W &ws=sh->w[w];
            if (WIFEXITED(stt)&&WEXITSTATUS(stt)==0&&ws.done) continue;
            std::string err=slurp(errfile(w),200000);
            if (!ws.busy && !ws.failed) { fprintf(stderr,"mc: worker failed outside a case in phase %s: %s\n%s\n",ph.name,crash_summary(stt,err).c_str(),err.substr(0,2000).c_str()); return 3; }
            Viol v; v.phase=ph.name; v.desc=ws.desc; v.leaf=ws.leaf; v.worker=w; v.from=from[w]; v.history=false;
            for (int i=0;i<ws.npath;i++) v.path.push_back(ws.path[i]);
            v.msg = ws.failed ? std::string(ws.fail) : crash_summary(stt,err);
            totalviol++;
            from[w]=v.leaf+1;
            // signature without digits and quoted parts
            std::string sig; for (char c : v.msg.substr(0,60)) if (!isdigit((unsigned char)c)) sig+=c;
            if (sigs[sig]++<2) viols.push_back(v);
            if ((int)totalviol>=maxviol) sh->stop=1;
            else if (!sh->stop) spawn(w);
        }
        uint64_t nodes=0,edges=0,leaves=0,exec=0,depth=0;
        for (int w=0;w<g_workers;w++) { nodes=std::max<uint64_t>(nodes,(uint64_t)sh->w[w].nodes); edges=std::max<uint64_t>(edges,(uint64_t)sh->w[w].edges); leaves=std::max<uint64_t>(leaves,(uint64_t)sh->w[w].leaves); exec+=sh->w[w].executed; depth=std::max<uint64_t>(depth,(uint64_t)sh->w[w].maxdepth);
            for (int i=0;i<16;i++) counters[i]+=sh->w[w].counters[i];
            char tmp[1024]; strcpy(tmp,sh->w[w].knownids); for (char *t=strtok(tmp," ");t;t=strtok(NULL," ")) knownhits.insert(t); }
        uint64_t outc=0; for (size_t i=0;i<sizeof sh->outcomes;i++) outc+=__builtin_popcount(sh->outcomes[i]);
        bool cap=sh->stop==2; capped|=cap|| sh->stop==1;
        for (auto &s : sh->samples) if (s.set) { if (!samples_json.empty()) samples_json+=","; samples_json+=basic_json(s.text); }
        char b[600]; snprintf(b,sizeof b,"{\"phase\":\"%s\",\"cases\":%llu,\"executed\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_depth\":%llu,\"distinct_outcomes\":%llu,\"completed\":%s,\"wall_s\":%.1f}",
            ph.name,(unsigned long long)leaves,(unsigned long long)exec,(unsigned long long)nodes,(unsigned long long)edges,(unsigned long long)depth,(unsigned long long)outc,sh->stop?"false":"true",now()-p0);
        if (!phases_json.empty()) phases_json+=",";
        phases_json+=b;
        fprintf(stderr,"%s\n",b);
        T_nodes+=nodes; T_edges+=edges; T_leaves+=leaves; T_exec+=exec; T_out+=outc;
        if ((int)totalviol>=maxviol) break;
    }
    // confirm
    std::string vjson; int nv=0;
    auto phase_of=[&](const std::string &n)->const Phase& { for (auto &ph : phases) if (n==ph.name) return ph; abort(); };
    for (auto &v : viols) {
        std::string m=replay_one(phase_of(v.phase),v.path,NULL);
        std::string how="reproduced alone in a fresh process";
        if (m.empty()) {
            if (replay_history(phase_of(v.phase),v.worker,v.from,v.leaf)) { how="reproduced only after the preceding cases of the same process (history dependent)"; v.history=true; m=v.msg; }
            else { how="NOT reproduced: nondeterministic"; m=v.msg; }
        }
        uint64_t h=1469598103934665603ull; for (unsigned char c : v.phase+v.desc) { h^=c; h*=1099511628211ull; }
        char fn[256]; snprintf(fn,sizeof fn,"%s/%s-%s-%08x.txt",replaydir.c_str(),property,v.phase.c_str(),(unsigned)h);
        FILE *f=fopen(fn,"w");
        if (f) { fprintf(f,"property: %s\nphase: %s\ntier: %s\npath:",property,v.phase.c_str(),g_thorough?"thorough":"quick"); for (int c : v.path) fprintf(f," %d",c);
            fprintf(f,"\ncase: %s\nfailure: %s\nconfirmation: %s\nworker: %d/%d from %llu to %llu\n",v.desc.c_str(),m.c_str(),how.c_str(),v.worker,g_workers,(unsigned long long)v.from,(unsigned long long)v.leaf); fclose(f); }
        if (nv) vjson+=","; nv++;
        vjson+="{\"phase\":"+basic_json(v.phase)+",\"case\":"+basic_json(v.desc)+",\"failure\":"+basic_json(m)+",\"replay\":"+basic_json(fn)+",\"confirmation\":"+basic_json(how)+"}";
    }
    std::string kj; for (auto &k : knownhits) { if (!kj.empty()) kj+=","; kj+=basic_json(k); }
    std::string cj; for (int i=0;i<16;i++) if (counter_names[i]) { if (!cj.empty()) cj+=","; cj+=basic_json(counter_names[i])+":"+std::to_string(counters[i]); }
    FILE *f=fopen((g_out+"/result.json").c_str(),"w");
    fprintf(f,"{\"property\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"cases\":%llu,\"executed\":%llu,\"distinct_outcomes\":%llu,\"capped\":%s,\"wall_s\":%.1f,\"phases\":[%s],\"samples\":[%s],\"counters\":{%s},\"known\":[%s],\"total_violations\":%llu,\"violations\":[%s]}\n",
        property,(unsigned long long)T_nodes,(unsigned long long)T_edges,(unsigned long long)T_leaves,(unsigned long long)T_exec,(unsigned long long)T_out,capped?"true":"false",now()-t0,phases_json.c_str(),samples_json.c_str(),cj.c_str(),kj.c_str(),(unsigned long long)totalviol,vjson.c_str());
    fclose(f);
    for (int w=0;w<MAXW;w++) rmtree(g_out+"/w"+std::to_string(w));
    return nv?1:0;
}
}
