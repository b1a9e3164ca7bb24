// Model-based property testing of the engine (pogocache.c) through its public
// API only.  A case is a configuration, a key table and a list of operations;
// it is executed against the engine and a reference model (std::map).  Cases
// are a pure function of (profile, seed, index); a failing case is shrunk to a
// minimal operation list which is the replay file.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sys/wait.h>
#include <sys/types.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
extern "C" {
#include "pogocache.h"
}
using std::string; using std::vector; using std::map; using std::set;

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below(b - a + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template<class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD1B54A32D192ED03ULL)); r.next(); return r.next() ^ b; }

// ---------------------------------------------------------------- clock
static int64_t vclock = 0;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if (vclock > 0 && id != CLOCK_PROCESS_CPUTIME_ID) {
        ts->tv_sec = vclock / 1000000000; ts->tv_nsec = vclock % 1000000000; return 0;
    }
    return __real_clock_gettime(id, ts);
}

// ---------------------------------------------------------------- failure
struct Fail { string tag, msg; };
[[noreturn]] static void fail(const char *tag, const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Fail{tag, b};
}

// ---------------------------------------------------------------- ledger
static std::unordered_map<void*, size_t> ledger;
static size_t ledger_bytes = 0;
static uint64_t alloc_no = 0;              // allocations so far in this case
static int64_t fault_at = -1, fault_len = 0; // [fault_at, fault_at+fault_len) fail
static bool fault_fired = false;
static uint64_t faults_total = 0;
static string ledger_err;
static void *lmalloc(size_t n) {
    uint64_t i = alloc_no++;
    if (fault_at >= 0 && (int64_t)i >= fault_at && (int64_t)i < fault_at + fault_len) {
        fault_fired = true; faults_total++;
        return nullptr;
    }
    void *p = malloc(n ? n : 1);
    memset(p, 0xCD, n);
    ledger[p] = n; ledger_bytes += n;
    return p;
}
static void lfree(void *p) {
    if (!p) return;
    auto it = ledger.find(p);
    if (it == ledger.end()) { if (ledger_err.empty()) ledger_err = "free of a pointer that is not allocated"; free(p); return; }
    ledger_bytes -= it->second; ledger.erase(it);
    free(p);
}

// ---------------------------------------------------------------- case
enum Kind { K_STORE, K_LOAD, K_DELETE, K_ITER, K_ITERSHARDS, K_COUNT, K_SWEEP, K_CLEAR, K_POLL,
    K_SCAN, K_CURSOR, K_HOLD, K_RELEASE, K_ADV, K_ADVTO, K_BEGIN, K_END, K_CHECK, K_FILL, K_NKINDS };
static const char *kname[] = {"store","load","delete","iter","itershards","count","sweep","clear","poll",
    "scan","cursor","hold","release","adv","advto","begin","end","check","fill"};
struct Op { int kind = 0; int key = 0; int64_t vlen = 0; int64_t vseed = 0; int64_t p[8] = {0}; };
// store p: 0=expmode(0 none,1 expires abs=now+p1,2 ttl=p1,3 raw expires p1,4 raw ttl p1) 1=amount 2=flags
//          3=bits(1 keepttl,2 casop,4 nx,8 xx,16 lowmem,32 cb accept,64 cb reject,128 null opts,256 implicit time)
//          4=cas selector(0 current,1 previous,2 current+1,3 zero,4 random p5)
// load  p: 0=bits(1 notouch,2 observe cb,4 update,8 null opts,256 implicit) 1=flags 2=expmode 3=amount
// del   p: 0=bits(1 cb accept,2 cb reject,8 null,256)
// iter  p: 0=policy seed 1=pct delete 2=pct stop 3=oneshard(-1 all) 4=bits(1 nocb)
struct Conf { int nshards=1, loadfactor=0; int usecas=0, nosixpack=0, noevict=0, allowshrink=0, threadbatch=0;
    uint64_t seed=0; int cb=3; /*1 notify 2 evicted*/ int64_t t0=1000; };
struct Case { string prof; Conf c; vector<string> keys; vector<Op> ops; int64_t fault_at=-1, fault_len=0; };

static string hexs(const string &s) { static const char *h="0123456789abcdef"; string o; for (unsigned char c: s){o+=h[c>>4];o+=h[c&15];} return o.empty()?"-":o; }
static string unhex(const string &s) { string o; if (s=="-") return o; for (size_t i=0;i+1<s.size();i+=2) o+=(char)strtol(s.substr(i,2).c_str(),0,16); return o; }
static string show(const string &s) { string o; for (size_t i=0;i<s.size()&&i<40;i++){ unsigned char c=s[i]; char b[8]; if(c>=32&&c<127&&c!='"'&&c!='\\')o+=c; else {snprintf(b,8,"\\x%02x",c);o+=b;} } if (s.size()>40){char b[32];snprintf(b,32,"...(%zu)",s.size());o+=b;} return o; }

static string dump(const Case &c) {
    string o; char b[512];
    snprintf(b,512,"profile %s\nconf %d %d %d %d %d %d %d %llu %d %lld\n",c.prof.c_str(),c.c.nshards,c.c.loadfactor,c.c.usecas,c.c.nosixpack,c.c.noevict,c.c.allowshrink,c.c.threadbatch,(unsigned long long)c.c.seed,c.c.cb,(long long)c.c.t0); o+=b;
    snprintf(b,512,"fault %lld %lld\n",(long long)c.fault_at,(long long)c.fault_len); o+=b;
    set<int> used; for (auto&op:c.ops) used.insert(op.key);
    bool fill=false; for (auto&op:c.ops) if(op.kind==K_FILL||op.kind==K_CHECK) fill=true;
    (void)fill;
    for (size_t i=0;i<c.keys.size();i++) { o+="key "+hexs(c.keys[i])+"\n"; }
    for (auto&op:c.ops){ snprintf(b,512,"op %s %d %lld %lld",kname[op.kind],op.key,(long long)op.vlen,(long long)op.vseed); o+=b; for(int i=0;i<8;i++){snprintf(b,512," %lld",(long long)op.p[i]);o+=b;} o+="\n"; }
    return o;
}
static bool parse(const string &txt, Case &c) {
    size_t i=0; c=Case();
    while (i<txt.size()) { size_t j=txt.find('\n',i); if(j==string::npos)j=txt.size(); string l=txt.substr(i,j-i); i=j+1;
        vector<string> t; size_t a=0; while(a<l.size()){ size_t e=l.find(' ',a); if(e==string::npos)e=l.size(); if(e>a)t.push_back(l.substr(a,e-a)); a=e+1; }
        if (t.empty()||t[0][0]=='#') continue;
        auto N=[&](size_t k){return k<t.size()?strtoll(t[k].c_str(),0,10):0;};
        if (t[0]=="profile") c.prof=t[1];
        else if (t[0]=="conf") { c.c.nshards=N(1);c.c.loadfactor=N(2);c.c.usecas=N(3);c.c.nosixpack=N(4);c.c.noevict=N(5);c.c.allowshrink=N(6);c.c.threadbatch=N(7);c.c.seed=strtoull(t[8].c_str(),0,10);c.c.cb=N(9);c.c.t0=N(10); }
        else if (t[0]=="fault") { c.fault_at=N(1); c.fault_len=N(2); }
        else if (t[0]=="key") c.keys.push_back(unhex(t[1]));
        else if (t[0]=="op") { Op op; bool ok=false; for(int k=0;k<K_NKINDS;k++) if(t[1]==kname[k]){op.kind=k;ok=true;} if(!ok) return false; op.key=N(2);op.vlen=N(3);op.vseed=N(4); for(int k=0;k<8;k++) op.p[k]=N(5+k); c.ops.push_back(op); }
    }
    return true;
}

// value bytes are a function of (vlen, vseed)
static string mkval(int64_t vlen, int64_t vseed) {
    string s(vlen,0); uint64_t z=vseed*0x9E3779B97F4A7C15ULL+1;
    for (int64_t i=0;i<vlen;i++){ z^=z<<13; z^=z>>7; z^=z<<17; s[i]=(char)(z>>24); }
    return s;
}
static int64_t addclamp(int64_t a,int64_t b){ __int128 x=(__int128)a+b; if(x>INT64_MAX)return INT64_MAX; if(x<INT64_MIN) return INT64_MIN; return (int64_t)x; }

// ---------------------------------------------------------------- features
enum Feat { F_INSERT,F_REPLACE,F_REFUSED,F_CANCEL,F_DELETE,F_EXPIRED_READ,F_KEEPTTL,F_UPDATE,F_GROW,F_ITER,F_ITERDEL,F_ITERSTOP,
    F_SWEPT,F_CLEARED,F_LOWEVICT,F_BATCHOP,F_BATCHSCAN,F_NOMEM,F_CASOK,F_CASFAIL,F_HELD,F_BOUNDARY,F_SCAN,F_XXMISS,F_LOWREFUSED,F_EXPREPL,F_FAULT,F_WRAP,F_LARGE,F_POLL1,F_SHRUNK,F_N };
static const char *fname[]={"insert","replace","refused","cancelled","delete","expired-read","keepttl","update-in-load","map-grew","iter","iter-delete","iter-stop",
    "swept","cleared","lowmem-evict","batch-op","batch-scan","nomem","cas-ok","cas-mismatch","entry-held-across-change","boundary-instant","cursor-scan","xx-miss","lowmem-refused","expired-replaced","fault-fired","keys-with-one-hash","large-value","poll-full","map-shrunk"};

enum { M_FIG=1, M_LOG=2, M_EVICT=4, M_MEM=8, M_CAS=16, M_TOTAL=32 };
static int maskfor(const string &p) {
    if (p=="C06") return M_FIG|M_TOTAL;
    if (p=="C07") return M_LOG;
    if (p=="C08") return M_MEM|M_FIG;
    if (p=="C09") return M_EVICT|M_LOG;
    if (p=="C10") return M_LOG;
    if (p=="C11") return M_FIG;
    if (p=="C04") return M_CAS;
    return 0;
}

// ---------------------------------------------------------------- executor
struct Ent { string val; uint32_t flags=0; int64_t exp=0; uint64_t cas=0; bool casknown=false; int64_t touch=0; };
struct LogEnt { string val; int shard; };
struct EvRec { int shard, reason; int64_t time; string key, val; int64_t exp; uint32_t flags; uint64_t cas; };
struct NtRec { int shard; int64_t time; bool hasnew, hasold; string nkey, nval, okey, oval; };

struct Exec {
    const Case &cs; int mask; 
    struct pogocache *cache=nullptr, *batch=nullptr;
    int nshards=0; int64_t now; size_t K0=0;
    map<string,Ent> M;              // model, may contain expired entries
    map<string,LogEnt> L;           // replayed notify log
    map<string,int> S;              // observed shard of each key
    map<string,set<uint64_t>> seencas;
    vector<EvRec> ev; vector<NtRec> nt; 
    uint64_t inserted=0, userdel=0, evictedn=0;
    bool feat[F_N]={0}; uint64_t nchecks=0;
    string cberr;
    struct Held { struct pogocache_entry *e; string key,val; };
    vector<Held> held; size_t held_bytes=0;
    bool infree=false;
    int maxpershard=0; size_t lastoverhead=0;
    Exec(const Case &c):cs(c),mask(maskfor(c.prof)),now(c.c.t0){ if(c.keys.size()>2000) mask&=~(M_LOG|M_EVICT); }
    struct pogocache *h() { return batch?batch:cache; }
    bool live(const Ent&e) const { return e.exp==0||e.exp>now; }
    Ent *find(const string&k){ auto it=M.find(k); if(it==M.end()||!live(it->second)) return nullptr; return &it->second; }
    void note(const string&m){ if(cberr.empty()) cberr=m; }

    static void s_evicted(int shard,int reason,int64_t time,const void*key,size_t keylen,const void*val,size_t vallen,int64_t exp,uint32_t flags,uint64_t cas,void*ud){
        Exec*x=(Exec*)ud; x->ev.push_back({shard,reason,time,string((const char*)key,keylen),string((const char*)val,vallen),exp,flags,cas}); x->evictedn++;
    }
    static void s_notify(int shard,int64_t time,struct pogocache_entry*n,struct pogocache_entry*o,void*ud){
        Exec*x=(Exec*)ud; NtRec r{}; r.shard=shard; r.time=time; r.hasnew=n; r.hasold=o; char b1[128],b2[128]; size_t kl,vl;
        if(n){ const void*k=pogocache_entry_key(x->h(),n,&kl,b1); r.nkey.assign((const char*)k,kl); const void*v=pogocache_entry_value(x->h(),n,&vl); r.nval.assign((const char*)v,vl); }
        if(o){ const void*k=pogocache_entry_key(x->h(),o,&kl,b2); r.okey.assign((const char*)k,kl); const void*v=pogocache_entry_value(x->h(),o,&vl); r.oval.assign((const char*)v,vl); }
        x->nt.push_back(r);
    }
    // check an observed entry against the model
    void seecas(const string&key, Ent&e, uint64_t cas, const char*what){
        if(!cs.c.usecas) return;
        if(e.casknown){ if(e.cas!=cas) fail("cas","%s key \"%s\": cas changed from %llu to %llu without a change of the entry",what,show(key).c_str(),(unsigned long long)e.cas,(unsigned long long)cas); return; }
        if(!seencas[key].insert(cas).second) fail("cas","%s key \"%s\": cas %llu was already used by an earlier version",what,show(key).c_str(),(unsigned long long)cas);
        e.cas=cas; e.casknown=true;
    }
    void seeshard(const string&key,int shard,const char*what){
        if(shard<0||shard>=nshards) fail("shard","%s reported shard %d of %d",what,shard,nshards);
        auto it=S.find(key); if(it==S.end()) S[key]=shard; else if(it->second!=shard) fail("shard","%s key \"%s\" reported in shard %d, earlier in %d",what,show(key).c_str(),shard,it->second);
    }
    void see(const char*what,int shard,int64_t time,const string&key,const string&val,int64_t exp,uint32_t flags,uint64_t cas){
        nchecks++;
        Ent*e=find(key);
        if(!e) fail("content","%s reported key \"%s\" which the model does not hold alive",what,show(key).c_str());
        if(e->val!=val) fail("content","%s key \"%s\": value \"%s\" (len %zu), model has \"%s\" (len %zu)",what,show(key).c_str(),show(val).c_str(),val.size(),show(e->val).c_str(),e->val.size());
        if(e->flags!=flags) fail("content","%s key \"%s\": flags %u, model %u",what,show(key).c_str(),flags,e->flags);
        if(e->exp!=exp) fail("content","%s key \"%s\": expires %lld, model %lld",what,show(key).c_str(),(long long)exp,(long long)e->exp);
        if(time!=now) fail("content","%s key \"%s\": callback time %lld, now is %lld",what,show(key).c_str(),(long long)time,(long long)now);
        seeshard(key,shard,what); seecas(key,*e,cas,what);
    }

    // ---- callback plumbing: callbacks must not throw through C code
    struct Cb { Exec*x; string key; bool called=false; int ncalls=0; bool ret=true; string val; int shard; int64_t time,exp; uint32_t flags; uint64_t cas; string ckey; struct pogocache_update*upd=nullptr; };
    static bool s_storecb(int shard,int64_t time,const void*key,size_t keylen,const void*val,size_t vallen,int64_t exp,uint32_t flags,uint64_t cas,void*ud){
        Cb*c=(Cb*)ud; c->called=true;c->ncalls++;c->shard=shard;c->time=time;c->exp=exp;c->flags=flags;c->cas=cas;c->ckey.assign((const char*)key,keylen);c->val.assign((const char*)val,vallen); return c->ret; }
    static void s_loadcb(int shard,int64_t time,const void*key,size_t keylen,const void*val,size_t vallen,int64_t exp,uint32_t flags,uint64_t cas,struct pogocache_update**u,void*ud){
        s_storecb(shard,time,key,keylen,val,vallen,exp,flags,cas,ud); Cb*c=(Cb*)ud; if(c->upd) *u=c->upd; }

    // process notify / evicted events of the operation just made.
    // ctx: what removals are permitted
    struct Allow { bool lowmem=false, clear=false; int clearshard=-1; set<string> userdel; string ins; bool insok=false, repok=false; string insval; };
    int victims=0; vector<EvRec> lowv; // of last op
    void drain(const Allow&a, const map<string,Ent>&before){
        victims=0; lowv.clear();
        bool haveN=cs.c.cb&1, haveE=cs.c.cb&2;
        bool log=mask&M_LOG;
        set<string> evkeys; 
        if(haveE) for(auto&r:ev){
            auto it=before.find(r.key);
            if(r.reason==POGOCACHE_REASON_LOWMEM||(a.lowmem&&r.reason==POGOCACHE_REASON_EXPIRED&&r.key!=a.ins)) { victims++; lowv.push_back(r); }
            if(log){
                if(it==before.end()) fail("log","evicted callback for key \"%s\" which was not held",show(r.key).c_str());
                const Ent&e=it->second; bool alive=e.exp==0||e.exp>now;
                if(!evkeys.insert(r.key).second) fail("log","two evicted callbacks for key \"%s\" in one operation",show(r.key).c_str());
                if(e.val!=r.val||e.flags!=r.flags||e.exp!=r.exp) fail("log","evicted callback for key \"%s\" carries wrong data",show(r.key).c_str());
                if(cs.c.usecas&&e.casknown&&e.cas!=r.cas) fail("log","evicted callback for key \"%s\": cas %llu, entry had %llu",show(r.key).c_str(),(unsigned long long)r.cas,(unsigned long long)e.cas);
                if(r.time!=now) fail("log","evicted callback time %lld, now %lld",(long long)r.time,(long long)now);
                if(r.reason==POGOCACHE_REASON_EXPIRED){ if(alive) fail("log","key \"%s\" evicted as expired but expires=%lld now=%lld",show(r.key).c_str(),(long long)e.exp,(long long)now); }
                else if(r.reason==POGOCACHE_REASON_LOWMEM){ if(!a.lowmem) fail("log","LOWMEM eviction outside a low memory store"); if(!alive) fail("log","expired key \"%s\" evicted with reason LOWMEM",show(r.key).c_str()); }
                else if(r.reason==POGOCACHE_REASON_CLEARED){ if(!a.clear) fail("log","CLEARED eviction outside a clear"); if(!alive) fail("log","expired key \"%s\" evicted with reason CLEARED",show(r.key).c_str()); }
                else fail("log","evicted callback with reason %d",r.reason);
            }
            seeshard(r.key,r.shard,"evicted callback");
        }
        if(haveN){
            map<string,int> ndel; bool sawins=false, sawrep=false;
            for(auto&r:nt){
                if(!r.hasnew&&!r.hasold) fail("log","notify with neither old nor new entry");
                string k=r.hasnew?r.nkey:r.okey;
                seeshard(k,r.shard,"notify callback");
                if(log){
                    if(r.hasnew&&r.hasold&&r.nkey!=r.okey) fail("log","notify with two different keys");
                    if(r.time!=now) fail("log","notify time %lld, now %lld",(long long)r.time,(long long)now);
                    auto it=L.find(k);
                    if(r.hasold){ if(it==L.end()) fail("log","notify with an old entry for key \"%s\", which the log does not hold",show(k).c_str()); if(it->second.val!=r.oval) fail("log","notify old value of key \"%s\" is not what the log held",show(k).c_str()); }
                    else if(it!=L.end()) fail("log","notify inserted for key \"%s\", which the log already holds",show(k).c_str());
                    if(r.hasnew){ if(k!=a.ins||!(r.hasold?a.repok:a.insok)) fail("log","notify %s for key \"%s\" not made by this operation",r.hasold?"replaced":"inserted",show(k).c_str()); if(r.nval!=a.insval) fail("log","notify new value of key \"%s\" is not what was stored",show(k).c_str()); (r.hasold?sawrep:sawins)=true; }
                }
                if(r.hasnew) L[k]={r.nval,r.shard}; else L.erase(k);
                if(!r.hasnew) ndel[k]++;
            }
            if(log){
                if(a.insok&&!sawins) fail("log","no inserted notification for key \"%s\"",show(a.ins).c_str());
                if(a.repok&&!sawrep) fail("log","no replaced notification for key \"%s\"",show(a.ins).c_str());
                for(auto&d:ndel){
                    if(d.second>1 && !(d.second==1)) fail("log","key \"%s\" deleted twice in one operation",show(d.first).c_str());
                    auto it=before.find(d.first); bool alive= it!=before.end()&&(it->second.exp==0||it->second.exp>now);
                    bool ud=a.userdel.count(d.first);
                    if(haveE){ if(ud==(evkeys.count(d.first)>0)&&ud) fail("log","evicted callback for key \"%s\" deleted by the caller",show(d.first).c_str()); if(!ud&&!evkeys.count(d.first)) fail("log","key \"%s\" removed without an evicted callback",show(d.first).c_str()); }
                    if(!ud&&alive&&!a.lowmem&&!a.clear) fail("log","live key \"%s\" removed by an operation that must not",show(d.first).c_str());
                }
                for(auto&k:a.userdel) if(!ndel.count(k)) fail("log","no deleted notification for key \"%s\"",show(k).c_str());
                for(auto&k:evkeys) if(!ndel.count(k)) fail("log","evicted callback for key \"%s\" without a deleted notification",show(k).c_str());
            }
            if(!haveE) for(auto&d:ndel) if(!a.userdel.count(d.first)&&a.lowmem&&d.first!=a.ins){ victims++; auto it=before.find(d.first); EvRec r{}; r.key=d.first; if(it!=before.end()){ bool alive=it->second.exp==0||it->second.exp>now; r.reason=alive?POGOCACHE_REASON_LOWMEM:POGOCACHE_REASON_EXPIRED; r.val=it->second.val; } lowv.push_back(r); }
        }
        // removals of expired entries leave the model too
        if(haveN){ for(auto it=M.begin();it!=M.end();) if(!live(it->second)&&!L.count(it->first)) it=M.erase(it); else ++it; }
        else if(haveE) for(auto&r:ev){ if(a.insok&&r.key==a.ins) continue; auto it=M.find(r.key); if(it!=M.end()&&!live(it->second)&&r.reason!=POGOCACHE_REASON_LOWMEM) M.erase(it); }
        ev.clear(); nt.clear();
    }
    void logcheck(){
        if(!(cs.c.cb&1)||!(mask&M_LOG)) return;
        for(auto&m:M) if(live(m.second)){ auto it=L.find(m.first); if(it==L.end()) fail("log","the log does not hold live key \"%s\"",show(m.first).c_str()); if(it->second.val!=m.second.val) fail("log","the log's value of \"%s\" differs from the cache's",show(m.first).c_str()); }
        for(auto&l:L){ auto it=M.find(l.first); if(it==M.end()) fail("log","the log holds key \"%s\" which was removed",show(l.first).c_str()); }
    }
    size_t qcount(int shard=-1){ struct pogocache_count_opts o{}; o.time=now; if(shard>=0){o.oneshard=true;o.oneshardidx=shard;} return pogocache_count(h(),&o); }
    uint64_t qtotal(int shard=-1){ struct pogocache_total_opts o{}; o.time=now; if(shard>=0){o.oneshard=true;o.oneshardidx=shard;} return pogocache_total(h(),&o); }
    size_t qsize(bool eo,int shard=-1){ struct pogocache_size_opts o{}; o.time=now; o.entriesonly=eo; if(shard>=0){o.oneshard=true;o.oneshardidx=shard;} return pogocache_size(h(),&o); }
    size_t liven(){ size_t n=0; for(auto&m:M) n+=live(m.second); return n; }
    void figs(){
        nchecks++;
        size_t c=qcount(), ln=liven();
        if(cs.c.cb&1){ if(c!=L.size()) fail("fig","count is %zu but %zu entries are held (inserted and not removed)",c,L.size()); }
        else if(c<ln||c>M.size()) fail("fig","count is %zu, live entries %zu, entries not known removed %zu",c,ln,M.size());
        if(cs.c.cb&2){ if(c!=inserted-userdel-evictedn) fail("fig","count is %zu but %llu were inserted, %llu deleted, %llu evicted",c,(unsigned long long)inserted,(unsigned long long)userdel,(unsigned long long)evictedn); }
        if(mask&M_FIG){
            refreshheld(); c=qcount();
            size_t eo=qsize(true), full=qsize(false);
            if(c==0&&eo!=0) fail("fig","cache is empty but entries-only size is %zu",eo);
            size_t expect=ledger_bytes-K0-held_extra()-batchbytes();
            if(full!=expect) fail("fig","size reports %zu bytes but %zu bytes are allocated for shards and held entries (difference %lld, entries-only size %zu, count %zu)",full,expect,(long long)full-(long long)expect,eo,c);
            if(eo>full) fail("fig","entries-only size %zu exceeds full size %zu",eo,full);
            if(c>0){ size_t bytes=0; if(cs.c.cb&1){ for(auto&l:L) bytes+=l.second.val.size(); if(eo<bytes) fail("fig","entries-only size %zu is less than the %zu value bytes held",eo,bytes);} }
            uint64_t t=qtotal();
            if((mask&M_TOTAL)&&t!=inserted) fail("fig","total is %llu but %llu stores reported INSERTED",(unsigned long long)t,(unsigned long long)inserted);
        }
    }
    size_t held_extra_=0;
    size_t held_extra(){ // bytes of retained entries no longer in the cache
        size_t n=0; std::unordered_set<void*> seen; 
        for(auto&x:held){ if(!seen.insert(x.e).second) continue; if(!incache(x)) { auto it=ledger.find(x.e); if(it!=ledger.end()) n+=it->second; } }
        return n;
    }
    map<struct pogocache_entry*,bool> heldin;
    bool incache(const Held&x){ auto it=heldin.find(x.e); return it!=heldin.end()&&it->second; }
    size_t batchbytes_=0; size_t batchbytes(){ return batch&&!cs.c.threadbatch?batchbytes_:0; }
    void perShard(){
        size_t sc=0, se=0, sf=0; uint64_t st=0;
        for(int i=0;i<nshards;i++){ size_t c=qcount(i); sc+=c; st+=qtotal(i); se+=qsize(true,i); sf+=qsize(false,i);
            if((cs.c.cb&1)&&c){ size_t n=0; for(auto&l:L) n+=l.second.shard==i; if(n!=c) fail("fig","shard %d count %zu, %zu entries held there",i,c,n); } 
            if(c==0&&qsize(true,i)!=0) fail("fig","shard %d is empty but its entries-only size is %zu",i,qsize(true,i)); }
        if(sc!=qcount()) fail("fig","per-shard counts add to %zu, count is %zu",sc,qcount());
        if(st!=qtotal()) fail("fig","per-shard totals add to %llu, total is %llu",(unsigned long long)st,(unsigned long long)qtotal());
        if(se!=qsize(true)) fail("fig","per-shard entry sizes add to %zu, size is %zu",se,qsize(true));
        if(sf!=qsize(false)) fail("fig","per-shard sizes add to %zu, size is %zu",sf,qsize(false));
        for(int bad: {-1,nshards,nshards+7}){ struct pogocache_count_opts o{}; o.oneshard=true;o.oneshardidx=bad; if(pogocache_count(h(),&o)!=0) fail("fig","count of shard %d is not 0",bad); }
    }
    // read one key and compare (does not touch)
    void checkkey(const string&k){
        Cb cb; cb.x=this; struct pogocache_load_opts o{}; o.time=now; o.notouch=true; o.entry=s_loadcb; o.udata=&cb;
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M;
        int r=pogocache_load(h(),k.data(),k.size(),&o);
        Ent*e=find(k);
        if(e){ if(r!=POGOCACHE_FOUND) fail("content","load of key \"%s\" returned %d, model holds it (expires %lld, now %lld)",show(k).c_str(),r,(long long)e->exp,(long long)now); if(!cb.called) fail("content","load found key \"%s\" but made no callback",show(k).c_str()); if(cb.ckey!=k) fail("content","load callback got another key"); see("load",cb.shard,cb.time,k,cb.val,cb.exp,cb.flags,cb.cas); }
        else { if(r!=POGOCACHE_NOTFOUND) fail("content","load of absent key \"%s\" returned %d",show(k).c_str(),r); if(cb.called) fail("content","load of absent key \"%s\" made a callback",show(k).c_str()); }
        Allow a; drain(a,before);
    }
    // full comparison of contents: iteration plus a load of every key of the table
    struct It { int64_t keep=-1; Exec*x; set<string> seen; vector<string> deleted; uint64_t pol; int pctdel,pctstop; int oneshard; bool stopped=false; string err; int64_t n=0; bool afterstop=false; };
    static int s_iter(int shard,int64_t time,const void*key,size_t keylen,const void*val,size_t vallen,int64_t exp,uint32_t flags,uint64_t cas,void*ud){
        It*t=(It*)ud; string k((const char*)key,keylen), v((const char*)val,vallen);
        if(t->stopped) t->afterstop=true;
        t->n++;
        if(!t->seen.insert(k).second&&t->err.empty()) t->err="iteration reported key \""+show(k)+"\" twice";
        try { t->x->see("iteration",shard,time,k,v,exp,flags,cas); } catch(Fail&f){ if(t->err.empty()) t->err=f.msg; }
        if(t->oneshard>=0&&shard!=t->oneshard&&t->err.empty()) t->err="iteration of one shard reported another shard";
        uint64_t hsh=t->pol; for(unsigned char c:k) hsh=(hsh^c)*0x100000001b3ULL; hsh^=hsh>>29;
        int act=POGOCACHE_ITER_CONTINUE;
        if(t->keep>=0){ if(t->n>t->keep){ act|=POGOCACHE_ITER_DELETE; t->deleted.push_back(k); } return act; }
        if((int)(hsh%100)<t->pctdel){ act|=POGOCACHE_ITER_DELETE; t->deleted.push_back(k); }
        if((int)((hsh>>20)%100)<t->pctstop){ act|=POGOCACHE_ITER_STOP; t->stopped=true; }
        return act;
    }
    void doiter(uint64_t pol,int pctdel,int pctstop,int oneshard,bool nullopts,int64_t keep=-1){
        It it; it.keep=keep; it.x=this; it.pol=pol; it.pctdel=pctdel; it.pctstop=pctstop; it.oneshard=oneshard;
        struct pogocache_iter_opts o{}; o.time=now; o.entry=s_iter; o.udata=&it; if(oneshard!=-1){ o.oneshard=true; o.oneshardidx=oneshard; }
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M;
        int r;
        if(nullopts){ vclock=now; r=pogocache_iter(h(),nullptr); vclock=0; if(r!=POGOCACHE_FINISHED) fail("iter","iteration without callback returned %d",r); Allow a; drain(a,before); return; }
        r=pogocache_iter(h(),&o);
        if(!it.err.empty()) fail("iter","%s",it.err.c_str());
        if(it.afterstop) fail("iter","iteration continued after STOP");
        if(r!=(it.stopped?POGOCACHE_CANCELED:POGOCACHE_FINISHED)) fail("iter","iteration returned %d (stopped=%d)",r,it.stopped);
        if(!it.stopped){ for(auto&m:M) if(live(m.second)&&!it.seen.count(m.first)){ if(oneshard!=-1){ auto s=S.find(m.first); if(s==S.end()||s->second!=oneshard) continue; } fail("iter","iteration missed live key \"%s\"",show(m.first).c_str()); } }
        if(oneshard!=-1&&(oneshard<0||oneshard>=nshards)&&it.n) fail("iter","iteration of a shard that does not exist reported entries");
        Allow a; for(auto&k:it.deleted){ a.userdel.insert(k); M.erase(k); userdel++; feat[F_ITERDEL]=true; }
        if(it.stopped) feat[F_ITERSTOP]=true; feat[F_ITER]=true;
        for(auto&x:held) if(a.userdel.count(x.key)) heldin[x.e]=false;
        drain(a,before);
    }
    void fullcheck(){
        nchecks++;
        doiter(0,0,0,-1,false);
        for(auto&k:cs.keys) checkkey(k);
        logcheck(); figs_ifquiet(); checkheld();
    }
    void figs_ifquiet(){ figs(); }
    void checkheld(){
        for(auto&x:held){ size_t kl,vl; char b[128]; const void*k=pogocache_entry_key(h(),x.e,&kl,b); string ks((const char*)k,kl); const void*v=pogocache_entry_value(h(),x.e,&vl); string vs((const char*)v,vl);
            if(ks!=x.key) fail("held","a retained entry's key changed to \"%s\" from \"%s\"",show(ks).c_str(),show(x.key).c_str()); if(vs!=x.val) fail("held","a retained entry's value changed (key \"%s\")",show(x.key).c_str()); }
    }
    // which held entries are still in the cache: compare pointers found by a cursor scan
    void refreshheld(){
        if(held.empty()||!(mask&M_FIG)) return;
        for(auto&x:held) heldin[x.e]=false;
        uint64_t cur=0; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M;
        // do not remove expired entries here: scan at time 1 so that everything is alive
        while(1){ auto*e=pogocache_entry_iter(h(),1,&cur); if(!e) break; if(heldin.count(e)) heldin[e]=true; pogocache_entry_release(h(),e); if(cur==0) break; }
        Allow a; drain(a,before);
    }
    void doscan(bool interleave){
        // full cursor walk
        uint64_t cur=0; set<string> seen; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; size_t guard=0;
        while(1){
            auto*e=pogocache_entry_iter(h(),now,&cur);
            if(!e){ if(cur!=0) fail("scan","cursor scan ended with cursor %llu",(unsigned long long)cur); break; }
            size_t kl,vl; char b[128]; const void*k=pogocache_entry_key(h(),e,&kl,b); string ks((const char*)k,kl); const void*v=pogocache_entry_value(h(),e,&vl); string vs((const char*)v,vl);
            pogocache_entry_release(h(),e);
            Ent*m=find(ks); if(!m) fail("scan","cursor scan returned key \"%s\" which is not live",show(ks).c_str());
            if(m->val!=vs) fail("scan","cursor scan returned a wrong value for key \"%s\"",show(ks).c_str());
            if(!seen.insert(ks).second) fail("scan","cursor scan returned key \"%s\" twice",show(ks).c_str());
            if(++guard>M.size()*4+100) fail("scan","cursor scan does not terminate");
            if(interleave&&guard%3==0) checkkey(ks);
            if(cur==0) fail("scan","cursor scan returned an entry with cursor 0");
        }
        for(auto&m:M) if(live(m.second)&&!seen.count(m.first)) fail("scan","cursor scan missed live key \"%s\"",show(m.first).c_str());
        feat[F_SCAN]=true;
        Allow a; drain(a,before);
    }
    bool create(){
        struct pogocache_opts o{}; o.malloc=lmalloc; o.free=lfree; if(cs.c.cb&2)o.evicted=s_evicted; if(cs.c.cb&1) o.notify=s_notify; o.udata=this;
        o.usecas=cs.c.usecas;o.nosixpack=cs.c.nosixpack;o.noevict=cs.c.noevict;o.allowshrink=cs.c.allowshrink;o.usethreadbatch=cs.c.threadbatch;o.nshards=cs.c.nshards;o.loadfactor=cs.c.loadfactor;o.seed=cs.c.seed;
        cache=pogocache_new(&o);
        if(!cache){ if(!fault_fired) fail("nomem","pogocache_new returned null without an allocation failure"); if(!ledger.empty()) fail("leak","failed creation leaked %zu allocations",ledger.size()); feat[F_NOMEM]=true; return false; }
        nshards=pogocache_nshards(cache);
        if(cs.c.nshards>0&&nshards!=cs.c.nshards) fail("conf","nshards is %d, asked for %d",nshards,cs.c.nshards);
        if(nshards<1) fail("conf","nshards is %d",nshards);
        if(mask&M_FIG) { size_t f=qsize(false); K0=ledger_bytes-f; }
        return true;
    }
    int64_t expof(int mode,int64_t amt){ return mode==1?addclamp(now,amt):mode==2?0:mode==3?amt:0; }

    void dostore(const Op&op,const string&key){
        string val=mkval(op.vlen,op.vseed); int bits=op.p[3];
        if(val.size()>60000) feat[F_LARGE]=true;
        struct pogocache_store_opts o{}; bool nul=bits&128;
        int64_t mexp=0;
        if(!nul){
            if(!(bits&256)) o.time=now;
            if(op.p[0]==1) o.expires=addclamp(now,op.p[1]); else if(op.p[0]==2||op.p[0]==4) o.ttl=op.p[1]; else if(op.p[0]==3) o.expires=op.p[1];
            if(o.expires>0) mexp=o.expires; else if(o.ttl>0) mexp=addclamp(now,o.ttl);
            o.flags=(uint32_t)op.p[2]; o.keepttl=bits&1; o.casop=bits&2; o.nx=bits&4; o.xx=bits&8; o.lowmem=bits&16;
        }
        Ent*old=find(key);
        if(o.casop){
            if(old&&cs.c.usecas&&!old->casknown){ checkkey(key); old=find(key); }
            uint64_t cur=old&&old->casknown?old->cas:0;
            switch(op.p[4]){ case 0:o.cas=cur;break; case 1: o.cas=0; if(old&&!seencas[key].empty()) { for(uint64_t v:seencas[key]) if(v<cur) o.cas=v; } break; case 2:o.cas=cur+1;break; case 3:o.cas=0;break; default:o.cas=(uint64_t)op.p[5]; }
        }
        Cb cb; cb.x=this; cb.ret=!(bits&64);
        bool usecb=!nul&&(bits&(32|64)); if(usecb){ o.entry=s_storecb; o.udata=&cb; }
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; bool hadexp= M.count(key)&&!live(M[key]);
        // others held in the same shard
        fault_fired=false;
        size_t count0=(mask&M_EVICT)?qcount():0;
        map<string,LogEnt> L0=(mask&M_EVICT)?L:map<string,LogEnt>();
        if(nul||(bits&256)) vclock=now;
        int r=pogocache_store(h(),key.data(),key.size(),val.data(),val.size(),nul?nullptr:&o);
        vclock=0;
        int want; bool wantcb=false;
        old=find(key);
        if(o.lowmem&&cs.c.noevict) want=POGOCACHE_NOMEM;
        else if(old){
            if(o.casop) want=cs.c.usecas&&o.cas==old->cas?POGOCACHE_REPLACED:POGOCACHE_FOUND;
            else if(o.nx) want=POGOCACHE_FOUND; else want=POGOCACHE_REPLACED;
            if(want==POGOCACHE_REPLACED&&usecb){ wantcb=true; if(!cb.ret) want=POGOCACHE_CANCELED; }
        } else want=(o.xx||o.casop)?POGOCACHE_NOTFOUND:POGOCACHE_INSERTED;
        if(r==POGOCACHE_NOMEM&&want!=POGOCACHE_NOMEM){ if(!fault_fired) fail("ret","store of key \"%s\" returned NOMEM without an allocation failure",show(key).c_str()); feat[F_NOMEM]=true; want=POGOCACHE_NOMEM; if(!cb.called) wantcb=false; }
        if(r!=want) fail("ret","store of key \"%s\" (bits %d) returned %d, model says %d",show(key).c_str(),bits,r,want);
        if(cb.called!=wantcb) fail("cb","store callback %s for key \"%s\"",cb.called?"made":"missing",show(key).c_str());
        if(cb.called){ if(cb.ncalls!=1) fail("cb","store callback made %d times",cb.ncalls); if(cb.ckey!=key) fail("cb","store callback got another key"); see("store callback",cb.shard,cb.time,key,cb.val,cb.exp,cb.flags,cb.cas); }
        Allow a; a.lowmem=o.lowmem&&r==POGOCACHE_INSERTED; a.ins=key; a.insval=val;
        if(r==POGOCACHE_INSERTED||r==POGOCACHE_REPLACED){
            Ent e; e.val=val; e.flags=o.flags; e.exp=mexp; if(o.keepttl&&old) { e.exp=old->exp; feat[F_KEEPTTL]=true; } e.touch=now;
            if(r==POGOCACHE_INSERTED){ inserted++; feat[F_INSERT]=true; if(hadexp) feat[F_EXPREPL]=true; a.insok=true; } else { feat[F_REPLACE]=true; a.repok=true; if(o.casop) feat[F_CASOK]=true; }
            M[key]=e; 
            for(auto&x:held) if(x.key==key) { feat[F_HELD]=true; heldin[x.e]=false; }
        } else { if(r==POGOCACHE_FOUND) { feat[F_REFUSED]=true; if(o.casop) feat[F_CASFAIL]=true; } if(r==POGOCACHE_CANCELED) feat[F_CANCEL]=true; if(r==POGOCACHE_NOTFOUND) feat[F_XXMISS]=true; if(r==POGOCACHE_NOMEM&&o.lowmem&&cs.c.noevict) feat[F_LOWREFUSED]=true; }
        bool expself=hadexp&&(r==POGOCACHE_INSERTED);
        // drain needs the model before for the data of evicted entries
        drain(a,before);
        if(o.lowmem) lowmemcheck(r,key,before,L0,expself,count0);
    }
    void lowmemcheck(int r,const string&key,const map<string,Ent>&before,const map<string,LogEnt>&L0,bool expself,size_t count0){
        if(!(mask&M_EVICT)){ // follow the engine: whatever live entry vanished must be removed from the model
            for(auto&v:lowv) if(v.key!=key) { M.erase(v.key); feat[F_LOWEVICT]=true; }
            if(r==POGOCACHE_INSERTED&&!(cs.c.cb&3)) resync(key);
            return;
        }
        if(!(cs.c.cb&3)){ // no callbacks: find the victims by comparing contents
            if(r==POGOCACHE_INSERTED){ int n=resync(key); if(n>1) fail("evict","a low memory store removed %d other entries",n); }
            return;
        }
        if(r!=POGOCACHE_INSERTED){ if(victims) fail("evict","a low memory store that returned %d evicted %d entries",r,victims); return; }
        vector<EvRec> v; for(auto&x:lowv) v.push_back(x);
        for(auto&x:v) if(x.key==key&&!expself) fail("evict","the key being stored was evicted");
        v.erase(std::remove_if(v.begin(),v.end(),[&](const EvRec&x){return x.key==key;}),v.end());
        if(v.size()>1) fail("evict","a low memory store evicted %zu entries",v.size());
        if(expself&&v.size()) fail("evict","a low memory store over the expired entry \"%s\" evicted another entry as well",show(key).c_str());
        if((cs.c.cb&1)&&S.count(key)&&!expself){
            int sh=S[key]; size_t others=0; for(auto&l:L0) if(l.first!=key&&l.second.shard==sh) others++;
            if(others&&v.empty()) fail("evict","a low memory insert of \"%s\" evicted nothing although its shard held %zu other entries",show(key).c_str(),others);
        }
        for(auto&x:v){
            feat[F_LOWEVICT]=true;
            auto it=before.find(x.key); if(it==before.end()) fail("evict","evicted key \"%s\" was not held",show(x.key).c_str());
            if(S.count(x.key)&&S.count(key)&&S[x.key]!=S[key]) fail("evict","victim is in another shard");
            bool alive=it->second.exp==0||it->second.exp>now;
            if(alive){
                if(x.reason!=POGOCACHE_REASON_LOWMEM) fail("evict","live victim evicted with reason %d",x.reason);
                size_t others=0; bool newer=false;
                for(auto&b:before){ if(b.first==key||b.first==x.key) continue; if(!(b.second.exp==0||b.second.exp>now)) continue; auto s=S.find(b.first); int sh=nshards==1?0:s==S.end()?-1:s->second; int ksh=nshards==1?0:S.count(key)?S[key]:-1; if(sh<0||ksh<0){ newer=true; continue; } if(sh!=ksh) continue; others++; if(b.second.touch>=it->second.touch) newer=true; }
                if(others>=1&&!newer) { if(getenv("DBG")) for(auto&b:before) fprintf(stderr,"  held %s touch %lld exp %lld shard %d; now %lld\n",show(b.first).c_str(),(long long)b.second.touch,(long long)b.second.exp,S.count(b.first)?S[b.first]:-9,(long long)now); } if(others>=1&&!newer) fail("evict","the most recently used entry \"%s\" was evicted although the shard held %zu older ones",show(x.key).c_str(),others);
            } else if(x.reason!=POGOCACHE_REASON_EXPIRED) fail("evict","expired victim evicted with reason %d",x.reason);
            M.erase(x.key);
        }
    }
    // drop from the model what the cache no longer holds (only used when the
    // engine may choose a victim and reports it to nobody)
    int resync(const string&key){
        int n=0; vector<string> gone;
        for(auto&m:M) if(live(m.second)&&m.first!=key){ Cb cb; cb.x=this; struct pogocache_load_opts o{}; o.time=now;o.notouch=true;o.entry=s_loadcb;o.udata=&cb; int r=pogocache_load(h(),m.first.data(),m.first.size(),&o); if(r==POGOCACHE_NOTFOUND) { gone.push_back(m.first); n++; } }
        for(auto&k:gone) M.erase(k);
        if(n) feat[F_LOWEVICT]=true;
        return n;
    }
    void doload(const Op&op,const string&key){
        int bits=op.p[0]; struct pogocache_load_opts o{}; Cb cb; cb.x=this; bool nul=bits&8;
        struct pogocache_update u{}; string nval=mkval(op.vlen,op.vseed);
        bool usecb=bits&(2|4);
        if(!nul){ if(!(bits&256)) o.time=now; o.notouch=bits&1; if(usecb){ o.entry=s_loadcb; o.udata=&cb; } if(bits&4){ u.value=nval.data();u.valuelen=nval.size();u.flags=(uint32_t)op.p[1]; u.expires=op.p[2]==1?addclamp(now,op.p[3]):op.p[2]==3?op.p[3]:0; cb.upd=&u; } }
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; fault_fired=false;
        if(nul||(bits&256)) vclock=now;
        bool wasexp=M.count(key)&&!live(M[key]);
        int r=pogocache_load(h(),key.data(),key.size(),nul?nullptr:&o); vclock=0;
        Ent*e=find(key); int want=e?POGOCACHE_FOUND:POGOCACHE_NOTFOUND; bool upd=e&&!nul&&(bits&4);
        if(wasexp) feat[F_EXPIRED_READ]=true;
        if(upd&&r==POGOCACHE_NOMEM){ if(!fault_fired) fail("ret","load with update returned NOMEM without an allocation failure"); want=POGOCACHE_NOMEM; upd=false; feat[F_NOMEM]=true; }
        if(r!=want) fail("ret","load of key \"%s\" returned %d, model says %d (now %lld)",show(key).c_str(),r,want,(long long)now);
        if(cb.called!=(e&&!nul&&usecb)) fail("cb","load callback %s",cb.called?"made for an absent key":"missing");
        Allow a;
        if(cb.called){ if(cb.ncalls!=1) fail("cb","load callback made %d times",cb.ncalls); if(cb.ckey!=key) fail("cb","load callback got another key"); see("load",cb.shard,cb.time,key,cb.val,cb.exp,cb.flags,cb.cas); }
        if(e&&(nul||!(bits&1))) e->touch=now;
        if(upd){ e->val=nval; e->flags=u.flags; e->exp=u.expires; e->touch=now; e->casknown=false; a.ins=key; a.repok=true; a.insval=nval; feat[F_UPDATE]=true; for(auto&x:held) if(x.key==key) { feat[F_HELD]=true; heldin[x.e]=false; } }
        drain(a,before);
    }
    void dodelete(const Op&op,const string&key){
        int bits=op.p[0]; struct pogocache_delete_opts o{}; Cb cb; cb.x=this; cb.ret=!(bits&2); bool nul=bits&8; bool usecb=!nul&&(bits&3);
        if(!nul&&!(bits&256)) o.time=now; if(usecb){o.entry=s_storecb;o.udata=&cb;}
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; fault_fired=false; if(nul||(bits&256)) vclock=now;
        int r=pogocache_delete(h(),key.data(),key.size(),nul?nullptr:&o); vclock=0;
        Ent*e=find(key); int want=!e?POGOCACHE_NOTFOUND:(usecb&&!cb.ret)?POGOCACHE_CANCELED:POGOCACHE_DELETED;
        if(r!=want) fail("ret","delete of key \"%s\" returned %d, model says %d",show(key).c_str(),r,want);
        if(cb.called!=(e&&usecb)) fail("cb","delete callback %s",cb.called?"made for an absent key":"missing");
        if(cb.called){ if(cb.ncalls!=1) fail("cb","delete callback made %d times",cb.ncalls); if(cb.ckey!=key) fail("cb","delete callback got another key"); see("delete callback",cb.shard,cb.time,key,cb.val,cb.exp,cb.flags,cb.cas); }
        Allow a; if(r==POGOCACHE_DELETED){ a.userdel.insert(key); M.erase(key); userdel++; feat[F_DELETE]=true; for(auto&x:held) if(x.key==key) { feat[F_HELD]=true; heldin[x.e]=false; } } if(r==POGOCACHE_CANCELED) feat[F_CANCEL]=true;
        drain(a,before);
    }
    void dosweep(const Op&op){
        int sh=(int)op.p[0]; bool one=sh!=-1; struct pogocache_sweep_opts o{}; o.time=now; if(one){o.oneshard=true;o.oneshardidx=sh;}
        bool valid=!one||(sh>=0&&sh<nshards);
        size_t c0=!valid?0:qcount(one?sh:-1), call0=qcount(); size_t sw=777,kp=777; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M;
        bool nulc=op.p[1]&1; if(op.p[1]&256){ o.time=0; vclock=now; }
        pogocache_sweep(h(),nulc?nullptr:&sw,nulc?nullptr:&kp,(op.p[1]&256)&&!one?nullptr:&o); vclock=0;
        size_t c1=!valid?0:qcount(one?sh:-1), call1=qcount();
        size_t lv=0; bool known=true; for(auto&m:M) if(live(m.second)){ if(one){ auto s=S.find(m.first); if(s==S.end()){known=false;continue;} if(s->second!=sh) continue; } lv++; }
        if(valid&&known&&c1!=lv) fail("sweep","after a sweep the scope holds %zu entries, %zu are live",c1,lv);
        if(!nulc){ if(sw!=c0-c1) fail("sweep","sweep reported %zu swept, the count fell from %zu to %zu",sw,c0,c1); if(kp!=c1) fail("sweep","sweep reported %zu kept, the scope holds %zu",kp,c1); }
        if(call0-call1!=c0-c1) fail("sweep","a sweep of one shard changed the count outside it");
        if(c0!=c1) feat[F_SWEPT]=true;
        Allow a; drain(a,before);
        if(!(cs.c.cb&1)) for(auto it=M.begin();it!=M.end();){ bool in=!one||(S.count(it->first)&&S[it->first]==sh); if(!live(it->second)&&in) it=M.erase(it); else ++it; }
        (void)op;
    }
    void doclear(const Op&op){
        int sh=(int)op.p[0]; bool one=sh!=-1; struct pogocache_clear_opts o{}; o.time=now; o.deferfree=op.p[1]&1; if(one){o.oneshard=true;o.oneshardidx=sh;}
        bool valid=!one||(sh>=0&&sh<nshards);
        if(one&&valid){ // learn the shard of every live key first
            for(auto&m:M) if(live(m.second)&&!S.count(m.first)) checkkey(m.first);
        }
        fault_fired=false;
        map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; size_t call0=qcount(), c0=valid?qcount(one?sh:-1):0;
        if(op.p[1]&256){ o.time=0; vclock=now; }
        pogocache_clear(h(),(op.p[1]&256)&&!one&&!o.deferfree?nullptr:&o); vclock=0;
        size_t c1=valid?qcount(one?sh:-1):0, call1=qcount();
        if(c1!=0) fail("clear","%zu entries remain after a clear",c1);
        if(call0-call1!=c0) fail("clear","a clear of one shard changed the count outside it");
        if(c0) feat[F_CLEARED]=true;
        Allow a; a.clear=true;
        if(valid) for(auto it=M.begin();it!=M.end();){ bool in=!one||(S.count(it->first)&&S[it->first]==sh); if(in){ for(auto&x:held) if(x.key==it->first) { feat[F_HELD]=true; heldin[x.e]=false; } it=M.erase(it);} else ++it; }
        // every live entry in scope must be reported
        if((mask&M_LOG)&&(cs.c.cb&2)){ size_t n=0; for(auto&r:ev){ (void)r; n++; } if(n!=c0) fail("log","a clear of %zu entries made %zu evicted callbacks",c0,n); }
        drain(a,before);
    }
    void dopoll(const Op&op){
        struct pogocache_sweep_poll_opts o{}; o.time=now; o.pollsize=(int)op.p[0];
        if(now>INT64_MAX-1000000) return;
        size_t c0=qcount(); map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; size_t lv=liven();
        bool anyexp= c0!=lv;
        double d=pogocache_sweep_poll(h(),&o);
        if(!(d>=0&&d<=1)) fail("poll","sweep poll returned %g",d);
        if(!anyexp&&d!=0) fail("poll","sweep poll returned %g though nothing is expired",d);
        if(nshards==1&&c0>0&&lv==0&&o.pollsize>=0&&d!=1) fail("poll","sweep poll returned %g though all %zu entries are expired",d,c0);
        if(nshards>1&&lv==0&&c0>0&&d!=0&&d!=1) fail("poll","sweep poll returned %g though every entry is expired",d);
        if(lv==0&&c0>0&&d==1) feat[F_POLL1]=true;
        if(qcount()!=c0||!nt.empty()||!ev.empty()) fail("poll","sweep poll changed the cache");
        Allow a; drain(a,before);
    }
    void release(size_t i){ pogocache_entry_release(h(),held[i].e); heldin.erase(held[i].e); auto e=held[i].e; held.erase(held.begin()+i); for(auto&x:held) if(x.e==e) heldin[e]=heldin.count(e)?heldin[e]:true; }
    void endbatch(){ if(!batch) return; pogocache_end(batch); batch=nullptr; }

    void run(){
        ledger.clear(); ledger_bytes=0; alloc_no=0; ledger_err.clear(); fault_at=cs.fault_at; fault_len=cs.fault_len; fault_fired=false; vclock=0;
        if(!create()) return;
        size_t stepno=0;
        for(auto&op:cs.ops){
            string key=cs.keys.empty()?string("k"):cs.keys[op.key%cs.keys.size()];
            if(batch) feat[F_BATCHOP]=true;
            uint64_t ft0=faults_total;
            switch(op.kind){
            case K_STORE: dostore(op,key); break;
            case K_LOAD: doload(op,key); break;
            case K_DELETE: dodelete(op,key); break;
            case K_ITER: doiter((uint64_t)op.p[0],op.p[1],op.p[2],(int)op.p[3],op.p[4]&1,op.p[5]-1); break;
            case K_ITERSHARDS: { // partition by shard
                size_t n=0; for(auto&m:M) if(live(m.second)&&!S.count(m.first)) checkkey(m.first);
                size_t lv=liven(); for(int i=0;i<nshards;i++){ It it; it.x=this; it.pol=0;it.pctdel=0;it.pctstop=0;it.oneshard=i; struct pogocache_iter_opts o{}; o.time=now;o.entry=s_iter;o.udata=&it;o.oneshard=true;o.oneshardidx=i; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; int r=pogocache_iter(h(),&o); if(!it.err.empty()) fail("iter","%s",it.err.c_str()); if(r!=POGOCACHE_FINISHED) fail("iter","shard iteration returned %d",r); n+=it.n; Allow a; drain(a,before); }
                if(n!=lv) fail("iter","the shards' iterations report %zu entries, %zu are live",n,lv);
                feat[F_ITER]=true; break; }
            case K_COUNT: figs(); if(mask&M_FIG) perShard(); break;
            case K_SWEEP: dosweep(op); break;
            case K_CLEAR: doclear(op); break;
            case K_POLL: dopoll(op); break;
            case K_SCAN: doscan(op.p[0]&1); break;
            case K_CURSOR: { uint64_t cur=(uint64_t)op.p[0]; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; auto*e=pogocache_entry_iter(h(),now,&cur); if(e){ size_t kl; char b[128]; const void*k=pogocache_entry_key(h(),e,&kl,b); string ks((const char*)k,kl); pogocache_entry_release(h(),e); if(!find(ks)) fail("scan","a cursor returned key \"%s\" which is not live",show(ks).c_str()); } else if(cur!=0) fail("scan","a cursor without entry left cursor %llu",(unsigned long long)cur); Allow a; drain(a,before); break; }
            case K_HOLD: { uint64_t cur=0; map<string,Ent> before; if(mask&(M_LOG|M_EVICT)) before=M; auto*e=pogocache_entry_iter(h(),now,&cur); int skip=(int)op.p[0]; while(e&&skip-->0){ auto*e2=pogocache_entry_iter(h(),now,&cur); pogocache_entry_release(h(),e); e=e2; } if(e){ size_t kl,vl; char b[128]; const void*k=pogocache_entry_key(h(),e,&kl,b); string ks((const char*)k,kl); const void*v=pogocache_entry_value(h(),e,&vl); string vs((const char*)v,vl); if(op.p[1]&1){ pogocache_entry_retain(h(),e); held.push_back({e,ks,vs}); } held.push_back({e,ks,vs}); heldin[e]=true; if(!find(ks)) fail("scan","cursor returned key \"%s\" which is not live",show(ks).c_str()); if(find(ks)->val!=vs) fail("scan","entry handle of \"%s\" has a wrong value",show(ks).c_str()); } Allow a; drain(a,before); break; }
            case K_RELEASE: if(!held.empty()){ checkheld(); release(op.p[0]%held.size()); } break;
            case K_ADV: { int64_t t=std::min<int64_t>(addclamp(now,op.p[0]),INT64_MAX-10000); if(t>now) now=t; break; }
            case K_ADVTO: { auto it=M.find(key); if(it!=M.end()&&it->second.exp>0&&it->second.exp<INT64_MAX-20000){ int64_t t=it->second.exp+op.p[0]; if(t>now){ now=t; feat[F_BOUNDARY]=true; } } break; }
            case K_BEGIN: if(!batch){ fault_fired=false; size_t b0=ledger_bytes; batch=pogocache_begin(cache); batchbytes_=ledger_bytes-b0; if(!batch&&!fault_fired) fail("batch","begin returned null"); if(batch&&pogocache_nshards(batch)!=nshards) fail("batch","nshards through a batch is %d",pogocache_nshards(batch)); } break;
            case K_END: endbatch(); break;
            case K_CHECK: fullcheck(); break;
            case K_FILL: { int64_t n=op.p[0]; size_t base=(size_t)op.key; for(int64_t i=0;i<n;i++){ Op o2; o2.kind=K_STORE; o2.vlen=op.vlen; o2.vseed=op.vseed+i; o2.p[0]=op.p[1]; o2.p[1]=op.p[2]; if(op.p[3]&&i%op.p[3]) o2.p[0]=0; o2.p[3]=op.p[4]; dostore(o2,cs.keys[(base+i)%cs.keys.size()]); } break; }
            }
            if(batch&&(op.kind==K_ITER||op.kind==K_ITERSHARDS||op.kind==K_COUNT||op.kind==K_SWEEP||op.kind==K_CLEAR||op.kind==K_SCAN||op.kind==K_POLL)) feat[F_BATCHSCAN]=true;
            if(faults_total!=ft0) feat[F_FAULT]=true;
            if(!ledger_err.empty()) fail("mem","%s",ledger_err.c_str());
            refreshheld();
            if((mask&(M_FIG))&&(stepno%3==0||op.kind==K_CLEAR||op.kind==K_SWEEP||op.kind==K_ITER)) figs();
            if(mask&M_LOG) logcheck();
            if(op.kind==K_STORE||op.kind==K_LOAD||op.kind==K_DELETE) { if((stepno&1)||cs.prof=="C02"||cs.prof=="C04"||cs.prof=="C08") checkkey(key); }
            if(M.size()>48) { map<int,int> c; for(auto&m:M) { auto s=S.find(m.first); if(s!=S.end()) if(++c[s->second]>48) feat[F_GROW]=true; } }
            if(M.size()<10&&feat[F_GROW]&&cs.c.allowshrink) feat[F_SHRUNK]=true;
            stepno++;
        }
        // after a batch everything must be usable through the cache itself
        endbatch();
        fault_at=-1;
        refreshheld();
        fullcheck();
        if(mask&M_FIG) perShard();
        while(!held.empty()){ checkheld(); release(held.size()-1); }
        if(mask&M_FIG){ refreshheld(); figs(); }
        pogocache_free(cache); cache=nullptr;
        if(!ledger_err.empty()) fail("mem","%s",ledger_err.c_str());
        if(!ledger.empty()) fail("leak","%zu allocations (%zu bytes) remain after the cache was freed",ledger.size(),ledger_bytes);
    }
};

#include "gen.h"

// ---------------------------------------------------------------- driver
static bool nontrivial(const string&p,const bool*f){
    if(p=="C01") return f[F_INSERT]&&f[F_REPLACE]&&(f[F_REFUSED]||f[F_CANCEL]||f[F_XXMISS])&&(f[F_DELETE]||f[F_UPDATE]);
    if(p=="C02") return f[F_BOUNDARY]&&(f[F_EXPIRED_READ]||f[F_EXPREPL]);
    if(p=="C03") return f[F_INSERT];
    if(p=="C04") return f[F_CASOK]&&f[F_CASFAIL];
    if(p=="C05") return f[F_ITERDEL]||f[F_SCAN]||f[F_ITERSTOP];
    if(p=="C06") return f[F_INSERT]&&(f[F_REPLACE]||f[F_SWEPT]||f[F_ITERDEL]||f[F_XXMISS]||f[F_EXPREPL]||f[F_DELETE]);
    if(p=="C07") return f[F_INSERT]&&(f[F_REPLACE]||f[F_DELETE]||f[F_SWEPT]||f[F_CLEARED]||f[F_LOWEVICT]);
    if(p=="C08") return f[F_FAULT]||f[F_NOMEM];
    if(p=="C09") return f[F_LOWEVICT]||f[F_LOWREFUSED];
    if(p=="C10") return f[F_SWEPT]||f[F_CLEARED]||f[F_POLL1];
    if(p=="C11") return f[F_BATCHSCAN];
    return true;
}
// how many keys of the case fall on one 24-bit hash (for the report only)
static uint64_t modelth64(const string&k,uint64_t seed){
    const uint8_t*p=(const uint8_t*)k.data(),*e=p+k.size(); uint64_t r=0x14020a57acced8b7,x,h=seed;
    while(p+8<=e){ memcpy(&x,p,8); x*=r; p+=8; x=x<<31|x>>33; h=(h*r)^x; h=h<<31|h>>33; }
    while(p<e) h=(h*r)^*(p++);
    h=h*r+k.size(); h^=h>>31; h*=r; h^=h>>31; h*=r; h^=h>>31; h*=r; return h; }
struct Result { bool ok; string tag,msg; bool feat[F_N]; uint64_t nchecks; uint64_t allocs; };
static Result runcase(const Case&c){
    Result r{}; r.ok=true; Exec x(c);
    try { x.run(); } catch(Fail&f){ r.ok=false; r.tag=f.tag; r.msg=f.msg; }
    { map<uint64_t,int> m; int n=0; for(auto&k:c.keys) if(++m[modelth64(k,c.c.seed)&0xFFFFFF]>1) n++; x.feat[F_WRAP]=n>0; }
    memcpy(r.feat,x.feat,sizeof r.feat); r.nchecks=x.nchecks; r.allocs=alloc_no; return r;
}
// run in a child: 0 ok, 1 oracle failure, 2 crash, 3 hang
static int runchild(const Case&c,string*msg,int secs=10){
    int pfd[2]; if(pipe(pfd)) return 0; fflush(stdout); pid_t p=fork();
    if(p==0){ close(pfd[0]); alarm(secs); int fd=pfd[1]; dup2(fd,2); Result r=runcase(c); if(!r.ok){ string m=r.tag+": "+r.msg; (void)!write(fd,m.data(),m.size()); _exit(1);} _exit(0); }
    close(pfd[1]); string out; char b[4096]; ssize_t n; while((n=read(pfd[0],b,sizeof b))>0) if(out.size()<20000) out.append(b,n); close(pfd[0]);
    int st; waitpid(p,&st,0); 
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return 0;
    if(WIFEXITED(st)&&WEXITSTATUS(st)==1&&out.find("ERROR: AddressSanitizer")==string::npos&&out.find("runtime error")==string::npos){ if(msg)*msg=out; return 1; }
    if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM){ if(msg)*msg="hang: the case did not finish"; return 3; }
    if(msg){ size_t a=out.find("ERROR: AddressSanitizer"); if(a==string::npos) a=out.find("runtime error"); if(a==string::npos) a=out.find("Assertion"); if(a==string::npos)a=0; *msg="crash: "+out.substr(a,400); }
    return 2;
}
static Case shrink(Case c,int budget){
    time_t t0=time(0); int hs=3;
    auto bad=[&](const Case&d){ if(time(0)-t0>budget) return false; return runchild(d,nullptr,hs)!=0; };
    bool changed=true; 
    while(changed){ changed=false;
        for(size_t n=std::max<size_t>(1,c.ops.size()/2); n>=1; n/=2){
            for(size_t i=0;i+n<=c.ops.size();){ Case d=c; d.ops.erase(d.ops.begin()+i,d.ops.begin()+i+n); if(bad(d)){ c=d; changed=true; } else i+=n; }
            if(n==1) break;
        }
        for(size_t i=0;i<c.ops.size();i++){ Case d=c;
            if(c.ops[i].vlen>0){ d.ops[i].vlen=c.ops[i].vlen>8?c.ops[i].vlen/4:0; if(bad(d)){c=d;changed=true;} }
            if(c.ops[i].kind==K_FILL&&c.ops[i].p[0]>1){ d=c; d.ops[i].p[0]/=2; if(bad(d)){c=d;changed=true;} else { d=c; d.ops[i].p[0]--; if(bad(d)){c=d;changed=true;} } }
            if(c.ops[i].kind==K_STORE) for(int bit:{1,16,32,64,256}) if(c.ops[i].p[3]&bit){ d=c; d.ops[i].p[3]&=~bit; if(bad(d)){c=d;changed=true;} }
            if(c.ops[i].kind==K_STORE&&c.ops[i].p[2]){ d=c; d.ops[i].p[2]=0; if(bad(d)){c=d;changed=true;} }
        }
        Case d=c; auto tr=[&](std::function<void(Conf&)> f){ d=c; f(d.c); if(dump(d)!=dump(c)&&bad(d)){c=d;changed=true;} };
        tr([](Conf&x){x.nshards=1;}); tr([](Conf&x){x.usecas=0;}); tr([](Conf&x){x.allowshrink=0;}); tr([](Conf&x){x.nosixpack=0;}); tr([](Conf&x){x.loadfactor=0;}); tr([](Conf&x){x.noevict=0;});
        // unused keys
        set<int> used; bool all=false; for(auto&o:c.ops){ used.insert(o.key%std::max<int>(1,c.keys.size())); if(o.kind==K_FILL) all=true; }
        if(!all&&used.size()<c.keys.size()){ d=c; d.keys.clear(); map<int,int> m; for(int u:used){ m[u]=d.keys.size(); d.keys.push_back(c.keys[u]); } for(auto&o:d.ops) o.key=m[o.key%(int)c.keys.size()]; if(bad(d)){ c=d; changed=true; } }
        if(time(0)-t0>budget) break;
    }
    return c;
}
static string slurp(const char*p){ FILE*f=fopen(p,"rb"); string s; if(!f) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
static string jesc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c; } return o; }

int main(int argc,char**argv){
    string prof="C01", replay, out, cur; uint64_t seed=1; int64_t from=0,to=0; bool doshrink=false, dodump=false; int cap=600; int64_t worker=0, nworkers=1;
    for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{return string(argv[++i]);};
        if(a=="--prof")prof=nx(); else if(a=="--seed")seed=strtoull(nx().c_str(),0,10); else if(a=="--from")from=atoll(nx().c_str()); else if(a=="--to")to=atoll(nx().c_str()); else if(a=="--replay")replay=nx(); else if(a=="--out")out=nx(); else if(a=="--cur")cur=nx(); else if(a=="--shrink")doshrink=true; else if(a=="--dump")dodump=true; else if(a=="--cap")cap=atoi(nx().c_str()); else if(a=="--worker")worker=atoll(nx().c_str()); else if(a=="--nworkers")nworkers=atoll(nx().c_str()); }
    if(!replay.empty()){
        Case c; if(!parse(slurp(replay.c_str()),c)){ fprintf(stderr,"bad replay file\n"); return 4; }
        if(doshrink){ Case d=shrink(c,60); string m; int r=runchild(d,&m); if(r==0){ d=c; r=runchild(d,&m); } FILE*f=fopen(out.c_str(),"w"); string t="# "+m.substr(0,m.find('\n'))+"\n"+dump(d); fwrite(t.data(),1,t.size(),f); fclose(f); printf("shrunk to %zu ops: %s\n",d.ops.size(),m.c_str()); return r?1:0; }
        string m; int r=runchild(c,&m,20); printf("%s\n",r?m.c_str():"ok"); return r?1:0;
    }
    if(dodump){ Case c=gencase(prof,seed,from); string t=dump(c); fwrite(t.data(),1,t.size(),stdout); return 0; }
    // worker: run cases from..to with stride, write statistics as JSON
    uint64_t ev=0,nontriv=0,checks=0,faultpts=0; uint64_t fc[F_N]={0}; std::unordered_set<uint64_t> distinct; vector<string> samples; time_t t0=time(0); string failtxt; int rc=0; int64_t failidx=-1; bool capped=false;
    int curfd=-1; FILE*cf=nullptr; if(!cur.empty()) cf=fopen(cur.c_str(),"w"); (void)curfd;
    for(int64_t i=from+worker;i<to;i+=nworkers){
        if(cf){ rewind(cf); fprintf(cf,"%lld %d %d          \n",(long long)i,-1,0); fflush(cf); }
        alarm(40);
        Case c=gencase(prof,seed,i);
        Result r=runcase(c);
        ev++; checks+=r.nchecks; 
        bool nt=nontrivial(prof,r.feat);
        if(prof=="C08"&&r.ok){
            // enumerate allocation failures: each allocation of the case in turn
            int64_t na=(int64_t)r.allocs; int64_t step=na>160?na/160+1:1; Rng rr(mix(seed,i));
            for(int64_t f=0;f<na&&r.ok;f+=step){ Case d=c; d.fault_at=f+(step>1?(int64_t)rr.below(step):0); d.fault_len=rr.chance(70)?1:rr.range(2,6); if(cf){ rewind(cf); fprintf(cf,"%lld %lld %lld          \n",(long long)i,(long long)d.fault_at,(long long)d.fault_len); fflush(cf);} Result q=runcase(d); ev++; faultpts++; checks+=q.nchecks; for(int k=0;k<F_N;k++) fc[k]+=q.feat[k]; if(nontrivial(prof,q.feat)){ nontriv++; distinct.insert(std::hash<string>()(dump(d))); } if(!q.ok){ r=q; c=d; } }
        }
        for(int k=0;k<F_N;k++) fc[k]+=r.feat[k];
        if(nt){ nontriv++; string t=dump(c); distinct.insert(std::hash<string>()(t)); if(samples.size()<2&&t.size()<1500) samples.push_back(t); }
        if(!r.ok){ rc=1; failidx=i; failtxt=dump(c); fprintf(stderr,"%s: %s\n",r.tag.c_str(),r.msg.c_str()); break; }
        if(time(0)-t0>cap){ capped=true; break; }
    }
    alarm(0);
    FILE*f=out.empty()?stdout:fopen(out.c_str(),"w");
    fprintf(f,"{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"checks\":%llu,\"fault_points\":%llu,\"capped\":%s,\"features\":{",(unsigned long long)ev,(unsigned long long)nontriv,distinct.size(),(unsigned long long)checks,(unsigned long long)faultpts,capped?"true":"false");
    for(int k=0;k<F_N;k++) fprintf(f,"%s\"%s\":%llu",k?",":"",fname[k],(unsigned long long)fc[k]);
    fprintf(f,"},\"samples\":["); for(size_t k=0;k<samples.size();k++) fprintf(f,"%s\"%s\"",k?",":"",jesc(samples[k]).c_str());
    fprintf(f,"],\"failed\":%lld,\"failcase\":\"%s\"}\n",(long long)failidx,jesc(failtxt).c_str());
    if(f!=stdout) fclose(f);
    return rc;
}
