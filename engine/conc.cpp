// Concurrent checks of the engine through its public API (C11, C12).
//  batch : one thread holds a shard through a batch, another one must contend
//  lin   : random multi-threaded histories, checked per key for linearizability
//  count : concurrent increments by update, batch and cas; none may be lost
//  churn : everything at once (ttl, low memory, sweep, clear, cursor handles);
//          values carry their key and a checksum; figures must agree at the end
// Every scenario is generated from (mode, seed, index).  Threads are perturbed
// at allocations, callbacks and lock contention by generated yields.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
#include <thread>
#include <algorithm>
#include <sched.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "pogocache.h"
}
using std::string; using std::vector; using std::map; using std::set;
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x){} uint64_t next(){ uint64_t z=(s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);} uint64_t below(uint64_t n){return n?next()%n:0;} int range(int a,int b){return a+(int)below(b-a+1);} bool chance(int p){return (int)below(100)<p;} };
static uint64_t mix(uint64_t a,uint64_t b){ Rng r(a^(b*0xD1B54A32D192ED03ULL)); r.next(); return r.next()^b; }
static string failmsg; static string history;
static std::atomic<int> failed{0}; static std::atomic<int> failspin{0};
static void failf(const char*fmt,...){ char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); int z=0; if(failspin.compare_exchange_strong(z,1)){ failmsg=b; failed.store(1); } }

static std::atomic<long> live_allocs{0}; static std::atomic<uint64_t> pert{0}; static std::atomic<int> pertpct{0};
static void perturb(){ int p=pertpct.load(std::memory_order_relaxed); if(!p) return; uint64_t x=pert.fetch_add(0x9e3779b97f4a7c15ULL,std::memory_order_relaxed); x^=x>>31; x*=0xbf58476d1ce4e5b9ULL; x^=x>>29; if((int)(x%100)<p){ if((x>>40)%8==0){ struct timespec ts={0,(long)((x>>44)%20000)}; nanosleep(&ts,0);} else sched_yield(); } }
static void *pmalloc(size_t n){ perturb(); live_allocs.fetch_add(1,std::memory_order_relaxed); return malloc(n); }
static void pfree(void*p){ perturb(); live_allocs.fetch_sub(1,std::memory_order_relaxed); free(p); }
static thread_local int myid=-1;
static std::atomic<int> yielded[16];
static void yieldcb(void*){ if(myid>=0) yielded[myid].fetch_add(1); sched_yield(); }

static struct pogocache *mk(Rng&r,int nshards,bool usecas,bool tb,bool withyield,int noevict=0){
    struct pogocache_opts o; memset(&o,0,sizeof o); o.malloc=pmalloc;o.free=pfree; if(withyield) o.yield=yieldcb; o.nshards=nshards;o.usecas=usecas;o.usethreadbatch=tb;o.nosixpack=r.chance(30);o.allowshrink=r.chance(50);o.seed=r.next();o.noevict=noevict; return pogocache_new(&o);
}
struct Ctr { uint64_t evals=0, nontriv=0; std::unordered_set<uint64_t> distinct; map<string,uint64_t> cls; vector<string> samples; };
static Ctr C;

// ------------------------------------------------------------------- batch
struct LoadRes { bool found=false; string val; uint64_t cas=0; int n=0; };
static void loadcb(int,int64_t,const void*,size_t,const void*v,size_t vl,int64_t,uint32_t,uint64_t cas,struct pogocache_update**,void*ud){ LoadRes*l=(LoadRes*)ud; l->found=true; l->n++; l->val.assign((const char*)v,vl); l->cas=cas; perturb(); }
static int doload(struct pogocache*c,const string&k,LoadRes*l,int64_t now){ struct pogocache_load_opts o; memset(&o,0,sizeof o); o.time=now;o.entry=loadcb;o.udata=l; return pogocache_load(c,k.data(),k.size(),&o); }
static int dostore(struct pogocache*c,const string&k,const string&v,int64_t now,int64_t exp=0){ struct pogocache_store_opts o; memset(&o,0,sizeof o); o.time=now;o.expires=exp; return pogocache_store(c,k.data(),k.size(),v.data(),v.size(),&o); }
struct ItRes { map<string,string> m; };
static int itcb(int,int64_t,const void*k,size_t kl,const void*v,size_t vl,int64_t,uint32_t,uint64_t,void*ud){ ((ItRes*)ud)->m[string((const char*)k,kl)]=string((const char*)v,vl); perturb(); return 0; }

static void scen_batch(uint64_t seed,uint64_t idx){
    Rng r(mix(seed,idx*7+1)); int ns=r.range(1,4); bool tb=r.chance(50); pertpct=0;
    struct pogocache*c=mk(r,ns,r.chance(40),tb,true); int64_t now=1000000; int nk=r.range(1,6); vector<string> keys; string desc="batch nshards="+std::to_string(ns)+" threadbatch="+std::to_string(tb);
    for(int i=0;i<nk;i++) keys.push_back("k"+std::to_string(r.below(1000))+"_"+std::to_string(i));
    for(auto&k:keys) dostore(c,k,"v0",now);
    string ek="expiring"; 
    int bop=r.below(8); string tkey=keys[r.below(nk)]; 
    vector<int> aops; int na=r.range(0,5); for(int i=0;i<na;i++) aops.push_back(r.below(8));
    static const char*bn[]={"load","store","delete","iter","clear","entry_iter","batch-load","batch-store"}; static const char*an[]={"load-other","iter","count","size","sweep","scan","poll","store-other"};
    desc+=string(" B=")+bn[bop]+" A="; for(int a:aops) desc+=string(an[a])+",";
    std::atomic<int> bstate{0}; LoadRes bl; ItRes bi; int bret=0; string bent;
    for(auto&y:yielded) y=0;
    struct pogocache*b=pogocache_begin(c); if(!b){ failf("begin returned null"); return; }
    LoadRes l0; if(doload(b,tkey,&l0,now)!=POGOCACHE_FOUND||l0.val!="v0"){ failf("%s: load through the batch failed",desc.c_str()); }
    dostore(b,tkey,"dirty",now);
    bool exact=!(bop==4&&ns>1); // a clear by another thread may empty shards which the batch does not hold
    auto afun=[&](int a){ string ok=keys[r.below(nk)]; switch(a){ case 0:{LoadRes l;doload(b,ok,&l,now);break;} case 1:{ItRes i; struct pogocache_iter_opts o; memset(&o,0,sizeof o);o.time=now;o.entry=itcb;o.udata=&i; pogocache_iter(b,&o); if(exact&&(int)i.m.size()!=nk) failf("%s: iteration through the batch saw %zu of %d entries",desc.c_str(),i.m.size(),nk); break;} case 2: if(exact&&(int)pogocache_count(b,0)!=nk) failf("%s: count through the batch is %zu, expected %d",desc.c_str(),pogocache_count(b,0),nk); break; case 3: pogocache_size(b,0); break; case 4:{ size_t sw=0,kp=0; struct pogocache_sweep_opts o; memset(&o,0,sizeof o); o.time=now; pogocache_sweep(b,&sw,&kp,&o); if(sw!=0||(exact&&(int)kp!=nk)) failf("%s: sweep through the batch swept %zu kept %zu",desc.c_str(),sw,kp); break; } case 5:{ uint64_t cur=0; int n=0; while(1){ auto*e=pogocache_entry_iter(b,now,&cur); if(!e) break; pogocache_entry_release(b,e); n++; } if(exact&&n!=nk) failf("%s: cursor scan through the batch saw %d of %d",desc.c_str(),n,nk); break; } case 6:{ struct pogocache_sweep_poll_opts o; memset(&o,0,sizeof o); o.time=now; pogocache_sweep_poll(b,&o); break; } default: if(ok!=tkey) dostore(b,ok,"v1",now); } };
    // half of A's operations before B starts, half while B contends
    size_t half=aops.size()/2; for(size_t i=0;i<half;i++) afun(aops[i]);
    std::thread tb_([&]{ myid=1; bstate=1;
        struct pogocache*bb=nullptr;
        switch(bop){ case 0: bret=doload(c,tkey,&bl,now); break; case 1: bret=dostore(c,tkey,"fromB",now); break; case 2: bret=pogocache_delete(c,tkey.data(),tkey.size(),0); break;
        case 3:{ struct pogocache_iter_opts o; memset(&o,0,sizeof o);o.time=now;o.entry=itcb;o.udata=&bi; bret=pogocache_iter(c,&o); break; }
        case 4: pogocache_clear(c,0); break;
        case 5:{ uint64_t cur=0; while(1){ auto*e=pogocache_entry_iter(c,now,&cur); if(!e) break; size_t kl,vl; char kb[128]; const void*kk=pogocache_entry_key(c,e,&kl,kb); string ks((const char*)kk,kl); const void*vv=pogocache_entry_value(c,e,&vl); bi.m[ks]=string((const char*)vv,vl); pogocache_entry_release(c,e);} break; }
        case 6: bb=pogocache_begin(c); bret=doload(bb,tkey,&bl,now); pogocache_end(bb); break;
        case 7: bb=pogocache_begin(c); bret=dostore(bb,tkey,"fromB",now); pogocache_end(bb); break; }
        bstate=2; });
    // wait until B contends for a lock, or finishes, which it must not
    while(bstate.load()<2&&yielded[1].load()==0) sched_yield();
    for(size_t i=half;i<aops.size();i++) afun(aops[i]);
    for(int i=0;i<r.range(1,30);i++) sched_yield();
    if(bstate.load()==2) failf("%s: another thread's %s finished while the batch held the shard",desc.c_str(),bn[bop]);
    dostore(b,tkey,"final",now);
    LoadRes l1; doload(b,tkey,&l1,now); if(l1.val!="final") failf("%s: the batch does not see its own store",desc.c_str());
    pogocache_end(b); tb_.join();
    if(!failed.load()){
        LoadRes l; int rc=doload(c,tkey,&l,now);
        switch(bop){ case 0: case 6: if(bret!=POGOCACHE_FOUND||bl.val!="final") failf("%s: the other thread read \"%s\" (%d), the batch ended with \"final\"",desc.c_str(),bl.val.c_str(),bret); break;
        case 1: case 7: if(bret!=POGOCACHE_REPLACED||l.val!="fromB") failf("%s: store after the batch returned %d, value now \"%s\"",desc.c_str(),bret,l.val.c_str()); break;
        case 2: if(bret!=POGOCACHE_DELETED||rc!=POGOCACHE_NOTFOUND) failf("%s: delete after the batch returned %d",desc.c_str(),bret); break;
        case 3: case 5: if(bi.m[tkey]!="final") failf("%s: scan read \"%s\" in the batch's shard",desc.c_str(),bi.m[tkey].c_str()); break;
        case 4: if(rc!=POGOCACHE_NOTFOUND||(exact&&pogocache_count(c,0)!=0)) failf("%s: entries remain after the clear",desc.c_str()); break; }
        pogocache_iter(c,0); pogocache_count(c,0); // all locks must be free
    }
    C.evals++; C.nontriv++; C.distinct.insert(std::hash<string>()(desc)); C.cls[string("B-")+bn[bop]]++; if(C.samples.size()<3) C.samples.push_back(desc);
    pogocache_free(c); if(live_allocs.load()!=0&&!failed.load()) failf("%s: %ld allocations leaked",desc.c_str(),live_allocs.load());
    history=desc;
}

// --------------------------------------------------------------------- lin
enum { L_LOAD,L_STORE,L_NX,L_XX,L_CAS,L_DEL,L_UPD,L_BRMW,L_ITER,L_CLEAR,L_ITERDEL,L_SWEEP };
static const char*ln[]={"load","store","nx","xx","cas","delete","update","batch-rmw","iter","clear","iter-delete","sweep"};
// per key event. rd: value read (-1 absent, -2 not observed), wr: value written(-1 removed, -2 none)
struct Evt { int th,op,key; uint64_t inv,res; int rd; int wr; int existed; /*1 yes 0 no -1 unknown*/ uint64_t cas; int casver; };
static bool linkey(vector<Evt> h,string&why){
    // states: current value id or -1.  DFS with memo over (mask,state)
    std::sort(h.begin(),h.end(),[](const Evt&a,const Evt&b){return a.inv<b.inv;});
    int n=h.size(); if(n>60){ why="too long"; return true; }
    std::set<std::pair<uint64_t,int>> memo; vector<std::pair<uint64_t,int>> st; st.push_back({0,-1}); uint64_t full=n==64?~0ULL:((1ULL<<n)-1); size_t steps=0;
    while(!st.empty()){
        auto [m,s]=st.back(); st.pop_back(); if(m==full) return true; if(!memo.insert({m,s}).second) continue; if(++steps>4000000) { why="budget"; return true; }
        uint64_t minres=UINT64_MAX; for(int i=0;i<n;i++) if(!(m>>i&1)) minres=std::min(minres,h[i].res);
        for(int i=0;i<n;i++){ if(m>>i&1) continue; const Evt&e=h[i]; if(e.inv>minres) break;
            if(e.rd!=-2&&e.rd!=s) continue; // what it read is what it must be
            if(e.existed==1&&s==-1) continue; if(e.existed==0&&s!=-1) continue;
            if(e.op==L_CAS){ if(e.wr!=-2){ if(e.casver!=s) continue; } else if(e.existed==1&&e.casver==s) continue; }
            int ns=e.wr==-2?s:e.wr; st.push_back({m|1ULL<<i,ns}); }
    }
    why="no order of the operations explains the results"; return false;
}
static string encv(int key,int id){ char b[64]; string s; int len=8+(id*37)%90; snprintf(b,64,"%d:%d:",key,id); s=b; while((int)s.size()<len) s+=(char)('a'+(id+s.size())%26); return s; }
static int decv(const string&s,int key,const char*who){ int k=-1,id=-1; if(sscanf(s.c_str(),"%d:%d:",&k,&id)!=2||k!=key||encv(key,id)!=s){ failf("%s: torn or foreign value \"%.60s\" for key %d",who,s.c_str(),key); return -3; } return id; }
struct UpdCtx { int key; string nv; int rd=-1; uint64_t cas=0; struct pogocache_update u; };
static void updcb(int,int64_t,const void*,size_t,const void*v,size_t vl,int64_t,uint32_t,uint64_t cas,struct pogocache_update**up,void*ud){ UpdCtx*c=(UpdCtx*)ud; c->rd=decv(string((const char*)v,vl),c->key,"update"); c->cas=cas; perturb(); c->u.value=c->nv.data(); c->u.valuelen=c->nv.size(); c->u.flags=0; c->u.expires=0; *up=&c->u; }
struct StCtx { int key; int rd=-2; };
static bool stcb(int,int64_t,const void*,size_t,const void*v,size_t vl,int64_t,uint32_t,uint64_t,void*ud){ StCtx*c=(StCtx*)ud; c->rd=decv(string((const char*)v,vl),c->key,"store callback"); perturb(); return true; }
struct ItDel { map<string,int>*idx; map<int,int> seen; int pct; uint64_t pol; set<int> del; bool dup=false; };
static int itdel(int,int64_t,const void*k,size_t kl,const void*v,size_t vl,int64_t,uint32_t,uint64_t,void*ud){ ItDel*d=(ItDel*)ud; string ks((const char*)k,kl); auto it=d->idx->find(ks); if(it==d->idx->end()){ failf("iteration reported an unknown key"); return 0; } if(d->seen.count(it->second)) d->dup=true; d->seen[it->second]=decv(string((const char*)v,vl),it->second,"iter"); perturb(); if((int)((d->pol>>(it->second*5))%100)<d->pct){ d->del.insert(it->second); return POGOCACHE_ITER_DELETE; } return 0; }

static void scen_lin(uint64_t seed,uint64_t idx){
    Rng r(mix(seed,idx*13+5)); int T=r.range(2,5), K=r.range(1,4), N=r.range(3,10), ns=r.range(1,3); bool usecas=r.chance(60), tb=r.chance(50), yl=r.chance(70); int pp=r.range(0,60); pertpct=pp; pert=r.next();
    struct pogocache*c=mk(r,ns,usecas,tb,yl); int64_t now=1000000; vector<string> keys; map<string,int> kidx; for(int i=0;i<K;i++){ keys.push_back("key"+std::to_string(r.below(10000))+(i&1?"Q":"")+std::to_string(i)); kidx[keys[i]]=i; }
    std::atomic<uint64_t> clk{1}; std::atomic<int> go{0}; std::atomic<int> nextid{1};
    vector<vector<Evt>> hs(T); vector<uint64_t> seeds; for(int t=0;t<T;t++) seeds.push_back(r.next()); bool heavy=r.chance(30);
    vector<std::thread> th;
    for(int t=0;t<T;t++) th.emplace_back([&,t]{
        myid=t; Rng q(seeds[t]); auto&h=hs[t]; h.reserve(N*K*2+8); map<int,std::pair<uint64_t,int>> lastcas; 
        go.fetch_add(1); while(go.load()<T) {}
        for(int n=0;n<N&&!failed.load();n++){
            int key=q.below(K); const string&k=keys[key]; int op; int x=q.below(100);
            if(x<22) op=L_LOAD; else if(x<40) op=L_STORE; else if(x<48) op=L_NX; else if(x<53) op=L_XX; else if(x<65) op=usecas?L_CAS:L_STORE; else if(x<75) op=L_DEL; else if(x<84) op=L_UPD; else if(x<93) op=L_BRMW; else if(heavy){ op=x<96?L_ITER:x<97?L_CLEAR:x<99?L_ITERDEL:L_SWEEP; } else op=L_LOAD;
            Evt e; e.th=t;e.op=op;e.key=key;e.rd=-2;e.wr=-2;e.existed=-1;e.cas=0;e.casver=-9; int id=nextid.fetch_add(1); string nv=encv(key,id);
            struct pogocache_store_opts so; memset(&so,0,sizeof so); so.time=now;
            e.inv=clk.fetch_add(1);
            switch(op){
            case L_LOAD:{ LoadRes l; int rc=doload(c,k,&l,now); e.res=clk.fetch_add(1); if(rc==POGOCACHE_FOUND){ e.rd=decv(l.val,key,"load"); lastcas[key]={l.cas,e.rd}; } else e.rd=-1; h.push_back(e); break; }
            case L_STORE: case L_NX: case L_XX:{ so.nx=op==L_NX; so.xx=op==L_XX; StCtx sc; sc.key=key; if(q.chance(40)){ so.entry=stcb; so.udata=&sc; } int rc=pogocache_store(c,k.data(),k.size(),nv.data(),nv.size(),&so); e.res=clk.fetch_add(1);
                if(rc==POGOCACHE_INSERTED){ e.existed=0; e.wr=id; } else if(rc==POGOCACHE_REPLACED){ e.existed=1; e.wr=id; e.rd=sc.rd; } else if(rc==POGOCACHE_FOUND&&op==L_NX) e.existed=1; else if(rc==POGOCACHE_NOTFOUND&&op==L_XX) e.existed=0; else failf("%s returned %d",ln[op],rc); h.push_back(e); break; }
            case L_CAS:{ auto it=lastcas.find(key); if(it==lastcas.end()){ LoadRes l; int rc=doload(c,k,&l,now); e.op=L_LOAD; e.res=clk.fetch_add(1); if(rc==POGOCACHE_FOUND){ e.rd=decv(l.val,key,"load"); lastcas[key]={l.cas,e.rd}; } else e.rd=-1; h.push_back(e); break; }
                so.casop=true; so.cas=it->second.first; e.cas=so.cas; e.casver=it->second.second; int rc=pogocache_store(c,k.data(),k.size(),nv.data(),nv.size(),&so); e.res=clk.fetch_add(1);
                if(rc==POGOCACHE_REPLACED){ e.wr=id; e.existed=1; } else if(rc==POGOCACHE_FOUND) e.existed=1; else if(rc==POGOCACHE_NOTFOUND) e.existed=0; else failf("cas store returned %d",rc); h.push_back(e); break; }
            case L_DEL:{ int rc=pogocache_delete(c,k.data(),k.size(),0); e.res=clk.fetch_add(1); if(rc==POGOCACHE_DELETED){ e.existed=1; e.wr=-1; } else if(rc==POGOCACHE_NOTFOUND) e.existed=0; else failf("delete returned %d",rc); h.push_back(e); break; }
            case L_UPD:{ UpdCtx u; u.key=key; u.nv=nv; struct pogocache_load_opts o; memset(&o,0,sizeof o); o.time=now;o.entry=updcb;o.udata=&u; int rc=pogocache_load(c,k.data(),k.size(),&o); e.res=clk.fetch_add(1); if(rc==POGOCACHE_FOUND){ e.rd=u.rd; e.wr=id; e.existed=1; } else if(rc==POGOCACHE_NOTFOUND) e.rd=-1; else failf("update returned %d",rc); h.push_back(e); break; }
            case L_BRMW:{ struct pogocache*b=pogocache_begin(c); LoadRes l; int rc=doload(b,k,&l,now); perturb(); int rc2=0; bool wr=q.chance(80); if(wr) rc2=pogocache_store(b,k.data(),k.size(),nv.data(),nv.size(),&so); LoadRes l2; if(q.chance(30)){ doload(b,k,&l2,now); if(wr&&l2.val!=nv) failf("a batch read back a value it did not store"); } pogocache_end(b); e.res=clk.fetch_add(1); if(rc==POGOCACHE_FOUND) e.rd=decv(l.val,key,"batch load"); else e.rd=-1; if(wr){ e.wr=id; if(rc2!=(rc==POGOCACHE_FOUND?POGOCACHE_REPLACED:POGOCACHE_INSERTED)) failf("store in a batch returned %d after its load returned %d",rc2,rc); } h.push_back(e); break; }
            case L_ITER: case L_ITERDEL:{ ItDel d; d.idx=&kidx; d.pct=op==L_ITERDEL?50:0; d.pol=q.next(); struct pogocache_iter_opts o; memset(&o,0,sizeof o); o.time=now;o.entry=itdel;o.udata=&d; pogocache_iter(c,&o); e.res=clk.fetch_add(1); if(d.dup) failf("iteration reported a key twice"); for(int i=0;i<K;i++){ Evt g=e; g.key=i; auto it=d.seen.find(i); g.rd=it==d.seen.end()?-1:it->second; if(d.del.count(i)) g.wr=-1; h.push_back(g);} break; }
            case L_CLEAR:{ struct pogocache_clear_opts o; memset(&o,0,sizeof o); o.time=now; o.deferfree=q.chance(50); pogocache_clear(c,&o); e.res=clk.fetch_add(1); for(int i=0;i<K;i++){ Evt g=e; g.key=i; g.wr=-1; h.push_back(g);} break; }
            case L_SWEEP:{ size_t sw=0,kp=0; struct pogocache_sweep_opts o; memset(&o,0,sizeof o); o.time=now; pogocache_sweep(c,&sw,&kp,&o); e.res=clk.fetch_add(1); if(sw) failf("sweep removed %zu entries that never expire",sw); break; }
            }
        } });
    for(auto&x:th) x.join();
    // final read of each key
    vector<Evt> fin; for(int i=0;i<K;i++){ LoadRes l; Evt e; e.th=99;e.op=L_LOAD;e.key=i;e.wr=-2;e.existed=-1;e.casver=-9;e.cas=0; e.inv=clk.fetch_add(1); int rc=doload(c,keys[i],&l,now); e.res=clk.fetch_add(1); e.rd=rc==POGOCACHE_FOUND?decv(l.val,i,"final load"):-1; fin.push_back(e); }
    string txt; bool overlap=false; size_t total=0;
    for(int i=0;i<K;i++){ vector<Evt> h; for(auto&v:hs) for(auto&e:v) if(e.key==i) h.push_back(e); for(auto&e:fin) if(e.key==i) h.push_back(e); total+=h.size();
        for(auto&a:h) for(auto&b:h) if(a.th!=b.th&&a.inv<b.res&&b.inv<a.res&&(a.wr!=-2||b.wr!=-2)) overlap=true;
        string why; if(!failed.load()&&!linkey(h,why)){ std::sort(h.begin(),h.end(),[](const Evt&a,const Evt&b){return a.inv<b.inv;}); char b[200]; for(auto&e:h){ snprintf(b,200,"key %d thread %d [%llu,%llu] %s read=%d wrote=%d existed=%d casver=%d\n",i,e.th,(unsigned long long)e.inv,(unsigned long long)e.res,ln[e.op],e.rd,e.wr,e.existed,e.casver); txt+=b; } failf("history of key %d is not linearizable: %s",i,why.c_str()); } }
    char b[200]; snprintf(b,200,"lin threads=%d keys=%d ops=%zu nshards=%d cas=%d threadbatch=%d perturb=%d heavy=%d",T,K,total,ns,usecas,tb,pp,heavy);
    history=string(b)+"\n"+txt; C.evals++; C.cls[overlap?"lin-overlapping":"lin-sequential"]++; if(overlap){ C.nontriv++; C.distinct.insert(mix(seed,idx)); } if(C.samples.size()<3) C.samples.push_back(b);
    pogocache_free(c); if(!failed.load()&&live_allocs.load()!=0) failf("%ld allocations leaked",live_allocs.load());
}
// ------------------------------------------------------------------- count
static void inccb(int,int64_t,const void*,size_t,const void*v,size_t vl,int64_t,uint32_t,uint64_t,struct pogocache_update**up,void*ud){ struct S{struct pogocache_update u;char b[40];}*s=(S*)ud; string x((const char*)v,vl); long n=atol(x.c_str())+1; perturb(); snprintf(s->b,40,"%ld",n); s->u.value=s->b; s->u.valuelen=strlen(s->b); s->u.flags=0; s->u.expires=0; *up=&s->u; }
static void scen_count(uint64_t seed,uint64_t idx){
    Rng r(mix(seed,idx*17+9)); int T=r.range(2,6),K=r.range(1,3),N=r.range(20,120),ns=r.range(1,3); pertpct=r.range(0,30); pert=r.next(); bool tb=r.chance(50);
    struct pogocache*c=mk(r,ns,true,tb,r.chance(60)); vector<string> keys; for(int i=0;i<K;i++){ keys.push_back("ctr"+std::to_string(i)); dostore(c,keys[i],"0",1); }
    vector<std::atomic<long>> done(K); for(auto&d:done) d=0; std::atomic<int> go{0}; vector<std::thread> th; vector<uint64_t> seeds; for(int t=0;t<T;t++) seeds.push_back(r.next());
    for(int t=0;t<T;t++) th.emplace_back([&,t]{ myid=t; Rng q(seeds[t]); go.fetch_add(1); while(go.load()<T){} 
        for(int n=0;n<N;n++){ int k=q.below(K); int m=q.below(3); const string&key=keys[k];
            if(m==0){ struct {struct pogocache_update u;char b[40];} s; struct pogocache_load_opts o; memset(&o,0,sizeof o);o.time=5;o.entry=inccb;o.udata=&s; if(pogocache_load(c,key.data(),key.size(),&o)!=POGOCACHE_FOUND) failf("counter vanished"); else done[k]++; }
            else if(m==1){ struct pogocache*b=pogocache_begin(c); LoadRes l; doload(b,key,&l,5); perturb(); string v=std::to_string(atol(l.val.c_str())+1); dostore(b,key,v,5); pogocache_end(b); done[k]++; }
            else { LoadRes l; doload(c,key,&l,5); string v=std::to_string(atol(l.val.c_str())+1); struct pogocache_store_opts o; memset(&o,0,sizeof o); o.time=5;o.casop=true;o.cas=l.cas; int rc=pogocache_store(c,key.data(),key.size(),v.data(),v.size(),&o); if(rc==POGOCACHE_REPLACED) done[k]++; else if(rc!=POGOCACHE_FOUND) failf("cas increment returned %d",rc); }
        } });
    for(auto&x:th) x.join();
    char b[200]; snprintf(b,200,"count threads=%d keys=%d per-thread=%d nshards=%d threadbatch=%d",T,K,N,ns,tb); history=b;
    for(int i=0;i<K;i++){ LoadRes l; doload(c,keys[i],&l,5); if(atol(l.val.c_str())!=done[i].load()) failf("%s: counter %d is %s after %ld successful increments",b,i,l.val.c_str(),done[i].load()); }
    C.evals++; C.nontriv++; C.distinct.insert(mix(seed,idx)); C.cls["count"]++; if(C.samples.size()<4) C.samples.push_back(b);
    pogocache_free(c); if(!failed.load()&&live_allocs.load()!=0) failf("%ld allocations leaked",live_allocs.load());
}
// ------------------------------------------------------------------- churn
static void scen_churn(uint64_t seed,uint64_t idx){
    Rng r(mix(seed,idx*19+11)); int T=r.range(2,6),K=r.range(4,120),N=r.range(30,150),ns=r.range(1,4); pertpct=r.range(0,15); pert=r.next(); bool tb=r.chance(50), usecas=r.chance(50);
    struct pogocache*c=mk(r,ns,usecas,tb,r.chance(60),r.chance(20)); vector<string> keys; map<string,int> kidx; for(int i=0;i<K;i++){ keys.push_back((i%3?"k":"Qk")+std::to_string(i)); kidx[keys[i]]=i; }
    std::atomic<int64_t> now{1000}; std::atomic<int> go{0}; std::atomic<int> nextid{1}; std::atomic<long> ins{0}; vector<std::thread> th; vector<uint64_t> seeds; for(int t=0;t<T;t++) seeds.push_back(r.next());
    for(int t=0;t<T;t++) th.emplace_back([&,t]{ myid=t; Rng q(seeds[t]); go.fetch_add(1); while(go.load()<T){} vector<std::pair<struct pogocache_entry*,string>> held;
        for(int n=0;n<N&&!failed.load();n++){ int k=q.below(K); const string&key=keys[k]; int64_t tm=now.load(); int x=q.below(100);
            if(x<35){ struct pogocache_store_opts o; memset(&o,0,sizeof o); o.time=tm; if(q.chance(40)) o.ttl=q.range(1,200); o.nx=q.chance(10); o.xx=q.chance(10); o.keepttl=q.chance(10); o.lowmem=q.chance(15); string v=encv(k,nextid.fetch_add(1)); int rc=pogocache_store(c,key.data(),key.size(),v.data(),v.size(),&o); if(rc==POGOCACHE_INSERTED) ins++; }
            else if(x<60){ LoadRes l; if(doload(c,key,&l,tm)==POGOCACHE_FOUND) decv(l.val,k,"load"); }
            else if(x<66) pogocache_delete(c,key.data(),key.size(),0);
            else if(x<74){ UpdCtx u; u.key=k; u.nv=encv(k,nextid.fetch_add(1)); struct pogocache_load_opts o; memset(&o,0,sizeof o);o.time=tm;o.entry=updcb;o.udata=&u; pogocache_load(c,key.data(),key.size(),&o); }
            else if(x<80){ struct pogocache*b=pogocache_begin(c); LoadRes l; doload(b,key,&l,tm); string v=encv(k,nextid.fetch_add(1)); if(dostore(b,key,v,tm)==POGOCACHE_INSERTED) ins++; pogocache_end(b); }
            else if(x<84){ struct pogocache_sweep_opts o; memset(&o,0,sizeof o); o.time=tm; size_t a,b2; pogocache_sweep(c,&a,&b2,&o); }
            else if(x<86){ struct pogocache_clear_opts o; memset(&o,0,sizeof o); o.time=tm;o.deferfree=q.chance(50); pogocache_clear(c,&o); }
            else if(x<91){ ItDel d; d.idx=&kidx; d.pct=q.chance(50)?20:0; d.pol=q.next(); struct pogocache_iter_opts o; memset(&o,0,sizeof o); o.time=tm;o.entry=itdel;o.udata=&d; pogocache_iter(c,&o); }
            else if(x<96){ uint64_t cur=q.chance(30)?q.next()%((uint64_t)ns<<32):0; for(int i=0;i<q.range(1,6);i++){ auto*e=pogocache_entry_iter(c,tm,&cur); if(!e) break; size_t kl,vl; char kb[128]; const void*kk=pogocache_entry_key(c,e,&kl,kb); string ks((const char*)kk,kl); const void*vv=pogocache_entry_value(c,e,&vl); string vs((const char*)vv,vl); auto it=kidx.find(ks); if(it==kidx.end()) failf("cursor returned an unknown key"); else decv(vs,it->second,"cursor"); if(held.size()<20) held.push_back({e,vs}); else pogocache_entry_release(c,e); } }
            else if(x<98){ pogocache_count(c,0); pogocache_size(c,0); pogocache_total(c,0); struct pogocache_sweep_poll_opts o; memset(&o,0,sizeof o);o.time=tm; double d=pogocache_sweep_poll(c,&o); if(!(d>=0&&d<=1)) failf("poll returned %g",d); }
            else now.fetch_add(q.range(1,50));
        }
        for(auto&h:held){ size_t vl; const void*vv=pogocache_entry_value(c,h.first,&vl); if(string((const char*)vv,vl)!=h.second) failf("a retained entry changed"); pogocache_entry_release(c,h.first); }
    });
    for(auto&x:th) x.join();
    pertpct=0; char b[200]; snprintf(b,200,"churn threads=%d keys=%d per-thread=%d nshards=%d threadbatch=%d cas=%d",T,K,N,ns,tb,usecas); history=b;
    if(!failed.load()){
        int64_t tm=now.load(); size_t sw,kp; struct pogocache_sweep_opts so; memset(&so,0,sizeof so); so.time=tm; pogocache_sweep(c,&sw,&kp,&so);
        ItDel d; d.idx=&kidx; d.pct=0; struct pogocache_iter_opts o; memset(&o,0,sizeof o); o.time=tm;o.entry=itdel;o.udata=&d; pogocache_iter(c,&o);
        if(d.dup) failf("%s: final iteration reported a key twice",b); if(d.seen.size()!=pogocache_count(c,0)||kp!=d.seen.size()) failf("%s: final count %zu, kept %zu, iterated %zu",b,pogocache_count(c,0),kp,d.seen.size());
        for(auto&s:d.seen){ LoadRes l; if(doload(c,keys[s.first],&l,tm)!=POGOCACHE_FOUND||decv(l.val,s.first,"final")!=s.second) failf("%s: final load disagrees with iteration",b); }
        if((long)pogocache_total(c,0)!=ins.load()) failf("%s: total is %llu after %ld inserts",b,(unsigned long long)pogocache_total(c,0),ins.load());
        pogocache_clear(c,0); struct pogocache_size_opts zo; memset(&zo,0,sizeof zo); zo.entriesonly=true; if(pogocache_size(c,&zo)!=0) failf("%s: entries-only size of the cleared cache is %zu",b,pogocache_size(c,&zo));
    }
    C.evals++; C.nontriv++; C.distinct.insert(mix(seed,idx)); C.cls["churn"]++; if(C.samples.size()<5) C.samples.push_back(b);
    pogocache_free(c); if(!failed.load()&&live_allocs.load()!=0) failf("%ld allocations leaked",live_allocs.load());
}
static string jesc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c; } return o; }
int main(int argc,char**argv){
    string mode="lin",out,cur; uint64_t seed=1; int64_t from=0,to=1; int cap=600;
    for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{return string(argv[++i]);}; if(a=="--mode")mode=nx(); else if(a=="--seed")seed=strtoull(nx().c_str(),0,10); else if(a=="--from")from=atoll(nx().c_str()); else if(a=="--to")to=atoll(nx().c_str()); else if(a=="--out")out=nx(); else if(a=="--cur")cur=nx(); else if(a=="--cap")cap=atoi(nx().c_str()); }
    time_t t0=time(0); int64_t fidx=-1; FILE*cf=cur.empty()?nullptr:fopen(cur.c_str(),"w");
    for(int64_t i=from;i<to;i++){ if(cf){ rewind(cf); fprintf(cf,"%lld      \n",(long long)i); fflush(cf);} alarm(60); live_allocs=0; 
        if(mode=="batch") scen_batch(seed,i); else if(mode=="lin") scen_lin(seed,i); else if(mode=="count") scen_count(seed,i); else scen_churn(seed,i);
        if(failed.load()){ fidx=i; fprintf(stderr,"%s\n",failmsg.c_str()); break; } if(time(0)-t0>cap) break; }
    alarm(0);
    FILE*f=out.empty()?stdout:fopen(out.c_str(),"w"); fprintf(f,"{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"classes\":{",(unsigned long long)C.evals,(unsigned long long)C.nontriv,C.distinct.size()); bool first=true; for(auto&c:C.cls){ fprintf(f,"%s\"%s\":%llu",first?"":",",c.first.c_str(),(unsigned long long)c.second); first=false; }
    fprintf(f,"},\"samples\":["); for(size_t k=0;k<C.samples.size();k++) fprintf(f,"%s\"%s\"",k?",":"",jesc(C.samples[k]).c_str()); fprintf(f,"],\"failed\":%lld,\"message\":\"%s\",\"history\":\"%s\"}\n",(long long)fidx,jesc(failmsg).c_str(),fidx>=0?jesc(history).c_str():""); if(f!=stdout) fclose(f);
    return fidx>=0?1:0;
}
