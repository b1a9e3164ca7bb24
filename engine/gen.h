// Structured case generator.  Profiles weight the operations and shape the keys
// for one property; every profile keeps some share of every operation.
static const uint64_t TR=0x14020a57acced8b7ULL;
static uint64_t inv64(uint64_t a){ uint64_t x=a; for(int i=0;i<6;i++) x*=2-a*x; return x; }
static uint64_t unxs31(uint64_t h){ uint64_t x=h; x=h^(x>>31); x=h^(x>>31); x=h^(x>>31); return x; }
// an 8 byte key whose engine hash (th64) is `target`; used only to aim keys at
// the same hash bucket. If the engine's hash changed the keys are merely random.
static string keyforhash(uint64_t target,uint64_t seed){
    uint64_t r=TR, ri=inv64(r); uint64_t h=target; for(int i=0;i<3;i++){ h*=ri; h=unxs31(h); } h=(h-8)*ri; h=h>>31|h<<33;
    uint64_t x=h^(seed*r); x=x>>31|x<<33; uint64_t d=x*ri; return string((char*)&d,8);
}
static string sixenc(const string&s){ static const char*tab="-.0123456789:ABCDEFGHIJKLMNOPRSTUVWXY_abcdefghijklmnopqrstuvwxy"; string o; int i=0; for(char ch:s){ const char*p=strchr(tab,ch); if(!p||!ch) return ""; int v=(int)(p-tab)+1; switch(i%4){case 0:o+=(char)(v<<2);break;case 1:o.back()|=v>>4;o+=(char)(v<<4);break;case 2:o.back()|=v>>2;o+=(char)(v<<6);break;case 3:o.back()|=v;} i++; } return o; }
static const char SIX[]="-.0123456789:ABCDEFGHIJKLMNOPRSTUVWXY_abcdefghijklmnopqrstuvwxy";
static string rkey(Rng&r){
    static const vector<int> lens={0,1,2,3,4,5,6,7,8,9,12,15,16,17,23,24,31,32,33,47,63,64,65,95,96,97,111,126,127,128,129,130,131,170,171,172,200,254,255,256,257,300,1000,4095,16383,16384,16385};
    int mode=r.below(10); int len= r.chance(70)?r.range(1,12):r.pick(lens); if(len>1000&&!r.chance(30)) len=r.range(1,200);
    string s; 
    if(mode<5) for(int i=0;i<len;i++) s+=SIX[r.below(63)];
    else if(mode<6) for(int i=0;i<len;i++) s+=(char)("QZz!~ \t\x7f"[r.below(8)]);
    else if(mode<7) for(int i=0;i<len;i++) s+=(char)r.below(2);       // NUL and \x01
    else if(mode<8) for(int i=0;i<len;i++) s+=(char)(128+r.below(128));
    else for(int i=0;i<len;i++) s+=(char)r.below(256);
    return s;
}
static vector<string> rkeys(Rng&r,int n){
    set<string> u; vector<string> v; int guard=0;
    while((int)v.size()<n&&guard++<n*20){
        string k;
        if(!v.empty()&&r.chance(35)){ // a neighbour of an existing key
            string b=v[r.below(v.size())]; switch(r.below(9)){
            case 0: k=b+string(1,'\0'); break; case 1: k=b.substr(0,b.size()/2); break; case 2: k=b+b; break;
            case 3: k=b; if(!k.empty()) k[r.below(k.size())]^=1<<r.below(8); break;
            case 4: k=sixenc(b); break; case 5: k=b+"-"; break; case 6: k=b.empty()?b:b.substr(1); break;
            case 7: k=b; for(auto&c:k) c=toupper((unsigned char)c); break; default: k="-"+b; }
            if(k.size()>20000) k=k.substr(0,100);
        } else k=rkey(r);
        if(u.insert(k).second) v.push_back(k);
    }
    return v;
}
// keys aimed at a few home buckets of an initial 64-bucket table
static vector<string> hotkeys(Rng&r,int n,const Conf&c,bool full){
    set<string> u; vector<string> v; int base=r.chance(60)?62:(int)r.below(64); uint64_t h24=r.next()&0xFFFFFF; uint64_t hi=r.next();
    while((int)v.size()<n){ uint64_t t; if(full) t=((hi+r.below(1<<20)*(uint64_t)c.nshards)<<32)|(r.next()&0xFF000000)|h24; else t=((r.next()&0xFFFFFFFFULL)<<32)|(r.next()&0xFFFFFFC0ULL)|((base+r.below(4))&63); string k=keyforhash(t,c.seed); if(u.insert(k).second) v.push_back(k); }
    return v;
}
static int64_t rexpamt(Rng&r){ switch(r.below(8)){ case 0:return 1; case 1: return r.range(1,5); case 2: return r.range(1,100); case 3: return r.range(1,1000); case 4: return 1000000000LL*r.range(1,5); case 5: return INT64_MAX; case 6: return INT64_MAX-r.range(0,5000); default: return r.range(10,300);} }
static int64_t rvlen(Rng&r,const string&prof){ 
    if(prof=="C03"){ switch(r.below(8)){ case 0: return r.range(0,3); case 1: return r.range(180,300); case 2: return r.range(65440,65560); case 3: return r.range(0,300); case 4: return r.range(0,40); case 5: return r.chance(10)?r.range(100000,1200000):r.range(1000,5000); case 6: return r.range(16300,16500); default: return r.range(0,1000);} }
    if(r.chance(2)) return r.range(60000,70000); if(r.chance(10)) return r.range(200,300); if(r.chance(15)) return 0; return r.range(1,40); }
static uint32_t rflags(Rng&r){ switch(r.below(6)){case 0:case 1:case 2:return 0;case 3:return 1;case 4:return 0xFFFFFFFF;default:return (uint32_t)r.next();} }

static Op gstore(Rng&r,const string&prof,int nk){
    Op o; o.kind=K_STORE; o.key=r.below(nk); o.vlen=rvlen(r,prof); o.vseed=(int64_t)(r.next()>>2);
    int pexp=prof=="C02"?75:prof=="C10"?60:prof=="C06"||prof=="C07"||prof=="C05"?45:prof=="C04"?10:25;
    if(r.chance(pexp)){ int m=r.below(20); if(m<9){o.p[0]=1;} else if(m<18) o.p[0]=2; else if(m<19) {o.p[0]=3;} else o.p[0]=4;
        o.p[1]=rexpamt(r); if(o.p[0]>=3){ static const vector<int64_t> raw={-1,INT64_MIN,1,2,999,INT64_MAX,0}; o.p[1]=r.pick(raw); } else if(o.p[0]==1&&r.chance(8)) o.p[1]=-(int64_t)r.below(500); }
    o.p[2]=rflags(r);
    int b=0;
    if(r.chance(prof=="C02"?30:12)) b|=1;
    int cas=prof=="C04"?55:6; bool casop=r.chance(cas); if(casop) b|=2; else { if(r.chance(12)) b|=4; }
    if(r.chance(8)) b|=8;
    int low=prof=="C09"?60:prof=="C07"?12:prof=="C06"?8:prof=="C08"?10:3; if(r.chance(low)) b|=16;
    if(r.chance(20)) b|=r.chance(50)?32:64;
    if(r.chance(10)) b|=256; else if(r.chance(2)) b=128;
    o.p[3]=b; if(casop){ int s=r.below(10); o.p[4]=s<5?0:s<7?1:s<8?2:s<9?3:4; o.p[5]=(int64_t)r.next(); }
    return o;
}
static Op gload(Rng&r,const string&prof,int nk){ Op o; o.kind=K_LOAD; o.key=r.below(nk); int b=0; if(r.chance(30)) b|=1; if(r.chance(70)) b|=2; int up=prof=="C06"||prof=="C04"||prof=="C08"?40:20; if(r.chance(up)){ b|=4; o.vlen=rvlen(r,prof); o.vseed=(int64_t)(r.next()>>2); o.p[1]=rflags(r); if(r.chance(30)){o.p[2]=1;o.p[3]=rexpamt(r);} } if(r.chance(10)) b|=256; else if(r.chance(3)) b=8; o.p[0]=b; return o; }
static Op gdel(Rng&r,int nk){ Op o; o.kind=K_DELETE; o.key=r.below(nk); int b=0; if(r.chance(40)) b|=r.chance(50)?1:2; if(r.chance(10)) b|=256; else if(r.chance(3)) b=8; o.p[0]=b; return o; }

static Case gencase(const string&prof,uint64_t seed,int64_t idx){
    Rng r(mix(mix(seed,std::hash<string>()(prof)%1000003),(uint64_t)idx));
    Case c; c.prof=prof; Conf&f=c.c;
    f.nshards=r.chance(45)?1:r.chance(70)?r.range(2,8):r.chance(60)?r.range(9,40):r.chance(90)?97:0;
    if(prof=="C08") f.nshards=r.chance(60)?1:r.range(2,5);
    static const vector<int> lf={0,0,0,55,75,90,95,1,100}; f.loadfactor=r.pick(lf);
    f.usecas=prof=="C04"?r.chance(85):r.chance(40); f.nosixpack=r.chance(30); f.noevict=prof=="C09"?r.chance(12):r.chance(8); f.allowshrink=r.chance(50); f.threadbatch=r.chance(40);
    f.seed=r.chance(50)?0:r.next();
    f.cb=r.chance(60)?3:(int)r.below(4); if(prof=="C07") f.cb=r.chance(60)?3:1+(int)r.below(3); if(prof=="C09"&&f.cb==0&&r.chance(60)) f.cb=3;
    f.t0=r.chance(80)?r.range(1000,100000):r.chance(50)?INT64_C(1700000000000000000):INT64_MAX-r.range(3000,200000);
    int nk; int shape=r.below(100);
    bool big=false, collide=false;
    int hot=prof=="C05"||prof=="C10"?50:prof=="C09"?35:prof=="C01"||prof=="C06"||prof=="C11"?20:10;
    if(shape<hot){ nk=r.range(3,30); c.keys=hotkeys(r,nk,f,false); if(f.nshards!=1&&r.chance(70)) f.nshards=1; }
    else if(shape<hot+6){ nk=r.range(2,12); c.keys=hotkeys(r,nk,f,true); }
    else if(shape<hot+14&&prof!="C08"){ nk=r.range(60,r.chance(20)?500:160); big=true; if(f.nshards>4||f.nshards==0) f.nshards=r.range(1,3); for(int i=0;i<nk;i++){ char b[64]; snprintf(b,64,"%s%d",r.chance(50)?"key:":"Q",i); c.keys.push_back(b); } }
    else if(shape<hot+17&&prof!="C08"&&(prof=="C01"||prof=="C05"||prof=="C06"||r.chance(25))){ collide=r.chance(12); nk=collide?r.range(258,330):r.range(20,80); f.nshards=r.chance(80)||collide?1:2; c.keys=hotkeys(r,nk,f,true); big=true; }
    else { nk=r.chance(60)?r.range(1,8):r.range(5,40); c.keys=rkeys(r,nk); nk=(int)c.keys.size(); }
    // few cases with very many keys, or with a table that shrinks to an exactly chosen count
    int odd=prof=="C08"?999:r.below(1000); int64_t keep=0;
    if(odd<2||(odd<3&&(prof=="C10"||prof=="C06"||prof=="C05"))){ big=true; collide=false; c.keys.clear(); nk=r.chance(5)?66000:r.range(4000,9000); f.nshards=r.chance(60)?1:r.range(2,3); f.cb=r.chance(60)?2:0; for(int i=0;i<nk;i++) c.keys.push_back("h"+std::to_string(i)); }
    else if(odd<8&&prof!="C09"&&prof!="C07"){ big=true; collide=false; c.keys.clear(); nk=r.range(400,1100); f.nshards=1; f.allowshrink=1; static const vector<int> ks={64,64,64,63,65,128,32,100,1,0}; keep=r.pick(ks)+1; if(r.chance(30)) keep=r.range(1,130); for(int i=0;i<nk;i++) c.keys.push_back("h"+std::to_string(i)); }
    nk=(int)c.keys.size();
    bool huge=nk>2000||keep;
    int nops=r.chance(50)?r.range(4,25):r.chance(70)?r.range(20,70):r.range(60,150);
    if(prof=="C08") nops=r.range(3,22);
    if(prof=="C02") nops=r.range(4,60);
    struct W{int k,w;}; vector<W> w={{K_STORE,40},{K_LOAD,18},{K_DELETE,10},{K_ITER,3},{K_ITERSHARDS,1},{K_COUNT,3},{K_SWEEP,2},{K_CLEAR,1},{K_POLL,1},{K_SCAN,2},{K_CURSOR,1},{K_HOLD,2},{K_RELEASE,1},{K_ADV,6},{K_ADVTO,3},{K_BEGIN,2},{K_END,2},{K_CHECK,1},{K_FILL,0}};
    auto W_=[&](int k,int x){ for(auto&e:w) if(e.k==k) e.w=x; };
    if(prof=="C02"){ W_(K_ADVTO,25); W_(K_ADV,10); }
    if(prof=="C04"){ W_(K_LOAD,14); W_(K_STORE,60); }
    if(prof=="C05"){ W_(K_ITER,14); W_(K_ITERSHARDS,3); W_(K_SCAN,10); W_(K_CURSOR,4); W_(K_ADV,10); W_(K_ADVTO,6); }
    if(prof=="C06"){ W_(K_COUNT,8); W_(K_SWEEP,5); W_(K_ITER,6); W_(K_CLEAR,2); W_(K_ADVTO,8); W_(K_ADV,8); W_(K_HOLD,4); }
    if(prof=="C07"){ W_(K_SWEEP,5); W_(K_ITER,6); W_(K_CLEAR,3); W_(K_ADVTO,8); W_(K_SCAN,4); }
    if(prof=="C08"){ W_(K_CLEAR,6); W_(K_BEGIN,6); W_(K_END,6); W_(K_HOLD,5); W_(K_RELEASE,4); W_(K_ITER,5); W_(K_SWEEP,3); }
    if(prof=="C09"){ W_(K_ADV,20); W_(K_LOAD,22); W_(K_STORE,60); W_(K_ADVTO,4); }
    if(prof=="C10"){ W_(K_SWEEP,14); W_(K_CLEAR,6); W_(K_POLL,12); W_(K_ADV,12); W_(K_ADVTO,10); W_(K_HOLD,3); }
    if(prof=="C11"){ W_(K_BEGIN,14); W_(K_END,6); W_(K_ITER,8); W_(K_ITERSHARDS,4); W_(K_COUNT,8); W_(K_SWEEP,6); W_(K_CLEAR,4); W_(K_POLL,5); W_(K_SCAN,8); W_(K_CURSOR,4); W_(K_HOLD,4); W_(K_RELEASE,4); }
    int tot=0; for(auto&e:w) tot+=e.w;
    // preload
    if(big){ Op o; o.kind=K_FILL; o.key=0; o.p[0]=r.range(nk/2,nk); o.vlen=r.range(0,20); o.vseed=(int64_t)(r.next()>>2); if(r.chance(50)){ o.p[1]=1; o.p[2]=r.range(5,200); o.p[3]=r.range(1,4); } if(r.chance(20)) o.p[4]=16; if(collide||huge){ o.p[0]=nk; o.p[4]=0; if(r.chance(70)&&nk>2000) { o.p[1]=1; o.p[2]=r.range(5,200); o.p[3]=r.chance(70)?0:r.range(2,4); } if(keep) o.p[1]=0; if(huge) nops=keep?6:std::min(nops,10); } c.ops.push_back(o); nops=std::min(nops,40); if(collide){ Op k; k.kind=K_CHECK; c.ops.push_back(k); }
        if(keep){ Op k; k.kind=K_ITER; k.p[3]=-1; k.p[5]=keep; c.ops.push_back(k); }
        if(nk>2000){ Op k; k.kind=K_ADV; k.p[0]=r.range(0,250); c.ops.push_back(k); Op s; s.kind=r.chance(60)?K_SWEEP:r.chance(50)?K_CLEAR:K_ITER; s.p[0]=s.kind==K_ITER?(int64_t)(r.next()>>1):-1; s.p[1]=s.kind==K_ITER?r.range(0,100):0; s.p[3]=-1; c.ops.push_back(s); } }
    else if((prof=="C05"||prof=="C10"||prof=="C09"||prof=="C11"||prof=="C06")&&r.chance(60)){ Op o; o.kind=K_FILL; o.p[0]=r.range(1,nk); o.vlen=r.range(0,20); o.vseed=(int64_t)(r.next()>>2); if(r.chance(60)){ o.p[1]=1; o.p[2]=r.range(5,200); o.p[3]=r.range(1,3); } c.ops.push_back(o); }
    for(int i=0;i<nops;i++){
        int x=r.below(tot),k=K_STORE; for(auto&e:w){ if(x<e.w){k=e.k;break;} x-=e.w; }
        Op o; o.kind=k; o.key=r.below(nk);
        switch(k){
        case K_STORE:o=gstore(r,prof,nk);break; case K_LOAD:o=gload(r,prof,nk);break; case K_DELETE:o=gdel(r,nk);break;
        case K_ITER:o.p[0]=(int64_t)(r.next()>>1); o.p[1]=r.chance(50)?0:r.chance(30)?100:r.range(5,80); o.p[2]=r.chance(65)?0:r.range(2,40); o.p[3]=r.chance(70)?-1:r.chance(95)?(int64_t)r.below(std::max(1,f.nshards)):(r.chance(50)?-5:f.nshards+3); o.p[4]=r.chance(5); break;
        case K_SWEEP:case K_CLEAR:o.p[0]=r.chance(65)?-1:r.chance(95)?(int64_t)r.below(std::max(1,f.nshards)):f.nshards+2; o.p[1]=(r.chance(50)?1:0)|(r.chance(20)?256:0); break;
        case K_POLL:{static const vector<int> ps={0,1,2,5,20,1000,-1};o.p[0]=r.pick(ps);break;}
        case K_SCAN:o.p[0]=r.chance(30);break;
        case K_CURSOR:{ switch(r.below(5)){case 0:o.p[0]=(int64_t)r.next();break;case 1:o.p[0]=((int64_t)f.nshards)<<32;break;case 2:o.p[0]=(((int64_t)r.below(f.nshards+2))<<32)|(int64_t)r.below(200);break;case 3:o.p[0]=((int64_t)f.nshards<<32)|0xFFFFFFFF;break;default:o.p[0]=(int64_t)r.below(130);} break; }
        case K_HOLD:o.p[0]=r.below(6);o.p[1]=r.chance(20);break; case K_RELEASE:o.p[0]=r.below(8);break;
        case K_ADV:o.p[0]=r.chance(85)?r.range(1,60):r.chance(80)?r.range(100,2000):1000000000LL*r.range(1,6);break;
        case K_ADVTO:o.p[0]=r.range(-1,1);break;
        default:break; }
        c.ops.push_back(o);
    }
    return c;
}
