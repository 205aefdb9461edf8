// Conformance driver for the core library: replays a script of API calls and
// records every call with its outcome.  Uses the public interface only.
#include "trace.h"
#include "particle.h"
#include "sproduct.h"
#include "propagator.h"
#include "process.h"
#include "utilities.h"
#include <limits>

using namespace spinas;
using namespace drv;

static thread_local std::map<int,std::unique_ptr<particle>> P;
static thread_local std::map<int,std::unique_ptr<sproduct>> S;
static thread_local std::map<int,std::unique_ptr<propagator>> G;
static thread_local cmatrix M[4];
static thread_local cvector V[4];

// ---------------------------------------------------------------- particles
static particle& part(int s){ return *P.at(s); }
// A particle keeps its address for as long as its name is in use: products point to it.
static void place(int s,const particle& x){ if(P.count(s)) *P[s]=x; else P[s].reset(new particle(x)); }

template<class F0,class F1,class F2>
static cvector spinorq(const std::vector<std::string>& a,F0 f0,F1 f1,F2 f2){
  if(a.empty()) return f0();
  int sp=atoi(a[0].c_str());
  if(a.size()==1) return f1(sp);
  return f2(sp,a[1]=="U");
}
static void pquery(Event& e,particle& p,const std::string& w,const std::vector<std::string>& a){
#define SP(name,fn) if(w==name){ e.cs("v",flat(spinorq(a,[&]{return p.fn();},[&](int s){return p.fn(s);},[&](int s,bool u){return p.fn(s,u);}))); return; }
  SP("ra",rangle) SP("la",langle) SP("rs",rsquare) SP("ls",lsquare)
#undef SP
#define MA(name,fn) if(w==name){ e.cs("v",flat(a.empty()?p.fn():p.fn(a[0]=="U"))); return; }
  MA("ram",rangle_matrix) MA("lam",langle_matrix) MA("rsm",rsquare_matrix) MA("lsm",lsquare_matrix)
#undef MA
  if(w=="um"){ e.cs("v",flat(p.umat())); return; }
  if(w=="lm"){ e.cs("v",flat(p.lmat())); return; }
  if(w=="mass"){ e.cs("v",{cdouble(p.mass(),0)}); return; }
  if(w=="get_mass"){ e.cs("v",{cdouble(p.get_mass(),0)}); return; }
  if(w=="mom"){ e.cs("v",{cdouble(p.get_momentum(0),0),cdouble(p.get_momentum(1),0),cdouble(p.get_momentum(2),0),cdouble(p.get_momentum(3),0)}); return; }
  if(w=="angles"){ e.b("b",p.test_angles()); return; }
  if(w=="dot"){ e.cs("v",{cdouble(p.dot(part(atoi(a[0].c_str()))),0)}); return; }
#define GE(fn) if(w==#fn){ e.cs("v",flat(p.fn())); return; }
  GE(lorentz_j3_lu) GE(lorentz_jp_lu) GE(lorentz_jm_lu) GE(lorentz_j3_ul) GE(lorentz_jp_ul) GE(lorentz_jm_ul)
  GE(lorentz_j3_lu_dot) GE(lorentz_jp_lu_dot) GE(lorentz_jm_lu_dot) GE(lorentz_j3_ul_dot) GE(lorentz_jp_ul_dot) GE(lorentz_jm_ul_dot)
  GE(spin_j3_lu) GE(spin_jp_lu) GE(spin_jm_lu) GE(spin_j3_ul) GE(spin_jp_ul) GE(spin_jm_ul)
#undef GE
  fprintf(stderr,"driver: unknown particle query %s\n",w.c_str()); exit(3);
}

// ---------------------------------------------------------------- spinor products
static sproduct make(bool as,particle* L,const std::string& lu,const std::vector<particle*>& q,particle* R,const std::string& ru){
  bool hl=lu!="-", hr=ru!="-", l=lu=="U", r=ru=="U";
#define BY(mid) \
  if(hl&&hr) return sproduct(as,L,l,mid R,r); \
  if(hl) return sproduct(as,L,l,mid R); \
  if(hr) return sproduct(as,L,mid R,r); \
  return sproduct(as,L,mid R);
#define NOTHING
#define CM ,
  switch(q.size()){
  case 0: BY(NOTHING)
  case 1: BY(q[0] CM)
  case 2: BY(q[0] CM q[1] CM)
  case 3: BY(q[0] CM q[1] CM q[2] CM)
  case 4: BY(q[0] CM q[1] CM q[2] CM q[3] CM)
  case 5: BY(q[0] CM q[1] CM q[2] CM q[3] CM q[4] CM)
  default: BY(q[0] CM q[1] CM q[2] CM q[3] CM q[4] CM q[5] CM)
  }
#undef BY
}

// ---------------------------------------------------------------- harness
struct probe : public process {
  std::vector<std::vector<ldouble>> seen;
  void set_momenta(const ldouble a[4],const ldouble b[4],const ldouble c[4],const ldouble d[4]) override {
    std::vector<ldouble> v;
    for(int j=0;j<4;j++) v.push_back(a[j]);
    for(int j=0;j<4;j++) v.push_back(b[j]);
    for(int j=0;j<4;j++) v.push_back(c[j]);
    for(int j=0;j<4;j++) v.push_back(d[j]);
    seen.push_back(v);
  }
};
static ldouble answer(const std::string& code,const ldouble& d){
  const ldouble inf=std::numeric_limits<ldouble>::infinity();
  if(code=="nan") return std::numeric_limits<ldouble>::quiet_NaN();
  if(code=="inf") return inf;
  if(code=="-inf") return -inf;
  if(code=="neg") return -d;
  if(code[0]=='*') return d*strtold(code.c_str()+1,nullptr);
  if(code[0]=='+') return d+strtold(code.c_str()+1,nullptr);
  if(code[0]=='=') return strtold(code.c_str()+1,nullptr);
  return d;
}

// ---------------------------------------------------------------- spin sums
static void spin(Event& e,const std::vector<int>& d){
  process p; int n=d.size(); bool fix=n>=1&&n<=6;
  std::vector<int> loops; std::vector<ldouble> norm;
  const int* L=d.data();
  loops.push_back(p.get_num_spin_loops(L,n)); norm.push_back(p.get_spin_normalization(L,n));
  if(fix){
    switch(n){
#define C(k,...) case k: loops.push_back(p.get_num_spin_loops(__VA_ARGS__)); norm.push_back(p.get_spin_normalization(__VA_ARGS__)); break;
      C(1,d[0]) C(2,d[0],d[1]) C(3,d[0],d[1],d[2]) C(4,d[0],d[1],d[2],d[3]) C(5,d[0],d[1],d[2],d[3],d[4]) C(6,d[0],d[1],d[2],d[3],d[4],d[5])
#undef C
    }
  }
  e.is("loops",loops).ns("norm",norm);
  // Every iterator value once, through the list form and (when it exists) the fixed form.
  int count=loops[0]; if(count<0) count=0; if(count>4096) count=4096;
  std::string rows[2]={"[","["};
  for(int form=0;form<(fix?2:1);form++)
    for(int it=0;it<count;it++){
      std::vector<int> a(n,77), b(n,77);
      if(form==0){
        std::vector<const int*> l; std::vector<int*> la, lb;
        for(int j=0;j<n;j++){ l.push_back(&d[j]); la.push_back(&a[j]); lb.push_back(&b[j]); }
        p.get_spinor_spins(l.data(),la.data(),lb.data(),n,it);
      } else switch(n){
#define T(j) d[j],a[j],b[j]
        case 1: p.get_spinor_spins(T(0),it); break;
        case 2: p.get_spinor_spins(T(0),T(1),it); break;
        case 3: p.get_spinor_spins(T(0),T(1),T(2),it); break;
        case 4: p.get_spinor_spins(T(0),T(1),T(2),T(3),it); break;
        case 5: p.get_spinor_spins(T(0),T(1),T(2),T(3),T(4),it); break;
        case 6: p.get_spinor_spins(T(0),T(1),T(2),T(3),T(4),T(5),it); break;
#undef T
      }
      std::vector<int> ab; for(int j=0;j<n;j++){ ab.push_back(a[j]); ab.push_back(b[j]); }
      if(it) rows[form]+=","; rows[form]+=ints(ab);
    }
  e.raw("list",rows[0]+"]"); if(fix) e.raw("fixed",rows[1]+"]");
}

// ---------------------------------------------------------------- registers
static void regs(Event& e,const std::vector<int>& ms,const std::vector<int>& vs){
  std::string o="[";
  for(size_t j=0;j<ms.size();j++){ if(j) o+=","; o+="["+std::to_string(ms[j])+","+cpls(flat(M[ms[j]]))+"]"; }
  e.raw("M",o+"]"); o="[";
  for(size_t j=0;j<vs.size();j++){ if(j) o+=","; o+="["+std::to_string(vs[j])+","+cpls(flat(V[vs[j]]))+"]"; }
  e.raw("V",o+"]");
}
static void algebra(Tok& t,FILE* out){
  std::string w=t.s();
  Event e("alg"); e.s("f",w);
  auto sc=[&](const char* k,cdouble z){ e.cs(k,{z}); };
  if(w=="mset"){ int r=t.i(); std::vector<cdouble> z; for(int j=0;j<4;j++) z.push_back(t.c()); M[r]=cmatrix(z[0],z[1],z[2],z[3]); e.i("d",r).cs("in",z); regs(e,{r},{}); }
  else if(w=="mmom"){ int r=t.i(); bool up=t.s()=="U"; std::vector<ldouble> p=t.ns(4); M[r]=cmatrix(p.data(),up); e.i("d",r).s("ul",up?"U":"L").ns("p",p); regs(e,{r},{}); }
  else if(w=="mzero"){ int r=t.i(); M[r]=cmatrix(); e.i("d",r); regs(e,{r},{}); }
  else if(w=="vset"){ int r=t.i(); cdouble a=t.c(), b=t.c(); V[r]=cvector(a,b); e.i("d",r).cs("in",{a,b}); regs(e,{},{r}); }
  else if(w=="varr"){ int r=t.i(); cdouble z[2]; z[0]=t.c(); z[1]=t.c(); V[r]=cvector(z); e.i("d",r).cs("in",{z[0],z[1]}); regs(e,{},{r}); }
  else if(w=="vzero"){ int r=t.i(); V[r]=cvector(); e.i("d",r); regs(e,{},{r}); }
#define MM(name,expr) else if(w==name){ int d=t.i(),a=t.i(),b=t.i(); e.i("d",d).i("a",a).i("b",b); M[d]=(expr); regs(e,{d,a,b},{}); }
  MM("m+",M[a]+M[b]) MM("m-",M[a]-M[b]) MM("m*",M[a]*M[b])
#undef MM
#define MI(name,op) else if(w==name){ int a=t.i(),b=t.i(); e.i("d",a).i("a",a).i("b",b); cmatrix& r=(M[a] op M[b]); e.b("self",&r==&M[a]); regs(e,{a,b},{}); }
  MI("m+=",+=) MI("m-=",-=) MI("m*=",*=)
#undef MI
  else if(w=="mneg"){ int d=t.i(),a=t.i(); e.i("d",d).i("a",a); M[d]=-M[a]; regs(e,{d,a},{}); }
  else if(w=="vneg"){ int d=t.i(),a=t.i(); e.i("d",d).i("a",a); V[d]=-V[a]; regs(e,{},{d,a}); }
  else if(w=="vconj"){ int d=t.i(),a=t.i(); e.i("d",d).i("a",a); V[d]=V[a].get_conjugate(); regs(e,{},{d,a}); }
  else if(w=="vv"){ int a=t.i(),b=t.i(); e.i("a",a).i("b",b); sc("v",V[a]*V[b]); regs(e,{},{a,b}); }
  else if(w=="vm"){ int d=t.i(),a=t.i(),b=t.i(); e.i("d",d).i("a",a).i("b",b); V[d]=V[a]*M[b]; regs(e,{b},{d,a}); }
  else if(w=="mv"){ int d=t.i(),a=t.i(),b=t.i(); e.i("d",d).i("a",a).i("b",b); V[d]=M[a]*V[b]; regs(e,{a},{d,b}); }
  else if(w=="outer"){ int d=t.i(),a=t.i(),b=t.i(); e.i("d",d).i("a",a).i("b",b); M[d]=outer(V[a],V[b]); regs(e,{d},{a,b}); }
  // scalar operations: kind c (complex), l (real), i (integer)
#define SCAL(name,R,regA,expr) else if(w==name){ std::string ty=t.s(); int d=t.i(),a=t.i(); e.s("ty",ty).i("d",d).i("a",a); \
    if(ty=="c"){ cdouble z=t.c(); e.cs("z",{z}); R[d]=(expr); } else if(ty=="l"){ ldouble z=t.n(); e.cs("z",{cdouble(z,0)}); R[d]=(expr); } \
    else { int z=t.i(); e.cs("z",{cdouble((ldouble)z,0)}); R[d]=(expr); } regA; }
  SCAL("ms",M,regs(e,{d,a},{}),M[a]*z) SCAL("sm",M,regs(e,{d,a},{}),z*M[a]) SCAL("m/s",M,regs(e,{d,a},{}),M[a]/z)
  SCAL("vs",V,regs(e,{},{d,a}),V[a]*z) SCAL("sv",V,regs(e,{},{d,a}),z*V[a])
  SCAL("ms=",M,regs(e,{d,a},{}),M[a]*=z) SCAL("m/s=",M,regs(e,{d,a},{}),M[a]/=z)
#undef SCAL
  else if(w=="mget"){ int a=t.i(),i=t.i(),j=t.i(); e.i("a",a).i("i",i).i("j",j); guarded(e,[&](Event& o){ cdouble z=M[a].get(i,j); o.cs("v",{z}); }); regs(e,{a},{}); }
  else if(w=="vget"){ int a=t.i(),i=t.i(); e.i("a",a).i("i",i); guarded(e,[&](Event& o){ cdouble z=V[a].get(i); o.cs("v",{z}); }); regs(e,{},{a}); }
  else if(w=="det"){ int a=t.i(); e.i("a",a); guarded(e,[&](Event& o){ ldouble z=M[a].get_det(); o.cs("v",{cdouble(z,0)}); }); regs(e,{a},{}); }
  else if(w=="fdet"){ int a=t.i(); e.i("a",a); guarded(e,[&](Event& o){ ldouble z=det(M[a]); o.cs("v",{cdouble(z,0)}); }); regs(e,{a},{}); }
  else if(w=="meq"){ int a=t.i(),b=t.i(); e.i("a",a).i("b",b); e.b("eq",M[a]==M[b]).b("ne",M[a]!=M[b]); regs(e,{a,b},{}); }
  else if(w=="veq"){ int a=t.i(),b=t.i(); e.i("a",a).i("b",b); e.b("eq",V[a]==V[b]).b("ne",V[a]!=V[b]); regs(e,{},{a,b}); }
  else { fprintf(stderr,"driver: unknown algebra op %s\n",w.c_str()); exit(3); }
  e.out(out);
}

// What a stream received between "[" and "]1".
static void framed(Event& e,const std::string& s){
  bool ok=s.size()>3&&s[0]=='['&&s.substr(s.size()-2)=="]1";
  e.s("out",ok?s.substr(1,s.size()-3):s).b("framed",ok);
}

static void step(Tok& t,FILE* out){
  std::string op=t.s();
  if(op=="alg"){ algebra(t,out); return; }
  Event e(op);
  if(op=="reset"){ S.clear(); P.clear(); G.clear(); for(int j=0;j<4;j++){ M[j]=cmatrix(); V[j]=cvector(); } e.i("n",t.more()?t.i():0); }
  else if(op=="pnew"){ int s=t.i(); ldouble m=t.n(); std::vector<ldouble> p=t.ns(4); e.i("s",s).n("m",m).ns("p",p);
    guarded(e,[&](Event&){ std::unique_ptr<particle> x(new particle(p.data(),m)); place(s,*x); }); }
  else if(op=="pnewm"){ int s=t.i(); ldouble m=t.n(); e.i("s",s).n("m",m); guarded(e,[&](Event&){ std::unique_ptr<particle> x(new particle(m)); place(s,*x); }); }
  else if(op=="pcopy"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); particle x(part(s)); place(d,x); }
  else if(op=="passign"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); part(d)=part(s); }
  else if(op=="pmass"){ int s=t.i(); ldouble m=t.n(); e.i("s",s).n("m",m); guarded(e,[&](Event&){ part(s).set_mass(m); }); }
  else if(op=="pmom"){ int s=t.i(); std::vector<ldouble> p=t.ns(4); e.i("s",s).ns("p",p); guarded(e,[&](Event&){ part(s).set_momentum(p.data()); }); }
  else if(op=="pupd"){ int s=t.i(); e.i("s",s); guarded(e,[&](Event&){ part(s).update(); }); }
  else if(op=="pq"){ int s=t.i(); std::string w=t.s(); std::vector<std::string> a; while(t.more()) a.push_back(t.s());
    e.i("s",s).s("f",w).raw("a",list<std::string>(a,[](const std::string& x){return str(x);}));
    particle& p=part(s);
    guarded(e,[&](Event& o){ pquery(o,p,w,a); }); }
  else if(op=="snew"){ int s=t.i(); std::string as=t.s(); int l=t.i(); std::string lu=t.s(); int n=t.i(); std::vector<int> mid; for(int j=0;j<n;j++) mid.push_back(t.i());
    int r=t.i(); std::string ru=t.s();
    e.i("s",s).s("as",as).i("l",l).s("lu",lu).is("mid",mid).i("r",r).s("ru",ru);
    std::vector<particle*> q; for(int j:mid) q.push_back(&part(j));
    S[s].reset(new sproduct());
    guarded(e,[&](Event&){ *S[s]=make(as=="A",&part(l),lu,q,&part(r),ru); }); }
  else if(op=="scopy"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); guarded(e,[&](Event&){ std::unique_ptr<sproduct> x(new sproduct(*S.at(s))); S[d]=std::move(x); }); }
  else if(op=="sassign"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); guarded(e,[&](Event&){ if(!S.count(d)) S[d].reset(new sproduct()); *S[d]=*S.at(s); }); }
  else if(op=="sfree"){ int s=t.i(); e.i("s",s); S.erase(s); }
  else if(op=="supd"){ int s=t.i(); e.i("s",s); guarded(e,[&](Event&){ S.at(s)->update(); }); }
  else if(op=="sv"){ int s=t.i(); std::vector<int> j; while(t.more()) j.push_back(t.i()); e.i("s",s).is("j",j);
    guarded(e,[&](Event& o){ sproduct& x=*S.at(s); cdouble z=j.empty()?x.v():j.size()==1?x.v(j[0]):x.v(j[0],j[1]); o.cs("v",{z}); }); }
  else if(op=="gnew"){ int s=t.i(); e.i("s",s); if(t.more()){ ldouble m=t.n(),w=t.n(); e.n("m",m).n("w",w); G[s].reset(new propagator(m,w)); } else { e.s("m","0").s("w","0"); G[s].reset(new propagator()); } }
  else if(op=="gcopy"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); std::unique_ptr<propagator> x(new propagator(*G.at(s))); G[d]=std::move(x); }
  else if(op=="gassign"){ int d=t.i(),s=t.i(); e.i("s",d).i("from",s); *G.at(d)=*G.at(s); }
  else if(op=="gmass"){ int s=t.i(); ldouble m=t.n(); e.i("s",s).n("m",m); G.at(s)->set_mass(m); }
  else if(op=="gwidth"){ int s=t.i(); ldouble m=t.n(); e.i("s",s).n("w",m); G.at(s)->set_width(m); }
  else if(op=="gden"){ int s=t.i(); std::vector<ldouble> p=t.ns(4), q=p; e.i("s",s).ns("p",p); cdouble z=G.at(s)->denominator(q.data()); e.cs("v",{z}).b("same",p==q); }
  else if(op=="rot"){ std::vector<ldouble> p=t.ns(4),u=t.ns(3); ldouble th=t.n(); e.ns("p",p).ns("u",u).n("th",th); rotate_momentum(p.data(),u.data(),th); e.ns("q",p); }
  else if(op=="boost"){ std::vector<ldouble> p=t.ns(4),v=t.ns(3); e.ns("p",p).ns("vel",v); boost_momentum(p.data(),v.data()); e.ns("q",p); }
  else if(op=="spin"){ std::vector<int> d; while(t.more()) d.push_back(t.i()); e.is("ds",d); spin(e,d); }
  else if(op=="hinit"){ probe h; std::vector<ldouble> m=t.ns(4); ldouble P=t.n(),a,b,c,d,q; e.ns("m",m).n("pin",P); h.set_test_initializations(m[0],m[1],m[2],m[3],P,a,b,q,c,d); e.n("e1",a).n("e2",b).n("pout",q).n("e3",c).n("e4",d); }
  else if(op=="hmom"){ probe h; std::vector<ldouble> x=t.ns(7); ldouble p[4][4]; // E1 E2 Pin E3 E4 Pout cos
    h.set_test_momenta(p[0],p[1],p[2],p[3],x[0],x[1],x[2],x[3],x[4],x[5],x[6]); e.ns("x",x);
    std::vector<ldouble> o; for(int j=0;j<4;j++) for(int k=0;k<4;k++) o.push_back(p[j][k]); e.ns("q",o); }
  else if(op=="hrot"||op=="hboost"){ probe h; std::vector<ldouble> x=t.ns(16); e.ns("p",x); ldouble* p=x.data();
    if(op=="hrot") h.rotate_random_test_momenta(p,p+4,p+8,p+12); else h.boost_random_test_momenta(p,p+4,p+8,p+12); e.ns("q",x); }
  else if(op=="hrun"){ std::string var=t.s(); std::vector<ldouble> m=t.ns(4); ldouble Pin=t.n(); std::vector<ldouble> data=t.ns(20); int nc=t.i(); std::vector<std::string> code; for(int j=0;j<nc;j++) code.push_back(t.s());
    e.s("var",var).ns("m",m).n("pin",Pin).ns("data",data);
    int per = (var=="plain"||var=="score") ? 1 : 10;
    probe h; std::vector<ldouble> given; std::vector<int> at;
    // Each call is answered from the data point its momenta belong to, disturbed as the script says.
    auto f=[&]()->ldouble{ int k=given.size(); int j=(k/per)%20; ldouble a=answer(code[k%code.size()],data[j]); given.push_back(a); at.push_back((int)h.seen.size()); return a; };
    ldouble par[10]={1,2,3,4,5,6,7,8,9,10}; bool parok=true;
    ldouble res=0;
    if(var=="plain") res=h.test_2to2_amp2(f,m[0],m[1],m[2],m[3],Pin,data.data());
    else if(var=="rot") res=h.test_2to2_amp2_rotations(f,m[0],m[1],m[2],m[3],Pin,data.data());
    else if(var=="boost") res=h.test_2to2_amp2_boosts(f,m[0],m[1],m[2],m[3],Pin,data.data());
    else if(var=="both") res=h.test_2to2_amp2_boosts_and_rotations(f,m[0],m[1],m[2],m[3],Pin,data.data());
    else res=h.score_2to2_amp2([&](const ldouble* q){ for(int k=0;k<10;k++) if(q[k]!=par[k]) parok=false; return f(); },m[0],m[1],m[2],m[3],Pin,data.data(),par);
    e.n("res",res).ns("given",given).is("at",at).b("par",parok).raw("seen",list<std::vector<ldouble>>(h.seen,[](const std::vector<ldouble>& v){return nums(v);})); }
  else if(op=="rnd"){ std::string w=t.s(); int n; ldouble b=0,en=0; b=t.n(); en=t.n(); n=t.i(); e.s("f",w).n("lo",b).n("hi",en);
    std::string o="[";
    for(int j=0;j<n;j++){ if(j) o+=","; ldouble p[4];
      if(w=="int") o+=nums({(ldouble)choose_random_int((int)b,(int)en)});
      else if(w=="real") o+=nums({choose_random_ldouble(b,en)});
      else if(w=="cpl"){ cdouble z=choose_random_cdouble(b,en); o+=nums({std::real(z),std::imag(z)}); }
      else if(w=="mom"){ ldouble m=choose_random_momentum(p,b,en); o+=nums({m,p[0],p[1],p[2],p[3]}); }
      else { choose_random_massless_momentum(p,b,en); o+=nums({0,p[0],p[1],p[2],p[3]}); } }
    e.raw("s",o+"]"); }
  else if(op=="vtext"){ std::string f=t.s(); cdouble a=t.c(),b=t.c(); cvector x(a,b); e.s("f",f).cs("in",{a,b});
    if(f=="stream"){ std::ostringstream o; o<<"["<<x<<"]"<<1; framed(e,o.str()); }
    else e.s("out",f=="plain"?x.to_string():x.to_string(f=="pairs"?1:2)).b("framed",true); }
  else if(op=="mtext"){ std::string f=t.s(); std::vector<cdouble> z; for(int j=0;j<4;j++) z.push_back(t.c()); cmatrix x(z[0],z[1],z[2],z[3]); e.s("f",f).cs("in",z);
    if(f=="stream"){ std::ostringstream o; o<<"["<<x<<"]"<<1; framed(e,o.str()); }
    else e.s("out",x.to_string()).b("framed",true); }
  else if(op=="mstr"){ ldouble x=t.n(); e.n("in",x).s("out",double_to_Mathematica_string(x)); }
  else if(op=="mmstr"){ std::vector<cdouble> z; for(int j=0;j<4;j++) z.push_back(t.c()); e.cs("in",z).s("out",cmatrix(z[0],z[1],z[2],z[3]).to_Mathematica_string()); }
  else if(op=="vmstr"){ std::vector<cdouble> z; for(int j=0;j<2;j++) z.push_back(t.c()); e.cs("in",z).s("out",cvector(z[0],z[1]).to_Mathematica_string()); }
  else { fprintf(stderr,"driver: unknown op %s\n",op.c_str()); exit(3); }
  e.out(out);
}
int main(int argc,char** argv){ return drv::run(argc,argv,step); }
