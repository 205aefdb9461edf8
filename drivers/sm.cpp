// Conformance driver for the Standard Model processes: replays a script of calls
// on any number of process objects and records every call with its outcome.
#include "trace.h"
#ifndef SM_HEADERS
#define SM_HEADERS "sm_headers.inc"
#define SM_TABLE "sm_table.inc"
#endif
#include SM_HEADERS

using namespace drv;
typedef std::vector<ldouble> Args;

struct Adaptor {
  virtual ~Adaptor(){}
  virtual void set_masses(const Args&){ nosuch("set_masses"); }
  virtual void set_v(const ldouble&){ nosuch("set_v"); }
  virtual void set_momenta(const ldouble*)=0;
  virtual ldouble amp2_at(const ldouble*){ return std::real(nosuch("amp2_at")); }
  virtual cdouble amp(const std::string&,const std::vector<int>&)=0;
  virtual ldouble amp2(const std::string&)=0;
  static cdouble nosuch(const std::string& f){ fprintf(stderr,"driver: no method %s\n",f.c_str()); exit(3); }
};
struct Maker { const char* name; int nargs; Adaptor* (*make)(const Args&); Adaptor* (*copy)(const Adaptor&); };
template<class A> Adaptor* make(const Args& a){ return new A(a); }
template<class A> Adaptor* copy_if(const A& a,std::true_type){ return new A(a); }
template<class A> Adaptor* copy_if(const A&,std::false_type){ return nullptr; }
template<class A> Adaptor* copy(const Adaptor& a){ return copy_if(static_cast<const A&>(a),std::is_copy_constructible<A>()); }
#include SM_TABLE

static thread_local std::map<int,std::unique_ptr<Adaptor>> O;
static thread_local std::map<int,const Maker*> K;
static Adaptor& obj(int s){ return *O.at(s); }

static void step(Tok& t,FILE* out){
  std::string op=t.s();
  Event e(op);
  if(op=="reset"){ O.clear(); e.i("n",t.more()?t.i():0); }
  else if(op=="new"){ int s=t.i(); std::string c=t.s(); const Maker* m=nullptr;
    for(const Maker& x:MAKERS) if(c==x.name) m=&x;
    if(!m){ fprintf(stderr,"driver: no class %s\n",c.c_str()); exit(3); }
    Args a=t.ns(m->nargs); e.i("o",s).s("cls",c).ns("a",a);
    guarded(e,[&](Event&){ O[s].reset(m->make(a)); K[s]=m; }); }
  // A class that cannot be copied records so, and the slot keeps what it had.
  else if(op=="copy"){ int s=t.i(),from=t.i(); e.i("o",s).i("from",from); Adaptor* c=nullptr;
    guarded(e,[&](Event& o){ c=K.at(from)->copy(obj(from)); o.i("done",c?1:0); }); if(c){ O[s].reset(c); K[s]=K[from]; } }
  else if(op=="free"){ int s=t.i(); e.i("o",s); O.erase(s); }
  else if(op=="setm"){ int s=t.i(); Args a; while(t.more()) a.push_back(t.n()); e.i("o",s).ns("a",a); guarded(e,[&](Event&){ obj(s).set_masses(a); }); }
  else if(op=="setv"){ int s=t.i(); ldouble v=t.n(); e.i("o",s).n("v",v); guarded(e,[&](Event&){ obj(s).set_v(v); }); }
  else if(op=="mom"){ int s=t.i(); Args p=t.ns(16); e.i("o",s).ns("p",p); guarded(e,[&](Event&){ obj(s).set_momenta(p.data()); }); }
  else if(op=="amp"){ int s=t.i(); std::string f=t.s(); std::vector<int> d; while(t.more()) d.push_back(t.i()); e.i("o",s).s("f",f).is("d",d);
    guarded(e,[&](Event& o){ cdouble z=obj(s).amp(f,d); o.cs("v",{z}); }); }
  else if(op=="amp2"){ int s=t.i(); std::string f=t.s(); e.i("o",s).s("f",f);
    guarded(e,[&](Event& o){ ldouble z=obj(s).amp2(f); o.cs("v",{cdouble(z,0)}); }); }
  else if(op=="amp2at"){ int s=t.i(); Args p=t.ns(16); e.i("o",s).ns("p",p); guarded(e,[&](Event& o){ ldouble z=obj(s).amp2_at(p.data()); o.cs("v",{cdouble(z,0)}); }); }
  else { fprintf(stderr,"driver: unknown op %s\n",op.c_str()); exit(3); }
  e.out(out);
}
int main(int argc,char** argv){ return drv::run(argc,argv,step); }
