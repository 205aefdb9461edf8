// Shared pieces of the conformance drivers: script tokens in, NDJSON events out.
// Numbers leave as decimal strings with more digits than a long double holds.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "types.h"
#include "cmatrix.h"
#include "cvector.h"

// New memory holds garbage, always the same, so that an object that answers from something it never
// set does so in every run.
inline void* dirty(std::size_t n){ void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); std::memset(p,0xA5,n); return p; }
void* operator new(std::size_t n){ return dirty(n); }
void* operator new[](std::size_t n){ return dirty(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }

namespace drv {
  using ::ldouble;
  using ::cdouble;

  inline std::string num(const long double& x){
    char b[64];
    if(x!=x) return "\"nan\"";
    if(x-x!=0) return x>0 ? "\"inf\"" : "\"-inf\"";
    snprintf(b,sizeof b,"\"%.24Lg\"",(long double)x);
    return b;
  }
  inline std::string cpl(const cdouble& z){ return "["+num(std::real(z))+","+num(std::imag(z))+"]"; }
  inline std::string str(const std::string& s){
    std::string o="\"";
    for(size_t i=0;i<s.size();i++){
      unsigned char ch=s[i];
      if(ch=='"'||ch=='\\'){ o+='\\'; o+=ch; }
      else if(ch<32){ char b[8]; snprintf(b,sizeof b,"\\u%04x",ch); o+=b; }
      else o+=ch;
    }
    return o+"\"";
  }
  template<class T> std::string list(const std::vector<T>& v, std::function<std::string(const T&)> f){
    std::string o="[";
    for(size_t i=0;i<v.size();i++){ if(i) o+=","; o+=f(v[i]); }
    return o+"]";
  }
  inline std::string nums(const std::vector<ldouble>& v){ return list<ldouble>(v,[](const ldouble& x){return num(x);}); }
  inline std::string ints(const std::vector<int>& v){ return list<int>(v,[](const int& x){return std::to_string(x);}); }
  inline std::string cpls(const std::vector<cdouble>& v){ return list<cdouble>(v,[](const cdouble& x){return cpl(x);}); }
  inline std::vector<cdouble> flat(const spinas::cvector& v){ return {v.get(0),v.get(1)}; }
  inline std::vector<cdouble> flat(const spinas::cmatrix& m){ return {m.get(0,0),m.get(0,1),m.get(1,0),m.get(1,1)}; }

  struct Tok {                     // one script line
    std::vector<std::string> t; size_t at=0;
    explicit Tok(const std::string& line){ std::istringstream is(line); std::string w; while(is>>w) t.push_back(w); }
    bool more() const { return at<t.size(); }
    std::string s(){ if(at>=t.size()){ fprintf(stderr,"driver: script line too short (%s)\n",t.empty()?"":t[0].c_str()); exit(3);} return t[at++]; }
    int i(){ return atoi(s().c_str()); }
    ldouble n(){ std::string w=s(); return strtold(w.c_str(),nullptr); }
    cdouble c(){ ldouble re=n(), im=n(); return cdouble(re,im); }
    std::vector<ldouble> ns(int k){ std::vector<ldouble> v; for(int j=0;j<k;j++) v.push_back(n()); return v; }
  };

  struct Event {                   // one trace line
    std::string body;
    explicit Event(const std::string& op){ body="{\"op\":"+str(op); }
    Event& raw(const char* k,const std::string& v){ body+=",\""; body+=k; body+="\":"; body+=v; return *this; }
    Event& s(const char* k,const std::string& v){ return raw(k,str(v)); }
    Event& i(const char* k,int v){ return raw(k,std::to_string(v)); }
    Event& b(const char* k,bool v){ return raw(k,v?"true":"false"); }
    Event& n(const char* k,const ldouble& v){ return raw(k,num(v)); }
    Event& ns(const char* k,const std::vector<ldouble>& v){ return raw(k,nums(v)); }
    Event& is(const char* k,const std::vector<int>& v){ return raw(k,ints(v)); }
    Event& cs(const char* k,const std::vector<cdouble>& v){ return raw(k,cpls(v)); }
    void out(FILE* f){ body+="}\n"; fputs(body.c_str(),f); fflush(f); }
  };

  // Runs f and records either that it returned or the kind of exception it threw.
  inline void guarded(Event& e, const std::function<void(Event&)>& f){
    Event keep=e;
    try { f(e); e.s("k","ok"); }
    catch(const std::out_of_range&){ e=keep; e.s("k","err").s("x","out_of_range"); }
    catch(const std::domain_error&){ e=keep; e.s("k","err").s("x","domain_error"); }
    catch(const std::runtime_error&){ e=keep; e.s("k","err").s("x","runtime_error"); }
    catch(const std::exception&){ e=keep; e.s("k","err").s("x","exception"); }
    catch(...){ e=keep; e.s("k","err").s("x","other"); }
  }

  // Histories in threads: as many as there are threads run at the same time, each over and over
  // for ms milliseconds.  What a history recorded is written once for every different record,
  // after a line with the number of the history.
  typedef std::vector<std::string> History;
  inline std::string once(const History& h,const std::function<void(Tok&,FILE*)>& step){
    char* buf=nullptr; size_t n=0; FILE* out=open_memstream(&buf,&n);
    for(const std::string& line:h){ Tok t(line); step(t,out); }
    fclose(out); std::string r(buf,n); free(buf); return r;
  }
  inline void threads(const std::vector<History>& hs,size_t width,int ms,FILE* out,const std::function<void(Tok&,FILE*)>& step){
    for(size_t at=0;at<hs.size();at+=width){
      size_t n=std::min(width,hs.size()-at);
      std::vector<std::vector<std::string>> seen(n); std::atomic<size_t> ready(0);
      std::vector<std::thread> ts;
      for(size_t j=0;j<n;j++) ts.emplace_back([&,j]{
        ready++; while(ready<n) std::this_thread::yield();
        auto end=std::chrono::steady_clock::now()+std::chrono::milliseconds(ms);
        do { std::string r=once(hs[at+j],step); bool known=false; for(auto& x:seen[j]) if(x==r) known=true;
             if(!known) seen[j].push_back(r); } while(seen[j].size()<4&&std::chrono::steady_clock::now()<end); });
      for(auto& t:ts) t.join();
      for(size_t j=0;j<n;j++) for(auto& x:seen[j]) fprintf(out,"#%zu\n%s",at+j,x.c_str());
      fflush(out);
    }
  }

  // The library prints usage text to stdout; the trace goes to its own file.
  inline int run(int argc,char** argv,const std::function<void(Tok&,FILE*)>& step){
    if(argc!=3&&argc!=5){ fprintf(stderr,"usage: %s script trace [threads milliseconds]\n",argv[0]); return 3; }
    FILE* in=fopen(argv[1],"r"); FILE* out=fopen(argv[2],"w");
    if(!in||!out){ perror("driver"); return 3; }
    if(!freopen("/dev/null","w",stdout)) return 3;
    std::string line; int ch; std::vector<History> hs;
    while(true){
      line.clear();
      while((ch=fgetc(in))!=EOF && ch!='\n') line+=(char)ch;
      if(!line.empty()){ Tok t(line); if(t.t.empty() || t.t[0][0]=='#'); else if(argc==3) step(t,out);
        else { if(t.t[0]=="reset") hs.emplace_back(); hs.back().push_back(line); } }
      if(ch==EOF) break;
    }
    if(argc==5) threads(hs,atoi(argv[3]),atoi(argv[4]),out,step);
    fclose(in); fclose(out);
    return 0;
  }
}
