// Written by tools/transcribe.py.  One adaptor per process class.
struct A_AAWW : public Adaptor { spinas::AAWW x;
  A_AAWW(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus_Aminus") return x.amp2_Aplus_Aminus();
    if(f=="amp2_Aplus_Aplus") return x.amp2_Aplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_AAdd : public Adaptor { spinas::AAdd x;
  A_AAdd(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus_Aminus") return x.amp2_Aplus_Aminus();
    if(f=="amp2_Aplus_Aplus") return x.amp2_Aplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_AAee : public Adaptor { spinas::AAee x;
  A_AAee(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus_Aminus") return x.amp2_Aplus_Aminus();
    if(f=="amp2_Aplus_Aplus") return x.amp2_Aplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_AAuu : public Adaptor { spinas::AAuu x;
  A_AAuu(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus_Aminus") return x.amp2_Aplus_Aminus();
    if(f=="amp2_Aplus_Aplus") return x.amp2_Aplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_AWAW : public Adaptor { spinas::AWAW x;
  A_AWAW(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AWWh : public Adaptor { spinas::AWWh x;
  A_AWWh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AWZW : public Adaptor { spinas::AWZW x;
  A_AWZW(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AWud : public Adaptor { spinas::AWud x;
  A_AWud(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AZWW : public Adaptor { spinas::AZWW x;
  A_AZWW(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AZdd : public Adaptor { spinas::AZdd x;
  A_AZdd(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AZee : public Adaptor { spinas::AZee x;
  A_AZee(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AZuu : public Adaptor { spinas::AZuu x;
  A_AZuu(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AdZd : public Adaptor { spinas::AdZd x;
  A_AdZd(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AeZe : public Adaptor { spinas::AeZe x;
  A_AeZe(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AhWW : public Adaptor { spinas::AhWW x;
  A_AhWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AnWe : public Adaptor { spinas::AnWe x;
  A_AnWe(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_AuZu : public Adaptor { spinas::AuZu x;
  A_AuZu(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_WWWW : public Adaptor { spinas::WWWW x;
  A_WWWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_WWWW2 : public Adaptor { spinas::WWWW2 x;
  A_WWWW2(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_WdWd : public Adaptor { spinas::WdWd x;
  A_WdWd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_WdZu : public Adaptor { spinas::WdZu x;
  A_WdZu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZWWh : public Adaptor { spinas::ZWWh x;
  A_ZWWh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZWZW : public Adaptor { spinas::ZWZW x;
  A_ZWZW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZZWW : public Adaptor { spinas::ZZWW x;
  A_ZZWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZZZZ : public Adaptor { spinas::ZZZZ x;
  A_ZZZZ(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZhWW : public Adaptor { spinas::ZhWW x;
  A_ZhWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ZnWe : public Adaptor { spinas::ZnWe x;
  A_ZnWe(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dAAd : public Adaptor { spinas::dAAd x;
  A_dAAd(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_dAdh : public Adaptor { spinas::dAdh x;
  A_dAdh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_dAgd : public Adaptor { spinas::dAgd x;
  A_dAgd(const Args& a):x(a[0],a[1],a[2]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_dWgu : public Adaptor { spinas::dWgu x;
  A_dWgu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dZZd : public Adaptor { spinas::dZZd x;
  A_dZZd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dZdh : public Adaptor { spinas::dZdh x;
  A_dZdh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddAA : public Adaptor { spinas::ddAA x;
  A_ddAA(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddAh : public Adaptor { spinas::ddAh x;
  A_ddAh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddWW : public Adaptor { spinas::ddWW x;
  A_ddWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddZZ : public Adaptor { spinas::ddZZ x;
  A_ddZZ(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddZh : public Adaptor { spinas::ddZh x;
  A_ddZh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dddd : public Adaptor { spinas::dddd x;
  A_dddd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon_S") return x.amp_gluon_S(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon_T") return x.amp_gluon_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_S") return x.amp_rest_S(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_T") return x.amp_rest_T(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dddd2 : public Adaptor { spinas::dddd2 x;
  A_dddd2(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon_T") return x.amp_gluon_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon_U") return x.amp_gluon_U(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_T") return x.amp_rest_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_U") return x.amp_rest_U(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddee : public Adaptor { spinas::ddee x;
  A_ddee(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddhh : public Adaptor { spinas::ddhh x;
  A_ddhh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddnn : public Adaptor { spinas::ddnn x;
  A_ddnn(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ddss : public Adaptor { spinas::ddss x;
  A_ddss(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_deed : public Adaptor { spinas::deed x;
  A_deed(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dgdh : public Adaptor { spinas::dgdh x;
  A_dgdh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_dggd : public Adaptor { spinas::dggd x;
  A_dggd(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_Num") return x.amp_Num(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_dhdh : public Adaptor { spinas::dhdh x;
  A_dhdh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dnnd : public Adaptor { spinas::dnnd x;
  A_dnnd(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_dsds : public Adaptor { spinas::dsds x;
  A_dsds(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eAAe : public Adaptor { spinas::eAAe x;
  A_eAAe(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_eAeh : public Adaptor { spinas::eAeh x;
  A_eAeh(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_v(const ldouble& v){ x.set_v(v); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  ldouble amp2_at(const ldouble* p){ return x.amp2(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_eWWe : public Adaptor { spinas::eWWe x;
  A_eWWe(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eZZe : public Adaptor { spinas::eZZe x;
  A_eZZe(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eZeh : public Adaptor { spinas::eZeh x;
  A_eZeh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeAA : public Adaptor { spinas::eeAA x;
  A_eeAA(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  ldouble amp2_at(const ldouble* p){ return x.amp2(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeAZ : public Adaptor { spinas::eeAZ x;
  A_eeAZ(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeAh : public Adaptor { spinas::eeAh x;
  A_eeAh(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_v(const ldouble& v){ x.set_v(v); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeWW : public Adaptor { spinas::eeWW x;
  A_eeWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeZZ : public Adaptor { spinas::eeZZ x;
  A_eeZZ(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeZh : public Adaptor { spinas::eeZh x;
  A_eeZh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeee : public Adaptor { spinas::eeee x;
  A_eeee(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeee2 : public Adaptor { spinas::eeee2 x;
  A_eeee2(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eeeeQED : public Adaptor { spinas::eeeeQED x;
  A_eeeeQED(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  ldouble amp2_at(const ldouble* p){ return x.amp2(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eehh : public Adaptor { spinas::eehh x;
  A_eehh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eemm : public Adaptor { spinas::eemm x;
  A_eemm(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eemmQED : public Adaptor { spinas::eemmQED x;
  A_eemmQED(const Args& a):x(a[0],a[1],a[2]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  ldouble amp2_at(const ldouble* p){ return x.amp2(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eenene : public Adaptor { spinas::eenene x;
  A_eenene(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eenmnm : public Adaptor { spinas::eenmnm x;
  A_eenmnm(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_eheh : public Adaptor { spinas::eheh x;
  A_eheh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_emem : public Adaptor { spinas::emem x;
  A_emem(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_enAW : public Adaptor { spinas::enAW x;
  A_enAW(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_enWh : public Adaptor { spinas::enWh x;
  A_enWh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_enZW : public Adaptor { spinas::enZW x;
  A_enZW(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_enenee : public Adaptor { spinas::enenee x;
  A_enenee(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_enmenm : public Adaptor { spinas::enmenm x;
  A_enmenm(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_gAdd : public Adaptor { spinas::gAdd x;
  A_gAdd(const Args& a):x(a[0],a[1],a[2]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus_Aminus") return x.amp2_gplus_Aminus();
    if(f=="amp2_gplus_Aplus") return x.amp2_gplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_gAuu : public Adaptor { spinas::gAuu x;
  A_gAuu(const Args& a):x(a[0],a[1],a[2]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus_Aminus") return x.amp2_gplus_Aminus();
    if(f=="amp2_gplus_Aplus") return x.amp2_gplus_Aplus();
    return std::real(nosuch(f)); } };
struct A_gWud : public Adaptor { spinas::gWud x;
  A_gWud(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_gZdd : public Adaptor { spinas::gZdd x;
  A_gZdd(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_gZuu : public Adaptor { spinas::gZuu x;
  A_gZuu(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_gdZd : public Adaptor { spinas::gdZd x;
  A_gdZd(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_ggdd : public Adaptor { spinas::ggdd x;
  A_ggdd(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_Num") return x.amp_Num(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Feynman") return x.amp2_Feynman();
    if(f=="amp2_gplus_gminus") return x.amp2_gplus_gminus();
    if(f=="amp2_gplus_gplus") return x.amp2_gplus_gplus();
    return std::real(nosuch(f)); } };
struct A_gggg : public Adaptor { spinas::gggg x;
  A_gggg(const Args& a):x(a[0]){ (void)a; }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Feynman") return x.amp2_Feynman();
    if(f=="amp2_gminus_gminus") return x.amp2_gminus_gminus();
    if(f=="amp2_gminus_gplus") return x.amp2_gminus_gplus();
    if(f=="amp2_gplus_gminus") return x.amp2_gplus_gminus();
    if(f=="amp2_gplus_gplus") return x.amp2_gplus_gplus();
    return std::real(nosuch(f)); } };
struct A_gguu : public Adaptor { spinas::gguu x;
  A_gguu(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_Num") return x.amp_Num(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Feynman") return x.amp2_Feynman();
    if(f=="amp2_gplus_gminus") return x.amp2_gplus_gminus();
    if(f=="amp2_gplus_gplus") return x.amp2_gplus_gplus();
    return std::real(nosuch(f)); } };
struct A_guAu : public Adaptor { spinas::guAu x;
  A_guAu(const Args& a):x(a[0],a[1],a[2]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_guZu : public Adaptor { spinas::guZu x;
  A_guZu(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_gugu : public Adaptor { spinas::gugu x;
  A_gugu(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_Num") return x.amp_Num(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gminus") return x.amp2_gminus();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_hWWh : public Adaptor { spinas::hWWh x;
  A_hWWh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_hZZh : public Adaptor { spinas::hZZh x;
  A_hZZh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_hgdd : public Adaptor { spinas::hgdd x;
  A_hgdd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_hguu : public Adaptor { spinas::hguu x;
  A_hguu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_hhWW : public Adaptor { spinas::hhWW x;
  A_hhWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_hhZZ : public Adaptor { spinas::hhZZ x;
  A_hhZZ(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_hhhh : public Adaptor { spinas::hhhh x;
  A_hhhh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp();
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_hnWe : public Adaptor { spinas::hnWe x;
  A_hnWe(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_menn : public Adaptor { spinas::menn x;
  A_menn(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_mnen : public Adaptor { spinas::mnen x;
  A_mnen(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nWWn : public Adaptor { spinas::nWWn x;
  A_nWWn(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nZZn : public Adaptor { spinas::nZZn x;
  A_nZZn(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nZnh : public Adaptor { spinas::nZnh x;
  A_nZnh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nenenene : public Adaptor { spinas::nenenene x;
  A_nenenene(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp();
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nenenene2 : public Adaptor { spinas::nenenene2 x;
  A_nenenene2(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp();
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nenenmnm : public Adaptor { spinas::nenenmnm x;
  A_nenenmnm(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp();
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nenmnenm : public Adaptor { spinas::nenmnenm x;
  A_nenmnenm(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp();
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nnWW : public Adaptor { spinas::nnWW x;
  A_nnWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nnZZ : public Adaptor { spinas::nnZZ x;
  A_nnZZ(const Args& a):x(a[0],a[1],a[2],a[3]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_nnZh : public Adaptor { spinas::nnZh x;
  A_nnZh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uAAu : public Adaptor { spinas::uAAu x;
  A_uAAu(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aminus") return x.amp2_Aminus();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_uAuh : public Adaptor { spinas::uAuh x;
  A_uAuh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_Aplus") return x.amp2_Aplus();
    return std::real(nosuch(f)); } };
struct A_uWWu : public Adaptor { spinas::uWWu x;
  A_uWWu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uZZu : public Adaptor { spinas::uZZu x;
  A_uZZu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uZuh : public Adaptor { spinas::uZuh x;
  A_uZuh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ubdt : public Adaptor { spinas::ubdt x;
  A_ubdt(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3],a[4]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ucuc : public Adaptor { spinas::ucuc x;
  A_ucuc(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udAW : public Adaptor { spinas::udAW x;
  A_udAW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udWh : public Adaptor { spinas::udWh x;
  A_udWh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udZW : public Adaptor { spinas::udZW x;
  A_udZW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udnl : public Adaptor { spinas::udnl x;
  A_udnl(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udtb : public Adaptor { spinas::udtb x;
  A_udtb(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3],a[4]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_udud : public Adaptor { spinas::udud x;
  A_udud(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_W") return x.amp_W(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ueeu : public Adaptor { spinas::ueeu x;
  A_ueeu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uguh : public Adaptor { spinas::uguh x;
  A_uguh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    if(f=="amp2_gplus") return x.amp2_gplus();
    return std::real(nosuch(f)); } };
struct A_uhWd : public Adaptor { spinas::uhWd x;
  A_uhWd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uhuh : public Adaptor { spinas::uhuh x;
  A_uhuh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_ulnd : public Adaptor { spinas::ulnd x;
  A_ulnd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_unnu : public Adaptor { spinas::unnu x;
  A_unnu(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_usus : public Adaptor { spinas::usus x;
  A_usus(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuAA : public Adaptor { spinas::uuAA x;
  A_uuAA(const Args& a):x(a[0],a[1]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuAh : public Adaptor { spinas::uuAh x;
  A_uuAh(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuWW : public Adaptor { spinas::uuWW x;
  A_uuWW(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuZZ : public Adaptor { spinas::uuZZ x;
  A_uuZZ(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuZh : public Adaptor { spinas::uuZh x;
  A_uuZh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uucc : public Adaptor { spinas::uucc x;
  A_uucc(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uudd : public Adaptor { spinas::uudd x;
  A_uudd(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_W") return x.amp_W(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuee : public Adaptor { spinas::uuee x;
  A_uuee(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuhh : public Adaptor { spinas::uuhh x;
  A_uuhh(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uunn : public Adaptor { spinas::uunn x;
  A_uunn(const Args& a):x(a[0],a[1],a[2],a[3],a[4]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp") return x.amp(d[0],d[1]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuss : public Adaptor { spinas::uuss x;
  A_uuss(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2],a[3]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon") return x.amp_gluon(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest") return x.amp_rest(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuuu : public Adaptor { spinas::uuuu x;
  A_uuuu(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon_S") return x.amp_gluon_S(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon_T") return x.amp_gluon_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_S") return x.amp_rest_S(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_T") return x.amp_rest_T(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
struct A_uuuu2 : public Adaptor { spinas::uuuu2 x;
  A_uuuu2(const Args& a):x(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){ (void)a; }
  void set_masses(const Args& a){ (void)a; x.set_masses(a[0],a[1],a[2]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;
    if(f=="amp_gluon_T") return x.amp_gluon_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_gluon_U") return x.amp_gluon_U(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_T") return x.amp_rest_T(d[0],d[1],d[2],d[3]);
    if(f=="amp_rest_U") return x.amp_rest_U(d[0],d[1],d[2],d[3]);
    return nosuch(f); }
  ldouble amp2(const std::string& f){
    if(f=="amp2") return x.amp2();
    return std::real(nosuch(f)); } };
static const Maker MAKERS[] = {
  {"AAWW",4,make<A_AAWW>,copy<A_AAWW>},
  {"AAdd",2,make<A_AAdd>,copy<A_AAdd>},
  {"AAee",2,make<A_AAee>,copy<A_AAee>},
  {"AAuu",2,make<A_AAuu>,copy<A_AAuu>},
  {"AWAW",4,make<A_AWAW>,copy<A_AWAW>},
  {"AWWh",5,make<A_AWWh>,copy<A_AWWh>},
  {"AWZW",4,make<A_AWZW>,copy<A_AWZW>},
  {"AWud",6,make<A_AWud>,copy<A_AWud>},
  {"AZWW",4,make<A_AZWW>,copy<A_AZWW>},
  {"AZdd",4,make<A_AZdd>,copy<A_AZdd>},
  {"AZee",4,make<A_AZee>,copy<A_AZee>},
  {"AZuu",4,make<A_AZuu>,copy<A_AZuu>},
  {"AdZd",4,make<A_AdZd>,copy<A_AdZd>},
  {"AeZe",4,make<A_AeZe>,copy<A_AeZe>},
  {"AhWW",5,make<A_AhWW>,copy<A_AhWW>},
  {"AnWe",5,make<A_AnWe>,copy<A_AnWe>},
  {"AuZu",4,make<A_AuZu>,copy<A_AuZu>},
  {"WWWW",6,make<A_WWWW>,copy<A_WWWW>},
  {"WWWW2",6,make<A_WWWW2>,copy<A_WWWW2>},
  {"WdWd",8,make<A_WdWd>,copy<A_WdWd>},
  {"WdZu",6,make<A_WdZu>,copy<A_WdZu>},
  {"ZWWh",6,make<A_ZWWh>,copy<A_ZWWh>},
  {"ZWZW",6,make<A_ZWZW>,copy<A_ZWZW>},
  {"ZZWW",6,make<A_ZZWW>,copy<A_ZZWW>},
  {"ZZZZ",5,make<A_ZZZZ>,copy<A_ZZZZ>},
  {"ZhWW",6,make<A_ZhWW>,copy<A_ZhWW>},
  {"ZnWe",5,make<A_ZnWe>,copy<A_ZnWe>},
  {"dAAd",2,make<A_dAAd>,copy<A_dAAd>},
  {"dAdh",5,make<A_dAdh>,copy<A_dAdh>},
  {"dAgd",3,make<A_dAgd>,copy<A_dAgd>},
  {"dWgu",6,make<A_dWgu>,copy<A_dWgu>},
  {"dZZd",7,make<A_dZZd>,copy<A_dZZd>},
  {"dZdh",7,make<A_dZdh>,copy<A_dZdh>},
  {"ddAA",2,make<A_ddAA>,copy<A_ddAA>},
  {"ddAh",5,make<A_ddAh>,copy<A_ddAh>},
  {"ddWW",8,make<A_ddWW>,copy<A_ddWW>},
  {"ddZZ",7,make<A_ddZZ>,copy<A_ddZZ>},
  {"ddZh",7,make<A_ddZh>,copy<A_ddZh>},
  {"dddd",8,make<A_dddd>,copy<A_dddd>},
  {"dddd2",8,make<A_dddd2>,copy<A_dddd2>},
  {"ddee",8,make<A_ddee>,copy<A_ddee>},
  {"ddhh",6,make<A_ddhh>,copy<A_ddhh>},
  {"ddnn",5,make<A_ddnn>,copy<A_ddnn>},
  {"ddss",9,make<A_ddss>,copy<A_ddss>},
  {"deed",8,make<A_deed>,copy<A_deed>},
  {"dgdh",6,make<A_dgdh>,copy<A_dgdh>},
  {"dggd",2,make<A_dggd>,copy<A_dggd>},
  {"dhdh",6,make<A_dhdh>,copy<A_dhdh>},
  {"dnnd",5,make<A_dnnd>,copy<A_dnnd>},
  {"dsds",9,make<A_dsds>,copy<A_dsds>},
  {"eAAe",2,make<A_eAAe>,copy<A_eAAe>},
  {"eAeh",4,make<A_eAeh>,copy<A_eAeh>},
  {"eWWe",7,make<A_eWWe>,copy<A_eWWe>},
  {"eZZe",7,make<A_eZZe>,copy<A_eZZe>},
  {"eZeh",7,make<A_eZeh>,copy<A_eZeh>},
  {"eeAA",2,make<A_eeAA>,copy<A_eeAA>},
  {"eeAZ",4,make<A_eeAZ>,copy<A_eeAZ>},
  {"eeAh",4,make<A_eeAh>,copy<A_eeAh>},
  {"eeWW",7,make<A_eeWW>,copy<A_eeWW>},
  {"eeZZ",7,make<A_eeZZ>,copy<A_eeZZ>},
  {"eeZh",7,make<A_eeZh>,copy<A_eeZh>},
  {"eeee",7,make<A_eeee>,copy<A_eeee>},
  {"eeee2",7,make<A_eeee2>,copy<A_eeee2>},
  {"eeeeQED",2,make<A_eeeeQED>,copy<A_eeeeQED>},
  {"eehh",6,make<A_eehh>,copy<A_eehh>},
  {"eemm",8,make<A_eemm>,copy<A_eemm>},
  {"eemmQED",3,make<A_eemmQED>,copy<A_eemmQED>},
  {"eenene",6,make<A_eenene>,copy<A_eenene>},
  {"eenmnm",5,make<A_eenmnm>,copy<A_eenmnm>},
  {"eheh",6,make<A_eheh>,copy<A_eheh>},
  {"emem",8,make<A_emem>,copy<A_emem>},
  {"enAW",5,make<A_enAW>,copy<A_enAW>},
  {"enWh",6,make<A_enWh>,copy<A_enWh>},
  {"enZW",5,make<A_enZW>,copy<A_enZW>},
  {"enenee",6,make<A_enenee>,copy<A_enenee>},
  {"enmenm",5,make<A_enmenm>,copy<A_enmenm>},
  {"gAdd",3,make<A_gAdd>,copy<A_gAdd>},
  {"gAuu",3,make<A_gAuu>,copy<A_gAuu>},
  {"gWud",6,make<A_gWud>,copy<A_gWud>},
  {"gZdd",5,make<A_gZdd>,copy<A_gZdd>},
  {"gZuu",5,make<A_gZuu>,copy<A_gZuu>},
  {"gdZd",5,make<A_gdZd>,copy<A_gdZd>},
  {"ggdd",2,make<A_ggdd>,copy<A_ggdd>},
  {"gggg",1,make<A_gggg>,copy<A_gggg>},
  {"gguu",2,make<A_gguu>,copy<A_gguu>},
  {"guAu",3,make<A_guAu>,copy<A_guAu>},
  {"guZu",5,make<A_guZu>,copy<A_guZu>},
  {"gugu",2,make<A_gugu>,copy<A_gugu>},
  {"hWWh",6,make<A_hWWh>,copy<A_hWWh>},
  {"hZZh",6,make<A_hZZh>,copy<A_hZZh>},
  {"hgdd",6,make<A_hgdd>,copy<A_hgdd>},
  {"hguu",6,make<A_hguu>,copy<A_hguu>},
  {"hhWW",6,make<A_hhWW>,copy<A_hhWW>},
  {"hhZZ",6,make<A_hhZZ>,copy<A_hhZZ>},
  {"hhhh",5,make<A_hhhh>,copy<A_hhhh>},
  {"hnWe",6,make<A_hnWe>,copy<A_hnWe>},
  {"menn",6,make<A_menn>,copy<A_menn>},
  {"mnen",6,make<A_mnen>,copy<A_mnen>},
  {"nWWn",5,make<A_nWWn>,copy<A_nWWn>},
  {"nZZn",4,make<A_nZZn>,copy<A_nZZn>},
  {"nZnh",5,make<A_nZnh>,copy<A_nZnh>},
  {"nenenene",4,make<A_nenenene>,copy<A_nenenene>},
  {"nenenene2",4,make<A_nenenene2>,copy<A_nenenene2>},
  {"nenenmnm",4,make<A_nenenmnm>,copy<A_nenenmnm>},
  {"nenmnenm",4,make<A_nenmnenm>,copy<A_nenmnenm>},
  {"nnWW",5,make<A_nnWW>,copy<A_nnWW>},
  {"nnZZ",4,make<A_nnZZ>,copy<A_nnZZ>},
  {"nnZh",5,make<A_nnZh>,copy<A_nnZh>},
  {"uAAu",2,make<A_uAAu>,copy<A_uAAu>},
  {"uAuh",5,make<A_uAuh>,copy<A_uAuh>},
  {"uWWu",8,make<A_uWWu>,copy<A_uWWu>},
  {"uZZu",7,make<A_uZZu>,copy<A_uZZu>},
  {"uZuh",7,make<A_uZuh>,copy<A_uZuh>},
  {"ubdt",8,make<A_ubdt>,copy<A_ubdt>},
  {"ucuc",9,make<A_ucuc>,copy<A_ucuc>},
  {"udAW",6,make<A_udAW>,copy<A_udAW>},
  {"udWh",7,make<A_udWh>,copy<A_udWh>},
  {"udZW",6,make<A_udZW>,copy<A_udZW>},
  {"udnl",7,make<A_udnl>,copy<A_udnl>},
  {"udtb",8,make<A_udtb>,copy<A_udtb>},
  {"udud",10,make<A_udud>,copy<A_udud>},
  {"ueeu",8,make<A_ueeu>,copy<A_ueeu>},
  {"uguh",6,make<A_uguh>,copy<A_uguh>},
  {"uhWd",7,make<A_uhWd>,copy<A_uhWd>},
  {"uhuh",6,make<A_uhuh>,copy<A_uhuh>},
  {"ulnd",7,make<A_ulnd>,copy<A_ulnd>},
  {"unnu",5,make<A_unnu>,copy<A_unnu>},
  {"usus",9,make<A_usus>,copy<A_usus>},
  {"uuAA",2,make<A_uuAA>,copy<A_uuAA>},
  {"uuAh",5,make<A_uuAh>,copy<A_uuAh>},
  {"uuWW",8,make<A_uuWW>,copy<A_uuWW>},
  {"uuZZ",7,make<A_uuZZ>,copy<A_uuZZ>},
  {"uuZh",7,make<A_uuZh>,copy<A_uuZh>},
  {"uucc",9,make<A_uucc>,copy<A_uucc>},
  {"uudd",10,make<A_uudd>,copy<A_uudd>},
  {"uuee",8,make<A_uuee>,copy<A_uuee>},
  {"uuhh",6,make<A_uuhh>,copy<A_uuhh>},
  {"uunn",5,make<A_uunn>,copy<A_uunn>},
  {"uuss",9,make<A_uuss>,copy<A_uuss>},
  {"uuuu",8,make<A_uuuu>,copy<A_uuuu>},
  {"uuuu2",8,make<A_uuuu2>,copy<A_uuuu2>},
};
