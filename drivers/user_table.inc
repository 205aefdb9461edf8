struct A_user : public Adaptor { eemm x;
  A_user(const Args& a):x(a[0],a[1],a[2]){}
  void set_masses(const Args& a){ x.set_masses(a[0],a[1]); }
  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }
  cdouble amp(const std::string& f,const std::vector<int>& d){ if(f=="amp") return x.amp(d[0],d[1],d[2],d[3]); return nosuch(f); }
  ldouble amp2(const std::string& f){ if(f=="amp2") return x.amp2(); return std::real(nosuch(f)); } };
static const Maker MAKERS[] = {
  {"eemmQED",3,make<A_user>,copy<A_user>},
};
