#include "graph/operations/operations.hpp"
#include "graph/leaf/variable.hpp"
#include "utils/futils.hpp"
#include <iostream>
using namespace nnet;
void put(variable<double>* w, std::vector<double> v){ varptr<double> c=constant<double>::get(v, w->get_shape()); w->assign(c.get())(true); }
int main(){
  auto mk=[](const char* n){ variable<double>* v=new variable<double>(tensorshape(std::vector<size_t>{2,2}), *new rand_uniform<double>(-1,1), n); v->initialize(); return v; };
  for (int k=0;k<8;++k) {
  variable<double>* xv=mk("x"); varptr<double> x=xv; varptr<double> w1=mk("w1"), w2=mk("w2"), w3=mk("w3");
  varptr<double> q;
  varptr<double> m1=matmul<double>(x,w1);
  if(k==0) q = m1 + x;
  if(k==1) { varptr<double> s=sin<double>(m1); q = s + matmul<double>(s,w2); }
  if(k==2) { q = (m1 + matmul<double>(x,w2)) + matmul<double>(x,w3); }
  if(k==3) { q = m1 + matmul<double>(x,w2); }
  if(k==4) { q = matmul<double>(sin<double>(m1),w2)*m1; }
  if(k==5) { q = sin<double>(m1)*m1; }
  if(k==6) { varptr<double> s=sin<double>(m1+matmul<double>(x,w2)); q = matmul<double>(s,w3); }
  if(k==7) { q = matmul<double>(x,x); }
  variable<double>* w=xv;
  try {
  inode<double>* g = q->derive(w);
  std::vector<double> G = expose<double>(g);
  std::cout << k << " bwd n=" << G.size() << " err ";
  std::vector<double> X = expose<double>(w);
  double worst=0;
  for (size_t i=0;i<X.size();++i) { double e=1e-6; auto sum=[&]{double s=0; for(double d: expose<double>(q)) s+=d; return s;};
    std::vector<double> Z=X; Z[i]+=e; put(w,Z); double a=sum(); Z[i]-=2*e; put(w,Z); double b=sum(); put(w,X);
    double n=(a-b)/(2*e); worst=std::max(worst, std::abs(n-G[i%G.size()])); }
  std::cout << worst << std::endl;
  } catch (std::exception& e) { std::cout << k << " EXC " << e.what() << std::endl; }
  }
}
