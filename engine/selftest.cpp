// random check of the comparison rewriting in expr.h: g++ -O1 -std=c++20 selftest.cpp -lz3 && ./a.out
#include "expr.h"
ExprPool X;
#include <random>
int main(){ std::mt19937_64 r(7); long n=0,app=0; for(int it=0;it<300000;++it){ X.tab.clear(); X.arena.clear(); X.vars.clear(); int nv=1+r()%3; Model m; std::vector<E> at; unsigned W=(r()%2)?64:32; for(int i=0;i<nv;++i){unsigned w=1+r()%14; X.vars.push_back({"x",w}); m.push_back(r()%4?r()&maskw(w):(r()%2?0:maskw(w))); at.push_back(X.raw(XZEXT,W,0,X.var(i)));}
 auto mk=[&](auto&self,int d)->std::pair<E,uint64_t>{ // raw expression and its true value
  int k=d<=0?r()%2:r()%5; if(k==0){int64_t c=(int64_t)(r()%64)-32; if(r()%6==0)c=(int64_t)r(); return {X.konst(W,c),(uint64_t)c&maskw(W)};} if(k==1){int i=r()%nv; return {at[i],m[i]};}
  auto a=self(self,d-1),b=self(self,d-1); if(k==4){int64_t c=(int64_t)(r()%9)-4; return {X.raw(XMUL,W,0,a.first,X.konst(W,c)),(a.second*(uint64_t)c)&maskw(W)};} if(k==2)return {X.raw(XADD,W,0,a.first,b.first),(a.second+b.second)&maskw(W)}; return {X.raw(XSUB,W,0,a.first,b.first),(a.second-b.second)&maskw(W)}; };
 auto a=mk(mk,3),b=mk(mk,3); Evaluator ev; for(int op=XEQ;op<=XSLE;++op){ E q=mkLinCmp((XOp)op,a.first,b.first); uint64_t want=foldBin((XOp)op,W,a.second,b.second); ++n; if(q){++app; if(ev.eval(q,m)!=want){printf("BAD op %d\n",op);return 1;}} E f=mkBin((XOp)op,a.first,b.first); if(ev.eval(f,m)!=want){printf("BAD mkBin %d\n",op);return 1;} if(ev.eval(mkNot(f),m)==want){printf("BAD not\n");return 1;} } }
 printf("ok %ld applied %ld\n",n,app);}
