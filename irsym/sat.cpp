#include "minisat/core/Solver.h"
#include "sat.h"
using namespace Minisat;
struct SatIf { Solver s; };
SatIf* sat_new(){ SatIf* p=new SatIf; p->s.verbosity=0; p->s.garbage_frac=0.3; return p; }
int sat_newvar(SatIf* p){ return p->s.newVar(l_Undef,false); }
void sat_clause(SatIf* p,const int* l,int n){ vec<Lit> v; for(int i=0;i<n;i++) v.push(toLit(l[i])); p->s.addClause_(v); }
void sat_decision(SatIf* p,int v,bool on){ p->s.setDecisionVar(v,on); }
int sat_solve(SatIf* p,const int* a,int n,long c){ vec<Lit> v; for(int i=0;i<n;i++) v.push(toLit(a[i])); p->s.setConfBudget(c); lbool r=p->s.solveLimited(v); return r==l_True?1:r==l_False?0:-1; }
bool sat_value(SatIf* p,int v){ return p->s.modelValue(v)==l_True; }
void sat_polarity(SatIf* p,int v,bool neg){ p->s.setPolarity(v,neg?l_True:l_False); }
unsigned long long sat_conflicts(SatIf* p){ return p->s.conflicts; }
