// thin interface to an incremental CDCL solver (minisat, compiled separately)
#pragma once
#include <vector>
struct SatIf;
SatIf* sat_new();
int  sat_newvar(SatIf*);                       // returns variable index
void sat_clause(SatIf*,const int* lits,int n); // literal = 2*var+sign
void sat_decision(SatIf*,int var,bool on);
int  sat_solve(SatIf*,const int* assume,int n,long conflicts); // 1 sat, 0 unsat, -1 budget exhausted
bool sat_value(SatIf*,int var);
void sat_polarity(SatIf*,int var,bool neg);
unsigned long long sat_conflicts(SatIf*);
