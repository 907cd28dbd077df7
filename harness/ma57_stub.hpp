// Control of and counters for the stand-in sparse linear solver (ma57_stub.cpp).
#ifndef VF_MA57_HPP
#define VF_MA57_HPP
struct LinCtl {
  double zero;                 // pivots below zero*max|entry| count as zero
  bool reversed, blocks;       // order in which zero pivots are reported; factor split into two fronts
  long factorCalls, solveCalls, analyseCalls, singular, wrongDim, nonzeros, lower, upper, twoByTwo; // counters
  long failAt, failKind, failed; // n-th call (factorisation for kinds 0..3, solve for 4) fails: 0 analyse error, 1 factorise error with untouched output, 2 "singular" with rank n-1, 3 one negative eigenvalue too many, 4 solve error
};
extern LinCtl linCtl;
void linReset();
#endif
