// Problem data as matrix objects of every class, with private exact-size storage.
#ifndef VF_REPS_HPP
#define VF_REPS_HPP
#include "common.hpp"
namespace vf {
struct Mats {
  SymmetricMatrix* H; Matrix* A; vec hv, av; std::vector<sparse_int_t> hr, hc, ar, ac; int hk, ak, hn; // storage behind the objects
  Mats() : H(0), A(0), hk(0), ak(0), hn(0) {}
  ~Mats() { delete H; delete A; }
  // hk: 0 none, 1 dense, 2 sparse from dense, 3 sparse arrays (explicit zeros possible), 4 dense with padded rows; ak: 0 none, 1 dense, 2 sparse column, 3 sparse column arrays, 4 sparse row, 5 sparse row arrays, 6 dense with padded rows
  void setH(Rng& r, const Prob& p, int kind, double pz) { hk = kind; int n = p.n; hn = n; delete H; H = 0; hv.clear(); hr.clear(); hc.clear();
    if (kind == 1) { hv = p.H; H = new SymDenseMat(n, n, n, &hv[0]); }
    else if (kind == 4) { int ld = n + r.range(1, 4); hv.assign((size_t)(n - 1) * ld + n, 1e7); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) hv[(size_t)i * ld + j] = p.H[i * n + j]; H = new SymDenseMat(n, n, ld, &hv[0]); }
    else if (kind == 2) { H = new SymSparseMat(n, n, n, &p.H[0]); ((SymSparseMat*)H)->createDiagInfo(); }
    else if (kind == 3) { for (int j = 0; j < n; ++j) { hc.push_back((sparse_int_t)hv.size()); for (int i = 0; i < n; ++i) if (p.H[i * n + j] != 0 || i == j || r.chance(pz)) { hr.push_back(i); hv.push_back(p.H[i * n + j]); } } hc.push_back((sparse_int_t)hv.size()); if (hv.empty()) { hv.reserve(1); hr.reserve(1); } H = new SymSparseMat(n, n, hr.data(), &hc[0], hv.data()); ((SymSparseMat*)H)->createDiagInfo(); } }
  void setA(Rng& r, const Prob& p, int kind, double pz) { ak = kind; int n = p.n, m = p.m; delete A; A = 0; av.clear(); ar.clear(); ac.clear(); if (m == 0) { ak = 0; return; }
    if (kind == 1) { av = p.A; A = new DenseMatrix(m, n, n, &av[0]); }
    else if (kind == 6) { int ld = n + r.range(1, 4); av.assign((size_t)(m - 1) * ld + n, -1e7); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) av[(size_t)i * ld + j] = p.A[i * n + j]; A = new DenseMatrix(m, n, ld, &av[0]); }
    else if (kind == 2) A = new SparseMatrix(m, n, n, &p.A[0]);
    else if (kind == 4) A = new SparseMatrixRow(m, n, n, &p.A[0]);
    else if (kind == 3) { for (int j = 0; j < n; ++j) { ac.push_back((sparse_int_t)av.size()); for (int i = 0; i < m; ++i) if (p.A[i * n + j] != 0 || r.chance(pz)) { ar.push_back(i); av.push_back(p.A[i * n + j]); } } ac.push_back((sparse_int_t)av.size()); A = new SparseMatrix(m, n, ar.data(), &ac[0], av.data()); }
    else if (kind == 5) { for (int i = 0; i < m; ++i) { ar.push_back((sparse_int_t)av.size()); for (int j = 0; j < n; ++j) if (p.A[i * n + j] != 0 || r.chance(pz)) { ac.push_back(j); av.push_back(p.A[i * n + j]); } } ar.push_back((sparse_int_t)av.size()); A = new SparseMatrixRow(m, n, &ar[0], ac.data(), av.data()); } }
  void random(Rng& r, const Prob& p, bool needH) { double pz = r.chance(0.5) ? 0 : r.uni(0, 0.4); setH(r, p, needH ? r.range(1, 4) : 0, pz); setA(r, p, r.range(1, 6), pz); }
private: Mats(const Mats&); Mats& operator=(const Mats&);
};
inline const char* hkName(int k) { static const char* N[] = {"none", "dense", "sparse", "sparse-arrays", "dense-padded"}; return N[k]; }
inline const char* akName(int k) { static const char* N[] = {"none", "dense", "sparse", "sparse-arrays", "sparse-row", "sparse-row-arrays", "dense-padded"}; return N[k]; }
// user-supplied product of one constraint with the iterate
struct Product : public ConstraintProduct {
  int n, m; const double* A; mutable long calls; int failAt;
  Product(const Prob& p) : n(p.n), m(p.m), A(p.m ? &p.A[0] : 0), calls(0), failAt(-1) {}
  virtual int_t operator()(int_t c, const real_t* const x, real_t* const v) const { ++calls; if (c < 0 || c >= m) return 1; double s = 0; for (int j = 0; j < n; ++j) s += A[c * n + j] * x[j]; *v = s; return 0; }
};
} // namespace vf
#endif
