// Stand-in for the HSL routine MA57 (not available here): the same calling sequence, a dense Bunch-Kaufman factorization (LAPACK) behind it.
// Duplicate entries are summed, as MA57 does; anything the library gets wrong about the calling sequence ends the run.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
extern "C" { void dsytrf_(const char*, const int*, double*, const int*, int*, double*, const int*, int*); void dsytrs_(const char*, const int*, const int*, const double*, const int*, const int*, double*, const int*, int*); }
#define REQ(c, what) do { if(!(c)) { fprintf(stderr, "MA57 stand-in: Assertion `%s' failed: %s\n", #c, what); abort(); } } while(0)
static int inertia(const double* M, const int* ip, int n, bool& sing)   // lower triangle by columns
{
  int neg = 0; sing = false;
  for(int k = 0; k < n; k++) {
    if(ip[k] > 0) { double d = M[k*n+k]; if(!(std::fabs(d) > 1e-14)) sing = true; if(d < 0) neg++; }
    else { double a = M[k*n+k], b = M[k*n+k+1], c = M[(k+1)*n+k+1], t = std::fabs(b), d = a/t*c-t; if(!(std::fabs(d) > 1e-14) || !(t > 1e-14)) sing = true; neg += d < 0 ? 1 : a+c < 0 ? 2 : 0; k++; }
  }
  return neg;
}
extern "C" {
void ma57id_(double* cntl, int* icntl) { for(int i = 0; i < 5; i++) cntl[i] = 0; for(int i = 0; i < 20; i++) icntl[i] = 0; cntl[0] = 0.01; cntl[1] = 1e-20; icntl[8] = 10; }
void ma57ad_(int* n, int* ne, int* irn, int* jcn, int* lkeep, int* keep, int* iwork, int* icntl, int* info, double* rinfo)
{
  REQ(*n > 0 && *ne >= 0, "sizes"); REQ(*lkeep >= 5**n+*ne+(*n > *ne ? *n : *ne)+42, "lkeep"); for(int i = 0; i < 40; i++) info[i] = 0;
  for(int k = 0; k < *ne; k++) REQ(irn[k] >= 1 && irn[k] <= *n && jcn[k] >= 1 && jcn[k] <= *n, "index out of range");
  keep[0] = *n; keep[1] = *ne; memcpy(keep+2, irn, *ne*sizeof(int)); memcpy(keep+2+*ne, jcn, *ne*sizeof(int)); for(int i = 0; i < 5**n; i++) iwork[i] = 0;
  info[8] = *n**n+8; info[9] = *n+8;
}
void ma57bd_(int* n, int* ne, double* a, double* fact, int* lfact, int* ifact, int* lifact, int* lkeep, int* keep, int* ppos, int* icntl, double* cntl, int* info, double* rinfo)
{
  REQ(keep[0] == *n && keep[1] == *ne, "not the analysed pattern"); REQ(*lfact >= *n**n && *lifact >= *n, "space"); for(int i = 0; i < 40; i++) info[i] = 0;
  int N = *n; for(int i = 0; i < N*N; i++) fact[i] = 0; bool nan = false;
  for(int k = 0; k < *ne; k++) { int i = keep[2+k]-1, j = keep[2+*ne+k]-1; if(i < j) std::swap(i, j); fact[j*N+i] += a[k]; nan = nan || !std::isfinite(a[k]); }
  double w; int lw = -1, inf; dsytrf_("L", n, fact, n, ifact, &w, &lw, &inf); lw = (int)w; std::vector<double> W(lw); dsytrf_("L", n, fact, n, ifact, W.data(), &lw, &inf);
  bool sing = nan || inf > 0; if(!sing) info[23] = inertia(fact, ifact, N, sing); info[24] = N; if(sing) { info[0] = 4; info[24] = N-1; }
}
void ma57dd_(int* job, int* n, int* ne, double* a, int* irn, int* jcn, double* fact, int* lfact, int* ifact, int* lifact, double* rhs, double* x, double* resid, double* w, int* iw, int* icntl, double* cntl, int* info, double* rinfo)
{
  REQ(*job == 1, "job"); int N = *n, one = 1, inf; info[0] = 0; std::vector<double> b(rhs, rhs+N), r(b); dsytrs_("L", n, &one, fact, n, ifact, r.data(), n, &inf); std::vector<double> s(r);
  for(int it = 0; it < icntl[8]; it++) { r = b; for(int k = 0; k < *ne; k++) { int i = irn[k]-1, j = jcn[k]-1; r[i] -= a[k]*s[j]; if(i != j) r[j] -= a[k]*s[i]; } memcpy(resid, r.data(), N*sizeof(double)); dsytrs_("L", n, &one, fact, n, ifact, r.data(), n, &inf); for(int i = 0; i < N; i++) s[i] += r[i]; }
  memcpy(x, s.data(), N*sizeof(double));
}
void ma57cd_(int* job, int* n, double* fact, int* lfact, int* ifact, int* lifact, int* nrhs, double* rhs, int* lrhs, double* w, int* lw, int* iw1, int* icntl, int* info)
{ int inf; info[0] = 0; dsytrs_("L", n, nrhs, fact, n, ifact, rhs, lrhs, &inf); }
void ma57ed_(int* n, int* ic, int* keep, double* fact, int* lfact, double* newfac, int* lnew, int* ifact, int* lifact, int* newifc, int* linew, int* info) { REQ(false, "not reached: the forecast space suffices"); }
}
