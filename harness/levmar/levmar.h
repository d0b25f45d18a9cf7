// Stand-in for the levmar library: the harness decides what the minimization evaluates and returns.
#ifndef LEVMAR_H
#define LEVMAR_H
#define LM_DIF_WORKSZ(npar, nmeas) (4 * (nmeas) + 4 * (npar) + (nmeas) * (npar) + (npar) * (npar))
#define LM_INFO_SZ 10
#define LM_OPTS_SZ 5
#define LM_ERROR -1
int dlevmar_dif(void (*func)(double* p, double* hx, int m, int n, void* adata), double* p, double* x, int m, int n, int itmax, double* opts, double* info, double* work, double* covar, void* adata);
#endif
