/* flat C interface to the library's public API, for the Python monitors' reference results */
#include "qpSWIFT.h"
long qpref_solve(long n, long m, long p, double *P, double *A, double *G, double *c, double *h, double *b, double *opt /* maxit,reltol,abstol,sigma,verbose or NULL */,
                 int order, double *x, double *y, double *z, double *s, double *st /* it,fval,n_rx,n_ry,n_rz,n_mu */) {
    QP *q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, NULL, order ? COLUMN_MAJOR_ORDERING : ROW_MAJOR_ORDERING);
    long f, i;
    if (opt) { q->options->maxit = (long)opt[0]; q->options->reltol = opt[1]; q->options->abstol = opt[2]; q->options->sigma = opt[3]; q->options->verbose = (long)opt[4]; }
    f = QP_SOLVE(q);
    for (i = 0; i < n; i++) x[i] = q->x[i];
    for (i = 0; i < m; i++) { z[i] = q->z[i]; s[i] = q->s[i]; }
    if (p > 0 && A && b) for (i = 0; i < p; i++) y[i] = q->y[i];
    st[0] = (double)q->stats->IterationCount; st[1] = q->stats->fval; st[2] = q->stats->n_rx; st[3] = q->stats->n_ry; st[4] = q->stats->n_rz; st[5] = q->stats->n_mu;
    QP_CLEANUP_dense(q);
    return f;
}
void qpref_defaults(double *opt) {
    double one = 1; QP *q = QP_SETUP_dense(1, 1, 0, &one, 0, &one, &one, &one, 0, NULL, ROW_MAJOR_ORDERING);
    opt[0] = (double)q->options->maxit; opt[1] = q->options->reltol; opt[2] = q->options->abstol; opt[3] = q->options->sigma; opt[4] = (double)q->options->verbose;
    QP_CLEANUP_dense(q);
}
