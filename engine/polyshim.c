/* Thin C shim over libisl (the polyhedral library gcc itself uses; no headers are
 * installed, so the few prototypes needed are declared here).  It gives the abstract
 * interpreter its convex-polyhedra domain operations: emptiness, projection, hull. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>

typedef struct isl_ctx isl_ctx;
typedef struct isl_space isl_space;
typedef struct isl_mat isl_mat;
typedef struct isl_val isl_val;
typedef struct isl_basic_set isl_basic_set;
typedef struct isl_set isl_set;
enum isl_dim_type { isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div, isl_dim_all };
#define isl_dim_set isl_dim_out
isl_ctx *isl_ctx_alloc(void);
void isl_ctx_free(isl_ctx *);
int isl_options_set_on_error(isl_ctx *, int);
void isl_ctx_set_max_operations(isl_ctx *, unsigned long);
void isl_ctx_reset_operations(isl_ctx *);
void isl_ctx_reset_error(isl_ctx *);
isl_space *isl_space_set_alloc(isl_ctx *, unsigned, unsigned);
isl_mat *isl_mat_alloc(isl_ctx *, unsigned, unsigned);
isl_mat *isl_mat_set_element_val(isl_mat *, int, int, isl_val *);
isl_mat *isl_mat_set_element_si(isl_mat *, int, int, int);
isl_val *isl_mat_get_element_val(isl_mat *, int, int);
int isl_mat_rows(isl_mat *);
int isl_mat_cols(isl_mat *);
isl_mat *isl_mat_free(isl_mat *);
isl_val *isl_val_int_from_si(isl_ctx *, long);
isl_val *isl_val_int_from_chunks(isl_ctx *, size_t, size_t, const void *);
isl_val *isl_val_neg(isl_val *);
int isl_val_is_neg(isl_val *);
int isl_val_is_int(isl_val *);
long isl_val_n_abs_num_chunks(isl_val *, size_t);
int isl_val_get_abs_num_chunks(isl_val *, size_t, void *);
isl_val *isl_val_free(isl_val *);
isl_basic_set *isl_basic_set_from_constraint_matrices(isl_space *, isl_mat *, isl_mat *, enum isl_dim_type,
                                                      enum isl_dim_type, enum isl_dim_type, enum isl_dim_type);
isl_mat *isl_basic_set_equalities_matrix(isl_basic_set *, enum isl_dim_type, enum isl_dim_type, enum isl_dim_type,
                                         enum isl_dim_type);
isl_mat *isl_basic_set_inequalities_matrix(isl_basic_set *, enum isl_dim_type, enum isl_dim_type, enum isl_dim_type,
                                           enum isl_dim_type);
int isl_basic_set_is_empty(isl_basic_set *);
isl_basic_set *isl_basic_set_free(isl_basic_set *);
isl_basic_set *isl_basic_set_copy(isl_basic_set *);
isl_basic_set *isl_basic_set_project_out(isl_basic_set *, enum isl_dim_type, unsigned, unsigned);
isl_basic_set *isl_basic_set_remove_divs(isl_basic_set *);
isl_basic_set *isl_basic_set_remove_redundancies(isl_basic_set *);
isl_basic_set *isl_basic_set_detect_equalities(isl_basic_set *);
isl_set *isl_set_from_basic_set(isl_basic_set *);
isl_set *isl_set_union(isl_set *, isl_set *);
isl_set *isl_set_copy(isl_set *);
isl_set *isl_set_free(isl_set *);
isl_set *isl_set_coalesce(isl_set *);
int isl_set_n_basic_set(isl_set *);
isl_basic_set *isl_set_convex_hull(isl_set *);
isl_basic_set *isl_set_simple_hull(isl_set *);
isl_basic_set *isl_set_affine_hull(isl_set *);
isl_basic_set *isl_basic_set_intersect(isl_basic_set *, isl_basic_set *);
isl_val *isl_basic_set_dim_max_val(isl_basic_set *, int);
isl_val *isl_set_dim_max_val(isl_set *, int);
isl_val *isl_set_dim_min_val(isl_set *, int);

typedef struct { int64_t hi; uint64_t lo; } i128; /* two's complement 128 bit */
static isl_ctx *ctx;

static void init(void)
{
    if (!ctx)
    {
        ctx = isl_ctx_alloc();
        isl_options_set_on_error(ctx, 1 /* continue */);
    }
}

static isl_mat *put(isl_mat *m, int r, int c, i128 v)
{
    if ((v.hi == 0 && v.lo < 0x40000000) || (v.hi == -1 && (int64_t)v.lo < 0 && (int64_t)v.lo > -0x40000000))
        return isl_mat_set_element_si(m, r, c, (int)(int64_t)v.lo);
    if ((v.hi == 0 && !(v.lo >> 63)) || (v.hi == -1 && (v.lo >> 63)))
        return isl_mat_set_element_val(m, r, c, isl_val_int_from_si(ctx, (long)v.lo));
    unsigned __int128 u = ((unsigned __int128)(uint64_t)v.hi << 64) | v.lo;
    int neg = v.hi < 0;
    if (neg) u = -u;
    uint64_t ch[2] = { (uint64_t)u, (uint64_t)(u >> 64) };
    isl_val *val = isl_val_int_from_chunks(ctx, 2, 8, ch);
    if (neg) val = isl_val_neg(val);
    return isl_mat_set_element_val(m, r, c, val);
}

/* rows of (const, x_0..x_{n-1}); first neq rows are equalities */
static isl_basic_set *build(int n, int neq, int nineq, const i128 *d)
{
    isl_mat *e = isl_mat_alloc(ctx, neq, n + 1), *q = isl_mat_alloc(ctx, nineq, n + 1);
    int r, c;
    for (r = 0; r < neq; ++r)
        for (c = 0; c <= n; ++c) e = put(e, r, c, d[r * (n + 1) + c]);
    for (r = 0; r < nineq; ++r)
        for (c = 0; c <= n; ++c) q = put(q, r, c, d[(neq + r) * (n + 1) + c]);
    return isl_basic_set_from_constraint_matrices(isl_space_set_alloc(ctx, 0, n), e, q, isl_dim_cst, isl_dim_set,
                                                  isl_dim_param, isl_dim_div);
}

static unsigned long MAXOPS = 0;
void ps_max_ops(unsigned long n) { MAXOPS = n; }
static void arm(void)
{
    init();
    isl_ctx_reset_error(ctx);
    isl_ctx_set_max_operations(ctx, MAXOPS);
    isl_ctx_reset_operations(ctx);
}

/* some of isl's paths dereference null when the operation limit stops them: that is a result that was not obtained */
static sigjmp_buf back;
static volatile sig_atomic_t inside;
static void crashed(int sig)
{
    if (inside) siglongjmp(back, 1);
    signal(sig, SIG_DFL);
    raise(sig);
}
static void guard(void)
{
    static int done;
    if (!done)
    {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_handler = crashed;
        a.sa_flags = SA_NODEFER;
        sigaction(SIGSEGV, &a, NULL);
        done = 1;
    }
}
#define GUARDED(call) \
    int r_; \
    guard(); \
    if (sigsetjmp(back, 1)) { inside = 0; ctx = NULL; return -1; } \
    inside = 1; \
    r_ = call; \
    inside = 0; \
    return r_

/* 1 empty, 0 not, -1 gave up */
static int do_ps_empty(int n, int neq, int nineq, const i128 *d)
{
    arm();
    isl_basic_set *b = build(n, neq, nineq, d);
    if (!b) return -1;
    int r = isl_basic_set_is_empty(b);
    isl_basic_set_free(b);
    return r;
}

static int get(isl_mat *m, int r, int c, i128 *out)
{
    isl_val *v = isl_mat_get_element_val(m, r, c);
    uint64_t ch[2] = { 0, 0 };
    long k = isl_val_n_abs_num_chunks(v, 8);
    if (k > 2) { isl_val_free(v); return -1; }
    isl_val_get_abs_num_chunks(v, 8, ch);
    if (k < 2) ch[1] = 0;
    if (k < 1) ch[0] = 0;
    if (ch[1] >> 62) { isl_val_free(v); return -1; }
    unsigned __int128 u = ((unsigned __int128)ch[1] << 64) | ch[0];
    if (isl_val_is_neg(v)) u = -u;
    out->lo = (uint64_t)u;
    out->hi = (int64_t)(uint64_t)(u >> 64);
    isl_val_free(v);
    return 0;
}

/* writes constraints of b; returns 0, -1 on failure. *neq,*nineq set; caller gives capacity in rows */
static int dump(isl_basic_set *b, int n, int cap, int *neq, int *nineq, i128 *out)
{
    b = isl_basic_set_remove_divs(b);
    b = isl_basic_set_remove_redundancies(b);
    if (!b) return -1;
    int none = isl_basic_set_is_empty(b);
    if (none < 0) return -1;
    if (none) { isl_basic_set_free(b); *neq = -1; *nineq = 0; return 0; }
    isl_mat *e = isl_basic_set_equalities_matrix(b, isl_dim_cst, isl_dim_set, isl_dim_param, isl_dim_div);
    isl_mat *q = isl_basic_set_inequalities_matrix(b, isl_dim_cst, isl_dim_set, isl_dim_param, isl_dim_div);
    isl_basic_set_free(b);
    int bad = 0, r, c;
    if (!e || !q) return -1;
    *neq = isl_mat_rows(e);
    *nineq = isl_mat_rows(q);
    if (*neq < 0 || *nineq < 0) return -1;
    if (*neq + *nineq > cap || isl_mat_cols(e) < n + 1) bad = 1;
    for (r = 0; !bad && r < *neq; ++r)
        for (c = 0; c <= n; ++c) if (get(e, r, c, out + r * (n + 1) + c)) bad = 1;
    for (r = 0; !bad && r < *nineq; ++r)
        for (c = 0; c <= n; ++c) if (get(q, r, c, out + (*neq + r) * (n + 1) + c)) bad = 1;
    isl_mat_free(e);
    isl_mat_free(q);
    return bad ? -1 : 0;
}

/* project onto the first keep dims */
static int do_ps_project(int n, int keep, int neq, int nineq, const i128 *d, int cap, int *oe, int *oi, i128 *out)
{
    arm();
    isl_basic_set *b = build(n, neq, nineq, d);
    if (!b) return -1;
    if (keep < n) b = isl_basic_set_project_out(b, isl_dim_set, keep, n - keep);
    if (!b) return -1;
    return dump(b, keep, cap, oe, oi, out);
}

/* hull of two sets over n dims. mode 0 convex hull, 1 simple hull intersected with affine hull,
 * 2 exact only: succeeds (0) if the union coalesces to one basic set, else 1 */
static int do_ps_hull(int n, int e1, int i1, const i128 *d1, int e2, int i2, const i128 *d2, int mode, int cap, int *oe, int *oi,
            i128 *out)
{
    arm();
    isl_basic_set *a = build(n, e1, i1, d1), *b = build(n, e2, i2, d2);
    if (!a || !b) return -1;
    isl_set *s = isl_set_union(isl_set_from_basic_set(a), isl_set_from_basic_set(b));
    isl_basic_set *h;
    if (mode == 2)
    {
        s = isl_set_coalesce(s);
        if (!s) return -1;
        int k = isl_set_n_basic_set(s);
        if (k > 1) { isl_set_free(s); return 1; }
        h = isl_set_simple_hull(s);
    }
    else if (mode == 0)
        h = isl_set_convex_hull(s);
    else
    {
        isl_basic_set *af = isl_set_affine_hull(isl_set_copy(s));
        h = isl_set_simple_hull(s);
        if (!h || !af) return -1;
        h = isl_basic_set_intersect(h, af);
    }
    if (!h) return -1;
    return dump(h, n, cap, oe, oi, out);
}

/* max (sign=1) / min (sign=-1) of dim 0: returns 0 finite (value in out), 1 unbounded, 2 empty, -1 failure */
static int do_ps_opt(int n, int neq, int nineq, const i128 *d, int sign, i128 *o)
{
    arm();
    isl_basic_set *b = build(n, neq, nineq, d);
    if (!b) return -1;
    int none = isl_basic_set_is_empty(b);
    if (none < 0) return -1;
    if (none) { isl_basic_set_free(b); return 2; }
    isl_set *s = isl_set_from_basic_set(b);
    isl_val *v = sign > 0 ? isl_set_dim_max_val(s, 0) : isl_set_dim_min_val(s, 0);
    if (!v) return -1;
    if (!isl_val_is_int(v)) { isl_val_free(v); return 1; }
    isl_mat *m = isl_mat_alloc(ctx, 1, 1);
    m = isl_mat_set_element_val(m, 0, 0, v);
    int r = get(m, 0, 0, o);
    isl_mat_free(m);
    return r ? -1 : 0;
}
int ps_empty(int n, int neq, int nineq, const i128 *d)
{
    GUARDED(do_ps_empty(n, neq, nineq, d));
}
int ps_project(int n, int keep, int neq, int nineq, const i128 *d, int cap, int *oe, int *oi, i128 *out)
{
    GUARDED(do_ps_project(n, keep, neq, nineq, d, cap, oe, oi, out));
}
int ps_hull(int n, int e1, int i1, const i128 *d1, int e2, int i2, const i128 *d2, int mode, int cap, int *oe, int *oi,
            i128 *out)
{
    GUARDED(do_ps_hull(n, e1, i1, d1, e2, i2, d2, mode, cap, oe, oi, out));
}
int ps_opt(int n, int neq, int nineq, const i128 *d, int sign, i128 *o)
{
    GUARDED(do_ps_opt(n, neq, nineq, d, sign, o));
}
