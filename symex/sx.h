// Harness interface. Under the symbolic executor (__SYMEX__) every __sx_*
// function is interpreted; natively it is implemented by native_rt.cpp, which
// replays a counterexample.
#pragma once
#include <cstdint>
extern "C" {
double __sx_real(const char *name, double lo, double hi); // symbolic real in [lo,hi]
int __sx_int(const char *name, int lo, int hi);           // symbolic int in [lo,hi]
bool __sx_bool(const char *name);
int __sx_fork(int v);                  // concretises a symbolic int (one path per value)
void __sx_assume(bool c);
void __sx_check(bool c, const char *msg);
void __sx_check_eq(double a, double b, const char *msg);
void __sx_check_tol(double a, double b, double tol, const char *msg); // |a-b| <= tol, native slack as well
double __sx_uf(const char *name, int n, const double *args, int component);
double __sx_deriv(double y, double x); // symbolic only
int __sx_native();                     // 1 when replaying
int __sx_param(const char *name);      // concrete harness parameter
void __sx_expect_throw();
void __sx_note(const char *msg);
void __sx_same(double a, double b, const char *msg); // equal, no native slack
void __sx_printreal(const char *msg, double v);
bool __sx_issym(double v);
bool __sx_depends(double y, double x); // does y's expression mention x's variable
void __sx_scale(double s);             // magnitude of rounding noise the native replay ignores
}
