#pragma once
#include "expr.h"
#include <chrono>
#include <map>
#include <memory>
#include <functional>
enum Res { RUnsat, RSat, RUnknown };
struct SolverStats
{
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, ufUnsat = 0, exactFP = 0, lra = 0;
    double time = 0;
};
extern SolverStats SS;
extern unsigned queryTimeoutMs;
// satisfiability of the conjunction of cons; model contains only involved symbols
Res solve(const std::vector<const Expr*>& cons, Assign& model);

// ---- real relaxation
struct CloseResult
{
    Res res;          // RUnsat: holds; RSat: candidate corner in model; RUnknown
    double bound;     // err bound used
    double maxdev;    // max |poly difference| over box
    Assign corner;
    std::string why;
};
CloseResult closeCheck(const Expr* a, const Expr* ref, const Expr* const* lv, const double* lc, size_t ln, double tol);
struct Poly;

// ---- adaptive Taylor models (taylor.cpp)
struct FnResult
{
    Res res = RUnknown;
    Assign corner;
    double got = 0, want = 0, worst = 0;
    size_t boxes = 0, leaves = 0, points = 0;
    std::string why;
};
FnResult decideFn(const Expr* a, const Expr* ref, double abstol, double reltol, unsigned maxBoxes = 300000);
