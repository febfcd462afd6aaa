// Hash-consed symbolic expression DAG. Every value is a bit pattern (width in bits);
// floating-point operations are nodes over bit patterns, interpreted at query time.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/Hashing.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using llvm::APInt;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t
{
    OConst, OSym, OUndef,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle,
    OIte, OConcat /*k0=hi,k1=lo*/, OExtract /*aux=lo*/, OZExt, OSExt,
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFNeg, OFAbs, OFSqrt, OFma,
    OFCmp /*aux: 0=oeq 1=olt 2=ole 3=uno*/, OFRound /*aux mode*/,
    OFPToSI, OFPToUI, OSIToFP, OUIToFP, OFPExt, OFPTrunc,
    OXAddR, OXMulR, // exact-real reference ops (no rounding in the relational encoding)
    OFun /*aux = function name id*/,
    ONumOps
};
extern const char* opName[];
enum Rnd { RFloor, RCeil, RTrunc, RNearInt /*ties even*/, RRoundAway };

struct Expr
{
    Op op;
    uint8_t nk;
    uint16_t w;
    u32 aux;
    u32 id;
    const Expr* k[3];
    APInt* c; // OConst
};

struct SymInfo
{
    std::string name;
    unsigned w;
    bool isF;
    bool ranged;
    double lo, hi;
    int order;
};
extern std::vector<SymInfo> syms;
extern std::vector<std::string> funNames;
u32 funId(const std::string& s);

struct Val
{
    const Expr* e = nullptr;
    u64 c         = 0;
    unsigned w    = 0;
    bool isC() const { return e == nullptr || e->op == OConst; }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val mkc(unsigned w, u64 c);
const Expr* mkConst(const APInt& a);
Val fromAP(const APInt& a);
APInt toAP(const Val& v);
const Expr* toExpr(const Val& v);
Val fromExpr(const Expr* e);
static inline Val mkc(unsigned w, u64 c)
{
    if (w > 64)
        return fromAP(APInt(w, c));
    Val v;
    v.c = c & maskw(w);
    v.w = w;
    return v;
}
Val mkSym(const std::string& name, unsigned w, bool isF, bool ranged = false, double lo = 0, double hi = 0);
Val mkUndef(unsigned w);

Val vBin(Op op, const Val& a, const Val& b);
Val vNot(const Val& a);
Val vIte(const Val& c, const Val& a, const Val& b);
Val vConcat(const Val& hi, const Val& lo);
Val vExtract(const Val& a, unsigned lo, unsigned w);
Val vZExt(const Val& a, unsigned w);
Val vSExt(const Val& a, unsigned w);
Val vTrunc(const Val& a, unsigned w);
Val vFBin(Op op, const Val& a, const Val& b);
Val vFUn(Op op, const Val& a);
Val vFma(const Val& a, const Val& b, const Val& c);
Val vFCmp(unsigned kind, const Val& a, const Val& b);
Val vFRound(unsigned mode, const Val& a);
Val vFCvt(Op op, const Val& a, unsigned w);
Val vFun(const std::string& name, const std::vector<Val>& args, unsigned w);
static inline Val vEq(const Val& a, const Val& b) { return vBin(OEq, a, b); }
static inline Val vAnd1(const Val& a, const Val& b) { return vBin(OAnd, a, b); }
static inline Val vOr1(const Val& a, const Val& b) { return vBin(OOr, a, b); }

// concrete helpers
static inline float bf32(u64 b) { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; }
static inline double bf64(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static inline u64 fb32(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 fb64(double f) { u64 x; memcpy(&x, &f, 8); return x; }

// evaluation under an assignment of symbols
typedef std::unordered_map<u32, APInt> Assign; // sym id -> value (missing = 0)
struct Evaluator
{
    const Assign& m;
    std::unordered_map<const Expr*, APInt> memo;
    explicit Evaluator(const Assign& m) : m(m) {}
    APInt eval(const Expr* e);
    bool truth(const Expr* e) { return eval(e).getBoolValue(); }
};
const std::vector<u32>& symsOf(const Expr* e);
size_t exprCount();
APInt symDefault(u32 sym);
double hostFun(const std::string& n, const std::vector<double>& a, bool f32, bool& ok);
std::string exprStr(const Expr* e, int depth = 6);
