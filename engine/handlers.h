// intrinsics, external functions and the harness API
static map<string, Handler> extH;
static map<unsigned, Handler> intrH;
static unsigned elemW(const DI& di, unsigned i) { return di.ws2.size() > i ? di.ws2[i] : 0; }

template <typename Fn>
static void lanes2(State& s, const DI& di, Val* dst, Fn f)
{
    const Val *a = OPV(0), *b = OPV(1);
    for (u32 i = 0; i < di.n; i++) dst[i] = f(a[i], b[i]);
}
template <typename Fn>
static void lanes1(State& s, const DI& di, Val* dst, Fn f)
{
    const Val* a = OPV(0);
    for (u32 i = 0; i < di.n; i++) dst[i] = f(a[i]);
}
template <typename Fn>
static void lanes3(State& s, const DI& di, Val* dst, Fn f)
{
    const Val *a = OPV(0), *b = OPV(1), *c = OPV(2);
    for (u32 i = 0; i < di.n; i++) dst[i] = f(a[i], b[i], c[i]);
}
static Val vSMin(const Val& a, const Val& b) { return vIte(vBin(OSlt, a, b), a, b); }
static Val vSMax(const Val& a, const Val& b) { return vIte(vBin(OSlt, b, a), a, b); }
static Val vUMin(const Val& a, const Val& b) { return vIte(vBin(OUlt, a, b), a, b); }
static Val vUMax(const Val& a, const Val& b) { return vIte(vBin(OUlt, b, a), a, b); }
static Val sMinV(unsigned w) { return fromAP(APInt::getSignedMinValue(w)); }
static Val sMaxV(unsigned w) { return fromAP(APInt::getSignedMaxValue(w)); }
static Val ovfS(Op op, const Val& a, const Val& b)
{
    unsigned w = a.w;
    unsigned e = op == OMul ? 2 * w : w + 1;
    Val x = vBin(op, vSExt(a, e), vSExt(b, e));
    return vNot(vEq(x, vSExt(vTrunc(x, w), e)));
}
static Val ovfU(Op op, const Val& a, const Val& b)
{
    unsigned w = a.w;
    unsigned e = op == OMul ? 2 * w : w + 1;
    Val x = vBin(op, vZExt(a, e), vZExt(b, e));
    return vNot(vEq(x, vZExt(vTrunc(x, w), e)));
}
static Val vSatS(Op op, const Val& a, const Val& b)
{
    unsigned w = a.w;
    Val x = vBin(op, vSExt(a, w + 1), vSExt(b, w + 1));
    Val lo = vSExt(sMinV(w), w + 1), hi = vSExt(sMaxV(w), w + 1);
    return vTrunc(vIte(vBin(OSlt, x, lo), lo, vIte(vBin(OSlt, hi, x), hi, x)), w);
}
static Val vSatU(Op op, const Val& a, const Val& b)
{
    unsigned w = a.w;
    Val r = vBin(op, a, b);
    if (op == OAdd) return vIte(vBin(OUlt, r, a), fromAP(APInt::getAllOnes(w)), r);
    return vIte(vBin(OUlt, a, b), fromAP(APInt(w, 0)), r);
}
static Val vCtpop(const Val& a)
{
    if (a.isC()) return fromAP(APInt(a.w, toAP(a).popcount()));
    Val r = fromAP(APInt(a.w, 0));
    for (unsigned i = 0; i < a.w; i++) r = vBin(OAdd, r, vZExt(vExtract(a, i, 1), a.w));
    return r;
}
static Val vCtlz(const Val& a)
{
    Val r = fromAP(APInt(a.w, a.w));
    for (unsigned i = 0; i < a.w; i++) r = vIte(vExtract(a, i, 1), fromAP(APInt(a.w, a.w - 1 - i)), r);
    return r;
}
static Val vCttz(const Val& a)
{
    Val r = fromAP(APInt(a.w, a.w));
    for (int i = a.w - 1; i >= 0; i--) r = vIte(vExtract(a, i, 1), fromAP(APInt(a.w, i)), r);
    return r;
}
static Val vBswap(const Val& a)
{
    Val r = vExtract(a, 0, 8);
    for (unsigned i = 8; i < a.w; i += 8) r = vConcat(r, vExtract(a, i, 8));
    return r;
}
static Val vBitrev(const Val& a)
{
    Val r = vExtract(a, 0, 1);
    for (unsigned i = 1; i < a.w; i++) r = vConcat(r, vExtract(a, i, 1));
    return r;
}
static Val vFsh(const Val& a, const Val& b, const Val& c, bool left)
{
    unsigned w = a.w;
    Val sh = vBin(OURem, c, fromAP(APInt(w, w)));
    Val x  = vConcat(a, b);
    Val s2 = vZExt(sh, 2 * w);
    if (left) return vExtract(vBin(OShl, x, s2), w, w);
    return vExtract(vBin(OLShr, x, s2), 0, w);
}
static Val fLt(const Val& a, const Val& b) { return vFCmp(1, a, b); }
static Val isNaNv(const Val& a) { return vFCmp(3, a, a); }

static void memsetH(State& s, u64 d, const Val& v, u64 n)
{
    if (!n) return;
    Obj* o = access(s, d, n, true);
    wr(*o);
    u64 b = d - o->base;
    if (v.isC())
    {
        memset(o->d->raw.data() + b, (int)v.c, n);
        if (!o->d->cells.empty())
            for (u64 i = 0; i < n; i++) o->d->cells[b + i].e = nullptr;
        return;
    }
    for (u64 i = 0; i < n; i++) storeBytes(*o, b + i, v);
}
static Val cplxDiv(const Val* v, int part)
{
    // (a+ib)/(c+id)
    Val a = v[0], b = v[1], c = v[2], d = v[3];
    Val den = vFBin(OFAdd, vFBin(OFMul, c, c), vFBin(OFMul, d, d));
    Val num = part == 0 ? vFBin(OFAdd, vFBin(OFMul, a, c), vFBin(OFMul, b, d))
                        : vFBin(OFSub, vFBin(OFMul, b, c), vFBin(OFMul, a, d));
    return vFBin(OFDiv, num, den);
}
#define H [](State& s, const DI& di, Val* dst)
static void initHandlers()
{
    using namespace Intrinsic;
    auto nop = H {};
    for (unsigned id : { lifetime_start, lifetime_end, dbg_declare, dbg_value, dbg_label, assume, prefetch,
                         experimental_noalias_scope_decl, invariant_start, invariant_end, var_annotation, donothing, sideeffect })
        intrH[id] = nop;
    intrH[trap] = H { addViolation(s, "trap", "trap executed", s.model->m); throw PathDone{}; };
    intrH[Intrinsic::memcpy] = intrH[Intrinsic::memmove] = intrH[memcpy_inline] = H {
        u64 n = conc(s, OP1(2)), d = conc(s, OP1(0)), p = conc(s, OP1(1));
        copyMem(s, d, p, n);
    };
    intrH[Intrinsic::memset] = H {
        u64 n = conc(s, OP1(2)), d = conc(s, OP1(0));
        memsetH(s, d, OP1(1), n);
    };
    intrH[smin] = H { lanes2(s, di, dst, vSMin); };
    intrH[smax] = H { lanes2(s, di, dst, vSMax); };
    intrH[umin] = H { lanes2(s, di, dst, vUMin); };
    intrH[umax] = H { lanes2(s, di, dst, vUMax); };
    intrH[Intrinsic::abs] = H { lanes1(s, di, dst, [](const Val& a) { return vIte(vBin(OSlt, a, fromAP(APInt(a.w, 0))), vBin(OSub, fromAP(APInt(a.w, 0)), a), a); }); };
    intrH[ctpop] = H { lanes1(s, di, dst, vCtpop); };
    intrH[ctlz] = H { lanes1(s, di, dst, vCtlz); };
    intrH[cttz] = H { lanes1(s, di, dst, vCttz); };
    intrH[bswap] = H { lanes1(s, di, dst, vBswap); };
    intrH[bitreverse] = H { lanes1(s, di, dst, vBitrev); };
    intrH[fshl] = H { lanes3(s, di, dst, [](const Val& a, const Val& b, const Val& c) { return vFsh(a, b, c, true); }); };
    intrH[fshr] = H { lanes3(s, di, dst, [](const Val& a, const Val& b, const Val& c) { return vFsh(a, b, c, false); }); };
    intrH[sadd_sat] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vSatS(OAdd, a, b); }); };
    intrH[ssub_sat] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vSatS(OSub, a, b); }); };
    intrH[uadd_sat] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vSatU(OAdd, a, b); }); };
    intrH[usub_sat] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vSatU(OSub, a, b); }); };
#define OVF(nm, f, op)                                                                                                 \
    intrH[nm] = H {                                                                                                    \
        u32 k = di.n / 2;                                                                                              \
        const Val *a = OPV(0), *b = OPV(1);                                                                            \
        vector<Val> t;                                                                                                 \
        for (u32 i = 0; i < k; i++) t.push_back(vBin(op, a[i], b[i]));                                                 \
        for (u32 i = 0; i < k; i++) t.push_back(f(op, a[i], b[i]));                                                    \
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];                                                                  \
    }
    OVF(sadd_with_overflow, ovfS, OAdd);
    OVF(ssub_with_overflow, ovfS, OSub);
    OVF(smul_with_overflow, ovfS, OMul);
    OVF(uadd_with_overflow, ovfU, OAdd);
    OVF(usub_with_overflow, ovfU, OSub);
    OVF(umul_with_overflow, ovfU, OMul);
    intrH[Intrinsic::fabs] = H { lanes1(s, di, dst, [](const Val& a) { return vFUn(OFAbs, a); }); };
    intrH[Intrinsic::sqrt] = H { lanes1(s, di, dst, [](const Val& a) { return vFUn(OFSqrt, a); }); };
    intrH[Intrinsic::floor] = H { lanes1(s, di, dst, [](const Val& a) { return vFRound(RFloor, a); }); };
    intrH[Intrinsic::ceil] = H { lanes1(s, di, dst, [](const Val& a) { return vFRound(RCeil, a); }); };
    intrH[Intrinsic::trunc] = H { lanes1(s, di, dst, [](const Val& a) { return vFRound(RTrunc, a); }); };
    intrH[Intrinsic::rint] = intrH[Intrinsic::nearbyint] = intrH[Intrinsic::roundeven] =
        H { lanes1(s, di, dst, [](const Val& a) { return vFRound(RNearInt, a); }); };
    intrH[Intrinsic::round] = H { lanes1(s, di, dst, [](const Val& a) { return vFRound(RRoundAway, a); }); };
    intrH[Intrinsic::fma] = H { lanes3(s, di, dst, vFma); };
    intrH[fmuladd] = H { lanes3(s, di, dst, [](const Val& a, const Val& b, const Val& c) {
        return hasFMA ? vFma(a, b, c) : vFBin(OFAdd, vFBin(OFMul, a, b), c); }); };
    intrH[Intrinsic::minnum] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vIte(isNaNv(a), b, vIte(isNaNv(b), a, vIte(fLt(b, a), b, a))); }); };
    intrH[Intrinsic::maxnum] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vIte(isNaNv(a), b, vIte(isNaNv(b), a, vIte(fLt(a, b), b, a))); }); };
    intrH[Intrinsic::copysign] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) {
        return vIte(vExtract(b, b.w - 1, 1), vFUn(OFNeg, vFUn(OFAbs, a)), vFUn(OFAbs, a)); }); };
#define FN(id, nm)                                                                                                     \
    intrH[id] = H { lanes1(s, di, dst, [](const Val& a) { return vFun(nm, { a }, a.w); }); }
    FN(Intrinsic::sin, "sin"); FN(Intrinsic::cos, "cos"); FN(Intrinsic::exp, "exp"); FN(Intrinsic::exp2, "exp2");
    FN(Intrinsic::log, "log"); FN(Intrinsic::log2, "log2"); FN(Intrinsic::log10, "log10");
    intrH[Intrinsic::pow] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vFun("pow", { a, b }, a.w); }); };
    intrH[is_fpclass] = H {
        u64 mask = OP1(1).c;
        lanes1(s, di, dst, [mask](const Val& a) {
            unsigned w = a.w;
            Val mag = w == 32 ? mkc(32, 0x7f800000) : mkc(64, 0x7ff0000000000000ull);
            Val ab  = vBin(OAnd, a, fromAP(APInt::getSignedMaxValue(w)));
            if (ab.e && ab.e->op == OFAbs) ab = fromExpr(ab.e);
            Val neg = vExtract(a, w - 1, 1);
            Val nan = vBin(OUlt, mag, ab), inf = vEq(ab, mag), zero = vEq(ab, mkc(w, 0));
            Val sub = vAnd1(vBin(OUlt, ab, w == 32 ? mkc(32, 0x800000) : mkc(64, 0x10000000000000ull)), vNot(zero));
            Val norm = vNot(vOr1(vOr1(nan, inf), vOr1(zero, sub)));
            Val r = mkc(1, 0);
            auto add = [&](unsigned bits, const Val& c) { if ((mask & bits) == bits) r = vOr1(r, c);  };
            add(3, nan);
            auto two = [&](unsigned nb, unsigned pb, const Val& c) {
                if (mask & nb) r = vOr1(r, vAnd1(c, neg));
                if (mask & pb) r = vOr1(r, vAnd1(c, vNot(neg)));
            };
            if ((mask & 3) == 1 || (mask & 3) == 2) throw Unsupported{ "is_fpclass snan" };
            two(4, 512, inf); two(8, 256, norm); two(16, 128, sub); two(32, 64, zero);
            return r;
        });
    };
    intrH[Intrinsic::ldexp] = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vFun("ldexp", { a, b }, a.w); }); };
    intrH[expect] = intrH[launder_invariant_group] = intrH[strip_invariant_group] = intrH[ssa_copy] = intrH[threadlocal_address] = intrH[expect_with_probability] =
        H { const Val* a = OPV(0); for (u32 i = 0; i < di.n; i++) dst[i] = a[i]; };
    intrH[is_constant] = H { dst[0] = mkc(1, 0); };
    intrH[objectsize] = H { dst[0] = fromAP(APInt::getAllOnes(di.ws[0])); };
    intrH[stacksave] = H { dst[0] = mkc(64, 0); };
    intrH[stackrestore] = nop;
    intrH[eh_typeid_for] = H { dst[0] = mkc(32, OP1(0).c & 0x7fffffff); };
    intrH[ptrmask] = H { dst[0] = vBin(OAnd, OP1(0), OP1(1)); };
#define RED(id, ex)                                                                                                    \
    intrH[id] = H {                                                                                                    \
        const Val* a = OPV(0);                                                                                         \
        Val r = a[0];                                                                                                  \
        for (u32 i = 1; i < di.ops[0].n; i++) { const Val& x = r; const Val& y = a[i]; r = ex; }                       \
        dst[0] = r;                                                                                                    \
    }
    RED(vector_reduce_add, vBin(OAdd, x, y)); RED(vector_reduce_mul, vBin(OMul, x, y));
    RED(vector_reduce_and, vBin(OAnd, x, y)); RED(vector_reduce_or, vBin(OOr, x, y));
    RED(vector_reduce_xor, vBin(OXor, x, y)); RED(vector_reduce_smax, vSMax(x, y));
    RED(vector_reduce_smin, vSMin(x, y)); RED(vector_reduce_umax, vUMax(x, y)); RED(vector_reduce_umin, vUMin(x, y));
    intrH[vector_reduce_fadd] = H {
        const Val* a = OPV(1);
        Val r = OP1(0);
        for (u32 i = 0; i < di.ops[1].n; i++) r = vFBin(OFAdd, r, a[i]);
        dst[0] = r;
    };
    intrH[masked_load] = H { // ptr, align, mask, passthru
        u64 p = conc(s, OP1(0));
        const Val *m = OPV(2), *pt = OPV(3);
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++)
        {
            if (m[i].isC()) t.push_back(m[i].c ? loadAt(s, p + i * (di.ws[i] / 8), di.ws[i]) : pt[i]);
            else { bool b = concBool(s, m[i]); t.push_back(b ? loadAt(s, p + i * (di.ws[i] / 8), di.ws[i]) : OPV(3)[i]); }
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    intrH[masked_store] = H { // val, ptr, align, mask
        u64 p = conc(s, OP1(1));
        for (u32 i = 0; i < di.ops[0].n; i++) concBool(s, OPV(3)[i]);
        for (u32 i = 0; i < di.ops[0].n; i++)
            if (concBool(s, OPV(3)[i])) storeAt(s, p + i * (OPV(0)[i].w / 8), OPV(0)[i]);
    };
    intrH[masked_gather] = H { // ptrs, align, mask, passthru
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) conc(s, OPV(0)[i]), concBool(s, OPV(2)[i]);
        for (u32 i = 0; i < di.n; i++) t.push_back(concBool(s, OPV(2)[i]) ? loadAt(s, conc(s, OPV(0)[i]), di.ws[i]) : OPV(3)[i]);
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    intrH[masked_scatter] = H { // val, ptrs, align, mask
        for (u32 i = 0; i < di.ops[0].n; i++) conc(s, OPV(1)[i]), concBool(s, OPV(3)[i]);
        for (u32 i = 0; i < di.ops[0].n; i++)
            if (concBool(s, OPV(3)[i])) storeAt(s, conc(s, OPV(1)[i]), OPV(0)[i]);
    };
    // ------------------------------------------------------------ x86
    auto X = [&](const char* n, Handler h) { extH[string("llvm.x86.") + n] = h; };
    Handler fmn = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vIte(fLt(a, b), a, b); }); };
    Handler fmx = H { lanes2(s, di, dst, [](const Val& a, const Val& b) { return vIte(fLt(b, a), a, b); }); };
    for (auto n : { "sse.min.ps", "sse2.min.pd", "avx.min.ps.256", "avx.min.pd.256" }) X(n, fmn);
    for (auto n : { "sse.max.ps", "sse2.max.pd", "avx.max.ps.256", "avx.max.pd.256" }) X(n, fmx);
    Handler cvtr = H { // round to nearest even then convert
        const Val* a = OPV(0);
        u32 k = di.ops[0].n;
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) t.push_back(i < k ? vFCvt(OFPToSI, vFRound(RNearInt, a[i]), di.ws[i]) : mkc(di.ws[i], 0));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse2.cvtps2dq", "avx.cvt.ps2dq.256", "sse2.cvtpd2dq", "avx.cvt.pd2dq.256", "sse2.cvtsd2si", "sse2.cvtsd2si64", "sse.cvtss2si", "sse.cvtss2si64" }) X(n, cvtr);
    Handler cvtt = H {
        const Val* a = OPV(0);
        u32 k = di.ops[0].n;
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) t.push_back(i < k ? vFCvt(OFPToSI, a[i], di.ws[i]) : mkc(di.ws[i], 0));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse2.cvttps2dq", "avx.cvtt.ps2dq.256", "sse2.cvttpd2dq", "avx.cvtt.pd2dq.256", "sse2.cvttsd2si", "sse2.cvttsd2si64", "sse.cvttss2si", "sse.cvttss2si64" }) X(n, cvtt);
    Handler rnd = H {
        // round.ps/pd(a, imm) ; round.ss/sd(a, b, imm)
        bool scalar = di.ops.size() == 3;
        const Val *a = OPV(0), *b = OPV(scalar ? 1 : 0);
        u64 imm = OP1(scalar ? 2 : 1).c;
        unsigned m;
        switch (imm & 7) { case 0: m = RNearInt; break; case 1: m = RFloor; break; case 2: m = RCeil; break; case 3: m = RTrunc; break; default: m = RNearInt; }
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) t.push_back(scalar && i > 0 ? a[i] : vFRound(m, b[i]));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse41.round.ps", "sse41.round.pd", "sse41.round.ss", "sse41.round.sd", "avx.round.ps.256", "avx.round.pd.256" }) X(n, rnd);
    Handler packss = H {
        const Val *a = OPV(0), *b = OPV(1);
        u32 k = di.ops[0].n, lanes = k * a[0].w / 128, per = k / lanes;
        unsigned w = di.ws[0], iw = a[0].w;
        vector<Val> t;
        auto sat = [&](const Val& v) { Val lo = vSExt(sMinV(w), iw), hi = vSExt(sMaxV(w), iw); return vTrunc(vSMax(vSMin(v, hi), lo), w); };
        for (u32 l = 0; l < lanes; l++)
        {
            for (u32 i = 0; i < per; i++) t.push_back(sat(a[l * per + i]));
            for (u32 i = 0; i < per; i++) t.push_back(sat(b[l * per + i]));
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse2.packssdw.128", "sse2.packsswb.128", "avx2.packssdw", "avx2.packsswb" }) X(n, packss);
    Handler packus = H {
        const Val *a = OPV(0), *b = OPV(1);
        u32 k = di.ops[0].n, lanes = k * a[0].w / 128, per = k / lanes;
        unsigned w = di.ws[0], iw = a[0].w;
        vector<Val> t;
        auto sat = [&](const Val& v) { Val lo = mkc(iw, 0), hi = mkc(iw, maskw(w)); return vTrunc(vSMax(vSMin(v, hi), lo), w); };
        for (u32 l = 0; l < lanes; l++)
        {
            for (u32 i = 0; i < per; i++) t.push_back(sat(a[l * per + i]));
            for (u32 i = 0; i < per; i++) t.push_back(sat(b[l * per + i]));
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse2.packuswb.128", "sse41.packusdw", "avx2.packuswb", "avx2.packusdw" }) X(n, packus);
    Handler movmsk = H {
        const Val* a = OPV(0);
        Val r = vExtract(a[0], a[0].w - 1, 1);
        for (u32 i = 1; i < di.ops[0].n; i++) r = vConcat(vExtract(a[i], a[i].w - 1, 1), r);
        dst[0] = vZExt(r, di.ws[0]);
    };
    for (auto n : { "sse.movmsk.ps", "sse2.movmsk.pd", "sse2.pmovmskb.128", "avx.movmsk.ps.256", "avx.movmsk.pd.256", "avx2.pmovmskb" }) X(n, movmsk);
    Handler blendv = H { lanes3(s, di, dst, [](const Val& a, const Val& b, const Val& m) { return vIte(vExtract(m, m.w - 1, 1), b, a); }); };
    for (auto n : { "sse41.blendvps", "sse41.blendvpd", "sse41.pblendvb", "avx.blendv.ps.256", "avx.blendv.pd.256", "avx2.pblendvb" }) X(n, blendv);
    // ptest/vtest: z: (a&b)==0, c: (~a&b)==0, nzc: neither; ps/pd look at sign bits only
#define PTEST(Z, C, SIGN)                                                                                              \
    H {                                                                                                                \
        const Val *a = OPV(0), *b = OPV(1);                                                                            \
        Val z = mkc(1, 1), c = mkc(1, 1);                                                                              \
        for (u32 i = 0; i < di.ops[0].n; i++)                                                                          \
        {                                                                                                              \
            unsigned w = a[i].w;                                                                                       \
            Val x = SIGN ? vExtract(a[i], w - 1, 1) : a[i], y = SIGN ? vExtract(b[i], w - 1, 1) : b[i];                \
            z = vBin(OAnd, z, vEq(vBin(OAnd, x, y), mkc(x.w, 0)));                                                     \
            c = vBin(OAnd, c, vEq(vBin(OAnd, vBin(OXor, x, mkc(x.w, maskw(x.w))), y), mkc(x.w, 0)));                   \
        }                                                                                                              \
        Val r = Z ? z : C ? c : vNot(vBin(OOr, z, c));                                                                 \
        dst[0] = vZExt(r, di.ws[0]);                                                                                   \
    }
    Handler ptz = PTEST(1, 0, 0), ptc = PTEST(0, 1, 0), ptn = PTEST(0, 0, 0), vtz = PTEST(1, 0, 1), vtc = PTEST(0, 1, 1), vtn = PTEST(0, 0, 1);
    for (auto n : { "sse41.ptestz", "avx.ptestz.256" }) X(n, ptz);
    for (auto n : { "sse41.ptestc", "avx.ptestc.256" }) X(n, ptc);
    for (auto n : { "sse41.ptestnzc", "avx.ptestnzc.256" }) X(n, ptn);
    for (auto n : { "avx.vtestz.ps", "avx.vtestz.pd", "avx.vtestz.ps.256", "avx.vtestz.pd.256" }) X(n, vtz);
    for (auto n : { "avx.vtestc.ps", "avx.vtestc.pd", "avx.vtestc.ps.256", "avx.vtestc.pd.256" }) X(n, vtc);
    for (auto n : { "avx.vtestnzc.ps", "avx.vtestnzc.pd", "avx.vtestnzc.ps.256", "avx.vtestnzc.pd.256" }) X(n, vtn);
#define VSHIFT(kind)                                                                                                   \
    H { lanes2(s, di, dst, [](const Val& a, const Val& b) {                                                            \
            Val big = vNot(vBin(OUlt, b, mkc(b.w, a.w)));                                                              \
            return kind == OAShr ? vBin(OAShr, a, vIte(big, mkc(a.w, a.w - 1), b)) : vIte(big, mkc(a.w, 0), vBin(kind, a, b)); }); }
    Handler vsl = VSHIFT(OShl), vsr = VSHIFT(OLShr), vsa = VSHIFT(OAShr);
    for (auto n : { "avx2.psllv.d", "avx2.psllv.q", "avx2.psllv.d.256", "avx2.psllv.q.256" }) X(n, vsl);
    for (auto n : { "avx2.psrlv.d", "avx2.psrlv.q", "avx2.psrlv.d.256", "avx2.psrlv.q.256" }) X(n, vsr);
    for (auto n : { "avx2.psrav.d", "avx2.psrav.d.256" }) X(n, vsa);
    // shifts by a scalar count held in the low 64 bits of a vector, or an immediate
#define SHIFTX(kind)                                                                                                   \
    H {                                                                                                                \
        const Val *a = OPV(0), *b = OPV(1);                                                                            \
        Val c;                                                                                                         \
        if (di.ops[1].n == 1) c = vZExt(b[0], 64);                                                                     \
        else                                                                                                           \
        {                                                                                                              \
            c = b[0];                                                                                                  \
            for (u32 i = 1; c.w < 64; i++) c = vConcat(b[i], c);                                                       \
        }                                                                                                              \
        unsigned w = a[0].w;                                                                                           \
        Val big = vNot(vBin(OUlt, c, mkc(64, w)));                                                                     \
        Val cw = vTrunc(c, w);                                                                                         \
        vector<Val> t;                                                                                                 \
        for (u32 i = 0; i < di.n; i++)                                                                                 \
            t.push_back(kind == OAShr ? vBin(OAShr, a[i], vIte(big, mkc(w, w - 1), cw))                                \
                                      : vIte(big, mkc(w, 0), vBin(kind, a[i], cw)));                                   \
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];                                                                  \
    }
    Handler shl_ = SHIFTX(OShl), shr_ = SHIFTX(OLShr), sar_ = SHIFTX(OAShr);
    for (auto n : { "sse2.psll.w", "sse2.psll.d", "sse2.psll.q", "sse2.pslli.w", "sse2.pslli.d", "sse2.pslli.q", "avx2.psll.w", "avx2.psll.d", "avx2.psll.q", "avx2.pslli.w", "avx2.pslli.d", "avx2.pslli.q" }) X(n, shl_);
    for (auto n : { "sse2.psrl.w", "sse2.psrl.d", "sse2.psrl.q", "sse2.psrli.w", "sse2.psrli.d", "sse2.psrli.q", "avx2.psrl.w", "avx2.psrl.d", "avx2.psrl.q", "avx2.psrli.w", "avx2.psrli.d", "avx2.psrli.q" }) X(n, shr_);
    for (auto n : { "sse2.psra.w", "sse2.psra.d", "sse2.psrai.w", "sse2.psrai.d", "avx2.psra.w", "avx2.psra.d", "avx2.psrai.w", "avx2.psrai.d" }) X(n, sar_);
    X("sse2.pmadd.wd", H {
        const Val *a = OPV(0), *b = OPV(1);
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) t.push_back(vBin(OAdd, vBin(OMul, vSExt(a[2 * i], 32), vSExt(b[2 * i], 32)), vBin(OMul, vSExt(a[2 * i + 1], 32), vSExt(b[2 * i + 1], 32))));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    });
    Handler addsub = H {
        const Val *a = OPV(0), *b = OPV(1);
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) t.push_back(vFBin(i % 2 ? OFAdd : OFSub, a[i], b[i]));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "sse3.addsub.ps", "sse3.addsub.pd", "avx.addsub.ps.256", "avx.addsub.pd.256" }) X(n, addsub);
    Handler pshufb = H {
        const Val *a = OPV(0), *m = OPV(1);
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++)
        {
            u32 base = i / 16 * 16;
            Val r = mkc(8, 0);
            Val lo = vExtract(m[i], 0, 4);
            for (u32 k = 0; k < 16; k++) r = vIte(vEq(lo, mkc(4, k)), a[base + k], r);
            t.push_back(vIte(vExtract(m[i], 7, 1), mkc(8, 0), r));
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    X("ssse3.pshuf.b.128", pshufb); X("avx2.pshuf.b", pshufb);
    Handler maskload = H { // ptr, mask(int)
        u64 p = conc(s, OP1(0));
        vector<Val> t;
        for (u32 i = 0; i < di.n; i++) concBool(s, vExtract(OPV(1)[i], di.ws[i] - 1, 1));
        for (u32 i = 0; i < di.n; i++)
            t.push_back(concBool(s, vExtract(OPV(1)[i], di.ws[i] - 1, 1)) ? loadAt(s, p + i * (di.ws[i] / 8), di.ws[i]) : mkc(di.ws[i], 0));
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
    };
    for (auto n : { "avx.maskload.ps", "avx.maskload.pd", "avx.maskload.ps.256", "avx.maskload.pd.256", "avx2.maskload.d", "avx2.maskload.q", "avx2.maskload.d.256", "avx2.maskload.q.256" }) X(n, maskload);
    X("sse.rsqrt.ps", H { lanes1(s, di, dst, [](const Val& a) { return vFun("rsqrt", { a }, a.w); }); });
    X("sse.rcp.ps", H { lanes1(s, di, dst, [](const Val& a) { return vFun("rcp", { a }, a.w); }); });
    X("sse.ldmxcsr", nop); X("sse.stmxcsr", H { storeAt(s, conc(s, OP1(0)), mkc(32, 0x1f80)); });
    X("sse2.pause", nop); X("sse.sfence", nop); X("sse2.lfence", nop); X("sse2.mfence", nop);
    Handler ucomi = nullptr; (void)ucomi;

    // ------------------------------------------------------------ libc / libstdc++
    auto E = [&](const char* n, Handler h) { extH[n] = h; };
    E("malloc", H { dst[0] = mkc(64, heapAlloc(s, conc(s, OP1(0)))); });
    E("calloc", H { u64 a = conc(s, OP1(0)), b = conc(s, OP1(1)); dst[0] = mkc(64, heapAlloc(s, a * b, 16, true)); });
    E("realloc", H {
        u64 p = conc(s, OP1(0)), n = conc(s, OP1(1));
        u64 q = heapAlloc(s, n);
        if (p)
        {
            Obj* o = findObj(s, p);
            if (!o || o->base != p || o->kind != OHeap) memErr(s, "realloc of invalid pointer");
            copyMem(s, q, p, min<u64>(n, o->size));
            freeObj(s, p);
        }
        dst[0] = mkc(64, q);
    });
    E("free", H { freeObj(s, conc(s, OP1(0))); });
    for (auto n : { "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t" }) E(n, H {
        u64 n = conc(s, OP1(0));
        if (n > (1ull << 40)) { throwType(s, "_ZTISt9bad_alloc"); throw 1; }
        dst[0] = mkc(64, heapAlloc(s, n)); });
    for (auto n : { "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t" }) E(n, H { dst[0] = mkc(64, heapAlloc(s, conc(s, OP1(0)), max<u64>(32, OP1(1).c))); });
    E("aligned_alloc", H { dst[0] = mkc(64, heapAlloc(s, conc(s, OP1(1)), max<u64>(32, OP1(0).c))); });
    E("posix_memalign", H { u64 a = heapAlloc(s, conc(s, OP1(2)), max<u64>(32, OP1(1).c)); storeAt(s, conc(s, OP1(0)), mkc(64, a)); dst[0] = mkc(32, 0); });
    for (auto n : { "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t" }) E(n, H { freeObj(s, conc(s, OP1(0))); });
    E("memcpy", H { u64 n = conc(s, OP1(2)), d = conc(s, OP1(0)), p = conc(s, OP1(1)); copyMem(s, d, p, n); dst[0] = mkc(64, d); });
    extH["memmove"] = extH["memcpy"];
    E("memset", H { u64 n = conc(s, OP1(2)), d = conc(s, OP1(0)); memsetH(s, d, vTrunc(OP1(1), 8), n); dst[0] = mkc(64, d); });
    auto zero = H { for (u32 i = 0; i < di.n; i++) dst[i] = fromAP(APInt(di.ws[i], 0)); };
    for (auto n : { "printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "perror", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_atexit", "__cxa_thread_atexit",
                    "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "vprintf", "fwrite", "__assert_fail_dummy", "setlocale", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once" })
        E(n, zero);
    E("snprintf", H { u64 p = conc(s, OP1(0)), n = conc(s, OP1(1)); if (p && n) storeAt(s, p, mkc(8, 0)); dst[0] = mkc(32, 0); });
    extH["vsnprintf"] = extH["snprintf"];
    Handler ab = H { addViolation(s, "abort", "abort/terminate called (" + di.name + ")", s.model->m); throw PathDone{}; };
    for (auto n : { "abort", "_ZSt9terminatev", "__assert_fail", "exit", "__cxa_pure_virtual", "__clang_call_terminate", "__stack_chk_fail", "__cxa_call_unexpected" }) E(n, ab);
    E("__cxa_guard_acquire", H { u64 p = conc(s, OP1(0)); dst[0] = mkc(32, loadAt(s, p, 8).c ? 0 : 1); });
    E("__cxa_guard_release", H { storeAt(s, conc(s, OP1(0)), mkc(8, 1)); });
    E("__cxa_guard_abort", nop);
    E("__cxa_allocate_exception", H { dst[0] = mkc(64, heapAlloc(s, OP1(0).c + 64, 16, true)); });
    E("__cxa_free_exception", H { freeObj(s, OP1(0).c); });
    E("__cxa_throw", H { s.exn = OP1(0).c; s.exnType = OP1(1).c; unwind(s); throw 1; });
    E("__cxa_rethrow", H { if (s.caught.empty()) throw Unsupported{ "rethrow" }; s.exn = s.caught.back(); unwind(s); throw 1; });
    E("_Unwind_Resume", H { Frame& f = s.st.back(); (void)f; s.exn = OP1(0).c; for (u64 a : s.st.back().allocas) s.mem.objs.erase(a); s.st.pop_back(); unwind(s); throw 1; });
    E("__cxa_begin_catch", H { s.caught.push_back(OP1(0).c); dst[0] = OP1(0); });
    E("__cxa_get_exception_ptr", H { dst[0] = OP1(0); });
    E("__cxa_end_catch", H { if (!s.caught.empty()) { u64 e = s.caught.back(); s.caught.pop_back(); if (e != s.exn || true) { auto it = s.mem.objs.find(e); if (it != s.mem.objs.end()) { s.mem.objs.erase(it); s.mem.heapLive--; } } } });
    for (auto n : { "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc",
                    "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                    "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                    "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD0Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev",
                    "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev" })
        E(n, nop);
#define THROWS(nm, ti) E(nm, H { throwType(s, ti); throw 1; })
    THROWS("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
    THROWS("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
    THROWS("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
    THROWS("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
    THROWS("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
    THROWS("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
    THROWS("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
    THROWS("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
    THROWS("_ZSt20__throw_system_errori", "_ZTISt12system_error");
    THROWS("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length");
    E("__errno_location", H { static u64 a = 0; auto it = a ? s.mem.objs.find(a) : s.mem.objs.end(); if (it == s.mem.objs.end()) { a = 0x6000; Obj o{ a, 4, OGlobal, false, make_shared<Data>() }; o.d->raw.assign(4, 0); s.mem.objs[a] = o; } dst[0] = mkc(64, a); });
    E("lldiv", H { Val a = OP1(0), b = OP1(1); dst[0] = vBin(OSDiv, a, b); dst[1] = vBin(OSRem, a, b); });
    extH["ldiv"] = extH["lldiv"];
    E("__divsc3", H { Val v[4] = { OPV(0)[0], OPV(1)[0], OPV(2)[0], OPV(3)[0] }; dst[0] = cplxDiv(v, 0); dst[1] = cplxDiv(v, 1); });
    extH["__divdc3"] = extH["__divsc3"];
    for (auto n : { "sin", "cos", "tan", "exp", "exp2", "exp10", "log", "log2", "log10", "log1p", "expm1", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt", "tgamma", "lgamma", "erf" })
    {
        Handler h = H { string n = di.name; if (di.ws[0] == 32 && n.back() == 'f' && n != "erf") n.pop_back(); dst[0] = vFun(n, { OP1(0) }, di.ws[0]); };
        extH[n]               = h;
        extH[string(n) + "f"] = h;
    }
    for (auto n : { "pow", "atan2", "hypot", "ldexp" })
    {
        Handler h = H { string n = di.name; if (di.ws[0] == 32) n.pop_back(); dst[0] = vFun(n, { OP1(0), OP1(1) }, di.ws[0]); };
        extH[n] = h; extH[string(n) + "f"] = h;
    }
    Handler fm = H { dst[0] = vFBin(OFRem, OP1(0), OP1(1)); };
    extH["fmod"] = extH["fmodf"] = fm;
    struct { const char* n; int m; } rr[] = { { "floor", RFloor }, { "ceil", RCeil }, { "trunc", RTrunc }, { "rint", RNearInt }, { "nearbyint", RNearInt }, { "round", RRoundAway }, {"roundeven", RNearInt} };
    Handler rh = H { const string& n = di.name; int m = n[0] == 'f' ? RFloor : n[0] == 'c' ? RCeil : n[0] == 't' ? RTrunc : n.substr(0, 5) == "round" && n.substr(0, 9) != "roundeven" ? RRoundAway : RNearInt; dst[0] = vFRound(m, OP1(0)); };
    for (auto& r : rr) { extH[r.n] = rh; extH[string(r.n) + "f"] = rh; }
    extH["fabs"] = extH["fabsf"] = H { dst[0] = vFUn(OFAbs, OP1(0)); };
    extH["sqrt"] = extH["sqrtf"] = H { dst[0] = vFUn(OFSqrt, OP1(0)); };
    extH["fma"] = extH["fmaf"] = H { dst[0] = vFma(OP1(0), OP1(1), OP1(2)); };
    extH["fmin"] = extH["fminf"] = intrH[Intrinsic::minnum];
    extH["fmax"] = extH["fmaxf"] = intrH[Intrinsic::maxnum];
    // lround family: round away then convert
    Handler lr = H { const string& n = di.name; bool away = n.find("round") != string::npos; dst[0] = vFCvt(OFPToSI, vFRound(away ? RRoundAway : RNearInt, OP1(0)), di.ws[0]); };
    for (auto n : { "lround", "lroundf", "llround", "llroundf", "lrint", "lrintf", "llrint", "llrintf" }) extH[n] = lr;
    intrH[Intrinsic::lround] = intrH[Intrinsic::llround] = H { dst[0] = vFCvt(OFPToSI, vFRound(RRoundAway, OP1(0)), di.ws[0]); };
    intrH[Intrinsic::lrint] = intrH[Intrinsic::llrint] = H { dst[0] = vFCvt(OFPToSI, vFRound(RNearInt, OP1(0)), di.ws[0]); };
    E("clock", H { dst[0] = newSym(s, "clock", 64, false); });
    E("_ZNSt6chrono3_V212steady_clock3nowEv", H { dst[0] = newSym(s, "steady_clock", 64, false); });
    E("_ZNSt6chrono3_V212system_clock3nowEv", H { dst[0] = newSym(s, "system_clock", 64, false); });
    E("time", H { dst[0] = newSym(s, "time", 64, false); });

    // ------------------------------------------------------------ harness API
    E("__sym_int", H { dst[0] = vZExt(newSym(s, readStr(s, OP1(0).c), OP1(1).c, false), 64); });
    E("__sym_intr", H { dst[0] = vSExt(newSym(s, readStr(s, OP1(0).c), OP1(1).c, false, true, (double)(i64)OP1(2).c, (double)(i64)OP1(3).c), 64); });
    E("__sym_f32", H { dst[0] = newSym(s, readStr(s, OP1(0).c), 32, true); });
    E("__sym_f64", H { dst[0] = newSym(s, readStr(s, OP1(0).c), 64, true); });
    E("__sym_f32r", H { dst[0] = newSym(s, readStr(s, OP1(0).c), 32, true, true, bf64(OP1(1).c), bf64(OP1(2).c)); });
    E("__sym_f64r", H { dst[0] = newSym(s, readStr(s, OP1(0).c), 64, true, true, bf64(OP1(1).c), bf64(OP1(2).c)); });
    E("__sym_bytes", H {
        u64 p = conc(s, OP1(0)), n = conc(s, OP1(1));
        string nm = readStr(s, OP1(2).c);
        for (u64 i = 0; i < n; i++) storeAt(s, p + i, newSym(s, nm, 8, false));
    });
    E("__sym_assume", H {
        Val c = OP1(0);
        if (c.w != 1) c = vTrunc(c, 1);
        if (c.isC()) { if (!c.c) throw PathKill{}; return; }
        shared_ptr<EvalCtx> m;
        Res r = feasible(s, c, m);
        if (r == RUnsat) throw PathKill{};
        if (r == RUnknown) { noteUnknown(s, "assume"); throw PathKill{}; }
        s.model = m;
        addPC(s, c);
    });
    E("__sym_assert", H { Val c = OP1(0); if (c.w != 1) c = vTrunc(c, 1); doAssert(s, c, readStr(s, OP1(1).c)); });
    E("__sym_assert_known", H {
        Val c = vTrunc(OP1(0), 1), k = vTrunc(OP1(1), 1);
        doAssert(s, c, readStr(s, OP1(3).c), &k, readStr(s, OP1(2).c));
    });
    E("__sym_close", H { Val r = OP1(1); doClose(s, OP1(0), &r, {}, {}, bf64(OP1(2).c), readStr(s, OP1(3).c)); });
    E("__sym_close_fn", H { doCloseFn(s, OP1(0), OP1(1), bf64(OP1(2).c), bf64(OP1(3).c), readStr(s, OP1(4).c)); });
    E("__sym_close_lin", H {
        u64 pv = OP1(1).c, pc = OP1(2).c, n = OP1(3).c;
        vector<Val> v;
        vector<double> c;
        for (u64 i = 0; i < n; i++)
        {
            Val q = loadAt(s, pc + 8 * i, 64);
            if (!q.isC()) throw Unsupported{ "symbolic coefficient" };
            if (bf64(q.c) == 0) continue;
            v.push_back(loadAt(s, pv + 8 * i, 64));
            c.push_back(bf64(q.c));
        }
        doClose(s, OP1(0), nullptr, v, c, bf64(OP1(4).c), readStr(s, OP1(5).c));
    });
    E("__sym_xadd", H { dst[0] = vFBin(OXAddR, OP1(0), OP1(1)); });
    E("__sym_xmul", H { dst[0] = vFBin(OXMulR, OP1(0), OP1(1)); });
    E("__sym_fork", H { dst[0] = mkc(64, conc(s, OP1(0))); });
    E("__sym_fuel", H { s.fuel = OP1(0).c ? s.steps + OP1(0).c : 0; s.fuelMsg = readStr(s, OP1(1).c); });
    E("__sym_heap_live", H { dst[0] = mkc(64, s.mem.heapLive); });
    E("__sym_is_engine", H { dst[0] = mkc(32, 1); });
    E("__sym_readable", H { // is [p, p+n) inside one live object?
        u64 p = conc(s, OP1(0)), n = conc(s, OP1(1));
        Obj* o = findObj(s, p);
        dst[0] = mkc(32, o && p + n <= o->base + o->size);
    });
    E("__sym_observe", H { if (optConcrete) { char b[64]; snprintf(b, 64, "u %016llx", (unsigned long long)OP1(0).c); observed.push_back(b); } });
    E("__sym_observe_f", H { if (optConcrete) { char b[64]; snprintf(b, 64, "f %.17g", bf64(OP1(0).c)); observed.push_back(b); } });
}
