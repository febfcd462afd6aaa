LEVEL = "other"
COMMON_ASSUMPTIONS = [
    "clang 18 -O2 bitcode (no auto-vectorisation) of the current source is what is executed; LLVM's optimiser and code generator are trusted to preserve it",
    "the ksym engine, z3 and the harness oracles are trusted; every counterexample is replayed on natively compiled code before it is reported",
    "default rounding mode; libm functions are uninterpreted unless stated otherwise",
]
PROPS = {}
def P(pid, units, bounds, outside="", assumptions=()):
    PROPS[pid] = dict(units=units, bounds=bounds, outside=outside, assumptions=list(assumptions))
def U(src, libs=(), archs=("sse2",), archs_thorough=None, entries=None, defs=(), opts=(), **kw):
    d = dict(src=src, libs=list(libs), archs=list(archs), archs_thorough=list(archs_thorough or archs), entries=entries, defs=list(defs), opts=list(opts))
    d.update(kw)
    return d


P("P01", [U("dft.cpp", ["dft"], ["sse2", "avx2"])],
  "sizes 1-40 (float), 1-32 (double), and 48,60,64,77,90,100,101,120,128,144,210,256,512 (thorough: to 128/100, 1024-4096, 1155, primes 97,509, ...); forward/inverse, in/out of place, null/given temp; every input component any real in [-1,1]; IR for sse2 and avx2+fma; rounding bounded by forward error analysis, deviation of every coefficient decided exactly.",
  "larger sizes; inf/nan/overflowing inputs; multi-arch dispatch build (same sources).")
P("P02", [U("rdft.cpp", ["dft"], ["sse2", "avx2"])],
  "even sizes 2-40 (float), 2-32 (double), 48,60,64,96,100,120,128,202,256 (thorough: to 128/100, 512-2048, 720, 1000); both packings, directions, in/out of place, null/given temp; every component any real in [-1,1]; helper/cache sequences of 16 calls per type.",
  "larger sizes; concurrent use of the plan cache (guarded by a mutex).")
P("P03", [U("mdft.cpp", ["dft"], ["sse2", "avx2"])],
  "11 complex and 8 real shapes of rank 1-4 with extents 1-16 plus run-time-rank shapes, DCT sizes 1-20,32,33,48,60,64; all buffer arrangements; every component any real in [-1,1].",
  "larger shapes.")
P("P04", [U("conv.cpp", ["dft", "conv"], ["sse2", "avx2"])],
  "operand lengths 1-5 x 1-5 (correlate 1-4, autocorrelate 1-7) and some to 9 (thorough: to 20), both operands symbolic; filters with block 1-8, 1-25 taps (thorough: block 32/64, to 129 taps), fixed response, streams of 3 blocks with symbolic samples cut in 6 ways and every cut into 4 calls of short streams; float, double and complex.",
  "longer responses; changing the response between calls of one stream.")
P("P05", [U("fir.cpp", ["fir"], ["sse2", "avx2"])],
  "1-12,17,18 taps (thorough: to 34), 19 samples in 7 splits, all cuts of 10 samples into 4 calls; 6 tap/sample type pairs; symbolic samples, and symbolic taps for 1-5 taps; short_fir 2-16 taps.",
  "more taps; recursion through user expressions.")
P("P06", [U("iir.cpp", ["biquad"], ["sse2", "avx2"])],
  "1-5 sections (expression: 1,2,4,8; thorough: to 17), 18 samples in 7 splits, all cuts of 9 samples into 4 calls; fixed stable coefficients with symbolic samples, and symbolic coefficients with 4 samples for one section.",
  "long-run accumulation of rounding in recursive filters; unstable filters.")
P("P07", [U("delay.cpp", [], ["sse2", "avx2"])],
  "delays 1-15, windows 1-9,17,18, 19 samples in 7 splits, all cuts of 10 samples into 4 calls; ring buffers of size 1-5, every cursor, counts to 12, symbolic contents.",
  "larger delays and windows.")
P("P08", [U("resample.cpp", ["src"], ["sse2", "avx2"])],
  "draft quality (32 taps per phase); ratios 1/1,2/1,1/2,3/1,3/2,2/3,5/4,4/6,1/5 pulled and 7/3,5/2,4/1 pushed; symbolic samples, every cut of the stream into 4 calls, skip(), zero-padded end of stream; position arithmetic over symbolic positions to 2^30.",
  "other qualities and ratios; transition-band design values are compared with an independently computed Kaiser-windowed sinc to 1e-4.")
P("P09", [U("vint.cpp", [], ["sse2", "avx2"], ["sse2","sse41","avx","avx2","noext"])],
  "all 8 integer element types, vector widths 1,3,w,w+1,2w,4w (w = native width), every operand value (bit-exact); shift counts 0..bits-1 per lane and scalar; non-zero divisors without overflow; sse2 and avx2 IR (thorough: sse4.1, avx, and the no-extension backend).",
  "wider vectors; NEON/AVX-512 backends.")

P("P10", [U("vfloat.cpp", [], ["sse2", "avx2"], ["sse2","sse41","avx","avx2","noext"])],
  "float and double, vector widths 1,3,w,w+1,2w, every operand bit pattern including inf/nan/denormals/-0 for lane-wise operations (bit-exact IEEE); horizontal sums/dot products within rounding over [-1,1]; all 10x10 element conversions over all representable sources; sse2 and avx2 IR (thorough: sse4.1, avx, no-extension backend).",
  "conversions whose source is out of the target's range (unspecified); NEON/AVX-512 backends.")

P("P11", [U("shuffle.cpp", [], ["sse2", "avx2"], ["sse2","sse41","avx","avx2","noext"])],
  "u8,i16,u32,f32,i64,f64 and complex elements, widths 1-8,12,16,32,64, every value; memory accesses on buffers of exactly the accessed size; strides 0-3; every index vector of up to 3 lanes into 4 elements; sort of 4 lanes over all values, of 8 lanes over all arrangements of two values.",
  "wider vectors; grouped gather with a stride (does not compile in the library); sort of more than 8 lanes.")

P("P12", [U("reduce.cpp", [], ["sse2", "avx2"])],
  "f32,f64,complex,u8,i8,i16,i32,u32,i64 (not every type for every function); lengths 0..~50 and 63-65 in steps of one; integers over every value, floats over [-1,1] (order statistics: every non-NaN pattern to 4 elements, two-valued inputs to 70); histograms with 2-7 and 300 bins over every value of the element type (floats in [-4,4]).",
  "NaN elements; rounding of sums of more than 50 elements; reductions of non-expression ranges.")

P("P13", [U("tensor.cpp", [], ["sse2", "avx2"])],
  "one- and two-dimensional slices: every size to 127 (step 1: 65536), start/stop in +-256 (step 1: +-70000) or absent, steps +-1,2,3 and 7,-5; views of a 6x8 array (18 kinds) and writes through 8 kinds with symbolic elements; shapes of rank 1-5; axis-wise evaluation along each axis with widths 0-8; matrix_transpose for all shapes to 13x13, long shapes to 40x8, 20x30, 33x21, ranks 1-5, 7 element types, and one 2x65540 matrix.",
  "step 0; out-of-range single indices; larger matrices.")

P("P14", [U("convert.cpp", [], ["sse2", "avx2"])],
  "all bit patterns of a sample (bit-exact) for saturation, sign and full scale; nearest-value and round-trip claims for every integer of i8, i16 and i24 (i32 round trips through f64 hold within these types only); channels 1-6, lengths 0-9; seven run-time formats; nearest/round trip for avx2 IR only (the sse2 rounding emulation is decided by P10).",
  "i32/i64 round trips; more channels.")

P("P15", [U("expr.cpp", [], ["sse2", "avx2"])],
  "every element value (bit-exact, i32/u8/i16/f32/f64); lengths 0-40 around the vector widths; process() with widths 0,1,2,4,8, starts 0-3 and lengths 0..n+5; slices with starts to 8 and lengths to 100 of 0-40 elements; concatenations of 0-17 with 0-19 elements; arrays of 1-5 dimensions, whole and partial ranges; broadcasting of rows, columns and vectors along both axes; generators from every state in [-1,1], three steps, 8 divisions of 37 samples, within recurrence rounding.",
  "user-defined expressions; expressions of vec<T,3> elements (padded in memory, not usable as array elements); assigning an expression with an axis of size 1 to a larger array at top level (the library assigns the common part only).")

P("P16", [U("trig.cpp", [], ["sse2", "avx2"])],
  "every float/double argument in: sin, cos, sincos, cossin +-1000 (vectors +-100); tan three periods to 0.07 of a pole; degrees +-720 (tan +-80); sinc 0.001..50; asin, acos +-0.999 and the ends; atan +-100; atan2 in boxes covering four quadrants and the axes (ratio to 400 for float, 8 for double); fast variants 0..2pi, 0..359 degrees. Adaptive Taylor models with rounding, leaves discharged as linear real arithmetic.",
  "larger arguments; tan within 0.07 of its poles; sign of zero of atan2(+-0, -0); asin/acos between 0.999 and 1.")
P("P17", [U("explog.cpp", [], ["sse2", "avx2"])],
  "every float/double argument in: exp to overflow (double +-200 and 690..709 both signs), exp2 +-300, exp10 +-90, log family 1e-30..1e30 and denormal points, cbrt 0.001..1000 both signs, pow/root with nine exponents over 0.01..100 and negative bases, with five bases over unit exponent ranges, hyperbolics +-20/30, decibels 1e-8..1e8 and +-200 dB, notes 0..127; special values individually. Adaptive Taylor models, leaves discharged as linear real arithmetic.",
  "pow for other exponents; log of 2^-1074; NaN results of pow(1, inf).")
P("P18", [U("special.cpp", [], ["sse2", "avx2"])],
  "complex functions over boxes to |re|,|im| <= 1-5 (csin family |im| <= 1), each quadrant for clog, csqrt, carg; gamma 0.1..10, factorial 0..10, Bessel +-16/25; interpolation for every mu in [0,1] with basis samples and for every sample in [-1,1] at 7 positions; nearest bit-exact.",
  "branch cuts other than the stated points; overflow of cabs; gamma above 10.")
P("P19", [U("random.cpp", [], ["sse2", "avx2"])],
  "every 128-bit generator state; 1-256 random bytes; integer types u8..i64, integer ranges over all states (8-bit: every min < max; wider: the listed bounds, including the whole type); floating point ranges of five intervals; expressions over up to 3 vectors or 11 elements. Box-Muller is compared with the same formula on KFR's log, sqrt and cossin (whose accuracy P16 and P17 decide).",
  "statistical quality of the generator; random_range of 64-bit integers (not supported); seeding from the cycle counter.")
P("P20", [U("helpers.cpp", [], ["sse2", "avx2"])],
  "powers of two, alignment, bit reversal: every u8 (to 64), u32 and i32 (to 2^30) and u64 (2^30..2^62) value and the largest ones (bit reversal of 1-26, 28, 30-32 bits); gcd over 0..63, floor_div of every 16-bit dividend by 1, 2, 3, 7, 10; byte order: every value, arrays of 0-70 elements; fractions with numerators to +-12 and denominators to 12; container histories of 6 operations (8 in thorough), containers of 0-6 elements (inline_vector to capacity 4, and 290 of 300), queue histories of 4 calls (all sizes) and 8 calls (three sizes) on 5 elements.",
  "64-bit overflow inside fractions and lcm; division of fractions by zero; concurrent use of the queue (calls are executed one after another); negative divisors of floor_div.")
