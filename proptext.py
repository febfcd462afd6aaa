TEXT = []
NOT_APPLICABLE = {}
def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    TEXT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

P("P01", "Complex DFT of any size equals its definition",
  "For every size and every input, the forward and inverse complex DFT return the defining sums (unscaled) within the rounding envelope of the element type, out of place and in place, with a caller-supplied or an absent temporary buffer. The input of an out-of-place transform is not modified, and no memory outside input, output and temporary buffer is touched.",
  ["inputs", "configurations"], "all sizes, element types, directions, buffer arrangements, and all input vectors with elements in [-1,1] (the transform is linear)",
  "Tests compare random vectors against a reference for selected sizes by RMS; a wrong coefficient in a rarely used size, direction or buffer arrangement, or an access past a buffer, is outside what they sample.",
  ["include/kfr/dft/fft.hpp", "src/dft/fft-impl.hpp", "src/dft/dft-impl.hpp", "src/dft/ft.hpp", "src/dft/bitrev.hpp", "src/dft/dft.cpp"],
  [("stage planning and disposition of scratch/in-place stages", "src/dft/dft.cpp"), ("radix butterflies", "src/dft/ft.hpp"), ("chirp transform for large primes", "src/dft/dft-impl.hpp")])
P("P02", "Real DFT and its packed spectra equal the definition",
  "For every even size the real forward DFT returns bins 0..n/2 of the DFT of the signal in the selected packing (CCs or Perm), and the inverse returns the signal defined by a packed spectrum, in and out of place. The convenience functions and their plan cache give the same results for any sequence of sizes and kinds, and odd sizes are rejected.",
  ["inputs", "configurations", "histories"], "all even sizes, packings, element types, buffer arrangements, input vectors; any order of helper calls",
  "Tests use random vectors with a few sizes and mostly round trips, which cannot see errors that cancel between forward and inverse.",
  ["include/kfr/dft/fft.hpp", "include/kfr/dft/cache.hpp", "src/dft/fft-impl.hpp"],
  [("to_fmt/from_fmt repacking stage", "src/dft/fft-impl.hpp"), ("plan cache", "include/kfr/dft/cache.hpp")])
P("P03", "Multidimensional DFT and DCT equal their definitions",
  "Multidimensional complex and real transforms of any shape (including extents of 1, static or run-time rank) equal the separable definition, and the inverse real transform restores the signal times its size. DCT-II and its inverse of any size equal their defining sums; all of them also in place and without a caller-supplied temporary buffer.",
  ["inputs", "configurations"], "all shapes and sizes within the bounds, both directions, all buffer arrangements, all inputs in [-1,1]",
  "Tests cover one DCT size and a handful of shapes with one data set each.",
  ["include/kfr/dft/fft.hpp", "include/kfr/simd/operators.hpp", "src/dft/fft-impl.hpp"],
  [("axis rotation and matrix transpose between axes", "include/kfr/dft/fft.hpp"), ("even/odd folding of the DCT", "include/kfr/dft/fft.hpp")])
P("P04", "Convolution, correlation and streaming convolution equal the direct sums",
  "convolve(), correlate() and autocorrelate() of real and complex signals of any lengths return the defining sums (full length) within rounding. convolve_filter, fed a stream in pieces of any sizes, produces the same output as direct convolution of the whole stream with the impulse response, for any response length and block size, after reset() and after set_data() with a response of another length; operands are not modified.",
  ["inputs", "configurations", "histories"], "all operand lengths and response lengths / block sizes / splits of the stream in bounds, all signals in [-1,1]",
  "Tests compare a couple of fixed vectors and one filter length with one block size; a wrong partition hand-over shows only for particular splits of the stream.",
  ["include/kfr/dft/convolution.hpp", "src/dft/convolution-impl.cpp"],
  [("DFT-based convolution and correlation", "src/dft/convolution-impl.cpp"), ("partitioned overlap-add state machine", "src/dft/convolution-impl.cpp process_buffer")])
P("P05", "FIR filters equal the direct sum for every split of the stream",
  "fir_filter, fir() with external state and short_fir() compute y[k] = sum h[j] x[k-j] within rounding for every tap count, tap and sample type, wherever the stream is cut into calls, in place or not, from buffers or expressions, and after reset() or replacement of the taps. Building a filter or state from named coefficients does not modify them.",
  ["inputs", "configurations", "histories"], "all tap counts, splits, taps and signals in bounds",
  "Tests filter one random signal with a few tap counts; state hand-over errors depend on how the stream is cut and on tap count modulo vector width.",
  ["include/kfr/dsp/fir.hpp", "src/dsp/fir.cpp"],
  [("delay line ring buffer and two-part dot product", "include/kfr/dsp/fir.hpp"), ("short FIR shift register", "include/kfr/dsp/fir.hpp")])
P("P06", "IIR cascades equal their difference equations for every split",
  "iir() and iir_filter with a cascade of any number of biquad sections produce the output of the cascaded difference equations with zero initial state (no added latency), within rounding, wherever the stream is cut into calls (blocks shorter than the cascade included), in place or not; reset() returns the filter to its initial state.",
  ["inputs", "configurations", "histories"], "cascade lengths, splits and signals in bounds; arbitrary coefficients for a single section",
  "Tests run whole buffers with a few designs; the pipelined cascade keeps partially processed samples between calls, so errors need particular block lengths.",
  ["include/kfr/dsp/iir.hpp", "include/kfr/dsp/biquad.hpp", "src/dsp/biquad.cpp"],
  [("vectorised cascade with pipeline fill and drain", "include/kfr/dsp/iir.hpp expression_iir"), ("filter state save/restore", "include/kfr/dsp/iir.hpp")])
P("P07", "Delays, moving sums and ring buffers hold over any split",
  "delay() outputs the input delayed by exactly the requested number of samples, fracdelay() interpolates linearly, and moving_sum() returns the sum of the last n samples, wherever the stream is cut into calls and in place or not. Block reads, writes and steps of a univector ring buffer are equivalent to element-by-element ones for any size, cursor and count, including counts above the buffer size.",
  ["inputs", "configurations", "histories"], "all delays, window lengths, splits, sizes, cursors and counts in bounds; all signals",
  "Tests use one delay and one split each; wrap-around cases depend on cursor, length and vector width together.",
  ["include/kfr/dsp/delay.hpp", "include/kfr/dsp/fracdelay.hpp", "include/kfr/base/univector.hpp"],
  [("delay line state", "include/kfr/dsp/delay.hpp"), ("ring buffer cursor arithmetic", "include/kfr/base/univector.hpp ringbuf_*")])

P("P08", "Sample rate conversion is one band-limited filter, whatever the cuts",
  "samplerate_converter output sample k equals the polyphase sum of the windowed-sinc prototype at the exact rational time k*M/L, for every conversion ratio; feeding the stream in pieces of any sizes (asking for a given number of output samples and the corresponding input), skipping, and running past the end of input give the same samples as one call. The input/output position and size arithmetic is consistent and monotone.",
  ["inputs", "configurations", "histories"], "all ratios listed, all signals in [-1,1], every split of the stream; positions to 2^30",
  "Tests convert one sine with one or two ratios in one call and judge it by eye-level metrics.",
  ["include/kfr/dsp/sample_rate_conversion.hpp", "src/dsp/sample_rate_conversion.cpp"],
  [("polyphase position arithmetic and delay line", "include/kfr/dsp/sample_rate_conversion.hpp process_impl"), ("prototype filter design", "include/kfr/dsp/sample_rate_conversion.hpp")])
P("P09", "Integer vectors behave as arrays of scalars",
  "For every integer element type and vector width, arithmetic, comparison, masks and select, min/max/abs/clamp, saturating add/sub, shifts, rotates, division/modulo and horizontal reductions compute in each lane exactly what the scalar definition computes for that lane's operands, in every instruction-set backend.",
  ["inputs", "configurations"], "all operand values for all 8 element types and representative widths including odd ones",
  "Tests sample a small table of values; backends replace operations with intrinsic sequences that fail only at particular values (sign bit, saturation edge, shift count).",
  ["include/kfr/simd/operators.hpp", "include/kfr/simd/impl/*.hpp", "include/kfr/simd/comparison.hpp", "include/kfr/simd/saturation.hpp", "include/kfr/simd/horizontal.hpp"],
  [("SSE/AVX intrinsic implementations", "include/kfr/simd/impl/basicoperators_clang.hpp, include/kfr/simd/impl/*.hpp"), ("width splitting and padding", "include/kfr/simd/impl/function.hpp")])
P("P10", "Floating-point vectors behave as arrays of IEEE scalars",
  "For float and double vectors of every width, arithmetic, sign/bit operations, comparison and classification (NaN, sign), min/max/clamp, sqrt, rounding (floor, ceil, trunc, round, fract and the integer-returning forms) and conversion between all element types give in each lane exactly the scalar IEEE result, including for NaN, infinities, -0, denormals and large values; horizontal sums, dot products and mix/horner/fma forms equal the real-valued expression within rounding.",
  ["inputs", "configurations"], "all bit patterns for lane-wise operations",
  "Tests use a table of ordinary values; fallbacks emulate rounding and selection with arithmetic tricks that fail for particular values only.",
  ["include/kfr/simd/operators.hpp", "include/kfr/simd/round.hpp", "include/kfr/simd/impl/round.hpp", "include/kfr/simd/comparison.hpp", "include/kfr/simd/min_max.hpp", "include/kfr/simd/horizontal.hpp", "include/kfr/simd/types.hpp"],
  [("rounding fallback for SSE2", "include/kfr/simd/impl/round.hpp"), ("element conversions", "include/kfr/simd/impl/simd.hpp")])

P("P11", "Lane shuffles, sorting and vector memory access are exact",
  "Every operation that moves lanes (concat, slice, split, rotate, reverse, interleave, zip, transpose, permute, blend, duplicate, pad, bit/digit reversal, ...) puts each input lane exactly where its definition says and changes no bit; sort and sortdesc return the input values in order; read/write, aligned or not, grouped, strided or indexed, touch exactly the addressed elements, and partial_mask selects exactly the first n lanes.",
  ["inputs", "configurations"], "all lane values, all representative widths including odd ones and widths above the native register",
  "Tests check a few widths with one set of values; specialised shuffles and masks fail for particular widths, groups or types only.",
  ["include/kfr/simd/shuffle.hpp", "include/kfr/simd/read_write.hpp", "include/kfr/simd/sort.hpp", "include/kfr/simd/digitreverse.hpp", "include/kfr/simd/impl/backend_clang.hpp", "include/kfr/simd/impl/read_write.hpp"],
  [("shuffle index computation and backend", "include/kfr/simd/impl/backend_clang.hpp simd_shuffle"), ("register-wise reads and writes", "include/kfr/simd/impl/read_write.hpp")])

P("P12", "Reductions and histograms account for every element exactly once",
  "sum, mean, minof, maxof, absminof, absmaxof, dotproduct, sumsqr, rms, product and user reductions over an expression of any length equal the mathematical reduction over exactly its elements (bit-exact for integers and order statistics, within rounding for floating point); a histogram counts every element exactly once, in the bin of its value or below/above the range, for every element type and number of bins.",
  ["inputs", "configurations"], "all values, all lengths around multiples of the vector width",
  "Tests reduce one or two arrays; the partial-vector tail, initial values and type limits matter only for particular lengths and values.",
  ["include/kfr/base/reduce.hpp", "include/kfr/simd/horizontal.hpp", "include/kfr/base/expression.hpp"],
  [("partial-vector accumulation", "include/kfr/base/reduce.hpp expression_reduce::process"), ("bin index arithmetic", "include/kfr/base/reduce.hpp histogram_data::put")])

P("P13", "Tensor views, slices and transposes address exactly the right elements",
  "Slicing a tensor with any start, stop and step (negative values count from the end), indexing, transposing, reshaping and viewing a view select exactly the elements that the row-major definition selects, in order; reading, iterating, copying, mapping and evaluating expressions through a view see those elements and writing through it changes only them; broadcasting follows the documented rules for any axis and width; shared ownership keeps data alive exactly until the last view is gone; matrix_transpose of any packed matrix or N-dimensional array, in place or not, moves every element to its transposed position.",
  ["inputs", "configurations", "histories"], "slice bounds: all sizes to 127 and all start/stop; all element values; all matrix shapes to 13x13 and long ones",
  "Tests use a handful of slices of one array and a few matrix shapes; index arithmetic fails only for particular signs, sizes and shapes.",
  ["include/kfr/base/tensor.hpp", "include/kfr/base/shape.hpp", "include/kfr/base/transpose.hpp"],
  [("slice arithmetic", "include/kfr/base/tensor.hpp get_range"), ("index stepping and broadcasting", "include/kfr/base/shape.hpp"), ("in-place transposition", "include/kfr/base/transpose.hpp")])

P("P14", "Sample conversion scales, saturates and never loses a representable sample",
  "Converting an audio sample between i8, i16, i24, i32, i64, f32 and f64 scales full scale to full scale, saturates anything beyond it instead of wrapping, keeps zero and sign, and picks the nearest representable value; converting to a wider format and back returns the original sample for every value. interleave and deinterleave place sample i of channel c at position i*channels+c for every number of channels and samples, convert on the way, write nothing else and undo each other; conversions whose format is only known at run time do the same as the typed ones, and audio_sample_sizeof/bit_depth match.",
  ["inputs", "configurations"], "all sample values; up to 6 channels by 9 samples",
  "Tests convert a handful of values; clipping, rounding and sign errors show for particular sample values only.",
  ["include/kfr/base/conversion.hpp", "include/kfr/simd/types.hpp", "include/kfr/simd/clamp.hpp"],
  [("scaling and clamping", "include/kfr/base/conversion.hpp convert_sample"), ("channel mapping", "include/kfr/base/conversion.hpp interleave/deinterleave"), ("run-time formats", "include/kfr/base/conversion.hpp convert")])
P("P15", "Expressions yield the same elements however they are evaluated",
  "Element i of an expression (arithmetic, select, cast, slice, truncate, padded, reverse, reshape, concatenate, pack/unpack, adjacent, counters, linspace, lambdas, broadcasting between dimensions, ...) is what its definition says whatever the vector width, start, length, vector axis and destination: constructing, assigning, rendering, type-erased handles and process() over any range agree, process() returns the end of the range and writes nothing outside it, and get_shape() is the exact number of elements (empty and out-of-range slices included). Generators (linear, exp, exp2, expj, sin, cossin) produce the same samples, following their formula, however their output is divided.",
  ["inputs", "configurations"], "lengths 0-40 around the vector widths, up to 5 dimensions; generator states in [-1,1]",
  "Tests evaluate an expression with one width over one length; errors show at the tail of a range, at a row end, for an empty argument or along another axis.",
  ["include/kfr/base/expression.hpp", "include/kfr/base/basic_expressions.hpp", "include/kfr/base/simd_expressions.hpp", "include/kfr/base/math_expressions.hpp", "include/kfr/base/generators.hpp", "include/kfr/base/handle.hpp", "include/kfr/base/univector.hpp", "include/kfr/base/shape.hpp"],
  [("evaluation loops", "include/kfr/base/expression.hpp process, tprocess_body, get_arg"), ("structural expressions", "include/kfr/base/basic_expressions.hpp"), ("generators", "include/kfr/base/generators.hpp"), ("handles", "include/kfr/base/handle.hpp")])

P("P16", "Trigonometric functions are accurate over their whole range",
  "sin, cos, tan, sinc and their degree variants, sincos/cossin (even/odd lanes), the fast variants (one period), asin, acos, atan, atan2 (every quadrant, axes, zero and infinite arguments) and the multiple-angle helpers return, for every float and double argument in their stated range and in every lane of a vector, the value of the mathematical function within a small error (about 1e-5 for float and 1e-12 for double; 1e-3 for the fast variants), with exact values at zero, correct values at the ends of the domain (asin(1), acos(-1), sinc(0)), NaN for NaN, and integer arguments converted to floating point first.",
  ["inputs"], "arguments to +-100 (+-1000 for sin/cos, +-720 degrees, away from poles for tan), every value",
  "Tests compare a few hundred points; a wrong branch, coefficient or reduction shows only in part of the range, in one quadrant or in one lane.",
  ["include/kfr/math/sin_cos.hpp", "include/kfr/math/impl/sin_cos.hpp", "include/kfr/math/impl/tan.hpp", "include/kfr/math/impl/atan.hpp", "include/kfr/math/impl/asin_acos.hpp"],
  [("range reduction and polynomials", "include/kfr/math/impl/sin_cos.hpp trig_fold, trig_sin, trig_cos"), ("quadrants", "include/kfr/math/impl/atan.hpp atan2")])
P("P17", "Exponentials, logarithms, powers, hyperbolic functions and units are accurate",
  "exp, exp2, exp10, log, log2, log10, logn, logm, logb, exp_fmadd, log_fmadd, pow, root, cbrt, sinh, cosh, tanh, coth, sinhcosh/coshsinh and the unit conversions built on them (amplitude, power and decibels, notes and hertz, custom tuning) return for every float and double argument in their stated range, in every lane, the mathematical value within a small relative error (about 1e-5 for float, 1e-12 for double), including negative bases with integer exponents, negative amplitudes, denormals and arguments close to overflow; limits are right: exp of large values is infinity and of very negative ones zero, log of 0 is -infinity, of infinity is infinity, of a negative value NaN, x^0 is 1, 0^y is 0 or infinity, tanh and coth saturate at +-1, decibels of zero are -infinity.",
  ["inputs"], "exp to overflow, log over 1e-30..1e30, other functions over the ranges in bounds, every value",
  "Tests compare sample points; exponent handling and branch selection fail for particular magnitudes and signs.",
  ["include/kfr/math/impl/log_exp.hpp", "include/kfr/math/impl/hyperbolic.hpp", "include/kfr/math/log_exp.hpp", "include/kfr/math/hyperbolic.hpp", "include/kfr/dsp/units.hpp"],
  [("exponent extraction and scaling", "include/kfr/math/impl/log_exp.hpp vilogbp1, vldexpk, exp, log"), ("power cases", "include/kfr/math/impl/log_exp.hpp pow, root"), ("units", "include/kfr/dsp/units.hpp")])
P("P18", "Complex, gamma, Bessel and interpolation functions follow their definitions",
  "csin, ccos, csinh, ccosh, cexp, cexp2, cexp10, clog, clog2, clog10, csqrt, csqr, cabs, cabssqr, carg, polar and cartesian return both components of the mathematical value in every quadrant and lane, with the principal branch and correct values on the axes and at zero; gamma, factorial_approx and modzerobessel match their definitions; nearest, linear, cosine, cubic and catmullrom interpolation go through the samples x1 at mu=0 and x2 at mu=1 and follow their formula for every position and every sample value in between.",
  ["inputs"], "complex arguments in boxes around the origin covering the quadrants, gamma to 10, Bessel to 25, mu in [0,1]",
  "Tests evaluate few points, mostly in one quadrant and for one component.",
  ["include/kfr/math/complex_math.hpp", "include/kfr/math/impl/gamma.hpp", "include/kfr/math/impl/modzerobessel.hpp", "include/kfr/math/interpolation.hpp"],
  [("complex functions", "include/kfr/math/complex_math.hpp"), ("series", "include/kfr/math/impl/modzerobessel.hpp, gamma.hpp"), ("interpolation", "include/kfr/math/interpolation.hpp")])
P("P19", "Random generators are reproducible and stay within their range",
  "random_next and random_init advance the 128-bit state exactly as defined (four linear congruential generators, bytes rotated) for every state, random_bits and integer random_uniform return exactly these bytes in order for every size, and the same seed always gives the same numbers; random_uniform of floating-point types lies in [0,1) and uses the full random mantissa; random_range lies in [min,max) for integers (reaching both ends, signed or unsigned, up to the whole type) and within [min,max], linear in the uniform value, for floating point; random_normal is the Box-Muller transform of the uniform values and is finite for every state; the gen_random_* expressions yield the same values as the functions, advance a referenced state and leave a copied one alone.",
  ["inputs"], "every generator state",
  "Tests use one seed and do not see a state-dependent overflow, an endpoint that is reached once in 2^23 values or a lane that repeats.",
  ["include/kfr/base/random.hpp", "include/kfr/base/random_bits.hpp", "include/kfr/base/state_holder.hpp"],
  [("state sequence", "include/kfr/base/random_bits.hpp random_next, random_bits"), ("ranges and distributions", "include/kfr/base/random.hpp"), ("state sharing", "include/kfr/base/state_holder.hpp")])
P("P20", "Integer helpers, byte order, fractions and small containers are exact",
  "is_poweroftwo, ilog2, next/prev_poweroftwo, is_even/is_odd, align_up/align_down, gcd, lcm, floor_div, scalar bitreverse and digitreverse4 compute their definition for every value in range (zero and one included); convert_endianess reverses the bytes of every element (each component of a complex) of an array of any length and nothing else; fraction keeps lowest terms with a positive denominator and compares and computes like the rational number; small_buffer and inline_vector hold exactly the elements put in, across growth, shrinking, copy, move, swap, self-assignment and comparison, and inline_vector throws rather than overflow; aligned memory is aligned, large enough, preserved by reallocation and returned; lockfree_ring_buffer delivers elements in order without loss, duplication or writing beyond its capacity.",
  ["inputs", "histories"], "all integer values; container histories of up to 6 operations",
  "Tests check a handful of values and no history of container operations.",
  ["include/kfr/cometa.hpp", "include/kfr/cometa/memory.hpp", "include/kfr/base/fraction.hpp", "include/kfr/base/small_buffer.hpp", "include/kfr/base/inline_vector.hpp", "include/kfr/base/endianness.hpp", "include/kfr/simd/digitreverse.hpp", "include/kfr/base/univector.hpp"],
  [("integer helpers", "include/kfr/cometa.hpp ilog2, next_poweroftwo, gcd, floor_div, align_up"), ("storage switching", "include/kfr/base/small_buffer.hpp resize, swap"), ("queue positions", "include/kfr/base/univector.hpp lockfree_ring_buffer")])
