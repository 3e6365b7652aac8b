# Source of truth for properties.jsonl, MANIFEST.json (see gen.py).
I = 'include/edsp/'
# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)]
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f if f.startswith('bindings') or f.startswith('include') else I + f for f in files],
                               mechanism=[dict(name=n, where=(I + w if not w.startswith('bindings') else w)) for n, w in mech])))

p('C01', 'Ring buffers are bounded double-ended queues',
  'After any sequence of pushes and pops at either end and clears, a ring buffer (fixed or resizable capacity) holds exactly what an ideal queue of the same capacity holds: same size, empty/full state, front, back, indexed, checked and iterated contents, and emptiness after clear. When full, pushing at one end drops the element at the other end. A checked index outside the contents throws, and no operation touches memory outside the storage.',
  ['histories', 'inputs', 'configurations'], 'Every sequence of operations (each chosen freely at each step), every element value, capacities 1 to a small bound, both classes.',
  'No test touches the ring buffers directly; the moving filters reach only push-back on a full buffer. The property ranges over all operation histories and wrap-around states.',
  ['types/ring_buffer.hpp', 'types/fixed_ring_buffer.hpp'],
  [('head/tail/full bookkeeping', 'types/ring_buffer.hpp'), ('head/tail/full bookkeeping over std::array', 'types/fixed_ring_buffer.hpp')])
p('C02', 'Ring buffers own their contents across move, swap and resize',
  'A ring buffer moved, move-assigned or swapped keeps its contents, its capacity and its independence from the source, including after the source is modified, reused or destroyed. Resizing gives an empty buffer of exactly the requested capacity, larger or smaller, usable like a new one. No operation reads or writes freed or foreign memory, and every element is destroyed exactly once.',
  ['histories', 'inputs', 'configurations'], 'All move/assign/swap/resize histories of bounded length over buffers in every fill and wrap state, all element values.',
  'No test moves, swaps or resizes a ring buffer; lifetime errors appear only in particular histories.',
  ['types/ring_buffer.hpp', 'types/fixed_ring_buffer.hpp'], [('copy/move/assignment/swap/resize members', 'types/ring_buffer.hpp'), ('move constructor and assignment', 'types/fixed_ring_buffer.hpp')])
p('C03', 'Moving average filter outputs the mean of the last window',
  'Each output of a moving average filter of length N is the sum of the last N inputs divided by N, with zeros standing for inputs before the first. Single-sample and block filtering agree, the window length reported is the one set, and after reset or resize the filter behaves as a newly built one.',
  ['histories', 'inputs', 'configurations'], 'Every input sequence longer than the window, every window length up to the bound, reset and resize at any point in between.',
  'The test filters one random signal with one window and never resets or resizes; the claim ranges over all signals, lengths and interruption points.',
  ['filter/moving_average_filter.hpp', 'types/ring_buffer.hpp'], [('running sum minus the outgoing sample', 'filter/moving_average_filter.hpp')])
p('C04', 'Moving RMS filter outputs the root mean square of the last window',
  'Each output of a moving RMS filter of length N is the square root of the mean of the squares of the last N inputs, zeros standing for inputs before the first, and is never negative. Single-sample and block filtering agree and after reset or resize the filter behaves as a newly built one.',
  ['histories', 'inputs', 'configurations'], 'Every input sequence longer than the window, every window length up to the bound, reset and resize at any point.',
  'The test filters one random signal with one window; all signals, lengths and interruption points are out of its reach.',
  ['filter/moving_rms_filter.hpp', 'types/ring_buffer.hpp'], [('running sum of squares minus the outgoing square', 'filter/moving_rms_filter.hpp')])
p('C05', 'Median and moving median are true medians',
  'The median of a range is its middle value in sorted order, or the mean of the two middle values when the length is even, whatever the order of the input, which it leaves untouched. Each output of a moving median filter is the median of the last N inputs, zeros standing for inputs before the first; block filtering, reset and resize behave as for a newly built filter.',
  ['histories', 'inputs', 'configurations'], 'Every input sequence (any order, with ties), every window length up to the bound, reset/resize at any point.',
  'Ordering bugs show only for particular permutations and ties; the test uses one random signal and does not test the median itself.',
  ['statistics/median.hpp', 'filter/moving_median_filter.hpp'], [('selection of the middle element', 'statistics/median.hpp'), ('sorted window', 'filter/moving_median_filter.hpp')])
p('C06', 'A biquad realises its difference equation and judges its stability',
  'For any coefficients and any input history, the output of a biquad satisfies a0 y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] from a zero initial state, in single-sample and block use, after setters and after reset. The coefficients read back equal those set, and the stability answer is true exactly when all poles lie strictly inside the unit circle.',
  ['histories', 'inputs', 'configurations'], 'All coefficient values (a0 non-zero), all input sequences of bounded length, reset and setters at any point.',
  'No test runs a biquad at all; stability needs all coefficient triples.',
  ['filter/biquad.hpp'], [('direct form II transposed state', 'filter/biquad.hpp'), ('stability triangle', 'filter/biquad.hpp')])
p('C07', 'A biquad cascade equals its sections applied in order',
  'Filtering through a cascade gives exactly the output of its sections applied one after another, in single-sample and block use, and its size is the number of sections added. Reset returns every section to its initial state; clear empties it, and an empty cascade passes samples unchanged.',
  ['histories', 'inputs', 'configurations'], 'All coefficient values, all inputs of bounded length, up to the bound of sections, resets at any point.',
  'No test exercises the cascade.',
  ['filter/biquad_cascade.hpp'], [('section loop', 'filter/biquad_cascade.hpp')])
p('C08', 'RBJ designs have the response their type promises',
  'For every corner frequency below Nyquist, quality factor and gain, each RBJ design is stable and has its textbook response: unit DC gain and a Nyquist zero for low pass, the mirror for high pass, gain Q at the corner for both, gain Q without phase shift at the centre and zeros at both ends for band pass, unit magnitude everywhere and half a turn at the corner for all pass, and for the shelves the requested dB gain in their band, half of it at the corner and unit gain at the other end; the pole damping is the one Q asks for.',
  ['inputs', 'configurations'], 'All corner frequencies, sample rates, Q and gains in the stated ranges; every filter type.',
  'No test designs a filter; the response must hold for every parameter value.',
  ['filter/internal/rbj_designer.hpp', 'filter.hpp'], [('coefficient formulas', 'filter/internal/rbj_designer.hpp')])
p('C09', 'Zoelzer designs have the response their type promises',
  'For every corner frequency below Nyquist, quality factor and gain, each Zoelzer design is stable and has its textbook response: low pass and high pass with unit gain at their end of the band, both zeros at the other and gain Q at the corner, band pass with unit gain and no phase shift at its centre and zeros at both ends, poles of the corner frequency and the given Q for all three, and for the shelves the requested dB boost or cut in their band, unit gain at the other end and maximally flat (Butterworth) poles and zeros. A cut by g dB is the exact inverse of a boost by g dB.',
  ['inputs', 'configurations'], 'All corner frequencies, sample rates, Q and gains in the stated ranges; every filter type.',
  'No test designs a filter; the response must hold for every parameter value.',
  ['filter/internal/zoelzer_designer.hpp', 'filter.hpp'], [('coefficient formulas', 'filter/internal/zoelzer_designer.hpp')])
p('C10', 'Butterworth and Chebyshev designs meet their specification',
  'For every order and frequency, a Butterworth, Chebyshev I or Chebyshev II design is a stable cascade of the right number of sections with the gain its type promises: unit gain at the reference frequency, full rejection at the opposite end, -3 dB (Butterworth), the requested ripple or the requested attenuation at the corner, and the requested shelf gain.',
  ['inputs', 'configurations'], 'All corner frequencies in the stated range, orders up to the bound, concrete ripple values, every filter type.',
  'No test designs a filter; the response must hold for every frequency and order.',
  ['filter/internal/butterworth_designer.hpp', 'filter/internal/chebyshev_I_designer.hpp', 'filter/internal/chebyshev_II_designer.hpp', 'filter/internal/abstract_designer.hpp', 'filter/internal/bilinear/layout_base.hpp', 'filter/internal/bilinear/bandpass_transformer.hpp', 'filter/internal/bilinear/bandstop_transformer.hpp', 'filter/internal/bilinear/lowpass_transformer.hpp', 'filter/internal/bilinear/highpass_transformer.hpp'],
  [('analog prototypes', 'filter/internal/butterworth_designer.hpp'), ('bilinear transformers', 'filter/internal/bilinear/lowpass_transformer.hpp'), ('gain normalisation', 'filter/internal/abstract_designer.hpp')])
p('C11', 'Oscillators emit the waveform their parameters define',
  'The n-th sample of an oscillator of given amplitude, frequency, phase, skew, width or duty is the value of that waveform at n divided by the sample rate, within the amplitude. Parameters read back as set, changing them takes effect on later samples, and reset restarts the waveform at its initial phase.',
  ['inputs', 'histories', 'configurations'], 'All amplitudes, frequencies up to Nyquist, phases and shape parameters in range; sequences of samples with setter and reset calls in between.',
  'Tests compare a few fixed configurations over one block; setters during generation, period wrap and all parameters are out of reach.',
  ['oscillators/sinusoidal.hpp', 'oscillators/square.hpp', 'oscillators/sawtooth.hpp', 'oscillators/triangular.hpp', 'oscillator.hpp'],
  [('timestamp accumulation and wrap', 'oscillators/square.hpp'), ('waveform formulas', 'oscillators/sawtooth.hpp')])
p('C12', 'Windows follow their definition, symmetric and within bounds',
  'For every length, each window generator writes exactly that many finite samples, equal to the window\'s textbook definition, symmetric about the middle, never above one (up to rounding), and nothing outside the output range.',
  ['inputs', 'configurations'], 'Every length from 1 to the bound, every window, forward ranges of float and double.',
  'Tests check a handful of lengths against scipy; degenerate lengths and every residue of the length are not covered.',
  ['windowing/bartlett.hpp', 'windowing/blackman.hpp', 'windowing/blackman_harris.hpp', 'windowing/blackman_nuttall.hpp', 'windowing/boxcar.hpp', 'windowing/flattop.hpp', 'windowing/hamming.hpp', 'windowing/hanning.hpp', 'windowing/rectangular.hpp', 'windowing/triangular.hpp', 'windowing/welch.hpp'],
  [('index formulas', 'windowing/hamming.hpp'), ('half-length handling', 'windowing/triangular.hpp')])
p('C13', 'Element-wise algorithms compute their function on every sample, bit for bit',
  'amplify, clip, amplify-and-clip, ceil, floor, round, fix and rectification map each input sample to exactly the documented value, including infinities, signed zeros, halves and values at the clip limits, leaving NaN as NaN. The output has one sample per input sample, in-place use gives the same result, and nothing outside the output range is written.',
  ['inputs', 'configurations'], 'Every bit pattern of every sample, every gain and clip limits, lengths up to the bound, separate and in-place ranges.',
  'Tests use one random vector of moderate values; special values, ties and limits are not sampled.',
  ['algorithm/amplifier.hpp', 'algorithm/clipper.hpp', 'algorithm/ceil.hpp', 'algorithm/floor.hpp', 'algorithm/round.hpp', 'algorithm/fix.hpp', 'algorithm/rectify.hpp'],
  [('clamp order', 'algorithm/clipper.hpp'), ('fix towards zero', 'algorithm/fix.hpp')])
p('C14', 'Searches and comparisons answer correctly for every input',
  'Linear and binary search and index-of report the position of a matching element (the first one for linear search and index-of) when there is one and "absent" otherwise, and equality of ranges holds exactly when all elements match. They never read outside the ranges given.',
  ['inputs', 'configurations'], 'Every content with ties, every searched value, lengths 0 to the bound; sorted contents for binary search.',
  'Tests search a few values in one vector; absent values, ties, ends and empty ranges are not covered.',
  ['algorithm/linear_search.hpp', 'algorithm/binary_search.hpp', 'algorithm/indexof.hpp', 'algorithm/equal.hpp'],
  [('iterator comparisons', 'algorithm/linear_search.hpp'), ('lower bound', 'algorithm/binary_search.hpp')])
p('C15', 'Signal constructors produce exactly the samples they promise',
  'Concatenation keeps both inputs in order; padding to at least the input size keeps the input and fills the rest with zeros; linear and logarithmic spaces start and end at the requested points with equal steps (or ratios); the derivative keeps the first sample and then gives the successive differences; a signal is called silent exactly when its mean power is below the threshold. The number of samples is the one requested and nothing outside the output is written.',
  ['inputs', 'configurations'], 'All input contents and end points, all sizes up to the bound.',
  'Tests use one size each; sizes 0 and 1 are not covered.',
  ['algorithm/concatenate.hpp', 'algorithm/padder.hpp', 'algorithm/linspace.hpp', 'algorithm/logspace.hpp', 'algorithm/derivative.hpp', 'algorithm/silence.hpp'],
  [('generation loops', 'algorithm/linspace.hpp'), ('copy and fill', 'algorithm/padder.hpp')])
p('C16', 'Normalisation keeps the shape and brings the signal to unit level',
  'Normalising a signal divides every sample by one common positive factor so that the result has the promised unit level (unit peak or unit RMS according to the variant); in-place use gives the same result.',
  ['inputs', 'configurations'], 'Every non-degenerate signal up to the bound length.',
  'Tests normalise one random signal.',
  ['algorithm/normalize.hpp'], [('common factor', 'algorithm/normalize.hpp')])
p('C17', 'Extremes and peaks are extremes of the signal',
  'max, min, absolute maximum and minimum, peak and their positions return a value of the signal (or its magnitude) that no other sample exceeds, at the right position (the first, for a peak reached more than once), for every sign pattern; peak-to-peak is the difference between the maximum and the minimum; nothing outside the input is read.',
  ['inputs', 'configurations'], 'Every finite content with any sign pattern, lengths 1 to the bound.',
  'Tests use one random vector; all-negative and tied signals are not covered.',
  ['statistics/max.hpp', 'statistics/min.hpp', 'statistics/peak.hpp', 'converter/peak2peak.hpp', 'converter/peak2rms.hpp'],
  [('extreme selection', 'statistics/peak.hpp'), ('difference of extremes', 'converter/peak2peak.hpp')])
p('C18', 'Means, moments and norms follow their definition',
  'Arithmetic, geometric, harmonic and generalised means, raw and central moments, variance, standard deviation, skewness, kurtosis, p-norms and weighted forms equal their mathematical definitions for every signal. Variance is never negative and shifts of the signal leave central moments unchanged.',
  ['inputs', 'configurations'], 'Every signal in the stated range, lengths up to the bound.',
  'Tests compare one random vector with numpy to a loose tolerance.',
  ['statistics/mean.hpp', 'statistics/geometric_mean.hpp', 'statistics/harmonic_mean.hpp', 'statistics/generalized_mean.hpp', 'statistics/moment.hpp', 'statistics/variance.hpp', 'statistics/skewness.hpp', 'statistics/kurtosis.hpp', 'statistics/norm.hpp'],
  [('accumulations', 'statistics/moment.hpp'), ('bias terms', 'statistics/variance.hpp')])
p('C19', 'Temporal features follow their definition',
  'Energy, power, RMS, RSSQ, equivalent level, loudness, zero-crossing rate, duration, effective duration, AMDF, ASDF and SNR of a signal equal their mathematical definitions for every signal; energy-like quantities are never negative. Nothing outside the given ranges is read or written.',
  ['inputs', 'configurations'], 'Every signal in the stated range, lengths up to the bound.',
  'Tests compare one random vector; sign patterns, silence and short signals are not covered.',
  ['feature/temporal/energy.hpp', 'feature/temporal/power.hpp', 'feature/temporal/rms.hpp', 'feature/temporal/rssq.hpp', 'feature/temporal/leq.hpp', 'feature/temporal/azcr.hpp', 'feature/temporal/duration.hpp', 'feature/temporal/amdf.hpp', 'feature/temporal/asdf.hpp', 'feature/temporal/snr.hpp', 'feature/perceptual/loudness.hpp'],
  [('accumulations', 'feature/temporal/energy.hpp'), ('sign change count', 'feature/temporal/azcr.hpp')])
p('C20', 'Spectral and statistical features follow their definition',
  'Centroid, spread, skewness, kurtosis, crest, flatness, entropy, flux, rolloff, slope, decrease, variation and irregularity of a spectrum equal their mathematical definitions for every spectrum in range. The centroid lies between the first and last centre frequency, flatness and variation are at most one and rolloff is an index of the spectrum over its size; nothing outside the ranges is read.',
  ['inputs', 'configurations'], 'Every non-negative spectrum in the stated range, lengths up to the bound, all centre frequencies.',
  'Tests compare a few features on one random spectrum; slope, decrease, variation and irregularity are not tested.',
  ['feature/statistics/centroid.hpp', 'feature/statistics/spread.hpp', 'feature/statistics/crest.hpp', 'feature/statistics/flatness.hpp', 'feature/statistics/entropy.hpp', 'feature/statistics/flux.hpp', 'feature/statistics/rolloff.hpp', 'feature/statistics/slope.hpp', 'feature/statistics/decrease.hpp', 'feature/statistics/variation.hpp', 'feature/spectral/spectral_irregularity.hpp', 'feature/spectral/spectral_rolloff.hpp', 'feature/spectral/spectral_flux.hpp', 'feature/spectral/spectral_centroid.hpp', 'feature/spectral/spectral_spread.hpp', 'feature/spectral/spectral_skewness.hpp', 'feature/spectral/spectral_kurtosis.hpp', 'feature/spectral/spectral_slope.hpp', 'feature/spectral/spectral_decrease.hpp', 'feature/spectral/spectral_crest.hpp', 'feature/spectral/spectral_flatness.hpp', 'feature/spectral/spectral_entropy.hpp', 'feature/spectral/spectral_variation.hpp'],
  [('weighted sums', 'feature/statistics/centroid.hpp'), ('cumulative threshold', 'feature/statistics/rolloff.hpp')])
p('C21', 'Integer and floating helpers are right for every value',
  'Parity, power-of-two, next-power-of-two, primality, half, sign, NaN and infinity tests and other scalar helpers give the mathematically right answer for every value of their argument type for which it is representable.',
  ['inputs'], 'Every 32-bit and 64-bit integer value (primality: up to the bound) and every double bit pattern.',
  'No test calls these helpers directly; wrong answers sit at negative, large and boundary values.',
  ['math/numeric.hpp', 'math/complex.hpp'], [('bit and modulo tricks', 'math/numeric.hpp')])
p('C22', 'Unit conversions are exact inverses and complex split/join round-trips',
  'Decibel-magnitude, decibel-power and degree-radian conversions follow their formulas for every value and invert each other, keep order, and map the reference to zero. Splitting complex samples into real and imaginary parts and joining them again restores every sample bit for bit, in the right places and nowhere else.',
  ['inputs', 'configurations'], 'Every finite value in the stated range (scalar and range forms), every bit pattern for complex split/join, lengths up to the bound.',
  'Tests convert one random vector; inverses, order and special values are not covered.',
  ['converter/db2mag.hpp', 'converter/mag2db.hpp', 'converter/db2pow.hpp', 'converter/pow2db.hpp', 'converter/deg2rad.hpp', 'converter/rad2deg.hpp', 'converter/complex2real.hpp', 'converter/real2complex.hpp'],
  [('conversion formulas', 'converter/db2mag.hpp'), ('interleaving', 'converter/complex2real.hpp')])
p('C23', 'Auditory scales are increasing and invert to hertz',
  'Mel, Bark, ERB and cent conversions follow their published formulas, increase strictly with frequency and are undone by their inverses for every frequency. Auditory spaces (mel, Bark, ERB, cent) give the requested number of points: the scale values of frequencies evenly spaced from the first limit to the last.',
  ['inputs', 'configurations'], 'Every frequency in the audible range and beyond (stated bounds), every pair of limits, point counts up to the bound.',
  'Tests compare fixed values with a Python copy of the same formula.',
  ['auditory/converter/hertz2mel.hpp', 'auditory/converter/mel2hertz.hpp', 'auditory/converter/hertz2bark.hpp', 'auditory/converter/bark2hertz.hpp', 'auditory/converter/hertz2erb.hpp', 'auditory/converter/erb2hertz.hpp', 'auditory/converter/hertz2cent.hpp', 'auditory/converter/cent2hertz.hpp', 'auditory/melspace.hpp', 'auditory/barkspace.hpp', 'auditory/erbspace.hpp', 'auditory/centspace.hpp', 'auditory/audspace.hpp'],
  [('scale formulas', 'auditory/converter/hertz2bark.hpp'), ('even spacing', 'auditory/melspace.hpp')])
p('C24', 'Fourier, cosine and Hartley transforms are right and invert',
  'Complex and real discrete Fourier transforms, cosine and Hartley transforms equal their defining sums for every input, with the documented sizes and scaling, and the inverse transform of a transform returns the signal. A transform engine of a size may be used for several signals and transforms in any order, and never touches memory outside the given ranges.',
  ['inputs', 'histories', 'configurations'], 'Every signal, sizes up to the bound (odd and even), any order of transforms on one engine.',
  'Tests transform one random signal of one size; odd sizes, reuse of an engine and scaling of every element are out of reach.',
  ['spectral/dft.hpp', 'spectral/dct.hpp', 'spectral/hartley.hpp', 'spectral/fft_engine.hpp', 'spectral/internal/libfftw_impl.hpp', 'spectral/internal/fft_impl.hpp'],
  [('size functions and scaling', 'spectral/fft_engine.hpp'), ('plan cache', 'spectral/internal/libfftw_impl.hpp')])
p('C25', 'Convolution, correlation, Hilbert, cepstrum and spectra are right',
  'Convolution and cross-correlation equal their defining sums (with the requested scaling), the Hilbert transform is the analytic signal whose real part is the input, the power spectrum and periodogram equal the squared magnitudes of the Fourier transform, and the cepstrum inverts the log magnitude; each with the documented sizes and without touching memory outside the given ranges.',
  ['inputs', 'configurations'], 'Every signal (all pairs of signals), sizes up to the bound (odd and even), each scale option.',
  'Tests transform one random signal of one size.',
  ['spectral/convolution.hpp', 'spectral/correlation.hpp', 'spectral/hilbert.hpp', 'spectral/cepstrum.hpp', 'spectral/spectrum.hpp'],
  [('product in the frequency domain', 'spectral/convolution.hpp'), ('lag reordering and scaling', 'spectral/correlation.hpp'), ('one-sided doubling', 'spectral/hilbert.hpp')])
p('C26', 'String helpers handle every text',
  'Trimming removes exactly the leading and/or trailing white space, case conversion changes exactly the (ASCII) letters, splitting yields in order exactly the non-empty runs of characters between separators, joining puts the separator between the pieces and nothing else, so joining and then splitting restores non-empty pieces, for every string including empty ones, all-blank ones, embedded zeros and bytes above 127, with no out-of-range access.',
  ['inputs'], 'Every byte string up to the bound length, every separator.',
  'Tests use a few ASCII strings; empty, all-blank, negative-char and NUL contents are not covered.',
  ['string/trim.hpp', 'string/split.hpp', 'string/join.hpp', 'string/to_lower.hpp', 'string/to_upper.hpp'],
  [('find_if scans', 'string/trim.hpp'), ('getline loop', 'string/split.hpp')])
p('C27', 'The ADSR envelope passes through its phases within bounds',
  'An ADSR envelope stays between zero and one, rises monotonically at the attack rate from the moment the key is pressed, falls to the sustain level at the decay rate, holds it until the key is released, falls to zero at the release rate and then stays silent; the key may be pressed or released at any sample. A new target is approached and held. The envelope multiplies the signal, in a block as sample by sample. Rates, times and levels read back as set, and times stay the same when the sample rate changes.',
  ['histories', 'inputs', 'configurations'], 'All attack/decay/release rates and times and sustain levels in range, key on/off at any sample.',
  'No test touches the envelope.',
  ['experimental/envelope/adsr.hpp'], [('state machine', 'experimental/envelope/adsr.hpp')])
p('C28', 'The attack-release follower tracks and stays within its input range',
  'The envelope follower moves towards its (optionally rectified) input on every sample, never overshoots it, uses the attack time constant (in milliseconds) when the input is above and the release time constant when it is at or below, and reset or a new parameter returns it to zero. Parameters read back as set; a block equals its samples in order.',
  ['histories', 'inputs', 'configurations'], 'All times and sample rates in range, every input sequence of bounded length, reset at any point.',
  'No test touches the follower.',
  ['experimental/envelope/ar.hpp'], [('one-pole smoothing', 'experimental/envelope/ar.hpp')])
p('C29', 'Companding is monotone, odd and undone by expanding',
  'Mu-law compression and expansion follow their definitions, map [-max,max] to itself, keep sign and order, fix 0 and the end points, and each undoes the other for every sample, maximum and compression factor; nothing outside the ranges is touched.',
  ['inputs', 'configurations'], 'Every sample in [-max,max], the stated compression factors and maxima, lengths up to the bound.',
  'No test touches the companders.',
  ['experimental/quantizer/mu_law_compressor.hpp'],
  [('companding formula', 'experimental/quantizer/mu_law_compressor.hpp')])
p('C30', 'Audio files are opened, read, written and closed exactly once',
  'A decoder delivers every frame of the file exactly once and in order whatever the channel count and request size, reports the file\'s properties only while open (zeros otherwise), and seeks where told or reports failure; a request that is no multiple of the channels delivers the whole frames in it; an encoder writes exactly the samples given, in the format of its sample type. Every handle opened is closed exactly once whatever the order of open, close, destruction and copying, open failures are reported and leave the object usable, calls without an open file move nothing, and no buffer is overrun.',
  ['histories', 'inputs', 'fault_sequences', 'configurations'], 'All frame/channel counts and block sizes up to the bound, short reads and open failures at any call, all open/close/read histories of bounded length.',
  'Tests read a few stereo or mono files successfully; failures, reopen, double close and other channel counts are out of reach.',
  ['io/decoder.hpp', 'io/encoder.hpp', 'io/internal/decoder/decoder_impl.hpp', 'io/internal/decoder/libsndfile_decoder_impl.hpp', 'io/internal/encoder/encoder_impl.hpp', 'io/internal/encoder/libsndfile_encoder_impl.hpp'],
  [('open/close/read wrappers', 'io/internal/decoder/libsndfile_decoder_impl.hpp'), ('open/close/write wrappers', 'io/internal/encoder/libsndfile_encoder_impl.hpp')])
p('C31', 'The resampler passes on exactly the frames consumed and produced',
  'Resampling hands the library\'s engine exactly the input and output ranges given, with the requested ratio, quality and channel count, returns the numbers of frames it consumed and produced (none when the engine refuses the block), keeps its state between blocks, and destruction releases it exactly once even if the object is copied; errors of the engine are reported, and exactly the ratios the engine supports (1/256 to 256) are valid.',
  ['histories', 'inputs', 'configurations'], 'All block sizes, ratios and channel counts up to the bound, every sequence of process/reset/ratio changes of bounded length.',
  'The test resamples one signal with one ratio.',
  ['io/resampler.hpp', 'io/internal/resampler/libresample_impl.hpp', 'io/internal/resampler/libsamplerate_impl.hpp', 'io/internal/resampler/resampler_impl.hpp'],
  [('engine wrapper', 'io/internal/resampler/libresample_impl.hpp')])
p('C32', 'The C interface gives the same results as the C++ library',
  'Every function of the C interface returns or writes what the C++ function of that name gives for the same arguments, one output per input, and touches nothing outside the arrays and sizes it is given.',
  ['inputs', 'configurations'], 'All array contents and scalar arguments, sizes up to the bound, every function.',
  'No test calls the C interface.',
  ['bindings/c/src/algorithm.c', 'bindings/c/src/statistics.c', 'bindings/c/src/windowing.c', 'bindings/c/src/spectral.c', 'bindings/c/src/converter.cpp', 'bindings/c/src/core.c', 'bindings/c/include/cedsp/algorithm.h', 'bindings/c/include/cedsp/statistics.h'],
  [('forwarding wrappers', 'bindings/c/src/algorithm.c'), ('forwarding wrappers', 'bindings/c/src/statistics.c')])
p('C33', 'Library information and environment access are consistent',
  'The version string is made of the major, minor and patch numbers reported one by one; build date and build time are those of the build, and the FFT, codec and resampling libraries, the system, the processor and the compiler named are those the library was built for. Reading an environment variable returns the value set last (also when it is empty), or reports that it is missing when it is not set; names and values given as views end where the view ends; setting one reports success exactly when it took effect, and an empty name or one holding an equal sign is refused. The C interface gives the same answers.',
  ['inputs', 'histories', 'configurations'], 'All variable names and values up to the bound length, set/unset histories.',
  'Tests compare the strings for non-emptiness and set one variable.',
  ['core/library_info.hpp', 'core/system.hpp', 'bindings/c/src/core.c'], [('accessors', 'core/library_info.hpp'), ('getenv/setenv wrappers', 'core/system.hpp')])
p('C34', 'Random sources stay within their distribution\'s support',
  'Constant, binary, white, pink, brown and Perlin sources produce, for every word their random engine can give, finite samples inside the range their parameters promise: the constant source repeats its value, the binary source emits one exactly with the requested probability and zero otherwise, white noise is uniform over its range, brown and pink noise are the fixed filters of white noise (the leaky integrator, and Kellet\'s pink filter), Perlin noise interpolates the gradients of its cell and stays in [-1,1]. The generic random generator draws from the standard distribution named, with the parameters given; math::rand gives a number of its range.',
  ['inputs', 'configurations'], 'Every output of the random engine (arbitrary symbolic words), all parameters in range, sequences of bounded length.',
  'No test touches the generators; extremes of the engine are astronomically unlikely to be sampled.',
  ['math/numeric.hpp', 'random/random_generator.hpp', 'random/binary_generator.hpp', 'random/constant_generator.hpp', 'random/noise/white_noise_generator.hpp', 'random/noise/pink_noise_generator.hpp', 'random/noise/brown_noise_generator.hpp', 'random/noise/perlin_noise_generator.hpp'],
  [('engine and distribution', 'random/random_generator.hpp'), ('noise shaping', 'random/noise/pink_noise_generator.hpp')])
p('C35', 'The Python package returns the library\'s results for every array',
  'Every function and class of the Python package applied to an array returns what the C++ function of that name gives, one output per input or the documented size, and refuses arrays of the wrong number of dimensions, mismatched sizes or types instead of reading beyond them.',
  ['inputs', 'configurations'], 'All one-dimensional arrays of the supported types; wrong dimensions and mismatched sizes refused.',
  'Tests call each function with one well-formed random array.',
  ['bindings/python/src/algorithm.cpp', 'bindings/python/src/converter.cpp', 'bindings/python/src/statistics.cpp', 'bindings/python/src/feature_statistics.cpp', 'bindings/python/src/feature_temporal.cpp', 'bindings/python/src/feature_spectral.cpp', 'bindings/python/src/spectral.cpp', 'bindings/python/src/filter.cpp', 'bindings/python/src/oscillator.cpp', 'bindings/python/src/string.cpp', 'bindings/python/src/core.cpp', 'bindings/python/src/auditory.cpp', 'bindings/python/src/windowing.cpp', 'bindings/python/src/io.cpp'],
  [('array wrappers', 'bindings/python/src/algorithm.cpp')])
p('C36', 'Audio metadata are those of the file, and absent for an unreadable one',
  'Title, artist, album, genre, year and track number read from a file are those its tag holds, each from its own field and as often as asked; for a file that cannot be read the texts are empty and the numbers zero, without a crash.',
  ['inputs', 'configurations'], 'All texts and numbers, readable and unreadable files.',
  'Tests read the tags of a few existing files.',
  ['io/metadata.hpp', 'io/internal/metadata/libtag_impl.hpp', 'io/internal/metadata/metadata_impl.hpp'], [('field accessors', 'io/internal/metadata/libtag_impl.hpp')])
p('C37', 'Constants, comparisons and container helpers are right for every value',
  'Every entry of the table of constants is the mathematical constant it is named after to the precision of its type. The generic comparison holds between a number and itself and between integers exactly when they are the same, is symmetric, and never calls numbers further apart than its tolerance equal; searching, advancing, size, data, emptiness and null tests of ranges, containers, arrays, texts and pointers, and the type tests, give the right answer for every content and length.',
  ['inputs'], 'All constants for three types; all bit patterns compared; all contents up to the bound.',
  'No test touches these helpers.',
  ['math/constant.hpp', 'meta/equal.hpp', 'meta/contains.hpp', 'meta/advance.hpp', 'meta/size.hpp', 'meta/empty.hpp', 'meta/data.hpp', 'meta/is_null.hpp', 'meta/is_signed.hpp', 'meta/is_unsigned.hpp', 'meta/is_char.hpp', 'meta/is_iterator.hpp'],
  [('comparison', 'meta/equal.hpp'), ('search', 'meta/contains.hpp')])
p('C38', 'Frequency response of given coefficients',
  'For every set of feed-forward and feedback coefficients and every number of points K, the response written for point k is the quotient of the two polynomials at exp(j pi k / K); exactly K values are written.',
  ['inputs', 'configurations'], 'All coefficients, all lengths and numbers of points up to the bound.',
  'No test calls it.',
  ['filter.hpp'], [('freq', 'filter.hpp')])
p('C39', 'Log messages hold exactly what was written and respect the minimum level',
  'Texts, views, integers, tabs and line ends written to a logger appear in its message once, in order and exactly (nothing beyond a view is read), colours leave the text alone; the message is printed once when the logger ends, and only from the minimum level on. Names, paths and levels are those given or the current defaults.',
  ['inputs', 'histories', 'configurations'], 'All contents up to the bound, all pairs of levels.',
  'No test looks at a log message.',
  ['core/logger.hpp'], [('operator<<', 'core/logger.hpp'), ('destructor', 'core/logger.hpp')])
p('C40', 'Ring views and spans show exactly the storage they refer to',
  'A ring_span behaves as a bounded queue with two ends kept in storage it does not own: pushing at an end of a full one gives up the element at the other end, extraction returns the element (or what its extraction policy says, leaving in the storage what the policy leaves), elements keep their order through front, back, iterators of every kind and direction, swap and move, and nothing outside the storage is read or written. A span has exactly the elements of its range: first, last, subspan, index, iteration, copies and comparisons and bytes agree with the storage, writes reach it, and at() refuses every index outside.',
  ['inputs', 'histories', 'configurations'], 'Every operation sequence from every start offset and fill level, and every sub-range, not one sequence per test.',
  'No test touches ring_span or span.',
  ['types/ring_span.hpp', 'thirdparty/nonstd/ring_span.hpp', 'types/span.hpp', 'thirdparty/nonstd/span.hpp'],
  [('ring_span', 'thirdparty/nonstd/ring_span.hpp'), ('span', 'thirdparty/nonstd/span.hpp')])
p('C41', 'String views search, compare and cut as the text they refer to',
  'A string_view refers to exactly the characters it was given: searching (find, rfind, find_first_of, find_last_of and their opposites, for a view, a text, characters or one character, from any position) gives the position the definition of the standard gives, or npos, for every text and pattern, the empty ones included; comparisons order by unsigned characters and then length; substr, copy, remove_prefix and remove_suffix give the requested part and refuse positions outside; no character outside the view is read.',
  ['inputs'], 'Every content of text and pattern up to the bound and every start position, empty ones included.',
  'No test touches string_view.',
  ['types/string_view.hpp', 'thirdparty/nonstd/string_view.hpp'], [('find', 'thirdparty/nonstd/string_view.hpp'), ('compare', 'thirdparty/nonstd/string_view.hpp')])
p('C42', 'optional, expected, variant and any hold what was put in, for as long',
  'After any sequence of construction, assignment (from a value, another holder, nothing or an error), emplace, reset, swap, copy and move, an optional, expected, variant or any holds exactly the last thing put in: state, type and content agree through every accessor, value_or, visit, get_if and any_cast; reading what is not held throws; copies leave their source alone, also when it is a named non-constant object; every held object is destroyed exactly once, and never used outside its life. Comparisons follow the contents: an empty optional comes first, variants order by alternative, two failed results are equal when their errors are; equal holders have equal hashes.',
  ['inputs', 'histories'], 'Every pair of states and operations with objects that track their own lifetime.',
  'No test touches these types.',
  ['types/optional.hpp', 'types/expected.hpp', 'types/variant.hpp', 'types/any.hpp', 'thirdparty/nonstd/optional.hpp', 'thirdparty/nonstd/expected.hpp', 'thirdparty/nonstd/variant.hpp', 'thirdparty/nonstd/any.hpp'],
  [('optional', 'thirdparty/nonstd/optional.hpp'), ('expected', 'thirdparty/nonstd/expected.hpp'), ('variant', 'thirdparty/nonstd/variant.hpp'), ('any', 'thirdparty/nonstd/any.hpp')])
p('C43', 'With PFFFT as the back end the transforms are the same',
  'Built with PFFFT instead of FFTW, the Fourier, cosine and Hartley transforms of single-precision signals are their defining sums for every signal of a size PFFFT has (2^a 3^b 5^c, a multiple of 16 for complex and of 32 for real and cosine transforms): complex and real, forward and inverse (which restores the signal), the spectrum of a real signal with every bin from 0 to half the size in its own place, DCT-II and DCT-III as with FFTW, the Hartley transform of all samples; convolution and the Hilbert transform built on them follow. The input is left alone, nothing outside the output is written, an engine and its copies run any sequence of transforms, and every setup and work buffer is released once.',
  ['inputs', 'histories'], 'Every signal with arbitrary samples on a background, every pair of transforms on one engine.',
  'The tests are built with FFTW only.',
  ['spectral/internal/libpffft_impl.hpp', 'spectral/internal/fft_impl.hpp', 'spectral/fft_engine.hpp'],
  [('PFFFT wrapper', 'spectral/internal/libpffft_impl.hpp')])
# properties not claimed: reason
NA = {}
NOTE = {}
