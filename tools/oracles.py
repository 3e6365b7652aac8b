ORACLE = {
'C01': 'An ideal bounded queue kept in a plain array next to the buffer; after each freely chosen operation every observer (size, empty, full, front, back, index, checked index, iterators in both directions) is compared. Starting states are every fill level at every offset in the storage, so one step from them covers all wrap-around states.',
'C02': 'Contents recorded before the transfer; destination and source are both changed afterwards and must not see each other; the executor\'s memory model turns a use of freed or foreign storage into a violation.',
'C03': 'The mean of the last window of inputs (zeros before the first), recomputed from the input history at every output.',
'C04': 'The square root of the mean of the last window of squares, recomputed from the history and compared through squares.',
'C05': 'The order statistic: as many elements below as above, for even counts the mean of the two middle ones; the moving form over the recomputed last window.',
'C06': 'The difference equation evaluated by the harness on the whole history; stability against the exact triangle condition on the normalised denominator; coefficient constructors against the polynomial with the given roots.',
'C07': 'The sections applied one after another by separate biquads; order, number, emplacement, reset and reuse.',
'C08': 'Textbook magnitude identities of the response at zero, Nyquist, corner and centre (gain exact, half power, unity), evaluated symbolically with trigonometric identities as axioms; poles inside the unit circle.',
'C09': 'As C08, for the Zoelzer family (corner and shelf gains, cut being the inverse of boost).',
'C10': 'Gain at zero, at Nyquist, at the corners and ripple/attenuation bounds from the definition of the approximation; monotone or equiripple end values; stability of every section.',
'C11': 'Closed form of each waveform at the time given by the number of samples since the last reset or setter; range; period; duty and width fractions.',
'C12': 'The published formula at every index (symbolic length and index), symmetry and range at concrete lengths.',
'C13': 'An independent one-sample function compared bit for bit, guard cells around source and destination.',
'C14': 'The logical specification of the answer (first index that holds, membership, ordering), not another search.',
'C15': 'Sample-by-sample definition with guard cells; end points and spacing of spaces.',
'C16': 'Ratio to the input is one constant; greatest magnitude (or RMS) of the result is one.',
'C17': 'Upper/lower bound that is attained, at the first index attaining it.',
'C18': 'The defining sums, written independently, in exact arithmetic; order relations between the means.',
'C19': 'The defining sums; sign-change count from the sign pattern; positions of threshold crossings.',
'C20': 'The defining quotients of sums; scale and shift laws; rolloff by its minimality.',
'C21': 'Arithmetic definition over all values of a type (divisibility, bit patterns, IEEE equalities).',
'C22': 'Inverse pairs compose to the identity; fixed points (0 dB, 180 degrees); bit-exact split and join.',
'C23': 'Strict order for any two frequencies, inverse pairs, end points and equal steps of the spaces in the scale.',
'C24': 'The defining transform sums with exact constants; inverse of forward is the input; any order of transforms on one engine equals fresh engines.',
'C25': 'Circular sums written directly; analytic signal, magnitude, real cepstrum by definition.',
'C26': 'Character-level specification of trimming, case, splitting and joining.',
'C27': 'A reference automaton for the phase plus range and monotonicity inside each phase.',
'C28': 'The one-pole law with the coefficient of the stated time constant; output between previous output and input.',
'C29': 'Odd symmetry, end points, strict order, and expansion after compression being the identity.',
'C30': 'An in-memory libsndfile counts opens, closes, reads and writes and holds the contents; every fault schedule.',
'C31': 'An in-memory libsamplerate records what it is given and chooses freely what it consumes and produces.',
'C32': 'The C++ function called on a copy, guard cells around every array, input unchanged.',
'C33': 'The configuration macros; a model of getenv/setenv.',
'C34': 'Support of each distribution for every word the engine may produce; end words map to end points; seeds reproduce.',
'C35': 'A stand-in for Boost.Python/Boost.Numpy into which the package registers itself; each function is called by its Python name and compared with the C/C++ function; ill-formed arrays must raise before any access.',
'C36': 'An in-memory TagLib file; each field against its own value.',
'C37': 'Constants against independently computed 22-digit values (mpmath); comparisons, searches and container helpers against plain loops over the same elements.',
'C38': 'The two coefficient polynomials evaluated at exp(j pi k/K) by a plain sum; response times denominator must be the numerator; guard cells around the destination.',
'C39': 'The concatenation of the written items in a plain string; console output redirected into a stream; views into heap blocks without a terminator.',
'C40': 'A plain sequence that drops the element at the other end, storage with guard cells on both sides; for spans the range itself, pointers and indices.',
'C41': 'The definition of each search and comparison of the standard, written out over the characters; texts without a terminator among bytes that do not belong to them.',
'C42': 'The alternative and content put in last, kept beside each holder; held objects that record where they live, whether they were moved from and how many are alive.',
'C43': 'The defining sums of the transforms, computed in double precision over the same samples; the counts of setups and buffers of the PFFFT model.',
}
