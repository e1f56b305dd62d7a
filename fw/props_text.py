
P('C01', 'Element-wise operators equal the scalar operator in every lane',
  'For every vector type and instruction set, applying +, -, *, /, and for integers %, &, |, ^, ~, << and >>, unary minus, !, increment or decrement '
  '(operator, compound-assignment and mixed vector/scalar forms) gives in every lane exactly the value the scalar C++ operator gives for that lane, '
  'whenever the scalar operation is defined; integer results wrap to the entry type and floating-point results are correctly rounded, NaN for NaN; with Vc_ENABLE_FLOAT_BIT_OPERATORS, &, |, ^ and ~ (SSE, AVX) act on the bits of floating-point lanes. '
  'No lane influences another, and operands other than the assigned one keep their value.',
  ['inputs', 'configurations'], 'all operand values of every entry type, every supported instruction set and vector width, optimised and unoptimised builds',
  WHY % 'operand value',
  ['Vc/common/operators.h', 'Vc/scalar/vector.h', 'Vc/sse/vector.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.h', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/sse/intrinsics.h'],
  [('generic operators', 'Vc/common/operators.h'), ('per-ISA arithmetic', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/avx/detail.h'), ('emulated intrinsics below SSE4.1/AVX2', 'Vc/sse/intrinsics.h, Vc/avx/intrinsics.h')],
  BASE_T + 'a scalar oracle (128-bit integers, volatile scalar floating point) judges every lane of every result',
  BASE_N + 'Operations whose scalar form is undefined (signed overflow for int, division by zero, shift out of range) are not generated.')
P('C02', 'Comparisons and masks give exact Boolean lanes',
  'A comparison of two vectors (or a vector and a scalar) yields a mask whose lane i is the scalar comparison of lane i, including for NaN, infinities and signed zero; '
  'mask &, |, ^, !, assignment, subscripts, shifting, loading from and storing to bool arrays, conversion to an integer and the reductions all/any/none/some, count and first-set agree '
  'with the same operation on an array of bools of that length. '
  'Loads and stores of a mask touch exactly its number of bools.',
  ['inputs', 'configurations'], 'all operand values and all 2^N mask patterns of every vector and simd-array mask type and instruction set',
  WHY % 'operand pair and mask pattern',
  ['Vc/scalar/mask.h', 'Vc/sse/mask.h', 'Vc/sse/mask.tcc', 'Vc/avx/mask.h', 'Vc/avx/mask.tcc', 'Vc/common/simdmaskarray.h', 'Vc/common/maskbool.h', 'Vc/common/mask.h'],
  [('compare intrinsics', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/common/simdarray.h'), ('mask bit extraction', 'Vc/sse/mask.tcc, Vc/avx/mask.tcc, Vc/sse/detail.h'), ('mask memory', 'Vc/sse/mask.tcc, Vc/avx/detail.h mask_load/mask_store')],
  BASE_T + 'an array-of-bool oracle judges each mask; guard pages and canaries around the bool arrays observe the memory footprint',
  BASE_N + 'N up to 20 for simd-array masks.')
P('C03', 'Loads and stores move exactly their entries, converted like a scalar',
  'load() (and the constructor from a pointer) puts into lane i the value static_cast<EntryType>(mem[i]) for every supported source type and every alignment/streaming/prefetch flag; '
  'store() writes lane i to mem[i] and nothing else. They access only the Size entries at the pointer: a load or store that ends or starts at an inaccessible page succeeds. '
  'A masked store writes exactly the entries its mask selects: the other entries are neither changed nor rewritten, so another thread may own them. The prefetch functions accept any address and have no visible effect.',
  ['inputs', 'configurations', 'schedules'], 'all memory contents, placements relative to page boundaries and misalignments allowed by the flag, masks, conversions and instruction sets; concurrent owners of masked-out entries',
  WHY % 'memory content, placement and mask',
  ['Vc/common/loadinterface.h', 'Vc/common/storeinterface.h', 'Vc/avx/vectorbase.h', 'Vc/scalar/vector.tcc', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.tcc', 'Vc/common/simdarray.h'],
  [('converting loads', 'Vc/sse/vector.tcc load, Vc/avx/detail.h load'), ('masked stores', 'Vc/sse/vectorhelper.h, Vc/avx/vectorhelper.tcc, Vc/sse/intrinsics.h maskmov emulation'), ('simd-array splitting', 'Vc/common/simdarray.h')],
  BASE_T + 'guard pages and canaries observe the footprint, memcpy oracles the values, and a writer thread in a masked-out entry observes lost updates',
  BASE_N + 'Source types are those the library supports for each vector type; double vectors of the SSE ABI have no loads from 8-bit integers.')
P('C04', 'Gathers read exactly the elements their indexes select',
  'A gather (constructor or member with a base pointer and indexes, data[indexes], and member/array selections such as data[indexes][&S::m][&U::n] or data[indexes][&S::arr][i], with one or a vector of inner indexes) '
  'gives lane i the value of the object at indexes[i] converted to the entry type, for every index container (index vectors of any integer type, C arrays, std::array, Vc::array) and negative offsets from an interior pointer. '
  'With a mask, deselected lanes are not accessed in memory (their indexes may be invalid) and keep the old value (member, where()) or become zero (constructor). '
  'No byte outside the selected elements is needed: the array may end or start at an inaccessible page.',
  ['inputs', 'configurations'], 'all memory contents and placements, index containers and values, masks, structure layouts, vector and simd-array types, instruction sets and gather strategies',
  WHY % 'index vector, mask and placement',
  ['Vc/common/gatherinterface.h', 'Vc/common/gatherinterface_deprecated.h', 'Vc/common/gatherimplementation.h', 'Vc/common/subscript.h', 'Vc/common/detail.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/common/simdarray.h'],
  [('hardware gathers', 'Vc/sse/vector.h, Vc/avx/vector.h, Vc/avx/intrinsics.h gather'), ('masked gather strategies', 'Vc/common/gatherimplementation.h'), ('offset scaling of member selections', 'Vc/common/subscript.h SubscriptOperation')],
  BASE_T + 'an element-wise oracle judges each lane; arrays flush with guard pages turn stray reads into faults that are reported',
  BASE_N + 'Arrays of up to 300 objects.')
P('C05', 'Scatters write exactly the elements their indexes select',
  'A scatter (member function with base pointer and indexes, data[indexes] = v, and member/array selections) stores lane i, converted to the element type, into the object at indexes[i] for distinct indexes and changes no other byte. '
  'With a mask (argument or where(mask)), deselected lanes touch no memory: their indexes may be invalid and the elements they name keep concurrent updates of other threads. The source vector is unchanged.',
  ['inputs', 'configurations', 'schedules'], 'all destinations and placements, distinct index sets, masks, structure layouts, vector and simd-array types, instruction sets and scatter strategies; concurrent owners of other elements',
  WHY % 'index vector, mask and placement',
  ['Vc/common/scatterinterface.h', 'Vc/common/scatterinterface_deprecated.h', 'Vc/common/scatterimplementation.h', 'Vc/common/subscript.h', 'Vc/common/where.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/common/simdarray.h'],
  [('masked scatter strategies', 'Vc/common/scatterimplementation.h'), ('offset scaling of member selections', 'Vc/common/subscript.h applyScale'), ('where() on subscript expressions', 'Vc/common/where.h, Vc/common/subscript.h')],
  BASE_T + 'the whole destination is compared byte for byte with a scalar model, guard pages catch stray writes, a writer thread observes lost updates',
  BASE_N + 'Scatters with repeated indexes are not judged (their order is not specified).')
P('C06', 'Conversions give the standard scalar conversion in every lane',
  'simd_cast, explicit construction and implicit conversion between vectors, simd arrays and masks of any entry type, width and ABI give in every lane static_cast<To>(lane) wherever that is defined (integers wrap to the target type). '
  'simd_cast<To>(x0, x1, ...) concatenates its arguments, fills missing lanes with zero and drops surplus ones; simd_cast<To, I>(x) converts the I-th To-sized piece. '
  'Mask casts keep each Boolean lane. Operators between a vector and a scalar or vector of another arithmetic type compute as if both operands were first converted to the entry type of the result. reinterpret_components_cast keeps the bits.',
  ['inputs', 'configurations'], 'all operand values and masks for every (source, target) pair of vector, simd-array and mask types and every instruction set',
  WHY % 'value and type pair',
  ['Vc/sse/casts.h', 'Vc/avx/casts.h', 'Vc/sse/simd_cast.h', 'Vc/avx/simd_cast.h', 'Vc/avx/simd_cast_caller.tcc', 'Vc/scalar/simd_cast.h', 'Vc/sse/simd_cast_caller.tcc', 'Vc/common/simd_cast.h', 'Vc/common/simdarray.h', 'Vc/common/operators.h'],
  [('element conversions', 'Vc/sse/casts.h convert, Vc/avx/casts.h convert'), ('vector and mask casts per register shape', 'Vc/sse/simd_cast.h, Vc/avx/simd_cast.h, Vc/scalar/simd_cast.h'), ('simd-array splitting and merging', 'Vc/common/simdarray.h simd_cast')],
  BASE_T + 'static_cast per lane is the oracle, over every pair of types, up to four arguments and every piece index',
  BASE_N + 'Out-of-range floating-point to integer conversions are undefined and not generated.')
P('C07', 'A simd array of any length N computes like N scalars',
  'SimdArray<T, N> has the arithmetic, bitwise and shift operators of the native vectors (binary, compound assignment and mixed array/scalar forms) and gives for every N - '
  'smaller than, equal to, between or above the native register widths - in each of its N elements exactly the scalar result, independent of how the library splits the array into registers '
  'and of whatever the padding lanes of a partly used register hold.',
  ['inputs', 'configurations'], 'all operand values, entry types and array lengths N on every instruction set',
  WHY % 'operand value and array length',
  ['Vc/common/simdarray.h', 'Vc/common/simdarrayhelper.h', 'Vc/common/simdarrayfwd.h', 'Vc/common/operators.h'],
  [('recursive splitting', 'Vc/common/simdarray.h, Vc/common/simdarrayhelper.h'), ('choice of the vector type for N elements', 'Vc/common/select_best_vector_type.h')],
  BASE_T + 'a scalar oracle judges each of the N elements', BASE_N + 'N up to 40 (quick: 14 lengths).')
P('C08', 'Write-masked operations change exactly the selected lanes',
  'v(mask) op= x, where(mask) | v op= x, where(mask)(v) op= x and where(mask, v) op= x for =, +=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=, ++ and --, with vector or scalar x, as well as assign(x, mask), '
  'setZero(mask), setZeroInverted(mask), setQnan(mask) and iif(mask, a, b), give in each selected lane the unmasked result and leave each other lane bit for bit as it was. '
  'mask and x keep their value. The operation must be defined in every lane, since deselected lanes may be computed and discarded.',
  ['inputs', 'configurations'], 'all operands and mask patterns of every vector and simd-array type and instruction set',
  WHY % 'operand and mask',
  ['Vc/common/where.h', 'Vc/common/writemaskedvector.h', 'Vc/scalar/writemaskedvector.h', 'Vc/common/iif.h', 'Vc/common/simdarray.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/sse/vectorhelper.h'],
  [('masked assignment expressions', 'Vc/common/where.h, Vc/common/writemaskedvector.h'), ('blends', 'Vc/sse/vector.h assign, Vc/avx/vector.h assign, Vc/sse/intrinsics.h blendv emulation')],
  BASE_T + 'a scalar model selects per lane between the old value and the scalar result; all spellings are run against it',
  BASE_N + 'The masked integer division of a deselected lane by zero is excluded (it traps below AVX2: the whole vector is divided).')
P('C09', 'Horizontal reductions cover exactly the (selected) elements',
  'min(), max(), sum() and product() return the minimum, maximum, sum and product of all elements, and with a mask those of exactly the selected elements whatever the others hold '
  '(0 and 1 for an empty sum and product); integer results wrap to the entry type, floating-point ones are exact up to the rounding of the additions or multiplications in some order. '
  'partialSum() gives in lane i the sum of lanes 0..i. min(a, b) and max(a, b) act per lane.',
  ['inputs', 'configurations'], 'all vectors and (for min and max: non-empty) masks of every vector and simd-array type and instruction set',
  WHY % 'vector and mask',
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/sse/vectorhelper.h', 'Vc/scalar/vector.h', 'Vc/common/simdarray.h', 'Vc/common/simdarrayhelper.h'],
  [('per-ISA reductions', 'Vc/sse/vectorhelper.h min/max/add/mul, Vc/avx/detail.h'), ('masked reductions', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc'), ('reduction of unequal halves', 'Vc/common/simdarray.h Vc_REDUCTION_FUNCTION_')],
  BASE_T + 'integer reductions are compared exactly, floating-point ones against a long double sum with the error bound of any summation order',
  BASE_N + 'NaN operands of min/max and min/max over an empty mask are not judged.')
P('C10', 'Lane movements put every element where documented',
  'shifted(n), shifted(n, w), rotated(n), reversed(), interleave(a, b) and interleaveLow/interleaveHigh, v[Permutation::Reversed], broadcast<I>() and sorted() '
  'give exactly the documented rearrangement for every vector length and every amount: vacated lanes are zero or come from w, no element is lost, duplicated or altered in any bit, '
  'and sorted() is ascending and a permutation of its input.',
  ['inputs', 'configurations'], 'all element values and shift amounts of every vector and simd-array type and instruction set',
  WHY % 'vector and amount',
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/sse/shuffle.h', 'Vc/avx/shuffle.h', 'Vc/common/simdarray.h', 'Vc/common/vector.h', 'src/sse_sorthelper.cpp', 'src/avx_sorthelper.cpp', 'Vc/avx/sorthelper.h', 'Vc/sse/vector.h', 'Vc/scalar/vector.h'],
  [('rotations and shifts over 128-bit lanes', 'Vc/avx/detail.h rotated/shifted, Vc/sse/vector.tcc'), ('shifting across unequal halves', 'Vc/common/simdarray.h shifted/rotated'), ('bitonic sorting networks', 'src/sse_sorthelper.cpp, src/avx_sorthelper.cpp')],
  BASE_T + 'every lane is compared bit for bit with an index-arithmetic model',
  BASE_N + 'shifted(n, w) is judged for |n| <= Size (beyond that it is documented as undefined); sorted() is judged on NaN-free input.')
P('C20', 'Vectors are created, indexed and traversed element by element as documented',
  'Default construction and Zero give zeros, One ones, IndexesFromZero 0..Size-1, a scalar is broadcast to every element, an initializer list and a generator f fill element i with the i-th value or f(i) (called once per element, in order), '
  'setZero/setQnan set every (selected) element, std::numeric_limits of a vector type has the values of its scalar. v[i] reads element i, and assignment, compound assignment, increment, decrement and swap through v[i] change exactly that element; copies are independent. '
  'Iterators (begin/end, range-for over vectors, masks and where(mask)) visit each (selected) element once, in order. call and apply pass each (selected) element once, in order, apply and fill place the results; callWithValuesSorted calls with the distinct values ascending. '
  'Random() varies every bit of every integer element independently of the others and gives floating-point elements spread over [0, 1).',
  ['inputs', 'configurations'], 'all element values, positions, masks and generators, for every vector and simd-array type and instruction set',
  WHY % 'value, element position and mask',
  ['Vc/common/generalinterface.h', 'Vc/common/elementreference.h', 'Vc/common/iterators.h', 'Vc/common/simdarray.h', 'Vc/scalar/vector.h', 'Vc/scalar/vector.tcc', 'Vc/sse/vector.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.h', 'Vc/avx/vector.tcc', 'Vc/common/writemaskedvector.h', 'src/const.cpp'],
  [('constants and generators', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/avx/vectorhelper.h, src/const.cpp'), ('element references', 'Vc/common/elementreference.h, Vc/common/storage.h'), ('simd-array offsets', 'Vc/common/simdarray.h AddOffset, generate'), ('random state', 'Vc/sse/vector.tcc _doRandomStep, Vc/avx/vector.tcc, Vc/scalar/vector.tcc')],
  BASE_T + 'recording functors and a scalar array model judge every element and every call; bit and interval frequencies judge Random()',
  BASE_N + 'Random() is judged by generous frequency bounds over 4096 draws per type, not by a statistical test suite.')
P('C11', 'Rounding, classification and other exact math functions match their scalars',
  'abs, sqrt, trunc, floor, ceil, round (to nearest, ties to even), copysign, isnan, isinf, isfinite, isnegative (the sign bit), fpclassify, frexp and ldexp give in every lane exactly what the standard scalar function gives, '
  'for every operand: signed zeros, denormals, infinities, NaN, halves, integers beyond the range of int and of the mantissa, and every exponent. fma(a, b, c) rounds once (doubles, and floats with FMA instructions; otherwise within one unit in the last place). '
  'exponent(x) is floor(log2(x)) for positive normal x; rsqrt and reciprocal have a relative error of at most 1.5*2^-12 (float) or 2^-51 (double). abs and fma also hold for integer vectors. No lane influences another.',
  ['inputs', 'configurations'], 'all operand values of every floating-point vector and simd-array type and instruction set',
  WHY % 'operand value',
  ['Vc/common/math.h', 'Vc/scalar/math.h', 'Vc/sse/math.h', 'Vc/avx/math.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/common/detail.h', 'Vc/common/simdarray.h', 'src/const.cpp'],
  [('per-ISA math functions', 'Vc/scalar/math.h, Vc/sse/math.h, Vc/avx/math.h'), ('rounding below SSE4.1', 'Vc/sse/math.h trunc, Vc/sse/vectorhelper.h round'), ('fused multiply-add emulation', 'Vc/sse/vectorhelper.h fma, Vc/avx/vectorhelper.h fma'), ('bit-pattern constants', 'src/const.cpp')],
  BASE_T + 'the C library function of each lane is the oracle; results are compared bit for bit except for the documented approximations',
  BASE_N + 'fma of floats without hardware support is computed in double and rounded twice (accepted: 1 ulp); abs of the most negative integer and the exponent frexp stores for nan and infinity are not judged.')
P('C12', 'Transcendental functions are accurate over their documented range',
  'sin, cos, sincos (for |x| <= 8192), asin, atan, atan2, log, log2, log10 and exp give in every lane the exact result to within a few units in the last place (sin, cos: 2 float, 3 double; asin: 2 float, 36 double; atan: 3 float, 2 double; atan2: 4; log: 1; log2, log10: 2; exp: 1 float, 2 double; '
  'around the zeros of sin and cos an absolute error of that many ulps of 2^-14 (float) or 2^-30 (double)) for every operand of every magnitude including denormals, and the documented special results for 0, 1, infinities, NaN and operands outside the domain: '
  'log(0) = -inf, log(x < 0) = NaN, exp(inf) = inf, exp(-inf) = 0, asin(|x| > 1) = NaN, atan(inf) = pi/2 and the atan2 table with the sign of its zeros. No lane influences another.',
  ['inputs', 'configurations'], 'all operand values of every floating-point vector and simd-array type and instruction set',
  WHY % 'operand value',
  ['Vc/common/trigonometric.h', 'src/trigonometric.cpp', 'Vc/common/logarithm.h', 'Vc/common/exponential.h', 'Vc/common/math.h', 'Vc/scalar/math.h', 'Vc/sse/math.h', 'Vc/avx/math.h', 'src/const.cpp', 'Vc/avx/const.h', 'Vc/sse/const.h'],
  [('range reduction and polynomials', 'src/trigonometric.cpp'), ('exponent extraction and rational approximation', 'Vc/common/logarithm.h'), ('Cephes exponential', 'Vc/common/exponential.h, Vc/sse/math.h, Vc/avx/math.h'), ('coefficients', 'src/const.cpp')],
  BASE_T + 'the long double function is the oracle and the distance in units in the last place the measure; random, boundary and strided sweeps over all bit patterns',
  BASE_N + 'Trigonometric operands beyond 8192 and exp results below the normal range are not judged.')
P('C13', 'Interleaved (array-of-struct) access and transpose() move exactly their data',
  'data[indexes] for InterleavedMemoryWrapper over an array of structs of n equal members (2 to 16): tie(a, b, ...) = data[i] (2 to 8 members, from any first member) loads into lane k the members of struct i[k], and data[i] = tie(a, b, ...) stores them there, '
  'for successive and arbitrary indexes (repeated ones when reading), reading nothing outside the accessed structs and writing nothing but the addressed members. '
  'deinterleave(&a, &b, p, flags) splits successive pairs with the conversion of their type; transpose() of four vectors gives the transposed 4x4 block whenever its result is assigned, in place too.',
  ['inputs', 'configurations'], 'all struct sizes, member selections, index sequences and values, for every vector type and instruction set',
  WHY % 'struct layout, index sequence and value',
  ['Vc/common/interleavedmemory.h', 'Vc/common/deinterleave.h', 'Vc/common/transpose.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/sse/deinterleave.tcc', 'Vc/avx/deinterleave.tcc', 'Vc/common/interleave.h', 'Vc/common/simdarray.h'],
  [('gather-transpose for 2-8 members', 'Vc/sse/detail.h, Vc/avx/detail.h InterleaveImpl'), ('access objects', 'Vc/common/interleavedmemory.h'), ('deinterleaving conversions', 'Vc/sse/deinterleave.tcc, Vc/avx/deinterleave.tcc'), ('transposition', 'Vc/common/transpose.h, transpose_impl in Vc/sse/detail.h')],
  BASE_T + 'guard pages and byte comparison decide which memory was touched',
  BASE_N + 'Repeated indexes are not judged when writing. Simd-array members do not compile outside Scalar (documented gap).')
P('C14', 'Vc::Memory behaves like the array of scalars it stands for',
  'A Memory object (fixed, run-time or two-dimensional size, of any number of entries) is aligned, padded with zeros to whole vectors and never touches memory outside its own. Scalar, vector (vector(i), vectorAt(i), vector(i, shift), first/lastVector), iterator, range and gather access all see the same entries; '
  'writes change exactly the entries they cover. Copies, assignments (from memories, vectors, plain arrays), swap, setZero, += -= *= /= with memories and scalars act on every entry, comparisons hold exactly if they hold for all entries whatever the padding contains, '
  'sizes are reported as documented and fromRawData wraps existing data without changing it.',
  ['inputs', 'histories', 'configurations'], 'all sizes, element values and sequences of operations, for every vector type and instruction set',
  WHY % 'size, value and sequence of operations',
  ['Vc/common/memory.h', 'Vc/common/memorybase.h', 'Vc/common/memoryfwd.h', 'Vc/common/malloc.h'],
  [('padding arithmetic', 'Vc/common/memory.h'), ('vector references and iterators', 'Vc/common/memorybase.h'), ('unrolled copies', 'Vc/common/memorybase.h copyVectors')],
  BASE_T + 'random histories over a pool of objects run next to a scalar model',
  BASE_N + 'memory != memory is judged when all entries are equal or all differ (what it means otherwise is not documented).')
P('C15', 'Allocation functions return aligned, padded, disjoint memory or report failure',
  'Vc::malloc<T, A>(n) returns memory for n objects aligned and padded to A, or null if that is impossible, for every n up to the largest integer; Vc::free releases it. Vc::Allocator<T>::allocate(n) returns storage for n objects with the alignment of T or throws bad_alloc; deallocate gives back exactly what was allocated. '
  'new and new[] of vectors, masks, simd arrays and AlignedBase classes return storage of their alignment and size or throw bad_alloc, and delete releases it; make_unique likewise. '
  'Live blocks never overlap and keep their contents, nothing leaks, also when threads allocate concurrently and release each other\'s blocks. Standard containers of vectors with Vc::Allocator (default for std::vector<Vector>) keep their elements aligned and intact.',
  ['inputs', 'histories', 'schedules', 'fault_sequences', 'configurations'], 'all sizes, types, alignments, sequences of allocations and releases, failures of the system allocator and thread interleavings',
  WHY % 'size and sequence of allocations',
  ['Vc/Allocator', 'Vc/common/malloc.h', 'Vc/common/alignedbase.h', 'Vc/common/macros.h', 'Vc/common/make_unique.h', 'Vc/global.h', 'Vc/vector.h'],
  [('pointer adjustment and hidden base pointer', 'Vc/Allocator allocate/deallocate'), ('padding of sizes', 'Vc/common/malloc.h'), ('class-specific operator new', 'Vc/common/macros.h Vc_FREE_STORE_OPERATORS_ALIGNED')],
  'the real functions run in every instruction set while a registry interposed at posix_memalign, free, operator new and operator delete records every request and release, failures are injected, blocks are filled to the last promised byte and re-read before release, and ASan builds repeat the histories',
  BASE_N + 'A Memory object constructed while the system allocator fails is not judged.')
P('C16', 'Simdized objects and iterators behave like the scalars they combine',
  'simdize<S, N> of a struct (Vc_SIMDIZE_INTERFACE, std::tuple, std::pair, std::array; any number of lanes) holds in lane i one object of type S: construction from a scalar or generator, assign, extract, decorate(v)[i], swap (lane with lane, lane with scalar), shifted, masked assignment (where), copies and moves, '
  'containers of such objects and functions written for the struct act on exactly the addressed lanes of every member. load_interleaved/store_interleaved convert from and to an array of S. simdize<Iterator, N> visits the elements of its range N at a time: reading, writing (also through it[n], it-> and *it++), '
  'moving, comparing and subtracting such iterators touch and denote exactly those elements, for contiguous and linked containers, and nothing beyond the range.',
  ['inputs', 'histories', 'configurations'], 'all structures of up to 8 members, lane counts, values, container kinds and sequences of operations, for every instruction set',
  WHY % 'structure, lane count and sequence of operations',
  ['Vc/common/simdize.h', 'Vc/common/interleavedmemory.h', 'Vc/common/where.h', 'Vc/common/operators.h', 'Vc/common/vectorabi.h', 'Vc/traits/has_contiguous_storage.h'],
  [('member-wise lane access', 'Vc/common/simdize.h assign_impl, extract_impl, swap_impl, Scalar'), ('iterator adapters', 'Vc/common/simdize.h IteratorDetails'), ('interleaved access', 'Vc/common/simdize.h load_interleaved, store_interleaved')],
  BASE_T + 'random histories run next to an array of scalar structs, and iterator walks next to a copy of the container, compared after every step',
  BASE_N + 'The result type of ++it of a random access simdized iterator, constant subscripts and masks broadcast into aggregates are gaps of the library that do not compile and are not judged.')
P('C17', 'simd_for_each visits every element of a range exactly once',
  'simd_for_each(first, last, f) and simd_for_each_n(first, n, f) call f with vectors that together contain every element of the range exactly once, in order, for every length (also 0 and lengths below a vector) and every random access range, contiguous or not. '
  'If f takes its argument by reference, each element ends up with the value f left in its lane; if f takes it by value or const reference, nothing is written (the range may be read-only or changed by f). No memory outside the range is accessed. '
  'f is returned with its state, an exception leaves the elements of completed calls updated and later ones untouched, and all but a few remaining elements are passed in full vectors of contiguous ranges.',
  ['inputs', 'configurations', 'fault_sequences'], 'all ranges, lengths, element types (arithmetic and simdizable structs of one member type), placements and functors, for every instruction set',
  WHY % 'range and functor',
  ['Vc/common/algorithms.h', 'Vc/common/simdize.h', 'Vc/traits/is_functor_argument_immutable.h', 'Vc/algorithm'],
  [('loops and remainders', 'Vc/common/algorithms.h'), ('deciding whether to write back', 'Vc/traits/is_functor_argument_immutable.h')],
  BASE_T + 'the functors record everything they are passed, a scalar copy of the range is compared afterwards, guard pages and read-only pages turn stray accesses into faults',
  BASE_N + 'Structs with members of different types do not compile (gap of the library) and are not judged.')
P('C18', 'Vc::array, Vc::vector, Vc::span and makeContainer hold what they are given',
  'Vc::array behaves like std::array, Vc::vector like std::vector and Vc::span like std::span, with every constructor, element access, iterator, comparison, swap and view operation (first, last, subspan with run-time and compile-time arguments, conversions between fixed and dynamic extent), and their additional subscripts with index vectors read and write exactly the elements named. '
  'at() throws for every invalid index. makeContainer<Container>(list) returns the minimum number of vectors that hold the list in order, with the remaining lanes zero, also for an empty list.',
  ['inputs', 'histories', 'configurations'], 'all sizes, element values and types, and sequences of operations, for every instruction set',
  WHY % 'size and sequence of operations',
  ['Vc/array', 'Vc/vector', 'Vc/common/span.h', 'Vc/span', 'Vc/common/makeContainer.h', 'Vc/common/subscript.h'],
  [('array', 'Vc/array'), ('span views', 'Vc/common/span.h'), ('forwarding constructors and subscripts', 'Vc/common/subscript.h AdaptSubscriptOperator'), ('list to vectors', 'Vc/common/makeContainer.h')],
  BASE_T + 'random histories run next to the standard container (a pointer and a length for span) over guarded memory and are compared after every operation',
  BASE_N + 'first(), last() and subspan() return spans without the additional subscripts (gap of the library).')
P('C19', 'CPU detection and support queries report what the CPU and the OS provide',
  'For every CPU (vendor, family, model, feature bits, highest implemented leaves, cache description) and every OS state (OSXSAVE, XCR0): each CpuId getter returns the feature, number or cache property that CPU has according to the vendor manual, and nothing is taken from leaves the CPU does not implement; '
  'isImplementationSupported(impl) is true exactly if CPU and OS support it (AVX and AVX2 need the OS to save the YMM state), bestImplementationSupported() is the highest one supported, extraInstructionsSupported() has exactly the flags the CPU supports, and isImplementationSupported<ImplementationT>() requires both the level and all extras. '
  'This holds before main() and after repeated initialization, and xgetbv is never executed where it is not available. CurrentImplementation names the level and all extra instructions the code was compiled for. checkLibraryAbi() aborts exactly for a different ABI version or newer headers.',
  ['inputs', 'configurations'], 'all CPUs and operating system states, compiler option sets, and version pairs',
  WHY % 'CPU, of which a test run sees only one',
  ['src/cpuid.cpp', 'src/support_x86.cpp', 'src/const.cpp', 'Vc/cpuid.h', 'Vc/support.h', 'Vc/global.h', 'Vc/version.h'],
  [('reading the leaves', 'src/cpuid.cpp CpuId::init, CpuId::interpret'), ('support queries', 'src/support_x86.cpp'), ('features of the code', 'Vc/global.h ImplementationT, CurrentImplementation'), ('version check', 'src/const.cpp checkLibraryAbi')],
  'runtime monitoring: the unmodified detection code runs in one process per generated CPU; its cpuid and xgetbv instructions are replaced at assembly level with calls of hooks that answer for that CPU and log the queries; an oracle decodes the same description after the vendor manuals; ASan+UBSan builds',
  'Generated CPUs, not proof. Feature combinations that no CPU has (AVX2 without AVX and the like) are used for the getters and the best implementation only. Intel leaf-2 descriptors 1Dh and 24h (added to the manual later) are not decoded by the library and not generated.')
P('C21', 'Printing writes every lane in order and reports failures',
  'operator<< of vectors, masks, SimdArrays, SimdMaskArrays and Memory writes one text that contains the value of every lane in lane order, each formatted like a scalar of the entry type by the same stream (base, notation, precision, flags): "[a, b, ...]" for vectors, "m[0110 1...]" for masks. '
  'The stream keeps its formatting, nothing is written to other streams, a stream that stops accepting characters ends up in the failed state (or throws what its exception mask asks for) without losing what was accepted before, and color escapes appear only where the output is a terminal.',
  ['inputs', 'configurations', 'fault_sequences'], 'all lane values, mask patterns, formatting states, destinations and points of failure, for every instruction set',
  WHY % 'lane value, formatting state and destination',
  ['Vc/IO', 'Vc/scalar/vector.h', 'Vc/common/simdarray.h', 'Vc/common/memory.h'],
  [('vectors, masks, arrays, memory', 'Vc/IO operator<<'), ('terminal colors', 'Vc/IO AnsiColor, mayUseColor')],
  BASE_T + 'the printed text is compared with one composed lane by lane by the standard library with the same formatting; stream buffers that fail at a chosen character, pipes and pseudo terminals serve as destinations',
  BASE_N + 'The white space between the vectors of a Memory is not judged (documentation and code differ in it).')
P('C22', 'Operations on distinct objects may run concurrently',
  'Threads that work on different objects (vectors, masks, arrays, Memory, containers, allocations, streams), that only read the same constant objects or arrays, or that write disjoint elements of one array or Memory (also through masked stores, scatters, interleaved access and simd_for_each) '
  'do not influence each other: every operation gives the same result as alone, no written element is lost, and there is no data race, also when every thread performs the first use of an operation. Only Random() is documented to use shared state.',
  ['inputs', 'schedules', 'configurations'], 'all operations, partitions of the data and interleavings of the threads, for every instruction set',
  'A unit test runs in one thread; which operations overlap, and where neighbouring elements are touched, is decided by the schedule.',
  ['Vc/Vc', 'Vc/avx/vector.h', 'Vc/sse/vector.h', 'Vc/scalar/vector.h', 'Vc/common/memorybase.h', 'Vc/common/algorithms.h', 'Vc/common/interleavedmemory.h', 'Vc/Allocator', 'src/cpuid.cpp', 'src/const.cpp'],
  [('masked and partial stores', 'Vc/avx/vector.tcc Vc/sse/vector.tcc store'), ('scatters', 'Vc/common/scatterimplementation.h'), ('constant tables', 'src/const.cpp Vc/avx/const.h Vc/sse/const.h'), ('lazy CPU detection', 'src/cpuid.cpp CpuId::init')],
  'runtime monitoring: ThreadSanitizer builds of the real code (header and library) under a multi-threaded stress workload with random delays; offline comparison of every logged result with the same operation run alone; conservation check (number of increments) on arrays and Memory partitioned among the threads',
  'Schedules are explored by stress on 8 cores, not enumerated. ThreadSanitizer does not see masked-move and gather instructions; for these only the values decide. Random() is excluded.')
NOT_APPLICABLE = []
