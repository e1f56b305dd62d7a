"""What each check builds and runs."""
import os
import zlib

IMPL = {
    'scalar': ['-DVc_IMPL=Scalar'],
    'sse2': ['-msse2', '-DVc_IMPL=SSE2'],
    'sse3': ['-msse3', '-DVc_IMPL=SSE3'],
    'ssse3': ['-mssse3', '-DVc_IMPL=SSSE3'],
    'sse4_1': ['-msse4.1', '-DVc_IMPL=SSE4_1'],
    'sse4_2': ['-msse4.2', '-mpopcnt', '-DVc_IMPL=SSE4_2+POPCNT'],
    'avx': ['-mavx', '-DVc_IMPL=AVX'],
    'avxf': ['-mavx', '-mfma', '-mf16c', '-mpopcnt', '-DVc_IMPL=AVX+FMA+F16C+POPCNT'],
    'avx2n': ['-mavx2', '-DVc_IMPL=AVX2'],
    'avx2': ['-mavx2', '-mfma', '-mbmi', '-mbmi2', '-mf16c', '-mpopcnt', '-DVc_IMPL=AVX2+FMA+BMI2+F16C+POPCNT'],
}
ALL = ['scalar', 'sse2', 'ssse3', 'sse4_1', 'avx', 'avx2']
MORE = ['scalar', 'sse2', 'sse3', 'ssse3', 'sse4_1', 'sse4_2', 'avx', 'avxf', 'avx2n', 'avx2']

# the parts of libVc an implementation links against (as CMakeLists.txt compiles them)
LIBIMPL = {
    'SSE2': ['-msse2', '-DVc_IMPL=SSE2'], 'SSE3': ['-msse3', '-DVc_IMPL=SSE3'], 'SSSE3': ['-mssse3', '-DVc_IMPL=SSSE3'],
    'SSE4_1': ['-msse4.1', '-DVc_IMPL=SSE4_1'], 'AVX': ['-mavx', '-DVc_IMPL=AVX'], 'AVX+FMA': ['-mavx', '-mfma', '-DVc_IMPL=AVX+FMA'],
    'AVX2': ['-march=core-avx2', '-DVc_IMPL=AVX2+FMA+BMI2'],
}
# (the headers bind every SSE vector to the SSE4.1 code and every AVX vector to the AVX code)
TRIG = {'sse2': ['SSE4_1'], 'sse3': ['SSE4_1'], 'ssse3': ['SSE4_1'], 'sse4_1': ['SSE4_1'], 'sse4_2': ['SSE4_1'], 'avx': ['SSE4_1', 'AVX'], 'avxf': ['SSE4_1', 'AVX'], 'avx2n': ['SSE4_1', 'AVX'], 'avx2': ['SSE4_1', 'AVX']}
_S = 'sse_sorthelper.cpp'
_A = 'avx_sorthelper.cpp'
SORT = {'sse2': [(_S, 'SSE2')], 'sse3': [(_S, 'SSE2')], 'ssse3': [(_S, 'SSE2')], 'sse4_1': [(_S, 'SSE4_1')], 'sse4_2': [(_S, 'SSE4_1')],
        'avx': [(_S, 'AVX'), (_A, 'AVX')], 'avxf': [(_S, 'AVX'), (_A, 'AVX')], 'avx2n': [(_S, 'AVX2'), (_A, 'AVX2')], 'avx2': [(_S, 'AVX2'), (_A, 'AVX2')]}

SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment']


class Job:
    def __init__(self, src, impl, cxx='g++', opt=('-O1',), defs=(), lib=(), std='c++14', scale=1.0, timeout=150,
                 tag='', weight=1.0, san=False, args=(), env=None, link=(), libopt=()):
        self.src, self.impl, self.cxx, self.std, self.scale, self.timeout = src, impl, cxx, std, scale, timeout
        self.opt = list(SAN if san else opt)
        self.defs = list(defs)
        self.lib = list(lib)
        self.libflags = [f for f in self.opt if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
        self.args = list(args)
        self.env = env or {}
        self.link = list(link)
        self.libopt = list(libopt)
        self.weight = weight
        self.name = '-'.join(x for x in [src.replace('.cpp', ''), impl, cxx, tag, 'san' if san else self.opt[0].strip('-')] if x)


W = {'scalar': 0.5, 'sse2': 1, 'sse3': 1, 'ssse3': 1, 'sse4_1': 1, 'sse4_2': 1, 'avx': 2, 'avxf': 2, 'avx2n': 3, 'avx2': 3}
HALF = {'fp': 'float, double, int', 'int': 'unsigned, short, unsigned short'}
THIRD = {'fd': 'float, double', 'iu': 'int, unsigned', 'ss': 'short, unsigned short'}
ONE = {'f': 'float', 'd': 'double', 'i': 'int', 'u': 'unsigned', 's': 'short', 'us': 'unsigned short'}


def split(src, impls, parts, cxx='g++', **kw):
    """one job per implementation and per group of entry types"""
    r = []
    tag0 = kw.pop('tag', '')
    defs = list(kw.pop('defs', ()))
    for i in impls:
        ps = parts[i] if isinstance(parts, dict) and i in parts else parts
        for t, types in ps.items():
            c = cxx[i] if isinstance(cxx, dict) else cxx
            r.append(Job(src, i, cxx=c, defs=defs + ['-DVT_T=' + types], tag=(tag0 + t), weight=W[i] + (3 if kw.get('san') else 0), **kw))
    return r


# alternate compilers over the implementations so that both see SSE and AVX code in every run
MIX = {'scalar': 'clang++', 'sse2': 'g++', 'sse3': 'g++', 'ssse3': 'clang++', 'sse4_1': 'g++', 'sse4_2': 'g++', 'avx': 'clang++', 'avxf': 'clang++', 'avx2n': 'clang++', 'avx2': 'g++'}
XIM = {k: ('g++' if v == 'clang++' else 'clang++') for k, v in MIX.items()}

CHECKS = {}
# quick tier: factor on the number of cases, chosen so that running takes some 60-120 core seconds
BOOST = {'C01': 20, 'C02': 10, 'C03': 5, 'C04': 10, 'C05': 4, 'C06': 20, 'C07': 15, 'C08': 30, 'C09': 40, 'C10': 60, 'C11': 12, 'C12': 7, 'C13': 3, 'C14': 20, 'C15': 3,
         'C16': 20, 'C17': 8, 'C18': 10, 'C20': 30, 'C21': 8}


def check(pid, rule, jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, **kw)


def std_jobs(src, parts=HALF, lib=(), scale_t=20, san_impls=('sse4_1', 'avx2'), quick_impls=ALL, defs=(), tag='', scale_q=3):
    """the usual matrix: quick = every implementation with alternating compilers plus sanitizer builds;
    thorough = every implementation x both compilers x -O1/-O3, plus sanitizer builds everywhere"""
    def jobs(tier):
        if tier == 'quick':
            return split(src, quick_impls, parts, MIX, lib=lib, defs=defs, tag=tag, scale=scale_q) \
                + split(src, list(san_impls), parts, 'clang++', san=True, scale=0.25 * scale_q, lib=lib, defs=defs, tag=tag)
        return split(src, MORE, parts, MIX, lib=lib, scale=scale_t, timeout=1500, defs=defs, tag=tag) \
            + split(src, MORE, parts, XIM, lib=lib, scale=scale_t, timeout=1500, tag='x' + tag, defs=defs) \
            + split(src, MORE, parts, MIX, opt=('-O3',), lib=lib, scale=scale_t, timeout=1500, defs=defs, tag=tag) \
            + split(src, MORE, parts, XIM, opt=('-O0',), lib=lib, scale=1, timeout=1500, defs=defs, tag=tag) \
            + split(src, MORE, parts, 'clang++', san=True, scale=2, timeout=1500, lib=lib, defs=defs, tag=tag)
    return jobs


def option(src, flags, tag, parts, impls, impls_t=None, cxx=None, **kw):
    """a documented (or tested) compile-time option of Vc"""
    def jobs(tier):
        q = tier == 'quick'
        return split(src, impls if q else (impls_t or impls), parts, cxx or MIX, defs=flags.split(), tag=tag, scale=2 if q else 20, timeout=150 if q else 1500, **kw)
    return jobs


def plain(src, parts, tag='', **kw):
    """AVX2 without BMI2, FMA and POPCNT, the default of -mavx2, also in the quick run (thorough: part of every matrix)"""
    def jobs(tier):
        return split(src, ['avx2n'], parts, tag=tag, scale=2, **kw) if tier == 'quick' else []
    return jobs


def sweeps(what, types, full, lib=(), impls=ALL, defs=(), tag='', q=0.6):
    """operand spaces of 16 bit pairs or 32 bit operands (drivers/sweep.cpp): evenly sampled, or (thorough) complete"""
    def jobs(tier):
        d = list(defs) + ['-DVT_WHAT=%d' % what]
        if tier == 'quick':
            return split('sweep.cpp', impls, types, XIM, opt=('-O2',), lib=lib, defs=d, tag='sweep%d' % what + tag, scale=q)
        return split('sweep.cpp', MORE, types, MIX, opt=('-O2',), lib=lib, defs=d, tag='sweep%d' % what + tag, scale=full, timeout=9000)
    return jobs


def both(*gens):
    """concatenates job generators; later ones can carry tags"""
    def jobs(tier):
        r = []
        for g in gens:
            r += g(tier)
        return r
    return jobs


check('C01', 'operands: boundary integers, every floating-point class, arbitrary bit patterns; every 16-bit operand against boundary and random ones (thorough: every pair), evenly spread 32-bit operands against fixed ones; a case is one operator application '
      'on one vector (all lanes compared); distinct = different (operator, type, operands)',
      both(std_jobs('arith.cpp'), option('arith.cpp', '-DVc_ENABLE_FLOAT_BIT_OPERATORS', 'bits', {'fd': 'float, double'}, ['sse2', 'sse4_1', 'avx', 'avx2']),
           sweeps(1, {'h': 'short, unsigned short'}, 2731), sweeps(6, {'i': 'int, unsigned'}, 256), plain('arith.cpp', HALF)))


def arrs(*ns):
    """-D that makes a driver run over SimdArray<T, N> for the given N"""
    return ('-DVT_ARRAYS=' + ''.join('forArray<%d>(d);' % n for n in ns),)


check('C02', 'operands: equal/adjacent/special value pairs; every 16-bit operand against boundary and random ones (thorough: every pair); masks: none, all, single lane, prefix, alternating, random; memory operands flush with guard pages; '
      'a case is one comparison/mask operation on one operand tuple (all lanes or the scalar result compared)',
      both(std_jobs('mask.cpp'), sweeps(2, {'h': 'short, unsigned short'}, 2731), option('mask.cpp', '-DVc_DISABLE_PTEST', 'noptest', HALF, ['sse4_1', 'avx2'], ['sse4_1', 'sse4_2', 'avx', 'avx2'], XIM), option('mask.cpp', '-DNDEBUG -DVc_CHECK_ALIGNMENT', 'align', HALF, ['avx'], ['sse2', 'avx', 'avx2'], XIM),
           std_jobs('mask.cpp', quick_impls=['scalar', 'sse2', 'avx', 'avx2'], san_impls=[], defs=arrs(1, 3, 7, 8, 13, 20), tag='arr'),
           std_jobs('mask.cpp', quick_impls=[], san_impls=['avx2'], defs=arrs(3, 13), tag='arrs'), plain('mask.cpp', HALF)))

check('C03', 'memory contents: boundary and arbitrary values; placements: ending at an inaccessible page, starting at one, unaligned anywhere; masks of every shape; '
      'a case is one load or store; every lane, every byte around the destination and (masked stores) a concurrent writer of excluded entries are observed',
      both(std_jobs('loadstore.cpp', scale_t=100),
           std_jobs('loadstore.cpp', quick_impls=['sse2', 'avx', 'avx2'], san_impls=[], defs=arrs(3, 8, 13), tag='arr', scale_t=50),
           std_jobs('loadstore.cpp', quick_impls=['scalar'], san_impls=['avx2'], defs=arrs(5), tag='arrs', scale_t=50)))


GA = ['-DVc_USE_SET_GATHERS'], ['-DVc_USE_BSF_GATHERS'], ['-DVc_USE_POPCNT_BSF_GATHERS']


def gs(extra):
    return both(std_jobs('gather.cpp', defs=extra, parts=THIRD, scale_t=100, quick_impls=['sse2', 'sse4_1', 'avx', 'avx2'], san_impls=['avx2']),
                std_jobs('gather.cpp', defs=extra, parts=HALF, scale_t=50, quick_impls=['scalar'], san_impls=[], tag='s'),
                lambda tier: split('gather.cpp', ['sse4_1', 'avx2'] if tier == 'quick' else MORE, {'m': 'float, short'}, XIM, tag='bsf', defs=list(extra) + GA[1], scale=1 if tier == 'quick' else 50, timeout=900)
                + split('gather.cpp', ['avx2'] if tier == 'quick' else MORE, {'m': 'double, unsigned short'}, XIM, tag='pop', defs=list(extra) + GA[2], scale=1 if tier == 'quick' else 50, timeout=900)
                + split('gather.cpp', ['avx2'] if tier == 'quick' else MORE, {'m': 'float, short'}, XIM, tag='set', defs=list(extra) + GA[0], scale=1 if tier == 'quick' else 50, timeout=900),
                std_jobs('gather.cpp', defs=tuple(extra) + arrs(3, 8), parts=THIRD, quick_impls=['sse4_1'], san_impls=[], tag='arr', scale_t=50),
                plain('gather.cpp', {'': 'float, short'}, defs=extra),
                std_jobs('gather.cpp', defs=tuple(extra) + arrs(13), parts=HALF, quick_impls=['avx2'], san_impls=[], tag='arr13', scale_t=50))


check('C04', 'sources: 1..300 objects placed against an inaccessible page; indexes: boundary, repeated, consecutive, permuted, negative with an interior base pointer, invalid in deselected lanes; '
      'a case is one gather; every lane is compared and out-of-bounds reads fault', gs(()))
check('C05', 'destinations: 1..300 objects placed against an inaccessible page; distinct indexes in selected lanes, arbitrary in deselected ones; '
      'a case is one scatter; every byte of the destination and around it is compared; a concurrent owner watches elements that are not selected', gs(('-DVT_SCATTER',)))


def arrcasts(pairs, impls):
    def jobs(tier):
        r = []
        for n, m in pairs if tier == 'quick' else pairs + [(4, 4), (4, 8), (8, 4), (12, 4), (2, 16), (16, 2), (32, 8), (9, 1), (1, 9), (5, 24), (17, 33)]:
            q = tier == 'quick'
            r += split('cast.cpp', [impls[(n + m) % len(impls)]] if q else MORE, {'': 'float, double, int, unsigned, short, unsigned short'}, MIX, tag='a%dto%d' % (n, m),
                       defs=['-DVT_FROMN=%d' % n, '-DVT_TON=%d' % m], scale=3 if q else 50, timeout=900)
        return r
    return jobs


check('C06', 'inputs: boundary integers, every floating-point class, arbitrary bit patterns, values around the limits of the target type (out-of-range float-to-integer conversions excluded); every 16-bit and evenly spread 32-bit operands (thorough: every one); '
      'a case is one conversion of 1-4 vectors or masks; every lane including the zero-filled ones is compared',
      both(std_jobs('cast.cpp', parts={'a': 'float, double', 'b': 'int, unsigned', 'c': 'short, unsigned short'}, san_impls=[], scale_t=300),
           std_jobs('cast.cpp', parts={'': 'float, double, int, unsigned, short, unsigned short'}, san_impls=[], quick_impls=['sse2', 'avx', 'avx2'], defs=('-DVT_TOARR=5',), tag='toarr', scale_t=300),
           std_jobs('cast.cpp', parts=HALF, san_impls=['avx2'], quick_impls=['scalar', 'sse2', 'avx', 'avx2'], defs=('-DVT_MIXED',), tag='mixed', scale_t=300),
           sweeps(4, {'f': 'float', 'i': 'int, unsigned', 'h': 'short, unsigned short'}, 8192),
           plain('cast.cpp', HALF),
           arrcasts([(7, 13), (13, 7), (8, 16), (16, 8), (3, 3), (20, 5), (8, 8), (6, 20)], ['sse4_1', 'avx', 'avx2'])))


def arr_jobs(src, table, parts=HALF, lib=(), scale_q=2, scale_t=30, san=None, defs=(), more=()):
    """table: {impl: [tuple of Ns, ...]} for the quick run; thorough runs every group in the table plus more on every implementation"""
    def jobs(tier):
        r = []
        if tier == 'quick':
            for i, groups in table.items():
                for g in groups:
                    r += split(src, [i], parts, MIX, lib=lib, defs=tuple(defs) + arrs(*g), tag='n' + '_'.join(map(str, g)), scale=scale_q)
            for i, g in (san or {}).items():
                r += split(src, [i], parts, 'clang++', san=True, lib=lib, defs=tuple(defs) + arrs(*g), tag='n' + '_'.join(map(str, g)), scale=0.3 * scale_q)
            return r
        groups = sorted(set(g for gs in table.values() for g in gs) | set(more))
        for g in groups:
            for i in MORE:
                t = 'n' + '_'.join(map(str, g))
                r += split(src, [i], parts, MIX, lib=lib, defs=tuple(defs) + arrs(*g), tag=t, scale=scale_t, timeout=1500)
                if i in ('sse2', 'avx', 'avx2'):
                    r += split(src, [i], parts, XIM, opt=('-O3',), lib=lib, defs=tuple(defs) + arrs(*g), tag='x' + t, scale=scale_t, timeout=1500)
                    r += split(src, [i], parts, 'clang++', san=True, lib=lib, defs=tuple(defs) + arrs(*g), tag=t, scale=2, timeout=1500)
        return r
    return jobs


check('C07', 'operands: boundary integers, every floating-point class, arbitrary bit patterns; array lengths below, at, between and above the register widths; '
      'a case is one operator application on one array (all N elements compared)',
      both(arr_jobs('arith.cpp', {'scalar': [(3,)], 'sse2': [(1, 5), (8, 17)], 'sse4_1': [(7,)], 'avx': [(2, 12), (16,)], 'avx2': [(3, 32), (13,), (24,)]}, parts=THIRD, san={'avx2': (11,)},
                    more=[(4, 6), (9, 10), (14, 15), (20, 33), (18, 40)]),
           sweeps(1, {'h': 'short, unsigned short'}, 2731, impls=['sse2', 'avx2'], defs=arrs(11, 24), tag='arr'), sweeps(6, {'i': 'int, unsigned'}, 64, impls=['sse4_1', 'avx'], defs=arrs(6, 13), tag='arr')))
check('C08', 'operands and masks of every shape (none, all, one lane, prefix, alternating, random); a case is one masked statement on one vector (all lanes compared)',
      both(std_jobs('wmask.cpp', parts=THIRD), plain('wmask.cpp', {'': 'double, short'}), arr_jobs('wmask.cpp', {'sse2': [(3,)], 'avx': [(8,)], 'avx2': [(13,)]}, san={'avx2': (5,)}, more=[(1, 2), (16, 33)])))
check('C09', 'vectors of boundary, special and arbitrary values and masks of every shape; a case is one reduction of one vector',
      both(std_jobs('reduce.cpp', parts=HALF), plain('reduce.cpp', {'': 'float, int, unsigned short'}), arr_jobs('reduce.cpp', {'scalar': [(5,)], 'sse2': [(3, 8)], 'sse4_1': [(13,)], 'avx': [(1, 16)], 'avx2': [(13, 6), (20, 32)]}, san={'avx2': (7,)}, more=[(2, 4), (9, 17), (33,)])))
check('C10', 'vectors of arbitrary values and every shift and rotation amount; a case is one lane movement of one vector (all lanes compared)',
      both(std_jobs('permute.cpp', lib=('sort',)), plain('permute.cpp', {'': 'double, int, short'}, lib=('sort',)), arr_jobs('permute.cpp', {'scalar': [(3,)], 'sse2': [(5,), (8,)], 'sse4_1': [(12,)], 'avx': [(3,), (16,)], 'avx2': [(7,), (13,), (20,)]}, lib=('sort',), san={'avx2': (9,)}, more=[(1, 2), (6,), (17,), (33,)])))
check('C20', 'values of every class, every element position and mask shape, generators and functions that record how they are called; '
      'a case is one creation, element access or functional traversal of one vector (all elements and the recorded calls compared)',
      both(std_jobs('lanes.cpp', lib=('sort',), parts=THIRD), option('lanes.cpp', '-DVc_CHECK_ALIGNMENT', 'align', HALF, ['sse2', 'avx2'], None, XIM, lib=('sort',)), option('lanes.cpp', '-DNDEBUG', 'nd', HALF, ['avx'], None, XIM, lib=('sort',)), arr_jobs('lanes.cpp', {'scalar': [(3,)], 'sse2': [(5,)], 'avx': [(8, 3)], 'avx2': [(13,)]}, parts=HALF, san={'avx2': (7,)}, more=[(1, 2), (16,), (24,), (33,)])))
FD = {'f': 'float', 'd': 'double'}
check('C11', 'operands: every floating-point class incl. denormals, infinities and NaN, halves and integers around the limits of int and of the mantissa, exponents of every size, summands that cancel a product; evenly spread float bit patterns (thorough: every one); '
      'a case is one function application on one vector (all lanes compared)',
      both(std_jobs('math.cpp', parts=THIRD), plain('math.cpp', HALF), sweeps(3, {'f': 'float'}, 4096), option('math.cpp', '-DVc_NO_STD_FUNCTIONS -DNDEBUG', 'nostd', HALF, ['sse2', 'avx2'], None, XIM), lambda tier: split('math.cpp', ['avx2'], HALF, tag='contract', defs=['-ffp-contract=fast'], scale=3 if tier == 'quick' else 100, timeout=1500),
           arr_jobs('math.cpp', {'scalar': [(3,)], 'sse2': [(5,)], 'avx': [(8,)], 'avx2': [(3, 8, 13)]}, parts=HALF, san={'avx2': (7,)}, more=[(1, 2), (16,), (24,), (33,)])))
check('C12', 'operands: multiples of pi/4 and their neighbours, every magnitude of the documented range, values next to 1 and to the limits of the result, a strided sweep over all bit patterns, evenly spread float bit patterns (thorough: every one), special values; '
      'a case is one function application on one vector (every lane compared with the long double result)',
      both(std_jobs('trans.cpp', parts=FD, lib=('trig',), scale_t=200), sweeps(5, {'f': 'float'}, 8192, lib=('trig',)), option('trans.cpp', '-DVc_LOG_ILP', 'ilp', FD, ['sse2', 'avx2'], ALL, XIM, lib=('trig',)), option('trans.cpp', '-DVc_HAVE_LIBMVEC -Wl,--no-as-needed -lmvec', 'mvec', {'fd': 'float, double'}, ['sse2', 'avx2'], ALL, XIM, lib=('trig',)), option('trans.cpp', '-DVc_LOG_ILP2', 'ilp2', {'fd': 'float, double'}, ['sse4_1', 'avx'], ALL, XIM, lib=('trig',)), lambda tier: split('trans.cpp', ['avx2'], FD, lib=('trig',), tag='contract', defs=['-ffp-contract=fast'], scale=3 if tier == 'quick' else 100, timeout=1500),
           arr_jobs('trans.cpp', {'scalar': [(3,)], 'sse2': [(5,)], 'avx': [(8,)], 'avx2': [(3, 13)]}, parts=FD, lib=('trig',), san={'avx2': (7,)}, scale_t=20, more=[(1, 2), (16,), (24,), (33,)])))


def ss(*groups):
    return {'ss' + '_'.join(map(str, g)): '-DVT_SS=' + ','.join(map(str, g)) for g in groups}


def c13(tier):
    q = tier == 'quick'
    r = []
    plan = [('scalar', THIRD), ('sse2', ONE), ('sse4_1', THIRD), ('avx', THIRD), ('avx2', ONE)] if q else [(i, ONE) for i in MORE]
    for i, parts in plan:
        for tag, d in ss((2, 3, 5), (4, 6, 7, 8)).items():
            r += split('interleave.cpp', [i], parts, MIX, tag=tag, defs=[d] + (['-DVT_NO_PAIRS'] if '2' not in tag else []), scale=2 if q else 30, timeout=900)
            if not q:
                r += split('interleave.cpp', [i], parts, XIM, tag='x' + tag, opt=('-O2',), defs=[d] + (['-DVT_NO_PAIRS'] if '2' not in tag else []), scale=30, timeout=900)
    r += split('interleave.cpp', ['sse4_1', 'avx2'] if q else MORE, {'f': 'float', 's': 'short'} if q else ONE, XIM, tag='big', defs=['-DVT_SS=9,12,16', '-DVT_NO_PAIRS'], scale=2 if q else 30, timeout=900)
    r += split('interleave.cpp', ['avx2'] if q else MORE, {'f': 'float', 'd': 'double'} if q else ONE, 'clang++', san=True, defs=['-DVT_SS=3,4,7', '-DVT_NO_NEG'], scale=1 if q else 3, timeout=900)
    return r


check('C13', 'arrays of 1-200 structs of 2-16 members placed against an inaccessible page, every subset of leading/offset members, successive and arbitrary (repeated, permuted, up to 2^31 entries apart) struct indexes; '
      'a case is one read or write of 2-8 members, one deinterleaving pair or one 4x4 transposition; every lane and every byte around the destination is compared', c13)


def c14(tier):
    q = tier == 'quick'
    r = []
    ns = [('a', '1,3,8'), ('b', '7,17')] if q else [('a', '1,3,8,2'), ('b', '7,9,17,5'), ('c', '24,33,15'), ('d', '16,31,64,100')]
    for n, (tag, l) in enumerate(ns):
        d = ['-DVT_NS=' + l]
        if q:
            r += split('memory.cpp', ['sse2', 'avx2'], ONE if n == 0 else {'d': 'double', 's': 'short'}, MIX, tag=tag, defs=d, scale=2)
            r += split('memory.cpp', ['avx'], {'d': 'double'} if n == 0 else {'f': 'float'}, MIX, tag=tag, defs=d, scale=2)
        else:
            for cxx, opt in ((MIX, '-O1'), (XIM, '-O2'), (MIX, '-O3')):
                r += split('memory.cpp', MORE, ONE, cxx, opt=(opt,), tag=tag, defs=d, scale=50, timeout=1500)
    r += split('memory.cpp', ['scalar'], THIRD, MIX, tag='s', defs=['-DVT_NS=1,5'], scale=2 if q else 50, timeout=900)
    r += split('memory.cpp', ['sse2', 'avx2'], {'f': 'float'}, 'g++', opt=('-O2',), tag='o2', defs=['-DVT_NS=3,8'], scale=2 if q else 50, timeout=900)
    r += split('memory.cpp', ['sse2'], {'f': 'float'}, 'g++', tag='arr12', defs=['-DVT_NO_MM', '-DVT_NS=4,13'] + list(arrs(12)), scale=2 if q else 50, timeout=900)
    r += split('memory.cpp', ['avx2'], {'f': 'float'}, 'clang++', tag='arr24', defs=['-DVT_NO_MM', '-DVT_NS=4,27'] + list(arrs(24)), scale=2 if q else 50, timeout=900)
    r += split('memory.cpp', ['avx2'] if q else ['sse2', 'sse4_1', 'avx', 'avx2'], {'i': 'int'} if q else ONE, 'clang++', san=True, defs=['-DVT_NS=9' if q else '-DVT_NS=1,3,9'], scale=1 if q else 10, timeout=900)
    return r


check('C14', 'histories of 12 operations on four one-dimensional (two fixed, two run-time sized) or two two-dimensional objects of 1-100 entries, single operations on run-time sized ones of 1-4000 entries, some placed against inaccessible pages, over dirty memory; '
      'a case is one operation in a history; after it every entry of every object is compared with the model', c14)

WRAP = ('-Wl,--wrap=posix_memalign', '-Wl,--wrap=free')


def c15(tier):
    q = tier == 'quick'
    r = []
    if q:
        r += split('alloc.cpp', ALL, {'f': 'float', 's': 'short'}, MIX, link=WRAP, scale=3)
        r += split('alloc.cpp', ['sse2', 'avx2'], {'d': 'double', 'i': 'int'}, XIM, link=WRAP, scale=3)
        r += split('alloc.cpp', ['avx2'], {'f': 'float'}, 'g++', opt=('-O3',), link=WRAP, scale=3)
        r += split('alloc.cpp', ['sse4_1', 'avx2'], {'d': 'double'}, 'clang++', san=True, link=WRAP, scale=1)
    else:
        for cxx, opt in ((MIX, '-O1'), (XIM, '-O2'), (MIX, '-O3')):
            r += split('alloc.cpp', MORE, ONE, cxx, opt=(opt,), link=WRAP, scale=100, timeout=1500)
        r += split('alloc.cpp', MORE, {'f': 'float', 's': 'short'}, 'clang++', san=True, link=WRAP, scale=10, timeout=1500)
    return r


check('C15', 'histories of allocations (0-3000 objects of 18 types, three alignments, all entry points) and releases by one and by four threads that exchange blocks, injected failures of the system allocator, '
      'sizes around every overflow of the size computation; a case is one allocation or one container operation; a registry of the real posix_memalign/free/operator new/delete calls is the oracle', c15)


def groups(src, plan_q, gs, tier, san_q=(), scale_q=5, scale_t=100, types_t=None, lib=()):
    """plan_q: (group, impl, types); gs: all groups"""
    r = []
    lib = tuple(lib)
    if tier == 'quick':
        for n, (g, i, types) in enumerate(plan_q):
            r += split(src, [i], {'g%d%s' % (g, types.replace(',', '').replace(' ', '')): types}, MIX if n % 2 else XIM, defs=['-DVT_GRP=%d' % g], scale=scale_q, lib=lib)
        for g, i, types in san_q:
            r += split(src, [i], {'g%d' % g: types}, 'clang++', san=True, defs=['-DVT_GRP=%d' % g], scale=0.3 * scale_q, lib=lib)
        return r
    for g in gs:
        for cxx, opt, tag in ((MIX, '-O1', ''), (XIM, '-O2', 'x'), (MIX, '-O3', '')):
            r += split(src, MORE, types_t or ONE, cxx, opt=(opt,), defs=['-DVT_GRP=%d' % g], tag='%sg%d' % (tag, g), scale=scale_t, timeout=1500, lib=lib)
        r += split(src, ['scalar', 'sse2', 'sse4_1', 'avx', 'avx2'], types_t or THIRD, 'clang++', san=True, defs=['-DVT_GRP=%d' % g], tag='g%d' % g, scale=0.1 * scale_t, timeout=1500, lib=lib)
    return r


check('C16', 'histories of 12 operations on three simdized objects of 17 structures (2-8 members, mixed types, lane counts 1-16) and walks over containers of them with simdized iterators, some ending at an inaccessible page; '
      'a case is one operation; after it every member of every lane of every object, or every element of the container and its neighbours, is compared with the scalar objects',
      lambda tier: groups('simdize.cpp', [(0, 'sse2', 'float'), (0, 'avx2', 'int'), (0, 'avx', 'double'), (0, 'sse4_1', 'short'), (0, 'avx2', 'unsigned short'), (0, 'scalar', 'float'),
                                          (1, 'sse2', 'double'), (1, 'avx2', 'float'), (1, 'avx', 'short'), (1, 'scalar', 'int'), (1, 'avx2', 'unsigned'),
                                          (2, 'scalar', 'float, int'), (2, 'sse2', 'short, double'), (2, 'ssse3', 'float'), (2, 'sse4_1', 'unsigned'), (2, 'avx', 'float, int'), (2, 'avx2', 'double, unsigned short'),
                                          (3, 'scalar', 'double'), (3, 'sse2', 'float'), (3, 'avx', 'int'), (3, 'avx2', 'short'), (3, 'avx2', 'float')], range(4), tier,
                          san_q=[(0, 'avx2', 'float'), (1, 'sse4_1', 'int'), (2, 'avx2', 'double'), (3, 'avx2', 'float')], scale_q=8))
check('C17', 'ranges of 0 to 8192 elements of 8 types, empty ones, ones shorter than a vector and every remainder, in plain memory (bounded by inaccessible or in read-only pages), std::vector, Vc::vector, std::deque and reversed; functors taking their argument by value, reference, const or forwarding reference, '
      'stateful, throwing, or writing to the range themselves; a case is one algorithm call; the sequence of all elements passed, the range afterwards and the memory around it are compared',
      lambda tier: groups('algorithm.cpp', [(0, i, 'float, double, int, unsigned, short, unsigned short') for i in ALL] +
                          [(1, 'scalar', 'int'), (1, 'sse2', 'float, short'), (1, 'avx', 'double, int'), (1, 'avx2', 'float, unsigned short'), (2, 'sse4_1', 'float'), (2, 'sse2', 'double'), (2, 'avx', 'float'), (2, 'avx2', 'int'), (2, 'avx2', 'short')], range(3), tier,
                          san_q=[(0, 'avx2', 'float, double, int, short'), (1, 'sse2', 'float'), (2, 'avx2', 'double')], scale_q=10))
check('C18', 'histories of 10-14 operations on pairs of Vc::array (0-40 elements), Vc::vector (0-200) and Vc::span (over 9-100 elements) of scalars, structs and vectors, and lists of 0 to 2W+1 values for makeContainer, over dirty memory; '
      'a case is one operation; afterwards every element and the observable size, address and iteration are compared with the standard container',
      lambda tier: groups('containers.cpp', [(g, i, t) for g in (0, 1) for i, t in (('scalar', 'float, short'), ('sse2', 'double, int'), ('sse4_1', 'float, unsigned short'), ('avx', 'double, short'), ('avx2', 'float, unsigned'), ('avx2', 'short, int'))], range(2), tier,
                          san_q=[(0, 'avx2', 'float, short'), (1, 'sse4_1', 'float'), (1, 'avx2', 'double')], scale_q=20))


def cpuid_jobs(tier):
    """group 0 fake CPUs (own process each), 1 the real one, 2 the implementation chosen by compiler options"""
    hook = ['-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fakecpu.h')]
    big = 4 if tier == 'quick' else 60
    r = []
    for cxx in ('g++', 'clang++'):
        for opt in (('-O1',), ('-O3',), ('-O0',)) if tier == 'thorough' else (('-O1',),):
            for auto in ((), ('-DVT_AUTO',)):
                r.append(Job('cpuid.cpp', 'scalar', cxx=cxx, opt=opt, defs=('-DVT_GRP=0',) + auto, tag='fake' + ('auto' if auto else ''), scale=big * (0.5 if auto else 1), libopt=hook, weight=3, timeout=600))
        r.append(Job('cpuid.cpp', 'avx2', cxx=cxx, defs=('-DVT_GRP=1',), tag='real'))
    r.append(Job('cpuid.cpp', 'scalar', cxx='clang++', san=True, defs=('-DVT_GRP=0',), tag='fake', scale=big * 0.25, libopt=hook, weight=4, timeout=600))
    for i, (fl, want) in enumerate([
            ('', None), ('-msse3', None), ('-mssse3', None), ('-msse4.1', None), ('-msse4.2', None), ('-msse4a', None), ('-mavx', None), ('-mavx -mfma', None), ('-mavx2', None), ('-mavx2 -mbmi2 -mfma', None),
            ('-mfma4', None), ('-mxop', None), ('-msse2 -mpopcnt', None), ('-mbmi2', None), ('-march=haswell', None), ('-march=bdver2', None), ('-march=btver1', None), ('-march=core2', None), ('-march=znver1', None), ('-march=skylake', None),
            ('-DVc_IMPL=Scalar', 'ScalarImpl'), ('-mavx -DVc_IMPL=Scalar', 'ScalarImpl'), ('-mavx -DVc_IMPL=SSE4_1+XOP', 'SSE41Impl | Vc::XopInstructions | POP'), ('-mavx -mfma4 -DVc_IMPL=SSE4_2+FMA4', 'SSE42Impl | Vc::Fma4Instructions | POP'),
            ('-mavx2 -DVc_IMPL=AVX+FMA+BMI2', 'AVXImpl | Vc::FmaInstructions | Vc::Bmi2Instructions | POP'), ('-mxop -DVc_IMPL=AVX+XOP+FMA4+SSE4a', 'AVXImpl | Vc::XopInstructions | Vc::Fma4Instructions | Vc::Sse4aInstructions | POP'),
            ('-msse4.2 -DVc_IMPL=SSE', 'SSE42Impl | POP'), ('-msse3 -DVc_IMPL=SSE', 'SSE3Impl | POP'), ('-msse4.2 -DVc_IMPL=SSSE3', 'SSSE3Impl | POP'), ('-msse2 -DVc_IMPL=SSE2+POPCNT', 'SSE2Impl | Vc::PopcntInstructions')]):

        d = ['-DVT_GRP=2'] + fl.split()
        if want:
            d.append('-DVT_EXPECT_IMPL=' + want.replace('POP', 'VT_POP'))
        for cxx in ('g++', 'clang++') if tier == 'thorough' else (('g++', 'clang++')[i % 2],):
            r.append(Job('cpuid.cpp', 'none', cxx=cxx, opt=('-O0',), defs=d, tag='opt%d' % i, weight=0.5))
    return r


IMPL['none'] = []
check('C19', 'generated CPUs (vendor, family and model, every combination of feature bits and highest leaf, cache descriptors, leaf 4 and AMD cache tables, XCR0), each answered to the unmodified detection code in a process of its own, '
      'plus the real CPU, 150 library/header version pairs per run, and 30 compiler option sets; a case is one CPU, version pair or query; every getter, support query and 96 ImplementationT combinations are compared per CPU',
      cpuid_jobs)


check('C21', 'lane values of every class, mask patterns and memory contents, printed to string streams with random base, precision, notation and flags, to streams that stop accepting characters at a random position (with and without exceptions), '
      'and to std::cout on a pipe and on a terminal; a case is one printed object; the text is compared with one composed from the lanes by the standard library',
      std_jobs('io.cpp', parts=THIRD, scale_q=20, san_impls=("avx2",), quick_impls=['scalar', 'sse2', 'avx', 'avx2']))


TSAN = ('-O1', '-g1', '-fsanitize=thread')
# clang does not instrument 32-byte accesses for the thread sanitizer, gcc does
TSX = dict(XIM, avx='g++', avxf='g++', avx2n='g++', avx2='g++')


MT = [  # every other driver, run by three threads at once: (driver, implementation, type, more definitions)
    ('arith', 'avx2', 'f', ''), ('arith', 'sse4_1', 'i', ''), ('arith', 'avx', 's', arrs(7)[0]), ('mask', 'avx2', 's', ''), ('mask', 'sse2', 'f', ''), ('mask', 'avx', 'd', arrs(13)[0]),
    ('loadstore', 'avx2', 'us', ''), ('loadstore', 'sse4_1', 'f', ''), ('gather', 'avx2', 'f', ''), ('gather', 'sse2', 's', ''), ('gather', 'sse4_1', 'i', '-DVT_SCATTER'), ('gather', 'avx2', 'd', '-DVT_SCATTER'),
    ('cast', 'avx2', 'f', ''), ('cast', 'sse2', 'i', ''), ('wmask', 'avx2', 'i', ''), ('wmask', 'sse2', 'd', ''), ('reduce', 'avx2', 'f', ''), ('reduce', 'sse2', 'us', ''), ('reduce', 'avx', 'i', arrs(11)[0]),
    ('permute', 'avx2', 'f', ''), ('permute', 'sse2', 's', ''), ('permute', 'avx', 'd', arrs(6)[0]), ('lanes', 'avx2', 'd', ''), ('lanes', 'sse2', 'i', ''), ('lanes', 'avx', 'f', arrs(7)[0]),
    ('math', 'avx2', 'f', ''), ('math', 'avx', 'd', ''), ('math', 'sse2', 'i', ''), ('math', 'sse4_1', 'd', arrs(5)[0]), ('trans', 'avx2', 'f', ''), ('trans', 'avx', 'd', ''), ('trans', 'sse2', 'f', ''), ('trans', 'scalar', 'd', ''),
    ('interleave', 'avx2', 'f', '-DVT_SS=3,4,6'), ('interleave', 'sse2', 'd', '-DVT_SS=2,5'), ('interleave', 'avx', 's', '-DVT_SS=3'), ('memory', 'avx2', 'f', '-DVT_NS=9'), ('memory', 'sse2', 's', '-DVT_NS=5'),
    ('simdize', 'avx2', 'f', '-DVT_GRP=0'), ('simdize', 'sse2', 'i', '-DVT_GRP=1'), ('simdize', 'avx2', 'd', '-DVT_GRP=2'), ('simdize', 'avx2', 'i', '-DVT_GRP=3'),
    ('algorithm', 'avx2', 'f', '-DVT_GRP=0'), ('algorithm', 'sse2', 's', '-DVT_GRP=1'), ('algorithm', 'avx', 'd', '-DVT_GRP=2'), ('containers', 'avx2', 'f', '-DVT_GRP=0'), ('containers', 'sse2', 'i', '-DVT_GRP=1'),
    ('io', 'avx2', 'f', ''), ('io', 'sse2', 'us', '')]


def c22(tier):
    q = tier == 'quick'
    sl = ('trig', 'sort')
    r = []
    if q:
        P = {'a': 'float, short', 'b': 'double, int', 'c': 'unsigned, unsigned short'}
        for i, ks in (('scalar', 'a'), ('sse2', 'b'), ('ssse3', 'c'), ('sse4_1', 'abc'), ('avx', 'ab'), ('avx2', 'abc')):
            r += split('threads.cpp', [i], {k: P[k] for k in ks}, MIX, lib=sl, scale=12)
        for i, ts in (('scalar', 'f'), ('sse2', 'is'), ('sse4_1', 'fu'), ('avx', 'fd'), ('avx2', ['f', 'd', 'i', 'u', 's', 'us'])):
            r += split('threads.cpp', [i], {'tsan' + t: ONE[t] for t in ts}, TSX, lib=sl, opt=TSAN, scale=3)
        for d, i, t, more in MT:
            r += split(d + '.cpp', [i], {'mt' + t: ONE[t]}, TSX, lib=sl, opt=TSAN, defs=['-DVT_MT=3'] + more.split(), tag='' if 'ARRAYS' not in more and 'SCATTER' not in more else 'v', scale=0.5)
        return r
    for cxx, opt in ((MIX, '-O1'), (XIM, '-O2'), (MIX, '-O3')):
        r += split('threads.cpp', MORE, ONE, cxx, opt=(opt,), lib=sl, scale=50, timeout=1500)
    r += split('threads.cpp', MORE, ONE, TSX, opt=TSAN, lib=sl, tag='tsan', scale=3, timeout=1500)
    r += split('threads.cpp', MORE, ONE, dict(MIX, avx='g++', avx2n='g++', avx2='g++'), opt=TSAN, lib=sl, tag='tsan2', scale=3, timeout=1500)
    for d, i, t, more in MT:
        for i2, t2 in {(i, t), ('avx2', 'f'), ('avx2', 'us'), ('avx', 'd'), ('sse4_1', 's'), ('sse2', 'u'), ('scalar', 'i')}:
            r += split(d + '.cpp', [i2], {'mt' + t2: ONE[t2]}, TSX, lib=sl, opt=TSAN, defs=['-DVT_MT=3'] + more.split(), tag='%08x' % zlib.crc32(more.encode()), scale=3, timeout=1500)
    u = {}
    return [u.setdefault(j.name, j) for j in r if j.name not in u]


check('C22', 'six threads run random sequences of 24-32 operations on their own objects, alone and together, with random delays; partitions of one array or Memory into pieces of random length dealt to the threads; '
      'a case is one operation or one partitioned run; results are compared with those of the same operations alone, and ThreadSanitizer watches every access; besides, three threads at once run the monitored workload of every other property (two the same, one another), judged by the same oracles', c22)
