"""What each property's check builds, runs and requires the monitors to have seen."""

import os
BARE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'bare')
KINDS = {'SEM': 1, 'LIFE': 2, 'MEM': 4, 'ALLOC': 8, 'STAB': 16, 'DISC': 32}
SEM, LIFE, MEM, ALLOC, STAB, DISC = 1, 2, 4, 8, 16, 32

GXX, CLANG = ['/usr/bin/g++'], ['/usr/bin/clang++']
STD = ['-std=gnu++17', '-fno-exceptions', '-fno-rtti']
# Dead stores to an object that is being destroyed stay: the monitors look at them.
GLIFE = ['-fno-lifetime-dse']
# The library sees the macros of C++98 and of a compiler that is not gcc.
MODE98 = ['-include', 'mode98.hpp']
BUILDS = {
    'as98': {'cxx': GXX, 'flags': STD + MODE98 + GLIFE + ['-O2', '-g1']},
    'as98-asan': {'cxx': GXX, 'flags': STD + MODE98 + GLIFE + ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']},
    'asan': {'cxx': GXX, 'flags': STD + GLIFE + ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']},
    'O2': {'cxx': GXX, 'flags': STD + GLIFE + ['-O2', '-g1']},
    'O0': {'cxx': GXX, 'flags': STD + GLIFE + ['-O0', '-g1']},
    'O3': {'cxx': GXX, 'flags': STD + GLIFE + ['-O3', '-g1', '-march=native']},
    'Os': {'cxx': GXX, 'flags': STD + GLIFE + ['-Os', '-g1']},
    'c26': {'cxx': CLANG, 'flags': ['-std=gnu++26', '-fno-exceptions', '-fno-rtti', '-O2', '-g1']},
    'cxx20': {'cxx': GXX, 'flags': ['-std=gnu++20', '-fno-exceptions', '-fno-rtti'] + GLIFE + ['-O2', '-g1']},
    'asan-ptr': {'cxx': GXX, 'flags': STD + GLIFE + ['-O1', '-g1', '-fsanitize=address,undefined,pointer-compare,pointer-subtract',
                                                     '-fno-sanitize-recover=all'],
                 'env': {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_invalid_pointer_pairs=2'}},
    'clang-asan': {'cxx': CLANG, 'flags': STD + ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                                                 '-fsanitize-address-use-after-scope'],
                   'link': ['-Wl,-z,muldefs']},
    'clang-O2': {'cxx': CLANG, 'flags': STD + ['-O2', '-g1']},
    'msan': {'cxx': CLANG, 'flags': STD + ['-O1', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all'],
             'link': ['-Wl,-z,muldefs']},
    'msan-O0': {'cxx': CLANG, 'flags': STD + ['-O0', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all',
                                              '-fsanitize-memory-track-origins'],
                'link': ['-Wl,-z,muldefs']},
    'tsan': {'cxx': CLANG, 'flags': STD + ['-O1', '-g1', '-fsanitize=thread', '-pthread']},
    'tsan-O2': {'cxx': CLANG, 'flags': STD + ['-O2', '-g1', '-fsanitize=thread', '-pthread']},
    'uchar': {'cxx': GXX, 'flags': STD + GLIFE + ['-O1', '-g1', '-funsigned-char', '-fshort-wchar', '-fsanitize=undefined',
                                                  '-fno-sanitize-recover=all']},
}

# cases on a small stack
for _n in ('O2', 'O0', 'as98', 'clang-O2'):
    BUILDS['st-' + _n] = dict(BUILDS[_n], flags=BUILDS[_n]['flags'] + ['-DMON_STACK'])
# histories in the middle of the callbacks of others
for _n in ('asan', 'O2', 'as98', 'clang-asan', 'O0'):
    BUILDS['re-' + _n] = dict(BUILDS[_n], flags=BUILDS[_n]['flags'] + ['-DMON_REENTER'])

for _n, _cxx, _std, _f in (
        ('g98', GXX, '98', ['-O1']), ('c98', CLANG, '98', ['-O1']), ('g11', GXX, '11', ['-O2']), ('c11', CLANG, '11', ['-O2']),
        ('g14', GXX, '14', ['-O0']), ('g17', GXX, '17', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
        ('c17', CLANG, '17', ['-O0']), ('g20', GXX, '20', ['-O2']), ('c20', CLANG, '20', ['-O1']),
        ('g23', GXX, '23', ['-O1']), ('c26', CLANG, '26', ['-O2']), ('s98', GXX, 'c++98', ['-O2']), ('s17', CLANG, 'c++17', ['-O1'])):
    _std = _std if _std[0] == 'c' else 'gnu++' + _std
    # a program of many units: 'units' compiles them, the rest what watches them
    _san = [f for f in _f if 'sanitize' in f]
    BUILDS['u-' + _n] = {'cxx': GXX, 'flags': STD + GLIFE + ['-O1', '-g1'] + _san,
                         'units': _cxx + ['-std=' + _std, '-fno-exceptions', '-fno-rtti', '-g1'] + (GLIFE if _cxx is GXX else []) + _f}
    # the same with nothing of a C++ library
    BUILDS['b-' + _n] = {'cxx': GXX, 'flags': STD + GLIFE + ['-O1', '-g1'], 'bare': True,
                         'units': _cxx + ['-std=' + _std, '-fno-exceptions', '-fno-rtti', '-g1', '-fPIC', '-nostdinc++', '-I' + BARE,
                                          '-fno-stack-protector', '-fno-asynchronous-unwind-tables'] +
                         (GLIFE if _cxx is GXX else []) + [f for f in _f if 'sanitize' not in f]}
# the tree's functions not inline, but in one of the units
BUILDS['u-outline'] = dict(BUILDS['u-g11'], outline=True, units=BUILDS['u-g11']['units'] + ['-DRBTREE_INLINEABLE='])
BUILDS['u-outline98'] = dict(BUILDS['u-c98'], outline=True, units=BUILDS['u-c98']['units'] + ['-DRBTREE_INLINEABLE='])

# units of one program compiled by different compilers, in different modes, with different options
_u = ['-fno-exceptions', '-fno-rtti', '-g1']
_gu, _cu = GXX + _u + GLIFE, CLANG + _u
BUILDS['u-gxx'] = dict(BUILDS['u-g17'], flags=BUILDS['u-g11']['flags'], units=_gu + ['-std=gnu++17', '-O1'], units_each=[
    _gu + ['-std=gnu++98', '-O2'], _gu + ['-std=gnu++17', '-O0'], _gu + ['-std=gnu++11', '-Os', '-DNDEBUG'],
    _gu + ['-std=c++20', '-O1', '-DDEBUG', '-D_DEBUG'], _gu + ['-std=gnu++23', '-O3']])
BUILDS['u-both'] = dict(BUILDS['u-gxx'], units_each=[
    _gu + ['-std=gnu++17', '-O2'], _cu + ['-std=gnu++17', '-O0'], _gu + ['-std=c++98', '-O0', '-DNDEBUG'],
    _cu + ['-std=gnu++20', '-O2', '-DDEBUG'], _cu + ['-std=c++98', '-O1'], _gu + ['-std=gnu++23', '-O1'], _cu + ['-std=c++11', '-Os']])

# base: cases that take about 2 s of all cores with asan
HARNESSES = {
    'vector': {'base': 20000, 'cost': 20},
    'fixed_vector': {'base': 20000, 'cost': 18},
    'list': {'base': 20000, 'cost': 20},
    'forward_list': {'base': 20000, 'cost': 15},
    'backward_list': {'base': 20000, 'cost': 15},
    'lazy_queue': {'base': 20000, 'cost': 15},
    'map': {'base': 12000, 'cost': 18},
    'set': {'base': 12000, 'cost': 16},
    'rbtree': {'base': 12000, 'cost': 14},
    'vector_map': {'base': 16000, 'cost': 12},
    'sorted_vector_map': {'base': 16000, 'cost': 14},
    'bitset': {'base': 12000, 'cost': 22, 'parts': 3},
    'algo_query': {'base': 16000, 'cost': 18},
    'algo_modify': {'base': 16000, 'cost': 18},
    'algo_sorted': {'base': 16000, 'cost': 18},
    'vocab': {'base': 12000, 'cost': 16},
    'mixed_query': {'base': 12000, 'cost': 28, 'src': 'h_mixed.cpp', 'parts': 3, 'flags': ['-DMON_MIXED=0']},
    'mixed_modify': {'base': 12000, 'cost': 30, 'src': 'h_mixed.cpp', 'parts': 3, 'flags': ['-DMON_MIXED=1']},
    'mixed_sorted': {'base': 12000, 'cost': 25, 'src': 'h_mixed.cpp', 'parts': 3, 'flags': ['-DMON_MIXED=2']},
    'mixed_vocab': {'base': 12000, 'cost': 12, 'src': 'h_mixed.cpp', 'parts': 3, 'flags': ['-DMON_MIXED=3']},
    'mixc_vector': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=0']},
    'mixc_fixed_vector': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=1']},
    'mixc_list': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=2']},
    'mixc_forward_list': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=3']},
    'mixc_backward_list': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=4']},
    'mixc_lazy_queue': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=5']},
    'mixc_map': {'base': 6000, 'cost': 18, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=6']},
    'mixc_set': {'base': 6000, 'cost': 16, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=7']},
    'mixc_vector_map': {'base': 6000, 'cost': 18, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=8']},
    'mixc_sorted_vector_map': {'base': 6000, 'cost': 18, 'src': 'h_mixcont.cpp', 'flags': ['-DMON_MIXED=9']},
    'types': {'base': 16, 'cost': 10, 'cxx98': ['types98.cpp']},
    'tsan': {'base': 2000, 'cost': 12},
    'big_algo': {'base': 240, 'cost': 14},
    'big_cont': {'base': 240, 'cost': 26},
    'huge': {'base': 1, 'cost': 12, 'cpu': 240},
    'units': {'base': 6000, 'cost': 90, 'src': 'h_units.cpp'},
    'units_more': {'base': 6000, 'cost': 90, 'src': 'h_units.cpp', 'parts': 4},
    'compose': {'base': 8000, 'cost': 60, 'parts': 3},
    'needs': {'base': 16000, 'cost': 50},
    'std': {'base': 12000, 'cost': 70, 'parts': 2},
    'const': {'base': 24000, 'cost': 30},
    'nested': {'base': 8000, 'cost': 20, 'parts': 4},
}
CONT = ['vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'rbtree',
        'vector_map', 'sorted_vector_map']
ALG = ['algo_query', 'algo_modify', 'algo_sorted']
NODES = ['list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set']
ALIAS = ['vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'rbtree', 'vector_map',
         'sorted_vector_map', 'bitset', 'vocab']
VALUE = ['vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'sorted_vector_map',
         'rbtree', 'vector_map', 'bitset', 'nested']
ITER = ['vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'sorted_vector_map',
        'vector_map', 'rbtree', 'vocab']
PROFILES = {
    'vector': ['mix', 'value', 'alias', 'iter'], 'fixed_vector': ['mix', 'value', 'alias', 'iter'],
    'list': ['mix', 'value', 'alias', 'iter', 'relink'], 'forward_list': ['mix', 'value', 'alias', 'iter', 'relink'],
    'backward_list': ['mix', 'value', 'alias', 'iter', 'relink'], 'lazy_queue': ['mix', 'value', 'alias', 'iter', 'relink'],
    'map': ['mix', 'value', 'alias', 'iter'], 'set': ['mix', 'value', 'alias', 'iter'], 'rbtree': ['mix', 'alias'],
    'vector_map': ['mix', 'alias', 'iter'], 'sorted_vector_map': ['mix', 'value', 'alias', 'iter'],
    'bitset': ['mix', 'alias'], 'vocab': ['mix', 'alias'],
}
PROPS = {}
BIG = ['vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'vector_map', 'sorted_vector_map']


def job(h, kinds, profile, build, mult):
    n = int(HARNESSES[h]['base'] * mult)
    return {'h': h, 'kinds': kinds, 'profile': profile, 'build': build, 'cases': n}


def profs(h):
    return PROFILES.get(h, ['mix'])


def one(h, kinds, quick=3.0, builds=('asan', 'O2', 'as98'),
        deep=('asan', 'O2', 'as98', 'as98-asan', 'O0', 'O3', 'clang-asan', 'clang-O2', 'cxx20', 'c26')):
    """All profiles of one harness; the mixed one gets half of the cases."""
    def jobs(tier):
        out = []
        m = quick if tier == 'quick' else quick * 12
        for b in builds if tier == 'quick' else deep:
            ps = profs(h)
            for p in ps:
                w = 1.0 if len(ps) == 1 else 0.5 if p == 'mix' else 0.5 / (len(ps) - 1)
                out.append(job(h, kinds, p, b, m * w))
        return out
    return jobs


def big(jobs, h, kinds, profile, mult=1.0):
    """The same with long ranges and large containers."""
    def more(tier):
        return jobs(tier) + [job(h, kinds, profile, b, mult * (w if tier == 'quick' else w * 12)) for b, w in (('asan', 0.5), ('O2', 1.0))]
    return more


def mixed(jobs, which, kinds=SEM | MEM, builds=('O2', 'asan'), mult=1.0):
    """The same over arithmetic and pointer types, mixed."""
    def more(tier):
        return jobs(tier) + [job(which, kinds, 'mix', b, mult * (1 if tier == 'quick' else 12))
                             for b in (builds if tier == 'quick' else builds + ('clang-O2', 'as98'))]
    return more


MIXED = ['mixed_query', 'mixed_modify', 'mixed_sorted', 'mixed_vocab'] + ['mixc_' + c for c in (
    'vector', 'fixed_vector', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'vector_map', 'sorted_vector_map')]


def all_mixed(jobs, kinds, builds, mult=0.5):
    def more(tier):
        return jobs(tier) + [job(h, kinds, 'mix', b, mult * (1 if tier == 'quick' else 12)) for h in MIXED for b in builds]
    return more


HUGE = {'vector': 6, 'fixed_vector': 5, 'array': 9, 'bitset': 3} # GB


def huge(jobs, profile, n, shards=None):
    """The same with sizes that int does not hold."""
    def more(tier):
        return jobs(tier) + [dict(job('huge', SEM | MEM, profile, b, n * m), shards=shards or n, mem=HUGE.get(profile, 0)) for b, m in
                             ([('O2', 1)] if tier == 'quick' else [('O2', 6), ('clang-O2', 6), ('as98', 6)])]
    return more


def large(jobs, kinds, mult=0.25, builds=('O2',), deep=('O2', 'asan', 'clang-O2'), which=BIG):
    """The same with large containers of every kind."""
    def more(tier):
        return jobs(tier) + [job('big_cont', kinds, p, b, mult * (1 if tier == 'quick' else 12))
                             for b in (builds if tier == 'quick' else deep) for p in which]
    return more


def many(hs, kinds, profiles, quick=1.0, builds=('O2',), deep=('O2', 'asan', 'O0', 'clang-O2'), mult=12):
    """Several harnesses with the given profiles (those a harness has)."""
    def jobs(tier):
        out = []
        for b in builds if tier == 'quick' else deep:
            for h in hs:
                ps = [p for p in profiles if p in profs(h)] or ['mix']
                for p in ps:
                    out.append(job(h, kinds, p, b, (quick if tier == 'quick' else quick * mult) / len(ps)))
        return out
    return jobs


def add(pid, title, jobs, rule, needs=(), findings=False, assumptions=()):
    PROPS[pid] = {'title': title, 'jobs': jobs, 'rule': rule, 'needs': list(needs), 'findings': findings,
                  'assumptions': BASE_ASSUMPTIONS + list(assumptions)}


BASE_ASSUMPTIONS = [
    'callers respect the documented preconditions (valid iterators and positions, strict weak orderings consistent with ==)',
    'only the executions that were produced are judged; the shards draw them from the seed',
    'x86-64 Linux with the installed g++ and clang++',
]
HIST = ('A case is a pseudo-random history of operations on several containers of one element type, derived from seed and case '
        'number. evaluations: operations executed, each followed by a comparison of every container with its model. '
        'distinct_nontrivial: distinct hashes of (container, element type, operation outcome, model contents) seen after an '
        'operation; the union over all shards, counted once.')
ALGO_RULE = ('A case is one batch of calls of one algorithm family with generated ranges (a third of the cases enumerate small '
             'ranges over a small alphabet completely), each judged against an independent reference. evaluations: calls judged. '
             'distinct_nontrivial: distinct (algorithm, iterator category, input, outcome) hashes.')

add('C01', 'vector', mixed(huge(big(one('vector', SEM | MEM), 'big_cont', SEM | MEM, 'vector'), 'vector', 2), 'mixc_vector'), HIST, ['observations', 'elem_checks'])
add('C02', 'fixed_vector', mixed(huge(big(one('fixed_vector', SEM | MEM), 'big_cont', SEM | MEM, 'fixed_vector'), 'fixed_vector', 1), 'mixc_fixed_vector'), HIST, ['observations', 'elem_checks'])
add('C03', 'list', mixed(big(one('list', SEM | MEM), 'big_cont', SEM | MEM, 'list'), 'mixc_list'), HIST, ['observations', 'elem_checks'], findings=True)
add('C04', 'forward_list', mixed(big(one('forward_list', SEM | MEM), 'big_cont', SEM | MEM, 'forward_list'), 'mixc_forward_list'), HIST, ['observations', 'elem_checks'])
add('C05', 'backward_list', mixed(big(one('backward_list', SEM | MEM), 'big_cont', SEM | MEM, 'backward_list'), 'mixc_backward_list'), HIST, ['observations', 'elem_checks'])
add('C06', 'lazy_queue', mixed(big(one('lazy_queue', SEM | MEM), 'big_cont', SEM | MEM, 'lazy_queue'), 'mixc_lazy_queue'), HIST, ['observations', 'elem_checks'])
add('C07', 'map', mixed(big(one('map', SEM | MEM), 'big_cont', SEM | MEM, 'map'), 'mixc_map'), HIST, ['observations', 'elem_checks'])
add('C08', 'set', mixed(big(one('set', SEM | MEM), 'big_cont', SEM | MEM, 'set'), 'mixc_set'), HIST, ['observations', 'elem_checks'])
add('C09', 'rbtree', one('rbtree', SEM | MEM), HIST, ['observations'])
add('C10', 'vector_map', mixed(big(one('vector_map', SEM | MEM), 'big_cont', SEM | MEM, 'vector_map'), 'mixc_vector_map'), HIST, ['observations', 'elem_checks'])
add('C11', 'sorted_vector_map', mixed(big(one('sorted_vector_map', SEM | MEM), 'big_cont', SEM | MEM, 'sorted_vector_map'), 'mixc_sorted_vector_map'), HIST, ['observations', 'elem_checks'])
add('C12', 'bitset', huge(big(one('bitset', SEM | MEM), 'big_cont', SEM | MEM, 'bitset'), 'bitset', 1), HIST, ['observations'])
add('C13', 'array, pair, functional, utility, numeric', mixed(huge(big(one('vocab', SEM | MEM), 'big_algo', SEM | MEM, 'vocab'), 'array', 1), 'mixed_vocab'), HIST)
add('C14', 'query algorithms', mixed(huge(big(one('algo_query', SEM | MEM), 'big_algo', SEM | MEM, 'query'), 'query', 9), 'mixed_query'), ALGO_RULE)
add('C15', 'modifying algorithms', mixed(huge(big(one('algo_modify', SEM | MEM), 'big_algo', SEM | MEM, 'modify'), 'modify', 11), 'mixed_modify'), ALGO_RULE)
add('C16', 'sorted-range algorithms', mixed(huge(big(one('algo_sorted', SEM | MEM), 'big_algo', SEM | MEM, 'sorted'), 'sorted', 4), 'mixed_sorted'), ALGO_RULE)
add('C17', 'element lifetime', large(many(CONT + ALG + ['nested', 'vocab'], LIFE, ['mix', 'value', 'alias'], 1.0), LIFE), HIST,
    ['elem_ctor', 'elem_dtor', 'live_checks', 'elem_assign'])
add('C18', 'memory safety', all_mixed(large(many(CONT + ALG + ['nested', 'vocab', 'bitset'], MEM, ['mix', 'value', 'alias', 'iter'], 1.0, ('asan',),
                                       ('asan', 'clang-asan', 'asan-ptr', 'O2')), MEM, 0.25, ('asan',),
                                  ('asan', 'clang-asan', 'asan-ptr'), BIG + ['bitset']), MEM, ('asan',)), HIST, ['alloc_events'])
add('C19', 'allocation discipline', large(many(CONT + ALG + ['nested', 'vocab', 'bitset'], ALLOC, ['mix', 'value', 'alias'], 1.0), ALLOC), HIST,
    ['alloc_events', 'free_events', 'blocks_audited'])
add('C20', 'reference and iterator stability', large(many(NODES + ['vector', 'fixed_vector'], STAB, ['mix', 'relink', 'alias'], 2.0,
                                                          ('O2', 'asan'), ('O2', 'asan', 'O0', 'clang-O2')), STAB, 0.5, which=['vector']), HIST, ['stab_checks'])
add('C21', 'aliasing', many(ALIAS, SEM | LIFE | MEM | ALLOC, ['alias'], 1.0, ('asan', 'O2'), ('asan', 'O2', 'clang-asan', 'O0')),
    HIST, ['alias_ops'])
add('C22', 'value semantics', many(VALUE, SEM | MEM, ['value'], 1.0, ('asan', 'O2'), ('asan', 'O2', 'clang-asan', 'O0')), HIST,
    ['observations', 'elem_checks'])
add('C23', 'no hidden shared state', lambda tier: [job('tsan', 0xffff, 'mix', b, m) for b, m in
                                                   ([('tsan', 1.0)] if tier == 'quick' else [('tsan', 20.0), ('tsan-O2', 20.0)])],
    'A case runs two to four threads on their own containers and on shared constant ones, switching at random points under '
    'ThreadSanitizer. evaluations: operations executed by all threads; distinct_nontrivial: distinct interleavings (order of '
    'thread switches) seen.', ['iter_steps'])
add('C24', 'iterator and predicate discipline', many(ALG + ['vocab'], DISC, ['mix'], 2.0, ('O2', 'asan'), ('O2', 'asan', 'clang-O2')), ALGO_RULE,
    ['disc_events', 'pred_calls'])
add('C25', 'iteration protocol', many(ITER, SEM | MEM, ['iter'], 1.0, ('asan', 'O2'), ('asan', 'O2', 'clang-asan', 'O0')), HIST,
    ['iter_steps'])
add('C26', 'type queries', lambda tier: [job('types', 0xffff, 'mix', b, 1) for b in
                                         (['O2', 'uchar', 'cxx20', 'clang-O2', 'as98'] if tier == 'quick' else
                                          ['O2', 'uchar', 'cxx20', 'clang-O2', 'as98', 'O0', 'O3', 'clang-asan', 'as98-asan'])],
    'Every query of every type in a table of types, built from base types, cv, pointers, references, arrays, functions and members, '
    'is compared with the compiler\'s own answer. evaluations: comparisons; distinct_nontrivial: distinct (query, type) pairs.')
add('C27', 'containers of containers', lambda tier: one('nested', 0x3f & ~DISC, 2.0)(tier), HIST, ['observations', 'elem_checks'])
add('C28', 'no dependence on uninitialised memory', all_mixed(large(many(CONT + ALG + ['nested', 'vocab', 'bitset'], MEM, ['mix', 'value', 'alias'], 0.5,
                                                               ('msan',), ('msan', 'msan-O0'), 20), MEM, 0.25, ('msan',),
                                                          ('msan', 'msan-O0'), BIG + ['bitset']), MEM, ('msan',), 0.25), HIST)
UNITS_RULE = ('A case is a history of operations on three objects of one kind (or of algorithm calls), every operation by a randomly chosen '
              'unit of a program of many, each unit with its own selection and order of headers. evaluations: operations; distinct_nontrivial: '
              'distinct (kind, contents, sequence of units) seen.')
add('C29', 'headers in any order and any number of units',
    lambda tier: [job('units', 0xffff & ~(STAB | DISC), 'mix', b, 1) for b in ('u-g98', 'u-c98', 'u-g17', 'u-c20', 'u-outline', 'u-gxx', 'u-both')] if tier == 'quick' else
    [job('units_more', 0xffff & ~(STAB | DISC), 'mix', b, 8) for b in sorted(BUILDS) if b.startswith('u-')],
    UNITS_RULE, ['observations', 'elem_checks', 'elem_ctor', 'alloc_events'])
add('C30', 'no C++ library',
    lambda tier: [job('units', 0xffff & ~(STAB | DISC), 'mix', b, 1) for b in ('b-g98', 'b-c17', 'b-g20')] if tier == 'quick' else
    [job('units_more', 0xffff & ~(STAB | DISC), 'mix', b, 8) for b in sorted(BUILDS) if b.startswith('b-')],
    UNITS_RULE, ['observations', 'elem_checks', 'elem_ctor', 'alloc_events'])
add('C31', 'algorithms on the containers and containers from each other',
    lambda tier: [job('compose', SEM | MEM | LIFE | ALLOC, 'mix', b, m) for b, m in
                  ([('asan', 1.0), ('O2', 1.0)] if tier == 'quick' else
                   [('asan', 20.0), ('O2', 20.0), ('clang-asan', 10.0), ('O0', 10.0), ('cxx20', 10.0)])],
    'A case is a history of operations on nine sequences of different kinds and two maps: algorithms over the ranges of one or two containers, '
    'containers filled from the ranges of others, removal by algorithm and erase, binary searches where the iterators allow them. evaluations: '
    'operations, each followed by a comparison of the containers involved with their models. distinct_nontrivial: distinct (container, contents) seen.',
    ['observations', 'elem_checks', 'elem_ctor', 'alloc_events'])
add('C32', 'what operations need of elements and functions',
    lambda tier: [job('needs', SEM | MEM | LIFE | ALLOC, 'mix', b, m) for b, m in
                  ([('asan', 2.0), ('O2', 2.0), ('as98', 2.0)] if tier == 'quick' else
                   [('asan', 40.0), ('O2', 40.0), ('as98', 20.0), ('as98-asan', 20.0), ('clang-asan', 20.0), ('clang-O2', 20.0), ('O0', 10.0), ('cxx20', 20.0)])],
    'A case is a history of operations on two containers of one kind (or a series of algorithm calls) whose elements have only the abilities named in the '
    'operation, e.g. list<==> for elements that have == and nothing else. evaluations: operations, each followed by a comparison of everything with the model. '
    'distinct_nontrivial: distinct (operation, contents or result) seen.', ['observations', 'elem_checks', 'elem_ctor', 'live_checks'])
add('C33', 'beside the standard library',
    lambda tier: [job('std', SEM | MEM | LIFE | ALLOC, 'mix', b, m) for b, m in
                  ([('asan', 1.0), ('O2', 1.0)] if tier == 'quick' else
                   [('asan', 20.0), ('O2', 20.0), ('clang-asan', 10.0), ('clang-O2', 10.0), ('cxx20', 10.0)])],
    'A case applies a series of algorithms of both libraries to equal standard containers, or a history of operations to containers of standard elements held in standard '
    'containers. evaluations: operations, each compared with the standard library\'s result and content. distinct_nontrivial: distinct (operation, size, result) seen.',
    ['observations', 'elem_checks', 'elem_ctor'])
add('C34', 'entered again from what it calls', many(CONT + ALG + ['vocab', 'nested'], SEM | MEM | LIFE | ALLOC | STAB, ['mix', 'value', 'alias', 'relink'], 0.6,
                                                    ('re-asan',), ('re-asan', 're-O2', 're-as98', 're-clang-asan', 're-O0')),
    'A case is a history of operations on several containers, or calls of algorithms, in the middle of which (in an element\'s constructor, assignment, comparison or '
    'destructor, in a predicate, function or iterator) complete histories of other objects of the same types happen, up to three deep. evaluations: operations, '
    'outer and inner, each judged as usual; reentries: inner histories. distinct_nontrivial: distinct (operation interrupted; outcome, contents) seen.',
    ['observations', 'elem_checks', 'reentries', 'reentered_ops'])


def small_stack(tier):
    jobs = []
    for b in ('st-O0', 'st-O2') if tier == 'quick' else ('st-O0', 'st-O2', 'st-as98', 'st-clang-O2'):
        m = 0.8 if tier == 'quick' else 6
        jobs += [job('big_cont', MEM, p, b, m) for p in BIG + ['bitset']]
        jobs += [job('big_algo', MEM, p, b, m) for p in ('query', 'modify', 'sorted', 'vocab')]
    return jobs


add('C35', 'bounded stack', small_stack,
    'A case is a history of operations on a container of up to 70000 elements, or calls of algorithms on up to 200003, all on one stack of 48 KB. evaluations: operations. '
    'max_stack: the most that any case used of the stack, what the monitors use included. distinct_nontrivial: distinct (operation, outcome, contents) seen.',
    ['large_cases', 'max_stack'])
add('C36', 'constant objects are read only',
    lambda tier: [job('const', SEM | MEM, 'mix', b, m) for b, m in
                  ([('O2', 1.0), ('cxx20', 1.0), ('c26', 1.0)] if tier == 'quick' else
                   [('O2', 40.0), ('cxx20', 20.0), ('c26', 20.0), ('clang-O2', 20.0), ('O0', 10.0), ('O3', 20.0), ('as98', 20.0)])],
    'A case is a series of questions to constant containers of every kind, asked before, while and after the pages they and their elements are in are write-protected; '
    'or a table of what can be written, and of what type it is, with constant and other containers and iterators. evaluations: questions; '
    'distinct_nontrivial: distinct (object graph, answers) and entries of the table.',
    ['observations', 'elem_checks'])
