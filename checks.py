"""What each check builds and runs."""

# The build configurations of libff the checks explore.
CONFIGS = {
    # the default build
    'A': {'flags': ['-O2', '-DNDEBUG', '-DBINARY_OUTPUT', '-DMONTGOMERY_OUTPUT', '-DUSE_ASM']},
    # portable code, text output, no point compression
    'N': {'flags': ['-O2', '-DNDEBUG', '-DNO_PT_COMPRESSION']},
    # portable code with assertions, internal checks and sanitizers
    'S': {'flags': ['-O1', '-g1', '-DDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'slow': 4},
    # threads, mixed addition, low memory
    'M': {'flags': ['-O2', '-DNDEBUG', '-DBINARY_OUTPUT', '-DMULTICORE', '-fopenmp', '-DUSE_MIXED_ADDITION', '-DLOWMEM', '-DUSE_ASM', '-DNO_PT_COMPRESSION'], 'threads': True},
    # assembly with assertions, operation counters
    'D': {'flags': ['-O2', '-DDEBUG', '-DMONTGOMERY_OUTPUT', '-DUSE_ASM', '-DASM_MINIMIZE_CLMULS', '-DPROFILE_OP_COUNTS']},
    # operation counters in a sanitized build without assembly
    'Q': {'flags': ['-O1', '-g1', '-DDEBUG', '-DPROFILE_OP_COUNTS', '-DBINARY_OUTPUT', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'slow': 4},
    # checked containers, text output in Montgomery form, mixed addition, low memory
    'G': {'flags': ['-O1', '-g1', '-DDEBUG', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC', '-DMONTGOMERY_OUTPUT', '-DUSE_MIXED_ADDITION', '-DLOWMEM'], 'slow': 4},
    # the other compiler
    'C': {'flags': ['-O3', '-DNDEBUG', '-DBINARY_OUTPUT', '-DMONTGOMERY_OUTPUT', '-DUSE_ASM'], 'cxx': 'clang++'},
    # the PERFORMANCE option without asm, threads with text output
    'P': {'flags': ['-O3', '-march=native', '-DNDEBUG', '-DMULTICORE', '-fopenmp', '-DNO_PT_COMPRESSION', '-DMONTGOMERY_OUTPUT'], 'threads': True},
    # threads in a sanitized build
    'T': {'flags': ['-O1', '-g1', '-DDEBUG', '-DMULTICORE', '-fopenmp', '-DUSE_ASM', '-DUSE_MIXED_ADDITION', '-DBINARY_OUTPUT', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'slow': 4, 'threads': True},
    # data races: std::thread only (the OpenMP run time is not instrumented)
    'R': {'flags': ['-O1', '-g1', '-DNDEBUG', '-DBINARY_OUTPUT', '-fsanitize=thread', '-fno-omit-frame-pointer'], 'slow': 8, 'threads': True, 'probe': True},
    # memcheck: uninitialised values
    'V': {'flags': ['-O1', '-g1', '-DNDEBUG', '-DBINARY_OUTPUT', '-DUSE_ASM'], 'slow': 40,
          'wrap': ['valgrind', '-q', '--error-exitcode=98', '--exit-on-first-error=yes', '--leak-check=no']},
}

CURVE_FLAG = ('ALT_BN128', 'BLS12_381', 'EDWARDS', 'MNT4', 'MNT6')


def curves(src, ids=(1, 2, 3, 4, 5)):
    return [(src, ['-DCRV=%d' % i]) for i in ids]


CHECKS = {
    'P01': {
        'harness': [{'name': 'p01', 'units': curves('p01.cpp', range(1, 13)), 'cfgs': {'A': {'mult': 6}, 'N': {'mult': 4}, 'S': {'div': 4}}}],
    },
    'P02': {
        'harness': [{'name': 'p02', 'units': curves('p02.cpp', range(1, 13)) + ['p02b.cpp'], 'cfgs': {'A': {}, 'N': {}, 'S': {'div': 4}}}],
    },
    'P08': {
        'harness': [{'name': 'p08', 'units': ['p08.cpp'], 'cfgs': {'A': {}, 'N': {}, 'D': {}, 'S': {'div': 4}}}],
    },
    'P03': {
        'harness': [{'name': 'p03', 'units': curves('p03.cpp', range(1, 13)) + ['p03b.cpp'], 'cfgs': {'A': {'mult': 4}, 'N': {'mult': 4}, 'S': {'div': 1}}}],
    },
    'P04': {
        'harness': [{'name': 'p04', 'units': curves('p04.cpp', range(1, 13)), 'cfgs': {'A': {'mult': 4}, 'N': {'mult': 4}, 'S': {}}}],
    },
    'P05': {
        'harness': [{'name': 'p05', 'units': curves('p05.cpp', range(1, 12)), 'cfgs': {'A': {'mult': 3}, 'N': {'mult': 3}, 'S': {'div': 2}}}],
    },
    'P06': {
        'harness': [{'name': 'p06', 'units': curves('p06.cpp', range(1, 12)) + ['p06b.cpp'], 'cfgs': {'A': {'mult': 2}, 'N': {'mult': 2}, 'S': {'div': 8}}}],
    },
    'P07': {
        'harness': [{'name': 'p07', 'units': curves('p07.cpp'), 'cfgs': {'A': {}, 'N': {}, 'S': {'div': 4}}}],
    },
    'P09': {
        'harness': [{'name': 'p09', 'units': curves('p09.cpp'), 'cfgs': {'A': {'mult': 4}, 'N': {'mult': 3}, 'S': {}, 'D': {'mult': 2}}}],
    },
    'P10': {
        'harness': [{'name': 'p10', 'units': curves('p10.cpp'), 'cfgs': {'A': {'mult': 4}, 'N': {'mult': 3}, 'S': {}}}],
    },
    'P11': {
        'harness': [{'name': 'p11', 'units': curves('p11.cpp'), 'cfgs': {'A': {'mult': 2}, 'N': {}, 'S': {'div': 2}}}],
    },
    'P18': {
        'harness': [{'name': 'p18', 'units': curves('p18.cpp'), 'cfgs': {'A': {'mult': 3}, 'N': {'mult': 2}, 'S': {'div': 2}}}],
    },
    'P12': {
        'harness': [{'name': 'p12', 'units': curves('p12.cpp'), 'cfgs': {'A': {}, 'M': {}, 'S': {'div': 4}}}],
    },
    'P13': {
        'harness': [{'name': 'p13', 'units': curves('p13.cpp'), 'cfgs': {'A': {}, 'M': {}, 'S': {'div': 4}}}],
    },
    'P14': {
        'harness': [{'name': 'p14', 'units': curves('p14.cpp'), 'cfgs': {'A': {}, 'N': {}, 'S': {'div': 4}}}],
    },
    'P15': {
        'harness': [{'name': 'p15', 'units': curves('p15.cpp'), 'cfgs': {'A': {}, 'N': {}, 'S': {'div': 4}}}],
    },
    'P16': {
        'harness': [{'name': 'p16', 'units': curves('p16.cpp', (1, 2, 3, 4, 5, 6, 7, 8, 12)), 'cfgs': {'A': {'mult': 3}, 'N': {'mult': 3}, 'S': {}, 'M': {}, 'D': {}}}],
    },
    'P17': {
        'harness': [{'name': 'p17', 'units': curves('p17.cpp'), 'cfgs': {'A': {'mult': 2}, 'N': {'mult': 2}, 'S': {'div': 2}, 'M': {}, 'D': {}}}],
    },
    'P19': {
        'harness': [{'name': 'p19', 'units': ['p19.cpp'], 'cfgs': {'A': {'mult': 10}, 'N': {'mult': 4}, 'S': {'mult': 2}}}],
    },
    'P20': {
        'harness': [{'name': 'p20', 'units': curves('p20.cpp', (1, 2, 3, 4, 5, 6, 7, 8, 12)) + ['p20b.cpp', 'rnd.cpp'], 'cfgs': {'A': {'mult': 2}, 'N': {'mult': 2}, 'S': {'div': 2}}}],
    },
    'P21': {
        'harness': [{'name': 'p21', 'units': [('p21.cpp', ['-DCRV=%d' % i, '-UCURVE_ALT_BN128', '-DCURVE_' + n]) for i, n in enumerate(CURVE_FLAG, 1)] + ['p21b.cpp'],
                     'cfgs': {c: {'build_is_property': True, 'div': 2 if c in 'QGT' else 1} for c in 'ANMDQGCPT'}}],
        'differential': 'A',
    },
    'P22': {
        'harness': [{'name': 'p22', 'units': curves('p22.cpp') + ['p22b.cpp'], 'cfgs': {'A': {}, 'D': {}, 'Q': {'div': 4}}}],
    },
    'P23': {
        'harness': [{'name': 'p23', 'units': ['p23.cpp'], 'cfgs': {'A': {'mult': 4}, 'N': {}, 'S': {}}}],
    },
    'P24': {
        'harness': [{'name': 'p24', 'units': curves('p24.cpp', (1, 2, 3, 4, 5, 6, 7, 8, 12)) + ['p24b.cpp'], 'cfgs': {'S': {}, 'G': {}, 'T': {}, 'V': {'div': 14}}}],
    },
    'P25': {
        'harness': [{'name': 'p25', 'units': curves('p25.cpp') + ['p25b.cpp'], 'cfgs': {'A': {}, 'R': {'div': 2}, 'M': {}, 'T': {'div': 4}}}],
    },
    'P26': {
        'harness': [{'name': 'p26', 'units': curves('p26.cpp') + ['p26b.cpp'], 'cfgs': {'A': {'mult': 4}, 'N': {'mult': 4}, 'S': {'div': 2}}}],
    },
}
