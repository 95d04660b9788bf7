"""What each check builds and runs.  quick/thorough: number of cases."""

SAN = '-fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1'
SANM = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1'

VARIANTS = {
    'plain': {'cc': 'gcc', 'cxx': 'g++', 'lib': '', 'mon': '-O2 -g1', 'link': '-g1', 'what': "the repository's own flags (gcc, -O2)"},
    'san': {'cc': 'clang', 'cxx': 'clang++', 'lib': SAN, 'mon': '-O1 -g1 ' + SANM, 'link': '-g1 ' + SAN,
            'what': 'clang AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and vector annotations'},
    'ub': {'cc': 'clang', 'cxx': 'clang++', 'lib': '-fsanitize=undefined -fno-sanitize-recover=all', 'mon': '-O1 -g1', 'link': '-g1 -fsanitize=undefined', 'what': 'clang UndefinedBehaviorSanitizer'},
    'count': {'cc': 'clang', 'cxx': 'clang++', 'lib': '-fsanitize-coverage=trace-pc-guard', 'mon': '-O1 -g1 -fno-builtin -fsanitize-coverage=trace-pc-guard', 'link': '-g1', 'what': 'clang, every edge of control flow reporting itself; requests and moves of memory counted'},
    'tsan': {'cc': 'clang', 'cxx': 'clang++', 'lib': '-fsanitize=thread', 'mon': '-O1 -g1 -fsanitize=thread', 'link': '-g1 -fsanitize=thread', 'what': 'clang ThreadSanitizer'},
}

BINS = {
    'expr': {'variant': 'plain', 'src': 'expr_mon.cc'},
    'rel': {'variant': 'plain', 'src': 'rel_mon.cc'},
    'own': {'variant': 'plain', 'src': 'own_mon.cc'},
    'types': {'variant': 'plain', 'src': 'types_mon.cc'},
    'types-san': {'variant': 'san', 'src': 'types_mon.cc'},
    'conc': {'variant': 'plain', 'src': 'conc_mon.cc'},
    'mem': {'variant': 'plain', 'src': 'san_mon.cc'},
    'conc-tsan': {'variant': 'tsan', 'src': 'conc_mon.cc'},
    'san': {'variant': 'san', 'src': 'san_mon.cc'},
    'life': {'variant': 'plain', 'src': 'life_mon.cc'},
    'life-san': {'variant': 'san', 'src': 'life_mon.cc'},
    'expr-san': {'variant': 'san', 'src': 'expr_mon.cc'},
    'rel-san': {'variant': 'san', 'src': 'rel_mon.cc'},
    'env': {'variant': 'plain', 'src': 'env_mon.cc', 'locales': True},
    'exit': {'variant': 'plain', 'src': 'exit_mon.cc'},
    'exit-san': {'variant': 'san', 'src': 'exit_mon.cc'},
    'stack': {'variant': 'plain', 'src': 'stack_mon.cc'},
    'work': {'variant': 'count', 'src': 'work_mon.cc'},
    'huge': {'variant': 'plain', 'src': 'huge_mon.cc'},
    'huge-ub': {'variant': 'ub', 'src': 'huge_mon.cc'},
    'fuzz': {'variant': 'san', 'src': 'fuzz.cc', 'link': '-g1 ' + SAN.replace('fuzzer-no-link', 'fuzzer')},
}


def S(bin, prop, quick, thorough, **kw):
    return dict(bin=bin, prop=prop, quick=quick, thorough=thorough, **kw)


MODEL = 'The reference model in mon/model.h (written from the documentation and the properties, not from the code) states the required results correctly.'
PUBLIC = 'Seen through the public interface (Runner, RelRunner, Operand, Tuple, String); built with the installed compilers for x86-64 Linux.'
A = [MODEL, PUBLIC]
GEN = 'Cases derive from (VERIF_SEED, property, case number). '


def expr(pid, quick, thorough, rule, san=(0, 0), more=(), must=()):
    return {'stages': [S('expr', pid, quick, thorough)] + ([S('expr-san', pid, san[0], san[1], seed_shift=7)] if san[1] else []) + list(more), 'rule': GEN + rule, 'assumptions': A, 'must_see': list(must)}


def rel(pid, quick, thorough, rule, san=(0, 0), more=()):
    return {'stages': [S('rel', pid, quick, thorough)] + ([S('rel-san', pid, san[0], san[1], seed_shift=7)] if san[1] else []) + list(more), 'rule': GEN + rule, 'assumptions': A}


PLAN = {
    'D01': {'stages': [S('san', 'D01', 3200, 60000), S('mem', 'D01', 160, 4000, first=320, valgrind=True), S('fuzz', 'D01', 400000, 40000000), S('huge-ub', 'D01.huge', 0, 1, workers=1, address_space=16 << 30)],
            'rule': GEN + 'All inputs of one and two bytes and a sample of three, long repetitive inputs, truncations at every position and mutations of generated encodings, and coverage-guided inputs, each in a block of exactly its size; '
                          'distinct by bytes and decoder, the empty input not counted (inputs of the fuzzer count as executions only).',
            'assumptions': [PUBLIC, 'AddressSanitizer, UndefinedBehaviorSanitizer and memcheck report what they document; the position returned is checked by the monitor.']},
    'D02': {'stages': [S('own', 'D02', 60000, 4000000)],
            'rule': GEN + 'Encodings announcing counts and lengths of every size with little or nothing behind them, and honest ones; the ledger of allocations records peak and largest request per decode; distinct by bytes.',
            'assumptions': [PUBLIC, 'Bounds used: peak 64 KiB + 1024 n (expressions 16 KiB + 256 n), largest request 16 KiB + 128 n, and 2 KiB + 24 n when a count is refused, for n bytes.']},
    'D03': expr('D03', 1200, 40000, 'Every byte (and second and third byte) in operator position, all encodings of up to three bytes, truncations of good encodings, undefined bytes placed in good encodings; accepted or refused is compared with an independent scanner; distinct by bytes.',
                more=[S('rel', 'D03.rel', 500, 20000)]),
    'D04': expr('D04', 400000, 30000000, 'Constants of each type: extremes, powers of two and neighbours, every varint length, random bit patterns, NaN payloads, strings of all lengths and bytes at varying offsets; distinct by bytes.',
                more=[S('expr', 'D04.sweep', 0, 131072), S('huge', 'D04.huge', 1, 2, workers=1, address_space=11 << 30)]),
    'D05': expr('D05', 200000, 10000000, 'Expressions and pipelines with end markers, zero bytes inside immediates and arbitrary bytes behind; distinct by bytes.', more=[S('rel', 'D05.rel', 80000, 5000000)]),
    'E01': expr('E01', 64000, 4000000, 'Well-typed programs of 1 to several thousand operators of all shapes, one or several results, over random rows; distinct by bytes and row, non-trivial with more than one instruction.', san=(0, 60000)),
    'E02': expr('E02', 16000, 600000, 'Variables of each type over rows of 1 to many thousand elements, programs over them, the row and every string compared before and after; distinct by bytes and row.', san=(0, 60000)),
    'E03': expr('E03', 120000, 6000000, 'Every operator with NULL in every combination of places and boundary values elsewhere; distinct by operator and operands.'),
    'E04': expr('E04', 40000, 2500000, 'All truth assignments of random compositions of NOT, AND, OR with up to several variables, and the laws; distinct by program and assignment.'),
    'E05': expr('E05', 48000, 3000000, 'Pairs of boundary and random integers under every integer operator, and negated constants; distinct by operator and operands.', san=(1600, 200000)),
    'E06': expr('E06', 48000, 3000000, 'Pairs of special, subnormal, neighbouring and random floats; distinct by operator and operands.', san=(0, 60000)),
    'E07': expr('E07', 36000, 2500000, 'Pairs and triples of equal, neighbouring and random values of every type; distinct by operator and operands.', san=(0, 60000)),
    'E08': expr('E08', 60000, 4000000, 'Values at and next to the limits and half-way points of every target type; distinct by operator and operand.', san=(0, 100000)),
    'E09': expr('E09', 48000, 3000000, 'Values at and next to the limits of the target, NaN, infinities; distinct by operator and operand.', san=(0, 100000)),
    'E10': expr('E10', 48000, 3000000, 'Numbers of every magnitude to text, and texts with white space, signs, exponents, many digits, trailing rubbish and overflowing values to numbers; distinct by operator and operand.', san=(0, 100000)),
    'E11': expr('E11', 48000, 3000000, 'Arguments inside and outside the domain, special values, huge values; distinct by function and argument.'),
    'E12': expr('E12', 36000, 2500000, 'Strings of any bytes and length with positions at, before and beyond each end and at the integer limits; distinct by operator and operands; and parts of strings of more than 2^31 and 2^32 bytes.', san=(1600, 200000), more=[S('expr', 'E12.huge', 2, 8, workers=1, address_space=7 << 30)]),
    'E13': expr('E13', 300000, 20000000, 'The reported type of well-typed programs before and after running over several rows; distinct by bytes and row.'),
    'E14': expr('E14', 120000, 8000000, 'Histories of decoding, refused decoding, binding, running and failing on one runner against the model; distinct by expression, row and history.', san=(0, 60000), more=[S('expr', 'E14.long', 240, 6000)]),
    'E15': {'stages': [S('san', 'E15', 6000, 200000), S('mem', 'E15', 160, 6000, first=620, valgrind=True), S('fuzz', 'E15', 40000, 30000000)],
            'rule': GEN + 'Every operator with too few operands and with each wrong type in each place, random operator sequences, disturbed and damaged programs and pipelines that the decoder accepts, run over rows; distinct by bytes (inputs of the fuzzer count as executions only).',
            'assumptions': [MODEL, PUBLIC, 'AddressSanitizer, UndefinedBehaviorSanitizer and memcheck report what they document.']},
    'E16': {'stages': [S('life-san', 'E16', 2400, 200000), S('life', 'E16', 20000, 1500000, seed_shift=7)],
            'rule': GEN + 'Histories in which code bytes are spoiled and released after decoding, rows are released or get other elements, runners run, decode again and are released, while results are held; '
                          'each runner has a twin whose code stays, and all results held are compared with their first content after each step; distinct by history so far.',
            'assumptions': [PUBLIC, 'AddressSanitizer reports uses of released memory.']},
    'E17': {'stages': [S('own', 'E17', 12000, 800000), S('life-san', 'E17', 1600, 120000, seed_shift=7)],
            'rule': GEN + 'Histories of decoding, refused decoding, running, copying, assigning (to itself too), moving and releasing four runners, and runners in growing vectors; each compared after each step with a runner on which the same calls are made and which was never copied; distinct by history.',
            'assumptions': [PUBLIC, 'AddressSanitizer reports uses of released memory; the ledger of allocations sees operator new and delete.']},
    'E18': {'stages': [S('life', 'E18', 16000, 1000000), S('life-san', 'E18', 2000, 120000, seed_shift=7)],
            'rule': GEN + 'Sequences of failing and succeeding calls on runners and pipelines, played on fresh runners again, with other bytes around the code and on the stack, and in another thread; the errors are held and read again after everything is released; distinct by sequence, non-trivial with an error.',
            'assumptions': [PUBLIC, 'AddressSanitizer reports uses of released memory.']},
    'R01': rel('R01', 90000, 6000000, 'Filters over rows of any types, rows sharing strings, predicates TRUE, FALSE and NULL; distinct by case and row.', san=(0, 40000), more=[S('rel', 'R01.vast', 8, 16)]),
    'R02': rel('R02', 70000, 4500000, 'Projections of one to thousands of expressions; distinct by case and row.', san=(0, 40000)),
    'R03': rel('R03', 16000, 1000000, 'Grouped aggregations over 0 to 15 key columns, few or very many groups, keys chosen to collide or to differ late, several rounds; distinct by case and row.', san=(0, 20000), more=[S('rel', 'R03.vast', 8, 16)]),
    'R04': rel('R04', 80000, 1500000, 'Every aggregation over NULL-rich, boundary and random columns; distinct by case and row.', san=(0, 20000), more=[S('rel', 'R04.vast', 8, 16)]),
    'R05': rel('R05', 64000, 4000000, 'Chains of 1 to 8 stages with rows put and drained in rounds, against the composition of the stage models, and conservation of rows when puts come between the gets of a drain; distinct by case and row.', san=(0, 40000), more=[S('rel', 'R05.vast', 8, 16)]),
    'R06': {'stages': [S('own', 'R06', 24000, 1500000)],
            'rule': GEN + 'Histories of decoding, refused decoding, putting, draining, failing, re-decoding and destroying under a ledger of every allocation; at the end of each nothing may remain, and nothing may be released twice; distinct by bytes and history.',
            'assumptions': [PUBLIC, 'Every allocation goes through operator new and delete (replaced by the ledger).']},
    'F01': {'stages': [S('own', 'F01', 16000, 1000000)],
            'rule': GEN + 'Expressions and pipelines in which each request of memory of each call (construct, decode, run, get, get all, put; up to about 48 of each call) fails in turn, alone or with all later ones; '
                          'distinct by bytes, rows, call and request.',
            'assumptions': [PUBLIC, 'Every allocation goes through operator new and delete (replaced by the ledger).']},
    'R07': rel('R07', 64000, 4000000, 'Sequences of pipelines decoded on one runner, with cached rows, failures and refused decodes in between, and several runners in turn; distinct by case and row.', san=(0, 40000)),
    'R08': rel('R08', 60000, 4000000, 'Chains with filters and projections that raise errors for some rows, ahead of and behind aggregations, in rounds; compared with the same stages one by one on fresh runners without those rows; distinct by case and row.', san=(0, 40000)),
    'S01': {'stages': [S('conc-tsan', 'S01', 640, 12000, first=20000 * k, workers=8) for k in range(10)] + [S('conc', 'S01', 16000, 400000, first=1000000, workers=4)],
            'rule': GEN + '2 to 8 threads with runners of their own over shared rows, strings and code, refused and failing code and the helpers in between, runners changing hands at barriers; 80 processes, in each of which the first use of everything is left to the threads; each thread\'s results are compared with the model. The order of the steps that really happened is recorded; distinct by that order, non-trivial with more switches than threads.',
            'assumptions': [MODEL, PUBLIC, 'ThreadSanitizer sees races among the accesses that were executed; the schedules are those the machine produced.']},
    'M01': {'stages': [S('own', 'M01', 3600, 60000)],
            'rule': GEN + 'Runs, decodes, refused decodes, puts and drains repeated thousands of times under a ledger of every allocation, live bytes compared along the way; groups with narrow and wide rows, one and many rows each; large texts that come and go; distinct by case.',
            'assumptions': [PUBLIC, 'Every allocation goes through operator new and delete (replaced by the ledger).']},
    'M02': {'stages': [S('stack', 'M02', 4000, 120000)],
            'rule': GEN + 'Each call is made on a stack of its own whose touched pages are counted: programs, pipelines, texts, rows and groups at a size and at 16 times that size, runners used briefly and for long, any expressions and pipelines with long texts, damaged ones; distinct by bytes and row.',
            'assumptions': [PUBLIC, 'Frames are those of gcc 13 at -O2; the C library is counted in.']},
    'N01': {'stages': [S('env', 'N01', 60000, 4000000), S('exit', 'N01.exit', 400, 20000), S('exit-san', 'N01.exit', 80, 4000)],
            'rule': GEN + 'Expressions, pipelines and helpers first as the process starts, then with another locale of process, thread or streams (made by localedef, or with facets of our own), errno set, floating point flags raised, fresh memory and unused stack filled; distinct by bytes, rows and what was changed. And processes in which the calls are made again while threads and the process end.',
            'assumptions': [PUBLIC, 'The rounding mode and the trapping of floating point exceptions are those a program starts with.']},
    'W01': {'stages': [S('work', 'W01', 3000, 100000)],
            'rule': GEN + 'Programs, pipelines, texts, rows and groups at a size and at 16 times that size, and runners used briefly and for long, while edges of control flow and bytes requested and moved are counted; '
                          'distinct by bytes and row. Allowed: 2.5 times what is proportional (what grows by doubling or with a logarithm fits), and the half more for late calls.',
            'assumptions': [PUBLIC, 'Steps are counted in the library as clang 18 builds it, not inside the C library.']},
    'T01': {'stages': [S('types', 'T01', 60000, 4000000)], 'rule': GEN + 'Pairs of equal, nearly equal and random values and rows, built in several ways, compared, hashed and used as keys; distinct by the pair.', 'assumptions': A},
    'T03': {'stages': [S('types', 'T03', 4000, 400000), S('types-san', 'T03', 400, 40000, seed_shift=7)], 'rule': GEN + 'Byte sequences of 0 to 100000 bytes in blocks of exactly their size, and rows with index lists of all shapes; distinct by bytes, rows and indices.', 'assumptions': A},
    'T02': {'stages': [S('types', 'T02', 16000, 1500000)], 'rule': GEN + 'Values of each type stored, read by each type, converted to and from optionals; distinct by value.', 'assumptions': A},
}
