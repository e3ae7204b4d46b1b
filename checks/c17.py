"""C17 input decks are read faithfully, in any order"""
import itertools
import os

from mc import core, impl
from mc.core import Violation

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of section sequences read by the real parser, against a map model'
RULE = ('decks are sequences of sections: every subset of the 11 sections in order and reversed, every ordered selection up to the bound, '
        'every sequence with repetitions up to the bound over 2 values per section, every rotation and adjacent swap of the full deck; '
        'with every kind of filler line at every position between sections.  The parsed deck must equal a map model, also via write_deck')
BOUNDS = {
    'quick': '2048 subsets x 2 orders, ordered selections of up to 4 sections, sequences with repetition of length 3 over 22 (section, value) pairs, fillers of 15 kinds at every position for up to 3 sections, 7 to 30 further values per section at every position among 0 to 10 others',
    'thorough': 'ordered selections of up to 5 sections, sequences with repetition of length 4',
}
CHUNK = 1
SECTIONS = [
    ('system', 'PDE system', ['euler', 'advection']),
    ('rk', 'RK scheme', ['low_storage_rk4', 'rk8']),
    ('riemann', 'riemann solver', ['rusanov', 'godunov']),
    ('ic', 'initial condition', ['scktube 100 0 1 0 1 0.125 0 0.1', 'entrpyw 20']),
    ('nout', 'number of outputs', [7, 201]),
    ('finaltime', 'final time', [0.2, 1.25e-3]),
    ('cfl', 'Courant-Friedrichs-Lewy condition', [0.25, 1.0]),
    ('order', 'order', [3, 0]),
    ('limiting', 'limiting', ['adaptive_hr', '']),
    ('enhance', 'enhancement', ['icb 0 1', '']),
    ('sensor_thresholds', 'sensor thresholds', [[0.01, 0.05], [0.3]]),
]
DEFAULTS = dict(system='advection', rk='', riemann='roe', ic='sinewave', nout=10, finaltime=1, cfl=0.5, order=1, limiting='',
                enhance='', sensor_thresholds=[])
# headings are recognized by their text with the '#' in front: text without it, or with a space in between, is none
FILLERS = ['', '# a comment', '   ', '--------', '#', 'in order to limit the system', 'order', '# order', 'The PDE system and the RK scheme:',
           '# number of outputs and final time', 'cfl Courant-Friedrichs-Lewy condition', 'enhancement, initial condition, riemann solver',
           '# sensor thresholds # limiting', '3', '0.5 0.5']

# further values as written in the deck, and as they must be read
WORDS = ['a', 'Mixed Case WORDS', 'two  blanks', 'hash # inside', 'x #order y', 'a = b : c', 'zero.0 1.0 2.00 0.50 10', '100 -1.5e-3 +2', 'a,b;c', 'tab\tinside',
         "quote ' and \"", 'back\\slash', '%d %s {0}', 'sinewave 0 0 0', '0', 'None', 'order', 'x' * 300]
VALUES = dict([(k, [(w, w) for w in WORDS] + [(w + e, w) for w in WORDS[:4] for e in (' ', '   ', '\t')])
               for k in ('system', 'rk', 'riemann', 'ic', 'limiting', 'enhance')] +
              [(k, [('0', 0), ('1', 1), ('12', 12), (' 5', 5), ('5 ', 5), ('007', 7), ('100000', 100000)]) for k in ('nout', 'order')] +
              [(k, [(t, float(t)) for t in ('0', '1', '.5', '2.', '1e-3', '1E3', ' 0.25', '0.25 ', '0.1', '1e300', '5e-324', '3.0000000000000004',
                                            '123456789.12345678')]) for k in ('finaltime', 'cfl')] +
              [('sensor_thresholds', [('', []), ('   ', []), ('1', [1.]), ('0.1 0.2', [.1, .2]), ('0.1   0.2 ', [.1, .2]), ('.1\t1e-3', [.1, 1e-3]),
                                      ('-1 2 0.30000000000000004', [-1., 2., 0.30000000000000004]), (' 1 1', [1., 1.])])])


def check_values(i, obs):
    """Every further value of a section: alone, first, last and between others, parsed and written"""
    name, head = SECTIONS[i][:2]
    where = core.scratch() + '/w'
    os.makedirs(where, exist_ok=True)
    for txt, val in VALUES[name]:
        for others in ((), ((i + 1) % 11,), ((i + 5) % 11, (i + 7) % 11), tuple(j for j in range(11) if j != i)):
            for pos in range(len(others) + 1):
                seq = [(j, 0) for j in others]
                ls = lines(seq)
                ls.insert(pos, ['#' + head, txt])
                want = dict(model(seq))
                want[name] = val
                content = '\n'.join(x for l in ls for x in l) + '\n'
                compare(parse(content), want, content)
                f = impl.deckmod.write_deck(where, [[l[0][1:], l[1]] for l in ls])
                d = impl.deckmod.Deck()
                d.parser(f)
                compare(d, want, open(f).read())
                obs.trace(2)
                obs.trans(2 * len(ls))
                obs.state(i, txt, others, pos)


def text(v):
    return ' '.join(repr(x) for x in v) if isinstance(v, list) else str(v)


def lines(seq):
    return [['#' + SECTIONS[i][1], text(SECTIONS[i][2][k])] for i, k in seq]


def model(seq):
    d = dict(DEFAULTS)
    for i, k in seq:
        d[SECTIONS[i][0]] = SECTIONS[i][2][k]
    return d


def parse(content):
    f = core.scratch() + '/d.inp'
    with open(f, 'w') as h:
        h.write(content)
    d = impl.deckmod.Deck()
    d.parser(f)
    return d


def compare(d, want, content):
    for k, v in want.items():
        got = getattr(d, k)
        if got != v or type(got) in (int, float) and not isinstance(v, (int, float)) or isinstance(v, int) and k in ('nout', 'order') and type(got) is not int:
            raise Violation('%s is %r instead of %r' % (k, got, v), deck=content)


def check(seq, obs, newline=True, fill=None):
    ls = lines(seq)
    newline = newline or bool(ls) and not ls[-1][1]  # an empty value needs its line
    content = []
    for j, l in enumerate(ls):
        if fill and fill[0] == j:
            content.append(fill[1])
        content += l
    if fill and fill[0] == len(ls):
        content.append(fill[1])
    content = '\n'.join(content) + ('\n' if newline else '')
    compare(parse(content), model(seq), content)
    obs.trace()
    obs.trans(len(seq))
    obs.state(seq, newline, fill)


def cases(tier):
    quick = tier == 'quick'
    n = len(SECTIONS)
    yield dict(kind='defaults')
    for hi in range(16):
        yield dict(kind='subsets', hi=hi)
    for i in range(n):
        yield dict(kind='selections', first=i, depth=4 if quick else 5)
        yield dict(kind='fillers', first=i, depth=3)
        for k in (0, 1):
            yield dict(kind='repeats', first=[i, k], depth=3 if quick else 4)
        yield dict(kind='values', first=i)
    yield dict(kind='full')


def run_case(c, obs):
    n = len(SECTIONS)
    kind = c['kind']
    obs.outcome(kind)
    if kind == 'defaults':
        compare(impl.deckmod.Deck(), DEFAULTS, '')
        compare(parse(''), DEFAULTS, '')
        for i in range(n):
            for k in (0, 1):
                check(((i, k),), obs)
                compare(impl.deckmod.Deck(), DEFAULTS, 'a new deck after reading another one')
    elif kind == 'values':
        check_values(c['first'], obs)
    elif kind == 'subsets':
        for lo in range(128):
            bits = c['hi'] * 128 + lo
            seq = tuple((i, (bits + i) % 2) for i in range(n) if bits >> i & 1)
            check(seq, obs)
            check(seq[::-1], obs)
    elif kind == 'selections':
        for d in range(1, c['depth'] + 1):
            for rest in itertools.permutations([i for i in range(n) if i != c['first']], d - 1):
                sel = (c['first'],) + rest
                check(tuple((i, (sum(sel) + i) % 2) for i in sel), obs, newline=bool(sum(sel) % 3))
    elif kind == 'repeats':
        al = [(i, k) for i in range(n) for k in (0, 1)]
        for d in range(2, c['depth'] + 1):
            for rest in itertools.product(al, repeat=d - 1):
                check((tuple(c['first']),) + rest, obs)
    elif kind == 'fillers':
        for d in range(1, c['depth'] + 1):
            for rest in itertools.permutations([i for i in range(n) if i != c['first']], d - 1):
                sel = (c['first'],) + rest
                for pos in range(d + 1):
                    for f in FILLERS:
                        check(tuple((i, (sum(sel) + i) % 2) for i in sel), obs, fill=(pos, f))
    else:
        base = [(i, 0) for i in range(n)]
        decks = []
        for k in (0, 1):
            b = [(i, k) for i in range(n)]
            decks += [b[r:] + b[:r] for r in range(n)] + [b[::-1]]
            decks += [b[:j] + [b[j + 1], b[j]] + b[j + 2:] for j in range(n - 1)]
            decks += [[b[j]] + b[:j] + b[j + 1:] for j in range(n)] + [b[:j] + b[j + 1:] + [b[j]] for j in range(n)]
        for b in decks + [base + [(i, 1)] for i in range(n)] + [[(i, 1)] + base for i in range(n)]:
            check(tuple(b), obs)
            for pos in range(len(b) + 1):
                check(tuple(b), obs, fill=(pos, FILLERS[pos % len(FILLERS)]))
            # writing a deck and reading it back
            defs = [[SECTIONS[i][1], text(SECTIONS[i][2][k])] for i, k in b]
            where = core.scratch() + '/w'
            os.makedirs(where, exist_ok=True)
            name = impl.deckmod.write_deck(where, defs)
            d = impl.deckmod.Deck()
            d.parser(name)
            compare(d, model(b), open(name).read())
            obs.trace()
