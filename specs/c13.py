"""C13 - when the log file is rotated, and which rotation commands are accepted."""
PYVC_TRUSTED = True
from specs.lib import *

FW = 'polog.handlers.file.writer:file_writer'
ROT = 'polog.handlers.file.rotation.rotator:Rotator'
RULE = 'polog.handlers.file.rotation.rules.rules.file_size_rule:FileSizeRule'
TOK = 'polog.handlers.file.rotation.rules.rules.tokenization.'
T = [FW + '.__init__', FW + '.maybe_rotation', ROT + '.__init__', ROT + '.maybe_do', ROT + '.to_do_or_not_to_do', ROT + '.do', ROT + '.generate_rules', ROT + '.where_to_rotate', ROT + '.extract_rules_string_from_source',
     'polog.handlers.file.rotation.parser:Parser.extract_rules', 'polog.handlers.file.rotation.parser:Parser.split_source', 'polog.handlers.file.rotation.rules.rules_elector:RulesElector.choose',
     RULE + '.prove_source', RULE + '.check', RULE + '.extract_data_from_string', TOK + 'tokenizator:Tokenizator.generate_tokens', TOK + 'tokens.size_token:SizeToken.parse', TOK + 'tokens.number_token:NumberToken.parse',
     TOK + 'tokens.tokens_group:TokensGroup.check_regexp', TOK + 'tokens.tokens_group:TokensGroup.regexp_loop', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.get_size']
STEP = 1024
NAMES = [('b', 'byte'), ('kb', 'kilobyte'), ('mb', 'megabyte'), ('gb', 'gigabyte'), ('tb', 'terabyte'), ('pb', 'petabyte')]
UNITS = [(s, STEP ** i) for i, (short, full) in enumerate(NAMES) for s in (short, full, full + 's')]
ASSUMPTIONS = ['numbers in a rule are arbitrary integers in decimal notation; unknown words are non-empty strings of printable ASCII without blanks and separators; layouts of blanks are a fixed list',
               'int() of an unknown word: its domain is the exact language of Python, its value an uninterpreted function (the same one for the code and for the contract)']


def formatter(item):
    return 'record\n'


def handler(c, fs, rotation, path='file.log', **kw):
    return c.run(c.get('polog.handlers.file.writer:file_writer'), path, rotation=rotation, formatter=formatter, **kw)


def write(c, h):
    config = c.get('polog:config')
    config.add_handlers(h)
    plain(c, 'message')


def archives(fs, directory):
    return {p: t for p, t in fs.files().items() if p.startswith(directory + '/')}


LAYOUTS = [('', ' ', ''), ('  ', '   ', ' '), ('\t', '\t ', '\n')]


def a_rule(c, name, units=UNITS):
    """(text, limit): a correct rule."""
    n = c.int(name + ' number', lo=1)
    u, k = c.choose(name + ' unit', units)
    return n, u, n * k


def decided(c, fs, limit_reached, directory):
    moved = archives(fs, directory)
    c.prove('the file is rotated exactly when it is at least as large as the limit', c.iff(len(moved) == 1, limit_reached))
    c.prove('one rotation at most', len(moved) <= 1)
    c.prove('the record is written to the file itself', (fs.text('file.log') or '').endswith('record\n'))


@contract('C13', T)
def one_rule(c):
    """one rule with any number and any unit: the file is rotated before the record exactly when its size is not less than number * unit"""
    fs = c.fs()
    n, u, limit = a_rule(c, 'rule')
    size = c.int('size', lo=0)
    before, between, after = c.choose('layout', LAYOUTS)
    fs.make('file.log', size=size)
    fs.cross_device = c.choose('cross device', [False, True])
    h = handler(c, fs, c.text(before, n, between, u, after))
    c.prove('a correct rule is accepted', h.ok)
    write(c, h.value)
    decided(c, fs, size >= limit, 'logs')


@contract('C13', T)
def near_the_limit(c):
    """BOUNDED complement of one_rule: sizes at the limit and one byte around it on a real file"""
    fs = c.fs()
    n = c.int('number', lo=1, hi=2000)
    u, k = c.choose('unit', UNITS)
    d = c.choose('distance', [-1, 0, 1])
    size = n * k + d
    c.assume(size >= 0)
    fs.make('file.log', size=size)
    h = handler(c, fs, c.text(n, ' ', u))
    c.prove('a correct rule is accepted', h.ok)
    write(c, h.value)
    decided(c, fs, d >= 0, 'logs')


@contract('C13', T)
def several_rules(c):
    """a list of rules by commas or semicolons: any of them is enough"""
    fs = c.fs()
    k = c.choose('rules', [2, 3])
    few = [UNITS[0], UNITS[8]]
    parts, reached = [], []
    size = c.int('size', lo=0)
    for i in range(k):
        n, u, limit = a_rule(c, 'rule %d' % i, [UNITS[4]] if i else few)
        if i:
            parts.append(c.choose('separator %d' % i, [',', ' ; ', ',;']))
        parts += [n, ' ', u]
        reached.append(size >= limit)
    tail = c.choose('tail', ['', ';', ' >> archive'])
    fs.make('file.log', size=size)
    h = handler(c, fs, c.text(*(parts + [tail])))
    c.prove('accepted', h.ok)
    write(c, h.value)
    decided(c, fs, c.or_(*reached), 'archive' if 'archive' in tail else 'logs')


class Checked:
    """ghost: the checks made and whether one of them was positive"""
    pv_ghost = True

    def __init__(self, c):
        self.c, self.n, self.hit = c, 0, False

    def step(self, i, value):
        self.n = self.n + 1
        self.hit = self.c.or_(self.hit, value)

    def at(self, i):
        import z3
        from pyvc.vals import _numterm, zbool
        return z3.And(_numterm(self.n)[0] == i, z3.Not(zbool(self.hit)))

    def havoc(self):
        import z3
        from pyvc.vals import SymInt, SymBool
        self.n = SymInt(z3.Int(self.c.c.fresh('checked')))
        self.hit = SymBool(z3.Bool(self.c.c.fresh('hit')))
        return [self]


@contract('C13', [ROT + '.maybe_do', ROT + '.to_do_or_not_to_do', ROT + '.do'])
def any_number_of_rules(c):
    """for any number of rules with any outcomes of their checks: rotate exactly when one of them is positive (loop by invariant)"""
    Rotator = c.get(ROT)
    moved = []

    class File:
        filename = 'file.log'

        def move_file(self, path):
            moved.append(path)

        def get_size(self):
            return 0
    fs = c.fs()
    r = Rotator('5 kb >> archive', File())
    if not isinstance(getattr(r, 'rules', None), list):
        if c.symbolic:
            c.c.unsupported('Rotator.rules is not a list any more')
        return
    g = Checked(c)

    def make(i):
        class Rule:
            def check(self):
                if c.symbolic:
                    v = c.c.choose(2, 'check') == 1
                else:
                    v = c.choose('check %s' % i, [False, False, True])
                g.step(i, v)
                return v
        return Rule()
    r.rules = c.seq('rules', make, inv=lambda i: [('no positive check so far', g.at(i))], havoc=g.havoc, sym_elem=make)
    out = c.run(r.maybe_do)
    c.prove('never raises', out.ok)
    c.prove('at most one rotation', len(moved) <= 1)
    if moved:
        c.prove('rotated because of a positive check', g.hit)
        c.prove('moved into the destination', moved[0].startswith('archive/'))
    else:
        c.prove('not rotated: all rules were checked and were negative', c.and_(c.eq(g.n, c.seqlen(r.rules)), c.not_(g.hit)))


def is_unit(c, w):
    return c.or_(*[c.eq(w, u) for u, k in UNITS])


@contract('C13', T)
def malformed(c):
    """anything but <positive integer> <unit> is refused with ValueError when the handler is made"""
    fs = c.fs()
    shape = c.choose('shape', ['w', 'w w', 'n w', 'w u', 'n u w', 'w n u', 'nu', 'n', 'u', 'n u n u', 'not positive', 'u n', 'good and bad', 'bad and good'])
    u, k = c.choose('unit', [UNITS[0], UNITS[5], UNITS[9]]) if 'u' in shape else UNITS[4]
    if shape == 'w':
        text, good = c.text(c.word('word')), False
    elif shape == 'w w':
        a, b = c.word('first'), c.word('second')
        i = c.to_int(a)
        text = c.text(a, ' ', b)
        good = c.and_(i.ok and i.value > 0, is_unit(c, b))
    elif shape == 'n w':
        n, w = c.int('number', lo=1), c.word('word')
        text, good = c.text(n, ' ', w), is_unit(c, w)
    elif shape == 'w u':
        w = c.word('word')
        i = c.to_int(w)
        text, good = c.text(w, ' ', u), i.ok and i.value > 0
    elif shape in ('n u w', 'w n u'):
        n, w = c.int('number', lo=1), c.word('word')
        text, good = (c.text(n, ' ', u, ' ', w) if shape == 'n u w' else c.text(w, ' ', n, ' ', u)), False
    elif shape == 'nu':
        text, good = c.text(c.int('number', lo=1), u), False
    elif shape == 'n':
        text, good = c.text(c.int('number')), False
    elif shape == 'u':
        text, good = u, False
    elif shape == 'u n':
        text, good = c.text(u, ' ', c.int('number', lo=1)), False
    elif shape == 'n u n u':
        text, good = c.text(c.int('number', lo=1), ' ', u, ' ', c.int('second number', lo=1), ' ', u), False
    elif shape == 'not positive':
        n = c.int('number', hi=0)
        text, good = c.text(n, ' ', u), False
    else:
        w = c.word('word')
        n = c.int('number', lo=1)
        rule = c.text(n, ' ', u)
        text, good = (c.text(rule, ', ', w) if shape == 'good and bad' else c.text(w, '; ', rule)), False
    fs.make('file.log', size=c.int('size', lo=0, hi=10 ** 6))
    out = handler(c, fs, text)
    c.prove('a rule is accepted exactly when it is a positive integer and a unit', c.iff(out.ok, good))
    if not out.ok:
        c.prove('refused with ValueError', out.raised(ValueError))


@contract('C13', T)
def no_rules(c):
    """without rules the file is never rotated"""
    fs = c.fs()
    size = c.int('size', lo=0)
    fs.make('file.log', size=size)
    rotation = c.choose('rotation', [None, '', ' ', ',', ' ; , ', '>> archive'])
    h = handler(c, fs, rotation)
    c.prove('accepted', h.ok)
    write(c, h.value)
    decided(c, fs, False, 'logs')
    c.prove('nothing is moved', not archives(fs, 'archive'))


@contract('C13', [FW + '.__init__', ROT + '.__init__', ROT + '.extract_rules_string_from_source', ROT + '.where_to_rotate'])
def refused_commands(c):
    """more than one destination, a rotation without a named file, and a command that is not a string are refused; a handler without rotation is not"""
    fs = c.fs()
    case = c.choose('case', ['two destinations', 'file object', 'console', 'not a string', 'file object without rotation'])
    n = c.int('number', lo=1)
    good = c.text(n, ' ', c.choose('unit', ['kb', 'bytes']))
    writer = c.get(FW)

    class FileObject:
        def write(self, x):
            pass

        def read(self, *a):
            pass

        def close(self):
            pass

        def flush(self):
            pass
    if case == 'two destinations':
        out = handler(c, fs, c.text(good, c.choose('destinations', [' >> a >> b', '>>a>>', ' >> >> ', '>>>>']))) 
    elif case == 'file object':
        out = handler(c, fs, c.text(good, c.choose('destination', ['', ' >> a'])), path=FileObject())
    elif case == 'console':
        out = c.run(writer, rotation=c.text(good, c.choose('destination', ['', ' >> a'])))
    elif case == 'not a string':
        v = c.any('rotation', kinds=('bool', 'int', 'float', 'list', 'tuple', 'dict', 'class', 'func', 'other'))
        out = handler(c, fs, v)
    else:
        out = handler(c, fs, None, path=FileObject())
        c.prove('accepted', out.ok)
        return
    c.prove('refused with ValueError', out.raised(ValueError))


@contract('C13', T)
def destination(c):
    """the old file goes to the directory after >>, or to logs; the directory is made if it is not there"""
    fs = c.fs()
    n, u, limit = a_rule(c, 'rule', [UNITS[0], UNITS[4]])
    size = c.int('size', lo=0)
    c.assume(size >= limit)
    text, directory = c.choose('to', [('', 'logs'), ('>>', 'logs'), (' >>', 'logs'), (' >> archive', 'archive'), ('>>archive', 'archive'), (' >>  a/b/c  ', 'a/b/c'), (' >> with blanks in it', 'with blanks in it'), ('>> Old Logs/2021.V-1', 'Old Logs/2021.V-1')])
    fs.cross_device = c.choose('cross device', [False, True])
    if c.choose('exists', [False, True]):
        fs.mkdir_now(directory)
    fs.make('file.log', size=size)
    h = handler(c, fs, c.text(n, ' ', u, text))
    c.prove('accepted', h.ok)
    write(c, h.value)
    decided(c, fs, True, directory)
    c.prove('nothing but the file and its archive', len([p for p in fs.files() if not p.endswith('.lock')]) == 2)


@contract('C13', T)
def every_record_checks(c):
    """the decision is made before every record, from the size at that moment"""
    fs = c.fs()
    limit = c.int('limit', lo=1)
    fs.make('file.log')
    h = handler(c, fs, c.text(limit, ' bytes >> archive'))
    c.prove('accepted', h.ok)
    config = c.get('polog:config')
    config.add_handlers(h.value)
    size, moves = 0, 0
    for i in range(4):
        plain(c, 'message')
        if c.truth(size >= limit):
            moves += 1
            size = 0
        size = size + 7
    c.prove('as many rotations as the rule says', len(archives(fs, 'archive')) == moves)
    c.prove('the file holds the records after the last rotation', fs.text('file.log') == 'record\n' * (size // 7))
    c.prove('no record is lost or doubled', sum(t.count('record\n') for t in fs.files().values()) == 4)
