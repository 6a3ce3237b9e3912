"""C03: output is well-formed and mirrors the static template.

Exhaustive enumeration of child sequences and of nested documents over all
static node kinds, times text stripping, script handling and mode; the output
must equal the printed model and parse again.
"""
import itertools
from xml.parsers import expat

from mc import core, vocab
from mc.core import Space, Violation
from mc.xmlmodel import src
from mc.xmlspace import check_doc, kajiki  # noqa: F401
from kajiki import XMLTemplate


def el(tag, *kids, **attrs):
    return ('e', tag, tuple((k.replace('__', ':').replace('_', '-'), (v,) if v else ())
                            for k, v in attrs.items()), tuple(kids), ())


def T(s):
    return ('t', s)


# Node kinds that may stand next to each other in an element
LEAVES = [
    T('a'), T(' '), T('\n  '), T(' b '), T('<&>"\''), T('&amp;'), ('x', 'v'),
    ('c', 'c'), ('c', '! gone'), ('c', ' ! kept '), ('c', ' x <b> & ${v} $v\n'), ('cd', (T('x<y&&z'),)), ('cd', ()),
    ('cd', (T(' '),)), ('cd', (T('$'), ('x', 'v'), T('<i>'))),
    el('b'), el('b', T('x')), el('b', T(' ')), el('br'), el('p', x='1', a='<&>"'),
    el('script'), el('script', T('if (a < b && c > "d") {}')), el('script', T(' &lt; ')),
    el('style', T('\n a > b {}\n')), el('script', ('cd', (T('a<b'),))),
    el('script', T('a'), ('cd', (T('<b>&amp;'),)), T('&c')), ('py', 'pass'),
    T('\xe9\u4e2d\U0001f600\xa0'), T('$'), T(']]'), ('c', ''), ('c', ' '), ('c', '!'), ('c', '-!x'),
    ('c', '\n!\n'), ('c', 'x!'), ('cd', (T('!'),)), T('!'), ('cd', (T(']]'),)), ('cd', (T('<!-- ! -->'),)),
]
SMALL = [0, 1, 2, 3, 4, 7, 8, 11, 12, 15, 16, 21, 25]
CONFIGS = [(m, s, c) for m in ('xml', 'html') for s in (False, True) for c in (True, False)]
ENV = {'v': '<v>'}


def well_formed(s):
    p = expat.ParserCreate()
    try:
        p.Parse(s.encode('utf-8'), True)
        return True
    except expat.ExpatError:
        return False


def decide(root, st, configs, envs=(ENV,), source=None):
    for mode, strip, cd in configs:
        check_doc(root, st, envs, mode=mode, strip=strip, cdata_scripts=cd, source=source)
    # what we just compared with is itself well-formed (xml mode)
    from mc.xmlmodel import Interp
    out = Interp(root, envs[0]).render()
    if not well_formed(out):
        raise Violation('the output is not well-formed', source=source or src(root), observed=out)


class Sequences(Space):
    name = 'child sequences'
    bound = ('all sequences of up to 3 (quick: the third from a subset of %d; thorough: all) of %d '
             'kinds of child node x mode x strip_text x cdata_scripts; length 4 over the subset in '
             'thorough' % (len(SMALL), len(LEAVES)))

    def cases(self, tier):
        yield ()
        n = len(LEAVES)
        for k in 1, 2:
            for c in itertools.product(range(n), repeat=k):
                yield c
        if tier == 'quick':
            for c in itertools.product(SMALL, repeat=3):
                yield c
        else:
            for c in itertools.product(range(n), repeat=3):
                yield c
            for c in itertools.product(SMALL, repeat=4):
                yield c

    def describe(self, case):
        return src(el('d', *[LEAVES[i] for i in case]))

    def run(self, case, st):
        kids = [LEAVES[i] for i in case]
        for a, b in zip(kids, kids[1:]):
            # ']]' followed by '>' cannot be written without an escape
            if a == T(']]') and b[0] == 't' and b[1].startswith('>'):
                return
        decide(el('d', *kids), st, CONFIGS if len(case) < 3 else CONFIGS[:4])


def shapes(n):
    """All ordered forests with n nodes, as tuples of child forests."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in shapes(k - 1):
            for rest in shapes(n - k):
                out.append((first,) + rest)
    return out


TAGS = [('b', {}), ('i', {'x': ''}), ('pre', {'k': 'v w'}), ('textarea', {}), ('svg:g', {'xml:l': '"'}),
        ('py:x', None)]


class Nested(Space):
    name = 'nested documents'
    bound = ('all ordered element forests of up to 4 (thorough: 5) elements, each element one of 3 '
             'tags, with each of 5 text fillings between the tags x strip_text')
    FILL = ['', ' ', 'a', '\n  a\n', '<!-->']

    def cases(self, tier):
        for n in range(1, 5 if tier == 'quick' else 6):
            for sh in shapes(n):
                for tags in itertools.product((0, 1, 2), repeat=n):
                    for f in range(len(self.FILL)):
                        yield sh, tags, f

    def build(self, case):
        shape, tags, fill = case
        tags = iter(tags)
        fill = self.FILL[fill]
        fill = ('c', ' f ') if fill == '<!-->' else T(fill) if fill else None

        def forest(sh):
            out = [fill] if fill and sh else []
            for child in sh:
                tag, attrs = TAGS[next(tags)]
                kids = forest(child)
                out.append(('e', tag, tuple((k, (v,) if v else ()) for k, v in attrs.items()),
                            tuple(kids), ()))
                if fill:
                    out.append(fill)
            return out
        return ('e', 'd', (), tuple(forest(shape)), ())

    def describe(self, case):
        return src(self.build(case))

    def run(self, case, st):
        decide(self.build(case), st, [('xml', False, True), ('xml', True, True)])


ATTR_VALUES = ['', 'a', ' a  b ', '<', '>', '&', '"', "'", '&amp;', '&lt;', '\xe9', '$', '{}', '%s',
               '<b x="1">', '\u2028', 'a' * 1000, '#', '$$', '\xa0']
ATTR_NAMES = ['x', 'y', 'X', 'xml:lang', 'data-x', 'x.y', 'xmlns', 'xmlns:svg', 'py', 'a1', '_z',
              'class', 'checked', 'name', 'function']


class Attributes(Space):
    name = 'static attributes'
    bound = 'all pairs of attribute names x all pairs of values; quotes of either kind; all orders'

    def cases(self, tier):
        for n1, n2 in itertools.permutations(range(len(ATTR_NAMES)), 2):
            yield 'n', n1, n2
        for v1 in range(len(ATTR_VALUES)):
            for v2 in range(len(ATTR_VALUES)):
                yield 'v', v1, v2

    def run(self, case, st):
        kind, i, j = case
        if kind == 'n':
            attrs = ((ATTR_NAMES[i], ('1',)), (ATTR_NAMES[j], ('2',)))
        else:
            attrs = (('x', (ATTR_VALUES[i],) if ATTR_VALUES[i] else ()),
                     ('a', (ATTR_VALUES[j],) if ATTR_VALUES[j] else ()))
        for kids in ((), (T('t'),)):
            root = ('e', 'd', (), (('e', 'b', attrs, kids, ()), ('e', 'b', attrs[::-1], kids, ())), ())
            s = src(root)
            decide(root, st, CONFIGS[:1])
            # single quotes: the same document
            sq = s.replace('="', "=\0").replace('" ', "\0 ").replace('">', '\0>') \
                .replace('"/', '\0/').replace("'", '&apos;').replace('&quot;', '"').replace('\0', "'")
            if well_formed(sq):
                decide(root, st, CONFIGS[:1], source=sq)


PROLOGS = ['', '\n', '<!-- c -->', '<!-- ${ < -->\n', '<?xml version="1.0"?>', '\ufeff',
           '<?xml version="1.0" encoding="utf-8"?>\n<!--x-->', '<!-- a --><!-- b -->',
           '<?xml version="1.0"?>\n\n']
EPILOGS = ['', '\n', '<!-- end -->', ' <!-- a -->\n<!-- b -->\n']
ROOTS = [el('d'), el('d', T('a')), el('d', T(' a '), el('b'), T('\n')),
         ('e', 'd', (), (T('a'),), (('if', '1'),)), ('e', 'd', (), (T('a'),), (('strip', ''),)),
         ('e', None, (), (el('b', T('q')),), (('if', '1'),)),
         ('e', None, (), (T(' x '), el('b')), (('for', 'i in (1, 2)'),)),
         el('d', ('cd', (T('<!DOCTYPE x>'),))), el('d', T('<!DOCTYPE html>')),
         el('d', ('c', '<!DOCTYPE html>')), el('d', T('<?xml version="1.0"?>'))]


class Documents(Space):
    name = 'around the root'
    bound = ('every prolog (comments, XML declaration, byte order mark) x epilog x %d root shapes x '
             'strip_text' % len(ROOTS))

    def cases(self, tier):
        for c in itertools.product(range(len(PROLOGS)), range(len(EPILOGS)), range(len(ROOTS))):
            yield c

    def run(self, case, st):
        p, e, r = case
        root = ROOTS[r]
        s = PROLOGS[p] + src(root) + EPILOGS[e]
        for strip in False, True:
            check_doc(root, st, (ENV,), strip=strip, source=s)


LENGTHS = [100, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192,
           8193, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000, 131072]


class Sizes(Space):
    name = 'sizes'
    bound = ('text, CDATA, attribute values, comments and scripts of %d lengths around every buffer '
             'size, with a special character first, last, in the middle and everywhere; nesting, '
             'siblings and attributes up to 120' % len(LENGTHS))
    case_timeout = 200

    def cases(self, tier):
        for n in LENGTHS:
            for c in ' ', '<', '&', '\n', '\xe9', '$', '\u4e2d':
                for k in range(3 if n > 5000 and tier == 'quick' else 4):
                    yield n, c, k
        for n in (2, 3, 5, 10, 20, 40, 60, 80, 120):
            yield n, 'deep', 0
            yield n, 'wide', 0
            yield n, 'attrs', 0

    def run(self, case, st):
        n, c, k = case
        if c == 'deep':
            root = el('b', T('x'))
            for i in range(n):
                root = el('i' if i % 2 else 'u', T(' a'), root, T('z ')) if i % 3 else el('i', root)
            decide(root, st, CONFIGS[:3:2])
            return
        if c == 'wide':
            decide(el('d', *([T('a'), el('b'), ('c', 'x'), ('cd', (T('<'),)), T(' ')] * n)), st,
                   CONFIGS[:3:2])
            return
        if c == 'attrs':
            decide(el('d', **dict(('a%d' % i, '<%d' % i) for i in range(n))), st, CONFIGS[:1])
            return
        t = [c + 'a' * (n - 1), 'a' * (n - 1) + c, 'a' * (n // 2) + c + 'b' * (n - n // 2 - 1),
             (c + 'ab') * (n // 3)][k]
        a = t.replace('\n', '-')
        docs = [el('d', T(t)), el('d', ('cd', (T(t),))), el('d', ('c', t)),
                el('d', el('script', T(t))), el('d', x=a)]
        if k == 2:
            docs += [el('d', T(t), ('x', 'v'), T(t)), el('d', el('b'), T(t), el('b', T(t)))]
        for d in docs:
            decide(d, st, CONFIGS[:1] if k else CONFIGS[:3:2])


class Vocabulary(Space):
    name = 'vocabulary'
    bound = ('every one of %d attribute names with %d values, alone and in every one of %d elements; every element around every kind of child node and each pair '
             'of white space and another node; xml and html x strip_text x cdata_scripts' % (len(vocab.ATTRIBUTES), len(ATTR_VALUES), len(vocab.ELEMENTS)))
    PLAIN = [i for i, n in enumerate(LEAVES) if n[0] in 't' or n[0] == 'x']

    def cases(self, tier):
        for a in vocab.ATTRIBUTES:
            yield 'a', a
        for e in vocab.ELEMENTS:
            yield 'e', e

    def run(self, case, st):
        kind, name = case
        if kind == 'a':
            for v in ATTR_VALUES:
                a = ((name, (v,) if v else ()),)
                root = el('d', ('e', 'b', a, (T('t'),), ()), ('e', 'input', a + (('a9', ('z',)),), (), ()))
                decide(root, st, CONFIGS[::4])
            return
        every = tuple((a, (' <A b" ',)) for a in vocab.ATTRIBUTES if not a.startswith('xmlns'))
        nodes = []
        for i, n in enumerate(LEAVES):
            if name in ('script', 'style') and i not in self.PLAIN:
                continue
            nodes.append(('e', name, (), (n,), ()))
            nodes.append(('e', name, (('x', (' <A b" ',)),), (T(' \n'), n, T(' a ')), ()))
        for n in nodes:
            decide(el('d', n), st, CONFIGS)
        decide(('e', name, every, (T(' t '),), ()), st, CONFIGS[::4])
        decide(('e', name, every, (), ()), st, CONFIGS[::4])
        decide(el('d', T(' '), ('e', name, (), (), ()), T(' '), ('e', name, (), (), ()), T('\n a')), st, CONFIGS)


def spaces():
    return [Vocabulary(), Sizes(), Sequences(), Nested(), Attributes(), Documents()]


ASSUMPTIONS = ['line ends and white space in attributes are normalised by XML itself',
               'other processing instructions than <?py?> are not part of the language']
