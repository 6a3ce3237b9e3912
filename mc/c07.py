"""C07: attribute-level directives produce exactly the specified tags."""
import collections
import collections.abc
import itertools
import types

from mc import exprs, sizes, values, vocab
from mc.core import Space, Violation
from mc.xmlmodel import src, Mk
from mc.xmlspace import check_doc, XMLTemplate

MODES = ('xml', 'html', 'html5')
ENV = dict(n=None, e='', s='<"&>', z=0, t=True, f=False, w='a b', i=12, h=values.HtmlStr('&amp;<'), k=1.5,
           o=values.Obj('"o"'), l=[], u=values.Falsy())
PARTS = ['a', ' ', '&"'] + [('x', v) for v in 'nesztfwihou'] + [('n', 'n'), ('n', 's')]
NAMES = ['x', 'checked', 'disabled', 'xml:id', 'data-a']


def doc(*nodes):
    return ('e', 'd', (), tuple(nodes), ())


class Parts(Space):
    name = 'attribute parts'
    bound = ('all attribute values of up to 2 (thorough: 3) parts out of %d (static text, None, empty, '
             'falsy, special, trusted), in 5 attribute names x 2 kinds of element x 3 modes'
             % len(PARTS))

    def cases(self, tier):
        for n in range(0, 3 if tier == 'quick' else 4):
            for c in itertools.product(range(len(PARTS)), repeat=n):
                for name in range(len(NAMES)):
                    if n < 2 or name < 2:
                        yield c, name

    def node(self, case):
        c, name = case
        parts = tuple(PARTS[i] for i in c)
        # "$n" must not run into a following name character
        for a, b in zip(parts, parts[1:]):
            if a[0] == 'n' and isinstance(b, str) and b == 'a' and not isinstance(a, str):
                return None
        return (NAMES[name], parts)

    def describe(self, case):
        return repr(self.node(case))

    def run(self, case, st):
        a = self.node(case)
        if a is None:
            return
        merged = []
        for p in a[1]:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        a = a[0], tuple(merged)
        root = doc(('e', 'b', (a,), (), ()), ('e', 'i', (a,), (('t', 't'),), ()),
                   ('e', 'br', (a, ('y', ('1',))), (), ()))
        for mode in MODES:
            check_doc(root, st, (ENV,), mode=mode)


AVALS = [None, True, False, 'a', '', 5, '<"&', 0.5, values.HtmlStr('&lt;b'), [], ('q',)]
ANAMES = ['x', 'checked', 'selected', 'class', 'a-b']
FORMS = ['dict', 'list', 'tuple', 'items', 'ordered', 'user', 'proxy', 'chain', 'abc', 'default', 'keys']


def shape(form, pairs):
    if form == 'dict':
        return dict(pairs)
    if form == 'list':
        return list(pairs)
    if form == 'tuple':
        return tuple(pairs)
    if form == 'items':
        return dict(pairs).items()
    if form == 'ordered':
        return collections.OrderedDict(pairs)
    if form == 'user':
        return collections.UserDict(pairs)
    if form == 'proxy':
        return types.MappingProxyType(dict(pairs))
    if form == 'chain':
        return collections.ChainMap(dict(pairs[:1]), dict(pairs[1:]))
    if form == 'abc':
        return Mapping(pairs)
    if form == 'default':
        return collections.defaultdict(list, pairs)
    return SubDict(pairs)


class Mapping(collections.abc.Mapping):
    def __init__(self, pairs):
        self.pairs = dict(pairs)

    def __getitem__(self, k):
        return self.pairs[k]

    def __iter__(self):
        return iter(self.pairs)

    def __len__(self):
        return len(self.pairs)


class SubDict(dict):
    pass


class Attrs(Space):
    name = 'py:attrs'
    bound = ('all mappings of up to 2 of %d names to %d values, as dict, list, tuple, items view, '
             'and 7 other mappings, x static attribute or none x 3 modes' % (len(ANAMES), len(AVALS)))

    def cases(self, tier):
        for f in FORMS:
            yield f, ()
            for n in range(len(ANAMES)):
                for v in range(len(AVALS)):
                    yield f, ((n, v),)
        for n1, n2 in itertools.permutations(range(len(ANAMES)), 2):
            for v1 in range(len(AVALS)):
                for v2 in range(len(AVALS)):
                    for f in ('dict', 'list') if tier == 'quick' else FORMS:
                        yield f, ((n1, v1), (n2, v2))

    def describe(self, case):
        return '%s of %r' % (case[0], [(ANAMES[n], AVALS[v]) for n, v in case[1]])

    def run(self, case, st):
        f, pairs = case
        pairs = [(ANAMES[n], AVALS[v]) for n, v in pairs]
        env = dict(A=shape(f, pairs), q='"')
        for root in ROOTS:
            for mode in MODES:
                check_doc(root, st, (env,), mode=mode, source=src(root))


ROOTS = [
    doc(('e', 'b', (), (), (('attrs', 'A'),)), ('t', '.')),
    doc(('e', 'b', (('zz', ('1',)), ('id', (('x', 'q'),))), (('t', 't'),), (('attrs', 'A'),)),
        ('e', 'br', (('b', ()),), (), (('attrs', 'A'),))),
]


class Literals(Space):
    name = 'py:attrs expressions'
    bound = 'spellings of the py:attrs expression; None and empty values give no attribute'
    EXPRS = ["{}", "None", "[]", "()", "{'x': 1}", "dict(x=1)", "[('x', 1)]", "{'x': None}",
             "{'x': 1, 'a': 2}", "dict(x=v) if v else None", "{'x': v}",
             "{'x': 'a' + str(v)}", "{'x': {'y': v}['y']}", "{'x': '<' if 1 &lt; 2 else 0}",
             "{'checked': v == 1}", "{'checked': v != 1}", "{'checked': None}", "{'x': True}",
             "{'x': False}", "dict((k, v) for k in 'ba')", "sorted({'b': 1, 'a': 2}.items())",
             "{'x': '''a''' '$b ${c}'}"]

    def cases(self, tier):
        for i in range(len(self.EXPRS)):
            yield i

    def run(self, case, st):
        e = self.EXPRS[case].replace('&lt;', '<')
        for mode in MODES:
            for strip in None, '0', '':
                dirs = (('attrs', e),) + ((('strip', strip),) if strip is not None else ())
                check_doc(doc(('e', 'b', (('q', ('1',)),), (('t', 't'),), dirs), ('t', '.')), st,
                          [dict(v=1), dict(v=0), dict(v='"')], mode=mode)


STRIPS = [None, '', '1', '0', 'c', 'not c', 'c is None', "c == 'x'", 'c or v']
CONTENTS = [None, '', 'v', "'k'", 'None', 'v or 1']
KIDS = [(), (('t', 'T'),), (('t', ' '),), (('x', 'v'),), (('e', 'i', (), (), ()),), (('c', 'c'),),
        (('e', None, (), (('t', 'W'),), (('if', 'c'),)),)]
TAGS = ['b', 'br', 'script', 'py']
STATIC = [(), (('x', ('1',)),), (('x', (('x', 'v'),)), ('a', ('q',)))]
REPL = [None, 'v', "'<'", 'None']
CENVS = [dict(c=c, v=v) for c in (0, 1, None, 'x') for v in (None, '<', 5)]


class Tags(Space):
    name = 'strip, content and replace'
    bound = ('product of %d strip conditions, %d contents, %d child lists, %d tags, %d static '
             'attribute lists, py:attrs or not, replace; 3 modes; 12 contexts'
             % (len(STRIPS), len(CONTENTS), len(KIDS), len(TAGS), len(STATIC)))

    def cases(self, tier):
        for s, c, k, t, a, p in itertools.product(range(len(STRIPS)), range(len(CONTENTS)),
                                                  range(len(KIDS)), range(3), range(len(STATIC)),
                                                  (0, 1)):
            yield s, c, k, t, a, p, 0
        for s, c, a, r in itertools.product(range(len(STRIPS)), range(len(CONTENTS)),
                                            range(len(STATIC)), range(1, len(REPL))):
            yield s, c, 1, 0, a, 1, r

    def build(self, case):
        s, c, k, t, a, p, r = case
        dirs = []
        if STRIPS[s] is not None:
            dirs.append(('strip', STRIPS[s]))
        if CONTENTS[c] is not None:
            dirs.append(('content', CONTENTS[c]))
        if p:
            dirs.append(('attrs', "{'z': v, 'y': c}"))
        if REPL[r]:
            dirs.append(('replace', REPL[r]))
        kids = KIDS[k]
        if TAGS[t] == 'script' and any(n[0] not in 'txn' for n in kids):
            return None
        return doc(('t', 'L'), ('e', TAGS[t], STATIC[a], kids, tuple(dirs)), ('t', 'R'))

    def describe(self, case):
        return src(self.build(case) or doc())

    def run(self, case, st):
        root = self.build(case)
        if root is None:
            return
        for mode in MODES[:2]:
            check_doc(root, st, CENVS, mode=mode)


class Order(Space):
    name = 'attribute order'
    bound = 'all permutations of 4 attribute names (static, interpolated, py:attrs): sorted per group'
    N = ['b', 'a', 'c', 'B', 'a-b', 'ab']

    def cases(self, tier):
        for c in itertools.permutations(range(len(self.N)), 4):
            for cut in range(5):
                yield c, cut

    def run(self, case, st):
        c, cut = case
        static = tuple((self.N[i], (str(i), ('x', 'v')) if i & 1 else (str(i),)) for i in c[:cut])
        pairs = ', '.join("('%s', %d)" % (self.N[i], i) for i in c[cut:])
        dirs = (('attrs', '[%s]' % pairs),) if c[cut:] else ()
        for mode in MODES[:2]:
            check_doc(doc(('e', 'b', static, (('t', 't'),), dirs)), st, (dict(v=None), dict(v='z')),
                      mode=mode)


class Booleans(Space):
    name = 'boolean attributes'
    bound = 'all 9 boolean attributes and 6 others x values x static, interpolated, py:attrs x modes'

    def cases(self, tier):
        from mc.xmlmodel import BOOLEAN
        for n in sorted(BOOLEAN) + ['x', 'value', 'Checked', 'checked2', 'xchecked', 'hidden']:
            yield n

    def run(self, case, st):
        for mode in MODES:
            for parts in ((), ('x',), (case,), (('x', 'v'),), ('a', ('x', 'v'))):
                check_doc(doc(('e', 'input', ((case, parts),), (), ()),
                              ('e', 'a', ((case, parts),), (('t', 't'),), ())), st,
                          [dict(v=v) for v in (None, True, False, '', 'x', 7)], mode=mode)
            check_doc(doc(('e', 'input', (), (), (('attrs', "{'%s': v}" % case),))), st,
                      [dict(v=v) for v in (None, True, False, '', 'x', 7)], mode=mode)


class Exprs(Space):
    name = 'expression forms'
    bound = ('%d expressions of every operator class as the argument of py:strip, py:content, py:replace and py:attrs and in '
             'attribute values, alone and combined; 3 modes; 8 contexts' % len(exprs.BASE))

    def cases(self, tier):
        for i in range(len(exprs.BASE)):
            yield i

    def describe(self, case):
        return exprs.BASE[case]

    def run(self, case, st):
        x = exprs.BASE[case]
        T = (('t', 'T'),)
        nodes = []
        for dirs in ((('strip', x),), (('content', x),), (('replace', x),), (('strip', x), ('content', x)),
                     (('attrs', "{'k': %s}" % x), ('strip', x)), (('attrs', "[('k', %s), ('checked', a == 1)]" % x),),
                     (('attrs', "{'k': %s} if b else None" % x),), (('attrs', "b and {'k': %s} or None" % x),),
                     (('attrs', "{} or {'k': %s}" % x),), (('strip', 'a and (%s)' % x),), (('if', 'a'), ('strip', x)),
                     (('strip', x), ('for', 'i in (1, 2)')), (('content', x), ('with', 'i = 1'))):
            for tag, attrs in (('b', ()), ('i', (('y', ('p', ('x', x))), ('w', (('x', x),)))), ('br', ())):
                nodes.append(('e', tag, attrs, T if tag != 'br' else (), dirs))
                nodes.append(('t', '.'))
        for mode in MODES:
            check_doc(doc(*nodes), st, exprs.ENVS, mode=mode)


class Vocabulary(Space):
    name = 'vocabulary'
    DIRS = [('if', 'c'), ('for', 'x in (1, 2)'), ('with', 'x = 1'), ('strip', 'c'), ('content', 'w'), ('replace', 'w'), ('attrs', "{'k': c}"), ('x:y', 'q'),
            ('x:xml', 'q'), ('x:xlink', '')]
    bound = ('every one of %d attribute names x every value, interpolated, mixed with text and from py:attrs, and next to each directive and to the same name with a '
             'prefix; all of them, with values and with None, on every one of %d '
             'elements, which also get py:strip, py:content and py:replace; 3 modes' % (len(vocab.ATTRIBUTES), len(vocab.ELEMENTS)))

    def cases(self, tier):
        for a in vocab.ATTRIBUTES:
            yield 'a', a
        for e in vocab.ELEMENTS:
            yield 'e', e

    def run(self, case, st):
        kind, name = case
        T = (('t', 'T'),)
        for mode in MODES:
            if kind == 'a':
                for p in PARTS:
                    for parts in ((p,), (p, '-'), (' ', p), (p, ('x', 'n')), (p, ' ', p)):
                        merged = []
                        for q in parts:
                            if isinstance(q, str) and merged and isinstance(merged[-1], str):
                                merged[-1] += q
                            else:
                                merged.append(q)
                        check_doc(doc(('e', 'b', ((name, tuple(merged)),), T, ())), st, (ENV,), mode=mode)
                check_doc(doc(*[('e', 'b', (), T, (('attrs', "{'%s': %s}" % (name, v)),)) for v in 'nestfwhou']), st, (ENV,), mode=mode)
                # next to each directive, before and after it, and next to the same name with a prefix
                for d, v in self.DIRS:
                    if d == 'attrs' and name == 'k':
                        continue
                    dirs = ((d, v),) if d[:2] != 'x:' else ()
                    more = () if dirs else ((d[2:] + ':' + name, (v,) if v else ()),)
                    full = 'py:' + d if dirs else more[0][0]
                    root = doc(('e', 'b', ((name, ('z',)),) + more, T, dirs))
                    for order in '%s="z" %s="%s"' % (name, full, v), '%s="%s" %s="z"' % (full, v, name):
                        check_doc(root, st, (dict(ENV, c=0), dict(ENV, c=1)), mode=mode, source='<d><b %s>T</b></d>' % order)
                continue
            names = [a for a in vocab.ATTRIBUTES if not a.startswith('xmlns')]
            for v in 'v', 'v or None', "[v][0]":
                check_doc(('e', name, tuple((a, (('x', v),)) for a in names), T, ()), st, (dict(v=' <A b" '), dict(v=None), dict(v='')), mode=mode)
                check_doc(('e', name, (), T, (('attrs', '[(k, %s) for k in K]' % v),)), st,
                          [dict(v=w, K=names) for w in (' <A b" ', None, '')], mode=mode)
            for dirs in ((('strip', 'v'),), (('content', 'v'),), (('replace', 'v'),), (('strip', 'not v'), ('content', 'v')), (('content', 'v'), ('attrs', "{'k': v}"))):
                for kids in T, ():
                    check_doc(doc(('t', 'a'), ('e', name, (('x', (('x', 'v'),)),), kids, dirs), ('t', ' b')), st,
                              (dict(v='<'), dict(v=None), dict(v=''), dict(v=0), dict(v=values.HtmlStr('<b/>'))), mode=mode)


def spaces():
    return [sizes.Sizes(sizes.C07), Vocabulary(), Booleans(), Exprs(), Literals(), Order(), Attrs(), Parts(), Tags()]


def _dup():
    return XMLTemplate('<a id="x" py:attrs="{\'id\': \'y\'}"/>')({}).render().count('id=') > 1


def known():
    return [{'what': 'py:attrs naming an attribute that is also written on the tag emits it twice: '
                     '<a id="x" py:attrs="{\'id\': \'y\'}"/>', 'probe': _dup}]


ASSUMPTIONS = ['an attribute is not given both on the tag and in py:attrs (known finding)',
               'boolean attributes get True/False, not 0/1, through py:attrs']
