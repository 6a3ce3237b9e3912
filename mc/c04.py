"""C04: conditional and loop directives render what they say.

All directive trees up to a weight (number of directives), every node in
element or attribute form, rendered in every environment and compared with
the reference interpreter; all combinations of directive attributes on one
element; all value pairs in case/if/for positions.
"""
import decimal
import fractions
import itertools

from mc.core import Space, Violation
from mc import exprs, sizes
from mc.xmlmodel import src
from mc.xmlspace import check_doc

ARMS = [('0',), ('0', 'else'), ('1', '0'), ('1', '0', 'else'), ('else',), ('0', '0', 'else'), ('b', '1'),
        ()]


def bodies(n, loops, tier):
    """Bodies with n directives, as tuples of items."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in items(k, loops, tier):
            for rest in bodies(n - k, loops, tier):
                yield (first,) + rest


def split(n, k):
    """Ways to distribute n over k bodies."""
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in split(n - i, k - 1):
            yield (i,) + r


def items(n, loops, tier):
    conds = ('a', 'i%d' % loops if loops else 'b')
    for c in conds:
        for b in bodies(n - 1, loops, tier):
            yield ('if', c, b)
    for c in conds:
        for i, j in split(n - 1, 2):
            for b1 in bodies(i, loops, tier):
                for b2 in bodies(j, loops, tier):
                    yield ('ifelse', c, b1, b2)
    for b in bodies(n - 1, loops + 1, tier):
        yield ('for', 'i%d in R' % (loops + 1), b)
    subj = 'i%d' % loops if loops else 'a'
    for arms in ARMS:
        if not arms:
            if n == 1:
                yield ('switch', subj, ())
            continue
        for dist in split(n - 1, len(arms)):
            if len(arms) == 3 and sum(1 for d in dist if d) > 1:
                continue
            for bs in itertools.product(*[list(bodies(d, loops, tier)) for d in dist]):
                yield ('switch', subj, tuple(zip(arms, bs)))


class Builder(object):
    """Turns abstract trees into documents; leaves are numbered."""

    def __init__(self, forms, fill):
        self.forms, self.fill = forms, fill
        self.n = self.k = 0

    def form(self):
        f = self.forms[self.k % len(self.forms)]
        self.k += 1
        return f

    def leaf(self):
        self.n += 1
        return ('t', (' %d ' if self.fill == 2 else '%d') % self.n)

    def kids(self, body, loops):
        out = []
        if not body:
            if self.fill:
                out.append(self.leaf())
                if loops:
                    out.append(('x', 'i%d' % loops))
            return tuple(out)
        for it in body:
            if self.fill == 2:
                out.append(self.leaf())
            out.extend(self.item(it, loops))
        if self.fill:
            out.append(self.leaf())
        return tuple(out)

    def item(self, it, loops):
        k = it[0]
        f = self.form()
        tag = None if f == 0 else 'b'
        if k == 'if':
            return [('e', tag, (), self.kids(it[2], loops), (('if', it[1]),))]
        if k == 'ifelse':
            a = ('e', tag, (), self.kids(it[2], loops), (('if', it[1]),))
            b = ('e', tag and 'i', (), self.kids(it[3], loops), (('else', ''),))
            return [a, b]
        if k == 'for':
            return [('e', tag, (), self.kids(it[2], loops + 1), (('for', it[1]),))]
        arms = []
        for a, body in it[2]:
            if self.fill == 2:
                arms.append(('t', '\n '))
            arms.append(('e', tag, (), self.kids(body, loops),
                         (('else', '') if a == 'else' else ('case', a),)))
        return [('e', None, (), tuple(arms), (('switch', it[1]),))]


ENVS = [dict(a=a, b=b, R=r) for a in (0, 1) for b in (0, 1) for r in ((), (0, 1))]


class Trees(Space):
    name = 'directive trees'
    bound = ('all trees of up to 2 directives (if, if/else, for, switch with %d arm lists) in every '
             'mix of element and attribute form and three fillings; up to 3 in uniform forms; '
             'thorough: up to 3 in every mix, 4 over a reduced arm list; in 8 environments'
             % len(ARMS))

    def cases(self, tier):
        for n in 0, 1, 2:
            for b in bodies(n, 0, tier):
                for forms in itertools.product((0, 1), repeat=max(1, n)):
                    for fill in 0, 1, 2:
                        yield b, forms, fill
        for b in bodies(3, 0, tier):
            if tier == 'quick':
                yield b, (0, 0, 1), 1
            else:
                for forms in itertools.product((0, 1), repeat=3):
                    for fill in 1, 2:
                        yield b, forms, fill

    def build(self, case):
        b, forms, fill = case
        return ('e', 'd', (), Builder(forms, fill).kids(b, 0), ())

    def describe(self, case):
        return src(self.build(case))

    def run(self, case, st):
        root = self.build(case)
        if not check_doc(root, st, ENVS):
            raise Violation('internal: undefined program', source=src(root))


# -- several directives on one element --------------------------------------
COMBO = [('for', 'i in R'), ('if', 'a'), ('with', 'w=a+10'), ('replace', 'a'), ('block', 'k'),
         ('strip', 'b'), ('content', 'b'), ('attrs', "{'x': b}")]
# the same, where everything uses what a py:with or py:for of the same element binds
BOUND = [('for', 'i in R'), ('if', 'a'), ('with', 'a=a+10;b=1-b'), ('replace', 'a'), ('block', 'k'),
         ('strip', 'b'), ('content', 'b+a'), ('attrs', "{'x': b}")]
OVER = [('for', 'a in R'), ('if', 'a'), ('with', 'b=a+5'), ('replace', 'b'), ('block', 'k'),
        ('strip', 'a'), ('content', 'b'), ('attrs', "{'x': a}")]
LEAD = [None, ('else', ''), ('case', '1'), ('def', 'f(p)'), ('call', ('f(%caller)', None))]


class Combined(Space):
    name = 'directives on one element'
    bound = ('all subsets of 8 directives, whose values come from outside or from a py:for or py:with of the same element, on one element, alone and together with each of else, case, '
             'def, call, written in two orders, on an element and on a directive element, in 8 '
             'environments')

    def cases(self, tier):
        for lead in range(len(LEAD)):
            for mask in range(1 << len(COMBO)):
                for rev in 0, 1:
                    yield lead, mask, rev, 0
                    yield lead, mask, rev, 2
                    yield lead, mask, rev, 4
        # the first directive of the set written as an element
        for lead in range(len(LEAD)):
            for mask in range(1 << 5):
                for rev in 0, 1:
                    if lead or mask:
                        yield lead, mask, rev, 1
                        yield lead, mask, rev, 3
                        yield lead, mask, rev, 5

    def build(self, case):
        lead, mask, rev, as_element = case
        dirs = [(OVER if as_element & 4 else BOUND if as_element & 2 else COMBO)[i] for i in range(len(COMBO)) if mask >> i & 1]
        if LEAD[lead]:
            dirs.insert(0, LEAD[lead])
        if rev:
            dirs.reverse()
        names = [d[0] for d in dirs]
        kids = (('t', 'T'), ('x', 'a'))
        node = ('e', None if as_element & 1 else 'b', () if as_element & 1 else (('z', ('1',)),), kids,
                tuple(dirs))
        first = LEAD[lead] and LEAD[lead][0]
        if first == 'else':
            body = (('e', 'i', (), (('t', 'I'),), (('if', 'b'),)), node)
        elif first == 'case':
            body = (('e', None, (), (node, ('e', None, (), (('t', 'E'),), (('else', ''),))),
                     (('switch', 'b'),)),)
        elif first == 'def':
            body = (('t', 'D'), node, ('x', 'f(1)'), ('t', '|'), ('x', 'f(2)'))
        elif first == 'call':
            body = (('e', None, (), (('t', '('), ('x', 'c()'), ('x', 'c()'), ('t', ')')),
                     (('def', 'f(c)'),)), node)
        else:
            body = (('t', 'L'), node, ('t', 'R'))
        return ('e', 'd', (), body, ())

    def describe(self, case):
        return src(self.build(case))

    def run(self, case, st):
        lead, mask, rev, as_element = case
        root = self.build(case)
        check_doc(root, st, ENVS)


# -- values in directives ----------------------------------------------------
class Eq(object):
    def __init__(self, *v):
        self.v = v

    def __eq__(self, o):
        return o in self.v

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Eq%r' % (self.v,)


VALS = [0, 1, 2, True, False, None, '', '0', '1', 'a', 'b', 1.0, (), (1,), [], [1], {}, -1, 'A', ' ',
        b'a', float('inf'), 10 ** 20, float('nan'), Eq(), Eq(1, 'a'), decimal.Decimal(1), fractions.Fraction(1), frozenset(), set(), range(0), 1j - 1j]
TRUTH = VALS + [[0], {'a': 0}, ' ', object(), lambda: 0, float('nan'), Eq(1)]
ITERS = ["()", "(1,)", "[1, 2, 3]", "'abc'", "range(3)", "iter([1, 2])", "(x for x in 'xy')",
         "{'k': 1}", "sorted({3, 1, 2})", "reversed([1, 2])", "enumerate('ab')", "zip('ab', 'cd')",
         "{'k': 1}.items()", "map(str, [1, 2])", "[None, 0, '']", "[[]]", "L", "L + L", "L[1:]",
         "[x * 2 for x in L]", "[y for x in [[1], [2, 3]] for y in x]", "L if a else ()",
         "range(300)"]
TARGETS = [('i', None), ('i, j', 2), ('(i, j)', 2), ('i, (j, k)', 3), ('[i, j]', 2), ('i,', 1),
           ('i, *j', 2)]


class Values(Space):
    name = 'values in directives'
    bound = ('all pairs of %d values as switch subject and case values (with and without else); all '
             'values as condition; %d iterables and %d target forms'
             % (len(VALS), len(ITERS), len(TARGETS)))

    def cases(self, tier):
        for i in range(len(VALS)):
            for j in range(len(VALS)):
                yield 's', i, j
        for i in range(len(TRUTH)):
            yield 'i', i, 0
        for i in range(len(ITERS)):
            yield 'f', i, 0
        for i in range(len(TARGETS)):
            yield 't', i, 0

    def run(self, case, st):
        k, i, j = case
        e = lambda kids, *dirs: ('e', None, (), tuple(kids), dirs)
        if k == 's':
            envs = [dict(s=VALS[i], c=VALS[j], o=o) for o in VALS]
            arms = [e([('t', '1')], ('case', 'c')), e([('t', '2')], ('case', 'o')),
                    e([('t', 'E')], ('else', ''))]
            for n in 2, 3:
                check_doc(('e', 'd', (), (e(arms[:n], ('switch', 's')), ('t', '.')), ()), st, envs)
        elif k == 'i':
            envs = [dict(a=TRUTH[i])]
            for cond in 'a', 'not a', 'a and a', 'a or 0', 'bool(a)', 'a is None', '(a)', ' a ':
                check_doc(('e', 'd', (), (e([('t', '1')], ('if', cond)),
                                          e([('t', '2')], ('else', '')),
                                          ('e', 'b', (), (('t', '3'),), (('if', cond),)),
                                          ('t', '.')), ()), st, envs)
        elif k == 'f':
            it = ITERS[i]
            for form in None, 'b':
                check_doc(('e', 'd', (), (('e', form, (), (('x', 'i'), ('t', ';')),
                                           (('for', 'i in ' + it),)), ('t', '.')), ()),
                          st, [dict(L=[5, 6, 7], a=1), dict(L=[], a=0)])
        else:
            t, n = TARGETS[i]
            data = {None: [1, (2, 3)], 1: [(1,), (2,)], 2: [(1, 2), 'xy', [3, 4]],
                    3: [(1, (2, 3)), (4, 'yz')]}[n]
            names = [x for x in 'ijk' if x in t]
            kids = []
            for x in names:
                kids += [('x', x), ('t', ',')]
            root = ('e', 'd', (), (('e', None, (), tuple(kids), (('for', '%s in L' % t),)),), ())
            want = []
            for item in data:
                ns = {}
                exec('%s = v' % t, {'v': item}, ns)
                want.append(''.join('%s,' % (ns[x],) for x in names))
            from mc.xmlspace import XMLTemplate
            got = XMLTemplate(src(root))(dict(L=data)).render()
            st.traces += 1
            st.steps += len(data)
            if got != '<d>%s</d>' % ''.join(want):
                raise Violation('loop over unpacked items', source=src(root), context=repr(data),
                                expected=''.join(want), observed=got)


class Exprs(Space):
    name = 'expression forms'
    bound = ('%d expressions of every operator class as condition, switch subject, case value (against every value) and, '
             'with %d unparenthesised tuples, as iterable; as element and attribute; 8 contexts'
             % (len(exprs.BASE), len(exprs.TUPLES)))

    def cases(self, tier):
        for i in range(len(exprs.BASE)):
            yield 'c', i
        for i in range(len(exprs.TUPLES)):
            yield 't', i

    def describe(self, case):
        return repr((exprs.BASE if case[0] == 'c' else exprs.TUPLES)[case[1]])

    def run(self, case, st):
        k, i = case
        e = lambda kids, *dirs: ('e', None, (), tuple(kids), dirs)
        b = lambda kids, *dirs: ('e', 'b', (('z', ('1',)),), tuple(kids), dirs)
        T = lambda s: ('t', s)
        if k == 't':
            x = exprs.TUPLES[i]
            for f in e, b:
                check_doc(('e', 'd', (), (f([('x', 'i'), T(';')], ('for', 'i in ' + x)), T('.')), ()), st, exprs.ENVS)
            return
        x = exprs.BASE[i]
        nodes = []
        for f in e, b:
            nodes += [f([T('1')], ('if', x)), f([T('2')], ('else', '')), T(','), f([T('3')], ('if', x)), T(';')]
            nodes += [f([('x', 'i')], ('for', 'i in [%s]' % x)), T(',')]
            nodes += [f([('x', 'i')], ('for', 'i in (1, 2)'), ('if', x)), T(',')]
            nodes += [f([('x', 'i')], ('for', 'i in (%s, 2)' % x), ('if', 'i'), ('with', 'j = i')), T(',')]
            nodes += [e([f([T('4')], ('case', 'a')), f([T('5')], ('case', x)), f([T('6')], ('else', ''))], ('switch', x)), T('|')]
            nodes += [e([f([T('7')], ('case', x)), f([T('8')], ('else', ''))], ('switch', v)) for v in ('a', '0', 'True', "'x'")]
            nodes += [e([f([T('9')], ('case', v)) for v in ('a', '0', 'b or c', x)], ('switch', x))]
        check_doc(('e', 'd', (), tuple(nodes), ()), st, exprs.ENVS)


def spaces():
    return [sizes.Sizes(sizes.C04), Values(), Exprs(), Combined(), Trees()]


ASSUMPTIONS = ['reading a loop variable after its loop is not specified and not explored']
