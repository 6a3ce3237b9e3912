"""C06: template functions and call blocks behave like closures.

Programs are all combinations of two (thorough: also three) snippets - every
way to define, use and call - each placed in every kind of scope, with the
function library before or after; compared with the reference interpreter.
"""
import itertools

from mc import exprs, sigs, sizes
from mc.core import Space, Violation, outcome
from mc.xmlmodel import src
from mc.xmlspace import check_doc, XMLTemplate


def t(s):
    return ('t', s)


def x(e):
    return ('x', e)


def d(kids, **dirs):
    order = tuple((k.rstrip('_'), v) for k, v in dirs.items())
    return ('e', None, (), tuple(kids), order)


def e(tag, kids=(), attrs=(), **dirs):
    return ('e', tag, tuple(attrs), tuple(kids), tuple((k.rstrip('_'), v) for k, v in dirs.items()))


LIB = [
    d([t('F')], def_='f()'),
    d([t('G'), x('p'), t(','), x('q')], def_='g(p, q=2)'),
    d([t('H('), x('c()'), t('|'), x('c()'), t(')')], def_='h(c)'),
    d([t('Z')], def_='h0(c)'),
    d([t('A('), x('c(1)'), t('|'), x('c(2)'), t(')')], def_='h1(c)'),
    d([t('B'), x('a'), t('('), x('c()'), t(')')], def_='h2(a, c)'),
    d([t('L('), d([x('c(j)')], for_='j in range(n)'), t(')')], def_='hn(c, n)'),
    d([t('R'), x('n'), d([x('r(n - 1)')], if_='n'), t('.')], def_='r(n)'),
    d([t('e'), d([x('odd(n - 1)')], if_='n')], def_='even(n)'),
    d([t('o'), d([x('even(n - 1)')], if_='n')], def_='odd(n)'),
    d([t('M'), x('fn()')], def_='m(fn)'),
    d([d([t('i'), x('y'), x('z')], def_='inner(z)'), x('inner(1)'), x('inner(y)')], def_='k(y)'),
    e('u', [t('U'), x('p')], [('w', (('x', 'p'),))], def_='el(p)'),
    d([x('args'), t('/'), x('sorted(kw.items())')], def_='va(*args, **kw)'),
    d([d([t('<'), x('c()'), t('>')], if_='b'), d([t('-')], else_='')], def_='hif(c, b)'),
    d([x('c()'), t('/'), x('b()')], def_='h22(c, b)'),
    d([d([x('q()')], for_='q in cs'), t('/'), x('cs[0]()')], def_='hl(cs)'),
]

SNIPPETS = [
    [x('v')],
    [x('f()'), x('f()')],
    [x('g(v)')], [x('g(v, 3)')], [x('g(p=v, q=v)')], [x('g(q=1, p=v)')],
    [e('b', [t('t')], [('x', (('x', 'g(v)'),)), ('y', ('a', ('x', 'f()'), ('x', 'v')))])],
    [e('b', content='g(v)')], [e('b', replace='g(v)')], [e('b', [t('t')], attrs_="{'x': g(v)}")],
    [x('el(v)')],
    [d([t('['), x('v'), t(']')], call=('h(%caller)', None))],
    [d([t('never')], call=('h0(%caller)', None))],
    [d([x('a'), t(':'), x('v')], call=('h1(%caller)', 'a'))],
    [d([x('v')], call=('h2(v, %caller)', None))],
    [d([x('v')], call=('h2(c=%caller, a=4)', None))],
    [d([x('a'), x('v')], call=('hn(%caller, 3)', 'a'))],
    [d([x('a'), x('v')], call=('hn(%caller, 0)', 'a'))],
    [d([x('a'), d([x('a'), t('+'), x('b'), x('v')], call=('h1(%caller)', 'b'))],
       call=('h1(%caller)', 'a'))],
    [d([d([x('v')], call=('h(%caller)', None)), d([t('2')], call=('h(%caller)', None))],
       call=('h(%caller)', None))],
    [d([d([x('s'), x('v')], for_='s in (1, 2)')], call=('h(%caller)', None))],
    [d([d([x('s'), x('v')], with_='s=8')], call=('h(%caller)', None))],
    [d([x('a'), x('b')], call=('h1(%caller)', 'a, b=5'))],
    [d([x('v')], call=('hif(%caller, v)', None))],
    [e('b', [x('v')], [('x', (('x', 'v'),))], call=('h(%caller)', None))],
    [e('b', [x('v')], call=('h(%caller)', None), for_='s in (1, 2)', if_='s')],
    [d([], call=('h(%caller)', None))],
    [d([t('<'), x('v')], call=('h22(%caller, %caller)', None))],
    [d([x('v')], call=('h22(b=%caller, c=%caller)', None))],
    [d([x('v')], call=('hl([%caller, %caller, f])', None))],
    [d([x('v')], call=('h22(%caller, f)', None))],
    [d([x('v')], call=('h22(f, %caller)', None))],
    [d([x('v')], call=('m(%caller)', None))],
    [d([x('v')], call=('h(lambda: %caller())', None))],
    [d([x('v')], call=('%caller()', None))],
    [d([x('a'), x('v')], call=('%caller(3)', 'a'))],
    [d([x('a'), x('v')], call=('h22(lambda: %caller(1), lambda: %caller(2))', 'a'))],
    [d([d([x('v')], call=('h22(%caller, %caller)', None)), t('!')], call=('h22(%caller, %caller)', None))],
    [d([x('g(v)'), e('i', [], [('x', (('x', 'g(v)'),))])], call=('h(%caller)', None))],
    [d([t('D'), x('v')], def_='d@()'), x('d@()'), x('d@()')],
    [d([t('D'), x('v')], def_='d@(v)'), x('d@(1)'), x('d@(2)'), x('v')],
    [d([t('D'), x('a')], def_='d@(a=6, *b)'), x('d@()'), x('d@(1, 2)')],
    [d([d([x('a'), x('b'), d([x('a'), x('b'), x('c')], def_='dd(c)'), x('dd(3)')], def_='di(b)'),
        x('di(2)'), x('di(b=5)')], def_='d@(a)'), x('d@(1)')],
    [d([d([x('a')], call=('h(%caller)', None))], def_='d@(a)'), x('d@(v)')],
    [d([d([x('a'), x('q')], for_='q in (1, 2)')], def_='d@(a)'), x('d@(0)'), x('d@(1)')],
    [d([d([x('a')], with_='a=a + 1'), x('a')], def_='d@(a)'), x('d@(0)')],
    [x('r(3)')], [x('even(3)')], [e('b', [t('t')], [('x', (('x', 'r(2)'),))])],
    [x('k(v)')], [x('k(1)'), x('k(2)')],
    [x('va(1, v, z=3)')],
    [('py', 'k@ = v'), x('k@')], [('py', 'k@ = 5\nj@ = k@ + 1'), x('j@')],
    [('py', '%M@ = 7'), x('M@'), d([x('M@')], def_='d@()'), x('d@()')],
    [('py', '%def pm@(a): return (a, M_)'), ('py', '%M_ = 3'), x('pm@(1)')],
    [('py', 'def pf(a): return a * 2'), x('pf(3)')],
    [('py', 'import os.path as osp'), x("osp.join('a', 'b')")],
    [d([x('g(1)'), e('b', [x('f()')])], block='bl@')],
    [d([d([t('N'), x('g(2)')], block='bn@')], block='bl@')],
    [x('m(f)')], [x('(lambda z: g(z))(4)')], [x('[f, h0][0]()')],
    [d([x('s')], with_='s=g(v)')],
    [d([x('f()')], if_='v'), d([x('g(0)')], else_='')],
    [d([d([x('f()')], case='1'), d([x('g(v)')], else_='')], switch='v')],
    [d([x('s')], for_='s in (f(), g(1))')],
]


def w_plain(kids):
    return kids


def w_with(kids):
    return [d(kids, with_='v=7')]


def w_for(kids):
    return [d(kids, for_='v in (1, 2)')]


def w_def(kids):
    return [d(kids, def_='w@(v)'), x('w@(5)'), x('w@(0)')]


def w_call(kids):
    return [d(kids, call=('h1(%caller)', 'v'))]


def w_forcall(kids):
    return [e('i', [d(kids, call=('h(%caller)', None))], for_='v in (1, 2)')]


def w_defdef(kids):
    return [d([d(kids, def_='y@(v)'), x('y@(8)')], def_='w@()'), x('w@()')]


def w_block(kids):
    return [d(kids, block='wb@')]


def w_py(kids):
    return [('py', 'v = 9')] + list(kids)


def w_if(kids):
    return [e('b', kids, [('x', (('x', 'v'),))], if_='1')]


def w_defcall(kids):
    return [d([d(kids, call=('h(%caller)', None))], def_='w@(v)'), x('w@(4)')]


WRAPPERS = [w_plain, w_with, w_for, w_def, w_call, w_forcall, w_defdef, w_block, w_py, w_if, w_defcall]


def subst(node, tag):
    """Make the names of a snippet unique."""
    if isinstance(node, str):
        return node.replace('@', tag)
    if isinstance(node, (tuple, list)):
        return tuple(subst(n, tag) for n in node)
    return node


PIECES = [(s, w) for w in range(len(WRAPPERS)) for s in range(len(SNIPPETS))]
ENVS = [dict(v=0), dict(v='<')]


class Programs(Space):
    name = 'programs'
    bound = ('all ordered pairs of %d snippets in %d kinds of scope each (pairs with one plain side '
             'in quick, all in thorough; plus all triples of plain snippets in thorough), library '
             'before or after, 2 contexts' % (len(SNIPPETS), len(WRAPPERS)))

    def cases(self, tier):
        n = len(SNIPPETS)
        for p in range(len(PIECES)):
            for lib in 0, 1:
                yield (p,), lib
        if tier == 'quick':
            for p in range(len(PIECES)):
                for q in range(n):
                    yield (p, q), (p + q) & 1
        else:
            for p in range(len(PIECES)):
                for q in range(len(PIECES)):
                    yield (p, q), (p + q) & 1
            for c in itertools.product(range(n), repeat=3):
                yield c, sum(c) & 1

    def build(self, case):
        pieces, lib = case
        body = []
        for i, p in enumerate(pieces):
            s, w = PIECES[p]
            body += subst(WRAPPERS[w](list(SNIPPETS[s])), str(i))
            body.append(t(';'))
        body = body + LIB if lib else LIB + body
        return ('e', 'd', (), tuple(body), ())

    def describe(self, case):
        body = self.build(case)
        return src(body[:3] + (tuple(n for n in body[3] if n not in LIB),) + body[4:])

    def run(self, case, st):
        check_doc(self.build(case), st, ENVS)


class Alone(Space):
    name = 'python blocks'
    bound = ('all placements of a local and a module-level Python block, before, between and after '
             'functions, in the prolog, root, function, call body, block, loop; layouts with '
             'indentation, comments and blank lines')
    CODE = ['k = 5', '\n  k = 5\n', '\n    if v is not None:\n        k = 5\n    else:\n        k = 5\n',
            '#\n  k = 4\n  k += 1', '\n\n  k = 5  # c\n', 'k = [y for y in (5,)][0]',
            'k = "?" and 5', '\n  j = 2\n  k = j + 3\n', '\n    j = 2\n\n    k = j + 3',
            '#\n  j = 2\n\n  k = 5', '#\nk = 5', '#\nj = 2\nk = 5', 'j = 2\nk = 5', 'if 1:\n  k = 5\nelse:\n  k = 6',
            '\n   def q(a):\n      return a\n   k = q(5)\n', '\n   for k in range(6):\n      pass\n',
            '\n   k = (2 +\n 3)\n', 'j = [\n 1,\n 2]\nk = 5', '\n  try:\n    1 / 0\n  except '
            'ZeroDivisionError:\n    k = 5', '\n\tj = 1\n\tk = 5', 'k = 5;j = 1', '\n k = 5\n # c\n']

    def cases(self, tier):
        for i in range(len(self.CODE)):
            for p in range(8):
                for lead in 0, 1:
                    yield i, p, lead
        for p in range(5):
            yield -1, p, 0

    def run(self, case, st):
        i, place, lead = case
        if i < 0:
            mod = '<?py %k = 5\nj = k + 1 ?>'
            use = '${k},${j}'
            docs = ['%s<d>%s</d>' % (mod, use), '<d>%s%s</d>' % (use, mod),
                    '<d><py:def function="f()">%s</py:def>${f()}%s</d>' % (use, mod),
                    '<d><py:def function="f()">%s%s</py:def>${f()}</d>' % (mod, use),
                    '<d><py:block name="b">%s</py:block><py:if test="0">%s</py:if></d>' % (use, mod)]
            source, want = docs[place], '<d>5,6</d>'
        else:
            py = '<?%s %s?>' % ('python' if lead else 'py', self.CODE[i])
            docs = [
                (py + '<d>$k</d>', '<d>5</d>'), ('<d>%s$k</d>' % py, '<d>5</d>'),
                ('<d>a%sb$k</d>' % py, '<d>ab5</d>'),
                ('<d><py:def function="f()">%s$k</py:def>${f()}${f()}</d>' % py, '<d>55</d>'),
                ('<d><py:def function="f(c)">${c()}</py:def><py:call function="f(%%caller)">%s$k'
                 '</py:call></d>' % py, '<d>5</d>'),
                ('<d><py:block name="b">%s$k</py:block></d>' % py, '<d>5</d>'),
                ('<d><b py:for="i in (1, 2)">%s$k</b></d>' % py, '<d><b>5</b><b>5</b></d>'),
                ('<d><py:if test="1">%s</py:if>$k</d>' % py, '<d>5</d>')]
            source, want = docs[place]
        got = XMLTemplate(source)(dict(v=1)).render()
        st.traces += 1
        st.steps += 1
        if got != want:
            raise Violation('a Python block does not act where it stands', source=source,
                            expected=want, observed=got)


class Order(Space):
    name = 'order of python blocks'
    bound = ('all sequences of up to 4 (thorough: 5) Python blocks, module-level or local, at the root, in an element, condition, loop, function, block, before or (module-level) after the '
             'root element; each uses what the ones before it of its kind made; the values are read at the end, in a function and in a block')
    PLACES = ['%s', '<b>%s</b>', '<py:if test="1">%s</py:if>', '<py:for each="i in (1,)">%s</py:for>', '<py:def function="d#()">%s</py:def>',
              '<py:block name="b#">%s</py:block>', 'prolog', 'epilog']

    def cases(self, tier):
        items = [(k, p) for k in 'ml' for p in range(len(self.PLACES)) if not (k == 'l' and p in (4, 5, 7))]
        for n in range(1, 5 if tier == 'quick' else 6):
            for c in itertools.product(items, repeat=n):
                if all((a[1] == 6 or b[1] != 6) and (a[1] != 7 or b[1] == 7) for a, b in zip(c, c[1:])):
                    if n < 4 or tier != 'quick' or sum(p for k, p in c) % 5 == 0:
                        yield c

    def build(self, case):
        prolog, body, epilog, m, l = '', '', '', None, None
        for i, (k, p) in enumerate(case):
            if k == 'm':
                code, m = '<?py %%m%d = %s [%d] ?>' % (i, 'm%d +' % m if m is not None else '', i), i
            else:
                code, l = '<?py l%d = %s [%d] ?>' % (i, 'l%d +' % l if l is not None else '', i), i
            if self.PLACES[p] == 'prolog':
                prolog += code
            elif self.PLACES[p] == 'epilog':
                epilog += code
            else:
                body += self.PLACES[p].replace('#', str(i)) % code
        out = '<u>%s</u><u>%s</u>' % ('$m%d' % m if m is not None else '', '$l%d' % l if l is not None else '')
        if m is not None:
            out += '<py:def function="f()">$m%d</py:def>${f()}<py:block name="z">$m%d</py:block>' % (m, m)
        return '%s<d>%s%s</d>%s' % (prolog, body, out, epilog)

    def describe(self, case):
        return self.build(case)

    def run(self, case, st):
        source = self.build(case)
        ms = [i for i, (k, p) in enumerate(case) if k == 'm']
        ls = [i for i, (k, p) in enumerate(case) if k == 'l']
        want = '<u>%s</u><u>%s</u>%s</d>' % (ms or '', ls or '', str(ms) * 2 if ms else '')
        want = want.replace('<u></u>', '<u/>')
        t = XMLTemplate(source)
        for again in 0, 1:
            got = t().render()
            st.traces += 1
            st.steps += len(case)
            if not got.endswith(want) or got[:-len(want)].replace('<b/>', '').replace('<b></b>', '') != '<d>':
                raise Violation('Python blocks do not run in order', source=source, expected=want, observed=got)


class Visibility(Space):
    name = 'visibility'
    bound = ('names bound in one body (loop, with, Python block, argument) are not visible in other '
             'functions, blocks or after the function')
    BIND = ['<py:with vars="k=1">%s</py:with>', '<py:for each="k in (1,)">%s</py:for>',
            '<?py k = 1 ?>%s', '<py:def function="o(k)">%s</py:def>${o(1)}']
    READ = '${"seen" if defined("k") else "unseen"}'

    def cases(self, tier):
        for i in range(len(self.BIND)):
            for j in range(3):
                yield i, j

    def run(self, case, st):
        i, j = case
        if j == 0:      # a top-level function does not see it
            source = '<d><py:def function="f()">%s</py:def>%s</d>' % ('${k}', self.BIND[i] % '${f()}')
        elif j == 1:    # neither does a block
            source = '<d>%s</d>' % (self.BIND[i] % '<py:block name="b">${k}</py:block>')
        else:           # nor the included function library of Python builtins
            source = '<d>%s<py:def function="f()">$k</py:def>${f()}</d>' % (self.BIND[i] % 'x')
        try:
            got = XMLTemplate(source)({}).render()
        except NameError:
            got = 'NameError'
        st.traces += 1
        st.steps += 1
        # with the name also in the context, the context's value is the one seen
        got2 = XMLTemplate(source)(dict(k='ctx')).render()
        st.traces += 1
        if got != 'NameError' or 'ctx' not in got2:
            raise Violation('a local name leaks into another function', source=source,
                            observed='%s / %s' % (got, got2))


def forests(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                yield (first,) + rest


class Nested(Space):
    """Every function prints its argument and those of all enclosing functions."""
    name = 'nested definitions'
    bound = ('all forests of up to 4 (thorough: 6) functions defined within each other; calls after every definition, in '
             'reverse order, or at the end; the definitions wrapped in an element, condition, loop, with-block or call body')
    WRAP = ['plain', 'element', 'if', 'for', 'with', 'call', 'else', 'switch', 'attribute', 'strip']

    def cases(self, tier):
        for n in range(1, 5 if tier == 'quick' else 7):
            for f in forests(n):
                for calls in range(4):
                    for w in range(len(self.WRAP)) if n < 6 else (0, 1, 5):
                        for same in (0, 1):
                            yield f, calls, w, same

    def wrap(self, w, nodes):
        w = self.WRAP[w]
        if w == 'plain':
            return nodes
        if w == 'element':
            return [e('i', nodes)]
        if w == 'if':
            return [d(nodes, if_='1')]
        if w == 'else':
            return [d([t('no')], if_='0'), d(nodes, else_='')]
        if w == 'for':
            return [d(nodes, for_='q in (1, 2)')]
        if w == 'with':
            return [d(nodes, with_='q=1')]
        if w == 'switch':
            return [d([d(nodes, case='1')], switch='1')]
        if w == 'strip':
            return [e('i', nodes, strip='1')]
        return [d(nodes, call=('h(%caller)', None))]

    def build(self, case):
        f, calls, w, same = case
        count = [0]

        def body(forest, depth, args):
            defs, uses = [], []
            out = [x(a) for a in args] + [t('.')]
            for i, kids in enumerate(forest):
                count[0] += 1
                name = 'n%d' % (i if same else count[0])
                if depth == 0:
                    name = 'top%d' % i
                arg = 'p' if same else 'p%d' % count[0]
                inner = body(kids, depth + 1, [a for a in args if a != arg] + [arg])
                if self.WRAP[w] == 'attribute':
                    df = e('b', inner, [('k', (('x', arg),))], def_='%s(%s)' % (name, arg))
                else:
                    df = d(inner, def_='%s(%s)' % (name, arg))
                use = [x('%s(%d)' % (name, 10 * depth + i))]
                if calls == 3:
                    use = [e('u', [], [('r', tuple(use))])] + use
                if depth == 0 or self.WRAP[w] == 'attribute':
                    group = [df] + (use if calls == 0 else [])
                    out += group
                elif calls == 0:
                    out += self.wrap(w, [df] + use)
                else:
                    defs.append(df)
                    uses.append(use)
                    continue
                if calls:
                    uses.append(use)
            if calls == 2:
                uses.reverse()
            flat = [u for us in uses for u in us]
            if defs:
                out += self.wrap(w, defs + flat)
            else:
                out += flat
            return out
        lib = [d([t('H('), x('c()'), t('|'), x('c()'), t(')')], def_='h(c)')] if self.WRAP[w] == 'call' else []
        return ('e', 'd', (), tuple(lib + body(f, 0, [])), ())

    def describe(self, case):
        return src(self.build(case))

    def run(self, case, st):
        check_doc(self.build(case), st)


class Exprs(Space):
    name = 'expression forms'
    bound = ('%d expressions of every operator class as positional, keyword and starred arguments of template functions and '
             'of the call body, and (constants) as defaults; 8 contexts' % len(exprs.BASE))

    def cases(self, tier):
        for i in range(len(exprs.BASE)):
            yield i

    def describe(self, case):
        return exprs.BASE[case]

    def run(self, case, st):
        q = exprs.BASE[case]
        nodes = [d([x('p'), t(','), x('q')], def_='g(p, q=2)'), d([x('cb(%s)' % q), t('/'), x('cb(k=%s)' % q)], def_='h(cb)'),
                 d([x('cb()'), t('/'), x('u')], def_='hu(u, cb)'),
                 x('g(%s)' % q), x('g(%s, %s)' % (q, q)), x('g(p=%s)' % q), x('g(q=%s, p=%s)' % (q, q)),
                 x('g(*[%s])' % q), x('g(**{"p": %s})' % q), e('b', [], [('z', (('x', 'g(%s)' % q),))]),
                 d([x('k')], call=('h(%caller)', 'k')),
                 d([t('B')], call=('hu(%s, %%caller)' % q, None)), d([t('B')], call=('hu(cb=%%caller, u=%s)' % q, None)),
                 d([t('B')], call=('hu((%s), %%caller)' % q, None))]
        try:
            eval(q, {})
            nodes += [d([x('p')], def_='df(p=%s)' % q), x('df()'), x('df(3)'),
                      d([x('k')], call=('hd(%caller)', 'k=%s' % q)), d([x('cb()'), x('cb(4)')], def_='hd(cb)')]
        except NameError:
            pass
        check_doc(('e', 'd', (), tuple(nodes), ()), st, exprs.ENVS)


SITES = [
    lambda p, q: ('<d><py:def function="f(%s)">%s</py:def>${f(*A, **K)}</d>' % (p, sigs.cells(q)), '<d>', '</d>'),
    lambda p, q: ('<d>${f(*A, **K)}<b py:def="f(%s)" i="${1}">%s</b></d>' % (p, sigs.cells(q)), '<d><b i="1">', '</b></d>'),
    lambda p, q: ('<d><py:def function="o()"><py:def function="f(%s)">%s</py:def>${f(*A, **K)}</py:def>${o()}</d>' % (p, sigs.cells(q)), '<d>', '</d>'),
    lambda p, q: ('<d><py:def function="h(c)">${c(*A, **K)}</py:def><py:call args="%s" function="h(%%caller)">%s</py:call></d>' % (p, sigs.cells(q)),
                  '<d>', '</d>'),
    lambda p, q: ('<d><py:def function="f(%s)">%s</py:def><py:def function="g(*a, **k)">${f(*a, **k)}</py:def>${g(*A, **K)}</d>' % (p, sigs.cells(q)),
                  '<d>', '</d>'),
]


class Arities(Space):
    name = 'numbers of arguments'
    bound = ('functions, inner functions and call bodies of 0 to 12 (thorough: 24) parameters, any number of them with a default, and up to 6 keyword-only ones: called with every '
             'number of positional arguments, the others by name or left out')

    def cases(self, tier):
        for n in range(13 if tier == 'quick' else 25):
            for d in range(n + 1):
                for kw in (0, 1, 6):
                    yield n, d, kw

    def run(self, case, st):
        n, d, kw = case
        pos = ['a%d' % i for i in range(n)]
        kws = ['k%d' % i for i in range(kw)]
        decl = ', '.join([a if i < n - d else '%s=%d' % (a, 100 + i) for i, a in enumerate(pos)] + (['*'] + ['%s=%d' % (k, 200 + i) for i, k in enumerate(kws)] if kw else []))
        cells = ''.join('$%s,' % a for a in pos + kws)
        calls, want = [], []
        for j in range(n + 1):
            for named in range(max(n - d, j), n + 1):
                vals = dict((a, 100 + i) for i, a in enumerate(pos))
                vals.update((k, 200 + i) for i, k in enumerate(kws))
                args = [str(i) for i in range(j)] + ['%s=%d' % (a, i) for i, a in reversed(list(enumerate(pos))[j:named])]
                vals.update((a, i) for i, a in enumerate(pos[:named]))
                for i, k in enumerate(kws):
                    if (i + j) % 2:
                        args.append('%s=%d' % (k, 300 + i))
                        vals[k] = 300 + i
                calls.append(', '.join(args))
                want.append(''.join('%d,' % vals[a] for a in pos + kws))
        uses = ';'.join('${f(%s)}' % c for c in calls)
        want = ';'.join(want)
        for source in ('<d><py:def function="f(%s)">%s</py:def>%s</d>' % (decl, cells, uses),
                       '<d><py:def function="o()"><py:def function="f(%s)">%s</py:def>%s</py:def>${o()}</d>' % (decl, cells, uses),
                       '<d><py:def function="o(f)">%s</py:def><py:call args="%s" function="o(%%caller)">%s</py:call></d>' % (uses, decl, cells)):
            for again in 0, 1:
                try:
                    got = XMLTemplate(source)().render()
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, str(e)[:200])
                st.traces += 1
                st.steps += len(calls)
                if got != '<d>%s</d>' % want:
                    raise Violation('an argument gets lost', source=source, expected=want, observed=got)
        outcome(st, case)


def spaces():
    return [sizes.Sizes(sizes.C06), Arities(), sigs.Signatures(XMLTemplate, SITES), Nested(), Exprs(), Alone(), Order(), Visibility(), Programs()]


def _string():
    return XMLTemplate("<d><?py k = len('''a\nb''') ?>$k</d>")({}).render() != '<d>3</d>'


def known():
    return [{'what': 'a string literal over several lines in a Python block gets the indentation of '
                     "the generated code: <d><?py k = len('''a\\nb''') ?>$k</d> is not 3",
             'probe': _string}]


ASSUMPTIONS = ['programs read names only where they are bound']
