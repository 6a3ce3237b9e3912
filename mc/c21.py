"""C21: templates written in Python (kajiki.Template and kajiki.expose).

The programs are generated as Python source.  The oracle executes the same functions as ordinary Python functions and flattens what
they yield by hand; nothing of kajiki is used for it.
"""
import functools
import itertools
import sys
import types

from mc import c10, core, sigs
from mc.core import Space, Violation, outcome

core.setup_repo()
import kajiki  # noqa: E402
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402


class Odd(object):
    def __str__(self):
        return 'odd<'


class Rich(object):
    def __str__(self):
        return 'plain'

    def __html__(self):
        return '<rich>'


class Text(str):
    def __str__(self):
        return 'Text'


def load(source, name='tpl', extra=None):
    ns = dict(extra or {}, kajiki=kajiki)
    exec(source, ns)
    return kajiki.Template(ns[name])


# --- flattening ------------------------------------------------------------------------------

VALUES = {'u': 'a', 'e': '', 'n': None, 'z': 0, 'd': 1.5, 'o': Odd(), 'm': '<&>', 'l': [1, None], 't': (), 'b': False, 'r': Rich(), 's': Text('x')}


class Flat(object):
    """What a template function returns, as seen by the oracle."""

    def __init__(self, parts):
        self.parts = parts

    def text(self):
        out = []
        for p in self.parts:
            if isinstance(p, Flat):
                out.append(p.text())
            elif p is not None:
                out.append(str(p))
        return ''.join(out)


def native(source, ctx):
    """Execute the source with plain functions; the text that __main__ gives."""
    ns = dict(ctx)

    def expose(f):
        def call(*a, **k):
            r = f(*a, **k)
            return r if isinstance(r, Flat) else Flat(list(() if r is None else r))
        return call
    ns.update(kajiki=types.SimpleNamespace(expose=expose), literal=lambda s: Flat([s]), Markup=lambda s: Flat([s]),
              __kj__=types.SimpleNamespace(flattener=types.SimpleNamespace(decorate=expose)), value_of=lambda n, d=None: ctx.get(n, d))
    exec(source.replace('class tpl:\n', 'if 1:\n'), ns)
    return ns['__main__']().text()


class Flatten(Space):
    name = 'flattening'
    LEAF = ['y' + v for v in sorted(VALUES)] + ['lit', 'mark']
    CALLS = ['f', 'g', 'ret', 'retlist', 'nothing', 'empty', 'inner', 'arg', 'argf', 'twice', 'loop', 'cond', 'rec', 'yieldfrom', 'late']
    bound = ('all bodies of up to 3 (thorough: 4) statements out of %d (values of %d kinds, functions that yield, return, do nothing, call each other, '
             'take template output as argument, recur, inner functions), at top level or inside of a function; render() and iteration'
             % (len(LEAF) + len(CALLS), len(VALUES)))
    LIB = '''
    @kajiki.expose
    def f():
        yield 'F'
        yield n
        yield g(z)
        yield g(g(u))

    @kajiki.expose
    def g(x):
        yield '<'
        yield x
        yield None
        yield '>'

    @kajiki.expose
    def ret():
        return g(u)

    @kajiki.expose
    def retlist():
        return [n, u, g(1), '', g(g(o))]

    @kajiki.expose
    def nothing():
        pass

    @kajiki.expose
    def empty():
        return
        yield 'never'

    @kajiki.expose
    def twice(x):
        yield x
        yield '|'
        yield x

    @kajiki.expose
    def rec(k):
        yield k
        if k:
            yield rec(k - 1)
            yield '.'

    @kajiki.expose
    def yieldfrom():
        for p in ['p', None, g('q'), 3]:
            yield p
'''

    def cases(self, tier):
        menu = range(len(self.LEAF) + len(self.CALLS))
        for n in range(1, 4 if tier == 'quick' else 5):
            for c in itertools.product(menu, repeat=n):
                yield 0, c
                if n < 3:
                    yield 1, c

    def statement(self, i, k):
        if i < len(self.LEAF):
            v = self.LEAF[i]
            return {'lit': ["yield literal('<b>')"], 'mark': ["yield Markup('&')"]}.get(v) or ['yield ' + v[1:]]
        c = self.CALLS[i - len(self.LEAF)]
        if c in ('f', 'ret', 'retlist', 'nothing', 'empty', 'yieldfrom'):
            return ['yield %s()' % c]
        return {
            'g': ['yield g(u)'], 'inner': ['@__kj__.flattener.decorate', 'def in%d(x):' % k, '    yield u', '    yield g(x)', '    yield u',
                                           'yield in%d(n)' % k, 'yield in%d(in%d(z))' % (k, k)],
            'arg': ['yield g(retlist())'], 'argf': ['yield g(f())'], 'twice': ['yield twice(m)'],
            'loop': ['for i in range(3):', '    yield i', '    yield g(i)', '    yield n'], 'cond': ['if z:', '    yield f()', 'else:', '    yield g(e)'],
            'rec': ['yield rec(3)'], 'late': ['v%d = g(u)' % k, "yield '-'", 'yield v%d' % k],
        }[c]

    def source(self, case):
        inside, stmts = case
        body = [l for k, i in enumerate(stmts) for l in self.statement(i, k)]
        if inside:
            s = 'class tpl:%s\n    @kajiki.expose\n    def body(a, b=u):\n%s\n        yield a\n        yield b\n\n    @kajiki.expose\n    def __main__():\n' \
                '        yield body(1)\n        yield body(n, b=2)\n' % (self.LIB, '\n'.join('        ' + l for l in body))
            return s.replace('b=u', "b='B'")
        return 'class tpl:%s\n    @kajiki.expose\n    def __main__():\n%s\n' % (self.LIB, '\n'.join('        ' + l for l in body))

    def describe(self, case):
        return self.source(case).replace(self.LIB, '\n')

    def run(self, case, st):
        source = self.source(case)
        want = native(source.replace('class tpl:\n', 'class tpl:\n'), VALUES)
        t = load(source)
        got = t(dict(VALUES)).render()
        pieces = list(t(dict(VALUES)))
        st.traces += 2
        st.steps += len(case[1])
        if got != want or ''.join(pieces) != want or not all(isinstance(p, str) for p in pieces):
            raise Violation('a template written in Python', source=self.describe(case), context=repr(VALUES), expected=want, observed='%s / %r' % (got, pieces))
        outcome(st, want)


# --- name spaces -----------------------------------------------------------------------------

class Containers(Space):
    name = 'containers and names'
    KINDS = ['class', 'oldclass', 'derived', 'instance', 'methods', 'module', 'namespace', 'static']
    bound = ('8 kinds of objects that hold the functions x subsets of 3 functions exposed x other attributes present or not x 3 contexts x instances made '
             'before or after each other; names of the context, builtins, functions of each other, defined(), value_of()')

    def cases(self, tier):
        for k in range(len(self.KINDS)):
            for mask in range(8):
                for noise in (0, 1):
                    for order in (0, 1):
                        yield k, mask, noise, order

    def functions(self, mask):
        ns = {'kajiki': kajiki}
        exec('''
@kajiki.expose
def __main__():
    yield len(x)
    yield x
    for n in names:
        yield '[' + n
        if defined(n):
            yield value_of(n)()
        yield ']'
    yield value_of('missing', 'none')
    yield defined('x')
    yield defined('missing')

def a():
    yield 'A'
    yield x

def b():
    yield 'B'
    yield value_of('a', str)()

def c():
    yield local.a is self.a if defined('a') else 'no'
    yield self.__main__ is __main__
    yield helper if defined('helper') else '-'
''', ns)
        fs = {'__main__': ns['__main__']}
        for i, n in enumerate('abc'):
            f = ns[n]
            fs[n] = kajiki.expose(f) if mask >> i & 1 else f
        return fs

    def run(self, case, st):
        k, mask, noise, order = case
        fs = self.functions(mask)
        more = {'helper': lambda: 'H', 'data': 5, 'other': None} if noise else {}
        attrs = dict(fs, **more)
        kind = self.KINDS[k]
        if kind in ('class', 'oldclass'):
            ns = type('tpl', (object,), attrs)
        elif kind == 'derived':
            base = type('base', (object,), dict(attrs, a=kajiki.expose(lambda: 'wrong')))
            ns = type('tpl', (base,), {'a': attrs['a'], '__doc__': 'x'})
        elif kind == 'instance':
            ns = type('tpl', (object,), {})()
            for n, f in attrs.items():
                setattr(ns, n, f)
        elif kind == 'methods':
            ns = type('tpl', (object,), attrs)()
        elif kind == 'module':
            ns = types.ModuleType('mod')
            for n, f in attrs.items():
                setattr(ns, n, f)
        elif kind == 'namespace':
            ns = types.SimpleNamespace(**attrs)
        else:
            ns = type('tpl', (object,), dict((n, staticmethod(f) if callable(f) else f) for n, f in attrs.items()))
        t = kajiki.Template(ns)
        names = [n for i, n in enumerate('abc') if mask >> i & 1]

        def want(x):
            w = '%d%s' % (len(x), x)
            for n in 'abc':
                w += '[' + n
                if n in names:
                    w += {'a': 'A%s' % (x,), 'b': 'B' + ('A%s' % (x,) if 'a' in names else ''), 'c': ('True' if 'a' in names else 'no') + 'True-'}[n]
                w += ']'
            return w + 'noneTrueFalse'
        ctxs = [{'x': 'v', 'names': 'abc'}, {'x': [1, 2], 'names': ['a', 'b', 'c']}, {'x': '', 'names': 'abc'}]
        if order:
            ctxs.reverse()
        made = [t(dict(c)) for c in ctxs]
        for m, c in list(zip(made, ctxs)) + list(zip(reversed(made), reversed(ctxs))):
            got = m.render()
            st.traces += 1
            st.steps += 1
            if got != want(c['x']):
                raise Violation('names of a template written in Python', source=kind, context='%r exposed %r' % (c, names), expected=want(c['x']), observed=got)
            outcome(st, got)


def plain(f):
    def g(*a, **k):
        for x in f(*a, **k):
            yield x
            yield x
    return g


def wrapped(f):
    @functools.wraps(f)
    def g(*a, **k):
        yield '<'
        for x in f(*a, **k):
            yield x
        yield '>'
    return g


def listed(f):
    @functools.wraps(f)
    def g(*a, **k):
        return ['l'] + list(f(*a, **k))
    return g


class Objects(Space):
    name = 'function objects'
    DECOS = {'p': plain, 'w': wrapped, 'l': listed, 'n': lambda f: f}
    BODIES = ['generator', 'list', 'tuple', 'iterator', 'closure', 'defaults', 'lambda', 'attributes', 'nested', 'returning', 'string']
    bound = ('%d kinds of functions (generators, functions that return sequences or iterators, closures, lambdas, with attributes) x all sequences of up to 3 out of %d decorators, with and '
             'without functools.wraps, applied before and after expose; called with and without arguments' % (len(BODIES), len(DECOS)))

    def cases(self, tier):
        for b in self.BODIES:
            for n in range(4):
                for d in itertools.product('pwl', repeat=n):
                    for at in range(n + 1):
                        yield b, ''.join(d), at

    def function(self, kind):
        outer = ['o', 1]
        if kind == 'generator':
            def f(a='d', *r, **k):
                yield a
                yield len(r) + len(k)
        elif kind == 'list':
            def f(a='d', *r, **k):
                return [a, len(r) + len(k), None, '']
        elif kind == 'tuple':
            def f(a='d', *r, **k):
                return (a, 0, len(r) + len(k))
        elif kind == 'iterator':
            def f(a='d', *r, **k):
                return iter([a, 1.5])
        elif kind == 'closure':
            def f(a='d', *r, **k):
                for x in outer:
                    yield x
                yield a
        elif kind == 'defaults':
            def f(a='d', b=outer, *r, c=('x',), **k):
                yield a
                yield len(b)
                yield c
        elif kind == 'lambda':
            f = lambda a='d', *r, **k: [a, 'L']  # noqa: E731
        elif kind == 'attributes':
            def f(a='d', *r, **k):
                """Text."""
                yield a
            f.note = 5
            f.exposed = False
        elif kind == 'nested':
            def f(a='d', *r, **k):
                def g():
                    yield a
                    yield outer[1]
                for x in g():
                    yield x
        elif kind == 'returning':
            def f(a='d', *r, **k):
                yield a
                return
        else:
            def f(a='d', *r, **k):
                return 'st' + a
        return f

    def run(self, case, st):
        kind, decos, at = case

        def build(expose):
            f = self.function(kind)
            for i, d in enumerate(decos):
                if i == at:
                    f = expose(f)
                f = self.DECOS[d](f)
            return expose(f)

        def text(values):
            return ''.join('' if v is None else str(v) for v in values)
        g = build(lambda f: f)
        f = build(kajiki.expose)

        class T(object):
            main = kajiki.expose(f)
            other = kajiki.expose(self.function(kind))

            @kajiki.expose
            def __main__():
                yield main()
                yield '|'
                yield main('q')
                yield '|'
                yield main('q', 'r', z=1)
                yield '|'
                yield other()
        want = '|'.join([text(g()), text(g('q')), text(g('q', 'r', z=1)), text(self.function(kind)())])
        t = kajiki.Template(T)
        for n in 1, 2:
            st.traces += 1
            st.steps += 4
            try:
                got = t().render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, e)
            if got != want:
                raise Violation('a function of a template written in Python', source='%s, decorators %r, exposed after %d' % case, expected=want, observed=got)
        outcome(st, got)


# --- inheritance and composition with the other kinds of templates ------------------------------

class Python(object):
    ext = 'py'

    def items(self, items, indent='        '):
        out = []
        for it in items:
            if isinstance(it, str):
                out.append('yield %r' % it)
            elif it[0] == 'v':
                out.append('yield c')
            elif it[0] == 'a':
                out += ['yield x', 'yield y', 'yield z']
            elif it[0] == 'c':
                out.append('yield ' + c10.ref(it)[2:-1])
        return ''.join(indent + l + '\n' for l in out or ["yield ''"])

    def source(self, spec, parent):
        s = 'class tpl:\n'
        for k, n, i in spec['defs']:
            s += '    @kajiki.expose\n    def %s(x, y=2, z=1):\n%s' % (n, self.items(i))
        s += '    @kajiki.expose\n    def __main__():\n'
        if parent is None:
            return s + self.items(['('] + list(spec['main']) + [')'])
        return s + '        yield local.__kj__.extend(%r).__main__()\n' % parent

    def compile(self, source):
        return load(source)

    def root(self, text):
        return '(%s)' % text


if len(c10.DIALECTS) == 5:
    c10.DIALECTS.append(Python())
PY = 5
S = c10.SCOPES
DEFS = [None, ['1@', ('a',)], ['2@', ('c', 'parent', 'f')]] + [['3@', ('c', s, 'g'), ('v',)] for s in S]
GDEFS = [None, ['g@'], ['h@', ('c', 'parent', 'g')], ['i@', ('c', 'self', 'k')]]
MAINS = [[('c', '', 'f')], [('c', 'self', 'f'), ('v',), ('c', 'local', 'f')], [('c', 'child', 'f'), ('c', '', 'g')], [('c', 'local', 'g'), ('c', 'self', 'f')]]


def subst(items, level):
    return [i.replace('@', str(level)) if isinstance(i, str) else i for i in items]


class Chains(Space):
    name = 'chains'
    DIA = [(PY, PY), (PY, 0), (0, PY), (PY, 1), (3, PY), (PY, PY, PY), (0, PY, PY), (PY, 0, PY), (PY, PY, 1)]
    bound = ('chains of two and three templates written in Python, mixed with markup and text templates in %d ways; all combinations of %d and %d ways to define or '
             'override two functions x %d main programs; references by name, self, local, parent and child'
             % (len(DIA), len(DEFS), len(GDEFS), len(MAINS)))

    def cases(self, tier):
        for dia in range(len(self.DIA)):
            n = len(self.DIA[dia])
            for defs in itertools.product(range(len(DEFS)), repeat=n):
                gs = itertools.product(range(len(GDEFS)), repeat=n)
                for g in gs:
                    if n == 3 and tier == 'quick' and (sum(defs) + sum(g)) % 4:
                        continue
                    yield dia, defs, g

    def build(self, case, main):
        dia, defs, g = case
        chain = []
        for k in range(len(defs)):
            spec = {'defs': []}
            for n, menu, i in (('f', DEFS, defs[k]), ('g', GDEFS, g[k])):
                if menu[i] is not None:
                    spec['defs'].append(('def', n, subst(menu[i], k)))
            if k == len(defs) - 1:
                spec['defs'].append(('def', 'k', ['k']))
            if k == 0:
                spec['main'] = main
            chain.append(spec)
        return chain

    def run(self, case, st):
        for main in MAINS:
            c10.run_chain(self.build(case, main), self.DIA[case[0]], st)


class Compose(Space):
    name = 'imports and includes'
    bound = ('a template written in Python, in markup or in text imports or includes (3 sites each) one of the three kinds, which does so again; '
             'values of the context, functions with arguments, several uses')
    LIBS = {
        'py': "class tpl:\n    @kajiki.expose\n    def fn(p, q='Q'):\n        yield 'fn'\n        yield p\n        yield q\n        yield v\n%s"
              "    @kajiki.expose\n    def __main__():\n        yield 'main'\n        yield v\n%s",
        'xml': '<py:nop><py:def function="fn(p, q=\'Q\')">fn$p$q$v%s</py:def>main$v%s</py:nop>',
        'txt': "{%%def fn(p, q='Q')%%}fn$p$q$v%s{%%end%%}main$v%s",
    }
    USES = {
        'py': {'imp': "        w = local.__kj__.import_(%r, None, globals())\n        yield w.fn(1)\n        yield w.fn(v, q=2)\n",
               'as': "        yield local.__kj__.import_(%r, 'al', globals()).fn(v)\n        yield al.fn(3, 4)\n",
               'inc': "        yield local.__kj__.import_(%r, 'z', globals()).__main__()\n", '': ''},
        'xml': {'imp': '<py:import href="%s"/>${@.fn(1)}${@.fn(v, q=2)}', 'as': '<py:import href="%s" alias="al"/>${al.fn(v)}${al.fn(3, 4)}',
                'inc': '<py:include href="%s"/>', '': ''},
        'txt': {'imp': '{%%import "%s"%%}${@.fn(1)}${@.fn(v, q=2)}', 'as': '{%%import "%s" as al%%}${al.fn(v)}${al.fn(3, 4)}',
                'inc': '{%%include "%s"%%}', '': ''},
    }
    HOW = ['imp', 'as', 'inc']

    def cases(self, tier):
        kinds = ['py', 'xml', 'txt']
        for a, b, c in itertools.product(kinds, repeat=3):
            for h1 in self.HOW:
                for h2 in self.HOW + ['']:
                    for place in ('main', 'fn', 'both'):
                        yield a, b, c, h1, h2, place

    def use(self, kind, how, target):
        s = self.USES[kind][how]
        return (s % target).replace('@', target) if how else ''

    def run(self, case, st):
        a, b, c, h1, h2, place = case
        if 'py' not in (a, b, c):
            return
        src = {}
        u2 = self.use(b, h2, 'three')
        src['one'] = a, self.LIBS[a] % ('', self.use(a, h1, 'two'))
        src['two'] = b, self.LIBS[b] % (u2 if place != 'main' else '', u2 if place != 'fn' else '')
        src['three'] = c, self.LIBS[c] % ('', '')
        mods = {}
        for n, (k, s) in src.items():
            mods[n] = load(s) if k == 'py' else XMLTemplate(s) if k == 'xml' else TextTemplate(s)

        def used(how, fn, main, v):
            return {'imp': lambda: fn(1, 'Q') + fn(v, 2), 'as': lambda: fn(v, 'Q') + fn(3, 4), 'inc': main, '': lambda: ''}[how]()
        for v in ('V', 7, None):
            sh = lambda x: '' if x is None else str(x)
            fn3 = lambda p, q: 'fn%s%s%s' % (sh(p), sh(q), sh(v))
            main3 = lambda: 'main' + sh(v)
            fn2 = lambda p, q: fn3(p, q) + (used(h2, fn3, main3, v) if place != 'main' else '')
            main2 = lambda: main3() + (used(h2, fn3, main3, v) if place != 'fn' else '')
            want = main3() + used(h1, fn2, main2, v)
            loader = MockLoader(mods)
            for again in range(2):
                got = loader.import_('one')({'v': v}).render()
                st.traces += 1
                st.steps += 1
                if got != want:
                    raise Violation('templates written in Python with others', source='\n----\n'.join('%s: %s' % (n, s[1]) for n, s in src.items()),
                                    context='v=%r' % (v,), expected=want, observed=got)
            outcome(st, want)


SITES = [
    lambda p, q: ("class tpl:\n    @kajiki.expose\n    def f(%s):\n        yield '.'\n%s    @kajiki.expose\n    def __main__():\n        yield f(*A, **K)\n"
                  % (p, ''.join("        yield %s\n        yield '.'\n" % e for e in q)), '', ''),
    lambda p, q: ("class tpl:\n    @kajiki.expose\n    def __main__():\n        @__kj__.flattener.decorate\n        def f(%s):\n            yield '.'\n%s"
                  "        yield f(*A, **K)\n" % (p, ''.join("            yield %s\n            yield '.'\n" % e for e in q)), '', ''),
]


def spaces():
    return [Objects(), sigs.Signatures(load, SITES), Containers(), Compose(), Chains(), Flatten()]


ASSUMPTIONS = ['a function that a template hands out yields values, None and the results of other template functions',
               'the result of a template function is an iterator (as documented): it is written once']
