"""C14: renderings are independent and repeatable.

Stateless exploration of operation histories on the real code.  A history is a sequence of operations
(instantiate, render, advance an iterator, abandon it, fail, compile something else) over fresh template
classes.  Oracle: what the same template and context give in isolation (first rendering of the first
instance of a freshly compiled class).
"""
import copy
import itertools

from mc import core
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402


class Boom(Exception):
    pass


class Bomb(object):
    """Raises at its n-th use."""

    def __init__(self, n):
        self.n = n

    def __call__(self, v):
        self.n -= 1
        if self.n == 0:
            raise Boom()
        return v


def up(s):
    return s.upper()


# Every template uses x (a value), xs (a list) and t (a function through which values go, that may fail).
XML = {
    'switch': '<a><py:switch test="x"><b py:case="1">${t(1)}<py:switch test="t(x+1)"><py:case value="2">in${t(2)}</py:case>'
              '<py:else>ie</py:else></py:switch>${x}</b><c py:else="">e${t(x)}</c></py:switch>'
              '<py:for each="i in xs"><py:switch test="i"><py:case value="t(1)">1</py:case><py:else>$i</py:else></py:switch></py:for></a>',
    'with': '<a><py:with vars="v=t(x);w=v">$v<py:with vars="v=t(w*2)">${t(v)}<py:for each="v in xs">$v${t(v)}</py:for>$v</py:with>'
            '$v${t(w)}</py:with><b py:with="v=t(x)" py:content="v"/></a>',
    'defs': '<a><py:def function="f(n, m=1)">$n$x<py:if test="n">${f(n-1)}</py:if>${t(m)}</py:def>${f(2)}<b py:attrs="{\'q\': t(x)}" '
            'r="${f(0)}${t(3)}"/><i py:strip="t(x)==1">s${f(1, m=t(4))}</i></a>',
    'call': '<a><py:def function="w(c)"><py:for each="i in xs">${c(i)}${t(i)}</py:for></py:def><py:call args="z" '
            'function="w(%caller)">[$z$x${t(z)}]</py:call><py:call args="" function="w(lambda i: t(i))">n</py:call></a>',
    'blocks': '<a><py:block name="k">K${t(x)}<py:block name="l">L$x</py:block></py:block><py:for each="i in xs">$i<py:block '
              'name="m">M${t(x)}</py:block></py:for></a>',
    'python': '<a><?py\nv = [t(x)]\nfor q in xs:\n    v.append(q)\n?>$v<?py v.append(t(9)) ?>${v}<py:def function="f()"><?py u = x ?>$u</py:def>'
              '${f()}${f()}</a>',
    'text': '<a title="h $x">hello ${t(x)} world<b>bye</b><!-- c --><script>if (a &lt; $x) { }</script></a>',
    'markup': '<a>${literal("&lt;i/&gt;")}${t(lit)}${lit}<b c="$lit">${Markup(t("x&amp;amp;"))}</b>$x</a>',
    'defined': '<a>${defined("x")}${defined("nix")}${value_of("nix", t(5))}<py:for each="i in xs"><py:if test="t(i) % 2">odd</py:if>'
               '<py:else>even</py:else></py:for></a>',
}
TEXT = {
    'text switch': '%def f(a)\n$a${t(x)}\n%end\n%for i in xs\n%switch i\n%case 1\none ${f(i)}\n%else\nother ${t(i)}\n%end\n%end\n'
                   '%if t(x) == 1\nyes\n%else\nno\n%end\n',
    'text call': '{%def w(c)%}${c(1)}${t(x)}${c(2)}{%end%}{%call(z) w(%caller)%}<$z$x>{%end%}{%py v = t(x)%}$v\\\n{%block b%}B$x{%end%}',
}
CHAIN = {
    'l': '<l><py:def function="f()">lf${t(x)}</py:def><py:block name="b">lb</py:block>${f()}${self.f()}<py:block name="e">E$x</py:block></l>',
    'c': '<py:extends href="l"><py:def function="g()">cg</py:def><py:block name="b">c${parent_block()}${t(x)}<py:include href="p"/>${g()}'
         '</py:block></py:extends>',
    'd': '<py:extends href="c"><py:def function="f()">df${t(1)}</py:def><py:block name="e">d$x${parent_block()}<py:import href="p"/>'
         '${p.f()}</py:block></py:extends>',
    'p': '<p><py:def function="f()">pf${t(x)}</py:def><py:with vars="v=x">$v</py:with>${f()}</p>',
    'i': '<i><py:for each="x2 in xs"><py:include href="p"/>$x2</py:for><py:include href="d"/>${t(x)}</i>',
}
NAMES = sorted(XML) + sorted(TEXT) + ['chain ' + k for k in sorted(CHAIN)]


def build(name):
    """A freshly compiled template class (with its whole chain)."""
    if name in XML:
        return XMLTemplate(XML[name])
    if name in TEXT:
        return TextTemplate(TEXT[name])
    loader = MockLoader(dict((n, XMLTemplate(s)) for n, s in CHAIN.items()))
    return loader.import_(name[6:])


class Html(object):
    def __html__(self):
        return '<u/>'


def context(i, bomb=0):
    c = {'x': i, 'xs': [1, i], 't': Bomb(bomb), 'lit': Html()}
    if i == 2:
        c['gettext'] = up
    return c


_alone = {}


def alone(name, i):
    if (name, i) not in _alone:
        _alone[name, i] = build(name)(context(i)).render()
    return _alone[name, i]


class Inst(object):
    def __init__(self, h, cls, i):
        self.h, self.i = h, i
        self.ctx = context(i)
        self.copy = dict(self.ctx)
        self.deep = copy.deepcopy(self.ctx['xs'])
        self.obj = cls(self.ctx)
        self.it, self.chunks = None, []

    def check(self, got, what):
        want = alone(self.h.name, self.i)
        if got != want:
            raise Violation('%s: not what the template renders in isolation' % what, source=self.h.show(), expected=want,
                            observed=got)
        self.context_kept()

    def context_kept(self):
        if self.ctx != self.copy or self.ctx['xs'] != self.deep:
            raise Violation('the context of the caller was changed', source=self.h.show(), expected=repr(self.copy),
                            observed=repr(self.ctx))

    def render(self):
        self.it = None              # an iterator under way is abandoned
        try:
            got = self.obj.render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        self.check(got, 'render()')

    def start(self):
        self.it, self.chunks = iter(self.obj), []

    def advance(self, n):
        for _ in range(n):
            if self.it is None:
                return
            try:
                c = next(self.it)
            except StopIteration:
                self.it = None
                self.check(''.join(self.chunks), 'the chunks of an iteration')
                return
            except Exception as e:
                raise Violation('iteration fails: %s: %s' % (type(e).__name__, e), source=self.h.show())
            if not isinstance(c, str):
                raise Violation('iteration yields %r' % (c,), source=self.h.show())
            self.chunks.append(c)


class History(object):
    def __init__(self, name, ops):
        self.name, self.ops, self.done = name, ops, 0

    def show(self):
        return '%s: %s (operation %d)' % (self.name, ' '.join(map(str, self.ops)), self.done)

    def run(self, st):
        cls = build(self.name)
        insts, made = [], 0
        other = 0
        for op in self.ops:
            self.done += 1
            st.steps += 1
            st.traces += 1
            if op == 'new' or not insts:
                made += 1
                insts.append(Inst(self, cls, 1 + (made - 1) % 3))
            if op == 'render':
                insts[-1].render()
            elif op == 'render first':
                insts[0].render()
            elif op == 'iterate':
                insts[-1].start()
                insts[-1].advance(3)
            elif op == 'step':
                for x in insts:
                    x.advance(2)
            elif op == 'finish':
                for x in insts:
                    x.advance(1000)
            elif op == 'close':
                for x in insts:
                    if x.it is not None:
                        x.it.close()
                        x.it = None
            elif op == 'fail':
                bomb = context(3, 2)
                try:
                    cls(bomb).render()
                except Boom:
                    pass
                except Exception as e:
                    raise Violation('another exception is raised: %r' % e, source=self.show())
            elif op == 'fail same':
                insts[-1].it = None
                t = insts[-1].ctx['t']
                t.n = 2
                try:
                    insts[-1].obj.render()
                except Boom:
                    pass
                except Exception as e:
                    raise Violation('another exception is raised: %r' % e, source=self.show())
                t.n = 0
            elif op == 'compile':
                other += 1
                n = NAMES[(NAMES.index(self.name) + 5 * other) % len(NAMES)]
                got = build(n)(context(other % 3 + 1)).render()
                if got != alone(n, other % 3 + 1):
                    raise Violation('a template compiled later', source=self.show() + n, expected=alone(n, other % 3 + 1),
                                    observed=got)
        for x in insts:
            x.advance(1000)
            x.render()
        outcome(st, (self.name, len(insts)))


OPS = ['new', 'render', 'render first', 'iterate', 'step', 'finish', 'close', 'fail', 'fail same', 'compile']


class Histories(Space):
    name = 'operation histories'
    bound = ('for each of %d templates (all directives, inheritance, includes, text): all sequences of up to 3 operations (thorough: 5) out of %s, followed '
             'by finishing and rendering all instances' % (len(NAMES), ', '.join(OPS)))

    def cases(self, tier):
        for n in range(1, 4 if tier == 'quick' else 6):
            for ops in itertools.product(OPS, repeat=n):
                if not any(o in ('new', 'render', 'iterate') for o in ops):
                    continue
                for name in NAMES:
                    yield name, ops
        if tier == 'quick':
            for ops in itertools.product(OPS, repeat=4):
                if ops[0] in ('new', 'iterate', 'fail same') and ops[1] not in ('render first', 'close', 'finish') and ops[3] not in (
                        'new', 'close', 'compile', 'fail'):
                    for name in ('switch', 'with', 'call', 'chain d', 'chain i'):
                        yield name, ops

    def run(self, case, st):
        History(*case).run(st)


class Interleaved(Space):
    name = 'interleaved iteration'
    bound = ('pairs of instances (same class, two contexts; two classes; parent and child) iterated chunk by chunk: all '
             'interleavings with up to 2 switches (thorough: 3), and full alternation')

    def cases(self, tier):
        for a in NAMES:
            for b in NAMES:
                if a != b and not (a.startswith('chain') and b.startswith('chain')) and tier == 'quick' and (
                        NAMES.index(a) + 1) % len(NAMES) != NAMES.index(b):
                    continue
                for k in range(4):
                    yield a, b, k, 2 if tier == 'quick' else 3

    def run(self, case, st):
        a, b, part, switches = case
        if a.startswith('chain') and b.startswith('chain'):
            loader = MockLoader(dict((n, XMLTemplate(s)) for n, s in CHAIN.items()))
            ca, cb = loader.import_(a[6:]), loader.import_(b[6:])
        else:
            ca = build(a)
            cb = ca if a == b else build(b)
        na, nb = (len(list(c(context(i)))) for c, i in ((ca, 1), (cb, 2)))
        scheds = [[(0, i), (1, 1000), (0, 1000)] for i in range(na + 1)]
        scheds += [[(0, i), (1, j), (0, 1000), (1, 1000)] for i in range(na + 1) for j in range(nb + 1)]
        scheds.append([(0, 1), (1, 1)] * (max(na, nb) + 2))
        scheds.append([(0, 1), (1, 2)] * (max(na, nb) + 2))
        if switches > 2:
            scheds += [[(0, i), (1, j), (0, k), (1, 1000), (0, 1000)] for i in range(na + 1) for j in range(nb + 1)
                       for k in range(1, na + 1 - i)]
        for s in scheds[part::4]:
            h = History(a, ['interleaved with ' + b, s])
            g = History(b, ['interleaved with ' + a, s])
            x, y = Inst(h, ca, 1), Inst(g, cb, 2)
            x.start()
            y.start()
            st.traces += 1
            for who, n in s:
                st.steps += 1
                (x, y)[who].advance(n)
            x.advance(1000)
            y.advance(1000)
            x.context_kept()
            y.context_kept()
            outcome(st, (a, b, len(x.chunks), len(y.chunks)))


class Failures(Space):
    name = 'failure and abandonment at every point'
    bound = ('each template fails at each of its evaluations, or its iteration is abandoned (closed, dropped) after each of its chunks; '
             'afterwards the same instance, another instance, and templates sharing the chain render as in isolation')

    def cases(self, tier):
        for name in NAMES:
            for i in (1, 2, 3):
                for j in (1, 2, 3):
                    for how in ('fail', 'close', 'drop'):
                        yield name, i, j, how

    def run(self, case, st):
        name, i, j, how = case
        for point in range(1, 200):
            cls = build(name)
            h = History(name, ['%s at %d' % (how, point)])
            x, y = Inst(h, cls, i), Inst(h, cls, j)
            y.start()
            y.advance(point % 5)
            st.traces += 1
            st.steps += 4
            if how == 'fail':
                x.ctx['t'].n = point
                try:
                    x.obj.render()
                    reached = False
                except Boom:
                    reached = True
                except Exception as e:
                    raise Violation('another exception is raised: %r' % e, source=h.show())
                x.ctx['t'].n = 0
            else:
                x.start()
                x.advance(point)
                reached = x.it is not None
                if reached and how == 'close':
                    x.it.close()
                x.it = None
            x.render()
            x.render()
            y.advance(1000)
            y.render()
            Inst(h, cls, j).render()
            outcome(st, (name, i, j, how, point))
            if not reached:
                break


class Compiled(Space):
    name = 'earlier compilations'
    bound = ('all sequences of up to 2 templates (thorough: 3) compiled and rendered before a template; and after 0 to 400 earlier compilations of '
             'templates that use generated names')

    def cases(self, tier):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for seq in itertools.product(NAMES, repeat=n):
                yield 'seq', seq
        for k in range(8):
            yield 'many', k

    def run(self, case, st):
        kind, arg = case
        if kind == 'seq':
            for n in arg:
                got = build(n)(context(2)).render()
                if got != alone(n, 2):
                    raise Violation('after earlier compilations', source=repr(arg), expected=alone(n, 2), observed=got)
                st.traces += 1
                st.steps += 1
            outcome(st, arg)
            return
        src = XML['call']
        for i in range(400 if arg == 0 else 60):
            st.traces += 1
            st.steps += 1
            n = NAMES[(i + arg) % len(NAMES)] if i % 2 else 'call'
            got = build(n)(context(1)).render()
            if got != alone(n, 1):
                raise Violation('after %d compilations' % i, source=n, expected=alone(n, 1), observed=got)


class Shared(Space):
    """Several instances share one context dictionary; the dictionary is never written to."""
    name = 'shared contexts'
    bound = 'two instances of each pair of templates created from one and the same context dictionary, rendered in both orders, twice'

    def cases(self, tier):
        for a in NAMES:
            for b in NAMES:
                for i in (1, 2, 3):
                    yield a, b, i

    def run(self, case, st):
        a, b, i = case
        if a.startswith('chain') and b.startswith('chain'):
            loader = MockLoader(dict((n, XMLTemplate(s)) for n, s in CHAIN.items()))
            ca, cb = loader.import_(a[6:]), loader.import_(b[6:])
        else:
            ca, cb = build(a), build(b)
        ctx = context(i)
        keep, deep = dict(ctx), list(ctx['xs'])
        x, y = ca(ctx), cb(ctx)
        for n, o in ((a, x), (b, y), (a, x), (b, y), (b, y), (a, x)):
            st.traces += 1
            st.steps += 1
            got = o.render()
            if got != alone(n, i):
                raise Violation('instances that share a context influence each other', source=repr(case), expected=alone(n, i),
                                observed=got)
            if ctx != keep or ctx['xs'] != deep:
                raise Violation('the context of the caller was changed', source=repr(case), expected=repr(keep), observed=repr(ctx))
        outcome(st, (a, b))


class Globals(Space):
    """Several templates compiled with one and the same dictionary of globals."""
    name = 'shared globals'
    bound = ('all triples of %d templates that define module-level names, functions and blocks of the same names, compiled with '
             'one dictionary of base_globals, alone, through one MockLoader or with one common context; every rendering order')
    SRC = ['<a><?py %m = "a" ?>${m}${g}</a>', '<b><?py %m = "b"\ng = "own" ?>$m$g<py:def function="f()">bf</py:def>${f()}</b>',
           '<c>${value_of("m", "none")}<py:def function="f()">cf</py:def>${f()}$g</c>',
           '<d>${"%s" % defined("f")}${defined("m")}<py:block name="k">dk</py:block></d>',
           '<e><py:block name="k">ek</py:block>${value_of("_kj_block_k") is not None}</e>',
           't:%def f()\ntf\n%end\n%py m = "t"\n${f()}$m${g}', '<h><?py import os ?>${os is not None}$g<?py v = 1 ?>$v</h>',
           '<i>${defined("os")}${defined("v")}${defined("template")}</i>', '<j><py:with vars="g=1; m=2">$g$m</py:with></j>']

    def __init__(self):
        self.bound = self.bound % len(self.SRC)

    def make(self, i, g):
        s = self.SRC[i]
        return TextTemplate(s[2:], base_globals=g) if s.startswith('t:') else XMLTemplate(s, base_globals=g)

    def cases(self, tier):
        n = len(self.SRC)
        for how in range(4):
            for c in itertools.permutations(range(n), 3) if tier != 'quick' else itertools.permutations(range(n), 2):
                yield how, c

    def run(self, case, st):
        how, c = case
        glob = {'g': 'G', 'gettext': up}

        def fresh():
            return dict(glob)
        alone = [self.make(i, fresh())({}).render() for i in c]
        shared = fresh()
        if how < 2:
            tpls = [self.make(i, shared) for i in c]
        else:
            tpls = []
            loader = MockLoader(dict((str(i), self.make(i, shared)) for i in c))
            tpls = [loader.import_(str(i)) for i in c]
        for order in itertools.permutations(range(len(c))):
            for k in order:
                got = tpls[k]({} if how != 1 else {}).render()
                st.traces += 1
                st.steps += 1
                if got != alone[k]:
                    raise Violation('a template compiled with globals that others use, too, renders differently',
                                    source='%r after %r' % (self.SRC[c[k]], [self.SRC[i] for i in c]), expected=alone[k],
                                    observed=got)
                if how == 3:
                    tpls[k] = self.make(c[k], shared)
        if shared != glob:
            raise Violation('the dictionary of globals of the caller was changed', source=repr([self.SRC[i] for i in c]),
                            expected=repr(sorted(glob)), observed=repr(sorted(shared)))
        outcome(st, (how, c))


def spaces():
    return [Globals(), Histories(), Interleaved(), Failures(), Compiled(), Shared()]


ASSUMPTIONS = ['templates do not themselves modify objects of the context',
               'one instance is not iterated twice at the same time']
