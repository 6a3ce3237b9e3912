"""C23: expressions are evaluated once, in order, and only where control reaches them.

Every place of a template that takes Python code gets a call with a number of its own that is recorded in a journal.  The journal of a rendering has to be
that of the reference interpreter, which evaluates a place when it gets there.
"""
import itertools
import sys
import types

from mc import core
from mc.core import Space, Violation, outcome
from mc.textmodel import D, T, X, tags, layout, Impossible
from mc import textmodel
from mc.xmlmodel import Interp, Undefined, Mk, src

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402


class Journal(object):
    """The functions a template may call; each call is recorded, and its result tells how often that place was evaluated before."""

    def __init__(self, bits, wrap=None):
        self.log = []
        self.count = {}
        self.bits = bits
        self.wrap = wrap

    def note(self, k):
        self.log.append(k)
        n = self.count[k] = self.count.get(k, 0) + 1
        return n

    def env(self):
        def e(k, *others):
            """A value that is different each time."""
            return '%s.%d' % (k, self.note(k))

        def c(k):
            """A condition that changes each time."""
            return bool((self.bits >> (k % 3)) + self.note(k) & 1)

        def v(k, value=None):
            self.note(k)
            return value

        def it(k):
            n = self.note(k)
            for i in range(2):
                self.log.append('%s.%d:%d' % (k, n, i))
                yield '%s%d' % (k, i)
            self.log.append('%s.%d:end' % (k, n))

        def at(k):
            return {'z': '%s.%d' % (k, self.note(k))}

        class O(object):
            def __getattr__(s, name):
                if name[:1] != 'p':
                    raise AttributeError(name)
                return '%s.%d' % (name, self.note(name))
        return dict(e=e, c=c, v=v, it=it, at=at, o=O())


class Numbers(object):
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


# -- markup ----------------------------------------------------------------

def x(k):
    return ('x', 'e(%d)' % k())


def el(kids, *dirs, **kw):
    return ('e', kw.get('tag'), tuple(kw.get('attrs', ())), tuple(kids), tuple(dirs))


# kind -> function(k: numbers, body: function giving the nodes of the body, f: a fresh name) giving nodes
def m_if(k, b, f):
    return [el(b(), ('if', 'c(%d)' % k()))]


def m_else(k, b, f):
    i = el(b(), ('if', 'c(%d)' % k()), tag='u')
    return [i, el([x(k)], ('else', ''), tag='i')]


def m_else2(k, b, f):
    i = el([x(k)], ('if', 'c(%d)' % k()))
    return [i, el(b(), ('else', ''))]


def m_for(k, b, f):
    n = k()
    return [el(b() + [('x', 'v(%d, w%d)' % (k(), n))], ('for', 'w%d in it(%d)' % (n, n)))]


def m_for_tag(k, b, f):
    n, a = k(), k()
    return [el(b(), ('for', 'w%d in it(%d)' % (n, n)), ('if', 'c(%d)' % a), tag='b')]


def m_switch(k, b, f):
    n, a, c = k(), k(), k()
    return [el([('t', ' '), el([x(k)], ('case', 'v(%d, c(%d))' % (a, c))), el(b(), ('case', 'v(%d, 1)' % k())), el([x(k)], ('case', 'v(%d, 2)' % k())),
                el([x(k)], ('else', ''))], ('switch', 'v(%d, 1)' % n))]


def m_switch_else(k, b, f):
    return [el([el([x(k)], ('case', 'c(%d)' % k())), el(b(), ('else', ''))], ('switch', 'v(%d, True)' % k()))]


def m_with(k, b, f):
    n = k()
    return [el(b() + [('n', 'w%d' % n), ('x', 'v(%d, w%d)' % (k(), n))], ('with', 'w%d = e(%d); q%d = v(%d, w%d)' % (n, n, n, k(), n)))]


def m_strip(k, b, f):
    return [el(b(), ('strip', 'c(%d)' % k()), tag='b')]


def m_strip_attrs(k, b, f):
    n = k()
    return [el(b(), ('strip', 'c(%d)' % n), ('attrs', 'at(%d)' % k()), tag='b', attrs=(('y', ('l', x(k))), ('x', (x(k), x(k))), ('w', ('s',))))]


def m_attrs(k, b, f):
    return [el(b(), ('attrs', 'at(%d)' % k()), tag='b', attrs=(('a', (('n', 'o.p%d' % k()), '-', ('x', 'v(%d)' % k()))), ('c', (('x', 'v(%d)' % k()),)), ('b', ('s', x(k)))))]


def m_content(k, b, f):
    return [el(b(), ('content', 'e(%d)' % k()), tag='b', attrs=(('a', (x(k),)),))]


def m_strip_content(k, b, f):
    return [el(b(), ('strip', 'c(%d)' % k()), ('content', 'e(%d)' % k()), tag='b', attrs=(('a', (x(k),)),))]


def m_replace(k, b, f):
    return [el(b(), ('replace', 'e(%d)' % k()), tag='b', attrs=(('a', (x(k),)),))]


def m_def(k, b, f):
    return [el([('n', 'a')] + b(), ('def', '%s(a)' % f)), ('x', '%s(e(%d))' % (f, k())), ('x', '%s(e(%d))' % (f, k()))]


def m_def_unused(k, b, f):
    return [el([x(k)] + b(), ('def', '%s()' % f)), x(k)]


def m_def_attr(k, b, f):
    return [el([('n', 'a'), x(k)], ('def', '%s(a)' % f)), el(b(), tag='b', attrs=(('a', (x(k), ('x', '%s(e(%d))' % (f, k())), '-', x(k))),))]


def m_call(k, b, f):
    return [el([x(k), ('x', 'g(e(%d))' % k()), x(k), ('x', 'g(a)')], ('def', '%s(a, g)' % f)),
            el(b() + [('n', 'm')], ('call', ('%s(e(%d), %%caller)' % (f, k()), 'm')))]


def m_call_unused(k, b, f):
    return [el([('n', 'a'), x(k)], ('def', '%s(g, a)' % f)), el(b(), ('call', ('%s(%%caller, e(%d))' % (f, k()), None)))]


def m_block(k, b, f):
    return [el(b() + [x(k)], ('block', f))]


def m_py(k, b, f):
    n = k()
    return [('py', 'w%d = e(%d)' % (n, n))] + b() + [('n', 'w%d' % n), ('py', 'e(%d)' % k())]


def m_cdata(k, b, f):
    return [('cd', (('t', 'a'), x(k), ('n', 'o.p%d' % k()))), ('c', ' c ')] + b()


def m_script(k, b, f):
    return [el([('t', 'a '), x(k), ('n', 'o.p%d' % k())], tag='script')] + b()


def m_all(k, b, f):
    a = k()
    return [el(b(), ('for', 'w%d in it(%d)' % (a, a)), ('if', 'c(%d)' % k()), ('with', 'q%d = e(%d)' % (a, k())), ('strip', 'c(%d)' % k()),
               tag='b', attrs=(('a', (('n', 'w%d' % a), ('n', 'q%d' % a), x(k))),))]


MARKUP = [m_if, m_else, m_else2, m_for, m_for_tag, m_switch, m_switch_else, m_with, m_strip, m_strip_attrs, m_attrs, m_content, m_strip_content, m_replace,
          m_def, m_def_unused, m_def_attr, m_call, m_call_unused, m_block, m_py, m_cdata, m_script, m_all]


def forests(n, count):
    """All forests of n nodes with kinds 0..count-1."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for k in range(count):
            for kids in forests(first - 1, count):
                for rest in forests(n - first, count):
                    yield ((k, kids),) + rest


def build(forest, kinds, k, leaf, name):
    out = [leaf(k)]
    for i, kids in forest:
        out += kinds[i](k, lambda kids=kids: build(kids, kinds, k, leaf, name), name())
        out.append(leaf(k))
    return out


def namer():
    n = Numbers()
    return lambda: 'f%d' % n()


def compare(st, tpl, model, source, bits, **detail):
    """Renders twice: nothing may be left over of the first time."""
    for b in bits:
        want = Journal(b)
        try:
            out, steps = model(want.env())
        except (Undefined, NameError, UnboundLocalError):
            st.skipped += 1
            continue
        for how in 'render', 'iterate':
            got = Journal(b)
            try:
                t = tpl(got.env())
                text = t.render() if how == 'render' else ''.join(list(t))
            except Exception as ex:
                raise Violation('rendering fails: %s: %s' % (type(ex).__name__, str(ex)[:200]), source=source, **detail)
            st.traces += 1
            st.steps += steps
            if got.log != want.log:
                raise Violation('expressions are not evaluated once and in order', source=source, conditions=b, how=how, expected=repr(want.log),
                                observed=repr(got.log), **detail)
            if text != out:
                raise Violation('output differs from the reference interpretation', source=source, conditions=b, expected=out, observed=text, **detail)
            outcome(st, (tuple(want.log), text))


class Markup(Space):
    name = 'markup templates'
    bound = ('all forests of up to 2 (thorough: 3) out of %d constructs (conditions, loops, switches, bindings, tags with attributes, functions, calls, blocks, '
             'Python blocks, CDATA), of 3 over 9 of them, every expression recorded; conditions in 4 phases; rendered and iterated; in xml and html mode' % len(MARKUP))
    CORE = [m_else, m_for, m_switch, m_with, m_strip_attrs, m_def, m_call, m_block, m_attrs]

    def cases(self, tier):
        for n in range(3 if tier == 'quick' else 4):
            for f in forests(n, len(MARKUP)):
                yield 0, f
        if tier == 'quick':
            for f in forests(3, len(self.CORE)):
                yield 1, f

    def root(self, case):
        w, f = case
        return ('e', 'r', (), tuple(build(f, (MARKUP, self.CORE)[w], Numbers(), x, namer())), ())

    def describe(self, case):
        return src(self.root(case))

    def run(self, case, st):
        root = self.root(case)
        source = src(root)
        for mode in ('xml', 'html') if case[0] == 0 and len(source) < 400 else ('xml',):
            def model(env):
                m = Interp(root, env, mode=mode)
                return m.render(), m.steps
            try:
                tpl = XMLTemplate(source, mode=mode)
            except Exception as ex:
                raise Violation('a valid template does not compile: %s: %s' % (type(ex).__name__, str(ex)[:300]), source=source)
            compare(st, tpl, model, source, range(4), mode=mode)


class Rebinding(Space):
    name = 'variables that change inside of an element'
    bound = 'all 7 ways to rebind a variable in the content of a tag x 12 uses of it on that tag x its 4 values; xml and html mode'
    # what changes q in the body; w is the value
    BODIES = [
        lambda: [('py', 'q = not q'), ('x', 'q')],
        lambda: [el([('n', 'q')], ('for', 'q in (0, 1)')), ('py', 'q = 3')],
        lambda: [el([('n', 'q')], ('for', 'q in (1, 0)')), ('py', 'q = 0')],
        lambda: [el([('n', 'q')], ('with', 'q = not q')), ('n', 'q')],
        lambda: [('x', 'l.append(1) or l.clear()'), ('n', 'l')],
        lambda: [('x', 'l.append(1)'), ('n', 'l')],
        lambda: [('x', 'l.clear()'), el([('n', 'l'), ('py', 'q = 5')], tag='i')],
    ]
    USES = ['q', 'not q', 'l', 'not l', 'q and l', 'len(l) > q', 'q == 0', 'q or not l', 'l == [1]', '(lambda: q)()', '[q][0]', 'True if q else l']

    def cases(self, tier):
        for c in itertools.product(range(len(self.BODIES)), range(len(self.USES)), (0, 1), (0, 1)):
            yield c

    def run(self, case, st):
        b, u, q, l = case
        use = self.USES[u]
        for dirs, attrs in (((('strip', use),), ()), ((('strip', use),), (('a', (('x', 'q'),)), ('b', ('s',)))), ((('strip', use), ('if', '1')), ()),
                            ((('strip', use), ('with', 'z = q')), (('a', (('n', 'z'),)),)), ((('if', use), ('strip', use)), ()),
                            ((('strip', use), ('attrs', "{'a': q}")), ())):
            for tag in 'b', 'br':
                root = ('e', 'r', (), (('py', 'q = %d' % q), el(self.BODIES[b](), *dirs, tag=tag, attrs=attrs), ('t', '.')), ())
                source = src(root)
                for mode in 'xml', 'html':
                    if mode == 'html' and tag == 'br':
                        continue
                    m = Interp(root, dict(l=[1] * l), mode=mode)
                    want = m.render()
                    got = XMLTemplate(source, mode=mode)(dict(l=[1] * l)).render()
                    st.traces += 1
                    st.steps += m.steps
                    if got != want:
                        raise Violation('output differs from the reference interpretation', source=source, context='l=%r' % ([1] * l), mode=mode, expected=want,
                                        observed=got)
                    outcome(st, got)


# -- text ------------------------------------------------------------------

def tx(k):
    return X('e(%d)' % k())


def t_if(k, b, f):
    return [D('if', [('if', ' c(%d)' % k(), b())])]


def t_else(k, b, f):
    return [D('if', [('if', ' c(%d)' % k(), [tx(k)]), ('else', '', b())])]


def t_for(k, b, f):
    n = k()
    return [D('for', [('for', ' w%d in it(%d)' % (n, n), b() + [X('v(%d, w%d)' % (k(), n))])])]


def t_switch(k, b, f):
    n, a, c = k(), k(), k()
    return [D('switch', [('switch', ' v(%d, 1)' % n, []), ('case', ' v(%d, c(%d))' % (a, c), [tx(k)]), ('case', ' v(%d, 1)' % k(), b()),
                         ('case', ' v(%d, 2)' % k(), [tx(k)]), ('else', '', [tx(k)])])]


def t_def(k, b, f):
    return [D('def', [('def', ' %s(a)' % f, [X('a')] + b())]), X('%s(e(%d))' % (f, k())), X('%s(e(%d))' % (f, k()))]


def t_def_unused(k, b, f):
    return [D('def', [('def', ' %s()' % f, [tx(k)] + b())]), tx(k)]


def t_call(k, b, f):
    return [D('def', [('def', ' %s(a, g)' % f, [tx(k), X('g(e(%d))' % k()), tx(k), X('g(a)')])]),
            D('call', [('call', '(m) %s(e(%d), %%caller)' % (f, k()), b() + [X('m')])])]


def t_call_unused(k, b, f):
    return [D('def', [('def', ' %s(g, a)' % f, [X('a'), tx(k)])]), D('call', [('call', '() %s(%%caller, e(%d))' % (f, k()), b())])]


def t_block(k, b, f):
    return [D('block', [('block', ' ' + f, b() + [tx(k)])])]


def t_py(k, b, f):
    n = k()
    return [D('py', [('py', ' w%d = e(%d)' % (n, n), [])], end=False)] + b() + [X('w%d' % n, '$w%d' % n), D('py', [('py', ' e(%d)' % k(), [])], end=False)]


def t_named(k, b, f):
    n = k()
    return [X('o.p%d' % n, '$o.p%d' % n), T('-')] + b()


TEXT = [t_if, t_else, t_for, t_switch, t_def, t_def_unused, t_call, t_call_unused, t_block, t_py, t_named]


class Text(Space):
    name = 'text templates'
    bound = ('all forests of up to 3 (thorough: 4) out of %d constructs, every expression recorded; conditions in 4 phases; rendered and iterated; with and without '
             'autoescaping' % len(TEXT))

    def cases(self, tier):
        for n in range(4 if tier == 'quick' else 5):
            for f in forests(n, len(TEXT)):
                yield f

    def nodes(self, case):
        nodes = build(case, TEXT, Numbers(), tx, namer())
        for t in tags(nodes):
            t.form = 'B'
        return nodes

    def describe(self, case):
        return layout(self.nodes(case))

    def run(self, case, st):
        nodes = self.nodes(case)
        try:
            source = layout(nodes)
        except Impossible:
            return
        for auto in False, True:
            def model(env):
                m = textmodel.Interp(nodes, env, autoescape=auto)
                return m.render(), m.steps
            try:
                tpl = TextTemplate(source, autoescape=auto)
            except Exception as ex:
                raise Violation('a valid template does not compile: %s: %s' % (type(ex).__name__, str(ex)[:300]), source=source)
            compare(st, tpl, model, source, range(4) if not auto else (1,), autoescape=auto)


# -- several templates -----------------------------------------------------

class Composition(Space):
    name = 'several templates'
    bound = ('layouts that are all sequences of up to 3 (thorough: 4) of 7 parts (expression, two blocks, include, function of its own or of an import, include in a '
             'loop), alone and extended by children that override each block with all sequences of up to 2 of 4 parts or not at all, and by a grandchild; markup, text')
    PARTS = 'ebBiflm'
    OWN = 'epfi'

    def cases(self, tier):
        bodies = [None] + [''.join(c) for n in range(3) for c in itertools.product(self.OWN, repeat=n)]
        for n in range(1, 4 if tier == 'quick' else 5):
            for c in itertools.product(self.PARTS, repeat=n):
                c = ''.join(c)
                if c.count('b') > 1 or c.count('B') > 1 or c.count('m') + c.count('l') > 1:
                    continue
                yield c, None, None, None
                if 'b' in c:
                    for one in bodies:
                        yield c, one, None, None
                        if n <= 2:
                            for two in bodies[:8]:
                                yield c, one, two, None
                    if 'B' in c:
                        for two in bodies[:8]:
                            yield c, 'pe', None, two
                            yield c, None, 'e', two

    # a template is (kind, top level, blocks); an item is a number of a place or a part
    def expand(self, case):
        layout_, one, two, other = case
        k = Numbers()
        base = []
        blocks = {}
        for p in layout_:
            base.append((p, k(), k()))
        if 'b' in layout_:
            blocks['b'] = [('e', k(), 0)]
        if 'B' in layout_:
            blocks['B'] = [('e', k(), 0), ('f', k(), 0)]
        chain = [blocks]
        for body, which in ((one, 'b'), (two, 'b')):
            d = {}
            if body is not None:
                d[which] = [(p, k(), 0) for p in body]
            if other is not None and body is one:
                d['B'] = [(p, k(), 0) for p in other]
            chain.append(d)
        depth = 1 + (one is not None or other is not None or two is not None) + (two is not None)
        return base, chain[:depth]

    def model(self, case, j):
        base, chain = self.expand(case)
        env = j.env()
        e, it = env['e'], env['it']

        def items(seq, level, name):
            return ''.join(item(p, level, name) for p in seq)

        def block(name, level):
            while level >= 0 and name not in chain[level]:
                level -= 1
            return items(chain[level][name], level, name)

        def item(p, level, name):
            kind, k, k2 = p
            if kind == 'e':
                return e(k)
            if kind in 'bB':
                return '(%s)' % block(kind, len(chain) - 1)
            if kind == 'p':
                return block(name, level - 1)
            if kind == 'i':
                return '[%s]' % e(901)
            if kind == 'f':
                a = e(k)
                return '%s/%s' % (a, e(902))
            if kind == 'm':
                a = e(k)
                return '%s:%s' % (a, e(904))
            if kind == 'l':
                out = ''
                for w in it(k):
                    out += w + '[%s]' % e(901)
                return out
        return items(base, 0, None)

    def sources(self, case, text):
        base, chain = self.expand(case)

        def items(seq, top):
            return ''.join(item(p, top) for p in seq)

        def item(p, top):
            kind, k, k2 = p
            if kind == 'e':
                return '${e(%d)}' % k
            if kind == 'p':
                return '${parent_block()}'
            if kind == 'f':
                return '${f(e(%d))}' % k
            if kind == 'm':
                return ('{%%import "m"%%}${m.g(e(%d))}' if text else '<py:import href="m"/>${m.g(e(%d))}') % k
            if kind == 'i':
                return '{%include "i"%}' if text else '<py:include href="i"/>'
            if kind == 'l':
                return ('{%%for w in it(%d)%%}$w{%%include "i"%%}{%%end%%}' if text else '<py:for each="w in it(%d)">$w<py:include href="i"/></py:for>') % k
            body = items(chain[0][kind], False)
            return '(%s)' % ('{%%block %s%%}%s{%%end%%}' if text else '<py:block name="%s">%s</py:block>') % (kind, body)
        f = '{%def f(a)%}${a}/${e(902)}{%end%}' if text else '<py:def function="f(a)">${a}/${e(902)}</py:def>'
        out = {'t0': f + items(base, True), 'i': '[${e(901)}]',
               'm': ('{%def g(a)%}${a}:${e(904)}{%end%}${e(903)}' if text else '<py:nop><py:def function="g(a)">${a}:${e(904)}</py:def>${e(903)}</py:nop>')}
        if not text:
            out['t0'] = '<r>%s</r>' % out['t0']
            out['i'] = '<py:nop>%s</py:nop>' % out['i']
        for n, d in enumerate(chain[1:], 1):
            body = ''.join(('{%%block %s%%}%s{%%end%%}' if text else '<py:block name="%s">%s</py:block>') % (b, items(s, False)) for b, s in sorted(d.items()))
            # what stands at the top level of a child is evaluated after the layout
            out['t%d' % n] = ('%%extends "t%d"\n%s' if text else '<py:extends href="t%d">%s</py:extends>') % (n - 1, body)
        return out, 't%d' % (len(chain) - 1)

    def describe(self, case):
        return repr(self.sources(case, False)[0])

    def run(self, case, st):
        for text in False, True:
            if any(p is not None and 'p' in p and not case[0].count('b') for p in case[1:3]):
                continue
            sources, name = self.sources(case, text)
            loader = MockLoader(dict((n, (TextTemplate if text else XMLTemplate)(s)) for n, s in sources.items()))
            for _ in range(2):
                want = Journal(0)
                out = self.model(case, want)
                if not text:
                    out = '<r>%s</r>' % out
                got = Journal(0)
                try:
                    res = loader.import_(name)(got.env()).render()
                except Exception as ex:
                    raise Violation('rendering fails: %s: %s' % (type(ex).__name__, str(ex)[:200]), sources=repr(sources))
                st.traces += 1
                st.steps += len(want.log)
                if got.log != want.log:
                    raise Violation('expressions are not evaluated once and in order', sources=repr(sources), expected=repr(want.log), observed=repr(got.log))
                if res != out:
                    raise Violation('output differs from the reference interpretation', sources=repr(sources), expected=out, observed=res)
                outcome(st, (tuple(want.log), res))


class Modules(Space):
    name = 'module-level Python blocks'
    bound = ('all sequences of up to 4 of 5 parts (module-level block, local block, function, block of the template, expression); they run once, in order, when the '
             'template is compiled, whatever is rendered afterwards; markup and text')
    PARTS = 'mlfbe'

    def cases(self, tier):
        for n in range(1, 5):
            for c in itertools.product(self.PARTS, repeat=n):
                if 'm' in c:
                    yield ''.join(c)

    def run(self, case, st):
        for text in False, True:
            j = Journal(0)
            source, once, each, out = '', [], [], ''
            for i, p in enumerate(case):
                if p == 'm':
                    source += ('%%py%% m%d = __import__("mc_c23_journal").e(%d)\n' if text else '<?py %%m%d = __import__("mc_c23_journal").e(%d) ?>') % (i, i)
                    once.append(i)
                elif p == 'l':
                    source += ('%%py l%d = e(%d)\n' if text else '<?py l%d = e(%d) ?>') % (i, i)
                    each.append(i)
                elif p == 'f':
                    source += ('{%%def f%d()%%}${e(%d)}{%%end%%}${f%d()}\\\n' if text else '<py:def function="f%d()">${e(%d)}</py:def>${f%d()}') % (i, i, i)
                    each.append(i)
                elif p == 'b':
                    source += ('{%%block b%d%%}${e(%d)}{%%end%%}\\\n' if text else '<py:block name="b%d">${e(%d)}</py:block>') % (i, i)
                    each.append(i)
                else:
                    source += ('${e(%d)}\\\n' if text else '${e(%d)}') % i
                    each.append(i)
            if not text:
                source = '<r>%s</r>' % source
            sys.modules['mc_c23_journal'] = types.SimpleNamespace(**j.env())
            tpl = (TextTemplate if text else XMLTemplate)(source, base_globals=j.env())
            want = list(once)
            for step in range(4):
                st.traces += 1
                st.steps += len(case)
                if j.log != want:
                    raise Violation('Python blocks do not run once', source=source, expected=repr(want), observed=repr(j.log), renderings=step)
                tpl().render()
                want += each
            outcome(st, tuple(want))


def spaces():
    return [Modules(), Rebinding(), Composition(), Text(), Markup()]


ASSUMPTIONS = ['default values of template functions are evaluated when the template is compiled (see C06) and are not recorded',
               'the result of a template function is written where it is called; only the order of expressions is judged, not when output is produced']
