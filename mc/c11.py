"""C11: included and imported templates act as self-contained parts.

Model: rendering is a recursive function of (template, context); an include inserts the rendering of
the other template with the same context, an import binds its functions to an alias.  Every
template of a graph defines the same names (function f, function h, block B), so that any mixing-up of
the templates changes the output.
"""
import itertools
import os
import shutil
import tempfile

from mc import core, sizes
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader, FileLoader  # noqa: E402


# --- programs -----------------------------------------------------------------------------
# items: 'text', ('v', name), ('inc', t), ('imp', t, alias or None), ('call', 'f' or 'alias.f'),
#        ('for', items), ('if', items), ('else', items), ('sw', items), ('with', items),
#        ('block', name, items), ('def', name, items)  [defined and called twice], ('body', items), ('py',)

class Inst(object):
    def __init__(self, model, name):
        self.model, self.name, self.aliases = model, name, {}


class Model(object):
    def __init__(self, graph, ctx):
        self.graph, self.ctx, self.steps = graph, ctx, 0

    def main(self, name):
        return self.wrap(name, self.run(Inst(self, name), self.graph[name]['main'], {}))

    def wrap(self, name, text):
        return self.graph[name]['pre'] + text + self.graph[name]['post']

    def run(self, inst, items, loc):
        out = []
        spec = self.graph[inst.name]
        for it in items:
            self.steps += 1
            if isinstance(it, str):
                out.append(it)
                continue
            k = it[0]
            if k == 'v':
                out.append(str(loc.get(it[1], self.ctx.get(it[1]))))
            elif k == 'inc':
                out.append(self.main(it[1]))
                inst.aliases[base(it[1])] = Inst(self, it[1])
            elif k == 'imp':
                inst.aliases[it[2] or base(it[1])] = Inst(self, it[1])
            elif k == 'call':
                if '.' in it[1]:
                    alias, f = it[1].split('.')
                    target = inst.aliases[alias]
                else:
                    target, f = inst, it[1]
                out.append(self.run(target, self.graph[target.name]['defs'][f], {}))
            elif k == 'for':
                for i in (1, 2):
                    out.append(self.run(inst, it[1], dict(loc, i=i)))
            elif k in ('if', 'else', 'sw'):
                out.append(self.run(inst, it[1], loc))
            elif k == 'with':
                out.append(self.run(inst, it[1], dict(loc, y='W')))
            elif k == 'block':
                out.append(self.run(inst, it[2], {}))
            elif k == 'def':
                out.append(self.run(inst, it[2], {}) * 2)
            elif k == 'body':
                out.append('<' + self.run(inst, it[1], loc) * 2 + '>')
            elif k == 'py':
                loc['x'] = 'P'
        return ''.join(out)


def base(name):
    return os.path.splitext(os.path.basename(name))[0]


class Xml(object):
    ext = 'xml'

    def items(self, items):
        return ''.join(x if isinstance(x, str) else getattr(self, 'i_' + x[0])(*x[1:]) for x in items)

    def i_v(self, n):
        return '$' + n

    def i_inc(self, t):
        return '<py:include href="%s"/>' % t

    def i_imp(self, t, alias):
        return '<py:import href="%s"%s/>' % (t, ' alias="%s"' % alias if alias else '')

    def i_call(self, f):
        return '${%s()}' % f

    def i_for(self, items):
        return '<py:for each="i in (1, 2)">%s</py:for>' % self.items(items)

    def i_if(self, items):
        return '<py:if test="x">%s</py:if>' % self.items(items)

    def i_else(self, items):
        return '<py:if test="not x">n</py:if><py:else>%s</py:else>' % self.items(items)

    def i_sw(self, items):
        return '<py:switch test="x"><py:case value="x">%s</py:case></py:switch>' % self.items(items)

    def i_with(self, items):
        return '<py:with vars="y=\'W\'">%s</py:with>' % self.items(items)

    def i_block(self, name, items):
        return '<py:block name="%s">%s</py:block>' % (name, self.items(items))

    def i_def(self, name, items):
        return '<py:def function="%s()">%s</py:def>${%s()}${%s()}' % (name, self.items(items), name, name)

    def i_body(self, items):
        return ('<py:def function="kk(c)">&lt;${c()}${c()}&gt;</py:def>'
                '<py:call args="" function="kk(%%caller)">%s</py:call>' % self.items(items))

    def i_py(self):
        return "<?py x = 'P' ?>"

    def source(self, name, spec):
        defs = ''.join('<py:def function="%s()">%s</py:def>' % (f, self.items(b))
                       for f, b in sorted(spec['defs'].items()))
        return '<%s>%s%s</%s>' % (base(name), defs, self.items(spec['main']), base(name))

    def frame(self, name, spec):
        spec['pre'], spec['post'] = '<%s>' % base(name), '</%s>' % base(name)

    def compile(self, s):
        return XMLTemplate(s)

    def fix(self, want):
        return want.replace('<<', '&lt;<').replace('>>', '>&gt;')


class Text(Xml):
    ext = 'txt'

    def tag(self, name, items):
        return '{%%%s%%}%s{%%end%%}' % (name, self.items(items))

    def i_inc(self, t):
        return '{%%include "%s"%%}' % t

    def i_imp(self, t, alias):
        return '{%%import "%s"%s%%}' % (t, ' as %s' % alias if alias else '')

    def i_for(self, items):
        return self.tag('for i in (1, 2)', items)

    def i_if(self, items):
        return self.tag('if x', items)

    def i_else(self, items):
        return '{%%if not x%%}n{%%else%%}%s{%%end%%}' % self.items(items)

    def i_sw(self, items):
        return '{%%switch x%%}{%%case x%%}%s{%%end%%}' % self.items(items)

    def i_block(self, name, items):
        return self.tag('block ' + name, items)

    def i_def(self, name, items):
        return self.tag('def %s()' % name, items) + '${%s()}${%s()}' % (name, name)

    def i_body(self, items):
        return '{%def kk(c)%}<${c()}${c()}>{%end%}' + self.tag('call() kk(%caller)', items)

    def i_py(self):
        return "{%py x = 'P'%}"

    def source(self, name, spec):
        defs = ''.join(self.tag('def %s()' % f, b) for f, b in sorted(spec['defs'].items()))
        return '(' + defs + self.items(spec['main']) + ')'

    def frame(self, name, spec):
        spec['pre'], spec['post'] = '(', ')'

    def compile(self, s):
        return TextTemplate(s)


class TextLines(Text):
    """Every directive on its own line."""
    def tag(self, name, items):
        return '\\\n%%%s\n%s\\\n%%end\n' % (name, self.items(items))

    def i_inc(self, t):
        return '\\\n%%include "%s"\n' % t

    def i_imp(self, t, alias):
        return '\\\n%%import "%s"%s\n' % (t, ' as %s' % alias if alias else '')

    def i_py(self):
        return "\\\n%py x = 'P'\n"


DIALECTS = [Xml(), Text(), TextLines()]
_cache = {}


def compiled(d, source):
    k = d, source
    if k not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = DIALECTS[d].compile(source)
    return _cache[k]


def prepare(graph, dia):
    """graph: name -> spec; dia: name -> dialect.  Returns sources."""
    src = {}
    for name, spec in graph.items():
        d = DIALECTS[dia[name]]
        d.frame(name, spec)
        src[name] = d.source(name, spec)
    return src


BODYLT = '<', '>'


def expected(graph, dia, ctx, top):
    m = Model(graph, ctx)
    # '<' and '>' of the function kk are escaped in XML source and output
    out = m.main(top)
    return out, m.steps


def verify(graph, dia, st, top='m', ctx=None):
    ctx = dict(ctx or {'x': 'X', 'y': 'Y'})
    src = prepare(graph, dia)
    want, steps = expected(graph, dia, ctx, top)
    st.steps += steps
    show = '\n'.join('%s: %s' % x for x in sorted(src.items()))
    try:
        loader = MockLoader(dict((n, compiled(dia[n], s)) for n, s in src.items()))
    except Exception as e:
        raise Violation('a valid template does not compile: %s: %s' % (type(e).__name__, str(e)[:300]), source=show)
    given = dict(ctx)
    try:
        inst = loader.import_(top)(given)
        got = inst.render()
        again = inst.render() if st.traces % 16 == 0 else got
    except Exception as e:
        got = again = '%s: %s' % (type(e).__name__, str(e)[:300])
    st.traces += 1
    for g in (got, again):
        if norm(g) != norm(want):
            raise Violation('output differs from the reference composition', source=show, context=repr(ctx),
                            expected=want, observed=g)
    if given != ctx:
        raise Violation('the context of the caller was changed', source=show, expected=repr(ctx), observed=repr(given))
    outcome(st, got)


def norm(s):
    return s.replace('&lt;', '<').replace('&gt;', '>')


def part(name, main, f=None, h=None):
    # A Python block that binds x comes first: Python does not let x be read before it in the same body.
    n = base(name)
    py = [i for i in main if i == ('py',)][:1]
    main = [i for i in main if i != ('py',)]
    return dict(main=py + [n + ':', ('v', 'x')] + main + [('block', 'B', [n + 'B']), ('call', 'f'), ('v', 'x')],
                defs=dict(f=f or [n + 'F', ('v', 'y'), ('call', 'h')], h=h or [n + 'H']))


def inc(t):
    return ('inc', t)


def site_menu(t, alias):
    """Everything a template can do with another one."""
    b = base(t)
    return [
        [inc(t)],
        [('imp', t, None), ('call', b + '.f')],
        [('imp', t, alias), ('call', alias + '.f'), ('call', alias + '.h')],
        [('for', [inc(t), ('v', 'i')])],
        [('if', [inc(t)])],
        [('def', 'u', [inc(t), ('call', 'f')])],
        [('block', 'K', [inc(t), 'k'])],
        [('body', [inc(t), ('call', 'f')])],
        [('sw', [inc(t)])],
        [('else', [inc(t)])],
        [('for', [('imp', t, alias), ('call', alias + '.f')])],
        [('py',), inc(t), ('v', 'x')],
        [inc(t), ('imp', t, None), ('call', b + '.f')],
        [('def', 'u', [('imp', t, alias), ('call', alias + '.f'), ('call', 'f')])],
        [inc(t), inc(t)],
        [('imp', t, alias), inc(t), ('call', alias + '.f'), ('call', 'f')],
        [('block', 'K', [('imp', t, None), ('call', b + '.h'), ('call', 'h')])],
        [('call', 'f'), inc(t), ('call', 'f'), inc(t), ('call', 'h')],
    ]


M_P = site_menu('p', 'z')
M_Q = site_menu('q', 'z2')
P_OPTS = [([], None), ([inc('q')], None), ([], [inc('q'), 'pf']), ([('imp', 'q', 'z'), ('call', 'z.f')], None),
          ([], [('imp', 'q', None), ('call', 'q.f'), ('call', 'h')]), ([('py',), inc('r')], None),
          ([('for', [inc('q')])], None), ([('block', 'K', [inc('r')])], None)]
Q_OPTS = [([], None), ([inc('r')], None), ([('imp', 'r', 'z'), ('call', 'z.h')], [inc('r')]), ([('py',)], None),
          ([('body', [inc('r')])], None)]


def graph_of(m_items, p, q, mdef=None):
    return dict(m=part('m', m_items, mdef), p=part('p', *P_OPTS[p]), q=part('q', *Q_OPTS[q]), r=part('r', [('py',)]))


SAME = [dict(m=d, p=d, q=d, r=d) for d in range(3)]
MIX = [dict(m=0, p=1, q=0, r=2), dict(m=1, p=0, q=2, r=0), dict(m=2, p=0, q=1, r=1)]


class Graphs(Space):
    name = 'include and import graphs'
    bound = ('main template with all pairs out of %d uses of template p and %d of q x %d variants of p x %d variants of q, '
             'which include and import q and r themselves; XML, text braces, text lines, mixed' % (
                 len(M_P), len(M_Q), len(P_OPTS), len(Q_OPTS)))

    def cases(self, tier):
        for p in range(len(P_OPTS)):
            for q in range(len(Q_OPTS)):
                for a in range(len(M_P)):
                    yield a, None, p, q, tuple(range(6))
        for a in range(len(M_P)):
            for b in range(len(M_Q)):
                for p in range(len(P_OPTS)):
                    for q in range(len(Q_OPTS)):
                        n = a + b + p + q
                        yield a, b, p, q, (n % 6,) if tier == 'quick' else tuple(range(6))
                        if tier != 'quick':
                            yield -1 - a, b, p, q, (0, 1, 3)

    def describe(self, case):
        return repr(self.graph(case))

    def graph(self, case):
        a, b, p, q, _ = case
        if b is None:
            return graph_of(M_P[a], p, q)
        first, second = (M_P[a], M_Q[b]) if a >= 0 else (M_Q[b], M_P[-1 - a])
        names = [x for x in (first, second)]
        if any(i[0] in ('def', 'block', 'body') for i in first) and any(
                i[0] in ('def', 'block', 'body') for i in second):
            second = [(i[0], i[1] + '2', i[2]) if i[0] in ('def', 'block') else i for i in second]
            if any(i[0] == 'body' for i in first) and any(i[0] == 'body' for i in second):
                second = [i if i[0] != 'body' else ('if', i[1]) for i in second]
        return graph_of(first + ['-'] + second, p, q)

    def run(self, case, st):
        for d in case[4]:
            dia = (SAME + MIX)[d]
            verify(self.graph(case), dia, st)


class Nested(Space):
    name = 'sites within sites'
    bound = 'includes and imports below every pair of nested constructs (loop, if, else, switch, block, function, call body)'
    WRAP = ['for', 'if', 'else', 'sw', 'block', 'def', 'body', 'with']

    def cases(self, tier):
        for depth in (1, 2, 3):
            for w in itertools.product(self.WRAP, repeat=depth):
                if depth == 3 and tier == 'quick' and w[0] == w[1]:
                    continue
                for what in range(4):
                    yield w, what

    def run(self, case, st):
        w, what = case
        t = [[inc('p')], [('imp', 'p', None), ('call', 'p.f')], [inc('p'), ('call', 'f'), inc('q')],
             [('imp', 'q', 'p'), ('call', 'p.f'), inc('p'), ('v', 'x')]][what]
        n = 0
        if w.count('body') > 1:
            return
        for k in reversed(w):
            n += 1
            if k == 'block':
                t = [('block', 'W%d' % n, t)]
            elif k == 'def':
                t = [('def', 'w%d' % n, t)]
            else:
                t = [(k, t)]
        if 'with' in w and any(x in w[w.index('with'):] for x in ('body', 'def')):
            pass
        for d in range(3):
            if 'with' in w and d:
                continue
            if 'with' in w and 'body' in w and w.index('body') < w.index('with'):
                continue          # known finding of C05: py:with in a call body
            verify(graph_of(t + ['.'] + [('call', 'f'), ('v', 'x')], 1, 1), SAME[d], st)


class Inherit(Space):
    """Includes in blocks of an inheritance chain, and included templates that extend."""
    name = 'includes and inheritance'
    bound = ('an included template extending a layout, included from a layout, from an overriding block and from both, '
             'with colliding block and function names; XML and text')

    def cases(self, tier):
        for d in (0, 1):
            for where in range(8):
                for times in (1, 2):
                    for f in (0, 1):
                        yield d, where, times, f

    def run(self, case, st):
        d, where, times, f = case
        x = d == 0
        def blk(n, s):
            return ('<py:block name="%s">%s</py:block>' if x else '{%%block %s%%}%s{%%end%%}') % (n, s)
        def fn(n, s):
            return ('<py:def function="%s()">%s</py:def>' if x else '{%%def %s()%%}%s{%%end%%}') % (n, s)
        def ext(n, s):
            return ('<py:extends href="%s">%s</py:extends>' if x else '{%%extends "%s"%%}%s') % (n, s)
        def el(n, s):
            return ('<%s>%s</%s>' % (n, s, n))
        def incl(n):
            return ('<py:include href="%s"/>' if x else '{%%include "%s"%%}') % n
        # the included part: pc extends pl
        pl = el('pl', fn('f', 'plf') + blk('A', 'plA') + '${f()}${self.f()}')
        pc = ext('pl', blk('A', 'pcA' + '${parent_block()}') + (fn('f', 'pcf') if f else ''))
        part = '<pl>pcAplA' + ('pcfpcf' if f else 'plfplf') + '</pl>'
        I, P = incl('pc') * times, part * times
        if where == 0:      # in the layout
            src = dict(l=el('l', fn('f', 'lf') + I + blk('A', 'lA') + '${f()}'), c=ext('l', blk('A', 'cA')))
            want = '<l>' + P + 'cAlf</l>'
        elif where == 1:    # in the overriding block
            src = dict(l=el('l', fn('f', 'lf') + blk('A', 'lA') + '${f()}'), c=ext('l', blk('A', 'cA' + I + '${f()}')))
            want = '<l>cA' + P + 'lflf</l>'
        elif where == 2:    # in the block and its parent block
            src = dict(l=el('l', fn('f', 'lf') + blk('A', 'lA' + I) + '${f()}'),
                       c=ext('l', blk('A', 'cA' + I + '${parent_block()}') + fn('f', 'cf')))
            want = '<l>cA' + P + 'lA' + P + 'cf</l>'
        elif where == 3:    # plain template
            src = dict(c=el('c', fn('f', 'cf') + blk('A', 'cA') + I + '${f()}'))
            want = '<c>cA' + P + 'cf</c>'
        elif where == 4:    # in a function of the child called by the layout
            src = dict(l=el('l', fn('f', 'lf') + blk('A', 'lA') + '${f()}'), c=ext('l', fn('f', 'cf' + I)))
            want = '<l>lAcf' + P + '</l>'
        elif where == 5:    # the layout itself is included, too
            src = dict(c=el('c', blk('A', 'cA') + fn('f', 'cf') + I + incl('pl') + '${f()}'))
            want = '<c>cA' + P + '<pl>plAplfplf</pl>cf</c>'
        elif where == 6:    # includes a part that includes the extending part
            src = dict(i=el('i', fn('f', 'if') + I + '${f()}'), c=el('c', fn('f', 'cf') + incl('i') + '${f()}'))
            want = '<c><i>' + P + 'if</i>cf</c>'
        else:               # two chains sharing a layout
            src = dict(c=ext('pl', blk('A', 'cA' + I) + fn('f', 'cf')))
            want = '<pl>cA' + P + 'cfcf</pl>'
        src.update(pl=pl, pc=pc)
        loader = MockLoader(dict((n, DIALECTS[d].compile(s)) for n, s in src.items()))
        st.traces += 2
        st.steps += 2
        for _ in (1, 2):
            try:
                got = loader.import_('c')({'x': 1}).render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:300])
            if got != want:
                raise Violation('output differs from the reference composition', source=repr(src), expected=want,
                                observed=got)
        outcome(st, got)


class Files(Space):
    name = 'file loader'
    bound = ('graphs written to files (with document types in the XML parts, in a sub-folder, XML and text) and loaded by a '
             'FileLoader with reloading on and off; each part also rendered on its own through another loader')
    DT = '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n'

    def cases(self, tier):
        for a in range(len(M_P)):
            for p in range(len(P_OPTS)):
                for d in range(6 if tier != 'quick' else 3):
                    yield a, p, d

    def run(self, case, st):
        a, p, d = case
        dia = (SAME + MIX)[(d * 2) % 6]
        ext = dict((k, DIALECTS[v].ext) for k, v in dia.items())
        sub = {'p': 'lib/' if d % 2 else '', 'm': '', 'q': '', 'r': ''}

        def ren(n):
            return '%s%s.%s' % (sub[n], n, ext[n])

        def rename(items):
            out = []
            for i in items:
                if isinstance(i, str):
                    out.append(i)
                elif i[0] == 'inc':
                    out.append(('inc', ren(i[1])))
                elif i[0] == 'imp':
                    out.append(('imp', ren(i[1]), i[2]))
                elif i[0] in ('block', 'def'):
                    out.append((i[0], i[1], rename(i[2])))
                elif len(i) > 1 and isinstance(i[1], list):
                    out.append((i[0], rename(i[1])))
                else:
                    out.append(i)
            return out
        g = graph_of(M_P[a], p, 1)
        graph = {}
        for n, spec in g.items():
            graph[ren(n)] = dict(main=rename(spec['main']), defs=dict((k, rename(v)) for k, v in spec['defs'].items()))
        dia2 = dict((ren(n), v) for n, v in dia.items())
        src = prepare(graph, dia2)
        tmp = tempfile.mkdtemp(prefix='mc-c11-')
        try:
            os.mkdir(os.path.join(tmp, 'lib'))
            for n, s in src.items():
                with open(os.path.join(tmp, n), 'w') as f:
                    f.write((self.DT if n.endswith('xml') else '') + s)
            ctx = {'x': 'X', 'y': 'Y'}
            for reload in (True, False):
                loader = FileLoader(tmp, reload=reload)
                for top in (ren('m'), ren('m')):
                    want = Model(graph, ctx).main(top)
                    if top.endswith('xml'):
                        want = self.DT + want
                    try:
                        got = loader.import_(top)(dict(ctx)).render()
                    except Exception as e:
                        got = '%s: %s' % (type(e).__name__, str(e)[:300])
                    st.traces += 1
                    st.steps += 1
                    if norm(got) != norm(want):
                        raise Violation('output differs from the reference composition', source=repr(src),
                                        expected=want, observed=got)
                    outcome(st, got)
            for n in graph:
                want = Model(graph, ctx).main(n)
                if n.endswith('xml'):
                    want = self.DT + want
                got = FileLoader(tmp).import_(n)(dict(ctx)).render()
                st.traces += 1
                if norm(got) != norm(want):
                    raise Violation('a part rendered on its own', source=repr(src), expected=want, observed=got)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


class Names(Space):
    name = 'names of parts'
    bound = ('the default alias for every kind of file name (folders, several dots, leading dot, no extension, capitals, '
             'spaces) in both languages, through value_of and as an attribute where it is an identifier; imports next to '
             'other functions, variables and blocks of nearly the same name')
    PARTS = ['p', 'p.xml', 'p.html', 'P.xml', 'p.q.xml', 'p.q', 'd/p.xml', 'd/e/p.xml', 'd.x/p', 'd.x/p.y.z', './p.xml',
             'p-q.xml', 'p_q.xml', 'p q.txt', 'p1.xml', '.p', '.p.xml', 'a/../p.xml', 'pp.xml', 'x.xml.xml', 'e.tar.gz.xml']

    def cases(self, tier):
        for i in range(len(self.PARTS)):
            for d in (0, 1, 2):
                for pd in (0, 1):
                    for j in range(len(self.PARTS)):
                        yield i, d, pd, j

    def run(self, case, st):
        i, d, pd, j = case
        a, b = self.PARTS[i], self.PARTS[j]
        if i != j and base(a) == base(b):
            return
        dl, part = DIALECTS[d], DIALECTS[pd]
        parts = {}
        for k, n in enumerate((a, b)):
            fn = part.i_def('f', [['F1', 'F2'][k]])
            parts[n] = part.compile('<p>%s</p>' % fn if pd == 0 else fn)
        items = dl.i_imp(a, None) + '|' + dl.i_imp(b, None) + '|'
        want = '||'
        for n in (a, b):
            f = 'F2' if n == b else 'F1'
            forms = ['value_of("%s").f' % base(n)]
            if base(n).isidentifier():
                forms += [base(n) + '.f']
            for form in forms:
                items += '${%s()},' % form
                want += f + ','
        s = '<m>' + items + '</m>'
        parts['m'] = dl.compile(s)
        try:
            got = MockLoader(parts).import_('m')({}).render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:300])
        st.traces += 1
        st.steps += 1
        if got.replace('\n', '') != '<m>' + want + '</m>':
            raise Violation('an imported template is not known by the base name of its file', source=s, expected=want, observed=got)
        outcome(st, (a, b))


class Aliases(Space):
    name = 'explicit aliases'
    ALIASES = ['q', 'Q', 'lib', 'Lib', 'libB', '_x', 'x1', 'a_b', 'A_B', 'as', 'p', 'f', 'm', '\xe9t\xe9', 'aVeryLongAliasNameWithManyLetters0123456789']
    PARTS = ['p.xml', 'P.xml', 'd/p.q.xml', 'p q.txt', 'x', 'as', "it's", 'a"b', 'p&q', 'a\\b', '\xe9.xml', 'p#1', 'a;b', '$x']
    bound = ('%d explicit aliases x %d file names x both languages (and both forms of the tag) of the importing template x both of the imported, '
             'with another import of another alias before or after' % (len(ALIASES), len(PARTS)))

    def cases(self, tier):
        for a in range(len(self.ALIASES)):
            for p in range(len(self.PARTS)):
                yield a, p

    def run(self, case, st):
        alias, name = self.ALIASES[case[0]], self.PARTS[case[1]]
        if alias == 'as':
            alias = 'as_'
        q = name.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
        sh = "'" + name.replace("'", "'\"'\"'") + "'"
        imports = [('x', '<py:import href="%s" alias="%s"/>' % (q, alias))]
        imports += [('t', '%%import %s as %s\n' % (sh, alias)), ('b', '{%%import %s as %s%%}' % (sh, alias))]
        for kind, imp in imports:
            other = {'x': '<py:import href="o" alias="other"/>', 't': '%import o as other\n', 'b': '{%import o as other%}'}[kind]
            use = '${%s.f()}${other.f()}' % alias
            for order in (0, 1):
                body = (imp + other if order else other + imp) + use
                s = '<m>%s</m>' % body if kind == 'x' else body
                for pd in (0, 1):
                    f = lambda v: XMLTemplate('<p><py:def function="f()">%s</py:def></p>' % v) if pd else TextTemplate('%%def f()\n%s\n%%end\n' % v)
                    try:
                        l = MockLoader({name: f('F1'), 'o': f('F2'), 'main': (XMLTemplate if kind == 'x' else TextTemplate)(s)})
                        got = l.import_('main')({}).render()
                    except Exception as e:
                        got = '%s: %s' % (type(e).__name__, str(e)[:300])
                    st.traces += 1
                    st.steps += 1
                    if got.replace('\n', '') != ('<m>F1F2</m>' if kind == 'x' else 'F1F2'):
                        raise Violation('an imported template is not known by its alias', source=s, expected='F1F2', observed=got)
        outcome(st, (alias, name))


class Spellings(Space):
    name = 'spellings of names'
    PARTS = ['p', 'p.xml', 'P.xml', 'p.q.xml', 'd/p.xml', 'd.x/p', './p.xml', '/p.xml', 'p q.txt', ' p', 'p ', 'p  q', 'it\'s', 'a"b', 'p&q', 'a\\b', 'p#1', '#p', 'a;b', '$x', '{x}', '%s', '%(a)s',
             'p?q=1', 'p<q', '-', '0', 'None', 'as', 'p as q', 'p,q', '(p)', 'p-q', '\xe9', "'p'", 'p\tq', 'a:b', 'a/../p', 'x' * 300]
    DECOYS = [lambda n: n.strip(), lambda n: n.split()[0] if n.split() else n, lambda n: n.lower(), lambda n: n.swapcase(), lambda n: n.split('/')[-1], lambda n: n.split('.')[0],
              lambda n: n.rsplit('.', 1)[0], lambda n: n.strip('\'"'), lambda n: n.replace('\\', ''), lambda n: n.split('#')[0], lambda n: n.split('?')[0], lambda n: n.split(';')[0],
              lambda n: n.split(',')[0], lambda n: n.lstrip('./'), lambda n: n.replace(' ', ''), lambda n: n + '.xml', lambda n: n + ' ', lambda n: n[:255], lambda n: ' '.join(n.split()),
              lambda n: n.replace('&', '&amp;'), lambda n: n.replace('$', '$$'), lambda n: n.replace('%', '%%'), lambda n: n.encode('ascii', 'ignore').decode()]
    bound = ('%d names of templates (case, folders, dots, spaces, quotes, characters that are special in either language) x include, import with an alias and extend in both '
             'languages (quoted in three ways in text templates), next to templates of nearly the same name' % len(PARTS))

    def cases(self, tier):
        for p in range(len(self.PARTS)):
            for how in ('include', 'import', 'extends'):
                yield p, how

    def run(self, case, st):
        name, how = self.PARTS[case[0]], case[1]
        q = name.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\t', '&#9;')
        forms = [('x', q)]
        forms.append(('t', "'" + name.replace("'", "'\"'\"'") + "'"))
        if not set(name) & set('"\\'):
            forms.append(('t', '"%s"' % name))
        if not set(name) & set('"\\\' \t') and not name.endswith('-'):
            forms.append(('t', name))
        for kind, ref in forms:
            if kind == 'x':
                sources = {'include': ['<m>[<py:include href="%s"/>]</m>'], 'import': ['<m>[<py:import href="%s" alias="z"/>${z.f()}]</m>'],
                           'extends': ['<py:extends href="%s"/>', '<m py:extends="%s"/>']}[how]
            else:
                sources = {'include': ['[{%%include %s%%}]', '[\n%%include %s\n]'], 'import': ['[{%%import %s as z%%}${z.f()}]', '[\n%%import %s as z\n${z.f()}]'],
                           'extends': ['{%%extends %s%%}', '%%extends %s\n']}[how]
            for source in sources:
                s = source % ref
                for pd in (0, 1):
                    def part(v):
                        if how == 'import':
                            return XMLTemplate('<p><py:def function="f()">%s</py:def></p>' % v) if pd else TextTemplate('%%def f()\n%s\n%%end\n' % v)
                        return XMLTemplate('<p>%s</p>' % v) if pd else TextTemplate('<p>%s</p>' % v)
                    parts = {}
                    for d in self.DECOYS:
                        if d(name) != name:
                            parts[d(name)] = part('wrong: %s' % len(parts))
                    parts[name] = part('right')
                    try:
                        parts['main template'] = (XMLTemplate if kind == 'x' else TextTemplate)(s)
                        got = MockLoader(parts).import_('main template')({}).render()
                    except Exception as e:
                        got = '%s: %s' % (type(e).__name__, str(e)[:300])
                    st.traces += 1
                    st.steps += 1
                    want = '[right]' if how == 'import' else '[<p>right</p>]' if how == 'include' else '<p>right</p>'
                    if kind == 'x' and (how != 'extends' or 'py:extends=' in source):
                        want = '<m>%s</m>' % want
                    if got.replace('\n', '') != want:
                        raise Violation('not the template of that name', source=s, context=repr(sorted(parts)), expected=want, observed=got)
        outcome(st, (name, how))


class Chain(Space):
    """Imports and includes in the templates of an inheritance chain, all of them using the same alias."""
    name = 'imports and inheritance'
    SITES = ['l.body', 'l.k', 'l.g', 'm.k', 'c.pre', 'c.k', 'c.g']
    DO = ['', 'as', 'default', 'include']
    bound = ('a layout and one or two templates extending it; at up to 3 (thorough: all) of the sites body, block, function of each and before the extends '
             'the import of a part under an alias, of another part whose default alias is the same, or an include of that part; each template sees the part '
             'it imported last, and an include binds nothing; XML and text, rendered alone or through a template that includes it')

    def cases(self, tier):
        limit = 3 if tier == 'quick' else 7
        for three in (0, 1):
            sites = [i for i, n in enumerate(self.SITES) if three or n[0] != 'm']
            for what in itertools.product(range(len(self.DO)), repeat=len(sites)):
                if sum(1 for w in what if w) > limit:
                    continue
                for d in (0, 1):
                    for outer in (0, 1) if sum(1 for w in what if w) < 3 else (0,):
                        yield three, what, d, outer

    def run(self, case, st):
        three, what, d, outer = case
        x = d == 0
        sites = [n for n in self.SITES if three or n[0] != 'm']
        do = dict(zip(sites, (self.DO[w] for w in what)))
        plain = not any(v in ('as', 'default') for v in do.values())
        have = {}

        def blk(s):
            return ('<py:block name="k">%s</py:block>' if x else '{%%block k%%}%s{%%end%%}') % s

        def fn(s):
            return ('<py:def function="g()">%s</py:def>' if x else '{%%def g()%%}%s{%%end%%}') % s

        def act(site):
            v = do[site]
            if v == 'as':
                have[site[0]] = 'one'
                return ('<py:import href="one.x" alias="z"/>' if x else '{%import "one.x" as z%}'), ''
            if v == 'default':
                have[site[0]] = 'two'
                return ('<py:import href="d/z.x"/>' if x else '{%import "d/z.x"%}'), ''
            if v == 'include':
                return ('<py:include href="d/z.x"/>' if x else '{%include "d/z.x"%}'), '(Z)' if d else '<z>Z</z>'
            return '', ''

        def use(site):
            if plain:
                return '[${z}]', '[Z]'
            if site[0] in have:
                return '[${z.f()}]', '[%s]' % have[site[0]]
            return '', ''

        def seq(site, *inner):
            """Source and output of a site: action, use, then each inner part and a use after it; in the order of execution."""
            parts = [act(site), use(site)]
            for i in inner:
                parts += [i(), use(site)]
            return ''.join(p[0] for p in parts), ''.join(p[1] for p in parts)
        defs = {}

        def block(level):
            def run():
                up = {'c': 'm' if three else 'l', 'm': 'l'}.get(level)
                inner = []
                if up:
                    inner.append(lambda: ('${parent_block()}', block(up)()[1]))
                src, out = seq(level + '.k', *inner)
                defs[level, 'k'] = blk(level + src)
                return '', level + out
            return run

        def func(level):
            def run():
                src, out = seq(level + '.g')
                defs[level, 'g'] = fn(level + src)
                return '${g()}', level + out
            return run
        ext = '<py:extends href="l"/>' if x else '{%extends "l"%}'
        pre, wpre = seq('c.pre')

        def inherited():
            r = block('c')()
            return defs['l', 'k'], r[1]
        # the child overrides g; the function of the layout is called through local
        lg = func('l')
        body, want = seq('l.body', inherited, func('c'), lambda: ('${local.g()}', lg()[1]))
        root = '<l>%s</l>' if x else '(%s)'
        src = {'l': root % (body + defs['l', 'g'])}
        if three:
            src['m'] = root.replace('l', 'm') % (ext + defs['m', 'k'])
        cext = ext.replace('"l"', '"m"') if three else ext
        src['c'] = root.replace('l', 'c') % (pre + cext + defs['c', 'k'] + defs['c', 'g'])
        w = root % want
        if three:
            w = root.replace('l', 'm') % w
        w = root.replace('l', 'c') % (wpre + w)
        part = '<%s><py:def function="f()">%s</py:def>%s</%s>' if x else '{%%def f()%%}%.0s%s{%%end%%}(%s)%.0s'
        src['one.x'] = part % ('o', 'one', 'O', 'o')
        src['d/z.x'] = part % ('z', 'two', 'Z', 'z')
        if outer:
            src['top'] = ('<t><py:import href="one.x" alias="y"/><py:include href="c"/>${y.f()}</t>' if x
                          else '{%import "one.x" as y%}{%include "c"%}${y.f()}')
            w = '<t>%sone</t>' % w if x else w + 'one'
        st.traces += 2
        st.steps += len(sites)
        loader = MockLoader(dict((n, DIALECTS[d].compile(s)) for n, s in src.items()))
        for _ in (1, 2):
            try:
                got = loader.import_('top' if outer else 'c')({'z': 'Z'} if plain else {}).render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:300])
            if got != w:
                raise Violation('imports and includes in an inheritance chain', source=repr(src), expected=w, observed=got)
        outcome(st, got)


def known():
    def probe():
        tmp = tempfile.mkdtemp(prefix='mc-c11-')
        try:
            for n, s in (('p.xml', '<!DOCTYPE html><p/>'), ('m.xml', '<m><py:include href="p.xml"/></m>')):
                with open(os.path.join(tmp, n), 'w') as f:
                    f.write(s)
            loader = FileLoader(tmp)
            loader.import_('p.xml')
            return loader.import_('m.xml')().render() != '<m><p/></m>'
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return [dict(what='a template with a DOCTYPE that was loaded directly before it is included through the same loader '
                 'brings its DOCTYPE along (documented limitation of the loader cache)', probe=probe)]


def spaces():
    return [sizes.Sizes(sizes.C11), Spellings(), Names(), Graphs(), Nested(), Inherit(), Files(), Aliases(), Chain()]


ASSUMPTIONS = ['parts only use their own functions, their own imports and the context',
               'a template with a document type is either always included or always loaded directly by one loader '
               '(known finding otherwise)']
