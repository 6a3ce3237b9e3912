"""C10: inheritance resolves blocks and functions child-first.

Model: a chain of templates, level 0 the root, the last one is rendered.  Each level owns
functions (blocks are functions that are also called where they stand, except at the top level of a
child).  A reference resolves by scanning the levels downwards, starting at

    name, self.name   the rendered template          local.name   the level where it is written
    parent.name, parent_block()   one level down      child.name   one level up
"""
import itertools
import os
import shutil
import tempfile

from mc import core, sizes
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader, FileLoader  # noqa: E402


class Out(Exception):
    """Outside of the space: a reference to nothing or an endless recursion."""


# items: 'text' | ('c', scope, name, arg) | ('pb',) | ('b', name, items) | ('for', items) | ('if', items)
#        | ('v',) value of c

def own(spec):
    """name -> items of all functions of one template."""
    table = {}

    def nested(items):
        for it in items:
            if isinstance(it, tuple) and it[0] == 'b':
                nested(it[2])
                table['b:' + it[1]] = it[2]
            elif isinstance(it, tuple) and it[0] in ('for', 'if'):
                nested(it[1])
    for kind, name, items in spec['defs']:
        nested(items)
        table[('b:' if kind == 'block' else '') + name] = items
    nested(spec.get('main', ()))
    return table


class Model(object):
    def __init__(self, chain, ctx):
        self.chain, self.ctx = chain, ctx
        self.tables = [own(s) for s in chain]
        self.steps = 0

    def render(self):
        return self.run(0, self.chain[0]['main'], None)

    def find(self, name, level):
        while level >= 0:
            if name in self.tables[level]:
                return level, self.tables[level][name]
            level -= 1
        raise Out()

    def start(self, scope, level):
        top = len(self.chain) - 1
        if scope in ('', 'self'):
            return top
        if scope == 'local':
            return level
        if scope == 'parent':
            if level == 0:
                raise Out()
            return level - 1
        if level == top:
            raise Out()
        return level + 1

    def run(self, level, items, fname, depth=0):
        if depth > 12:
            raise Out()
        out = []
        for it in items:
            self.steps += 1
            if isinstance(it, str):
                out.append(it)
                continue
            k = it[0]
            if k == 'v':
                out.append(str(self.ctx['c']))
            elif k == 'a':
                out.append('q23')
            elif k == 'c':
                lvl, body = self.find(it[2], self.start(it[1], level))
                out.append(self.run(lvl, body, it[2], depth + 1))
            elif k == 'pb':
                if level == 0:
                    raise Out()
                lvl, body = self.find(fname, level - 1)
                out.append(self.run(lvl, body, fname, depth + 1))
            elif k == 'b':
                lvl, body = self.find('b:' + it[1], len(self.chain) - 1)
                out.append(self.run(lvl, body, 'b:' + it[1], depth + 1))
            elif k == 'for':
                for _ in range(2):
                    out.append(self.run(level, it[1], fname, depth))
            elif k == 'if':
                if self.ctx['c']:
                    out.append(self.run(level, it[1], fname, depth))
        return ''.join(out)


def ref(it):
    name = it[2]
    name = '_kj_block_' + name[2:] if name.startswith('b:') else name
    args = '' if it[2].startswith('b:') else "'q', z=3"
    return '${%s%s(%s)}' % (it[1] + '.' if it[1] else '', name, args)


class Xml(object):
    ext = 'xml'
    opts = {}

    def items(self, items):
        out = []
        for it in items:
            if isinstance(it, str):
                out.append(it)
            elif it[0] == 'v':
                out.append('$c')
            elif it[0] == 'a':
                out.append('$x$y$z')
            elif it[0] == 'c':
                out.append(ref(it))
            elif it[0] == 'pb':
                out.append('${parent_block()}')
            elif it[0] == 'b':
                out.append(self.block(it[1], it[2]))
            elif it[0] == 'for':
                out.append('<py:for each="i in (1, 2)">%s</py:for>' % self.items(it[1]))
            elif it[0] == 'if':
                out.append('<py:if test="c">%s</py:if>' % self.items(it[1]))
        return ''.join(out)

    def block(self, name, items):
        return '<py:block name="%s">%s</py:block>' % (name, self.items(items))

    def deff(self, name, items):
        return '<py:def function="%s(x, y=2, z=1)">%s</py:def>' % (name, self.items(items))

    def source(self, spec, parent):
        defs = ''.join(self.block(n, i) if k == 'block' else self.deff(n, i) for k, n, i in spec['defs'])
        if parent is None:
            return '<d>%s%s</d>' % (defs, self.items(spec['main']))
        return '<py:extends href="%s">%s</py:extends>' % (parent, defs)

    def compile(self, source):
        return XMLTemplate(source, **self.opts)

    def root(self, text):
        return '<d>%s</d>' % text


class XmlAttr(Xml):
    """Directives as attributes (on an element that is stripped)."""
    def block(self, name, items):
        return '<i py:block="%s" py:strip="">%s</i>' % (name, self.items(items))

    def deff(self, name, items):
        return '<i py:def="%s(x, y=2, z=1)" py:strip="True">%s</i>' % (name, self.items(items))


class XmlAuto(Xml):
    opts = dict(autoblocks=['A', 'B', 'C'])

    def block(self, name, items):
        return '<%s>%s</%s>' % (name, self.items(items), name)


class Text(object):
    ext = 'txt'

    def __init__(self, line):
        self.line = line

    def tag(self, s):
        return '%' + s + '\n' if self.line else '{%' + s + '%}'

    def items(self, items):
        out = []
        for it in items:
            if isinstance(it, str):
                out.append(it)
            elif it[0] == 'v':
                out.append('$c')
            elif it[0] == 'a':
                out.append('$x$y$z')
            elif it[0] == 'c':
                out.append(ref(it))
            elif it[0] == 'pb':
                out.append('${parent_block()}')
            elif it[0] == 'b':
                out.append(self.wrap('block ' + it[1], it[2]))
            elif it[0] == 'for':
                out.append(self.wrap('for i in (1, 2)', it[1]))
            elif it[0] == 'if':
                out.append(self.wrap('if c', it[1]))
        return ''.join(out)

    def wrap(self, tag, items):
        if self.line:
            # a backslash joins the lines, so the same text comes out
            return '\\\n%' + tag + '\n' + self.items(items) + '\\\n%end\n'
        return '{%' + tag + '%}' + self.items(items) + '{%end%}'

    def source(self, spec, parent):
        defs = ''.join(self.wrap('%s %s' % (k, n + ('(x, y=2, z=1)' if k == 'def' else '')), i) for k, n, i in spec['defs'])
        if parent is None:
            return '-' + defs + self.items(spec['main']) + '-'
        return self.tag('extends "%s"' % parent) + defs

    def compile(self, source):
        return TextTemplate(source)

    def root(self, text):
        return '-%s-' % text


DIALECTS = [Xml(), Text(False), XmlAttr(), Text(True), XmlAuto()]
_cache = {}


def compiled(dialect, source):
    k = dialect, source
    if k not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = DIALECTS[dialect].compile(source)
    return _cache[k]


def run_chain(chain, dialects, st, ctxs=({'c': 1},), fresh=False):
    wants = []
    for ctx in ctxs:
        m = Model(chain, ctx)
        try:
            wants.append((ctx, m.render()))
        except Out:
            continue
        st.steps += m.steps
    if not wants:
        st.skipped += 1
        return False
    sources = []
    for k, spec in enumerate(chain):
        d = DIALECTS[dialects[k]]
        sources.append(d.source(spec, 't%d' % (k - 1) if k else None))
    show = '\n'.join('t%d: %s' % x for x in enumerate(sources))
    if fresh:
        _cache.clear()
    try:
        mods = dict(('t%d' % k, compiled(dialects[k], s)) for k, s in enumerate(sources))
    except Exception as e:
        raise Violation('a valid template does not compile: %s: %s' % (type(e).__name__, str(e)[:300]),
                        source=show)
    loader = MockLoader(mods)
    for ctx, want in wants:
        want = DIALECTS[dialects[0]].root(want)
        st.traces += 1
        try:
            got = loader.import_('t%d' % (len(chain) - 1))(dict(ctx)).render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:300])
        if got != want:
            raise Violation('output differs from the reference resolution', source=show, context=repr(ctx),
                            expected=want, observed=got)
        outcome(st, got)
    return True


def C(scope, name):
    return ('c', scope, name)


SCOPES = ['', 'self', 'local', 'parent', 'child']

# How a level may define block A, block B and functions f and g ('@' becomes the level)
A_OPTS = [None, ['A@'], ['A@(', ('pb',), ')']] + [['A@', C(s, 'f')] for s in SCOPES] + [
    ['A@', ('b', 'B', ['n@'])], ['A@', C('', 'g')], ['A@', C('parent', 'b:A'), ('v',)],
    ['A@', ('b', 'B', ['n@', ('pb',)])], ['A@', ('pb',), ('pb',)], ['A@', C('self', 'b:B')]]
F_OPTS = [None, ['f@', ('a',)], ['f@', C('parent', 'f')], ['f@', C('', 'g')], ['f@', C('local', 'g')],
          ['f@', C('self', 'g')], ['f@', C('child', 'g')], ['f@', C('parent', 'g')]]
B_OPTS = [None, ['B@'], ['B@', ('pb',)]]
G_OPTS = [None, ['g@', ('a',)], ['g@', C('parent', 'g')]]
LAYOUTS = [
    [('b', 'A', ['r'])],
    [('b', 'A', ['r']), C('', 'f')],
    [C('self', 'f'), ('b', 'A', [C('', 'f')])],
    [('b', 'A', ['r', ('b', 'B', ['s'])]), C('local', 'f')],
    [C('child', 'f'), ('b', 'A', ['r'])],
    [('for', [('b', 'A', ['r', ('v',)])]), ('if', [('b', 'B', ['s'])])],
    [('b', 'A', ['r', C('local', 'f'), C('self', 'f')]), ('b', 'B', [C('child', 'g')])],
    [('b', 'A', [C('', 'g')]), C('self', 'b:A')],
]


def at(items, k):
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(it.replace('@', str(k)))
        elif it[0] == 'b':
            out.append(('b', it[1], at(it[2], k)))
        elif it[0] in ('for', 'if'):
            out.append((it[0], at(it[1], k)))
        else:
            out.append(it)
    return out


def level(k, layout, a, b, f, g):
    defs = []
    if a is not None and layout is None:
        defs.append(('block', 'A', at(a, k)))
    nested_b = a is not None and any(isinstance(i, tuple) and i[0] == 'b' for i in a)
    if b is not None and not nested_b:
        defs.append(('block', 'B', at(b, k)))
    if f is not None:
        defs.append(('def', 'f', at(f, k)))
    if g is not None:
        defs.append(('def', 'g', at(g, k)))
    spec = dict(defs=defs)
    if layout is not None:
        spec['defs'] = [d for d in defs if d[0] == 'def']
        spec['main'] = at(layout, k)
    return spec


class Chains(Space):
    case_timeout = 120

    def describe(self, case):
        chain = self.chain(case)
        return repr([(s['defs'], s.get('main')) for s in chain])

    def chain(self, case):
        root, levels, dia = case
        chain = [level(0, LAYOUTS[root[0]], None, None, F_OPTS[root[1]], G_OPTS[root[2]])]
        for k, (a, b, f, g) in enumerate(levels):
            chain.append(level(k + 1, None, A_OPTS[a], B_OPTS[b], F_OPTS[f], G_OPTS[g]))
        return chain

    def run(self, case, st):
        root, levels, dia = case
        chain = self.chain(case)
        for d in dia:
            if len(d) < len(chain):
                d = d + (d[-1],) * (len(chain) - len(d))
            if any(DIALECTS[x].ext == 'xml' and DIALECTS[x].opts for x in d) and any(
                    ('b' == i[0]) for s in chain for i in refs(s)):
                pass
            run_chain(chain, d, st, ({'c': 1}, {'c': 0}) if root[0] == 5 else ({'c': 1},))


def refs(spec):
    for k, n, items in spec['defs']:
        for i in items:
            if isinstance(i, tuple):
                yield i


ALLD = ((0,), (1,), (2,), (3,), (4,))


class Two(Chains):
    name = 'chains of two'
    bound = ('all %d root layouts x root functions x all ways (%d x %d x %d x %d) a child defines blocks A, B and functions '
             'f, g; in 5 spellings (XML elements, XML attributes, autoblocks, text braces, text lines)' % (
                 len(LAYOUTS), len(A_OPTS), len(B_OPTS), len(F_OPTS), len(G_OPTS)))

    def cases(self, tier):
        for lay in range(len(LAYOUTS)):
            for rf in (0, 1, 3) if tier == 'quick' else range(len(F_OPTS)):
                for rg in (0, 1):
                    yield (lay, rf, rg), (), ALLD
                    for a in range(len(A_OPTS)):
                        for b in range(len(B_OPTS)):
                            for f in range(len(F_OPTS)):
                                for g in range(len(G_OPTS)):
                                    yield (lay, rf, rg), ((a, b, f, g),), ((0,), (1,)) if (
                                        a + b + f + g) % 3 or tier == 'quick' and (b or g > 1) else ALLD


class Three(Chains):
    name = 'chains of three'
    bound = ('chains of 3: root layouts x all A options on both levels x (B, f, g) options out of a smaller set, XML and text '
             'and mixed')

    def cases(self, tier):
        small = [(0, 0, 0), (0, 1, 0), (1, 0, 1), (2, 2, 0), (0, 0, 2)]
        if tier != 'quick':
            small = list(itertools.product(range(3), (0, 1, 2, 4), range(3)))
        for lay in range(len(LAYOUTS)):
            for rf, rg in ((0, 0), (1, 1), (3, 1)):
                for a1 in range(len(A_OPTS)):
                    for a2 in range(len(A_OPTS)):
                        for s1 in small:
                            for s2 in small:
                                yield (lay, rf, rg), ((a1,) + s1, (a2,) + s2), (
                                    ((0,),) if (a1 + a2) % 2 else ((1,),)) if tier == 'quick' else ((0,), (1,), (0, 1, 0))


class Four(Chains):
    name = 'chains of four'
    bound = 'chains of 4 over 7 (thorough: 12) combined options per level, 4 root layouts'
    LV = [(0, 0, 0, 0), (1, 0, 0, 0), (2, 2, 0, 0), (3, 0, 2, 1), (8, 0, 1, 0), (5, 1, 0, 2), (6, 0, 4, 0),
          (7, 0, 1, 1), (11, 0, 0, 0), (12, 1, 3, 0), (9, 0, 0, 2), (10, 2, 6, 1)]

    def cases(self, tier):
        lv = self.LV[:7] if tier == 'quick' else self.LV
        for lay in (1, 3, 5, 6):
            for rf, rg in ((1, 1), (0, 0)):
                for c in itertools.product(lv, repeat=3):
                    yield (lay, rf, rg), c, ((0,), (1,)) if tier != 'quick' else ((0,),)


class Deep(Chains):
    name = 'long chains'
    bound = 'chains of 5 to 8 levels, every subset of levels overriding block A (through parent_block) and function f'

    def cases(self, tier):
        for n in range(5, 7 if tier == 'quick' else 9):
            for c in itertools.product((0, 1), repeat=n):
                yield (1, 1, 0), tuple((2 if x else 0, 0, 2 if x else 0, 0) for x in c), ((0,), (1,))


class Mixed(Chains):
    name = 'mixed languages'
    bound = 'chains of 2 and 3 over every assignment of 4 spellings to the levels'

    def cases(self, tier):
        opts = [(1, 0, 0, 0), (2, 0, 2, 0), (8, 0, 1, 1), (3, 1, 3, 1)]
        for lay in (1, 3):
            for o in opts:
                yield (lay, 1, 1), (o,), tuple(itertools.product(range(4), repeat=2))
                for o2 in opts:
                    yield (lay, 1, 1), (o, o2), tuple(itertools.product(range(4), repeat=3))


def rename(x, names):
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [rename(i, names) for i in x]
    if x[0] == 'c':
        n = x[2]
        return ('c', x[1], 'b:' + names.get(n[2:].upper(), n[2:]) if n.startswith('b:') else names.get(n, n)) + x[3:]
    if x[0] == 'b':
        return ('b', names.get(x[1], x[1]), rename(x[2], names))
    if x[0] in ('for', 'if'):
        return (x[0], rename(x[1], names))
    return x


class Names(Chains):
    name = 'names'
    FUN = ['f', '_f', '_F_', 'F', 'f1', 'A', 'body', 'id', 'len', 'str', 'list', 'type', 'name', 'title', 'block', 'main', 'template', 'x',
           'parent_', 'child_block', 'extends', 'kj', '_kj', 'g_', 'call', 'caller', 'switch', 'print']
    BLOCK = ['A', 'a', '_a', 'a_b', '1', 'title', 'class', 'main', 'f', 'body', 'block', 'parent', 'self', '__', 'if', 'None', 'A1', 'A_B']
    bound = ('%d names of functions and %d names of blocks (capitals, underscores, digits, builtins, key words, equal names) in chains of two and three, '
             'overridden on each level or not; 4 spellings' % (len(FUN), len(BLOCK)))

    def cases(self, tier):
        opts = [(0, 0, 0, 0), (1, 0, 1, 0), (2, 0, 2, 0), (0, 0, 1, 0), (3, 0, 0, 0)]
        for f in range(len(self.FUN)):
            for b in range(len(self.BLOCK)):
                if f and b and tier == 'quick' and (f + b) % 4:
                    continue
                for lay in (1, 2):
                    for o in opts:
                        for o2 in opts:
                            yield (lay, 1, 0), (o, o2), ((0,), (1,), (2,), (3,)), (f, b)

    def chain(self, case):
        names = {'f': self.FUN[case[3][0]], 'A': self.BLOCK[case[3][1]]}
        chain = super(Names, self).chain(case[:3])
        out = []
        for spec in chain:
            new = dict(spec, defs=[(k, names.get(n, n), rename(i, names)) for k, n, i in spec['defs']])
            if 'main' in spec:
                new['main'] = rename(spec['main'], names)
            out.append(new)
        return out

    def run(self, case, st):
        chain = self.chain(case)
        for d in case[2]:
            run_chain(chain, d + d[-1:] * 2, st)


class Family(Space):
    """Two children of one parent and a grandchild, rendered in every order."""
    name = 'orders of rendering'
    bound = ('a root, two siblings and a grandchild (of each sibling kind), all sequences of 3 (thorough: 4) renderings; '
             'every result must be the one obtained in isolation; fresh classes per sequence')

    def cases(self, tier):
        for d in (0, 1):
            for opt in range(4):
                for seq in itertools.product(range(4), repeat=3 if tier == 'quick' else 4):
                    yield d, opt, seq

    def run(self, case, st):
        d, opt, seq = case
        dia = DIALECTS[d]
        root = level(0, LAYOUTS[3 if opt % 2 else 1], None, None, F_OPTS[1], G_OPTS[1])
        s1 = level(1, None, A_OPTS[2], B_OPTS[1], F_OPTS[2], None)
        s2 = level(2, None, A_OPTS[8 if opt & 2 else 1], None, F_OPTS[3], G_OPTS[2])
        g = level(3, None, A_OPTS[2], None, None, G_OPTS[1])
        chains = [[root], [root, s1], [root, s2], [root, s1 if opt & 1 else s2, g]]
        names = ['r', 's1', 's2', 'g']
        src = dict(r=dia.source(root, None), s1=dia.source(s1, 'r'), s2=dia.source(s2, 'r'),
                   g=dia.source(g, 's1' if opt & 1 else 's2'))
        loader = MockLoader(dict((k, dia.compile(s)) for k, s in src.items()))
        insts = {}
        for i, n in enumerate(seq):
            ctx = {'c': i}
            m = Model(chains[n], ctx)
            want = dia.root(m.render())
            st.steps += m.steps
            inst = loader.import_(names[n])(ctx)
            insts[i] = inst, want
            for j, (x, w) in insts.items():
                if j in (i, 0):
                    got = x.render()
                    st.traces += 1
                    if got != w:
                        raise Violation('rendering %s is affected by what was rendered before' % names[seq[j]],
                                        source=repr(src), context='sequence %r' % ([names[k] for k in seq],),
                                        expected=w, observed=got)
            if ctx != {'c': i}:
                raise Violation('the context was changed', source=repr(src), observed=repr(ctx))
            outcome(st, got)


class Files(Space):
    name = 'file loader'
    bound = 'chains of 2 and 3 written to files and loaded by a FileLoader, rendered in every order'

    def cases(self, tier):
        for lay in range(len(LAYOUTS)):
            for a in range(len(A_OPTS)):
                for a2 in (None, 0, 2, 8):
                    for d in (0, 1, 3):
                        yield lay, a, a2, d

    def run(self, case, st):
        lay, a, a2, d = case
        chain = [level(0, LAYOUTS[lay], None, None, F_OPTS[1], G_OPTS[1]),
                 level(1, None, A_OPTS[a], B_OPTS[2], F_OPTS[2], None)]
        if a2 is not None:
            chain.append(level(2, None, A_OPTS[a2], None, None, G_OPTS[2]))
        dia = DIALECTS[d]
        wants = []
        for k in range(len(chain)):
            try:
                wants.append(dia.root(Model(chain[:k + 1], {'c': 1}).render()))
            except Out:
                wants.append(None)
        tmp = tempfile.mkdtemp(prefix='mc-c10-')
        try:
            names = ['t%d.%s' % (k, dia.ext) for k in range(len(chain))]
            srcs = []
            for k, spec in enumerate(chain):
                srcs.append(dia.source(spec, names[k - 1] if k else None))
                with open(os.path.join(tmp, names[k]), 'w') as f:
                    f.write(srcs[-1])
            for order in itertools.permutations(range(len(chain))):
                loader = FileLoader(tmp)
                for k in order:
                    if wants[k] is None:
                        continue
                    st.traces += 1
                    st.steps += 1
                    try:
                        got = loader.import_(names[k])({'c': 1}).render()
                    except Exception as e:
                        got = '%s: %s' % (type(e).__name__, e)
                    if got != wants[k]:
                        raise Violation('%s rendered in the order %r' % (names[k], order), source='\n'.join(srcs),
                                        expected=wants[k], observed=got)
                    outcome(st, got)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def spaces():
    return [sizes.Sizes(sizes.C10), Two(), Three(), Four(), Deep(), Mixed(), Names(), Family(), Files()]


ASSUMPTIONS = ['children contain only definitions at their top level',
               'template classes are shared between cases of one worker (as in an application)']
