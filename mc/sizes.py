"""Every dimension of a template counted up one by one: numbers, depths and lengths, with the result in closed form."""
from kajiki import TextTemplate, XMLTemplate
from kajiki.loader import MockLoader

from mc.core import Space, Violation, outcome


class Sizes(Space):
    """DIMENSIONS: {name: (largest in quick, largest in thorough, function of n that gives (templates or source, context, expected))}."""
    name = 'sizes'

    def __init__(self, dimensions, extra=''):
        self.dimensions = dimensions
        self.bound = ('%s: every size from 0 to the stated one: ' % (extra or 'numbers, depths and lengths')
                      + ', '.join('%s (%d; thorough %d)' % (k, v[0], v[1]) for k, v in sorted(dimensions.items())))

    def cases(self, tier):
        for k in sorted(self.dimensions):
            for n in range(self.dimensions[k][0 if tier == 'quick' else 1] + 1):
                yield k, n

    def describe(self, case):
        return '%s: %d' % case

    def run(self, case, st):
        for source, context, want in self.dimensions[case[0]][2](case[1]):
            for again in 0, 1:
                try:
                    got = render(source, context)
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, str(e)[:300])
                st.traces += 1
                st.steps += case[1] + 1
                if got != want:
                    raise Violation('a template of size %d (%s)' % (case[1], case[0]), source=repr(source)[:3000], context=repr(context)[:500],
                                    expected=cut(want, got), observed=cut(got, want))
            outcome(st, (case, want[:100]))


def cut(s, other):
    """The part where the two differ."""
    i = next((k for k in range(min(len(s), len(other))) if s[k] != other[k]), min(len(s), len(other)))
    return s if len(s) < 1000 else '... (%d) %s' % (i, s[max(0, i - 200):i + 400])


def make(source):
    """Text templates are marked by a leading tuple ('text', source)."""
    return TextTemplate(source[1]) if isinstance(source, tuple) else XMLTemplate(source)


def render(source, context):
    if isinstance(source, dict):
        t = MockLoader(dict((k, make(v)) for k, v in source.items())).import_('main')
    else:
        t = make(source)
    return t(dict(context)).render()


def rows(f, n, sep=''):
    return sep.join(f(i) for i in range(n))


# -- C04 ------------------------------------------------------------------------------------------
def cases(n):
    arms = rows(lambda i: '<py:case value="%d">c%d</py:case>' % (i, i), n)
    for pick in sorted({0, n // 2, max(0, n - 1), n}):
        yield '<d><py:switch test="x">%s<py:else>e</py:else></py:switch></d>' % arms, {'x': pick}, '<d>%s</d>' % ('c%d' % pick if pick < n else 'e')


def ifs(n):
    src = rows(lambda i: '<p py:if="x == %d">a%d</p><i py:else="">b%d</i>' % (i, i, i), n)
    for x in (0, n - 1):
        yield '<d>%s</d>' % src, {'x': x}, ('<d>%s</d>' % rows(lambda i: '<p>a%d</p>' % i if i == x else '<i>b%d</i>' % i, n)) if n else '<d/>'


def depth_if(n):
    src = rows(lambda i: '<py:if test="x &gt; %d">%d' % (i, i), n) + rows(lambda i: '</py:if>', n)
    for x in sorted({0, n // 2, n}):
        want = rows(lambda i: str(i) if x > i else '', min(n, x))
        yield '<d>.%s</d>' % src, {'x': x}, '<d>.%s</d>' % want


def depth_for(n):
    src = rows(lambda i: '<py:for each="v%d in l">' % i, n) + '[%s]' % rows(lambda i: '$v%d' % i, n) + rows(lambda i: '</py:for>', n)
    yield '<d>%s</d>' % src, {'l': [7]}, '<d>[%s]</d>' % ('7' * n)


def depth_tags(n):
    src = rows(lambda i: '<b py:if="1">', n) + 'x' + '</b>' * n
    yield '<d>%s</d>' % src, {}, '<d>%s</d>' % ('<b>' * n + 'x' + '</b>' * n)


def depth_switch(n):
    src = rows(lambda i: '<py:switch test="%d"><py:case value="%d">%d' % (i, i, i), n) + rows(lambda i: '</py:case><py:else>no</py:else></py:switch>%d' % (n - 1 - i), n)
    yield '<d>.%s</d>' % src, {}, '<d>.%s</d>' % (rows(str, n) + rows(lambda i: str(n - 1 - i), n))


def items(n):
    yield '<d>.<py:for each="i in range(n)">$i,</py:for></d>', {'n': n * n}, '<d>.%s</d>' % rows(lambda i: '%d,' % i, n * n)


def targets(n):
    if n:
        names = rows(lambda i: 'v%d,' % i, n)
        yield '<d><py:for each="%s in l">%s;</py:for></d>' % (names, rows(lambda i: '$v%d' % i, n)), {'l': [range(n), range(1, n + 1)]}, '<d>%s;%s;</d>' % (
            rows(str, n), rows(lambda i: str(i + 1), n))


C04 = {'cases of a switch': (60, 200, cases), 'conditions in a row': (40, 150, ifs), 'nested conditions': (18, 18, depth_if), 'nested loops': (18, 18, depth_for),
       'nested switches': (9, 9, depth_switch), 'conditions on nested tags': (18, 18, depth_tags), 'items of a loop (squares)': (60, 300, items), 'targets of a loop': (40, 120, targets)}


# -- C05 ------------------------------------------------------------------------------------------
def with_vars(n):
    if n:
        names = ['v%d' % i for i in range(n)]
        src = '<py:with vars="%s">%s</py:with>' % (';'.join('%s=%d' % (k, i) for i, k in enumerate(names)), rows(lambda i: '$v%d,' % i, n))
        probe = rows(lambda i: '$v%d,' % i, n)
        inner, outer = rows(lambda i: '%d,' % i, n), rows(lambda i: 'o%d,' % i, n)
        env = dict((k, 'o%d' % i) for i, k in enumerate(names))
        yield '<d>%s</d>' % (src + probe), env, '<d>%s</d>' % (inner + outer)
        # the names come from an outer py:with, from arguments and from a loop
        out = '<py:with vars="%s">%s%s</py:with>' % (';'.join("%s='o%d'" % (k, i) for i, k in enumerate(names)), src, probe)
        yield '<d>%s%s</d>' % (out, probe), dict((k, 'c') for k in names), '<d>%s</d>' % (inner + outer + 'c,' * n)
        yield '<d><py:def function="f(%s)">%s%s</py:def>${f(%s)}</d>' % (','.join(names), src, probe, ','.join("'o%d'" % i for i in range(n))), {}, '<d>%s</d>' % (inner + outer)
        # each uses the one before
        yield ('<d><py:with vars="%s">$v%d</py:with>$v0</d>' % (';'.join('v%d=%s' % (i, 'v%d+1' % (i - 1) if i else '0') for i in range(n)), n - 1), {'v0': 'o'}, '<d>%do</d>' % (n - 1))


def with_depth(n):
    src = rows(lambda i: ('$x' if i else '') + '<py:with vars="x=%d">' % i, n) + '$x' + rows(lambda i: '</py:with>$x', n)
    seq = ['o'] + [str(i) for i in range(n)]
    yield '<d>%s</d>' % src, {'x': 'o'}, '<d>%s</d>' % ''.join(seq[1:] + seq[-2::-1] if n else seq)
    src = rows(lambda i: '<py:with vars="x=%d"><b a="$x">' % i, n) + '$x' + rows(lambda i: '</b>$x</py:with>', n) + '$x'
    yield ('<d>%s</d>' % src, {'x': 'o'},
           '<d>%s</d>' % (rows(lambda i: '<b a="%d">' % i, n) + (str(n - 1) if n else 'o') + rows(lambda i: '</b>%d' % (n - 1 - i), n) + 'o'))


def with_row(n):
    yield '<d>.%s$x</d>' % rows(lambda i: '<py:with vars="x=%d">$x</py:with>$x' % i, n), {'x': 'o'}, '<d>.%so</d>' % rows(lambda i: '%do' % i, n)


C05 = {'variables': (60, 200, with_vars), 'depth': (40, 100, with_depth), 'blocks in a row': (60, 300, with_row)}


# -- C06 ------------------------------------------------------------------------------------------
def functions(n):
    defs = rows(lambda i: '<py:def function="f%d(x)">%d:$x;</py:def>' % (i, i), n)
    uses = rows(lambda i: '${f%d(%d)}' % (i, n - i), n)
    want = rows(lambda i: '%d:%d;' % (i, n - i), n)
    yield '<d>.%s%s</d>' % (defs, uses), {}, '<d>.%s</d>' % want
    yield '<d>.%s%s</d>' % (uses, defs), {}, '<d>.%s</d>' % want


def chain_calls(n):
    defs = rows(lambda i: '<py:def function="f%d(x)">%d<b a="$x">%s</b></py:def>' % (i, i, '${f%d(x + 1)}' % (i + 1) if i < n - 1 else '.'), n)
    if n:
        yield '<d>%s${f0(0)}</d>' % defs, {}, '<d>%s%s</d>' % (rows(lambda i: '%d<b a="%d">' % (i, i), n), '.' + '</b>' * n)


def inner_defs(n):
    src = rows(lambda i: '<py:def function="f%d(x%d)">' % (i, i), n) + rows(lambda i: '$x%d,' % i, n) + rows(lambda i: '</py:def>${f%d(%d)}' % (n - 1 - i, n - 1 - i), n)
    yield '<d>.%s</d>' % src, {}, '<d>.%s</d>' % rows(lambda i: '%d,' % i, n)


def recursion(n):
    yield '<d><py:def function="f(x)">$x<py:if test="x">(${f(x - 1)})</py:if></py:def>${f(n)}</d>', {'n': n}, '<d>%s0%s</d>' % (rows(lambda i: '%d(' % (n - i), n), ')' * n)


def calls(n):
    src = rows(lambda i: '<py:call args="v%d" function="f(%d, %%caller)">%d' % (i, i, i), n) + rows(lambda i: '$v%d,' % i, n) + rows(lambda i: '</py:call>', n)
    want = ''
    vals = rows(lambda i: '%d,' % i, n)

    def level(i):
        return '[%d%s]' % (i, level(i + 1) if i < n - 1 else vals)
    yield '<d><py:def function="f(i, c)">[${c(i)}]</py:def>.%s</d>' % src, {}, '<d>.%s</d>' % (level(0) if n else '')
    src = rows(lambda i: '<py:call function="f(%d, %%caller)">%d</py:call>' % (i, i), n)
    yield '<d><py:def function="f(i, c)">[$i${c()}${c()}]</py:def>.%s</d>' % src, {}, '<d>.%s</d>' % rows(lambda i: '[%d%d%d]' % (i, i, i), n)


def blocks_py(n):
    src = rows(lambda i: '<?py v%d = %s ?>' % (i, 'v%d + 1' % (i - 1) if i else '0'), n)
    yield '<d>.%s%s</d>' % (src, rows(lambda i: '$v%d' % i, n)), {}, '<d>.%s</d>' % rows(str, n)
    src = '<?py %s ?>' % rows(lambda i: 'v%d = %s\n' % (i, 'v%d + 1' % (i - 1) if i else '0'), n)
    yield '<d>.%s%s</d>' % (src, rows(lambda i: '$v%d' % i, n)), {}, '<d>.%s</d>' % rows(str, n)
    src = rows(lambda i: '<?py %% v%d = %s ?>' % (i, 'v%d + 1' % (i - 1) if i else '0'), n)
    yield '<d>.%s%s</d>' % (rows(lambda i: '$v%d' % i, n), src), {}, '<d>.%s</d>' % rows(str, n)


C06 = {'functions': (60, 200, functions), 'functions that call each other': (40, 100, chain_calls), 'functions in functions': (16, 16, inner_defs), 'recursion': (60, 150, recursion),
       'call blocks': (14, 14, calls), 'Python blocks': (40, 150, blocks_py)}


# -- C07 ------------------------------------------------------------------------------------------
def static_attrs(n):
    names = ['a%03d' % i for i in range(n)]
    yield '<d %s/>' % ' '.join('%s="${x}%d"' % (k, i) for i, k in reversed(list(enumerate(names)))) if n else '<d/>', {'x': 'v'}, '<d%s/>' % rows(lambda i: ' %s="v%d"' % (names[i], i), n)


def dynamic_attrs(n):
    names = ['a%03d' % i for i in range(n)]
    for pairs in (dict((k, i) for i, k in reversed(list(enumerate(names)))), [(k, i) for i, k in reversed(list(enumerate(names)))]):
        yield '<d z="1" py:attrs="p"/>', {'p': pairs}, '<d z="1"%s/>' % rows(lambda i: ' %s="%d"' % (names[i], i), n)


def name_length(n):
    k = 'a' * (n + 1)
    for pairs in ({k: 1, 'b': 2}, {k + 'b': 1, k + 'a': 2}, {k: 1, k + 'a': 2, 'a': None}, {'b' * (n + 1): 1, 'a': 2}, {'aria-' + k: 1, 'b': 2, 'A': 3}):
        yield ('<d py:attrs="p"/>', {'p': pairs}, '<d%s/>' % ''.join(' %s="%s"' % kv for kv in sorted(pairs.items()) if kv[1] is not None))
        yield ('<d %s/>' % ' '.join('%s="%s"' % (a, b) for a, b in sorted(pairs.items(), reverse=True)), {},
               '<d%s/>' % ''.join(' %s="%s"' % kv for kv in sorted(pairs.items())))


def parts(n):
    yield '<d a="%s"/>' % rows(lambda i: '$x%d.' % i, n), dict(('x%d' % i, i) for i in range(n)), '<d a="%s"/>' % rows(lambda i: '%d.' % i, n)
    if n:
        yield '<d a="%s"/>' % rows(lambda i: '$x', n), {'x': None}, '<d/>'
        yield '<d a="%s$y"/>' % rows(lambda i: '$x', n - 1), {'x': None, 'y': 'y'}, '<d a="y"/>'


def value_length(n):
    v = 'a' * n * n
    yield '<d a="%s$x"/>' % v, {'x': v}, '<d a="%s"/>' % (v + v)
    yield '<d py:attrs="{\'a\': x}"/>', {'x': v}, '<d a="%s"/>' % v


def strips(n):
    src = rows(lambda i: '<b a="1" py:strip="x">', n) + '.' + '</b>' * n
    yield '<d>%s</d>' % src, {'x': 1}, '<d>.</d>'
    yield '<d>%s</d>' % src, {'x': 0}, '<d>%s.%s</d>' % ('<b a="1">' * n, '</b>' * n)


C07 = {'attributes': (60, 300, static_attrs), 'attributes of py:attrs': (60, 300, dynamic_attrs), 'length of names': (70, 300, name_length), 'parts of a value': (40, 200, parts),
       'length of a value (squares)': (80, 300, value_length), 'stripped tags': (60, 150, strips)}


# -- C08 ------------------------------------------------------------------------------------------
def exprs(n):
    env = dict(('x%d' % i, i) for i in range(n))
    for s in ('$x%d', '${x%d}', '${x%d}.', '$x%d ', '$$$x%d'):
        src = rows(lambda i: s % i, n)
        want = src
        want = rows(lambda i: {'$x%d': '%d', '${x%d}': '%d', '${x%d}.': '%d.', '$x%d ': '%d ', '$$$x%d': '$%d'}[s] % i, n)
        yield '<d>.%s|</d>' % src, env, '<d>.%s|</d>' % want
        yield '<d a=".%s|"/>' % src, env, '<d a=".%s|"/>' % want
        yield ('text', '.%s|' % src), env, '.%s|' % want


class Chain(object):
    def __init__(self, d):
        self.d = d

    def __getattr__(self, k):
        if k != 'a':
            raise AttributeError(k)
        return Chain(self.d + 1)

    def __str__(self):
        return 'C%d' % self.d


def dotted(n):
    for src in ('<d>$o%s.</d>' % ('.a' * n), '<d>${o%s}.</d>' % ('.a' * n)):
        yield src, {'o': Chain(0)}, '<d>C%d.</d>' % n
    yield ('text', '$o%s.' % ('.a' * n)), {'o': Chain(0)}, 'C%d.' % n


def braces(n):
    for a, b in (('(', ')'), ('[', ']')):
        e = a * n + '1' + b * n
        want = str(eval(e))
        yield '<d>${%s}}</d>' % e, {}, '<d>%s}</d>' % want
        yield ('text', '${%s}}' % e), {}, '%s}' % want
    e = "{'k': " * n + '1' + '}' * n
    want = str(eval(e))
    yield '<d>${%s}}</d>' % e, {}, '<d>%s}</d>' % want
    yield ('text', '${%s}}' % e), {}, '%s}' % want


def length(n):
    e = '+'.join(['1'] * (n * n + 1))
    yield '<d>${%s}</d>' % e, {}, '<d>%d</d>' % (n * n + 1)
    yield ('text', '${%s}' % e), {}, str(n * n + 1)
    e = repr('}' * n * n)
    yield '<d>${%s}</d>' % e, {}, '<d>%s</d>' % ('}' * n * n)
    yield ('text', '${%s}' % e), {}, '}' * n * n
    k = 'n' * (n + 1)
    yield '<d>$%s;${%s}</d>' % (k, k), {k: 1}, '<d>1;1</d>'


C08 = {'expressions': (40, 200, exprs), 'dots': (40, 100, dotted), 'nested brackets': (30, 60, braces), 'length (squares)': (45, 100, length)}


# -- C09 ------------------------------------------------------------------------------------------
def t_cases(n):
    for x in sorted({0, n // 2, n}):
        yield ('text', '%%switch x\n%s%%else\ne\n%%end\n' % rows(lambda i: '%%case %d\nc%d\n' % (i, i), n)), {'x': x}, 'c%d\n' % x if x < n else 'e\n'


def t_depth(n):
    yield ('text', rows(lambda i: '%%if x > %d\n%d\n' % (i, i), n) + '%end\n' * n + '.'), {'x': n}, rows(lambda i: '%d\n' % i, n) + '.'
    yield ('text', rows(lambda i: '{%%for v%d in l%%}' % i, n) + rows(lambda i: '$v%d' % i, n) + '{%end%}' * n + '.'), {'l': [3]}, '3' * n + '.'


def t_row(n):
    yield ('text', rows(lambda i: '%%if x == %d\na\n%%else\nb%d\n%%end\n' % (i, i), n) + '.'), {'x': 0}, rows(lambda i: 'b%d\n' % i if i else 'a\n', n) + '.'
    yield ('text', rows(lambda i: '%%def f%d(x)\n%d$x\n%%end\n' % (i, i), n) + rows(lambda i: '${f%d(1)}' % i, n) + '.'), {}, rows(lambda i: '%d1\n' % i, n) + '.'
    yield ('text', rows(lambda i: '%%py v%d = %d\n' % (i, i), n) + rows(lambda i: '$v%d,' % i, n) + '.'), {}, rows(lambda i: '%d,' % i, n) + '.'
    yield ('text', rows(lambda i: '{%%block b%d%%}%d{%%end%%}' % (i, i), n) + '.'), {}, rows(str, n) + '.'


def t_lines(n):
    yield ('text', rows(lambda i: 'line %d\n' % i, n * n) + '$x'), {'x': 1}, rows(lambda i: 'line %d\n' % i, n * n) + '1'
    yield ('text', 'a' * n * n + '${x}' + 'b' * n * n), {'x': 1}, 'a' * n * n + '1' + 'b' * n * n
    yield ('text', 'a' + '\n' * n + '{%if 1%}' + '\n' * n + '{%end%}' + '\n' * n + '.'), {}, 'a' + '\n' * 3 * n + '.'
    yield ('text', 'a' + ' ' * n + '{%if 1%}' + ' ' * n + '{%end%}' + ' ' * n + '.'), {}, 'a' + ' ' * 3 * n + '.'
    yield ('text', 'a\n' + ' ' * n + '%if 1\nb\n' + ' ' * n + '%end\n.'), {}, 'a\nb\n.'
    yield ('text', 'a\n' + '\n' * n + '%if 1\nb\n%end\n.'), {}, 'a\nb\n.'
    yield ('text', 'a' + '\\\n' * n + '.'), {}, 'a.'
    yield ('text', '\\\\' * n + '.'), {}, '\\' * n + '.'


C09 = {'cases of a switch': (40, 150, t_cases), 'nested directives': (18, 18, t_depth), 'directives in a row': (40, 150, t_row), 'lines, blanks and letters (squares)': (60, 250, t_lines)}


# -- C10 ------------------------------------------------------------------------------------------
def levels(n):
    """A chain of n + 1 templates; what the root defines is used in the last, what the last defines in the root, and half-way."""
    def name(i):
        return 'main' if i == n else 't%d' % i
    for lang in 'x', 't', 'm':
        for at in sorted({0, n // 2, n}):
            mods = {}
            for i in range(n + 1):
                text = lang == 't' or lang == 'm' and i % 2
                items = ''
                if text:
                    o, c, df, bl = '', '', '{%%def %s%%}%s{%%end%%}', '{%%block %s%%}%s{%%end%%}'
                else:
                    o, c, df, bl = '<d>', '</d>', '<py:def function="%s">%s</py:def>', '<py:block name="%s">%s</py:block>'
                if i == 0:
                    items += df % ('f()', 'F') + df % ('g()', 'G0') + bl % ('b', 'B0') + bl % ('e', '${f()}${g()}')
                else:
                    if i == at:
                        items += df % ('g()', 'G%d' % i)
                        items += bl % ('b', 'B%d(${f()}${self.f()}${g()}${parent_block()})' % i)
                mods[name(i)] = ('text', ('%%extends %s\n' % name(i - 1) if i else '') + items) if text else (
                    '<py:extends href="%s">%s</py:extends>' % (name(i - 1), items) if i else o + items + c)
            g = 'G%d' % at
            b = 'B%d(FF%sB0)' % (at, g) if at else 'B0'
            want = b + 'F' + g
            yield mods, {}, want if lang == 't' else '<d>%s</d>' % want
    # every level overrides, calls its parent, and has a function of its own that the last one uses
    mods = {'main' if n == 0 else 't0': '<d><py:def function="f0()">0</py:def><py:block name="b">B0</py:block></d>'}
    for i in range(1, n + 1):
        mods[name(i)] = ('<py:extends href="%s"><py:def function="f%d()">%d</py:def><py:block name="b">B%d(${parent_block()})%s</py:block></py:extends>'
                         % (name(i - 1), i, i, i, rows(lambda k: '${f%d()}' % k, i + 1) if i == n else ''))
    want = 'B0'
    for i in range(1, n + 1):
        want = 'B%d(%s)' % (i, want) + (rows(str, i + 1) if i == n else '')
    yield mods, {}, '<d>%s</d>' % want


def many_blocks(n):
    base = rows(lambda i: '<py:block name="b%d">%d</py:block>' % (i, i), n)
    yield ({'base': '<d>.%s</d>' % base, 'main': '<py:extends href="base">%s</py:extends>' % rows(lambda i: '<py:block name="b%d">[${parent_block()}]</py:block>' % i if i % 3 else '', n)},
           {}, '<d>.%s</d>' % rows(lambda i: '[%d]' % i if i % 3 else str(i), n))
    deep = rows(lambda i: '<py:block name="b%d">%d' % (i, i), n) + '</py:block>' * n
    last = '<py:block name="b%d">!</py:block>' % (n - 1) if n else ''
    yield {'base': '<d>.%s</d>' % deep, 'main': '<py:extends href="base">%s</py:extends>' % last}, {}, '<d>.%s</d>' % (rows(str, n - 1) + '!' if n else '')


C10 = {'templates in a chain': (12, 24, levels), 'blocks': (40, 120, many_blocks)}


# -- C11 ------------------------------------------------------------------------------------------
def includes(n):
    mods = dict(('p%d' % i, '<i>$x<py:def function="f()">f%d</py:def>${f()}</i>' % i) for i in range(n))
    mods['main'] = '<d>.%s</d>' % rows(lambda i: '<py:include href="p%d"/>' % i, n)
    yield mods, {'x': 'x'}, '<d>.%s</d>' % rows(lambda i: '<i>xf%d</i>' % i, n)
    mods['main'] = '<d>.%s%s</d>' % (rows(lambda i: '<py:import href="p%d"/>' % i, n), rows(lambda i: '${p%d.f()}' % i, n))
    yield mods, {'x': 'x'}, '<d>.%s</d>' % rows(lambda i: 'f%d' % i, n)
    mods['main'] = '<d>.%s%s</d>' % (rows(lambda i: '<py:import href="p%d" alias="q%d"/>' % (i, n - i), n), rows(lambda i: '${q%d.f()}' % (n - i), n))
    yield mods, {'x': 'x'}, '<d>.%s</d>' % rows(lambda i: 'f%d' % i, n)
    mods = {'main': ('text', '.\n' + rows(lambda i: '%%include p%d\n' % i, n))}
    mods.update(('p%d' % i, ('text', '<$x%d>' % i)) for i in range(n))
    yield mods, {'x%d' % i: i for i in range(n)}, '.\n' + rows(lambda i: '<%d>' % i, n)


def include_depth(n):
    mods = dict(('main' if i == 0 else 'p%d' % i, '<i a="%d">$x%s</i>' % (i, '<py:include href="p%d"/>' % (i + 1) if i < n else '')) for i in range(n + 1))
    yield mods, {'x': 'x'}, rows(lambda i: '<i a="%d">x' % i, n + 1) + '</i>' * (n + 1)
    mods = dict(('main' if i == 0 else 'p%d' % i, '<i><py:def function="f()">%s%d</py:def>%s${f()}</i>' % (
        '${q.f()}' if i < n else '', i, '<py:import href="p%d" alias="q"/>' % (i + 1) if i < n else '')) for i in range(n + 1))
    if n <= 1:
        yield mods, {}, '<i>%s0</i>' % ('1' if n else '')


def repeated(n):
    yield {'main': '<d>.<py:for each="i in range(n)"><py:include href="p"/></py:for></d>', 'p': '<i>$x<b py:if="x">y</b></i>'}, {'n': n, 'x': 1}, '<d>.%s</d>' % ('<i>1<b>y</b></i>' * n)


C11 = {'parts': (30, 100, includes), 'parts in parts': (25, 60, include_depth), 'repetitions': (60, 300, repeated)}
