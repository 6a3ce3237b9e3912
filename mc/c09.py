"""C09: text templates render directives and white space as documented."""
import itertools
import re

from mc import core, exprs, sigs, sizes, textmodel
from mc.core import Space, Violation, outcome
from mc.textmodel import D, T, X, Impossible, Interp, assign, layout, tags, unescape

core.setup_repo()
from kajiki import TextTemplate  # noqa: E402


def render(source, env, **kw):
    try:
        return TextTemplate(source, **kw)(dict(env)).render()
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:300])


def check(nodes, envs, st, eol='\n', **kw):
    """False when the program cannot be written that way."""
    try:
        source = layout(nodes, eol)
    except Impossible:
        st.skipped += 1
        return False
    if not source:
        return False
    try:
        tpl = TextTemplate(source, **kw)
    except Exception as e:
        raise Violation('a valid template does not compile: %s: %s' % (type(e).__name__, str(e)[:300]),
                        source=source)
    for env in envs:
        m = Interp(nodes, env, **kw)
        want = m.render()
        st.steps += m.steps
        try:
            got = tpl(dict(env)).render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:300])
        st.traces += 1
        if got != want:
            raise Violation('output differs from the reference interpretation', source=source,
                            context=repr(env), expected=want, observed=got)
        outcome(st, got)
    return True


ENVS = [dict(c=0, l=[1, 2], s='<'), dict(c=1, l=[], s='&'), dict(c=2, l='ab', s='')]
FILL = ['', 'a', ' ', '\n', 'a\n', ' a ', '\n\n', ' \n', '\\\n', 'a\\\n', '\t', '\n ']


class Whitespace(Space):
    name = 'white space around one directive'
    bound = ('one directive (if, for, switch with one case, def with a call, block, else) x all spellings '
             '(line, brace, left-, right-, both-trimming) of each of its tags x all texts out of up to %d '
             'before, inside and after' % len(FILL))
    FORMS = 'LBRJK'

    KINDS = ['if', 'for', 'block', 'def', 'else', 'switch', 'call', 'py', 'modpy', 'pyblock', 'switch2']

    def cases(self, tier):
        for kind in self.KINDS:
            n = {'else': 4, 'switch': 4, 'switch2': 5, 'py': 2, 'modpy': 2, 'pyblock': 2}.get(kind, 3)
            fills = range(len(FILL)) if tier != 'quick' else (0, 1, 2, 3, 4, 6, 7, 9, 11)
            if n >= 4:
                fills = (0, 1, 4, 2, 9) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 9, 11)
                if n == 5:
                    fills = (1, 4) if tier == 'quick' else (0, 1, 4, 2, 9)
            ntags = {'else': 3, 'switch': 3, 'switch2': 4, 'py': 1, 'modpy': 1}.get(kind, 2)
            for fs in itertools.product(self.FORMS if n < 4 or tier != 'quick' else 'LBRJ', repeat=ntags):
                yield kind, ''.join(fs), tuple(fills), n

    def describe(self, case):
        return repr(case)

    def program(self, kind, f):
        if kind == 'if':
            return [T(f[0]), D('if', [('if', ' c < 2', [T(f[1])])]), T(f[2])]
        if kind == 'for':
            return [T(f[0]), D('for', [('for', ' i in l', [T(f[1])])]), T(f[2])]
        if kind == 'block':
            return [T(f[0]), D('block', [('block', ' b', [T(f[1])])]), T(f[2])]
        if kind == 'def':
            return [T(f[0]), D('def', [('def', ' f()', [T(f[1])])]), T(f[2]), X('f()'), T(f[0])]
        if kind == 'else':
            return [T(f[0]), D('if', [('if', ' c', [T(f[1])]), ('else', '', [T(f[2])])]), T(f[3])]
        if kind == 'switch':
            return [T(f[0]), D('switch', [('switch', ' c', [T(f[1] if not f[1].strip('\\\na ') else '')]
                                           if not f[1].strip() or f[1] == '\\\n' else []),
                                          ('case', ' 0', [T(f[2])])]), T(f[3])]
        if kind == 'switch2':
            return [T(f[0]), D('switch', [('switch', ' c', []), ('case', ' 0', [T(f[1])]),
                                          ('case', ' 1', [T(f[2])]), ('else', '', [T(f[3])])][:3]
                               if f[4] == 'a' else
                               [('switch', ' c', []), ('case', ' 0', [T(f[1])]), ('else', '', [T(f[3])])]),
                    T(f[4])]
        if kind == 'call':
            return [D('def', [('def', ' g(k)', [T('['), X('k()'), T(']')])]), T(f[0]),
                    D('call', [('call', '() g(%caller)', [T(f[1])])]), T(f[2])]
        if kind == 'py':
            return [T(f[0]), D('py', [('py', ' w = 1', [])], end=False), T(f[1]), X('w')]
        if kind == 'modpy':
            return [T(f[0]), D('modpy', [('py', '% w = 1', [])], end=False), T(f[1]), X('w')]
        return [T(f[0]), D('py', [('py', '', [T('w = 2\nif w:\n    v = 3\n')])]), T(f[1]), X('w+v')]

    def run(self, case, st):
        kind, fs, fills, n = case
        for f in itertools.product(fills, repeat=n):
            f = [FILL[i] for i in f]
            nodes = self.program(kind, f)
            forms = list(fs)
            if kind == 'call':
                forms = ['L', 'B'] + forms
                nodes[0].segments[0][1][-1] = T(']')
            ts = list(tags(nodes))
            if len(ts) != len(forms):
                forms = (forms + ['B'] * 4)[:len(ts)]
            assign(nodes, forms, (' ', '\t', '\t ', '  ')[len(''.join(f)) % 4] if 'a' in f else '')
            check(nodes, ENVS[:2], st)
            if n <= 3 or kind == 'else':
                check(nodes, ENVS[:1], st, eol='\r\n')


class Pairs(Space):
    name = 'two directives'
    bound = ('all pairs of directives, one inside or after the other, x spelling of each x texts out of 3 at all '
             'places (a repeating pattern of 3, thorough: 4)')
    FILLS = ['', 'x\n', ' ']

    def cases(self, tier):
        kinds = ['if', 'ie', 'ei', 'for', 'sw', 'se', 'def', 'call', 'block', 'py']
        fs = ['L', 'B', 'K'] if tier == 'quick' else ['L', 'B', 'J', 'R', 'K']
        for a in kinds:
            for b in kinds:
                for nested in (0, 1):
                    for f in itertools.product(fs, repeat=2):
                        yield a, b, nested, f, 3 if tier == 'quick' else 4

    def run(self, case, st):
        a, b, nested, f, width = case
        for fill in itertools.product(range(3), repeat=width):
            t = [self.FILLS[i] for i in fill]
            g = Gen(lambda k: t[k % width])
            if nested:
                nodes = g.seq([(a, [(b, [])])])
            else:
                nodes = g.seq([(a, []), (b, [])])
            for tag in tags(nodes):
                tag.form = f[0] if tag.owner == 1 else f[1]
            for node in textmodel.flat(nodes):
                if isinstance(node, textmodel.Tag):
                    node.indent = ' ' if fill[0] else ''
            check(nodes, ENVS, st)


class Gen(object):
    """Programs from shapes; every text is distinct unless a filler says otherwise."""

    def __init__(self, fill=None):
        self.n = 0
        self.k = 0
        self.fill = fill or self.letter

    def letter(self, k):
        return chr(97 + k % 26) + '\n'

    def t(self):
        self.k += 1
        return T(self.fill(self.k - 1))

    def seq(self, forest, vis=('c', 's')):
        out = [self.t()]
        for kind, kids in forest:
            before = self.n
            self.n += 1
            nodes = self.node(kind, kids, vis, self.n)
            if isinstance(nodes[-1], T):
                out += nodes
            else:
                out += nodes + [self.t()]
        # never two texts in a row
        res = []
        for n in out:
            if isinstance(n, T) and res and isinstance(res[-1], T):
                continue
            res.append(n)
        return res

    def own(self, d, i):
        for t, _ in d.segments:
            t.owner = i
        if d.end:
            d.end.owner = i
        return d

    def body(self, kids, vis):
        s = self.seq(kids, vis)
        return s[:1] + [X(v) for v in vis[-2:]] + [X("'.'")] + s[1:] if vis else s

    def node(self, kind, kids, vis, i):
        b = lambda *extra: self.body(kids, vis + extra)
        leaf = lambda *extra: self.body([], vis + extra)
        if kind == 'if':
            return [self.own(D('if', [('if', ' c != 1', b())]), i)]
        if kind == 'ie':
            return [self.own(D('if', [('if', ' c', b()), ('else', '', leaf())]), i)]
        if kind == 'ei':
            return [self.own(D('if', [('if', ' c', leaf()), ('else', '', b())]), i)]
        if kind == 'for':
            v = 'v%d' % i
            return [self.own(D('for', [('for', ' %s in l' % v, b(v))]), i)]
        if kind == 'for2':
            return [self.own(D('for', [('for', ' j%d, v%d in enumerate(l)' % (i, i), b('j%d' % i, 'v%d' % i))]), i)]
        if kind == 'sw':
            return [self.own(D('switch', [('switch', ' c', []), ('case', ' 0', leaf()), ('case', ' 1', b())]), i)]
        if kind == 'se':
            return [self.own(D('switch', [('switch', ' c', []), ('case', ' 1', leaf()), ('else', '', b())]), i)]
        if kind == 'def':
            f = 'f%d' % i
            hoisted = ('c', 's') if not self.in_def else vis
            old, self.in_def = self.in_def, True
            body = self.body(kids, hoisted + ('x%d' % i,))
            self.in_def = old
            return [self.own(D('def', [('def', ' %s(x%d, y=5)' % (f, i), body)]), i), self.t(),
                    X('%s(1)' % f), X('%s(x%d=c, y=2)' % (f, i))]
        if kind == 'call':
            g = 'g%d' % i
            hoisted = not self.in_def
            d = D('def', [('def', ' %s(k, n)' % g, [T('('), X('k(n)'), X('k(n+1)'), T(')')])])
            c = D('call', [('call', '(y%d) %s(%%caller, 3)' % (i, g), self.body(kids, vis + ('y%d' % i,)))])
            return [self.own(d, i), self.t(), self.own(c, i)]
        if kind == 'block':
            return [self.own(D('block', [('block', ' b%d' % i, self.body(kids, ('c', 's') if not self.in_def else ('c', 's')))]), i)]
        if kind == 'py':
            return [self.own(D('py', [('py', ' w%d = c, %d' % (i, i), [])], end=False), i), self.t(), X('w%d' % i)]
        raise KeyError(kind)

    in_def = False


def forests(n, kinds):
    """All forests with n directives."""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for kids in forests(first - 1, kinds):
            for rest in forests(n - first, kinds):
                for k in kinds:
                    yield [(k, kids)] + rest


class Trees(Space):
    name = 'directive trees'
    KINDS = ['if', 'ie', 'ei', 'for', 'sw', 'se', 'def', 'call', 'block', 'py']
    bound = ('all forests of up to 3 (thorough: 4) directives out of %d kinds, all in line form, all in brace form, '
             'alternating, x 3 environments, with and without autoescaping' % len(KINDS))

    def cases(self, tier):
        for n in range(1, 4 if tier == 'quick' else 5):
            for f in forests(n, self.KINDS):
                if any(k == 'py' and kids for k, kids in walk(f)):
                    continue
                yield f

    def run(self, case, st):
        for forms, fill in (('LL', None), ('BB', lambda k: chr(97 + k % 26)), ('LB', None), ('BL', None)):
            nodes = Gen(fill).seq(case)
            for t in tags(nodes):
                t.form = forms[t.owner % 2]
                t.indent = '  ' if t.owner % 2 else ''
            ok = check(nodes, ENVS, st)
            if ok and forms[0] == 'B':
                check(nodes, ENVS[:1], st, autoescape=True)
            elif ok and forms == 'LL':
                check(nodes, ENVS[:2], st, eol='\r\n')


def walk(f):
    for k, kids in f:
        yield k, kids
        for x in walk(kids):
            yield x


class Plain(Space):
    name = 'text without directives'
    bound = ('all strings up to 6 (thorough: 7) characters over backslash, line break, letter, blank, and up to 5 (6) '
             'over percent, braces, minus, letter, blank and line break that contain no directive')
    A1 = '\\\na '
    A2 = '%{}-a\n #'

    def cases(self, tier):
        d = 0 if tier == 'quick' else 1
        for alphabet, lo, hi in ((self.A1, 1, 6 + d), (self.A2, 1, 5 + d), ('\\\r\na', 1, 5 + d)):
            for n in range(lo, hi + 1):
                for c in itertools.product(alphabet, repeat=max(0, n - 2)):
                    yield alphabet, ''.join(c), n

    def run(self, case, st):
        alphabet, prefix, n = case
        for c in itertools.product(alphabet, repeat=n - len(prefix)):
            s = prefix + ''.join(c)
            if re.search(r'^\s*%[a-z]|\{%', s, re.M):
                continue
            got = render(s, {})
            st.traces += 1
            st.steps += 1
            want = unescape(s)
            if got != want:
                raise Violation('text is not reproduced', source=repr(s), expected=repr(want), observed=repr(got))
            outcome(st, got)


VALUES = [None, '', 'x', '<&">', 0, 1.5, True, [1, '<'], b'x', 'a\\b', 'a\nb', '$c', '%if x', '{%end%}', '\\\n', ' ']


class Values(Space):
    name = 'values'
    bound = 'all of %d values in 6 places, autoescaping on and off' % len(VALUES)

    def cases(self, tier):
        for i in range(len(VALUES)):
            for auto in (False, True):
                yield i, auto

    def run(self, case, st):
        v, auto = VALUES[case[0]], case[1]
        env = dict(v=v, c=0, l=[v, v], s='')
        progs = [
            [T('a'), X('v'), T('b\n'), X('v', '$v'), T('\n')],
            [D('for', [('for', ' i in l', [T('-'), X('i', '$i')])])],
            [D('def', [('def', ' f(x)', [T('<'), X('x'), T('>')])]), X('f(v)'), X('f(f(v))')],
            [D('switch', [('switch', ' v', []), ('case', ' v', [X('v')]), ('else', '', [T('no')])])],
            [D('def', [('def', ' g(k)', [X('k(v)')])]), D('call', [('call', '(q) g(%caller)', [X('q'), X('v')])])],
            [D('block', [('block', ' b', [X('v')])]), D('py', [('py', ' w = v', [])], end=False), X('w')],
        ]
        for p in progs:
            check(p, [env], st, autoescape=auto)


def known():
    def probe():
        try:
            return TextTemplate("%py\nx = '$y'\n%end\n$x")().render() != '$y'
        except Exception:
            return True

    def backslash():
        return TextTemplate("%py\n  w = r'\\d'\n%end\n$w")().render() != '\\d'
    return [dict(what=r"a backslash in a %py ... %end block is dropped (w = r'\d' gives d)", probe=backslash),
            dict(what="a %py ... %end block whose code contains a dollar sign (x = '$y') is rejected", probe=probe)]


class Exprs(Space):
    """The expected text is written by evaluating the expression with Python itself."""
    name = 'expression forms'
    bound = ('%d expressions of every operator class as condition, loop source, switch and case value, argument, default, call argument, Python '
             'block and output; line and brace spelling; 8 contexts' % len(exprs.BASE))
    LINES = [
        ('%if Q\nT\n%end\n', lambda v: 'T\n' if v else ''),
        ('%if Q\nT\n%else\nE\n%end\n', lambda v: 'T\n' if v else 'E\n'),
        ('%for i in [Q, 7]\n<$i>\n%end\n', lambda v: '<%s>\n<7>\n' % shown(v)),
        ('%for i in (Q),\n<$i>\n%end\n', lambda v: '<%s>\n' % shown(v)),
        ('%switch Q\n%case 0\nz\n%case Q\ny\n%else\nE\n%end\n', lambda v: 'z\n' if v == 0 else 'y\n'),
        ('%switch 1\n%case Q\ny\n%else\nE\n%end\n', lambda v: 'y\n' if v == 1 else 'E\n'),
        ('%def f(p)\n<$p>\n%end\n${f(Q)}${f(p=Q)}', lambda v: '<%s>\n' % shown(v) * 2),
        ('%def h(c, u)\n${c(u)}/$u\n%end\n%call(k) h(%caller, Q)\n<$k>\\\n%end\n', lambda v: '<%s>/%s\n' % (shown(v), shown(v))),
        ('%def h(u, c)\n${c(u)}/$u\n%end\n%call(k) h(c=%caller, u=Q)\n<$k>\\\n%end\n', lambda v: '<%s>/%s\n' % (shown(v), shown(v))),
        ('%py w = Q\n<$w>\n', lambda v: '<%s>\n' % shown(v)),
        ('%py\n  w = Q\n%end\n<$w>\n', lambda v: '<%s>\n' % shown(v)),
        ('<${Q}>', lambda v: '<%s>' % shown(v)),
        ('<${ Q }>${Q}', lambda v: '<%s>%s' % (shown(v), shown(v))),
    ]
    CONST = [
        ('%def f(p=Q)\n<$p>\n%end\n${f()}${f(3)}', lambda v: '<%s>\n<3>\n' % shown(v)),
        ('%def f(o, p=Q, *r)\n<$p>\n%end\n${f(1)}${f(1, 3)}', lambda v: '<%s>\n<3>\n' % shown(v)),
        ('%def h(c)\n${c()}${c(3)}\n%end\n%call(k=Q) h(%caller)\n<$k>\\\n%end\n', lambda v: '<%s><3>\n' % shown(v)),
        ('%def h(c)\n${c(1)}${c(1, 3)}\n%end\n%call(j, k=Q, *r) h(%caller)\n<$k>\\\n%end\n', lambda v: '<%s><3>\n' % shown(v)),
        ('%def h(c)\n${c()}${c(k=3)}\n%end\n%call(j=Q, k=(Q)) h((%caller))\n<$k>\\\n%end\n', lambda v: '<%s><3>\n' % shown(v)),
    ]

    def cases(self, tier):
        for i in range(len(exprs.BASE)):
            for b in (0, 1):
                yield i, b

    def describe(self, case):
        return exprs.BASE[case[0]]

    def run(self, case, st):
        q = exprs.BASE[case[0]]
        try:
            eval(q, {})
            more = self.CONST
        except NameError:
            more = []
        for line, f in self.LINES + more:
            if case[1]:
                if line.startswith('<'):
                    continue
                line = re.sub('(?m)^%(.*)$', r'{%\1%}', line)
                line = line.replace('%}\n', '%}')
            if '\\' in q and 'w = Q\n' in line and '%py w' not in line:
                continue        # a known finding
            source = line.replace('Q', q)
            t = TextTemplate(source)
            for env in exprs.ENVS:
                want = f(eval(q, dict(env)))
                got = t(dict(env)).render()
                st.traces += 1
                st.steps += 1
                if got != want:
                    raise Violation('an expression in a text directive', source=source, context=repr(env), expected=want, observed=got)
                outcome(st, want)


class Order(Space):
    name = 'order of python blocks'
    bound = ('all sequences of up to 5 Python blocks, module-level or local, in 5 spellings; each uses what the ones before it of its kind made')
    FORMS = [('m', '%%py%% %s\n'), ('m', '{%%py%% %s%%}\\\n'), ('l', '%%py %s\n'), ('l', '%%py\n  %s\n%%end\n'), ('l', '{%%py%%}%s\n{%%end%%}\\\n')]

    def cases(self, tier):
        for n in range(1, 6):
            for c in itertools.product(range(len(self.FORMS)), repeat=n):
                yield c

    def run(self, case, st):
        last, seen, source = {}, {'m': [], 'l': []}, ''
        for i, f in enumerate(case):
            k, form = self.FORMS[f]
            source += form % ('%s%d = %s[%d]' % (k, i, '%s%d + ' % (k, last[k]) if k in last else '', i))
            last[k] = i
            seen[k].append(i)
        source += '<%s>' % '.'.join('$%s%d' % kv for kv in sorted(last.items()))
        want = '<%s>' % '.'.join(str(seen[k]) for k in sorted(last))
        got = TextTemplate(source)().render()
        st.traces += 1
        st.steps += 1
        if got != want:
            raise Violation('Python blocks do not run in order', source=source, expected=want, observed=got)
        outcome(st, want)


class Odd(Space):
    name = 'unusual white space and characters'
    CHARS = ['\xa0', '\f', '\v', '\u2003', '\u200b', '\x85', '\u2028', '\ufeff', '\r', '\x1c', '%', '%%', '{', '}', '{%', '-', '#', '\xe9', '\U0001f600', '\x7f', '\t', '%}', '-%}', '}}',
             '{{', '{#', '<!--', '%e', 'a%if', '%d%s', '&', '<', '"', "'", '`', '@', '~', '^', '*']
    TEXTS = ['', 'a', ' ', '\n', 'a\n']
    bound = ('each of %d characters and groups of characters with nothing, a letter, a blank or a line break before and after it, in the text before, in, between and after '
             'directives in braces that do not trim, lines with directives, and expressions' % len(CHARS))
    SITES = [('%s', '#', 1), ('x%s{%%if 1%%}b{%%end%%}', 'x#b', 1), ('{%%if 1%%}%s{%%end%%}c', '#c', 1), ('{%%if 0%%}%s{%%else%%}%s{%%end%%}c', '#c', 2),
             ('{%%for i in (1, 2)%%}%s{%%end%%}', '##', 1), ('{%%def f()%%}%s{%%end%%}${f()}', '#', 1), ('{%%block b%%}%s{%%end%%}', '#', 1), ('{%%if 1%%}b{%%end%%}%sx', 'b#x', 1),
             ('${v}%s${v}', 'V#V', 1), ('$v;%s$v', 'V;#V', 1), ('%%if 1\nx%sy\n%%end\n', 'x#y\n', 1), ('%%for i in (1, 2)\nx%sy\n%%end\n', 'x#y\nx#y\n', 1),
             ('%%if 1\nb\n%%end\nx%s', 'b\nx#', 1), ('x%sy\n%%if 1\nb\n%%end\n', 'x#y\nb\n', 1),
             ('{%%switch 1%%}{%%case 1%%}x%s{%%else%%}n{%%end%%}', 'x#', 1), ('%%def f()\nx%sy\n%%end\n${f()}', 'x#y\n', 1)]

    def cases(self, tier):
        for c in range(len(self.CHARS)):
            for s in range(len(self.SITES)):
                yield c, s

    def run(self, case, st):
        c, (form, model, n) = self.CHARS[case[0]], self.SITES[case[1]]
        for a in self.TEXTS:
            for b in self.TEXTS:
                # a percent sign that begins a line, or a brace before one, is a directive
                text = a + c + b
                if c[0] == '%' and (a == '' or a[-1] in ' \n') or c.startswith('{%') or c.endswith('{') and form.startswith('{%%', form.index('%s') + 2):
                    continue
                source = form % ((text,) * n)
                want = model.replace('#', text).replace('V', 'v')
                try:
                    got = TextTemplate(source)({'v': 'v'}).render()
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, e)
                st.traces += 1
                st.steps += 1
                if got != want:
                    raise Violation('text is altered', source=repr(source), expected=repr(want), observed=repr(got))
                outcome(st, want)


def shown(v):
    return '' if v is None else str(v)


SITES = [
    lambda p, q: ('%%def f(%s)\n%s\\\n%%end\n${f(*A, **K)}' % (p, sigs.cells(q)), '', ''),
    lambda p, q: ('${f(*A, **K)}{%%def f(%s)%%}%s{%%end%%}' % (p, sigs.cells(q)), '', ''),
    lambda p, q: ('%%def h(c)\n${c(*A, **K)}\n%%end\n%%call(%s) h(%%caller)\n%s\\\n%%end\n' % (p, sigs.cells(q)), '', '\n'),
    lambda p, q: ('{%%def o()%%}{%%def f(%s)%%}%s{%%end%%}<${f(*A, **K)}>{%%end%%}${o()}' % (p, sigs.cells(q)), '<', '>'),
]


def spaces():
    return [sizes.Sizes(sizes.C09), sigs.Signatures(TextTemplate, SITES), Odd(), Exprs(), Order(), Whitespace(), Pairs(), Trees(), Plain(), Values()]
