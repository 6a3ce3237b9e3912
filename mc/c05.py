"""C05: py:with bindings are confined to their block.

All nestings up to a weight of with-blocks (every name collision) and the
other scopes, with a probe that shows x and y before, inside and after every
block wherever the language gives the name a value.
"""
import itertools

from mc import sizes, xmlmodel
from mc import exprs
from mc.core import Space, Violation, outcome
from mc.xmlmodel import Interp, Undefined, src
from mc.xmlspace import check_doc, XMLTemplate, MockLoader, kajiki  # noqa: F401

WITHS = ['x=%d', 'y=%d', 'x=%d; y=x', 'x=x+%d', 'y=x;x=%d', 'x=y', 'x=%d; x=x+1', 'x=None', 'z=x;x=%d',
         'x=%d;y=%d', 'y=%d; x=y+1; z=x']
FORS = ['x in (%d, %d)', 'y in (x,)', 'i in (1, 2)', 'x, y in [(%d, %d)]']


def bodies(n, kinds):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in items(k, kinds):
            for rest in bodies(n - k, kinds):
                yield (first,) + rest


def items(n, kinds):
    for kind, options in kinds:
        for o in options:
            for b in bodies(n - 1, kinds):
                yield (kind, o, b)


FULL = [('with', WITHS), ('for', FORS), ('if', ['c']), ('ifelse', ['c']), ('case', ['c']),
        ('def', ['x', '', 'y', 'x=%d']), ('call', ['', 'x']), ('py', ['x = %d', 'y = x']),
        ('attr', ['x']), ('block', [''])]
MEDIUM = [('with', WITHS[:6]), ('for', FORS[:2]), ('if', ['c']), ('case', ['c']),
          ('def', ['x', '']), ('call', ['', 'x']), ('py', ['x = %d'])]
CORE = [('with', ['x=%d', 'x=x+%d', 'x=%d; y=x']), ('for', ['x in (%d, %d)']), ('if', ['c']),
        ('def', ['x']), ('call', ['']), ('case', ['c'])]


class Probing(Interp):
    """Finds out at which probes x and y have a value, in every execution."""

    def node(self, node, frame):
        if node[0] == 'probe':
            ok = set()
            for nm in ('x', 'y', 'z'):
                try:
                    if self.lookup(nm, frame)[0]:
                        ok.add(nm)
                except Undefined:
                    pass
            seen = self.seen
            seen[node[1]] = seen[node[1]] & ok if node[1] in seen else ok
            return ''
        return Interp.node(self, node, frame)


class Builder(object):
    def __init__(self, attribute_form):
        self.af = attribute_form
        self.val = 0
        self.probes = 0
        self.fn = 0

    def v(self, template):
        n = template.count('%d')
        vals = []
        for _ in range(n):
            self.val += 1
            vals.append(self.val * 10)
        return template % tuple(vals)

    def probe(self):
        self.probes += 1
        return ('probe', self.probes)

    def kids(self, body):
        out = [self.probe()]
        for it in body:
            out.extend(self.item(it))
            out.append(self.probe())
        return tuple(out)

    def item(self, it):
        kind, o, body = it
        tag = 'b' if self.af else None
        if kind in ('with', 'for', 'if'):
            return [('e', tag, (), self.kids(body), ((kind, self.v(o)),))]
        if kind == 'ifelse':
            return [('e', tag, (), self.kids(body), (('if', o),)),
                    ('e', tag, (), self.kids(body), (('else', ''),))]
        if kind == 'case':
            return [('e', None, (), (('e', tag, (), self.kids(body), (('case', '1'),)),
                                     ('e', tag, (), (self.probe(),), (('else', ''),))),
                     (('switch', o),))]
        if kind == 'py':
            return [('py', self.v(o))] + list(self.kids(body))[1:]
        if kind == 'attr':
            # the same element carries the with-block and uses the name
            self.val += 1
            return [('e', 'u', (('q', (('x', 'x'),)),), self.kids(body),
                     (('with', 'x=%d' % (self.val * 10)), ('attrs', "{'r': x}")))]
        if kind == 'block':
            self.fn += 1
            name = 'k%d' % self.fn
            return [('e', None, (), self.kids(body), (('block', name),))]
        self.fn += 1
        f = 'f%d' % self.fn
        if kind == 'def':
            d = ('e', None, (), self.kids(body), (('def', '%s(%s)' % (f, self.v(o))),))
            self.val += 1
            return [d, ('x', '%s(%s)' % (f, str(self.val * 10) if o in ('x', 'y') else '')),
                    self.probe(),
                    ('x', '%s(%s)' % (f, str(self.val * 10 + 1) if o else ''))]
        if kind == 'call':
            self.val += 1
            d = ('e', None, (), (('t', '('), ('x', 'c(%s)' % (self.val * 10 if o else '')),
                                 ('t', ')'), ('x', 'c(%s)' % (self.val * 10 + 1 if o else ''))),
                 (('def', f + '(c)'),))
            return [d, ('e', None, (), self.kids(body), (('call', (f + '(%caller)', o or None)),))]
        raise ValueError(kind)


def settle(node, seen):
    """Replace probes by the reads that are defined there."""
    if node[0] == 'probe':
        out = [('t', '[')]
        for nm in sorted(seen.get(node[1], ())):
            out += [('t', nm), ('x', nm)]
        return out + [('t', ']')]
    if node[0] != 'e':
        return [node]
    kids = []
    for c in node[3]:
        kids.extend(settle(c, seen))
    return [node[:3] + (tuple(kids),) + node[4:]]


ENVS = [dict(x=1, y=2, c=1), dict(x=1, y=2, c=0), dict(c=1), dict(x='', y=None, c=0)]


class Scopes(Space):
    name = 'nested scopes'
    bound = ('all trees of up to 2 constructs out of with (%d binding lists), for (%d), if, if/else, '
             'case, def (4 signatures), call, Python block, with on the element that uses it, block; '
             'up to 3 from a medium list (thorough: also 4 from a core list), element and attribute '
             'form; x, y, z observed at every point; 4 contexts' % (len(WITHS), len(FORS)))

    def cases(self, tier):
        for n in 0, 1, 2:
            for b in bodies(n, FULL):
                for af in 0, 1:
                    yield b, af
        for b in bodies(3, MEDIUM):
            yield b, 0
        if tier == 'thorough':
            for b in bodies(3, FULL):
                yield b, 1
            for b in bodies(4, CORE):
                yield b, 0

    def describe(self, case):
        b, af = case
        everywhere = dict((i, ('x', 'y')) for i in range(1, 100))
        return src(settle(('e', 'd', (), Builder(af).kids(b), ()), everywhere)[0])

    def run(self, case, st):
        # contexts with and without x differ in what can be observed: separate programs
        b, af = case
        raw = ('e', 'd', (), Builder(af).kids(b), ())
        done = 0
        groups = {}
        for env in ENVS:
            p = Probing(raw, env)
            p.seen = {}
            try:
                p.render()
            except (Undefined, NameError, TypeError):
                continue
            key = tuple(sorted((k, tuple(sorted(v))) for k, v in p.seen.items()))
            groups.setdefault(key, []).append((env, p.seen))
        for g in groups.values():
            root = settle(raw, g[0][1])[0]
            done += check_doc(root, st, [e for e, _ in g])
        if not done:
            st.skipped += 1


class Forms(Space):
    name = 'binding lists'
    bound = ('spellings of the variable list: spaces, line breaks, trailing semicolons, operators and '
             'strings containing = and ;-free text, comparison signs, many variables')
    LISTS = [
        ('x=1', [('x', 1)]), (' x = 1 ', [('x', 1)]), ('x=1;', [('x', 1)]), ('x=1; y=2', [('x', 1), ('y', 2)]),
        ('x=1;\n y=2', [('x', 1), ('y', 2)]), ('x=1;y=2;', [('x', 1), ('y', 2)]),
        ('x=a==1', [('x', True)]), ('x=a!=1', [('x', False)]), ('x=a&lt;=1;y=a>=2', [('x', True), ('y', False)]),
        ('x=a==1; y=a==2', [('x', True), ('y', False)]), ('x=dict(k=1)', [('x', {'k': 1})]),
        ("x='a=b'", [('x', 'a=b')]), ('x=[1, 2]', [('x', [1, 2])]), ('x=(1,)', [('x', (1,))]),
        ('x=a;y=x;z=y', [('x', 1), ('y', 1), ('z', 1)]), ('x=lambda: 5', [('x', None)]),
        ('x=1 if a else 2', [('x', 1)]), ("x={'k': a}['k']", [('x', 1)]), ('x_1=1; X2=2', [('x_1', 1), ('X2', 2)]),
        ('x=a;x=x+1;x=x+1', [('x', 3)]), ('a=a+1', None), ('x=len([c for c in \'abc\'])', [('x', 3)]),
        ('x=1;y=2;z=3;u=4;w=5;k=6', [('x', 1), ('y', 2), ('z', 3), ('u', 4), ('w', 5), ('k', 6)]),
    ]

    def cases(self, tier):
        for i, (s, want) in enumerate(self.LISTS):
            if want and s != 'x=lambda: 5':
                for form in 0, 1:
                    for outer in 0, 1, 2:
                        yield i, form, outer

    def run(self, case, st):
        i, form, outer = case
        s, want = self.LISTS[i]
        q = s.replace('"', '&quot;')
        reads = ''.join('[${%s}]' % n for n, _ in want)
        shown = ''.join('[%s]' % ('' if v is None else str(v).replace('"', '&quot;')) for _, v in want)
        inner = '<b py:with="%s">%s</b>' % (q, reads) if form else \
            '<py:with vars="%s">%s</py:with>' % (q, reads)
        got_inner = '<b>%s</b>' % shown if form else shown
        if outer == 0:
            source, out = '<d>%s</d>' % inner, '<d>%s</d>' % got_inner
        elif outer == 1:
            # bound before by an enclosing with-block
            pre = '; '.join("%s='o%d'" % (n, k) for k, (n, _) in enumerate(want))
            pre_out = ''.join('[o%d]' % k for k in range(len(want)))
            source = '<d><py:with vars="%s">%s%s%s</py:with></d>' % (pre, reads, inner, reads)
            out = '<d>%s%s%s</d>' % (pre_out, got_inner, pre_out)
        else:
            args = ', '.join(n for n, _ in want)
            vals = ', '.join(str(k) for k in range(len(want)))
            pre_out = ''.join('[%d]' % k for k in range(len(want)))
            source = '<d><py:def function="f(%s)">%s%s%s</py:def>${f(%s)}${f(%s)}</d>' % (
                args, reads, inner, reads, vals, vals)
            out = '<d>%s</d>' % ((pre_out + got_inner + pre_out) * 2)
        got = XMLTemplate(source)(dict(a=1)).render()
        st.traces += 1
        st.steps += len(want)
        if got != out:
            raise Violation('a with-block does not bind or restore its names', source=source,
                            context='a=1', expected=out, observed=got)


class Exprs(Space):
    name = 'expression forms'
    bound = ('%d expressions of every operator class as the value of a binding: alone, first, last and between others, '
             'used by a later binding; as element and attribute; 8 contexts' % len(exprs.BASE))

    def cases(self, tier):
        for i in range(len(exprs.BASE)):
            if ';' not in exprs.BASE[i]:
                yield i

    def describe(self, case):
        return exprs.BASE[case]

    def run(self, case, st):
        x = exprs.BASE[case]
        nodes = []
        for tag in None, 'b':
            for v in ('x=%s', 'x = %s ; y=a', 'y=b;x=%s', 'x=1;y=%s;z=y', 'x=%s;y=x;x=7', 'x = (%s, 1)'):
                reads = tuple(('x', n) for n in 'xyz' if n + '=' in v or n + ' =' in v)
                nodes.append(('e', tag, (), reads, (('with', v % x),)))
                nodes.append(('t', ','))
                nodes.append(('e', None, (), (('e', tag, (), reads, (('with', v % x),)),) + tuple(
                    ('x', n) for n in 'xyz'), (('with', "x='X'; y='Y'; z='Z'"),)))
        check_doc(('e', 'd', (), tuple(nodes), ()), st, exprs.ENVS)


class Sources(Space):
    name = 'sources of the outer value'
    bound = ('the name a py:with hides comes from the context, a module-level Python block, the globals, a template function, a built-in function, a local Python block, an argument, a '
             'loop, an import or another py:with, or has no value; in the body, a function, a block, a call body, a condition or a loop; up to 3 nested or following blocks, in loops, of one or two '
             'names; read again after every block')
    SRC = ['context', 'module', 'globals', 'function', 'builtin', 'py', 'argument', 'for', 'with', 'import', 'none']
    PLACE = ['body', 'def', 'block', 'call', 'if', 'for', 'element', 'strip', 'case']
    SHAPE = ['w', 'ww', 'n', 'nn', 'nw', 'wn', 'a', 'an', 'aa', 'l', 'll', 'nl', 'two', 'etwo']

    def cases(self, tier):
        return itertools.product(self.SRC, self.PLACE, self.SHAPE)

    def describe(self, case):
        return repr(case)

    def run(self, case, st):
        kind, place, shape = case
        if place in ('def', 'block', 'call') and kind in ('py', 'for', 'with', 'import'):
            return        # a name of the enclosing function: not visible there, or a known finding
        name = 'len' if kind == 'builtin' else 'x'
        read, old = {'function': ('${x()}', 'F'), 'builtin': ("${len('abc')}", '3'), 'import': ('${x.f()}', 'I'), 'none': ("${defined('x')}", 'False')}.get(kind, ('$x', 'O'))
        count = itertools.count(1)

        def w(inner, out, form):
            """A with-block; inner and out are rendered inside of it."""
            v = 'v%d' % next(count)
            vars = {'two': "%s='%s'; y='%s'", 'one': "%s='%s'"}['two' if 'two' in shape else 'one'] % ((name, v, v)[:3 if 'two' in shape else 2])
            body, got = '$%s' % name, v
            if 'two' in shape:
                body, got = body + '$y', got + v
            if inner:
                body, got = body + inner + '$%s' % name, got + out + v
            if form == 'a':
                return '<b py:with="%s">%s</b>' % (vars, body), '<b>%s</b>' % got
            if form == 'l':
                return '<py:for each="k in (1, 2)"><py:with vars="%s">%s</py:with>%s</py:for>' % (vars, body, read), (got + old) * 2
            return '<py:with vars="%s">%s</py:with>' % (vars, body), got
        seq = {'w': 'w', 'ww': 'w w', 'n': 'nw', 'nn': 'nnw', 'nw': 'nw w', 'wn': 'w nw', 'a': 'a', 'an': 'na', 'aa': 'a a', 'l': 'l', 'll': 'l l', 'nl': 'w l', 'two': 'w w', 'etwo': 'nw w'}[shape]
        source, out = '', ''
        for part in seq.split():
            inner, got = '', ''
            for depth, f in enumerate(reversed(part)):
                f = {'n': 'w'}.get(f, f)
                inner, got = w(inner, got, f)
            source += inner + '[%s]' % read
            out += got + '[%s]' % old
        if kind == 'py':
            source = "<?py x = 'O' ?>" + source
        pre = ''
        if kind == 'import':
            source = '<py:import href="lib" alias="x"/>' + source
        if kind == 'for':
            source = '<py:for each="x in [\'O\']">%s</py:for>' % source
        if kind == 'with':
            source = '<py:with vars="x=\'O\'">%s</py:with>' % source
        arg = 'x' if kind == 'argument' else ''
        val = "'O'" if kind == 'argument' else ''
        if place == 'body' and arg or place == 'block' and arg:
            return
        if place == 'def' or arg and place != 'call':
            if place in ('if', 'for', 'element', 'strip', 'case'):
                source, out = self.around(place, source, out)
            source, out = '<py:def function="f(%s)">%s</py:def>${f(%s)}${f(%s)}' % (arg, source, val, val), out * 2
        elif place == 'block':
            source = '<py:block name="b">%s</py:block>' % source
        elif place == 'call':
            source = '<py:def function="g(c)">${c(%s)}${c(%s)}</py:def><py:call args="%s" function="g(%%caller)">%s</py:call>' % (val, val, arg, source)
            out *= 2
        else:
            source, out = self.around(place, source, out)
        if kind == 'module':
            pre = "<?py %x = 'O' ?>"
        if kind == 'function':
            pre = '<py:def function="x()">F</py:def>'
        ctx = {'x': 'O'} if kind == 'context' else {}
        source, out = '<r>%s%s</r>' % (pre, source), '<r>%s</r>' % out
        kw = {'base_globals': {'x': 'O'}} if kind == 'globals' else {}
        tpl = XMLTemplate(source, **kw)
        if kind == 'import':
            MockLoader({'lib': XMLTemplate('<l><py:def function="f()">I</py:def></l>'), 'main': tpl})
        for n in 1, 2:
            st.traces += 1
            st.steps += len(seq)
            try:
                got = tpl(dict(ctx)).render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, e)
            if got != out:
                raise Violation('a with-block does not restore what it hides', source=source, context='%s, rendering %d' % (kind, n), expected=out, observed=got)
        outcome(st, got)

    def around(self, place, source, out):
        if place == 'if':
            return '<py:if test="1">%s</py:if>' % source, out
        if place == 'for':
            return '<py:for each="i in (1, 2)">%s</py:for>' % source, out * 2
        if place == 'element':
            return '<i>%s</i>' % source, '<i>%s</i>' % out
        if place == 'strip':
            return '<i py:strip="">%s</i>' % source, out
        if place == 'case':
            return '<py:switch test="1"><py:case value="1">%s</py:case></py:switch>' % source, out
        return source, out


class Partial(Space):
    """Blocks of functions whose output is taken piece by piece, left unfinished or fails."""
    name = 'interleaved and unfinished functions'
    bound = ('two functions of up to 3 (thorough: 4) nested py:with blocks, all choices of the variables, with or without a loop around the innermost; their output '
             'is taken in turns, given up after 0-9 pieces, or fails at the 1st to 4th value (and the failure is caught), inside of 4 combinations of '
             'outer py:with blocks; x and y probed everywhere')

    def cases(self, tier):
        deep = 4 if tier == 'quick' else 5
        seqs = [q for n in range(deep) for q in itertools.product('xy', repeat=n)]
        for f in seqs:
            for g in seqs if tier != 'quick' else [q for q in seqs if len(q) < 3]:
                for outer in range(4):
                    for loop in (0, 1):
                        yield 'zip', f, g, outer, loop
        for f in seqs:
            for how in ['drop%d' % k for k in range(10)] + ['keep%d' % k for k in range(10)] + ['fail%d' % k for k in range(1, 5)]:
                for outer in range(4):
                    for loop in (0, 1):
                        yield how, f, (), outer, loop

    def body(self, name, seq, loop):
        """Source, and the text and its calls of boom() as a list."""
        env = {'x': 'X', 'y': 'Y'}
        src, out = [], []

        def probe():
            src.append('[${x}${boom()}${y}]')
            out.extend(['[' + env['x'], None, env['y'] + ']'])

        def level(i):
            probe()
            if i == len(seq):
                return
            v = seq[i]
            old = env[v]
            val = '%s%d' % (name, i)
            src.append('<py:with vars="%s=\'%s\'">' % (v, val))
            env[v] = val
            if loop and i == len(seq) - 1:
                src.append('<py:for each="i in (1, 2)">')
                a, b = len(src), len(out)
                level(i + 1)
                out.extend(out[b:])
                src.append('</py:for>')
            else:
                level(i + 1)
            src.append('</py:with>')
            env[v] = old
            probe()
        level(0)
        return '<py:def function="%s(x=\'X\', y=\'Y\')">%s</py:def>' % (name, ''.join(src)), out

    def run(self, case, st):
        how, f, g, outer, loop = case
        fs, fo = self.body('f', f, loop)
        gs, go = self.body('g', g, loop)
        text = lambda out: ''.join(o for o in out if o)
        if how == 'zip':
            code, want = 'r = take(zl(f(), g()))', text(fo) + '/' + text(go)
        elif how.startswith('fail'):
            code, want = 'r = caught(f)', 'E'
        else:
            code, want = 'r = some(f, %s)' % how[4:], ''
        at = int(how[4:]) if how.startswith('fail') else 0
        if at > sum(1 for o in fo if o is None):
            return
        inner = '<?py %s ?>{$r}$x,$y' % code
        env = {'x': 'X', 'y': 'Y'}
        for v in ([], ['x'], ['y'], ['x', 'y'])[outer]:
            env[v] = 'o' + v
        w = '{%s}%s,%s' % (want, env['x'], env['y'])
        for v in ([], ['x'], ['y'], ['x', 'y'])[outer]:
            inner = '<py:with vars="%s=\'o%s\'">%s</py:with>$x,$y' % (v, v, inner)
        for i, v in enumerate(([], ['x'], ['y'], ['x', 'y'])[outer]):
            env[v] = v.upper()
            w += '%s,%s' % (env['x'], env['y'])
        source = '<r>%s%s%s</r>' % (fs, gs, inner)
        want = '<r>%s</r>' % w
        count = [0]
        kept = []

        def boom():
            count[0] += 1
            if count[0] == at:
                raise KeyError('boom')
            return ''

        def take(pairs):
            a, b = [], []
            for p, q in pairs:
                a.append(str(p) if p is not None else '')
                b.append(str(q) if q is not None else '')
            return ''.join(a) + '/' + ''.join(b)

        def caught(fn):
            try:
                return ''.join(str(p) for p in fn())
            except KeyError:
                return 'E'

        def some(fn, k):
            it = iter(fn())
            for _ in range(k):
                next(it, None)
            if how.startswith('keep'):
                kept.append(it)
            return ''
        tpl = XMLTemplate(source)
        for _ in (1, 2):
            count[0] = 0
            try:
                got = tpl(dict(x='X', y='Y', boom=boom, take=take, caught=caught, some=some, zl=itertools.zip_longest)).render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:300])
            st.traces += 1
            st.steps += len(f) + len(g) + 1
            if got != want:
                raise Violation('py:with blocks of functions that are not run through in one go', source=source, expected=want, observed=got)
        outcome(st, got)


def spaces():
    return [sizes.Sizes(sizes.C05), Sources(), Exprs(), Forms(), Scopes(), Partial()]


def _v1():
    try:
        return XMLTemplate('<d>$x<p py:with="x=2">$x</p></d>')(dict(x=1)).render() != \
            '<d>1<p>2</p></d>'
    except UnboundLocalError:
        return True


def _v2():
    s = ('<d><py:def function="f(c)">${c()}</py:def><py:with vars="x=1"><py:call '
         'function="f(%caller)"><py:with vars="x=2">$x</py:with>[$x]</py:call></py:with></d>')
    try:
        return XMLTemplate(s)({}).render() != '<d>2[1]</d>'
    except Exception:
        return True


def known():
    return [
        {'what': 'a context variable read in a template function before the py:with that rebinds it '
                 'there raises UnboundLocalError: <d>$x<p py:with="x=2">$x</p></d>, x=1',
         'probe': _v1},
        {'what': 'py:with inside a call body (or inner function) over a name of the enclosing '
                 'function leaves () behind: <py:with vars="x=1"><py:call ...><py:with vars="x=2"/>'
                 '[$x]</py:call></py:with>', 'probe': _v2}]


ASSUMPTIONS = ['a name is only read where the language binds it; the two known findings are outside']
