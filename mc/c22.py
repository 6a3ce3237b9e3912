"""C22: names and the built-in functions mean the same in every part of a template.

The oracle is a table: the value of a name is that of the first of  context, module-level Python block, base_globals, built-in  that has it.
"""
import collections
import itertools
import string

from mc import core
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402

MISSING = object()

# How a place shows the value of an expression P (P gives a string without special characters).  The same template text is used with each P.
XML_SITES = [
    ('text', '<r>${~~}</r>', '<r>~~</r>'),
    ('attribute', '<r a="-${~~}"/>', '<r a="-~~"/>'),
    ('for', '<r><b py:for="q in [~~]">$q</b></r>', '<r><b>~~</b></r>'),
    ('with', '<r><b py:with="q = ~~">$q</b></r>', '<r><b>~~</b></r>'),
    ('attrs', '<r py:attrs="dict(a=~~)"/>', '<r a="~~"/>'),
    ('attrs pairs', '<r py:attrs="[(~~, 1)]"/>', '<r ~~="1"/>'),
    ('content', '<r py:content="~~">x</r>', '<r>~~</r>'),
    ('replace', '<r><b py:replace="~~"/></r>', '<r>~~</r>'),
    ('case', '<r><py:switch test="1"><py:case value="len([~~])">y</py:case></py:switch></r>', '<r>y</r>'),
    ('function', '<r><py:def function="f()">(${~~})</py:def>${f()}</r>', '<r>(~~)</r>'),
    ('late function', '<r>${f()}<py:def function="f()">(${~~})</py:def></r>', '<r>(~~)</r>'),
    ('argument', '<r><py:def function="f(q)">($q)</py:def>${f(~~)}</r>', '<r>(~~)</r>'),
    ('inner function', '<r><py:def function="f(a)"><py:def function="h()">($a${~~})</py:def>${h()}</py:def>${f(1)}</r>', '<r>(1~~)</r>'),
    ('call body', '<r><py:def function="f(c)">(${c()})</py:def><py:call function="f(%caller)">${~~}</py:call></r>', '<r>(~~)</r>'),
    ('call argument', '<r><py:def function="f(c, q)">(${c()}$q)</py:def><py:call function="f(%caller, ~~)">0</py:call></r>', '<r>(0~~)</r>'),
    ('block', '<r><py:block name="k">(${~~})</py:block></r>', '<r>(~~)</r>'),
    ('strip', '<r><b py:strip="not [~~]">x</b></r>', '<r><b>x</b></r>'),
    ('python', '<r><?py q = ~~ ?>$q</r>', '<r>~~</r>'),
    ('lambda', '<r>${(lambda: ~~)()}</r>', '<r>~~</r>'),
    ('comprehension', '<r>${[~~ for q in "a"][0]}</r>', '<r>~~</r>'),
    ('nested comprehension', '<r>${[[~~ for w in "b"] for q in "a"][0][0]}</r>', '<r>~~</r>'),
    ('in loop', '<r><py:for each="i in (1, 2)">${~~}</py:for></r>', '<r>~~~~</r>'),
    ('in else', '<r><py:if test="0">n</py:if><py:else>${~~}</py:else></r>', '<r>~~</r>'),
    ('function in attribute', '<r><py:def function="f()">${~~}</py:def><b a="${f()}"/></r>', '<r><b a="~~"/></r>'),
]
TEXT_SITES = [
    ('text', '-${~~}-', '-~~-'),
    ('for', '{%for q in [~~]%}$q{%end%}', '~~'),
    ('function', '{%def f()%}(${~~}){%end%}${f()}', '(~~)'),
    ('inner function', '{%def f(a)%}{%def h()%}($a${~~}){%end%}${h()}{%end%}${f(1)}', '(1~~)'),
    ('call body', '{%def f(c)%}(${c()}){%end%}{%call() f(%caller)%}${~~}{%end%}', '(~~)'),
    ('block', '{%block k%}(${~~}){%end%}', '(~~)'),
    ('python', '%py q = ~~\n$q', '~~'),
    ('case', '{%switch 1%}{%case len([~~])%}y{%end%}', 'y'),
    ('in else', '{%if 0%}n{%else%}${~~}{%end%}', '~~'),
]

PROBES = [
    ('plain', 's(@)'),
    ('defined', "s(defined('@'))"),
    ('value_of', "s(value_of('@'))"),
    ('default', "s(value_of('@', 'D'))"),
    ('keyword', "s(value_of('@', None))"),
]

VALUES = {'v': 'v', 'None': None, '0': 0, 'empty': '', 'False': False, 'list': [1], 'func': len}


def show(v):
    """The s() of the templates: a name for each value, without special characters."""
    for k, w in VALUES.items():
        if v is w or (type(v) is type(w) and type(v) is not list and v == w):
            return 'V' + k
    return 'O' + type(v).__name__ + ('_' + v if isinstance(v, str) else '_%s' % v if isinstance(v, bool) else '')


def probe_value(kind, value, builtin):
    """value: what context, module or globals say, or MISSING; builtin: what kajiki or Python have by that name, or MISSING"""
    if kind == 'plain':
        v = builtin if value is MISSING else value
        return v
    if kind == 'defined':
        return value is not MISSING
    if kind == 'default':
        return 'D' if value is MISSING else value
    return None if value is MISSING else value


def fill(site, p):
    _, s, w = site
    return s.replace('~~', p)


def expected(site, p):
    w = site[2]
    return w.replace('~~', p)


def build(dialect, site, name, probe, module):
    src = fill(site, probe.replace('@', name))
    if dialect == 0:
        if module is not None:
            src = '<?py %%%s = %s ?>' % (name, module) + src
        return src
    return ('%%py %%%s = %s\n' % (name, module) if module is not None else '') + src


class Sources(Space):
    name = 'sources of a name'
    bound = ('%d places in markup and %d in text templates x 5 ways to look at a name x all subsets of {context, module-level Python block, base_globals} that define '
             'it x 7 values x a plain name, a Python built-in and a Kajiki built-in; a fresh and a used instance' % (len(XML_SITES), len(TEXT_SITES)))
    NAMES = ['x', 'len', 'literal', 'zz9']

    def cases(self, tier):
        for d in (0, 1):
            for s in range(len((XML_SITES, TEXT_SITES)[d])):
                for p in range(len(PROBES)):
                    for n in range(len(self.NAMES)):
                        yield d, s, p, n

    def run(self, case, st):
        d, si, pi, ni = case
        site = (XML_SITES, TEXT_SITES)[d][si]
        kind, probe = PROBES[pi]
        name = self.NAMES[ni]
        if name == 'len' and 'len' in site[1]:
            return
        compile_ = (XMLTemplate, TextTemplate)[d]
        for module in (None, "'M'"):
            src = build(d, site, name, probe, module)
            for base in (None, 'G'):
                glob = {'s': show}
                if base:
                    glob[name] = base
                tpl = compile_(src, base_globals=glob)
                for key in [None] + sorted(VALUES):
                    value = MISSING
                    if key:
                        value = VALUES[key]
                    elif module:
                        value = 'M'
                    elif base:
                        value = 'G'
                    elif name == 'literal':
                        if kind != 'plain':
                            continue            # whether a built-in counts as defined is not said
                        value = 'literal'
                    builtin = len if name == 'len' else MISSING
                    v = probe_value(kind, value, builtin)
                    ctx = {name: VALUES[key]} if key else {}
                    keep = dict(ctx)
                    for ctx_ in (ctx, keep):
                        try:
                            got = tpl(ctx_).render()
                        except NameError as e:
                            got = NameError
                        except Exception as e:
                            got = '%s: %s' % (type(e).__name__, e)
                        st.traces += 1
                        st.steps += 1
                        if v is MISSING:
                            want = NameError
                        elif v == 'literal':
                            want = expected(site, 'Ofunction')
                        else:
                            want = expected(site, show(v))
                        if got != want:
                            raise Violation('value of a name', source=src, context='%r base_globals %r' % (ctx, base), expected=str(want), observed=str(got))
                        outcome(st, str(want))
                    if ctx != keep:
                        raise Violation('context changed', source=src, context=repr(keep), expected=repr(keep), observed=repr(ctx))


RESERVED = set('local self parent child parent_block _ gettext defined value_of getattr locals kajiki __kj__ __builtins__'.split())
WORDS = set('''template tpl kajiki Template expose context ctx name names value values item items key keys page title text content loader filename mode
    block blocks function args kwargs attrs body caller call parent_block case switch test each vars data result res ret out output it iter
    s t k v n m render base_globals is_fragment encoding source
    literal Markup escape collect flattener match group line lineno py_text ir node root tree user request response session url
    Name NAME nAmE x1 x_1 _x x__ _1 \xe9t\xe9 \u03b1\u03b2 \u4e2d'''.split())


def names():
    out = set(string.ascii_letters) | WORDS
    out |= set(n for n in dir(__import__('builtins')) if not n.startswith('__') and n not in ('None', 'True', 'False', 'repr', 'str'))
    for m in ('kajiki', 'kajiki.template', 'kajiki.ir', 'kajiki.util', 'kajiki.xml_template', 'kajiki.text'):
        try:
            out |= set(dir(__import__(m, fromlist=['x'])))
        except ImportError:
            pass
    return sorted(n for n in out - RESERVED if not n.startswith('__'))


class ContextNames(Space):
    name = 'names of the context'
    bound = ('every one-letter name, every Python built-in, every name in the modules of the library and a word list (without the documented names of the '
             'language), as a context variable, module-level name and global, in a template that uses each construct of the language, alone, extending, including and '
             'importing; both languages')
    XML = {
        'lib': '<lib><py:def function="zq_g(a=1)">G$a[$@]</py:def>L[${@}]</lib>',
        'lay': '<html><py:block name="zq_k">k[$@]</py:block><py:block name="zq_m">m[${@}]<i py:if="True"/></py:block>[${value_of(\'@\')}]${zq_f(2)}<py:def function="zq_f(a)">lf</py:def></html>',
        'main': '<py:extends href="lay"><py:block name="zq_k">K${parent_block()}[$@]<py:import href="lib" alias="zq_lib"/>${zq_lib.zq_g()}${zq_lib.zq_g(a=2)}'
                '<py:include href="lib"/>${@}<py:for each="zq_i in range(2)">$zq_i<py:if test="zq_i">y</py:if><py:else>n</py:else></py:for></py:block>'
                '<py:def function="zq_f(a)">f$a[$@]<py:with vars="zq_w=a; zq_v=zq_w+1">$zq_w$zq_v</py:with><py:switch test="a"><py:case value="2">two[$@]</py:case>'
                '<py:else>other</py:else></py:switch><b py:attrs="{\'a\': @}" c="${1}-$@" py:strip="False">${\'&lt;\'}</b><b c="${None}" checked="${True}" '
                'py:content="@"/><i py:replace="@"/>${zq_c(3)}<py:def function="zq_c(q)">${q}$a</py:def><py:def function="zq_d(c)">${c(a)}</py:def><py:call args="z" function="zq_d(%caller)">$z[$@]</py:call>'
                '<?py zq_p = @ ?>$zq_p</py:def></py:extends>',
    }

    # inner functions have to precede their use
    XML['main'] = XML['main'].replace('${zq_c(3)}<py:def function="zq_c(q)">${q}$a</py:def>', '<py:def function="zq_c(q)">${q}$a</py:def>${zq_c(3)}')
    TEXT = {
        'lib': '{%def zq_g(a=1)%}G$a[$@]{%end%}L[${@}]',
        'lay': "{%block zq_k%}k[$@]{%end%}[${value_of('@')}]${zq_f(2)}{%def zq_f(a)%}lf{%end%}",
        'main': '{%extends "lay"%}{%block zq_k%}K${parent_block()}[$@]{%import "lib" as zq_lib%}${zq_lib.zq_g()}{%include "lib"%}'
                '{%for zq_i in range(2)%}$zq_i{%if zq_i%}y{%else%}n{%end%}{%end%}{%end%}{%def zq_f(a)%}f$a[$@]{%switch a%}{%case 2%}two[$@]{%else%}other{%end%}'
                '{%def zq_c(q)%}${q}$a{%end%}${zq_c(3)}{%def zq_d(c)%}${c(a)}{%end%}{%call(z) zq_d(%caller)%}$z[$@]{%end%}\n%py zq_p = @\n$zq_p{%end%}',
    }

    WANT = [
        '<html>Kk[v][v]G1[v]G2[v]<lib>L[v]</lib>v0n1ym[v]<i/>[v]f2[v]23two[v]<b c="1-v" a="v">&lt;</b><b checked="True">v</b>v322[v]v</html>',
        'Kk[v][v]G1[v]L[v]0n1y[v]f2[v]two[v]322[v]\nv']

    def cases(self, tier):
        for n in names():
            yield (n,)

    def sources(self, d, name):
        out = {}
        for k, s in (self.XML, self.TEXT)[d].items():
            s = s.replace('$@', '${@}').replace('@', name)
            if name == 'range':
                s = s.replace('in range(2)', 'in (0, 1)')
            out[k] = s
        return out

    def run(self, case, st):
        name, = case
        if name in ('a', 'q', 'z', 'c'):
            return
        for d in (0, 1):
            compile_ = (XMLTemplate, TextTemplate)[d]
            for where in ('context', 'globals', 'all'):
                got = []
                for n in (name, 'zq_other'):
                    src = self.sources(d, n)
                    base = {n: 'v'} if where != 'context' else {}
                    # a function of that name in the library must not matter; the value must get everywhere
                    tpls = dict((k, compile_(s, base_globals=base)) for k, s in src.items())
                    try:
                        r = MockLoader(tpls).import_('main')({n: 'v'} if where != 'globals' else {}).render()
                    except Exception as e:
                        r = '%s: %s' % (type(e).__name__, e)
                    got.append(r)
                    st.traces += 1
                    st.steps += 1
                if got != [self.WANT[d]] * 2:
                    raise Violation('a variable of that name', source='%s %r' % (where, self.sources(d, name)), context='{%r: "v"}' % name, expected=self.WANT[d],
                                    observed=repr(got))
                outcome(st, (d, where, got[0]))


class Keys(Space):
    name = 'contexts'
    KEYS = ['x', 'a b', 'class', '', 'x.y', '0', 'a-b', '\xe9', 'x' * 300, 'None', '$x', '%x', "it''s", '\n', '__x__', 'X']
    bound = 'all subsets of up to 2 of %d keys (not all of them identifiers) x 7 kinds of mappings x every key looked up with defined() and value_of(); no context at all' % len(KEYS)

    class Sub(dict):
        def __missing__(self, key):
            raise RuntimeError(key)

    def cases(self, tier):
        for n in range(3):
            for c in itertools.combinations(range(len(self.KEYS)), n):
                for k in range(7):
                    yield c, k

    def run(self, case, st):
        keys, kind = case
        ctx = dict((self.KEYS[k], 'v%d' % k) for k in keys)
        arg = [dict, collections.OrderedDict, lambda c: collections.defaultdict(list, c), self.Sub, collections.UserDict,
               lambda c: collections.ChainMap(c, {}), lambda c: dict(c)][kind](ctx)
        if kind in (4, 5):
            arg = dict(arg)
        for d, t in ((0, XMLTemplate('<r>${"|".join("%s%s%s" % (defined(k), value_of(k), value_of(k, "D")) for k in KEYS)}</r>')),
                     (1, TextTemplate('${"|".join("%s%s%s" % (defined(k), value_of(k), value_of(k, "D")) for k in KEYS)}'))):
            arg['KEYS'] = self.KEYS
            want = '|'.join('%s%s%s' % (k in ctx, ctx.get(k), ctx.get(k, 'D')) for k in self.KEYS)
            if d == 0:
                want = '<r>%s</r>' % want
            before = dict(arg)
            inst = t(arg)
            got = inst.render()
            other = t({'KEYS': self.KEYS}).render()
            again = t(arg).render()
            st.traces += 3
            st.steps += 1
            empty = '|'.join('FalseNoneD' for k in self.KEYS)
            if got != want or again != want or (other != '<r>%s</r>' % empty and other != empty) or dict(arg) != before:
                raise Violation('names of the context', source=repr(sorted(ctx)), expected=want, observed='%s / %s / %s' % (got, again, other))
            outcome(st, got)
        if not keys:
            for args in ((), ({},), (None,)):
                got = XMLTemplate('<r>${defined("x")}${value_of("x", "D")}</r>')(*args).render()
                if got != '<r>FalseD</r>':
                    raise Violation('no context', source=repr(args), expected='<r>FalseD</r>', observed=got)


class Composed(Space):
    name = 'names in composed templates'
    # each of up to 4 templates extends (e), includes (i), or imports (m) and calls the next one
    GRAPHS = [dict(zip('abcd', [r + ':' + n for r, n in zip(rels, 'bcd')] + [''])) for k in (1, 2, 3) for rels in itertools.product('eim', repeat=k)]
    bound = ('all %d chains of up to 4 templates, each extending, including or importing the next, x all subsets of templates with a module-level value of the same name x context or '
             'not x globals or not x place (body, function, block) x both languages; each template sees the context, else its own value, else the globals' % len(GRAPHS))


    def cases(self, tier):
        for g in range(len(self.GRAPHS)):
            n = len(self.GRAPHS[g])
            for mask in range(2 ** n):
                for ctx in (0, 1):
                    for base in (0, 1):
                        for d in (0, 1):
                            yield g, mask, ctx, base, d

    def run(self, case, st):
        g, mask, ctx, base, d = case
        graph = self.GRAPHS[g]
        x = d == 0
        order = sorted(graph)
        own = set(n for i, n in enumerate(order) if mask >> i & 1)
        shown = lambda n: ctx or n in own or base

        def value(n):
            return 'C' if ctx else 'M' + n if n in own else 'G'
        probe = lambda n: '[$x${value_of(\'x\')}]' if shown(n) else ''
        pval = lambda n: '[%s]' % (value(n) * 2) if shown(n) else ''
        blk = '<py:block name="%s">%s</py:block>' if x else '{%%block %s%%}%s{%%end%%}'
        fn = '<py:def function="%s()">%s</py:def>' if x else '{%%def %s()%%}%s{%%end%%}'
        src = {}

        def rel(n):
            return graph[n].split(':') if graph[n] else ('', '')

        def inner(n):
            """source and output of what template n brings in"""
            r, o = rel(n)
            if r == 'i':
                return ('<py:include href="%s"/>' if x else '{%%include "%s"%%}') % o, main(o)
            if r == 'm':
                return (('<py:import href="%s" alias="al"/>' if x else '{%%import "%s" as al%%}') % o) + '${al.g%s()}' % o, 'g' + o + pval(o) + func(o)
            return '', ''

        def func(n):
            """output of the rest of function g<n>"""
            r, o = rel(n)
            return inner(n)[1] if r in ('i', 'm') else ''

        def main(n):
            r, o = rel(n)
            if r != 'e':
                return ('<%s>' % n if x else '(') + pval(n) + 'k' + n + pval(n) + 'g' + n + pval(n) + func(n) + inner(n)[1] + ('</%s>' % n if x else ')')
            # the root of the chain with the block of the top one
            chain = [n]
            while rel(chain[-1])[0] == 'e':
                chain.append(rel(chain[-1])[1])
            root = chain[-1]
            blocks = ''.join('k' + c + pval(c) for c in chain)
            return ('<%s>' % root if x else '(') + pval(root) + blocks + 'g' + root + pval(root) + func(root) + inner(root)[1] + ('</%s>' % root if x else ')')
        for n in order:
            r, o = rel(n)
            mod = ''
            if n in own:
                mod = "<?py %%x = 'M%s' ?>" % n if x else "{%%py %%x = 'M%s' %%}" % n
            f = fn % ('g' + n, 'g' + n + probe(n) + (inner(n)[0] if r in ('i', 'm') else ''))
            k = blk % ('k', 'k' + n + probe(n) + ('${parent_block()}' if r == 'e' else ''))
            if r == 'e':
                src[n] = ('<py:extends href="%s">%s</py:extends>' if x else '{%%extends "%s"%%}%s') % (o, mod + f + k)
            else:
                src[n] = ('<%s>%%s</%s>' % (n, n) if x else '(%s)') % (mod + probe(n) + k + '${g%s()}' % n + f + inner(n)[0])
        if not x:
            src = dict((n, s.replace('{%py %x', '\n%py %x').replace("' %}", "'\n")) for n, s in src.items())
        want = main('a')
        try:
            tpls = dict((n, (XMLTemplate if x else TextTemplate)(s, base_globals={'x': 'G'} if base else None)) for n, s in src.items())
            loader = MockLoader(tpls)
            got = [loader.import_('a')({'x': 'C'} if ctx else {}).render() for _ in (1, 2)]
        except Exception as e:
            got = ['%s: %s' % (type(e).__name__, e)]
        st.traces += 2
        st.steps += len(order)
        if not x:
            got = [o.replace('\n', '') for o in got]
        if set(got) != {want}:
            raise Violation('a name in composed templates', source=repr(src), context='context %s, globals %s' % (bool(ctx), bool(base)), expected=want, observed=repr(got))
        outcome(st, want)


def spaces():
    return [Sources(), ContextNames(), Keys(), Composed()]


ASSUMPTIONS = ['the names of the language (local, self, parent, child, parent_block, _, gettext, defined, value_of) and kajiki and the built-ins getattr and locals are not used as variables, nor names that start with two underscores',
               'names that are bound locally (loops, py:with, arguments) are the subject of C04-C06']
