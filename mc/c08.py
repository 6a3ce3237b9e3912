"""C08: expressions in text are recognised and evaluated as Python.

Oracle: a reference scanner over the text as the author wrote it.  At ``${`` the expression is the
shortest stretch up to a ``}`` that Python accepts as an expression; ``$name.name`` is a dotted
name; ``$$`` a dollar sign; in markup any other ``$`` is text.  Values come from Python's own eval.
"""
import itertools
import re

from mc import sizes, values
from mc.core import Space, Violation, outcome
from mc.xmlspace import XMLTemplate, kajiki

from kajiki import TextTemplate


class O(object):
    x = 'ox'
    y_1 = 7

    @property
    def o(self):
        return self

    def m(self, *a, **kw):
        return 'm%r%r' % (a, sorted(kw))

    def __getitem__(self, k):
        return 'item%s' % (k,)


ENV = dict(a=1, b='bb', _u='under', A='upper', A1='AONE', o=O(), s='x', z=0, e='', d={'k': 'v', '}': 'brace'},
           l=[3, 4, 5], n1='nn')
ENV.update((k, 'v' + k) for k in (
    'aa a1 a_ ba b1 b_ n1a n11 n1_ A1a A11 A1_ _ua _u1 _u_ aa1 a1a aaa ba1 b1a b1_ a1_').split())

EXPR = ["${a}", "${ a }", "${a+1}", "${'}'}", '${"{"}', "${{'k': a}['k']}", "${'$a'}", "${'${a}'}",
        "${'$$'}", "${1 < 2}", "${2 > 1 and 'y'}", "${a & 3}", "${(lambda x: x+1)(1)}",
        "${[x for x in (1,2)]}", "${'''t}'''}", "${f'{b}'}", "${f'{{}}'}", "${(1,\n2)}", "${\n b }", "${b\n}",
        "${b if a else z}", "${d['}']}", "${{}}", "${{1:{2:3}}}", "${1,2}", "${'\\''}",
        "${r'\\}'}", '${"\'"}', "${not a}", "${a==1}", "${l[1:]}", "${'#'}", "${'%d%%' % a}",
        "${o.m(k='}')}", "${'a''b'}", "${1<<2}", "${l[0]>=3}", "${{x: x for x in l}[3]}", "${z}", "${e}",
        "${b!r}"[:-3] + '}', "${'\u00e9\u2028'}", "${b.upper()}", "${o['}{']}", "${'''\n}'''}", "${'{' '}'}",
        "${{'}'} == {'}'}}", "${u'x'}", "${-a}", "${~a}", "${b\t}", "${ (b) }", "${a<2<3}", "${a!=2}"]
NAMED = ["$a", "$b", "$o.x", "$_u", "$A1", "$o.o.x", "$o.y_1", "$n1"]
TEXT = [' ', '}', '{', '{}', '$$', '$', '$ ', '$1', '$.', '.', 'a', '1', '_', '"', "'", '<', '&', '>', '\n',
        '(', '[', '\xe9', '}}', '{{', '#', '%', ')', '$(', '$-', '.x', '$\xe9', ':', ',', '$}', '..', '\t', '-', '$<', '.1', '._', '.A', '.\xe9', '.$', '.1a']
ALL = EXPR + NAMED + TEXT
CORE = ["${a}", "${'}'}", "${{'k': a}['k']}", "${'$a'}", "${1 < 2}", "${(1,\n2)}", "${ b }", "${{}}", "$b", "$o.x",
        "$n1", ' ', '}', '{', '$$', '$', '$1', '.', 'a', '<', '"', '\n', '.x', "'", '$ ']

NAME = re.compile(r'[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*', re.I)


class OutOfSpace(Exception):
    pass


def scan(s, markup=True):
    """[(is_expr, text)]"""
    out, i, lit = [], 0, ''
    while i < len(s):
        if s[i] != '$':
            lit += s[i]
            i += 1
            continue
        rest = s[i + 1:]
        if rest.startswith('$'):
            lit += '$'
            i += 2
            continue
        mo = NAME.match(rest)
        if mo or rest.startswith('{'):
            if lit:
                out.append((False, lit))
                lit = ''
            if mo:
                out.append((True, mo.group()))
                i += 1 + mo.end()
                continue
            j = 0
            while True:
                j = rest.find('}', j + 1)
                if j < 0:
                    raise OutOfSpace()
                body = rest[1:j].strip(' \t\n\r\x0c')
                try:
                    compile(body, 'x', 'eval')
                except (SyntaxError, ValueError):
                    continue
                break
            out.append((True, '(' + body + ')'))
            i += j + 2
            continue
        if not markup:
            raise OutOfSpace()
        lit += '$'
        i += 1
    if lit:
        out.append((False, lit))
    return out


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def qesc(s):
    return esc(s).replace('"', '&quot;')


_cache = {}


def value(code):
    v = _cache.get(code)
    if v is None:
        v = _cache[code] = str(eval(code, dict(ENV)))
    return v


def expect(raw, text, expr, markup=True):
    return ''.join(expr(value(t)) if e else text(t) for e, t in scan(raw, markup))


SPECIAL = re.compile(r'[<>&"]')
SMALL = re.compile(r'\s*%|\{%')
TRICKY = re.compile(r'^\s*%|\{%|\\', re.M)


def verify(raw, st, which='tacsxTe'):
    """Put the same text at every kind of position and compare."""
    same = str
    source, want = [], []
    if 't' in which:
        source.append('<p>%s</p>' % esc(raw))
        want.append('<p>%s</p>' % expect(raw, esc, qesc))
        # one element deeper and next to other elements
        source.append('<b/>%s<i>%s</i>' % (esc(raw), esc(raw)))
        want.append('<b/>%s<i>%s</i>' % ((expect(raw, esc, qesc),) * 2))
    if 'a' in which and raw:
        flat = re.sub('[\n\t]', ' ', raw)
        source.append('<q r="%s"/>' % qesc(raw))
        want.append('<q r="%s"/>' % expect(flat, qesc, qesc))
        source.append("<q py:strip='' r=\"%s\">.</q><q r='%s' s='1'/>" % (
            qesc(raw), qesc(raw).replace("'", '&apos;')))
        want.append('.<q r="%s" s="1"/>' % expect(flat, qesc, qesc))
    specials = any(SPECIAL.search(value(t)) for e, t in scan(raw) if e)
    if 'c' in which and not specials and ']]>' not in raw:
        source.append('<p><![CDATA[%s]]></p>' % raw)
        want.append('<p><![CDATA[%s]]></p>' % expect(raw, same, same))
    if 's' in which and not specials and raw:
        for tag in ('script', 'style'):
            source.append('<%s>%s</%s>' % (tag, esc(raw), tag))
            want.append('<%s>/*<![CDATA[*/%s/*]]>*/</%s>' % (tag, expect(raw, same, same), tag))
    if source:
        run(XMLTemplate, '<d>%s</d>' % ''.join(source), '<d>%s</d>' % ''.join(want), st)
    if 'T' in which and not TRICKY.search(raw) and raw:
        try:
            w = expect(raw, same, same, markup=False)
            we = expect(raw, same, qesc, markup=False)
        except OutOfSpace:
            return
        run(TextTemplate, raw, w, st)
        run(TextTemplate, '-' + raw + '-\n%if 1\n-' + raw + '-\n%end\n', '-' + w + '-\n-' + w + '-\n', st)
        run(lambda s: TextTemplate(s, autoescape=True), raw, we, st)


def run(factory, source, want, st):
    try:
        got = factory(source)(dict(ENV)).render()
    except Exception as e:
        got = '%s: %s' % (type(e).__name__, str(e)[:400])
    st.traces += 1
    st.steps += len(source)
    if got != want:
        raise Violation('output differs from the reference scanner', source=source, expected=want,
                        observed=got, context='see ENV in mc/c08.py')
    outcome(st, got)


class Raw(Space):
    def text(self, case):
        return case

    def describe(self, case):
        return repr(self.text(case))

    def run(self, case, st):
        raw = self.text(case)
        try:
            for e, t in scan(raw):
                if e:
                    value(t)
        except (OutOfSpace, NameError, AttributeError):
            st.skipped += 1
            return
        verify(raw, st)


class Sequences(Raw):
    name = 'token sequences'
    bound = ('all sequences of up to 2 of %d expression, dollar and delimiter tokens, and of 3 out of '
             '%d (thorough: of 3 out of all, of 4 out of the smaller set), each at text, nested text, attribute, '
             'stripped element, CDATA, script, style and text-template positions' % (len(ALL), len(CORE)))

    def cases(self, tier):
        seen = set()
        for n in range(1, 3):
            for c in itertools.product(range(len(ALL)), repeat=n):
                yield 'A', c
        core = CORE if tier != 'quick' else CORE
        for c in itertools.product(range(len(core)), repeat=3):
            yield 'C', c
        if tier != 'quick':
            for c in itertools.product(range(len(ALL)), repeat=3):
                yield 'A', c
            for c in itertools.product(range(len(CORE)), repeat=4):
                yield 'C', c

    def text(self, case):
        t = ALL if case[0] == 'A' else CORE
        return ''.join(t[i] for i in case[1])


BODY = ['a', "'", '"', '{', '}', '$', '<', '(', ')', '[', ']', ':', '1', ' ', '+', '\\', ',', '&', '>', '.']
BODY_SMALL = ["a", "'", '"', '{', '}', '$', '<', ':', '1', '(', ')', '\\']


class Bodies(Raw):
    name = 'expression bodies'
    bound = ('all strings up to 4 characters over %d and 5 over %d (thorough: 5 and 6) characters between ${ and } '
             'that Python accepts as an expression, followed by text with braces and quotes; invalid ones are out of the '
             'space' % (len(BODY), len(BODY_SMALL)))

    def cases(self, tier):
        # Enumerate all bodies; only those Python accepts are run
        for alphabet, lo, hi in ((BODY, 1, 4), (BODY_SMALL, 5, 5)) if tier == 'quick' else (
                (BODY, 1, 5), (BODY_SMALL, 6, 6)):
            for n in range(lo, hi + 1):
                for first in itertools.product(alphabet, repeat=max(0, n - 2)):
                    yield first, n, alphabet is BODY

    def describe(self, case):
        return '${%s...} of length %d' % (''.join(case[0]), case[1])

    def run(self, case, st):
        first, n, big = case
        alphabet = BODY if big else BODY_SMALL
        for last in itertools.product(alphabet, repeat=n - len(first)):
            body = ''.join(first + last)
            st.steps += 1
            try:
                compile(body.strip(), 'x', 'eval')
                v = value('(' + body.strip() + ')')
            except Exception:
                continue
            for tail in ('', '}', "'}\"", '$b'):
                raw = '${' + body + '}' + tail
                try:
                    s = scan(raw)
                    for e, t in s:
                        if e:
                            value(t)
                except Exception:
                    continue
                verify(raw, st, 'tasT')


SEPS = ['\n', '\r\n', '\r', '\t', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\xa0', '\u2028', '\u2029',
        '\u3000', '\ufeff', '\u200b', '\U0001f600', '\xe9', 'e\u0301', '\x7f', '\ud7ff', '\ufffd']
FRAMES = ['S${a}', '${a}S', "${'S'}", "${'S'}S${a}", "S${b}S$b", '${(a,\nb)}S${a}', 'S$b.S', "x\nS${'a'}\n${b}",
          "${b}\nS${\nb}", "$bS", "${'''S'''}${a}", "${bS}", "${Sb}", "SS${a}SS${b}", '$$S$$', "${l[0]}S}S{",
          "${('S' +\n'c')}d", "${('S',\n'S',\nb)}S$b", "${\n('S'\n'}')}d}", "${b}S${(b,\n'S',\n a)}${\n'S'}", "S\n${('S',\n\n\n'{S')}"]


class Separators(Raw):
    name = 'unusual characters'
    bound = 'all of %d separators and unusual characters in %d frames around and inside expressions' % (
        len(SEPS), len(FRAMES))

    def cases(self, tier):
        for f in FRAMES:
            for s in SEPS:
                yield f, s

    def text(self, case):
        return case[0].replace('S', case[1])

    def run(self, case, st):
        raw = self.text(case)
        which = 'tacsTe'
        if re.search('[\x00-\x08\x0b\x0c\x0e-\x1f]', raw):
            which = 'T'       # not XML characters
        try:
            ok = scan(raw)
        except OutOfSpace:
            ok = None
        if ok is None:
            st.skipped += 1
            return
        for e, t in ok:
            if e:
                try:
                    value(t)
                except Exception:
                    st.skipped += 1
                    return
        if '\r' in raw:
            if case[1] == '\r' and any(e and '\r' in t for e, t in ok) or 'Sb' in case[0] or 'bS' in case[0]:
                return        # a lone carriage return as a line break within an expression is not claimed
            # XML turns line breaks into line feeds; only text templates keep them
            verify(raw, st, 'T')
            norm = raw.replace('\r\n', '\n').replace('\r', '\n')
            try:
                scan(norm)
            except OutOfSpace:
                return
            run(XMLTemplate, '<p>%s</p>' % esc(raw), '<p>%s</p>' % expect(norm, esc, qesc), st)
            return
        verify(raw, st, which)


LENS = [1, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65536]


class Lengths(Raw):
    name = 'long texts'
    bound = ('text before, between, inside and after expressions of %d lengths, of one line and of many lines'
             % len(LENS))

    def cases(self, tier):
        for n in LENS if tier != 'quick' else LENS[:-1]:
            for kind in range(7):
                yield n, kind

    def text(self, case):
        n, kind = case
        t = 'x' * n
        if kind == 0:
            return t + '${b}' + t + '$b ' + t
        if kind == 1:
            return ('%s\n' % ('y' * 20)) * (n // 21 + 1) + '${b}$$'
        if kind == 2:
            return "${'%s'}$b" % t
        if kind == 3:
            return '\n' * min(n, 5000) + '${(a,%s b)}' % ('\n' * min(n, 5000)) + '$b'
        if kind == 4:
            return '${a}' * min(n, 1100)
        if kind == 5:
            return '$b ' * min(n, 1100)
        return '$$' * min(n, 1100) + '${b}'

    def describe(self, case):
        return '%d characters, kind %d' % case


class W(str):
    """A value with every attribute."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return W(self + '/' + name.upper())


def names():
    for n in range(1, 5):
        for t in itertools.product('aB_1', repeat=n):
            t = ''.join(t)
            if t[0] != '1' and not t.startswith('__') and t != '_':
                yield t
    for t in 'abcdefghijklmnopqrstuvwxyzACDEFGHIJKLMNOPQRSTUVWXYZ':
        yield t + 'q'
        yield t + t.swapcase() + '9'
    for t in ('if_ is_ None_ nonexist True1 lambda_ forx in_ not_x printx self_ notx andy order importx x0b x0 e1 b1e5 u8 rb br_ ur fr_ f_ kajiki_ local_ '
              'parentx child_ _gettext _1 _a_ a__b a___ x__ data-').split() + ['n' * 60, 'N_' * 130]:
        if t[-1] != '-':
            yield t


NAMES = list(dict.fromkeys(n for n in names()))
for n in NAMES + ['w']:
    ENV.setdefault(n, W('v' + n))
NFRAMES = ['$N', '${N}', '$N.', '$N-$N', '$N$N', '${N}$N', 'a$N', '$N(1)', '$N[0]', '$N.x.', '$w.N', '$w.N.N', '$w.N$N', '$N.N.', "${[N][0]}", '${N.N}', '$$N', '$$$N', '$ N', '{$N}',
           '$N\nN', '$N}', '$N;', '$N:x', '$N,$w.N,', '$N...', '"$N"', "'$w.N'", '$N%', '$N\xe9', '$N.1', '$w.N.$N', '$N@x', '$N=1', '$w._N', '$w.N_', '$w.__class__.__name__ N',
           '$w.N.N.N', '$w.N.a.N.a', '$N.a.b.c.d.e', '$w.N.N.N.N.N.N.N.N.N.', '$w' + '.N' * 40 + ' N']


class Names(Raw):
    name = 'names'
    bound = '%d names (all up to 4 characters over a B _ 1, every letter, prefixes that look like keywords, numbers and string prefixes, long ones) in %d frames' % (
        len(NAMES), len(NFRAMES))

    def cases(self, tier):
        for n in range(len(NAMES)):
            yield n

    def describe(self, case):
        return NAMES[case]

    def run(self, case, st):
        for f in NFRAMES:
            raw = f.replace('N', NAMES[case]).replace('__' + 'n' + 'ame__', '__name__')
            try:
                for e, t in scan(raw):
                    if e:
                        value(t)
            except (OutOfSpace, NameError, AttributeError):
                st.skipped += 1
                continue
            verify(raw, st)


class Sites(Space):
    name = 'directive arguments'
    bound = ('all %d braced expressions used as the Python argument of each directive (py:if, py:for, py:with, '
             'py:switch/case, py:content, py:replace, py:attrs, py:strip, def default, call) in both languages'
             % len(EXPR))

    def cases(self, tier):
        for i in range(len(EXPR)):
            yield i

    def describe(self, case):
        return EXPR[case]

    def run(self, case, st):
        x = EXPR[case][2:-1].strip()
        if '\n' in x:
            if "'''" in x:
                return
            x = x.replace('\n', ' ')
        v = eval('(' + x + ')', dict(ENV))
        q = qesc(x)
        V = qesc(str(v))
        if not x.startswith('1,'):
            run(XMLTemplate, '<d><p py:if="%s">y</p><py:else>n</py:else></d>' % q,
                '<d><p>y</p></d>' if v else '<d>n</d>', st)
            run(XMLTemplate, '<d><p py:with="w=%s">$w</p></d>' % q, '<d><p>%s</p></d>' % V, st)
            run(XMLTemplate, '<d><p py:strip="%s">.</p></d>' % q, '<d>.</d>' if v else '<d><p>.</p></d>', st)
            try:
                constant = eval('(' + x + ')', {}) is not None
            except NameError:
                constant = False
            if constant:
                run(XMLTemplate, "<d><py:def function=\"f(x=%s)\">$x</py:def>${f()}</d>" % q, '<d>%s</d>' % V, st)
            if "'" not in x and '%' not in x:
                run(TextTemplate, '%%if %s\ny\n%%else\nn\n%%end\n' % x, 'y\n' if v else 'n\n', st)
            if '%' not in x:
                run(TextTemplate, '{%%switch %s%%}{%%case %s%%}y{%%else%%}n{%%end%%}' % (x, x), 'y', st)
                run(TextTemplate, '{%%for i in [%s]%%}$i,{%%end%%}' % x, str(v) + ',', st)
                if constant:
                    run(TextTemplate, '{%%def f(x=%s)%%}$x{%%end%%}${f()}' % x, str(v), st)
            run(XMLTemplate, '<d><py:switch test="%s"><py:case value="%s">y</py:case><py:else>n</py:else></py:switch></d>'
                % (q, q), '<d>y</d>', st)
            run(XMLTemplate, '<d><py:call args="y" function="f(%%caller)">$y.</py:call>'
                '<py:def function="f(g)">${g(%s)}</py:def></d>' % q, '<d>%s.</d>' % V, st)
            run(XMLTemplate, '<d><p py:attrs="dict(r=%s)"/></d>' % q, '<d><p r="%s"/></d>' % V, st)
        run(XMLTemplate, '<d><p py:for="i in [%s]">$i</p></d>' % q,
            '<d>%s</d>' % ''.join('<p>%s</p>' % qesc(str(i)) for i in eval('[%s]' % x, dict(ENV))), st)
        run(XMLTemplate, '<d><p py:content="%s"/><p py:replace="%s"/></d>' % (q, q), '<d><p>%s</p>%s</d>' % (V, V), st)


def spaces():
    return [sizes.Sizes(sizes.C08), Names(), Sequences(), Separators(), Lengths(), Sites(), Bodies()]


ASSUMPTIONS = ['no NUL characters; no lone carriage return within an expression',
               'Python comments inside an expression are out of the space',
               'values inserted at CDATA and script positions contain no markup characters (C01 covers those)']
