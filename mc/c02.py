"""C02: trusted markup is emitted verbatim every time it is used."""
import itertools
import re

from mc import core, values, vocab
from mc.core import Space, Violation, outcome
from mc.c01 import decode
from mc.xmlmodel import BOOLEAN, VOID

kajiki = core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402
from kajiki.util import literal  # noqa: E402


def make(kind, text):
    """A trusted value with the given markup, as a user gets hold of one."""
    if kind in ('literal', 'Markup'):
        box = []
        XMLTemplate('<d><?py keep(%s(s)) ?></d>' % kind)(dict(keep=box.append, s=text)).render()
        return box[0]
    if kind == 'nested':
        box = []
        XMLTemplate('<d><?py keep(literal(literal(s))) ?></d>')(
            dict(keep=box.append, s=text)).render()
        return box[0]
    if kind == '__html__':
        return values.Html(text)
    if kind == 'str with __html__':
        return values.HtmlStr(text)
    if kind == 'proxy':
        return values.Proxy(values.Html(text))
    if kind == 'instance attribute':
        o = values.Obj('str:' + text)
        o.__html__ = lambda: text
        return o
    if kind == 'returns trusted str':
        return values.Html(values.HtmlStr(text))
    if kind == 'mapping':
        return HtmlDict(text=text)
    if kind == 'false':
        return HtmlFalse(text)
    raise ValueError(kind)


class HtmlDict(dict):
    def __html__(self):
        return self['text']

    def __str__(self):
        return 'str:' + self['text']


class HtmlFalse(values.Html):
    def __len__(self):
        return 0


KINDS = ('literal', 'Markup', '__html__', 'str with __html__', 'nested', 'proxy', 'instance attribute', 'returns trusted str', 'mapping', 'false')

# name, template (in text content), output: # = the markup
SINKS = [
    ('braced', '<d>a${m}b</d>', 'a#b'),
    ('name', '<d>$m</d>', '#'),
    ('twice', '<d>$m$m</d>', '##'),
    ('attribute of object', '<d>${o.m}|$o.m</d>', '#|#'),
    ('item', '<d>${l[0]}${l[-1]}</d>', '##'),
    ('conditional', '<d>${m if 1 else 0}${0 or m}</d>', '##'),
    ('call', '<d>${fn()}${fn()}</d>', '##'),
    ('content', '<d><i py:content="m"/></d>', '<i>#</i>'),
    ('replace', '<d><i py:replace="m"/><py:replace value="m"/></d>', '##'),
    ('strip', '<d><i py:strip="">$m</i></d>', '#'),
    ('if', '<d><i py:if="1">$m</i></d>', '<i>#</i>'),
    ('else', '<d><i py:if="0"/><py:else>$m</py:else></d>', '#'),
    ('for', '<d><py:for each="x in [m, m]">$x,</py:for></d>', '#,#,'),
    ('for repeated', '<d><py:for each="x in (1, 2, 3)">$m</py:for></d>', '###'),
    ('switch', '<d><py:switch test="1"><py:case value="1">$m</py:case></py:switch></d>', '#'),
    ('with', '<d><py:with vars="x=m; y=x">$x$y$m</py:with></d>', '###'),
    ('def', '<d><py:def function="f(a)">[$a]</py:def>${f(m)}${f(m)}</d>', '[#][#]'),
    ('def nested', '<d><py:def function="f(a)"><py:def function="g(a)">[$a$m]</py:def>${g(a)}'
     '</py:def>${f(m)}</d>', '[##]'),
    ('def chained', '<d><py:def function="g(a)"><b>$a</b></py:def><py:def function="f(a)">${g(a)}'
     '${g(a)}</py:def>${f(m)}</d>', '<b>#</b><b>#</b>'),
    ('literal of result', '<d><py:def function="f()"><b>$m</b></py:def>${literal(f())}</d>',
     '<b>#</b>'),
    ('call block', '<d><py:def function="f(c)">${c()}${c()}</py:def>'
     '<py:call function="f(%caller)">$m</py:call></d>', '##'),
    ('call args', '<d><py:def function="f(c)">${c(m)}</py:def>'
     '<py:call args="a" function="f(%caller)"><u>$a</u></py:call></d>', '<u>#</u>'),
    ('block', '<d><py:block name="b">$m</py:block></d>', '#'),
    ('py', '<d><?py x = [m, m] ?>${x[0]}${x[1]}</d>', '##'),
    ('include', {'main': '<d><py:include href="inc"/><py:include href="inc"/></d>',
                 'inc': '<i>$m</i>'}, '<i>#</i><i>#</i>'),
    ('import', {'main': '<d><py:import href="lib"/>${lib.f(m)}${lib.f(m)}</d>',
                'lib': '<l><py:def function="f(a)"><b>$a$m</b></py:def></l>'},
     '<b>##</b><b>##</b>'),
    ('extends', {'main': '<py:extends href="lay"><py:block name="b">$m${parent_block()}'
                         '</py:block></py:extends>',
                 'lay': '<d>$m<py:block name="b">[$m]</py:block></d>'}, '##[#]'),
    ('script', '<d><script>${m}</script></d>', '<script>/*<![CDATA[*/#/*]]>*/</script>'),
    ('cdata', '<d><![CDATA[$m]]></d>', '<![CDATA[#]]>'),
]
TEXT_SINKS = [
    ('braced', 'a${m}b', 'a#b'), ('name', '$m.', None), ('twice', '$m $m', '# #'),
    ('for', '%for x in [m, m]\n$x,\n%end\n', '#,\n#,\n'),
    ('if', '{%if 1%}$m{%end%}', '#'),
    ('def', '%def f(a)\n[$a]\\\n%end\n${f(m)}${f(m)}', '[#][#]'),
    ('switch', '{%switch 1%}{%case 1%}${m}{%end%}{%end%}', None),
    ('call', '%def f(c)\n${c()}${c()}\\\n%end\n{%call () f(%caller)%}$m{%end%}', '##'),
    ('block', '{%block b%}$m{%end%}', '#'),
    ('py', '{%py x = m%}$x$m', '##'),
]
TEXT_SINKS = [s for s in TEXT_SINKS if s[2] is not None]
PLAIN = ['<b>', '&', '&lt;', '"', "'", '', 'a b\n', 0, False, 1.5, (), [1], {'a': '<'}, b'<',
         values.Obj('<x>'), values.Falsy(), values.StrSub('<s>'), 'x' * 5000 + '<', True, 10 ** 20]
PLAIN += [v for v in values.VARIETY if not callable(getattr(v, '__html__', None))]

_cache = {}


def xml(i):
    if i not in _cache:
        s = SINKS[i][1]
        if isinstance(s, dict):
            _cache[i] = MockLoader(dict((k, XMLTemplate(v)) for k, v in s.items())).import_('main')
        else:
            _cache[i] = XMLTemplate(s)
    return _cache[i]


def text(i, autoescape):
    key = 't', i, autoescape
    if key not in _cache:
        _cache[key] = TextTemplate(TEXT_SINKS[i][1], autoescape=autoescape)
    return _cache[key]


class Carrier(object):
    pass


def ctx(m):
    o = Carrier()
    o.m = m
    return dict(m=m, o=o, l=[1, m][1:], fn=lambda: m)


def texts(tier):
    for s in values.strings('&<>"\'a;', 3 if tier == 'quick' else 4):
        yield s
    for s in ['<b>x</b>', '&nbsp;', '&amp;lt;', '<!-- c -->', '<br/>', '$x', '${x}', '{}', '%s',
              '\\', 'None', '\n\t ', '\xe9\u4e2d\U0001f600', '<' * 5000, 'a' * 70000 + '&', '\\n']:
        yield s


class Verbatim(Space):
    name = 'markup x sinks'
    bound = ('every string over & < > " \' a ; up to length 3 (thorough: 4) and special ones, as '
             'each kind of trusted value, in each sink, rendered twice with one value')
    case_timeout = 300

    def cases(self, tier):
        self._t = list(texts(tier))
        n = len(self._t)
        for lo in range(0, n, 100):
            for k in range(len(KINDS)) if tier != 'quick' or lo % 300 == 0 else (0, 2, 3, 5):
                for i in range(len(SINKS)):
                    yield 'x', i, k, lo
                for i in range(len(TEXT_SINKS)):
                    yield 't', i, k, lo

    def describe(self, case):
        sinks = SINKS if case[0] == 'x' else TEXT_SINKS
        return '%s in %r, markup [%d:%d]' % (KINDS[case[2]], sinks[case[1]][1], case[3],
                                             case[3] + 100)

    def run(self, case, st):
        which, i, k, lo = case
        for t in self._t[lo:lo + 100]:
            m = make(KINDS[k], t)
            if which == 'x':
                tpls = [(xml(i), '<d>' + SINKS[i][2].replace('#', t) + '</d>', SINKS[i][1])]
            else:
                # Without autoescaping, str(value); literals have no other text
                plain = t if k in (0, 1, 4) else str(m)
                tpls = [(text(i, True), TEXT_SINKS[i][2].replace('#', t), TEXT_SINKS[i][1]),
                        (text(i, False), TEXT_SINKS[i][2].replace('#', plain), TEXT_SINKS[i][1])]
            for tpl, want, source in tpls:
                for n in 1, 2:
                    o = tpl(ctx(m)).render()
                    st.traces += 1
                    st.steps += 1
                    if o != want:
                        raise Violation('trusted markup altered (rendering %d with the same value)'
                                        % n, source=repr(source),
                                        context='m = %s(%.200r)' % (KINDS[k], t),
                                        expected=want[:500], observed=o[:500])
        outcome(st, case)


# Statements used in sequences: source, output.  # = m, ~ = second trusted value n, ? = untrusted u
STATEMENTS = [
    ('$m', '#'), ('<b>${m}</b>', '<b>#</b>'), ('$n', '~'), ('$u', '?'), ('$m$u$n$m', '#?~#'),
    ('<py:for each="i in (1, 2)">$m$n</py:for>', '#~#~'),
    ('<py:with vars="w=m; k=n">$w$k</py:with>', '#~'),
    ('${f(m)}', '[#|#]'), ('${f(u)}', '[?|#]'),
    ('<i py:content="m"/>', '<i>#</i>'), ('<i py:replace="n"/>', '~'),
    ('<i x="$m">t</i>', '<i x="@">t</i>'), ('<i x="a${m}b$m" y="$n">t</i>',
                                            '<i x="a@b@" y="^">t</i>'),
    ('<i py:attrs="dict(x=m, y=n)">t</i>', '<i x="@" y="^">t</i>'),
    ('<py:call args="a" function="g(%caller)">$a$m</py:call>', '(##~#)'),
    ('<py:include href="inc"/>', '{#}'), ('<py:block name="b@@">$m</py:block>', '#'),
    ('<py:switch test="1"><py:case value="1">$m</py:case></py:switch>', '#'),
    ('<script>$m</script>', '<script>/*<![CDATA[*/#/*]]>*/</script>'),
]
DEFS = ('<py:def function="f(a)">[$a|$m]</py:def>'
        '<py:def function="g(c)">(${c(m)}${c(n)})</py:def>')
MM, NN, UU = '<b>&amp;"x"</b>', '<i/>', '<&>'
ATTR = {'@': decode(MM), '^': decode(NN)}


class Uses(Space):
    name = 'sequences of uses'
    bound = ('every sequence of up to 3 (thorough: 4) of %d kinds of use of two trusted and one '
             'untrusted value, with each kind of trusted value, rendered three times (two '
             'instances) with the same value objects' % len(STATEMENTS))

    def cases(self, tier):
        for n in range(1, 4 if tier == 'quick' else 5):
            for c in itertools.product(range(len(STATEMENTS)), repeat=n):
                yield c

    def source(self, case):
        return '<d>' + DEFS + ''.join(
            STATEMENTS[c][0].replace('@@', str(i)) for i, c in enumerate(case)) + '</d>'

    def describe(self, case):
        return self.source(case)

    def run(self, case, st):
        if 'inc' not in _cache:
            _cache['inc'] = XMLTemplate('<py:if test="1">{$m}</py:if>')
        s = self.source(case)
        tpl = XMLTemplate(s)
        MockLoader({'inc': _cache['inc'], 'main': tpl})
        want = '<d>' + ''.join(STATEMENTS[c][1] for c in case) + '</d>'
        for k in (0, 1, 2, 3, 5, 8):
            if (KINDS[k], 0) not in _cache:
                _cache[KINDS[k], 0] = make(KINDS[k], MM), make(KINDS[k], NN)
            m, n = _cache[KINDS[k], 0]      # the same objects in all renderings of all templates
            inst = tpl(dict(m=m, n=n, u=UU))
            other = tpl(dict(m=m, n=n, u=UU))
            for which, t in enumerate((inst, inst, other)):
                o = t.render()
                st.traces += 1
                st.steps += len(case)
                self.compare(want, o, s, KINDS[k], which)
        outcome(st, o)

    def compare(self, want, o, s, kind, which):
        # pieces outside attributes are compared verbatim, attribute values decoded
        import re
        w = want.replace('#', MM).replace('~', NN).replace('?', '&lt;&amp;&gt;')
        got = o
        if '@' in w or '^' in w:
            norm = lambda x: re.sub(r' ([xy])="([^"]*)"', lambda mo: ' %s="%s"' % (
                mo.group(1), decode(mo.group(2))), x)
            got = norm(o)
            w = re.sub(r' ([xy])="([^"]*)"', lambda mo: ' %s="%s"' % (
                mo.group(1), mo.group(2).replace('@', ATTR['@']).replace('^', ATTR['^'])), w)
        if got != w:
            raise Violation('a re-used trusted value is not rendered verbatim', source=s,
                            context='%s, rendering %d' % (kind, which), expected=w, observed=got)


class PlainText(Space):
    name = 'text templates'
    bound = 'values of every type in every sink of a text template: str(value) without escaping'

    def cases(self, tier):
        for i in range(len(TEXT_SINKS)):
            for j in range(len(PLAIN)):
                yield i, j

    def run(self, case, st):
        i, j = case
        v = PLAIN[j]
        for esc in False, True:
            o = text(i, esc)(ctx(v)).render()
            st.traces += 1
            st.steps += 1
            if esc:
                o = decode(o)
            want = TEXT_SINKS[i][2].replace('#', str(v))
            if o != want:
                raise Violation('value altered in a text template', source=TEXT_SINKS[i][1],
                                context='autoescape=%s, m = %.200r' % (esc, v), expected=want[:500],
                                observed=(o or '')[:500])
            outcome(st, o)


class Vocabulary(Space):
    name = 'vocabulary'
    bound = 'each kind of trusted value in the content of every one of %d elements and (decoded) in every one of %d attributes; xml, html and html5' % (
        len(vocab.ELEMENTS), len(vocab.ATTRIBUTES))

    def cases(self, tier):
        for e in vocab.ELEMENTS:
            yield 'e', e
        for a in vocab.ATTRIBUTES:
            yield 'a', a

    def run(self, case, st):
        kind, name = case
        for mode in 'xml', 'html', 'html5':
            if kind == 'e':
                source = '<d><%s>a${m}b</%s>$m</d>' % (name, name)
                raw = mode == 'xml' and name in ('script', 'style')
                want = '<d><%s>%sa#b%s%s#</d>' % (name, '/*<![CDATA[*/' if raw else '', '/*]]>*/' if raw else '', '' if mode != 'xml' and name in VOID else '</%s>' % name)
            else:
                source = '<d><b %s="$m">t</b><b %s="a ${m}">t</b><b py:attrs="{\'%s\': m}">t</b></d>' % (name, name, name)
                want = '<d><b %s="@">t</b><b %s="a @">t</b><b %s="@">t</b></d>' % (name, name, name)
                if mode != 'xml' and name in BOOLEAN:
                    want = '<d><b %s>t</b><b %s>t</b><b %s>t</b></d>' % (name, name, name)
            if mode == 'html5':
                want = '<!DOCTYPE html>\n' + want
            tpl = XMLTemplate(source, mode=mode)
            for k in KINDS:
                m = make(k, MM)
                for n in 1, 2:
                    st.traces += 1
                    st.steps += 3
                    o = tpl(dict(m=m)).render()
                    if kind == 'a':
                        o = re.sub('="([^"<]*)"', lambda g: '="%s"' % (decode(g.group(1)) or '?'), o)
                    w = want.replace('#', MM).replace('@', decode(MM))
                    if o != w:
                        raise Violation('trusted markup altered (rendering %d with the same value)' % n, source=source, context='m = %s(%r)' % (k, MM), mode=mode,
                                        expected=w, observed=o)
            outcome(st, (case, mode))


PIECES = ['a', '${None}', '${0}', '${m}', '${""}', '${g()}', '<py:if test="0">no</py:if>', '<i>${m}</i>', '${h()}', '${p}']
GBODY = ['', 'b', '${None}', '${None}b', 'b${None}', 'b${None}b', '${0}', '${m}', '${h()}', 'b${h()}b', '${None}${h()}', '${h()}${None}b', '<py:for each="x in (None, 2)">${x}</py:for>b']
HBODY = ['', 'c', '${None}c', 'c${None}', '${0}${m}', '${None}']
HTML = {'a': 'a', '${None}': '', '${0}': '0', '${m}': '#', '${""}': '', '<py:if test="0">no</py:if>': '', '<i>${m}</i>': '<i>#</i>', '${p}': '&lt;'}


def flat(src, h=''):
    """What the body of a function outputs."""
    src = src.replace('<py:for each="x in (None, 2)">${x}</py:for>', '2')
    for a, b in (('${None}', ''), ('${0}', '0'), ('${m}', '#'), ('${h()}', h)):
        src = src.replace(a, b)
    return src


class Functions(Space):
    name = 'functions of functions'
    bound = ('all bodies of up to 2 (thorough: 3) of %d pieces of a function that calls another (%d bodies) that calls a third (%d), with None, empty, false and trusted '
             'values among them; the result in text content, (decoded) in an attribute, alone and mixed, and in py:attrs, in a loop and through a call body; also as text '
             'templates with and without autoescaping' % (len(PIECES), len(GBODY), len(HBODY)))

    def cases(self, tier):
        for n in range(3 if tier == 'quick' else 4):
            for f in itertools.product(range(len(PIECES)), repeat=n):
                uses = '${g()}' in [PIECES[i] for i in f]
                for g in range(len(GBODY) if uses else 1):
                    usesh = '${h()}' in GBODY[g] or '${h()}' in [PIECES[i] for i in f]
                    for h in range(len(HBODY) if usesh else 1):
                        yield f, g, h

    def describe(self, case):
        f, g, h = case
        return 'f: %s, g: %s, h: %s' % (''.join(PIECES[i] for i in f), GBODY[g], HBODY[h])

    def run(self, case, st):
        f, g, h = case
        parts = [PIECES[i] for i in f]
        hh = flat(HBODY[h])
        gg = flat(GBODY[g], hh)
        want = ''.join({'${g()}': gg, '${h()}': hh}.get(p, HTML.get(p)) for p in parts)
        defs = ''.join('<py:def function="%s()">%s</py:def>' % d for d in (('h', HBODY[h]), ('g', GBODY[g]), ('f', ''.join(parts))))
        source = ('<d>%s<py:def function="k(c)">${c()}</py:def>|${f()}|<py:for each="x in (1, 2)">${f()}</py:for>|<py:call function="k(%%caller)">${f()}</py:call>|'
                  '<b x="${f()}" y="a${f()}b"/><b py:attrs="{\'x\': f()}"/></d>') % defs
        mark = '<u>&amp;'
        tpl = XMLTemplate(source)
        o = tpl(dict(m=literal(mark), p='<')).render()
        st.traces += 1
        st.steps += 7
        w = want.replace('#', mark)
        head = '<d>|%s|%s%s|%s|' % (w, w, w, w)
        mo = re.match('<b(?: x="([^"<]*)")? y="([^"<]*)"/><b(?: x="([^"<]*)")?/></d>$', o[len(head):])
        got = mo and [decode(x or '') for x in mo.groups()]
        if o[:len(head)] != head or got != [decode(w), 'a%sb' % decode(w), decode(w)]:
            raise Violation('the result of a template function is altered', source=source, expected=head + repr(w), observed=o)
        text = ''.join('{%%def %s()%%}%s{%%end%%}' % (n, b.replace('<py:if test="0">', '{%if 0%}').replace('</py:if>', '{%end%}').replace(
            '<py:for each="x in (None, 2)">', '{%for x in (None, 2)%}').replace('</py:for>', '{%end%}'))
            for n, b in (('h', HBODY[h]), ('g', GBODY[g]), ('f', ''.join(parts)))) + '|${f()}|{%for x in (1, 2)%}${f()}{%end%}|'
        for esc in False, True:
            o = TextTemplate(text, autoescape=esc)(dict(m=literal(mark), p='<')).render()
            w2 = w if esc else w.replace('&lt;', '<')
            st.traces += 1
            st.steps += 3
            if o != '|%s|%s%s|' % (w2, w2, w2):
                raise Violation('the result of a template function is altered in a text template', source=text, context='autoescape=%s' % esc, expected=w2, observed=o)
        outcome(st, want)


def spaces():
    return [Functions(), Vocabulary(), PlainText(), Uses(), Verbatim()]


ASSUMPTIONS = ['results of template functions are one-shot streams by design: only '
               'literal/Markup/__html__ values are re-used']
