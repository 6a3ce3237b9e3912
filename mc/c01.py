"""C01: interpolated values are escaped exactly once.

Every value of the alphabet is pushed through every sink in every mode.  The
oracle does not care how a character is encoded, only that decoding the
character references at that place gives str(value) exactly and that nothing
around it changes and nothing can act as markup.
"""
import itertools
import re

from mc import core, values, vocab
from mc.core import Space, Violation, outcome
from mc.xmlmodel import BOOLEAN, VOID

kajiki = core.setup_repo()
from kajiki import XMLTemplate, MockLoader  # noqa: E402

MODES = ('xml', 'html', 'html5', None)

# name, template, output with @ for the value (text: #, attribute: @)
SINKS = [
    ('text', '<d>a${v}b</d>', '<d>a#b</d>'),
    ('name', '<d>a $v b</d>', '<d>a # b</d>'),
    ('only', '<d>$v</d>', '<d>#</d>'),
    ('two', '<d>${v}|${v}</d>', '<d>#|#</d>'),
    ('adjacent elements', '<d><i/>${v}<i/></d>', {'xml': '<d><i/>#<i/></d>',
                                                 'html': '<d><i></i>#<i></i></d>'}),
    ('attr', '<d x="${v}"/>', {'xml': '<d x="@"/>', 'html': '<d x="@"></d>'}),
    ('attr name', '<d x="$v">t</d>', '<d x="@">t</d>'),
    ('attr mixed', '<d x="a${v}b">t</d>', '<d x="a@b">t</d>'),
    ('attr mixed amp', '<d x="&lt;&amp;${v}&quot;">t</d>', '<d x="&lt;&amp;@&quot;">t</d>'),
    ('attr two parts', '<d x="${v}-${v}">t</d>', '<d x="@-@">t</d>'),
    ('two attrs', '<d y="$v" x="$v">t</d>', '<d x="@" y="@">t</d>'),
    ('attr single quotes', "<d x='$v'>t</d>", '<d x="@">t</d>'),
    ('attr void', '<d><br x="$v"/></d>', {'xml': '<d><br x="@"/></d>', 'html': '<d><br x="@"></d>'}),
    ('attr href', '<a href="/x?q=${v}&amp;z=1">t</a>', '<a href="/x?q=@&amp;z=1">t</a>'),
    ('attr event', '<a onclick="f(\'${v}\')">t</a>', '<a onclick="f(\'@\')">t</a>'),
    ('attr style', '<a style="$v" class="$v" id="$v">t</a>', '<a class="@" id="@" style="@">t</a>'),
    ('attr ns', '<d xml:lang="$v">t</d>', '<d xml:lang="@">t</d>'),
    ('content', '<d py:content="v">old</d>', '<d>#</d>'),
    ('content empty', '<d><br py:content="v"/></d>', '<d><br>#</br></d>'),
    ('content attr', '<d x="$v" py:content="v"/>', '<d x="@">#</d>'),
    ('replace attr', '<d><i py:replace="v">old</i></d>', '<d>#</d>'),
    ('replace el', '<d><py:replace value="v"/></d>', '<d>#</d>'),
    ('attrs dict', '<d py:attrs="{\'x\': v}">t</d>', '<d x="@">t</d>'),
    ('attrs list', '<d py:attrs="[(\'x\', v)]">t</d>', '<d x="@">t</d>'),
    ('attrs two', '<d z="0" py:attrs="{\'y\': v, \'x\': v}">t</d>', '<d z="0" x="@" y="@">t</d>'),
    ('attrs childless', '<d py:attrs="{\'x\': v}"/>', {'xml': '<d x="@"/>', 'html': '<d x="@"></d>'}),
    ('attrs strip', '<d py:strip="not 1" py:attrs="{\'x\': v}" y="$v">t</d>', '<d y="@" x="@">t</d>'),
    ('strip', '<d><i py:strip="">$v</i></d>', '<d>#</d>'),
    ('strip kept', '<d><i py:strip="0" x="$v">$v</i></d>', '<d><i x="@">#</i></d>'),
    ('for', '<d><py:for each="i in [v]">$i</py:for></d>', '<d>#</d>'),
    ('for attr', '<d><i py:for="i in (v, v)" x="$i">${i}</i></d>',
     '<d><i x="@">#</i><i x="@">#</i></d>'),
    ('for unpack', '<d><py:for each="k, i in [(1, v)]">$i</py:for></d>', '<d>#</d>'),
    ('if', '<d><py:if test="1">$v</py:if></d>', '<d>#</d>'),
    ('else', '<d><py:if test="0"/><py:else>$v</py:else></d>', '<d>#</d>'),
    ('case', '<d><py:switch test="1"><py:case value="1">$v</py:case></py:switch></d>', '<d>#</d>'),
    ('switch else', '<d><py:switch test="1"><py:case value="2">n</py:case>'
     '<py:else><i x="$v">$v</i></py:else></py:switch></d>', '<d><i x="@">#</i></d>'),
    ('with', '<d><py:with vars="w=v">$w<i x="$w"/>.</py:with></d>',
     {'xml': '<d>#<i x="@"/>.</d>', 'html': '<d>#<i x="@"></i>.</d>'}),
    ('with attr', '<d><i py:with="w=v; u=w" x="$u">$u</i></d>', '<d><i x="@">#</i></d>'),
    ('def', '<d><py:def function="f(a)"><b>$a</b></py:def>${f(v)}</d>', '<d><b>#</b></d>'),
    ('def attr inside', '<d><py:def function="f(a)"><b x="$a">t</b></py:def>${f(v)}</d>',
     '<d><b x="@">t</b></d>'),
    ('def global', '<d><py:def function="f()">[$v]</py:def>${f()}${f()}</d>', '<d>[#][#]</d>'),
    ('def in attr', '<d><py:def function="f(a)">$a</py:def><i x="${f(v)}">t</i></d>',
     '<d><i x="@">t</i></d>'),
    ('def in attr mixed', '<d><py:def function="f(a)">$a</py:def><i x="a${f(v)}b$v">t</i></d>',
     '<d><i x="a@b@">t</i></d>'),
    ('def in py:attrs', '<d><py:def function="f(a)">$a</py:def>'
     '<i py:attrs="{\'x\': f(v)}">t</i></d>', '<d><i x="@">t</i></d>'),
    ('def in content', '<d><py:def function="f(a)">$a</py:def><i py:content="f(v)"/></d>',
     '<d><i>#</i></d>'),
    ('def in replace', '<d><py:def function="f(a)">$a</py:def><i py:replace="f(v)"/></d>',
     '<d>#</d>'),
    ('def nested', '<d><py:def function="f(a)"><py:def function="g(b)"><i x="$b">$b</i></py:def>'
     '${g(a)}</py:def>${f(v)}</d>', '<d><i x="@">#</i></d>'),
    ('def chained', '<d><py:def function="f(a)">$a</py:def><py:def function="g(a)">${f(a)}</py:def>'
     '${g(v)}<i x="${g(v)}">t</i></d>', '<d>#<i x="@">t</i></d>'),
    ('def nested in attr', '<d><py:def function="f(a)"><py:def function="g(b)">$b</py:def>${g(a)}'
     '</py:def><i x="${f(v)}">t</i></d>', '<d><i x="@">t</i></d>'),
    ('def default', '<d><py:def function="f(a, b=None)">${b or a}</py:def>${f(1, b=[v])[0:0] if 0 '
     'else f(v)}</d>', '<d>#</d>'),
    ('call', '<d><py:def function="f(c)">${c()}</py:def>'
     '<py:call function="f(%caller)">$v<i x="$v">t</i></py:call></d>', '<d>#<i x="@">t</i></d>'),
    ('call args', '<d><py:def function="f(c)">${c(v)}</py:def>'
     '<py:call args="a" function="f(%caller)">$a<i x="$a">t</i></py:call></d>',
     '<d>#<i x="@">t</i></d>'),
    ('call in attr', '<d><py:def function="f(c)"><i x="${c(v)}">t</i></py:def>'
     '<py:call args="a" function="f(%caller)">$a</py:call></d>', '<d><i x="@">t</i></d>'),
    ('block', '<d><py:block name="b">$v<i x="$v">t</i></py:block></d>', '<d>#<i x="@">t</i></d>'),
    ('block attr', '<d><i py:block="b" x="$v">$v</i></d>', '<d><i x="@">#</i></d>'),
    ('py', '<d><?py w = v ?>$w<i x="$w">t</i></d>', '<d>#<i x="@">t</i></d>'),
    ('attribute access', '<d>${o.v}|$o.v<i x="$o.v">t</i></d>', '<d>#|#<i x="@">t</i></d>'),
    ('item', '<d>${d["v"]}<i x="${d[\'v\']}">t</i></d>', '<d>#<i x="@">t</i></d>'),
    ('call result', '<d>${fn()}<i x="${fn()}">t</i></d>', '<d>#<i x="@">t</i></d>'),
    ('conditional', '<d>${v if 1 else 0}<i x="${v if 1 else 0}">t</i></d>', '<d>#<i x="@">t</i></d>'),
    ('value_of', '<d>${value_of("v")}${value_of("zz", v)}</d>', '<d>##</d>'),
    ('script', '<d><script>var x = ${v};</script></d>',
     {'xml': '<d><script>/*<![CDATA[*/var x = #;/*]]>*/</script></d>',
      'html': '<d><script>var x = #;</script></d>'}),
    ('script attr', '<d><script x="$v"/></d>', '<d><script x="@"></script></d>'),
    ('style', '<d><style>a { $v }</style></d>',
     {'xml': '<d><style>/*<![CDATA[*/a { # }/*]]>*/</style></d>',
      'html': '<d><style>a { # }</style></d>'}),
    ('cdata', '<d><![CDATA[a${v}b]]></d>', '<d><![CDATA[a#b]]></d>'),
    ('textarea', '<d><textarea x="$v">$v</textarea><title>$v</title></d>',
     '<d><textarea x="@">#</textarea><title>#</title></d>'),
    ('whitespace', '<d>\n  $v\n  <i\n x="$v">\n$v\n</i>\n</d>',
     '<d>\n  #\n  <i x="@">\n#\n</i>\n</d>'),
    ('deep', '<a><b><c><d><e><f x="$v">$v</f></e></d></c></b></a>',
     '<a><b><c><d><e><f x="@">#</f></e></d></c></b></a>'),
    ('strip_text', '<d>\n  $v\n  <i x="$v"> $v </i></d>', '<d>#<i x="@">#</i></d>',
     dict(strip_text=True)),
    ('no cdata scripts', '<d><script>$v</script></d>', '<d><script>#</script></d>',
     dict(cdata_scripts=False)),
    ('fragment', '<d x="$v">$v</d>', '<d x="@">#</d>', dict(is_fragment=True)),
    ('autoblock', '<d><i><b x="$v">$v</b></i></d>', '<d><b x="@">#</b></d>', dict(autoblocks=['i'])),
    ('include', {'main': '<d>[<py:include href="inc"/>]</d>', 'inc': '<i x="$v">$v</i>'},
     '<d>[<i x="@">#</i>]</d>'),
    ('include loop', {'main': '<d><py:for each="i in [1, 2]"><py:include href="inc"/></py:for></d>',
                      'inc': '<i x="$v">$v</i>'},
     '<d><i x="@">#</i><i x="@">#</i></d>'),
    ('import', {'main': '<d><py:import href="lib" alias="l"/>${l.f(v)}<j x="${l.g(v)}">t</j></d>',
                'lib': '<l><py:def function="f(a)"><i x="$a">$a</i></py:def>'
                       '<py:def function="g(a)">$a</py:def></l>'},
     '<d><i x="@">#</i><j x="@">t</j></d>'),
    ('extends', {'main': '<py:extends href="lay"><py:block name="b">$v<i x="$v">t</i></py:block>'
                         '</py:extends>',
                 'lay': '<d x="$v"><py:block name="b"/>${v}</d>'},
     '<d x="@">#<i x="@">t</i>#</d>'),
    ('parent block', {'main': '<py:extends href="lay"><py:block name="b">[${parent_block()}]$v'
                              '</py:block></py:extends>',
                      'lay': '<d><py:block name="b"><i x="$v">$v</i></py:block></d>'},
     '<d>[<i x="@">#</i>]#</d>'),
    ('parent block in attr',
     {'main': '<py:extends href="lay"><py:block name="b"><i x="${parent_block()}">t</i>'
              '</py:block></py:extends>',
      'lay': '<d><py:block name="b">$v</py:block></d>'},
     '<d><i x="@">t</i></d>'),
    ('inherited function', {'main': '<py:extends href="lay"><py:block name="b">${f(v)}'
                                    '<i x="${f(v)}">t</i></py:block></py:extends>',
                            'lay': '<d><py:def function="f(a)">$a</py:def><py:block name="b"/></d>'},
     '<d>#<i x="@">t</i></d>'),
]

_REF = re.compile(r'&(?:#x([0-9a-fA-F]+)|#([0-9]+)|(amp|lt|gt|quot|apos));')
_NAMED = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}


def decode(s):
    """Decode character references; None if an ampersand is not part of one."""
    pos, out = 0, []
    while True:
        i = s.find('&', pos)
        if i < 0:
            out.append(s[pos:])
            return ''.join(out)
        m = _REF.match(s, i)
        if not m:
            return None
        out.append(s[pos:i])
        h, d, n = m.groups()
        out.append(chr(int(h, 16)) if h else chr(int(d)) if d else _NAMED[n])
        pos = m.end()


def check_slots(pattern, observed, want):
    """Match observed against pieces with value slots; returns None or a reason.

    All text slots must be the same string, all attribute slots too."""
    pieces = re.split('([#@])', pattern)
    rx, seen = [], {}
    # the values are known, so is the encoded length range; try the slot
    # contents observed at the first slot of each kind
    for p in pieces:
        if p in ('#', '@'):
            g = 't' if p == '#' else 'a'
            if g in seen:
                rx.append('(?P=%s)' % g)
            else:
                seen[g] = True
                rx.append('(?P<%s>%s)' % (g, '[^<]*' if g == 't' else '[^<"]*'))
        else:
            rx.append(re.escape(p))
    rx = ''.join(rx)
    m = _compile(rx).fullmatch(observed)
    if not m:
        return 'the surrounding output changed or the value acts as markup'
    for g in seen:
        if decode(m.group(g)) != want:
            return 'the value decodes to %r instead of %r' % (
                (decode(m.group(g)) or m.group(g))[:200], want[:200])
    return None


_rx = {}


def _compile(rx):
    c = _rx.get(rx)
    if c is None:
        c = _rx[rx] = re.compile(rx, re.S)
    return c


_tpl = {}


class Carrier(object):
    pass


def template(i, mode):
    key = i, mode
    if key not in _tpl:
        sink = SINKS[i]
        opts = dict(sink[3]) if len(sink) > 3 else {}
        s = sink[1]
        if isinstance(s, dict):
            loader = MockLoader(dict(
                (k, XMLTemplate(v, mode=mode, is_fragment=k in ('inc', 'lib'), **opts))
                for k, v in s.items()))
            _tpl[key] = loader.import_('main')
        else:
            _tpl[key] = XMLTemplate(s, mode=mode, **opts)
    return _tpl[key]


def expected(i, mode):
    p = SINKS[i][2]
    html = mode is not None and mode.startswith('html')
    if isinstance(p, dict):
        p = p['html' if html else 'xml']
    if mode == 'html5' and SINKS[i][0] != 'fragment':
        p = '<!DOCTYPE html>\n' + p
    return p


def context(v):
    o = Carrier()
    o.v = v
    return dict(v=v, o=o, d={'v': v}, fn=lambda: v)


BLOCK = 400


class ValuesInSinks(Space):
    name = 'values x sinks'
    bound = ('every string over & < > " \' a up to length 5 (thorough: 6), long strings around '
             'buffer sizes, special values and objects, through every sink x mode')
    case_timeout = 300

    def vals(self, tier):
        if not hasattr(self, '_v'):
            v = list(values.strings('&<>"\'a', 4 if tier == 'quick' else 6))
            v += list(values.strings('&;lt#', 4 if tier == 'quick' else 5))
            self._v = v
            self._n = list(values.nasty()) + values.objects()
        return self._v, self._n

    def cases(self, tier):
        v, n = self.vals(tier)
        few = [x for x in range(len(n)) if not (isinstance(n[x], str) and len(n[x]) > 40)]
        self._n = n = [n[x] for x in few] + [n[x] for x in range(len(n)) if x not in set(few)]
        for i in range(len(SINKS)):
            for m in range(len(MODES)):
                yield (i, m, 'n', 0, len(few))
        for i in range(len(SINKS)):
            for m in range(2 if tier == 'quick' else len(MODES)):
                yield (i, m, 'n', len(few), len(n))
        for lo in range(0, len(v), BLOCK):
            for i in range(len(SINKS)):
                for m in range(len(MODES)):
                    if MODES[m] in ('html5', None) and lo > 0:
                        continue
                    yield (i, m, 's', lo, min(lo + BLOCK, len(v)))
        self._tier = tier

    def describe(self, case):
        i, m, kind, lo, hi = case
        return 'sink %r, mode %r, values %s[%d:%d]' % (SINKS[i][0], MODES[m], kind, lo, hi)

    def run(self, case, st):
        i, m, kind, lo, hi = case
        v, n = self._v, self._n
        tpl = template(i, MODES[m])
        pat = expected(i, MODES[m])
        for val in (v if kind == 's' else n)[lo:hi]:
            st.steps += 1
            st.traces += 1
            if SINKS[i][0] == 'def default' and not val:
                continue
            o = tpl(context(val)).render()
            why = check_slots(pat, o, str(val))
            if why:
                raise Violation(why, source=repr(SINKS[i][1]), context='v = %.300r' % (val,),
                                mode=MODES[m], observed=o[:600], expected=pat)
        outcome(st, (i, m, kind, lo))


class NoneValues(Space):
    name = 'None'
    bound = 'None in every sink x mode: nothing in text, attribute left out'

    def cases(self, tier):
        for i in range(len(SINKS)):
            if SINKS[i][0] in ('def default', 'attr mixed', 'attr two parts'):
                continue
            for m in range(len(MODES)):
                yield i, m

    def describe(self, case):
        return 'None in sink %r, mode %r' % (SINKS[case[0]][0], MODES[case[1]])

    def run(self, case, st):
        i, m = case
        pat = expected(i, MODES[m])
        want = re.sub(r' [\w:]+="@"', '', pat).replace('#', '').replace('@', '')
        o = template(i, MODES[m])(context(None)).render()
        st.steps += 1
        st.traces += 1
        outcome(st, o)
        # a template function in an attribute: its output is empty, not None
        name = SINKS[i][0]
        if ' in ' in name or name in ('import', 'inherited function', 'def chained'):
            o = re.sub(r' [\w:]+=""', '', o)
        if o != want:
            raise Violation('None is not rendered as nothing', source=repr(SINKS[i][1]),
                            mode=MODES[m], expected=want, observed=o)


PAIR_VALUES = [0, 1, True, False, 1.0, 0.0, '', '0', '1', '<', '&', '&lt;', '&amp;', '"', 'a', '>',
               b'<', values.Obj('<'), values.StrSub('<'), (), [], '<b>', None, 10 ** 20, '<' * 300,
               values.Obj('a')]


class Pairs(Space):
    name = 'value sequences'
    bound = ('all ordered triples of values that compare equal or look alike, in text and '
             'attribute, in one rendering: each place shows its own value')

    SRC = '<d><a>${v[0]}</a><a>${v[1]}</a><a>${v[2]}</a><b x="${v[0]}" y="${v[1]}" z="${v[2]}">t</b>' \
          '<c><py:for each="w in v">[${w}]</py:for></c></d>'

    def cases(self, tier):
        for i in range(len(PAIR_VALUES)):
            for j in range(len(PAIR_VALUES)):
                yield i, j

    def describe(self, case):
        return 'values %r, %r, *' % tuple(PAIR_VALUES[k] for k in case)

    def run(self, case, st):
        if 'pairs' not in _tpl:
            _tpl['pairs'] = XMLTemplate(self.SRC)
        tpl = _tpl['pairs']
        for c in PAIR_VALUES:
            vs = [PAIR_VALUES[case[0]], PAIR_VALUES[case[1]], c]
            o = tpl(dict(v=vs)).render()
            st.traces += 1
            st.steps += 9
            m = re.fullmatch(
                r'<d><a>([^<]*)</a><a>([^<]*)</a><a>([^<]*)</a>'
                r'<b((?: \w="[^<"]*")*)>t</b><c>([^<]*)</c></d>', o)
            if not m:
                raise Violation('structure changed', values=repr(vs), observed=o)
            want = ['' if x is None else str(x) for x in vs]
            got = [decode(m.group(k)) for k in (1, 2, 3)]
            att = [(k, decode(x)) for k, x in re.findall(r' (\w)="([^"]*)"', m.group(4))]
            watt = [(k, str(x)) for k, x in zip('xyz', vs) if x is not None]
            loop = decode(m.group(5))
            wloop = ''.join('[%s]' % w for w in want)
            if got != want or att != watt or loop != wloop:
                raise Violation('a value is rendered wrongly next to others', source=self.SRC,
                                context=repr(vs), observed=o, expected=repr((want, watt)))
            outcome(st, o)


class Vocabulary(Space):
    name = 'vocabulary'
    bound = ('%d values (strings and objects of other kinds) in the content and in attributes of every one of %d elements, and in every one of %d attributes, interpolated, '
             'mixed with text and from py:attrs; xml, html and html5' % (len(values.VARIETY), len(vocab.ELEMENTS), len(vocab.ATTRIBUTES)))

    def cases(self, tier):
        for e in vocab.ELEMENTS:
            yield 'e', e
        for a in vocab.ATTRIBUTES:
            yield 'a', a

    def run(self, case, st):
        kind, name = case
        for mode in 'xml', 'html', 'html5':
            html = mode != 'xml'
            dtd = '<!DOCTYPE html>\n' if mode == 'html5' else ''
            if kind == 'e':
                source = '<d><%s>${v}</%s><%s x="$v">a ${v}.</%s><py:if test="1"><%s py:content="v"/></py:if></d>' % ((name,) * 5)
                end = '' if html and name in VOID else '</%s>' % name
                a, b = ('/*<![CDATA[*/', '/*]]>*/') if not html and name in ('script', 'style') else ('', '')
                head = '<d><%s>%s#%s%s<%s x="@">%sa #.%s%s<%s>' % (name, a, b, end, name, a, b, end, name)
                # what an element that py:content fills looks like is the subject of C07
                pats = [head + p for p in ('#%s</d>' % end, '#</%s></d>' % name, '%s#%s</%s></d>' % (a, b, name))]
            else:
                source = '<d><i %s="${v}">$v</i><i %s="$v">t</i><i %s="v $v">t</i><i py:attrs="{\'%s\': v}">t</i></d>' % ((name,) * 4)
                slot = ' %s' % name if html and name in BOOLEAN else ' %s="@"' % name
                mix = ' %s' % name if html and name in BOOLEAN else ' %s="v @"' % name
                pats = ['<d><i%s>#</i><i%s>t</i><i%s>t</i><i%s>t</i></d>' % (slot, slot, mix, slot)]
            tpl = XMLTemplate(source, mode=mode)
            for val in values.VARIETY:
                if name in BOOLEAN and kind == 'a' and (val is True or val is False or val == 0 or val == 1):
                    continue
                st.steps += 1
                st.traces += 1
                o = tpl(dict(v=val)).render()
                whys = [check_slots(dtd + p, o, str(val)) for p in pats]
                if all(whys):
                    raise Violation(whys[0], source=source, context='v = %.300r' % (val,), mode=mode, observed=o[:600], expected=pats[0])
            outcome(st, (case, mode))


class Characters(Space):
    name = 'characters'
    bound = ('every one of the 1,114,112 Unicode code points as (part of) a value in text and in an attribute: 256 to a value, plain and between special characters; '
             'each one below 0x3100 also alone')
    SRC = '<d><a>${v}</a><b x="$v" y="a${v}">t</b></d>'
    PAT = '<d><a>#</a><b x="@" y="a@">t</b></d>'

    def cases(self, tier):
        for lo in range(0, 0x110000, 0x1000):
            yield lo

    def describe(self, case):
        return 'U+%04X...' % case

    def run(self, case, st):
        if 'chars' not in _tpl:
            _tpl['chars'] = XMLTemplate(self.SRC)
        tpl = _tpl['chars']
        vals = []
        for lo in range(case, case + 0x1000, 256):
            block = [chr(c) for c in range(lo, lo + 256)]
            vals.append(''.join(block))
            vals.append('<' + '&'.join(block) + '"')
            if lo < 0x3100:
                vals += block
        for val in vals:
            st.steps += 3
            st.traces += 1
            o = tpl(dict(v=val)).render()
            why = check_slots(self.PAT, o, val)
            if why:
                raise Violation(why[:200].encode('ascii', 'backslashreplace').decode(), source=self.SRC, context='v = %.200a' % (val,), observed='%.300a' % (o,), expected=self.PAT)
        outcome(st, case)


def spaces():
    return [Vocabulary(), Characters(), ValuesInSinks(), NoneValues(), Pairs()]


ASSUMPTIONS = ['values are drawn from the stated alphabet; str(value) is deterministic',
               'templates are the listed sinks; deeper nestings are covered by C04-C11']
