"""C17: HTML and XML entities mean their characters everywhere.

Every reference x every position x neighbours; the oracle is the table of the standard library (not the one of the code
under test) and a decoder of its own for what comes out.
"""
import html.entities
import itertools
import re

from mc import core, vocab
from mc.core import Space, Violation, outcome
from mc.xmlmodel import BOOLEAN, VOID

core.setup_repo()
from kajiki import XMLTemplate  # noqa: E402
from kajiki.template import KajikiSyntaxError  # noqa: E402
from kajiki.xml_template import XMLTemplateError  # noqa: E402

NAMED = sorted(n[:-1] for n in html.entities.html5 if n.endswith(';'))
VALUE = {n: html.entities.html5[n + ';'] for n in NAMED}
XMLPRE = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
VALUE.update(XMLPRE)
_ref = re.compile(r'&(?:#x([0-9a-fA-F]+)|#([0-9]+)|([A-Za-z][A-Za-z0-9]*));')


def decode(s):
    """What a reader of the output sees; None if the output is not readable (a bare & or <)."""
    out, pos = [], 0
    for mo in _ref.finditer(s):
        out.append(s[pos:mo.start()])
        pos = mo.end()
        h, d, n = mo.groups()
        if n is not None:
            if n not in VALUE:
                return None
            out.append(VALUE[n])
        else:
            out.append(chr(int(h, 16) if h else int(d)))
        # a placeholder keeps decoded special characters apart from raw ones
        if out[-1] in ('&', '<'):
            out[-1] = {'&': '\ue000', '<': '\ue001'}[out[-1]]
    out.append(s[pos:])
    r = ''.join(out)
    if '&' in r or '<' in r:
        return None
    return r.replace('\ue000', '&').replace('\ue001', '<')


# name, template (%s: the reference), output around, kind: text | attr | raw
POS = [
    ('text', '<r>%s</r>', '<r>', '</r>', 'text'),
    ('before text', '<r>%sz</r>', '<r>', 'z</r>', 'text'),
    ('after text', '<r>a%s</r>', '<r>a', '</r>', 'text'),
    ('within text', '<r>a%sb</r>', '<r>a', 'b</r>', 'text'),
    ('between spaces', '<r> %s </r>', '<r> ', ' </r>', 'text'),
    ('before a semicolon', '<r>%s;</r>', '<r>', ';</r>', 'text'),
    ('on the second line', '<r>\n%s\n</r>', '<r>\n', '\n</r>', 'text'),
    ('between tags', '<r><i/>%s<i/></r>', '<r><i/>', '<i/></r>', 'text'),
    ('after an expression', '<r>${x}%s</r>', '<r>1', '</r>', 'text'),
    ('before an expression', '<r>%s${x}</r>', '<r>', '1</r>', 'text'),
    ('after a short expression', '<r>$x %s</r>', '<r>1 ', '</r>', 'text'),
    ('after CDATA', '<r><![CDATA[&no;]]>%s</r>', '<r><![CDATA[&no;]]>', '</r>', 'text'),
    ('after a comment', '<r><!--&no;-->%s</r>', '<r><!-- &no; -->', '</r>', 'text'),
    ('after a Python block', '<r><?py k = "&no;" ?>%s</r>', '<r>', '</r>', 'text'),
    ('in a condition', '<r><py:if test="x">%s</py:if></r>', '<r>', '</r>', 'text'),
    ('in a conditional tag', '<r><i py:if="x">%s</i></r>', '<r><i>', '</i></r>', 'text'),
    ('in a function', '<r><py:def function="f()">%s</py:def>${f()}</r>', '<r>', '</r>', 'text'),
    ('in a block', '<r><py:block name="k">%s</py:block></r>', '<r>', '</r>', 'text'),
    ('in a call', '<r><py:def function="f(c)">${c()}</py:def><py:call function="f(%%caller)">%s</py:call></r>', '<r>', '</r>', 'text'),
    ('in a case', '<r><py:switch test="x"><py:case value="1">%s</py:case></py:switch></r>', '<r>', '</r>', 'text'),
    ('in a preformatted text', '<pre>%s</pre>', '<pre>', '</pre>', 'text'),
    ('in a string of an expression', '<r>${"a%sb"}</r>', '<r>a', 'b</r>', 'expr'),
    ('attribute', '<r q="%s"/>', '<r q="', '"/>', 'attr'),
    ('within an attribute', '<r q="a%sb">t</r>', '<r q="a', 'b">t</r>', 'attr'),
    ('attribute in single quotes', "<r q='%s'/>", '<r q="', '"/>', 'attr'),
    ('second attribute', '<r p="1" q="%s;"/>', '<r p="1" q="', ';"/>', 'attr'),
    ('attribute with an expression', '<r q="${x}%s"/>', '<r q="1', '"/>', 'attr'),
    ('attribute before an expression', '<r q="%s${x}"/>', '<r q="', '1"/>', 'attr'),
    ('attribute of a conditional tag', '<r><i py:if="x" q="%s"/></r>', '<r><i q="', '"/></r>', 'attr'),
    ('attribute of a stripped tag', '<r><i py:strip="not x" q="%s"/></r>', '<r><i q="', '"/></r>', 'attr'),
    ('directive', '<r py:content="\'a%sb\'"/>', '<r>a', 'b</r>', 'expr'),
    ('with', '<r py:with="v=\'a%sb\'">${v}</r>', '<r>a', 'b</r>', 'expr'),
    ('attrs', '<r py:attrs="{\'q\': \'a%sb\'}"/>', '<r q="a', 'b"/>', 'expr'),
    ('script', '<script>%s</script>', '<script>/*<![CDATA[*/', '/*]]>*/</script>', 'raw'),
    ('within a script', '<script>a%sb</script>', '<script>/*<![CDATA[*/a', 'b/*]]>*/</script>', 'raw'),
    ('style', '<style>a%sb</style>', '<style>/*<![CDATA[*/a', 'b/*]]>*/</style>', 'raw'),
    ('script with an expression', '<script>${x}%s${x}</script>', '<script>/*<![CDATA[*/1', '1/*]]>*/</script>', 'raw'),
]
# in html modes: no CDATA wrapper, other tags
POS_HTML = [
    ('text', '<p>a%sb</p>', '<p>a', 'b</p>', 'text'),
    ('after a void tag', '<p><br/>%s</p>', '<p><br>', '</p>', 'text'),
    ('title', '<title>%s</title>', '<title>', '</title>', 'text'),
    ('textarea', '<textarea>%s</textarea>', '<textarea>', '</textarea>', 'text'),
    ('attribute', '<a href="/?a=1%sb=2">t</a>', '<a href="/?a=1', 'b=2">t</a>', 'attr'),
    ('attribute of a void tag', '<p><img alt="%s"/></p>', '<p><img alt="', '"></p>', 'attr'),
    ('script', '<script>a%sb</script>', '<script>a', 'b</script>', 'raw'),
    ('style', '<style>%s</style>', '<style>', '</style>', 'raw'),
]
# A quote or a backslash would end or alter the Python string the reference is written in; a dollar sign or a brace next to
# an expression may belong to it.
EXPR_UNSAFE = set('"\'\\$\n\r{}')


def skip(kind, value, tpl):
    if kind == 'expr':
        return bool(set(value) & EXPR_UNSAFE)
    if value == '$':
        i = tpl.index('%s')
        rest = tpl[i + 2:]
        return rest[:1] not in ('<', ' ', '"', "'", ';', '\n') or False
    return False


def check(tpl, pre, post, kind, written, value, st, context=None, **kw):
    source = tpl.replace('%s', written).replace('%%', '%')
    try:
        got = XMLTemplate(source, **kw)({'x': 1}).render()
    except Exception as e:
        got = '%s: %s' % (type(e).__name__, str(e)[:200])
    st.traces += 1
    st.steps += 1
    ok = got.startswith(pre) and got.endswith(post) and len(got) >= len(pre) + len(post)
    if ok:
        body = got[len(pre):len(got) - len(post)]
        if kind == 'raw':
            ok = body == value
        else:
            ok = decode(body) == value and not (kind == 'attr' and '"' in body)
    if not ok:
        raise Violation('a reference did not come out as its character', source=source, context=repr(kw),
                        expected=pre + value + post, observed=got)
    outcome(st, got)


def written_forms(n):
    v = VALUE[n]
    yield '&%s;' % n, v


class Named(Space):
    name = 'named references'
    bound = 'all %d named references x %d positions in xml mode and %d in html and html5 mode' % (len(VALUE), len(POS), len(POS_HTML))

    def cases(self, tier):
        for n in sorted(XMLPRE):
            yield n
        for n in NAMED:
            if n not in XMLPRE:
                yield n

    def run(self, n, st):
        v = VALUE[n]
        for _, tpl, pre, post, kind in POS:
            if not skip(kind, v, tpl):
                check(tpl, pre, post, kind, '&%s;' % n, v, st)
        for _, tpl, pre, post, kind in POS_HTML:
            if not skip(kind, v, tpl):
                check(tpl, pre, post, kind, '&%s;' % n, v, st, mode='html')
                check('<!DOCTYPE html>\n' + tpl, '<!DOCTYPE html>\n' + pre, post, kind, '&%s;' % n, v, st)


REP = ['amp', 'lt', 'gt', 'quot', 'apos', 'nbsp', 'hellip', 'AMP', 'LT', 'GT', 'QUOT', 'eacute', 'ngE', 'Afr', 'NewLine', 'Tab', 'fjlig', 'lbrace',
       'rsquo', 'in', 'isin', 'sup', 'sup1', 'and', 'zwnj', 'ThickSpace', 'semi', 'num', 'colon', 'percnt', 'grave', 'lowbar', 'acE']
NUM = ['#38', '#60', '#62', '#34', '#39', '#160', '#xA0', '#x26', '#x3c', '#x3E', '#x1F600', '#9', '#10', '#13', '#xe9', '#xE9', '#00065', '#x0041']


def value_of(n):
    if n.startswith('#x'):
        return chr(int(n[2:], 16))
    if n.startswith('#'):
        return chr(int(n[1:]))
    return VALUE[n]


class Adjacent(Space):
    name = 'adjacent references'
    bound = ('all ordered pairs (thorough: triples in text and attributes) of %d representative references, adjacent and separated by a letter, a space, '
             'a raw ampersand reference spelt out, in every position' % (len(REP) + len(NUM)))

    def cases(self, tier):
        for a, b in itertools.product(REP + NUM, repeat=2):
            yield a, b
        if tier == 'thorough':
            for t in itertools.product(REP + NUM, repeat=3):
                yield t

    def run(self, case, st):
        vals = [value_of(n) for n in case]
        refs = ['&%s;' % n for n in case]
        pos = [p for p in POS if p[0] in ('text', 'within an attribute', 'within a script', 'in a string of an expression')]
        for sep in ('', 'a', ' ', 'amp;', '&amp;', '#38;') if len(case) == 2 else ('',):
            for _, tpl, pre, post, kind in pos:
                value = sep.replace('&amp;', '&').join(vals)
                if skip(kind, value, tpl):
                    continue
                check(tpl, pre, post, kind, sep.join(refs), value, st)


class Escaped(Space):
    name = 'escaped references'
    bound = ('the letters of every named reference and of %d numeric ones after an escaped ampersand (&amp;, &#38;, &#x26;, &AMP;), once and '
             'twice escaped: they stay letters; representative ones in every position, all in 5' % len(NUM))
    MAIN = ('within text', 'within an attribute', 'within a script', 'in a string of an expression', 'style')
    AMP = ['&amp;', '&#38;', '&#x26;', '&AMP;']

    def cases(self, tier):
        for n in sorted(VALUE) + NUM:
            yield n

    def run(self, n, st):
        for i, amp in enumerate(self.AMP):
            full = n in REP or n in NUM
            if i and not full:
                break
            for written, value in ((amp + n + ';', '&' + n + ';'), (amp + 'amp;' + n + ';', '&amp;' + n + ';'), (amp + n, '&' + n)):
                for name, tpl, pre, post, kind in POS:
                    if full and not (name == 'before a semicolon' and not written.endswith(';')) or name in self.MAIN:
                        check(tpl, pre, post, kind, written, value, st)


def valid_chars():
    for a, b in ((9, 0xb), (0xd, 0xe), (0x20, 0xd800), (0xe000, 0xfffe), (0x10000, 0x110000)):
        for c in range(a, b):
            yield c


class Numeric(Space):
    name = 'numeric references'
    bound = 'all 1,112,033 characters of XML as decimal and hexadecimal references, 512 to a template, in text, attribute and script'

    def cases(self, tier):
        chunk = []
        for c in valid_chars():
            if c in (0x24,):            # a dollar sign may begin an expression
                continue
            chunk.append(c)
            if len(chunk) == 512:
                yield chunk[0], chunk[-1]
                chunk = []
        yield chunk[0], chunk[-1]

    def run(self, case, st):
        chars = [c for c in range(case[0], case[1] + 1) if c != 0x24 and not 0xd800 <= c < 0xe000 and c not in (0xfffe, 0xffff, 0xb, 0xc)
                 and not 0xe <= c < 0x20]
        # keep the two placeholders of decode() out of it
        value = ''.join(map(chr, chars))
        for form in ('&#%d;', '&#x%x;', '&#x%06X;'):
            written = ''.join(form % c for c in chars)
            for tpl, a, b, kind in (('<r>%s</r>', '<r>', '</r>', 'text'), ('<r q="%s"/>', '<r q="', '"/>', 'attr'),
                                    ('<script>%s</script>', '<script>/*<![CDATA[*/', '/*]]>*/</script>', 'raw')):
                try:
                    got = XMLTemplate(tpl.replace('%s', written))().render()
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, str(e)[:200])
                st.traces += 1
                st.steps += len(chars)
                ok = got.startswith(a) and got.endswith(b)
                body = got[len(a):len(got) - len(b)]
                if kind != 'raw':
                    ok = ok and '<' not in body
                    body = _ref.sub(lambda mo: VALUE[mo.group(3)] if mo.group(3) else chr(int(mo.group(1), 16) if mo.group(1) else int(mo.group(2))),
                                    body)
                if not ok or body != value:
                    raise Violation('numeric references', source='%s with U+%04X to U+%04X as %s' % (tpl, case[0], case[1], form),
                                    expected=ascii(value), observed=ascii(got))
                outcome(st, got)


class Verbatim(Space):
    name = 'no reference'
    bound = 'every named and some unknown references in CDATA sections, comments and Python blocks stay as written'

    def cases(self, tier):
        for n in NAMED + ['foo', 'x', 'no', '#160', '#x26', 'nbsp ', ' nbsp', '']:
            yield n

    def run(self, n, st):
        ref = '&%s;' % n
        for tpl, want in (('<r><![CDATA[%s]]></r>', '<r><![CDATA[%s]]></r>'), ('<r>a<![CDATA[b%sc]]>&gt;</r>', '<r>a<![CDATA[b%sc]]>&gt;</r>'),
                          ('<r><!--%s--></r>', '<r><!-- %s --></r>'), ('<r><!-- %s -->&#62;</r>', '<r><!--  %s  -->&gt;</r>'),
                          ('<r><?py v = len("%s") ?>$v</r>', '<r>' + str(len(ref)) + '</r>'), ('<script><![CDATA[%s]]></script>', '<script>/*<![CDATA[*/%s/*]]>*/</script>')):
            source = tpl.replace('%s', ref)
            try:
                got = XMLTemplate(source)().render()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:200])
            st.traces += 1
            st.steps += 1
            if got != want.replace('%s', ref):
                raise Violation('text that is no reference', source=source, expected=want.replace('%s', ref), observed=got)
            outcome(st, got)


BADNUM = ['#0', '#x0', '#1', '#8', '#11', '#x1F', '#xD800', '#xDFFF', '#xFFFE', '#xFFFF', '#x110000', '#1114112', '#', '#x', '#xG', '#1a', '#X41', '#-5', '# 65']


def unknown_names():
    seen = set(VALUE)
    for n in ['foo', 'x', 'nbs', 'nbspp', 'NBSP', 'Nbsp', 'hellips', 'a.b', 'a-b', 'a:b', '_', 'undefined', 'copyright', 'true', 'amp2', 'kajiki']:
        if n not in seen:
            seen.add(n)
            yield n
    for n in NAMED:
        for v in (n + 'x', n[:-1], n[1:], n.swapcase(), n + n[-1], n[::-1], n.capitalize(), 'x' + n, n + ';'[:0] + '0'):
            if v and v not in seen and re.match('[A-Za-z_]', v):
                seen.add(v)
                yield v


UNPOS = [p for p in POS if p[4] in ('text', 'attr') or p[0] in ('script', 'within a script', 'style')]


class Unknown(Space):
    name = 'unknown references'
    bound = ('the unknown names next to every known one (a letter more, less, doubled, other case, reversed), %d invalid numeric references and '
             'references without a semicolon, in %d positions: always an error' % (len(BADNUM), len(UNPOS)))

    def cases(self, tier):
        for n in BADNUM:
            yield '&%s;' % n, True
        for n in ('nbsp', 'amp', 'lt', 'copy', '#65', '#x41', '', ' ', 'eacute'):
            yield '&%s' % n, True
        for i, n in enumerate(unknown_names()):
            yield '&%s;' % n, tier == 'thorough' or i % 16 == 0

    def run(self, case, st):
        ref, full = case
        for name, tpl, pre, post, kind in UNPOS if full else [p for p in UNPOS if p[0] in ('within text', 'within an attribute', 'in a function')]:
            if not ref.endswith(';') and post.startswith(';'):
                continue
            source = tpl.replace('%s', ref).replace('%%', '%')
            st.traces += 1
            st.steps += 1
            try:
                got = XMLTemplate(source)({'x': 1}).render()
            except Exception as e:
                outcome(st, type(e).__name__)
                if not isinstance(e, (KajikiSyntaxError, XMLTemplateError)):
                    raise Violation('an unknown reference is not reported as a template error', source=source, expected='a template error',
                                    observed='%s: %s' % (type(e).__name__, e))
                continue
            raise Violation('an unknown reference is not reported', source=source, expected='a template error', observed=got)


class Vocabulary(Space):
    name = 'vocabulary'
    bound = ('%d references and the letters of each after an escaped ampersand in the content and an attribute of every one of %d elements and in every one of %d attributes, '
             'between letters and next to an expression; xml and html' % (len(REP) + len(NUM), len(vocab.ELEMENTS), len(vocab.ATTRIBUTES)))

    def cases(self, tier):
        for e in vocab.ELEMENTS:
            yield 'e', e
        for a in vocab.ATTRIBUTES:
            yield 'a', a

    def run(self, case, st):
        what, name = case
        items = []
        for n in REP + NUM:
            items.append(('&%s;' % n, value_of(n)))
            items.append(('&amp;%s;' % n, '&%s;' % n))
        # all of them in one template, each in an element of its own
        for mode in 'xml', 'html':
            html = mode == 'html'
            parts, pats = [], []
            for i, (written, value) in enumerate(items):
                if what == 'e':
                    if name in ('script', 'style') and (value in '\r\n' or value.strip() != value):
                        continue
                    end = '' if html and name in VOID else '</%s>' % name
                    a, b = ('/*<![CDATA[*/', '/*]]>*/') if not html and name in ('script', 'style') else ('', '')
                    parts.append('<q><%s t="${x}%s">a%sb${x}</%s></q>' % (name, written, written, name))
                    pats.append(('<q><%s t="1' % name, value, '">%sa' % a, value, 'b1%s%s</q>' % (b, end)))
                else:
                    if html and name in BOOLEAN:
                        continue
                    parts.append('<q %s="a%sb"/><q %s="%s ${x}"/>' % (name, written, name, written))
                    e = '></q>' if html else '/>'
                    pats.append(('<q %s="a' % name, value, 'b"%s<q %s="' % (e, name), value, ' 1"%s' % e))
            if not parts:
                continue
            source = '<r>%s</r>' % '\n'.join(parts)
            got = XMLTemplate(source, mode=mode)({'x': 1}).render()
            st.traces += 1
            lines = re.split('(?<=>)\n(?=<q)', got[3:-4])
            if len(lines) != len(pats):
                raise Violation('parts lost', source=source[:500], expected=str(len(pats)), observed=got[:1000])
            for line, (p1, v1, p2, v2, p3), src in zip(lines, pats, parts):
                st.steps += 2
                raw = what == 'e' and name in ('script', 'style')
                i = line.find(p2, len(p1)) if raw else line.find(p2)
                body1, body2 = line[len(p1):i], line[i + len(p2):len(line) - len(p3)]
                if not line.startswith(p1) or i < 0 or not line.endswith(p3) or decode(body1) != v1 or '"' in body1 or (body2 if raw else decode(body2)) != v2:
                    raise Violation('a reference did not come out as its character', source=src, context=mode, expected=repr((p1, v1, p2, v2, p3)), observed=line)
            outcome(st, (case, mode))


def spaces():
    return [Vocabulary(), Named(), Adjacent(), Escaped(), Numeric(), Verbatim(), Unknown()]


ASSUMPTIONS = ['a dollar sign written as a reference (&dollar;, &#36;) is only placed where no expression could begin with it',
               'the table of the standard library of Python is the list of HTML5 named character references']
