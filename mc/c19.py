"""C19: invalid templates are rejected at compile time with their location.

Faults are put into valid templates at every place; which of the results are invalid, and on which line, is known from the
construction or, for well-formedness, from an XML parser run on the very source.
Markers as in C18: \\1 the error may be reported on this line, \\2 ... \\3 on any line from here to there.
"""
import itertools
import xml.parsers.expat

from mc import core
from mc.core import Space, Violation, outcome
from mc.c18 import SHIFT, WRAP, HEAD, TSHIFT, TWRAP, clean

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate  # noqa: E402
from kajiki.template import KajikiSyntaxError  # noqa: E402
from kajiki.xml_template import XMLTemplateError  # noqa: E402

ERRORS = (KajikiSyntaxError, XMLTemplateError)

NAME = 'some/page.html'


def compile_(source, cls=XMLTemplate, **kw):
    return cls(source, filename=NAME, **kw)


def expect_error(source, lines, st, what, located=True, cls=XMLTemplate, **kw):
    st.traces += 1
    st.steps += 1
    try:
        compile_(source, cls, **kw)
    except ERRORS as e:
        if located:
            msg = str(e)
            if e.filename != NAME or NAME not in msg:
                raise Violation('the error does not name the template file: ' + what, source=source, expected=NAME,
                                observed='%r: %s' % (e.filename, msg))
            if lines is not None and e.linenum not in lines:
                raise Violation('the error names the wrong line: ' + what, source=source, expected=repr(sorted(lines)), observed='%s: %s' % (e.linenum, msg))
            if '%s:%s' % (NAME, e.linenum) not in msg:
                raise Violation('the message does not show the line: ' + what, source=source, expected='%s:%s' % (NAME, e.linenum), observed=msg)
            # the line in question is quoted
            quoted = [l for l in msg.split('\n') if '-->' in l]
            line = source.split('\n')[e.linenum - 1].strip() if 0 < e.linenum <= source.count('\n') + 1 else ''
            if cls is XMLTemplate and line and not any(line in q for q in quoted) and e.linenum != 1 and '\u2028' not in source and not line.startswith('<!DOCTYPE') \
                    and 'html>' not in line:
                raise Violation('the message does not quote the line: ' + what, source=source, expected=line, observed=msg)
        outcome(st, (type(e).__name__, e.linenum))
        return
    except Exception as e:
        raise Violation('not a template error: ' + what, source=source, expected='a template error', observed='%s: %s' % (type(e).__name__, str(e)[:300]))
    raise Violation('an invalid template compiles: ' + what, source=source, expected='a template error', observed='compiled')


def expect_valid(source, st, what, cls=XMLTemplate, **kw):
    st.traces += 1
    st.steps += 1
    try:
        compile_(source, cls, **kw)
    except Exception as e:
        raise Violation('a valid template is rejected: ' + what, source=source, expected='it compiles', observed='%s: %s' % (type(e).__name__, str(e)[:400]))
    outcome(st, 'ok')


# --- well-formedness ----------------------------------------------------------------------

BASES = [
    '<r>t</r>', '<r a="1" b="$x">\n <i/>\n</r>', '<r>\n${x}\n<i py:if="x">\ny</i><py:else>\nz</py:else></r>', '<!-- c\n -->\n<r>\n<![CDATA[ a\n < b ]]>\n</r>',
    '<r>\n<?py v = 1\n?>\n$v &amp;\n&#65;</r>', '<!DOCTYPE html>\n<html>\n<br/>\n<script>\nx</script></html>', '<r>\n<py:for each="i in l"\n>\n<b c="${i}"/>\n</py:for>\n</r>\n',
    '<py:extends href="p">\n<py:block name="b">\nt\n</py:block></py:extends>', "<r q='a\nb'>\n<a\n b='c'\n/></r>\n<!-- d -->\n",
    '<?xml version="1.0"?>\n<r>\n<py:switch test="x">\n<py:case value="1">\na</py:case>\n</py:switch></r>', '<r>\n<py:def function="f(a)">\n$a</py:def>\n${f(1)}</r>',
    '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n  "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n<html>\n<p>\nx</p></html>',
]
CHARS = '<>&"\'/=;! ?]-a\x01'


def mutants(src, tier):
    yield src
    for i in range(len(src)):
        yield src[:i] + src[i + 1:]
    for i in range(len(src) + 1):
        for c in CHARS:
            yield src[:i] + c + src[i:]
    for i in range(len(src)):
        for c in CHARS:
            if src[i] != c:
                yield src[:i] + c + src[i + 1:]
    for i in range(len(src) - 1):
        if src[i] != src[i + 1]:
            yield src[:i] + src[i + 1] + src[i] + src[i + 2:]
    for i in range(len(src)):
        yield src[:i]
        yield src[i:]
    if tier == 'thorough':
        for i in range(len(src)):
            for j in range(i + 2, len(src) + 1):
                yield src[:i] + src[j:]             # delete any piece
                yield src[:j] + src[i:]             # repeat any piece


def wellformed(src):
    """None, or (line, message) of the first error."""
    p = xml.parsers.expat.ParserCreate('utf-8')
    skipped = []
    p.UseForeignDTD(True)
    p.SetParamEntityParsing(xml.parsers.expat.XML_PARAM_ENTITY_PARSING_NEVER)
    p.SkippedEntityHandler = lambda name, is_param: skipped.append(name)
    try:
        p.Parse(src.encode('utf-8'), True)
    except xml.parsers.expat.ExpatError as e:
        return e.lineno, str(e)
    return None


class WellFormed(Space):
    name = 'well-formedness'
    bound = ('every deletion, insertion and replacement of one character (%d characters), every exchange of two, every prefix and suffix of %d valid '
             'templates (thorough: every deletion and repetition of a piece); an XML parser tells which are not well-formed and on which line'
             % (len(CHARS), len(BASES)))

    def cases(self, tier):
        for b in range(len(BASES)):
            seen = set()
            for m in mutants(BASES[b], tier):
                if m not in seen:
                    seen.add(m)
                    yield b, m

    def run(self, case, st):
        b, src = case
        if src == BASES[b]:
            return expect_valid(src, st, 'base')
        bad = wellformed(src)
        if bad is None:
            st.skipped += 1
            return
        # The library puts its own document type in place of the one of the template, so damage to the prolog may show elsewhere
        # or not at all.
        prolog = BASES[b][:BASES[b].index('<html' if '<html' in BASES[b] else '<r' if '<r' in BASES[b] else '<py:')]
        if ('<!DOCTYPE' in src or '<?xml' in src or '<!DOCTYPE' in prolog) and not src.startswith(prolog + '<'):
            try:
                compile_(src)
            except ERRORS as e:
                if e.filename != NAME or NAME not in str(e):
                    raise Violation('the error does not name the template file', source=src, expected=NAME, observed=str(e))
                st.traces += 1
                st.steps += 1
                outcome(st, (type(e).__name__, e.linenum))
                return
            except Exception as e:
                raise Violation('not a template error', source=src, expected='a template error: ' + bad[1],
                                observed='%s: %s' % (type(e).__name__, str(e)[:300]))
            st.skipped += 1
            return
        lines = {bad[0]}
        amp = undefined_line(src)
        if amp:
            lines.add(amp)
        expect_error(src, lines, st, bad[1])


def undefined_line(src):
    import re
    import html.entities
    for mo in re.finditer(r'&([\w.:-]+;)', src):
        if mo.group(1) not in html.entities.html5:
            return src[:mo.start()].count('\n') + 1
    return None


# --- expressions ----------------------------------------------------------------------------

BAD = ['${x', '${', '${x +}', '${)}', '${x y}', '${(x}', '${for}', '${x = 1}', '${"a}', "${'a}", '${1 2}', '${[}', '${lambda}', '${x;y}', '${if x}', '${pass}', '${x)}',
       '${{x}', '${"""a}', '${x.}', '${x..y}', '${x[}', '${x + + }', '${*}', '${def f(): pass}', '${x if}', '${not}', '${x,,y}', '${yield}}'[:0] or '${import os}', '${1x}', '${x == }',
       '${}', '${ }']
BADML = ['\x02${x +\n}\x03', '\x02${\n\n x y}\x03', '\x02${(x,\n y z)}\x03', '\x02${[\n}\x03', '\x02${\nx\x03', '\x02${"a\nb"}\x03']
ESITES = ['%s', 't %s', '%s t', '${x} %s', 'a\n %s\n', '<i>%s</i>', '<b>\n<i/>\n%s</b>', '\x01<i a="%s"/>', '\x01<i\n b="1"\n \x01a="x %s"/>', '\x01<i py:if="x" a="${x}%s"/>', '<script>\n%s</script>', '<style>%s</style>', '<py:def function="e()">\n%s</py:def>',
          '<py:block name="e">\n%s\n</py:block>', '<py:if test="x">%s</py:if>', '<py:switch test="x"><py:case value="1">\n%s</py:case></py:switch>', '<py:with vars="q=1">\n%s</py:with>', '<![CDATA[%s]]>', 'a\n&amp;\n%s', '<py:call function="str(%caller)">\n%s</py:call>']


def fill(site, bad):
    attr = '="' in site.split('%s')[0][-8:] and site.split('%s')[0].count('"') % 2 == 1
    if attr:
        if '"' in bad:
            return None
        if '\x02' in bad:
            return None
        return site.replace('%s', bad)
    if '\x02' not in bad:
        bad = '\x01' + bad
    return site.replace('%s', bad)


class Expressions(Space):
    name = 'expressions'
    bound = '%d invalid or unterminated expressions x %d sites x %d line shifts before x %d wrappers' % (len(BAD) + len(BADML), len(ESITES), len(SHIFT), len(WRAP))

    def cases(self, tier):
        for s in range(len(ESITES)):
            for b in range(len(BAD) + len(BADML)):
                for e in range(len(SHIFT)) if tier != 'quick' or s < 9 else (0, 1, 2):
                    yield s, b, e, 0
                for w in range(1, len(WRAP)):
                    yield s, b, 1, w

    def run(self, case, st):
        s, b, e, w = case
        t = fill(ESITES[s], (BAD + BADML)[b])
        if t is None:
            st.skipped += 1
            return
        wrap = [x.replace('#', '7') for x in WRAP[w]]
        if '}' in wrap[1]:
            wrap[1] = ''.join(wrap[1].partition('</py:def>')[:2]) if '</py:def>' in wrap[1] else wrap[1].split('$')[0]
            if wrap[0].count('<py:def') == 2:
                wrap[1] = '</py:def></py:def>'
        # an expression may only be closed by a brace of its own: nothing with a brace follows in the same text
        source, lines = clean('<r>' + SHIFT[e].replace('#', '1') + wrap[0] + t + '<hr/>' + wrap[1] + '</r>')
        expect_error(source, lines, st, 'expression')


# --- py:else and py:switch -------------------------------------------------------------------

# name -> (markup, is it a py:if that a py:else may follow)
SIB = [('', None), ('t', 0), (' ', 0), ('\n', 0), ('<i/>', 0), ('<i>a</i>', 0), ('${x}', 0), ('<!-- c -->', 0), ('<?py v = 1 ?>', 0), ('<![CDATA[a]]>', 0),
       ('<py:if test="x">a</py:if>', 1), ('<i py:if="x">a</i>', 1), ('<i py:if="x" py:strip="x">a</i>', 1), ('<i py:if="x" py:with="q=1">a</i>', 1), ('<py:if test="x"/>', 1),
       ('<i py:for="j in l" py:if="x">a</i>', 0), ('<py:for each="j in l">a</py:for>', 0), ('<i py:for="j in l">a</i>', 0), ('<py:with vars="q=1">a</py:with>', 0),
       ('<i py:with="q=1">a</i>', 0), ('<py:switch test="x"><py:case value="1">a</py:case></py:switch>', 0), ('<py:block name="bb">a</py:block>', 0),
       ('<py:with vars="q=1"><py:if test="x">a</py:if></py:with>', 0), ('<i><py:if test="x">a</py:if></i>', 0), ('<py:include href="p"/>', 0), ('<i py:replace="x"/>', 0), ('<i py:strip="x">a</i>', 0),
       ('<py:if test="x">a</py:if> ', 0), ('<py:if test="x">a</py:if>\n', 0), ('<py:if test="x">a</py:if>t', 0), ('<py:if test="x">a</py:if><i/>', 0), ('<py:if test="x">a</py:if>${x}', 0),
       ('<py:if test="x">a</py:if><py:else>b</py:else>', 0), ('<py:if test="x">a</py:if><!-- c -->', 0), ('<py:for each="j in l">a</py:for><py:if test="x">a</py:if>', 1),
       ('<py:if test="x">a</py:if><py:if test="x">a</py:if>', 1), ('<py:if test="x">a</py:if><i py:else="" py:if="x">b</i>', 0)]
# things that may leave nothing behind in the output or the program
NOTHING = ['<!--! c -->', '<!---->', '<?py %v = 1 ?>', '<?py pass ?>', '<?py # ?>', '<?other x?>', '<![CDATA[]]>', '<py:def function="dd()">a</py:def>', '<py:def function="dd()"/>', '<i py:strip=""/>',
           '<py:import href="p"/>', '<py:block name="bc"/>', '&#32;', '&#160;', '&#8203;', '<py:for each="j in ()"/>', '<py:with vars="q=1"/>', '<i py:replace="None"/>', '<py:call function="f(%caller)"/>', '\t', ' \n']
SIB += [('<py:if test="x">a</py:if>' + n, 0) for n in NOTHING] + [('<i py:if="x">a</i>' + n, 0) for n in NOTHING] + [(n, 0) for n in NOTHING] + [(n + '<i py:if="x"/>', 1) for n in NOTHING]
SIB += [('<i py:if="x"/>' + n + m, 0) for n in NOTHING for m in NOTHING]
ELSE = ['<py:else>e</py:else>', '<i py:else="">e</i>', '<py:else/>', '<i py:else="" py:if="x">e</i>', '<i py:else="" py:strip="">e</i>', '<i py:else="" py:for="j in l">e</i>']
EWRAP = [('<r>', '</r>'), ('<r>\n\n', '\n</r>'), ('<r><py:with vars="o=1">', '</py:with></r>'), ('<r><py:for each="k in l">', '</py:for></r>'), ('<r><py:if test="x">', '</py:if></r>'), ('<r><py:if test="x">a</py:if><py:else>', '</py:else></r>'),
         ('<r><py:def function="ff()">', '</py:def></r>'), ('<r><py:block name="cc">', '</py:block></r>'), ('<r><py:switch test="x"><py:case value="1">', '</py:case></py:switch></r>'), ('<r><i py:strip="x">', '</i></r>'), ('<r><i py:if="x">', '</i></r>'),
         ('<py:extends href="l"><py:block name="cc">', '</py:block></py:extends>'), ('<r><py:def function="ff(c)"/><py:call function="ff(%caller)">', '</py:call></r>'), ('<r><i py:for="k in l">\n', '</i></r>'), ('<py:if test="x">', '</py:if>'), ('<py:with vars="o=1">', '</py:with>'),
         ('<r><py:def function="ff()"><py:def function="gg()">', '</py:def></py:def></r>')]


class Else(Space):
    name = 'py:else'
    bound = '%d preceding siblings x %d spellings of py:else x %d surroundings x %d line shifts: accepted exactly when a py:if directly precedes' % (len(SIB), len(ELSE), len(EWRAP), len(SHIFT))

    def cases(self, tier):
        few = len(SIB) - len(NOTHING) ** 2
        for s in range(len(SIB)):
            if s >= few and tier == 'quick':
                yield s, 0, 0, 0
                yield s, 1, 6, 0
                continue
            for e in range(len(ELSE)):
                for w in range(len(EWRAP)):
                    yield s, e, w, 0
                    if e < 2 or tier != 'quick':
                        yield s, e, w, 1
                        yield s, e, w, 2
            for h in range(1, len(SHIFT)):
                for w in (0, 2) if tier == 'quick' else range(len(EWRAP)):
                    yield s, 0, w, h

    def run(self, case, st):
        s, e, w, h = case
        sib, ok = SIB[s]
        pre, post = EWRAP[w]
        shift = SHIFT[h].replace('#', '1')
        if h and not pre.startswith('<r'):
            st.skipped += 1
            return
        if h and h >= 3 and ok is None:
            st.skipped += 1
            return
        # the shift comes first, so that the sibling of the else stays what it is
        source, lines = clean(pre + shift + sib + '\x01' + ELSE[e] + '<u/>' + post)
        if ok:
            expect_valid(source, st, 'py:else')
        else:
            expect_error(source, lines, st, 'py:else')


CASE = '<py:case value="1">a</py:case>'
LAST = '<py:else>b</py:else>'
FOREIGN = ['t', '${x}', '<i/>', '<i>\n</i>', '$x', '<py:if test="x">a</py:if>', '<py:for each="j in l">a</py:for>', '<py:with vars="q=1">a</py:with>', '<?py v = 1 ?>', '<i py:if="x"/>', '<py:block name="b">\n</py:block>', '<py:include href="p"/>',
           '<py:switch test="x"><py:case value="1">a</py:case></py:switch>', '<![CDATA[a]]>', '<i py:strip="x">a</i>', '<i py:content="x"/>', '<i py:replace="x"/>', '<i py:for="j in l"/>', '<i py:with="q=1"/>', '&amp;', '<py:import href="p"/>', '<py:call function="f(%caller)">a</py:call>']
FINE = ['', ' ', '\n', '\n\n  ', '<!--! c -->', '<i py:case="2">\n</i>', '<py:case value="x"/>', '<i py:case="3" py:if="x">\na</i>', '<i py:case="4" py:for="i in l"/>']


class Switch(Space):
    name = 'py:switch'
    bound = '%d foreign and %d allowed contents at every position among up to two cases and an else x %d surroundings, both spellings of the cases; py:switch on a tag' % (len(FOREIGN), len(FINE), len(EWRAP))

    def cases(self, tier):
        for ncases in (0, 1, 2):
            for els in (0, 1):
                for pos in range(ncases + els + 1):
                    for w in range(len(EWRAP)):
                        for k in range(len(FOREIGN) + len(FINE)):
                            yield ncases, els, pos, w, k
        for w in range(len(EWRAP)):
            for k in range(3):
                yield 'tag', k, 0, w, 0

    def run(self, case, st):
        ncases, els, pos, w, k = case
        pre, post = EWRAP[w]
        if ncases == 'tag':
            body = [CASE, CASE + LAST, '<i py:case="1"/>\n<i py:else=""/>'][els]
            source, lines = clean(pre + 'a\n<b>\n\x02<i py:switch="x">' + body + '</i>\x03</b>' + post)
            return expect_error(source, lines, st, 'py:switch on a tag')
        parts = ['\n<py:case value="%d">a</py:case>' % i for i in range(ncases)] + ['\n<i py:else="">b</i>'] * els
        c = (FOREIGN + FINE)[k]
        fine = k >= len(FOREIGN)
        if fine and 'case' in c and els and pos == ncases + els:
            st.skipped += 1         # a case after the else
            return
        parts.insert(pos, c)
        source, lines = clean(pre + '<i/>\n\x02<py:switch test="x">' + ''.join(parts) + '\x03\n</py:switch>' + post)
        if fine:
            expect_valid(source, st, 'py:switch')
        else:
            expect_error(source, lines, st, 'foreign content in py:switch')


# --- Python in directives ---------------------------------------------------------------------

BADPY = ['x +', 'x y', '(x', 'x)', '"a'.replace('"', "'"), 'for', 'x = = 1', '1x', 'x,,y', 'lambda', '[', ')', 'x if', 'not', 'x.', '*', 'import os', '{']
BADFOR = ['i i l', 'i in', 'in l', 'i in l)', 'i in (l', '1 2 in l', 'i in l l', 'for i in l', '1 in l', 'i', 'f() in l', "i in 'l"]
BADDEF = ['f(', 'f)', '1f()', 'f(a', 'f(a b)', 'f(1)', 'f(a, a)', 'f(a=)', 'f(*)', 'f() x', 'def()', 'f(a=1, b)', '']
BADWITH = ['a=', 'a=x y', 'a=(x', 'a=1;b=', '1=x', 'a+1=x', 'f()=x', "a='x", 'a=1;2=x', 'for=1', 'a b=1', 'a=x)']
BADPI = ['x =', 'x y', 'if x', 'for i in', 'x = (', 'def f(', "x = 'a", 'return)', 'if x:\ny = 1', 'import', 'class', '1 = x', 'x = = 1', '% x =', '% def f(', 'while', 'try: pass', 'lambda: = 1']
DIRS = [('<py:if test="%s">\na</py:if>', BADPY + ['']), ('<i py:if="%s">\na</i>', BADPY + ['']), ('<py:for each="%s">\na</py:for>', BADFOR + ['']), ('<i py:for="%s"/>', BADFOR + ['']), ('<py:switch test="%s">\n<py:case value="1">a</py:case></py:switch>', BADPY),
        ('<py:switch test="x">\n<py:case value="%s">a</py:case></py:switch>', BADPY), ('<py:switch test="x">\n<i py:case="%s">a</i></py:switch>', BADPY), ('<py:with vars="%s">\na</py:with>', BADWITH), ('<i py:with="%s"/>', BADWITH),
        ('<py:def function="%s">\na</py:def>', BADDEF), ('<i py:def="%s">\na</i>', BADDEF), ('<py:def function="g()"><py:def function="%s">\na</py:def></py:def>', BADDEF), ('<py:call function="%s">\na</py:call>', BADPY), ('<i py:attrs="%s"/>', BADPY),
        ('<i py:content="%s"/>', BADPY), ('<i py:replace="%s"/>', BADPY), ('<i py:strip="%s">\na</i>', BADPY), ('<i a="1" py:strip="%s" b="$x">\na</i>', BADPY), ('<?py %s ?>', BADPI), ('<?python %s\n?>', BADPI), ('<py:call args="%s" function="f(%%caller)">\na</py:call>', ['1', 'a b', 'a, a', 'a=', '(', ')']),
        ]
# 'x)' closes the parenthesis opened by ... nothing that could be valid
SKIP = {('py:call', '*'), }


class Directives(Space):
    name = 'Python in directives'
    bound = 'invalid Python fragments x every directive in every spelling (%d) x %d surroundings and %d shifts' % (len(DIRS), len(EWRAP), len(SHIFT))

    def cases(self, tier):
        for d in range(len(DIRS)):
            for b in range(len(DIRS[d][1])):
                for w in range(len(EWRAP)):
                    yield d, b, w, 0
                for h in range(1, len(SHIFT)):
                    yield d, b, 0, h

    def run(self, case, st):
        d, b, w, h = case
        tpl, bads = DIRS[d]
        pre, post = EWRAP[w]
        source = pre + SHIFT[h].replace('#', '1') + tpl.replace('%%', '\x00').replace('%s', bads[b]).replace('\x00', '%') + '<u>t</u>' + post
        expect_error(source, None, st, 'Python in a directive', located=False)


# --- text templates ---------------------------------------------------------------------------

TEXT_SITES = ['%s', 't %s', 'a\n %s\n', '${x}\n%s', '%if x\n%s\n%end\n', '%for i in l\n\n%s\n%end\n', '%def e()\n%s\n%end\n', '{%if x%}%s{%end%}', '%switch x\n%case 1\n%s\n%end\n', '%block e\n%s\n%end\n', 'a\\\nb %s']
TBAD = BAD
TBADML = BADML


class Text(Space):
    name = 'text templates'
    bound = '%d invalid or unterminated expressions x %d sites x %d line shifts before' % (len(TBAD) + len(TBADML), len(TEXT_SITES), len(TSHIFT))

    def cases(self, tier):
        for s in range(len(TEXT_SITES)):
            for b in range(len(TBAD) + len(TBADML)):
                for e in range(len(TSHIFT)):
                    yield s, b, e

    def run(self, case, st):
        s, b, e = case
        bad = (TBAD + TBADML)[b]
        if '\x02' not in bad:
            bad = '\x01' + bad
        source, lines = clean(TSHIFT[e].replace('#', '1') + TEXT_SITES[s].replace('%s', bad))
        if bad == '\x01${':
            # never closed: the expression extends over the line breaks that follow
            first = min(lines)
            rest = source.split('\n', first)[first] if source.count('\n') >= first else ''
            lines |= set(range(first, first + 2 + len(rest) - len(rest.lstrip('\n'))))
        expect_error(source, lines, st, 'expression in a text template', cls=TextTemplate)


def spaces():
    return [WellFormed(), Expressions(), Else(), Switch(), Directives(), Text()]


ASSUMPTIONS = ['the expat parser of the Python standard library decides what is well-formed XML and on which line it stops being so',
               'errors inside a document type declaration or XML declaration need not be noticed, as the library puts its own in place']
