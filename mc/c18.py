"""C18: run-time errors point at the template file and line.

Templates are put together from line-shifting elements, wrappers and a failing site; the source carries markers that are
removed before it is compiled:  \\1 = the failing construct may be reported at this line,  \\2 ... \\3 = or at any line from
here to there (an expression that takes several lines).  So the expected line is known by construction.
"""
import itertools
import sys

from mc import core
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, TextTemplate, MockLoader  # noqa: E402


class Boom(Exception):
    pass


class Bad(object):
    """Fails as soon as anything is done with it."""

    def __init__(self, exc):
        self.exc = exc

    def _fail(self, *a, **kw):
        raise self.exc
    __str__ = __unicode__ = __iter__ = __bool__ = __getitem__ = __add__ = __radd__ = __call__ = __eq__ = __len__ = _fail
    prop = property(_fail)
    __hash__ = None


def late(exc):
    yield 1
    raise exc


def clean(source):
    """Source without markers, and the lines at which an error may be reported."""
    out, lines, line, start = [], set(), 1, None
    for c in source:
        if c == '\x01':
            lines.add(line)
        elif c == '\x02':
            start = line
        elif c == '\x03':
            lines.update(range(start, line + 1))
        else:
            out.append(c)
            line += c == '\n'
    return ''.join(out), lines


def template_frames(tb, names):
    r = []
    while tb is not None:
        if tb.tb_frame.f_code.co_filename in names:
            r.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno))
        tb = tb.tb_next
    return r


def check(build, where, st, source, entry=None):
    """build(exc) -> a template instance; where: {file name: lines} of the innermost template frame."""
    exc = Boom('x')
    st.traces += 1
    st.steps += 1
    names = set(where)
    try:
        inst = build(exc)
    except Exception as e:
        raise Violation('a valid template does not compile: %s: %s' % (type(e).__name__, str(e)[:300]), source=source)
    try:
        got = inst.render() if entry is None else entry(inst)
    except Exception as e:
        if e is not exc:
            raise Violation('the exception does not propagate unchanged', source=source, expected='Boom',
                            observed='%s: %s' % (type(e).__name__, str(e)[:300]))
        frames = template_frames(e.__traceback__, names)
        if not frames:
            raise Violation('no frame of the traceback names the template file', source=source, expected=repr(where),
                            observed=repr([f for f in walk(e.__traceback__)]))
        f, n = frames[-1]
        if n not in where[f]:
            raise Violation('the traceback shows the wrong line', source=source,
                            expected=repr({k: sorted(v) for k, v in where.items()}), observed='%s line %d' % (f, n))
        outcome(st, (f, n, len(frames)))
        return
    raise Violation('the exception was swallowed', source=source, expected='Boom', observed=got)


def walk(tb):
    while tb is not None:
        yield tb.tb_frame.f_code.co_filename, tb.tb_lineno
        tb = tb.tb_next


def env(exc):
    def boom(*a):
        raise exc
    return dict(boom=boom, bad=Bad(exc), late=lambda: late(exc), x=1, z=0, l=[1, 2], ident=lambda v: v)


# --- XML ---------------------------------------------------------------------------------

SHIFT = [
    '', '\n', 't\n\n t', '<i>\n</i>\n', '<i\n a="1"\n b="$x"\n/>', '${x}\n', '${(x +\n x)}', '${(x,\n\n x)[0]\n}\n', '${\n x}',
    '<!-- c\n\n c -->', '<!--! c\n c -->\n', '<?py v = 1\nw = 2\n\n?>', '<?py\n\nv = [1,\n 2]\ndef g(a):\n    return a\n?>\n',
    '<py:def function="f#()">\n t\n\n</py:def>', '<py:def function="f#(a=1,\n b=2)">${x}\n<py:def function="h#()">\n</py:def>${h#()}</py:def>${f#()}',
    '<py:block name="k#">\n${x}\n\n</py:block>', '<py:if test="x">\n y\n</py:if><py:else>\n</py:else>', '<i py:if="not\n x">\n</i>',
    '<py:for each="i in (1,\n2)">\n$i\n</py:for>', '<py:with vars="q=1;\n w=2">\n$q\n</py:with>', '<py:with vars="q=[1,\n 2]">$q</py:with>',
    '<py:switch test="x">\n<py:case value="2">\nn</py:case>\n<py:else>\n${x}</py:else>\n</py:switch>',
    '<py:def function="f#(c)">\n${c(1)}</py:def>\n<py:call args="n" function="f#(%caller)">\n$n\n\n</py:call>', '<![CDATA[\n <\n]]>',
    '<script>\nvar a;\n$x\n</script>', '&nbsp;\n&amp;\n&eacute;', '<b c="1\n2\n"/>', '$$\n$x\n$\n', '<i py:attrs="{\'a\':\n x}" py:content="x"/>\n',
    '\n' * 130, '\n' * 300, ''.join('w%d ${x}\n' % i for i in range(140)), '<u>' + '\n' * 127 + '</u>\n', '<u a="%s"/>' % ('\n' * 260),
    '\u2028\x85\u2029 \n', '<i py:strip="x">\n</i>', '${"a;\\n" + """b\nc"""}\n', '<py:if test="z">\n${boom()}\n</py:if>',
]
SITES = [
    '\x01${boom()}', 't \x01${boom()} t', '${x} \x01${boom()}${x}', '\x01$bad', '\x01${bad}', '\x01$bad.prop', '\x01${bad.prop}', '\x01${x + bad}',
    '\x02${(x +\n boom())}\x03', '\x02${\n\n boom()\n}\x03', '\x02${(x,\n\n boom())[0]\n}\x03', '\x01${[boom() for q in (1,)]}',
    '\x02${[q for q in (1,) if\n boom()]}\x03', '\x01${ident(boom())}', '\x01${"".join(str(boom()) for q in (1,))}',
    '\x01${(lambda: boom())()}',
    '\x01<i a="${boom()}"/>', '\x01<i a="$bad"/>', '\x01<i a="1" b="x${x}y${boom()}"/>', '\x01<i\n a="1"\n \x01b="${boom()}"\n/>',
    '\x01<i a="x\n\n\x01${boom()}"/>', '\x01<i py:if="x" a="${boom()}">t</i>', '\x01<i py:strip="z" a="${boom()}"/>',
    '\x01<i py:if="boom()">t</i>', '\x01<i a="1"\n \x01py:if="boom()">t</i>', '\x01<i py:for="q in boom()">t</i>', '\x01<i py:for="q in late()">t\n</i>',
    '\x01<i py:for="q in bad">t</i>', '\x01<i py:content="boom()"/>', '\x01<i py:content="bad">\n</i>', '\x01<i py:replace="boom()">\n</i>', '\x01<i py:replace="bad"/>',
    '\x01<i py:strip="boom()">\nt</i>', '\x01<i py:attrs="boom()"/>', '\x01<i py:attrs="{\'a\': bad}"/>', '\x01<i py:attrs="bad"/>', '\x01<i py:with="q=boom()">\n</i>',
    '\x01<i py:with="q=x;w=boom()">\n$q</i>', '\x01<py:if test="boom()">\nt</py:if>', '\x01<py:if test="bad">\nt</py:if>', '<py:if test="z">\n</py:if><py:else>\n\x01${boom()}\n</py:else>',
    '\x01<py:for each="q in boom()">\n</py:for>', '\x01<py:for each="q in late()">\n${x}\n\n</py:for>', '\x01<py:with vars="q=boom()">\n$x</py:with>',
    '\x02<py:with vars="q=x;\n w=boom()">\x03\n$x</py:with>', '<py:with vars="q=x">\n\n\x01${boom()}</py:with>', '<py:with vars="q=x">\n\n</py:with>\x01${boom()}',
    '\x01<py:with vars="q=lambda: boom()">\n\n${q()}</py:with>', '\x01<py:switch test="boom()">\n<py:case value="1">\n</py:case></py:switch>',
    '<py:switch test="x">\n<py:case value="0">a</py:case>\n\x01<py:case value="boom()">\nt</py:case></py:switch>',
    '<py:switch test="x">\n<py:case value="x">a\n\x01${boom()}</py:case>\n</py:switch>', '<py:switch test="x">\n<py:case value="0">a</py:case>\n<py:else>\n\x01${boom()}\n</py:else></py:switch>',
    '<py:switch test="x">\n<py:case value="x">\n</py:case>\n</py:switch>\n\x01${boom()}',
    '<py:def function="e()">\n\n\x01${boom()}\n</py:def>\n${e()}', '<py:def function="e()">\n\n<i>\n\x01<i a="${boom()}"/></i></py:def>\n${e()}', '<py:def function="e()">\n\n</py:def>\n${e()}\n\x01${boom()}',
    '<py:def function="e()">\n<py:def function="d()">\n\n\x01${boom()}\n</py:def>\n${d()}</py:def>\n${e()}', '<py:def function="e()">\n<py:def function="d()">\n\n</py:def>\n${d()}\x01${boom()}</py:def>\n${e()}',
    '<py:def function="e(a)">\n\n</py:def>\n\x01${e(boom())}', '<py:def function="e(c)">\n${c()}\n</py:def>\n\n<py:call function="e(%caller)">\n\n\x01${boom()}</py:call>',
    '<py:def function="e(c)">\n${c(x)}\n</py:def>\n\n<py:call args="a" function="e(%caller)">\n\n\x01<i a="$a ${boom()}"/></py:call>',
    '<py:def function="e(c, d)">\n${c()}\n</py:def>\n\n\x01<py:call function="e(%caller, boom())">\n\n</py:call>',
    '<py:def function="e(c)">\n\n\x01${boom()}\n</py:def>\n\n<py:call function="e(%caller)">\n\n</py:call>', '<py:def function="e(c)">\n${c()}\n</py:def>\n\n<py:call function="e(%caller)">\n\n</py:call>\x01${boom()}',
    '<py:block name="e">\n\x01${boom()}\n</py:block>', '<py:block name="e">\n\n</py:block>\n\x01${boom()}', '\x01<?py boom() ?>', '\x01<?py\n\nv = boom()\n?>', '\x01<?py v = 1\nboom()?>',
    '\x01<?py\ndef own(a):\n    return boom()\n?>\n\n<?py y = 1 ?>\n${own(1)}', '\x01<?py\nown = lambda: boom()\n?>\n\n<b a="${own()}"/>', '<?py v = 1\n?>\n\x01${boom()}',
    '<script>\nvar a = \x01${boom()};\n</script>', '<![CDATA[\n\x01${boom()}\n]]>', '<!-- c\n -->\x01${boom()}', 'a\n&nbsp;\n\x01${boom()}', '<b>\n<i>\n</i>\n\x01${boom()}</b>',
]
WRAP = [
    ('', ''), ('<py:if test="x">', '</py:if>'), ('<py:if test="z">a\n</py:if><py:else>', '</py:else>'), ('<py:for each="j in (1, 2)">', '</py:for>'),
    ('<py:with vars="o=x;\n u=2">', '</py:with>'), ('<py:switch test="x">\n<py:case value="1">', '</py:case></py:switch>'),
    ('<b py:if="x" py:for="j in (1,)"\n py:strip="x" a="$x">', '</b>'), ('<py:def function="w#()">', '</py:def>\n\n${w#()}'),
    ('${w#()}\n<py:def function="w#()">', '</py:def>\n\n'), ('<py:def function="w#()">\n<py:def function="y#()">', '</py:def>\n${y#()}</py:def>\n${w#()}'),
    ('<py:block name="w#">', '</py:block>'), ('<py:def function="w#(c)">\n${c()}</py:def>\n<py:call function="w#(%caller)">', '</py:call>'),
    ('<b py:def="w#()">', '</b>\n${w#()}'), ('<b\n>', '</b>'),
]
EARLY = 8       # uses a function before its definition, which inner functions do not allow
HEAD = ['', '<?xml version="1.0"?>\n', '<!DOCTYPE html>\n', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n',
        '\n\n<!-- c\n -->\n', '<?py v = 1 ?>\n', '<!--! c --><!DOCTYPE\nhtml>']
TAIL = ['', '<py:def function="t()">\n${x}\n\n</py:def>', '\n' * 200 + '${x}']
FEW = [0, 3, 8, 17, 20, 24, 36, 39, 54, 57, 60, 64, 66]
NAME = 'the/page.html'


def nodefs(site):
    return 'py:def' not in site and 'py:block' not in site


def xml(head, s1, wrap, s2, site, tail):
    n = [0]

    def numbered(s):
        n[0] += 1
        return s.replace('#', str(n[0]))
    pre, post = numbered(wrap[0] + '\x00' + wrap[1]).split('\x00')
    return head + '<r>' + numbered(s1) + pre + numbered(s2) + site + post + tail + '</r>'


class XmlOne(Space):
    name = 'markup: one shift'
    bound = '%d line-shifting elements before or inside x %d wrappers x %d failing sites' % (len(SHIFT), len(WRAP), len(SITES))

    def cases(self, tier):
        for w in range(len(WRAP)):
            for s in range(len(SITES)):
                for e in range(len(SHIFT)):
                    yield '', e, (w,), 0, s, ''
                    if e and w:
                        yield '', 0, (w,), e, s, ''

    def run(self, case, st):
        head, e1, w, e2, s, tail = case
        wrap = ['', '']
        for k, i in enumerate(w):
            wrap[0] = wrap[0] + WRAP[i][0].replace('#', '%d#' % k)
            wrap[1] = WRAP[i][1].replace('#', '%d#' % k) + wrap[1]
        source, lines = clean(xml(head, SHIFT[e1], wrap, SHIFT[e2], SITES[s], tail))
        check(lambda exc: XMLTemplate(source, filename=NAME)(env(exc)), {NAME: lines}, st, source)


class XmlTwo(XmlOne):
    name = 'markup: two shifts'
    bound = ('all pairs of line-shifting elements, in a row and one before and one inside a wrapper, x %d failing sites; heads and tails; '
             'pairs of wrappers; thorough: the full product' % len(FEW))

    def cases(self, tier):
        sites = FEW if tier == 'quick' else range(len(SITES))
        for a in range(1, len(SHIFT)):
            for b in range(1, len(SHIFT)):
                for k, s in enumerate(sites):
                    if tier == 'quick' and (a + b + k) % 4:
                        continue
                    yield '', a, (0,), b, s, ''
                if tier != 'quick':
                    for s in FEW:
                        for w in range(1, len(WRAP)):
                            yield '', a, (w,), b, s, ''
        for h in HEAD:
            for t in TAIL:
                for s in range(len(SITES)):
                    yield h, 2, (0,), 0, s, t
        for w in itertools.product(range(1, len(WRAP)), repeat=2):
            if EARLY in w[1:]:
                continue
            for s in sites:
                yield '', 0, w, 1, s, ''
            for e in range(len(SHIFT)):
                yield '', e, w, 0, 0, ''
        if tier != 'quick':
            for w in itertools.product(range(1, len(WRAP)), repeat=3):
                if EARLY in w[1:]:
                    continue
                for s in FEW:
                    yield '', 0, w, 1, s, ''


# --- several templates --------------------------------------------------------------------

class XmlFiles(Space):
    name = 'markup: several files'
    bound = ('the failing site in an included, imported or parent template, in an overriding block, in a parent block called by the child, in a function '
             'of another file, each with %d shifts before it in that file and the other; missing files' % len(SHIFT))

    def cases(self, tier):
        for e in range(len(SHIFT)):
            for s in range(len(SITES)) if tier != 'quick' else FEW:
                for kind in ('included', 'including', 'imported', 'parent', 'block', 'parentblock', 'grandparent', 'missing', 'parentfunc', 'callfrom'):
                    yield kind, e, s
            for s in range(len(SITES)) if tier == 'quick' and e in (1, 14, 30) else ():
                for kind in ('included', 'imported', 'parent', 'block'):
                    yield kind, e, s

    def run(self, case, st):
        kind, e, s = case
        sh, site = SHIFT[e].replace('#', '1'), SITES[s]
        if kind == 'included':
            files = {'p': '<p>' + sh + site + '</p>', 'm': '<r>\n\n<py:include href="p"/></r>'}
        elif kind == 'including':
            files = {'p': '<p>' + sh + '</p>', 'm': '<r>\n<py:include href="p"/>\n' + site + '</r>'}
        elif kind == 'imported':
            files = {'p': '<p>' + '<py:def function="exported()">' + sh + site + '</py:def></p>', 'm': '<r>\n\n<py:import href="p" alias="q"/>\n${q.exported()}</r>'}
        elif kind == 'parent':
            files = {'p': '<p>' + sh + '<py:block name="kk"/>\n' + site + '</p>', 'm': '<py:extends href="p">\n\n<py:block name="kk">\n\n\n</py:block></py:extends>'}
        elif kind == 'block':
            files = {'p': '<p>' + sh + '<py:block name="kk"/>\n\n</p>', 'm': '<py:extends href="p">\n\n<py:block name="kk">\n' + site + '\n\n</py:block></py:extends>'}
        elif kind == 'parentblock':
            files = {'p': '<p><py:block name="kk">' + sh + site + '</py:block>\n\n</p>', 'm': '<py:extends href="p">\n\n<py:block name="kk">\n${parent_block()}\n\n</py:block></py:extends>'}
        elif kind == 'grandparent':
            files = {'g': '<p><py:block name="kk">' + sh + site + '</py:block>\n\n</p>', 'p': '<py:extends href="g">\n<py:block name="kk">\n${parent_block()}</py:block></py:extends>',
                     'm': '<py:extends href="p">\n\n<py:block name="kk">\n\n${parent_block()}\n\n</py:block></py:extends>'}
        elif kind == 'parentfunc':
            files = {'p': '<p><py:def function="exported()">' + sh + site + '</py:def></p>', 'm': '<py:extends href="p">\n\n${exported()}</py:extends>',
                     }
            files['m'] = '<py:extends href="p">\n<py:block name="zz"/></py:extends>'
            files['p'] += ''
            files['p'] = files['p'][:-4] + '\n\n${exported()}</p>'
        elif kind == 'callfrom':
            files = {'p': '<p><py:def function="exported(c)">' + sh + '${c()}</py:def></p>', 'm': '<r>\n\n<py:import href="p" alias="q"/>\n<py:call function="q.exported(%caller)">' + site + '</py:call></r>'}
        else:
            if s != FEW[0]:
                st.skipped += 1
                return
            files = {'p': '<p/>', 'm': '<r>' + sh + '\x01<py:include href="gone"/></r>'}
        where, out = {}, {}
        for n in files:
            src, lines = clean(files[n])
            out[n] = src
            where['dir/%s.html' % n] = lines
        source = '\n----\n'.join('%s: %s' % kv for kv in sorted(out.items()))

        def build(exc):
            class L(MockLoader):
                def _load(self, name, *a, **kw):
                    if name == 'gone':
                        raise exc
                    return MockLoader._load(self, name, *a, **kw)

                def import_(self, name, *a, **kw):
                    if name == 'gone':
                        raise exc
                    return MockLoader.import_(self, name, *a, **kw)
            loader = L({n: XMLTemplate(s, filename='dir/%s.html' % n) for n, s in out.items()})
            return loader.import_('m')(env(exc))
        check(build, where, st, source)


# --- text ---------------------------------------------------------------------------------

TSHIFT = [
    '', '\n', 't\n\n t\n', '${x}\n', '${(x +\n x)}\n', '${\n x}\n', '$x\n$$\n', 'a\\\nb\n', '\\\n\\\n', '%if x\ny\n\n%end\n', '{%if x%}\ny\n{%end%}\n', '{%if x -%}\n\n y\n\n{%-end %}\n',
    '%if z\na\n%else\n$x\n\n%end\n', '%for i in (1, 2)\n$i\n%end\n', '{%for i in (1, 2)%}\n{%end%}\n', '%switch x\n%case 1\na\n%case 2\nb\n%else\nc\n%end\n',
    '{%switch x%}\n\n{%case 1%}\n{%end%}\n', '%def f#()\na\n\n%end\n', '%def f#()\n$x\n%end\n${f#()}\n', '{%def f#()%}\n\n{%end%}\n', '%block k#\na\n$x\n%end\n', '%py v = 1\n', '%py\nv = 1\nw = [1,\n2]\n%end\n', '{%py v = 1%}\n',
    '%def f#(c)\n${c(1)}\n%end\n%call(n) f#(%caller)\n$n\n\n%end\n', '\n' * 130, '\n' * 300, ''.join('w%d ${x}\n' % i for i in range(140)), '\u2028\x85\u2029\n', '   %if x\ny\n   %end\n', '{%if (x or\n z)%}\n{%end%}\n',
    '%def f#()\n%def h#()\n\n%end\n${h#()}\n%end\n${f#()}\n', 'x {%-if x-%} y {%-end-%} z\n', '\t \n \n',
]
TSITES = [
    '\x01${boom()}', 't \x01${boom()} t', '${x} \x01${boom()}$x', '\x01$bad.prop', '\x01${x + bad}', '\x02${(x +\n boom())}\x03', '\x02${\n\n boom()\n}\x03', '\x01${[boom() for q in (1,)]}', '\x01${(lambda: boom())()}',
    '\x01%if boom()\nt\n%end\n', '\x01{%if boom()%}\nt\n{%end%}\n', '%if z\na\n%else\n\x01${boom()}\n%end\n', '{%if z%}\n{%else%}\n\n\x01${boom()}{%end%}\n', '%if z\n%else\n%if x\n\n\x01${boom()}\n%end\n%end\n',
    '\x01%for q in boom()\nt\n%end\n', '\x01%for q in late()\n$q\n\n%end\n', '%for q in l\n\n\x01${boom()}\n%end\n', '\x01%switch boom()\n%case 1\na\n%end\n', '%switch x\n%case 0\na\n\x01%case boom()\nb\n%end\n',
    '%switch x\n%case 0\na\n%case 1\nb\n\x01${boom()}\n%end\n', '%switch x\n%case 0\na\n%else\n\n\x01${boom()}\n%end\n', '{%switch x%}\n\n{%case 1%}\n\x01${boom()}{%end%}\n', '%def e()\n\n\x01${boom()}\n%end\n${e()}\n',
    '%def e()\n%def d()\n\n\x01${boom()}\n%end\n\n${d()}\n%end\n${e()}\n', '%def e()\n\n%end\n${e()}\n\x01${boom()}\n', '%def e(c)\n${c()}\n%end\n\n%call() e(%caller)\n\n\x01${boom()}\n%end\n', '%def e(c, d)\n${c()}\n%end\n\n\x01%call() e(%caller, boom())\n\n%end\n',
    '%block e\n\n\x01${boom()}\n%end\n', '%block e\n\n%end\n\x01${boom()}\n', '\x01%py boom()\n', '\x01{%py boom()%}\n', '\x02%py\nv = 1\nboom()\n%end\x03\n', '\x02{%py%}\n\nboom()\n{%end%}\x03\n', 'a\\\nb \x01${boom()}', '%py v = 1\n\x01${boom()}',
    '{%if x -%}\n\n \x01${boom()}\n{%-end %}', '{%if x%}{%-if x-%}\n\n\x01${boom()}{%end%}{%end%}',
]
TWRAP = [('', ''), ('%if x\n', '\n%end\n'), ('{%if x%}\n', '{%end%}'), ('%if z\na\n%else\n', '\n%end\n'), ('%for j in (1, 2)\n', '\n%end\n'), ('%switch x\n%case 1\n', '\n%end\n'), ('%def w#()\n', '\n%end\n${w#()}'), ('${w#()}\n%def w#()\n', '\n%end\n'),
         ('%def w#()\n%def y#()\n', '\n%end\n${y#()}\n%end\n${w#()}'), ('%block w#\n', '\n%end\n'), ('%def w#(c)\n${c()}\n%end\n%call() w#(%caller)\n', '\n%end\n'), ('{%def w#()%}\n', '{%end%}\n${w#()}')]
TEARLY = 7
TNAME = 'the/page.txt'


def text(s1, wrap, s2, site, tail=''):
    n = [0]

    def numbered(s):
        n[0] += 1
        return s.replace('#', str(n[0]))
    pre, post = numbered(wrap[0] + '\x00' + wrap[1]).split('\x00')
    return numbered(s1) + pre + numbered(s2) + site + post + tail


class TextOne(Space):
    name = 'text: shifts'
    bound = ('%d line-shifting elements before or inside, and pairs of them, x %d wrappers x %d failing sites, LF and CR LF line ends'
             % (len(TSHIFT), len(TWRAP), len(TSITES)))

    def cases(self, tier):
        for w in range(len(TWRAP)):
            for s in range(len(TSITES)):
                for e in range(len(TSHIFT)):
                    yield e, (w,), 0, s, '\n'
                    if e and w:
                        yield 0, (w,), e, s, '\n'
        for a in range(1, len(TSHIFT)):
            for b in range(1, len(TSHIFT)):
                for s in range(0, len(TSITES), 5 if tier == 'quick' else 1):
                    yield a, (0,), b, s, '\n'
        for w in itertools.product(range(1, len(TWRAP)), repeat=2):
            if TEARLY in w[1:]:
                continue
            for s in range(len(TSITES)):
                yield 1, w, 0, s, '\n'
        for e in range(len(TSHIFT)):
            for s in range(len(TSITES)):
                yield e, (0,), 0, s, '\r\n'

    def run(self, case, st):
        e1, w, e2, s, eol = case
        wrap = ['', '']
        for k, i in enumerate(w):
            wrap[0] = wrap[0] + TWRAP[i][0].replace('#', '%d#' % k)
            wrap[1] = TWRAP[i][1].replace('#', '%d#' % k) + wrap[1]
        source, lines = clean(text(TSHIFT[e1], wrap, TSHIFT[e2], TSITES[s]))
        source = source.replace('\n', eol)
        check(lambda exc: TextTemplate(source, filename=TNAME)(env(exc)), {TNAME: lines}, st, source)


class TextFiles(Space):
    name = 'text: several files'
    bound = 'the failing site in an included, imported or parent text template or an overriding block x %d shifts x %d sites' % (len(TSHIFT), len(TSITES))

    def cases(self, tier):
        for e in range(len(TSHIFT)):
            for s in range(0, len(TSITES), 1 if tier != 'quick' else 3):
                for kind in ('included', 'including', 'imported', 'parent', 'block', 'parentblock'):
                    yield kind, e, s

    def run(self, case, st):
        kind, e, s = case
        sh, site = TSHIFT[e].replace('#', '1'), TSITES[s]
        if kind == 'included':
            files = {'p': sh + site, 'm': 'a\n\n%include p\n'}
        elif kind == 'including':
            files = {'p': sh, 'm': 'a\n\n%include p\n' + site}
        elif kind == 'imported':
            files = {'p': 'a\n%def exported()\n' + sh + site + '\n%end\n', 'm': 'a\n\n%import p as q\n${q.exported()}\n'}
        elif kind == 'parent':
            files = {'p': sh + '%block kk\n%end\n' + site, 'm': '%extends p\n%block kk\na\n%end\n'}
        elif kind == 'block':
            files = {'p': sh + '%block kk\n%end\n', 'm': '%extends p\n\n%block kk\na\n' + site + '\n%end\n'}
        else:
            files = {'p': '%block kk\n' + sh + site + '\n%end\n', 'm': '%extends p\n\n%block kk\na\n${parent_block()}\n%end\n'}
        where, out = {}, {}
        for n in files:
            src, lines = clean(files[n])
            out[n] = src
            where['dir/%s.txt' % n] = lines
        source = '\n----\n'.join('%s: %s' % kv for kv in sorted(out.items()))

        def build(exc):
            return MockLoader({n: TextTemplate(s, filename='dir/%s.txt' % n) for n, s in out.items()}).import_('m')(env(exc))
        check(build, where, st, source)


class Long(Space):
    name = 'long lines and gaps'
    bound = ('a line with an expression of 1 to 260 operands (so that the byte code of one line takes every length up to more than 1000 bytes), a gap of '
             'some lines or all gaps of 1 to 400 lines and gaps around 5 powers of two up to 32,768 forwards and backwards, then the failing site; in one function, after it, in markup and text')

    def cases(self, tier):
        for k in range(0, 260):
            for j in range(5):
                yield 'len', k, j
        for gap in range(1, 400):
            yield 'gap', gap, 0
        for n in (512, 1024, 4096, 16384, 32768):
            for gap in (n - 2, n, n + 1):
                yield 'gap', gap, 0

    def run(self, case, st):
        kind, k, j = case
        if kind == 'len':
            long = '${x' + '+x' * k + '+-x' * j + '}'
            bodies = [long + '\n\x01${boom()}', long + '\n\n\n<b>\x01${boom()}</b>', '\n' + '\x01${boom(x' + '+x' * k + '+-x' * j + ')}\n' + long]
        else:
            g = '\n' * k if k < 400 else '<!--!%s-->' % ('\n' * k)
            bodies = [g + '\x01${boom()}', g + '\x01<i py:if="boom()">a</i>', g + '\x01<i py:attrs="boom()"/>', '<py:def function="f(c)">${c()}' + g + '</py:def><py:call function="f(%caller)">\n\x01${boom()}</py:call>',
                      '<py:def function="f()">\x01${boom()}' + g + '</py:def>' + g + '${f()}', '${x}' + g + '<b a="${x}' + (g if k < 400 else '') + '"/>' + '\x01${boom()}',
                      '<py:block name="k">\n' + g + '\x01${boom()}</py:block>',
                      '<py:def function="f()">' + g + '<py:def function="h()">\x01${boom()}' + g + '</py:def>' + g + '${h()}</py:def>${f()}']
        for b in bodies:
            source, lines = clean('<r>%s</r>' % b)
            check(lambda exc: XMLTemplate(source, filename=NAME)(env(exc)), {NAME: lines}, st, source)
            if '<py:' not in b and ' py:' not in b:
                text, lines = clean(b)
                check(lambda exc: TextTemplate(text, filename=TNAME)(env(exc)), {TNAME: lines}, st, text)


def spaces():
    return [Long(), XmlOne(), XmlTwo(), XmlFiles(), TextOne(), TextFiles()]


ASSUMPTIONS = ['an error in code of a module-level block (<?py %% ... ?>) is reported at the line that calls it',
               'several lines of a Python block count as one construct (its first line; in text templates any of its lines)']


def known():
    def probe():
        exc = Boom('x')
        source = '<r>a&#10;${boom()}</r>'
        try:
            XMLTemplate(source, filename=NAME)(env(exc)).render()
        except Boom as e:
            frames = template_frames(e.__traceback__, (NAME,))
            return not frames or frames[-1][1] != 1
        return True
    return [dict(what='a line feed written as a character reference (<r>a&#10;${boom()}</r>) counts as a line in tracebacks', probe=probe)]
