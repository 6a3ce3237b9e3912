"""C16: output mode and document type follow the declaration and options.

Full product of document types, mode argument, fragment flag, role of the template, element and content,
and of the ways to load a template; oracle: tables and the reference serializer below.
"""
import itertools
import os
import shutil
import sys
import tempfile

from mc import core, vocab
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import XMLTemplate, MockLoader, FileLoader, PackageLoader  # noqa: E402

XHTML = [('-//W3C//DTD XHTML 1.0 Transitional//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd'),
         ('-//W3C//DTD XHTML 1.0 Strict//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd'),
         ('-//W3C//DTD XHTML+RDFa 1.0//EN', 'http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd'),
         ('-//W3C//DTD XHTML 1.1//EN', 'http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd'),
         ('-//W3C//DTD XHTML 1.0 Frameset//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd'),
         ('-//W3C//DTD XHTML Basic 1.1//EN', 'http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd'),
         ('-//WAPFORUM//DTD XHTML Mobile 1.2//EN', 'http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd')]
HTML4 = [('-//W3C//DTD HTML 4.01 Transitional//EN', 'http://www.w3.org/TR/html4/loose.dtd'),
         ('-//W3C//DTD HTML 4.01//EN', 'http://www.w3.org/TR/html4/strict.dtd'),
         ('-//W3C//DTD HTML 4.01 Frameset//EN', 'http://www.w3.org/TR/html4/frameset.dtd')]
UNKNOWN = ['<!DOCTYPE html SYSTEM "about:legacy-compat">', '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">',
           '<!DOCTYPE note SYSTEM "note.dtd">', '<!DOCTYPE htmlx>', '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 3.2 Final//EN" "x">', '<!DOCTYPE r>']


def doctypes():
    """(declaration, mode it implies)"""
    yield '', 'xml'
    for h in ('html', 'HTML', 'Html'):
        yield '<!DOCTYPE %s>' % h, 'html5'
    yield '<!DOCTYPE   html>', 'html5'
    yield '<!DOCTYPE\nhtml>', 'html5'
    for known, mode in ((XHTML, 'xml'), (HTML4, 'html')):
        for fpi, uri in known:
            yield '<!DOCTYPE html PUBLIC "%s" "%s">' % (fpi, uri), mode
            yield '<!DOCTYPE HTML PUBLIC "%s" "%s">' % (fpi, uri), mode
            yield '<!DOCTYPE html PUBLIC "%s"\n    "%s">' % (fpi, uri), mode
            yield '<!DOCTYPE html\n  PUBLIC  "%s"\t"%s">' % (fpi, uri), mode
            yield '<!DOCTYPE html PUBLIC "%s" "%s">' % (fpi.lower(), uri.upper()), mode
    for u in UNKNOWN:
        yield u, 'xml'


DOCTYPES = list(doctypes())
MODES = [None, 'xml', 'html', 'html5']
VOID = frozenset('area base br col hr img input link meta param'.split())
NAMES = vocab.ELEMENTS


def effective(doctype_mode, arg):
    return arg or doctype_mode


def first_line(dt, mode, fragment=False):
    if fragment:
        return ''
    if dt:
        return dt + '\n'
    return '<!DOCTYPE html>\n' if mode == 'html5' else ''


def element(name, content, mode):
    """Serialization of an element whose content renders as `content` (None: no content at all)."""
    html = mode != 'xml'
    if content is None:
        if html:
            return '<%s>' % name if name in VOID else '<%s></%s>' % (name, name)
        return '<%s></%s>' % (name, name) if name == 'script' else '<%s/>' % name
    if name in ('script', 'style') and not html:
        content = '/*<![CDATA[*/%s/*]]>*/' % content
    return '<%s>%s%s' % (name, content, '' if html and name in VOID else '</%s>' % name)


def compare(what, got, want, source, st, **kw):
    st.traces += 1
    st.steps += 1
    if got != want:
        raise Violation(what, source=source, context=repr(kw), expected=want, observed=got)
    outcome(st, got)


BODY = '<html><br/><p/><script/><hr/>x<input checked="checked"/><i>y</i></html>'


def body(mode):
    if mode == 'xml':
        return '<html><br/><p/><script></script><hr/>x<input checked="checked"/><i>y</i></html>'
    return '<html><br><p></p><script></script><hr>x<input checked><i>y</i></html>'


PRE = ['', '\n', '<!-- c -->\n', '<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0"?><!-- <!DOCTYPE html> -->', '\n\n  ']


class Types(Space):
    name = 'document types and modes'
    bound = '%d document type declarations x %d mode arguments x fragment or not x %d prologs before and 4 after it' % (
        len(DOCTYPES), len(MODES), len(PRE))

    def cases(self, tier):
        for d in range(len(DOCTYPES)):
            for m in MODES:
                for f in (False, True):
                    for pre in PRE:
                        for post in ('', '\n', '\n<!-- d -->', ' \n<?py v = 1 ?>'):
                            if pre and post and tier == 'quick' and d % 3:
                                continue
                            if pre.startswith('\n') and not DOCTYPES[d][0] and post.strip():
                                continue
                            yield d, m, f, pre, post

    def run(self, case, st):
        d, m, f, pre, post = case
        dt, implied = DOCTYPES[d]
        mode = effective(implied, m)
        source = pre + dt + post + BODY
        kw = {}
        if m:
            kw['mode'] = m
        if f:
            kw['is_fragment'] = True
        try:
            got = XMLTemplate(source, **kw)().render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:200])
        compare('mode or document type', got, first_line(dt, mode, f) + body(mode), source, st, mode=m, is_fragment=f)


ROOTS = ['<@>#</@>', '<@ py:block="@">#</@>', '<py:block name="@"><@>#</@></py:block>', '<@ py:with="q = 1">#</@>', '<@ py:if="1">#</@>', '<py:if test="1"><@>#</@></py:if>',
         '<@ py:for="q in (1,)">#</@>', '<@ py:strip="1"><b>#</b></@>', '<@ py:strip="0">#</@>', '<@ py:content="1">#</@>', '<@ py:attrs="dict(q=1)">#</@>', '<py:nop><@>#</@></py:nop>',
         '<py:with vars="q = 1"><@ py:block="q">#</@></py:with>', '<@><py:def function="@()">d</py:def>${@()}#</@>', '<@ xmlns="http://www.w3.org/1999/xhtml" lang="$x">#</@>',
         '<@><@>#</@></@>', '<py:nop><py:def function="f(c)">${c()}</py:def><py:call function="f(%caller)"><@>#</@></py:call></py:nop>', '<@><py:switch test="1"><py:case value="1">#</py:case></py:switch></@>']
INNER = ['', 't', '<py:block name="k@">b</py:block>', '<b py:block="b">b</b>', '<py:def function="__@()">d</py:def>', '<py:include href="part"/>', '<py:import href="part" alias="@"/>', '<?py %v = 1 ?>$v',
         '<?py v = 1 ?>$v', '<!-- <!DOCTYPE html> -->', '<!--! -->', '<![CDATA[<!DOCTYPE html>]]>', '<script>"&lt;!DOCTYPE html&gt;"</script>', '&lt;!DOCTYPE html&gt;', '<br/>$x<hr/>']
RNAMES = ['html', 'head', 'body', 'r', 'doctype', 'svg', 'div']


class Structures(Space):
    name = 'document type and structure'
    bound = '%d forms of the root element x %d contents x %d names x 4 document types x 4 mode arguments: a page is its document type and what the fragment renders' % (
        len(ROOTS), len(INNER), len(RNAMES))

    def cases(self, tier):
        for r in range(len(ROOTS)):
            for i in range(len(INNER)):
                for n in range(len(RNAMES)) if tier != 'quick' or r < 4 or i < 4 else (0, 3):
                    yield r, i, n

    def run(self, case, st):
        r, i, n = case
        text = ROOTS[r].replace('#', INNER[i]).replace('@', RNAMES[n])
        for d in 0, 1, 6, len(DOCTYPES) - 1:
            dt, implied = DOCTYPES[d]
            for m in MODES:
                mode = effective(implied, m)
                outs = []
                for source, kw in ((dt + text, dict(mode=m) if m else {}), (text, dict(mode=mode, is_fragment=True))):
                    try:
                        page = XMLTemplate(source, **kw)
                        MockLoader({'page': page, 'part': XMLTemplate('<i>part</i>', is_fragment=True)})
                        outs.append(page(dict(x=1)).render())
                    except Exception as e:
                        outs.append('%s: %s' % (type(e).__name__, str(e)[:200]))
                        break
                if len(outs) < 2:
                    raise Violation('a valid page fails', source=dt + text, context=repr(m), observed=outs[0])
                compare('mode or document type', outs[0], first_line(dt, mode) + outs[1], dt + text, st, mode=m)


CONTENTS = [
    ('', None), ('t', 't'), (' ', ' '), ('<i/>', 'I'), ('${x}', '1'), ('${None}', ''), ('<py:if test="not x">n</py:if>', ''),
    ('<py:if test="x">y</py:if>', 'y'), ('<!--! gone -->', ''), ('<!-- c -->', '<!--  c  -->'), ('<![CDATA[d]]>', '<![CDATA[d]]>'), ('&amp;', '&amp;'),
]


class Elements(Space):
    name = 'elements'
    bound = ('%d element names x %d contents x three modes, alone and followed by a sibling, with and without attributes, in a loop, with py:strip and '
             'py:content' % (len(NAMES), len(CONTENTS)))

    def cases(self, tier):
        for n in NAMES:
            for m in ('xml', 'html', 'html5'):
                yield n, m

    def run(self, case, st):
        n, mode = case
        ns = ' xmlns:ns="u"' if ':' in n else ''
        dt = '<!DOCTYPE html>\n' if mode == 'html5' else ''
        for c, out in CONTENTS:
            if n in ('script', 'style'):
                if c.startswith(('<i', '<py', '<!-')):
                    continue
                if c.startswith('<![CDATA'):
                    out = 'd'
                elif c == '&amp;':
                    out = '&'
            if out == 'I':
                out = element('i', None, mode)
            e = element(n, out, mode)
            a = e.replace('<' + n, '<%s q="1"' % n, 1)
            forms = [('<r%s><%s>%s</%s></r>' % (ns, n, c, n), e)]
            if not c:
                forms.append(('<r%s><%s/></r>' % (ns, n), e))
                forms.append(('<r%s><%s py:content="x"/></r>' % (ns, n),
                              '<%s>1</%s>' % (n, n) if n not in VOID or mode == 'xml' else None))
                forms.append(('<r%s><%s py:content="None"/></r>' % (ns, n),
                              '<%s></%s>' % (n, n) if n not in VOID or mode == 'xml' else None))
            forms += [
                ('<r%s><%s q="1">%s</%s><b/></r>' % (ns, n, c, n), a + element('b', None, mode)),
                ('<r%s><%s py:for="i in (1, 2)">%s</%s></r>' % (ns, n, c, n), e + e),
                ('<r%s><%s py:strip="x">%s</%s></r>' % (ns, n, c, n), '' if out is None else out if n not in ('script', 'style') else None),
                ('<r%s><%s py:strip="not x">%s</%s></r>' % (ns, n, c, n), e),
                ('<r%s><%s py:if="x" py:attrs="{\'q\': x}">%s</%s></r>' % (ns, n, c, n), a),
            ]
            for source, want in forms:
                if want is None:
                    continue
                try:
                    got = XMLTemplate(source, mode=mode)({'x': 1}).render()
                except Exception as ex:
                    got = '%s: %s' % (type(ex).__name__, str(ex)[:200])
                compare('element', got, '%s<r%s>%s</r>' % (dt, ns, want), source, st, mode=mode)


# --- roles ---------------------------------------------------------------------------------

SOME = [0, 1, 5, 6, 6 + 5 * 7, 6 + 5 * 7 + 2, len(DOCTYPES) - 1]


class Roles(Space):
    name = 'roles'
    bound = ('parent and child, page and included part, page and imported part, three levels: %d x %d document types x %d x %d mode arguments'
             % (len(SOME), len(SOME), len(MODES), len(MODES)))

    def cases(self, tier):
        for a in SOME:
            for b in SOME:
                for m in MODES:
                    for n in MODES:
                        yield a, b, m, n

    def run(self, case, st):
        a, b, m, n = case
        (da, ia), (db, ib) = DOCTYPES[a], DOCTYPES[b]
        ma, mb = effective(ia, m), effective(ib, n)
        ka = {'mode': m} if m else {}
        kb = {'mode': n} if n else {}
        bl, cl = element('hr', None, ma), element('br', None, mb)
        parent = da + '<r><hr/><py:block name="k"><hr/></py:block></r>'
        child = db + '<py:extends href="l"><py:block name="k"><br/>${parent_block()}</py:block></py:extends>'
        grand = db + '<py:extends href="c"><py:block name="k"><br/>${parent_block()}</py:block></py:extends>'
        loader = MockLoader({'l': XMLTemplate(parent, **ka), 'c': XMLTemplate(child, **kb), 'g': XMLTemplate(grand, **kb)})
        want = first_line(da, ma) + '<r>%s%%s%s</r>' % (bl, bl)
        for i in (1, 2):
            compare('child', loader.import_('c')().render(), want % cl, child + '\n' + parent, st, case=case)
            compare('grandchild', loader.import_('g')().render(), want % (cl + cl), grand + '\n' + child + '\n' + parent, st, case=case)
            compare('parent', loader.import_('l')().render(), want % '', parent, st, case=case)
        # included and imported parts, compiled as fragments as a file loader does
        part = db + '<p><br/><py:def function="f()"><br/></py:def></p>'
        inner = '<p>%s</p>' % cl
        page = da + '<r><hr/><py:include href="p"/><py:for each="i in (1, 2)"><py:include href="p"/></py:for></r>'
        loader = MockLoader({'p': XMLTemplate(part, is_fragment=True, **kb), 'm': XMLTemplate(page, **ka)})
        compare('page with an included part', loader.import_('m')().render(), first_line(da, ma) + '<r>%s%s</r>' % (bl, inner * 3),
                page + '\n' + part, st, case=case)
        page = da + '<r><hr/><py:import href="p" alias="q"/>${q.f()}</r>'
        loader = MockLoader({'p': XMLTemplate(part, is_fragment=True, **kb), 'm': XMLTemplate(page, **ka)})
        compare('page with an imported part', loader.import_('m')().render(), first_line(da, ma) + '<r>%s%s</r>' % (bl, cl),
                page + '\n' + part, st, case=case)


# --- loaders -------------------------------------------------------------------------------

EXT = {'xml': None, 'html': 'html', 'html5': 'html5'}


class Loaders(Space):
    name = 'loaders'
    bound = ('FileLoader and PackageLoader: extension (xml, html, html5) x forced mode x document types of page, layout and part x reload, with '
             'includes, imports and extends between the files; fragment flag through load()')

    def cases(self, tier):
        for kind in ('file', 'package'):
            for ext in sorted(EXT):
                for force in MODES:
                    for a in SOME:
                        for b in SOME if tier != 'quick' else (0, 1, SOME[3]):
                            yield kind, ext, force, a, b

    def run(self, case, st):
        kind, ext, force, a, b = case
        (da, ia), (db, ib) = DOCTYPES[a], DOCTYPES[b]
        arg = force or EXT[ext]
        ma, mb = effective(ia, arg), effective(ib, arg)
        hr, br = element('hr', None, ma), element('br', None, mb)
        tmp = tempfile.mkdtemp(prefix='mc-c16-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        pkg = 'mc16p'
        try:
            ref = (lambda n: '%s.%s' % (pkg, n)) if kind == 'package' else (lambda n: '%s.%s' % (n, ext))
            files = {
                'm': da + '<r><hr/><py:include href="%s"/></r>' % ref('p'),
                'p': db + '<p><br/></p>',
                'l': da + '<r><py:block name="k"/><hr/></r>',
                'c': db + '<py:extends href="%s"><py:block name="k"><br/></py:block></py:extends>' % ref('l'),
                'f': db + '<p><br/></p>',
            }
            d = os.path.join(tmp, pkg)
            os.mkdir(d)
            open(os.path.join(d, '__init__.py'), 'w').close()
            for n, s in files.items():
                with open(os.path.join(d, '%s.%s' % (n, ext)), 'w') as f:
                    f.write(s)
            if kind == 'package':
                sys.path.insert(0, tmp)
                loader = PackageLoader(force_mode=force)
            else:
                loader = FileLoader(d, force_mode=force, reload=b % 2 == 0)
            want = {'m': first_line(da, ma) + '<r>%s<p>%s</p></r>' % (hr, br), 'c': first_line(da, ma) + '<r>%s%s</r>' % (br, hr),
                    'l': first_line(da, ma) + '<r>%s</r>' % hr}
            for n in ('m', 'c', 'l', 'm'):
                compare('template %s through a loader' % n, loader.import_(ref(n))().render(), want[n], repr(files), st, case=case)
            compare('fragment through a loader', loader.load(ref('f'), is_fragment=True)().render(), '<p>%s</p>' % br, repr(files), st,
                    case=case)
        finally:
            if kind == 'package':
                if tmp in sys.path:
                    sys.path.remove(tmp)
                sys.modules.pop(pkg, None)
            shutil.rmtree(tmp, ignore_errors=True)


def known():
    def probe():
        tmp = tempfile.mkdtemp(prefix='mc-c16-')
        try:
            for n, s in (('p.xml', '<!DOCTYPE html><p/>'), ('m.xml', '<m><py:include href="p.xml"/></m>')):
                with open(os.path.join(tmp, n), 'w') as f:
                    f.write(s)
            loader = FileLoader(tmp)
            loader.import_('m.xml')().render()
            return not loader.import_('p.xml')().render().startswith('<!DOCTYPE')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return [dict(what='a template with a DOCTYPE that was included before it is loaded directly through the same loader is rendered without '
                 'its DOCTYPE (documented limitation of the loader cache)', probe=probe)]


def spaces():
    return [Types(), Structures(), Elements(), Roles(), Loaders()]


ASSUMPTIONS = ['void elements are area, base, br, col, hr, img, input, link, meta and param, written in lower case and without py:content',
               'a template with a document type is either always included or always loaded directly by one loader (known finding otherwise)']
