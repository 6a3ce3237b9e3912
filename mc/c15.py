"""C15: extracted messages are exactly the ones translated at render time.

Three independent observations of every template are compared: the messages of the reference model (a static
walk over the document), the messages found by kajiki.i18n.extract, and the messages that rendering
passes to gettext in all branches; and the output under several translations with the model's output.
"""
import io
import itertools
import os
import re
import shutil
import tempfile

from mc import core, vocab
from mc.core import Space, Violation, outcome
from mc.xmlmodel import Interp, RAW, outermost, src

core.setup_repo()
import kajiki  # noqa: E402
from kajiki import XMLTemplate, FileLoader, MockLoader, i18n  # noqa: E402


class Static(Interp):
    """Collects the messages of all branches."""

    def ev(self, expr, frame, extra=None):
        return None

    def walk(self, kids):
        i = 0
        while i < len(kids):
            k = kids[i]
            if k[0] in 'txn':
                j = i
                while j < len(kids) and kids[j][0] in 'txn':
                    j += 1
                self.text_run(kids[i:j], None, True)
                i = j
                continue
            if k[0] == 'cd':
                self.text_run(k[1], None, True, lambda t: t)
            elif k[0] == 'e':
                d = dict(k[4])
                if 'content' not in d and 'replace' not in d and k[1] not in RAW:
                    self.walk(k[3])
            i += 1

    def all(self):
        self.gettext = lambda s: s
        self.walk((self.root,))
        return self.messages


def ident(s):
    return s


def brackets(s):
    return '[' + s + ']'


def nothing(s):
    return ''


def markup(s):
    return '<i>&amp;' + s.upper() + '</i>'


class Lazy(object):
    """Translated when it is converted to a string."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return '{' + self.s + '}'


TRANS = [('none', None), ('identity', ident), ('brackets', brackets), ('empty', nothing), ('markup', markup), ('lazy', Lazy)]


def extraction(source, strip=False, **options):
    if strip:
        options['strip_text'] = True
    return list(i18n.extract(io.BytesIO(source.encode('utf-8')), ['_', 'gettext'], None, options))


def verify(root, st, envs, strip=False, mode='xml', trans=TRANS, cdata_scripts=True, unique=None):
    source = src(root)
    kw = {}
    if mode != 'xml':
        kw['mode'] = mode
    if strip:
        kw['strip_text'] = True
    if not cdata_scripts:
        kw['cdata_scripts'] = False
    want = Static(root, {}, mode=mode, strip=strip).all()
    try:
        found = extraction(source, strip, **({'mode': mode} if mode != 'xml' else {}))
        t = XMLTemplate(source, **kw)
    except Exception as e:
        raise Violation('a valid template is rejected: %s: %s' % (type(e).__name__, str(e)[:300]), source=source)
    got = [m[2] for m in found]
    st.traces += 1
    if sorted(got) != sorted(want):
        raise Violation('extraction does not find exactly the messages', source=source, context=repr(kw), expected=repr(sorted(want)),
                        observed=repr(sorted(got)))
    for line, func, msg, _ in found:
        word = unique and unique.search(msg)
        if word:
            at = source.index(word.group())
            line0 = source[:at].count('\n') + 1 - msg[:word.start()].count('\n')
            if line != line0:
                raise Violation('a message is extracted with the wrong line', source=source, expected='%r at %d' % (msg, line0),
                                observed=line)
    seen = set()
    for env in envs:
        for name, g in trans:
            asked = []

            def gettext(s):
                asked.append(s)
                return g(s)
            c = dict(env)
            if g is not None:
                c['gettext'] = gettext
            # the model calls gettext at the same places
            m = Interp(root, dict(env), mode=mode, strip=strip, cdata_scripts=cdata_scripts,
                       gettext=(lambda s: str(g(s))) if g is not None else None)
            w = ('<!DOCTYPE html>\n' if mode == 'html5' else '') + m.render()
            st.steps += m.steps
            st.traces += 1
            try:
                r = t(c).render()
            except Exception as e:
                r = '%s: %s' % (type(e).__name__, str(e)[:300])
            if r != w:
                raise Violation('output under translation %s' % name, source=source, context=repr(env), expected=w, observed=r)
            if g is not None and asked != m.messages and sorted(asked) != sorted(m.messages):
                raise Violation('messages passed to gettext', source=source, context=repr(env), expected=repr(m.messages),
                                observed=repr(asked))
            seen.update(asked)
            outcome(st, r)
    if not seen <= set(got):
        raise Violation('rendering translates messages that extraction does not find', source=source,
                        expected=repr(sorted(got)), observed=repr(sorted(seen)))
    return seen, set(got)


WORD = re.compile(r'w\d+z')


def number(root):
    """Make every 'W' in the static text a unique word."""
    n = [0]

    def word(m):
        n[0] += 1
        return 'w%dz' % n[0]

    def go(x):
        if x[0] == 't':
            return ('t', re.sub('W', word, x[1]))
        if x[0] == 'cd':
            return ('cd', tuple(go(y) for y in x[1]))
        if x[0] == 'c':
            return ('c', re.sub('W', word, x[1]))
        if x[0] == 'e':
            return x[:3] + (tuple(go(y) for y in x[3]),) + x[4:]
        return x
    return go(root)


def el(tag, *kids, **d):
    return ('e', tag, d.get('attrs', ()), kids, d.get('dirs', ()))


def py(directive, value, *kids):
    return ('e', None, (), kids, ((directive, value),))


T = lambda s: ('t', s)
TOKENS = [T('W'), T(' '), T('\n'), ('x', 'x'), ('x', 'None'), T('a < W & "b"'), T('$'), el('b'), el('i', T(' W ')),
          ('c', ' W '), ('cd', (T(' W '), ('x', 'x'))), ('py', 'pass '), T('W \n W'), ('n', 'x')]
SMALL = [0, 1, 2, 3, 7, 10, 6]


class Runs(Space):
    name = 'text runs'
    bound = ('all sequences of up to 3 (thorough: 4) out of %d items (words, white space, line breaks, escaped characters, dollar signs, '
             'expressions, None, elements, comments, CDATA, Python blocks), of 4 and 5 (thorough: 6) out of %d items; strip_text on and '
             'off; no, identity, bracketing, empty, markup and lazy translation' % (len(TOKENS), len(SMALL)))

    def cases(self, tier):
        for n in range(0, 4 if tier == 'quick' else 5):
            for h in itertools.product(range(len(TOKENS)), repeat=n):
                if not any(x == 13 and y in (0, 5, 12) for x, y in zip(h, h[1:])):      # $x followed by a letter
                    yield h
        for n in (4, 5) if tier == 'quick' else (5, 6):
            for h in itertools.product(SMALL if n < 5 or tier != 'quick' else SMALL[:5], repeat=n):
                yield h

    def run(self, case, st):
        root = number(el('a', *[TOKENS[i] for i in case]))
        for strip in (False, True):
            seen, got = verify(root, st, [{'x': '<1'}], strip=strip, unique=WORD,
                               trans=TRANS if len(case) < 4 else TRANS[2:4])
            if seen != got:
                raise Violation('extraction finds messages that rendering never asks for', source=src(root),
                                expected=repr(sorted(seen)), observed=repr(sorted(got)))


SPACES = [chr(c) for c in range(0x110000) if chr(c).isspace() and (c >= 32 or c in (9, 10))] + ['\u200b', '\ufeff', '\u2060', '\x7f']
FRAMES = [('SW',), ('WS',), ('SWS',), ('WSW',), ('S',), ('SSW', 'x', 'WSS'), ('x', 'SWS', 'x'), ('x', 'S', 'x'), (' SW', 'x', 'WS '), ('\nSW', 'x', 'S', 'b'),
          ('W', 'x', 'S'), ('S', 'x', 'W'), ('S', 'b', 'SW', 'b', 'S'), ('SW', 'cd', 'WS'), ('S', 'cd', 'S'), ('Sa', 'b', 'aS'), ('0S', 'b', 'S.')]


class Blanks(Space):
    name = 'white space characters'
    bound = ('%d white space and similar characters at every place of %d arrangements of words, expressions, elements and CDATA, mixed with blanks; '
             'strip_text on and off' % (len(SPACES), len(FRAMES)))

    def cases(self, tier):
        for f in range(len(FRAMES)):
            for c in SPACES:
                yield f, c

    def run(self, case, st):
        f, c = case
        parts = {'x': ('x', 'x'), 'b': el('b'), 'cd': ('cd', (T(c + 'W' + c),))}
        root = number(el('a', *[parts[p] if p in parts else T(p.replace('S', c)) for p in FRAMES[f]]))
        for strip in (False, True):
            seen, got = verify(root, st, [{'x': '1'}], strip=strip, unique=WORD, trans=TRANS[1:4])
            if seen != got:
                raise Violation('extraction finds messages that rendering never asks for', source=src(root),
                                expected=repr(sorted(seen)), observed=repr(sorted(got)))


def kinds_of_characters():
    """All printable ASCII characters and one character of every other kind."""
    import unicodedata
    seen = set()
    for i in range(33, 0x30000):
        c = chr(i)
        k = unicodedata.category(c), unicodedata.bidirectional(c), c.isalpha(), c.isdigit(), c.isnumeric()
        if i < 127:
            if not ('A' < c < 'Z' or 'a' < c < 'z') and c != '$':
                yield c
        elif k not in seen and k[0] not in ('Cs', 'Co', 'Cc', 'Cn') and not c.isspace():
            seen.add(k)
            yield c


CHARS = list(kinds_of_characters())
CFRAMES = [('C',), ('CC',), ('CCC',), (' C ',), ('C', 'x', 'C'), (' C', 'x', 'C '), ('x', 'C', 'x'), ('b', '\n C\n', 'b'), ('C W', 'x', 'W C'), ('C C', 'b'), ('CD', 'x', 'D'), ('D', 'b', 'DC'), ('C D',)]


class Characters(Space):
    name = 'kinds of characters'
    bound = ('%d characters (printable ASCII and one of every other kind) alone, repeated and next to expressions, elements and words in %d arrangements; with all pairs '
             'of ASCII punctuation; strip_text on and off' % (len(CHARS), len(CFRAMES)))

    def cases(self, tier):
        for f in range(len(CFRAMES)):
            for c in CHARS:
                if not any('D' in p for p in CFRAMES[f]):
                    yield f, c, ''
                    continue
                for d in '!#%()*+,-./:;=?@[]^_`{|}~0&<>"\'':
                    if c < '\x7f' and not c.isalpha():
                        yield f, c, d

    def run(self, case, st):
        f, c, d = case
        parts = {'x': ('x', 'x'), 'b': el('b')}
        root = number(el('a', *[parts[p] if p in parts else T(p.replace('D', d).replace('C', c)) for p in CFRAMES[f]]))
        for strip in (False, True):
            seen, got = verify(root, st, [{'x': '1'}], strip=strip, unique=WORD, trans=TRANS[1:4])
            if seen != got:
                raise Violation('extraction finds messages that rendering never asks for', source=src(root),
                                expected=repr(sorted(seen)), observed=repr(sorted(got)))


class Vocabulary(Space):
    name = 'vocabulary'
    bound = ('text in every one of %d elements, alone and inside of one another, with every one of %d attributes (whose values are no messages); messages of 1 to 70000 characters and '
             '1 to 300 messages; xml and html; strip_text on and off' % (len(vocab.ELEMENTS), len(vocab.ATTRIBUTES)))
    SIZES = [1, 2, 3, 10, 50, 99, 100, 127, 128, 255, 256, 257, 300, 1000, 1024, 4096, 8192, 65536, 70000]

    def cases(self, tier):
        for e in vocab.ELEMENTS:
            if e not in RAW:
                yield 'e', e
        for a in vocab.ATTRIBUTES:
            yield 'a', a
        for n in self.SIZES:
            yield 'n', n

    def run(self, case, st):
        kind, name = case
        if kind == 'e':
            roots = [el('a', el(name, T(' W ')), T(' W'), el(name, T('W '), ('x', 'x'), T('. W')), el(name)), el(name, T('W'), el('b', T('W')), T('\n W')),
                     el('a', el(name, el(name, T('W')), T('W ')), el(name, ('cd', (T('W'),)), attrs=(('title', ('not me',)),))),
                     el(name, T('W'), attrs=tuple((a, ('not me',)) for a in vocab.ATTRIBUTES if not a.startswith('xmlns')))]
        elif kind == 'a':
            roots = [el('a', el('i', T('W'), attrs=((name, ('not me',)),)), T(' W'), el('b', attrs=((name, ('nor ', ('x', 'x'), ' me')),)))]
        else:
            roots = [el('a', T('W' + ' word' * (name // 5)), el('b', T('a' * name)), T('x W')), el('a', T('W' + 'a' * name), ('x', 'x'), T(' ' * name + 'W'))]
            if name <= 300:
                roots += [el('a', *[el('b', T(' W ')) for i in range(name)]), el('a', *([T('W '), ('x', 'x')] * name))]
        for root in roots:
            root = number(root)
            for mode in 'xml', 'html':
                for strip in (False, True):
                    seen, got = verify(root, st, [{'x': '<1'}], strip=strip, mode=mode, unique=WORD if kind != 'n' else None, trans=TRANS[2:4])
                    if seen != got:
                        raise Violation('extraction finds messages that rendering never asks for', source=src(root)[:2000],
                                        expected=repr(sorted(seen))[:2000], observed=repr(sorted(got))[:2000])


# --- containers ---------------------------------------------------------------------------

def wraps(n):
    """Containers: body -> tuple of nodes.  n makes names unique."""
    f, a = 'f%d' % n, 'a%d' % n
    return {
        'element': lambda b: (el('i', *b),),
        'attrs': lambda b: (el('i', *b, attrs=(('title', ('not me ', ('x', 'x'))), ('alt', ('nor me',)))),),
        'if': lambda b: (py('if', a, *b),),
        'else': lambda b: (py('if', 'not ' + a, T('W')), py('else', '', *b)),
        'if attribute': lambda b: (el('i', *b, dirs=(('if', a),)),),
        'for': lambda b: (py('for', 'i%d in (1, 2)' % n, *b),),
        'for attribute': lambda b: (el('i', *b, dirs=(('for', 'j in (1, 2)'),)),),
        'switch': lambda b: (py('switch', a, T('\n '), py('case', '1', *b), T(' '), py('else', '', T('W'))),),
        'switch else': lambda b: (py('switch', a, py('case', '5', T('W')), py('else', '', *b)),),
        'with': lambda b: (py('with', 'v%d=x' % n, *b),),
        'def': lambda b: (py('def', f + '()', *b), ('x', f + '()')),
        'def in attribute': lambda b: (py('def', f + '()', T('W ')), el('i', attrs=(('title', (('x', f + '()'),)),)), el('u', *b)),
        'block': lambda b: (py('block', 'b%d' % n, *b),),
        'call': lambda b: (py('def', f + '(c)', T('W'), ('x', 'c()')), ('e', None, (), tuple(b), (('call', (f + '(%caller)', '')),))),
        'strip': lambda b: (el('i', *b, dirs=(('strip', a),)),),
        'no strip': lambda b: (el('i', *b, dirs=(('strip', 'not ' + a),)),),
        'content': lambda b: (el('i', *b, dirs=(('content', 'x'),)),),
        'replace': lambda b: (el('i', *b, dirs=(('replace', 'x'),)),),
        'py:attrs': lambda b: (el('i', *b, dirs=(('attrs', "{'q': 'not me'}"),)),),
        'script': lambda b: (el('script', *[k for k in b if k[0] in 'txn']),),
        'style': lambda b: (el('style', *[k for k in b if k[0] in 'txn']),),
        'textarea': lambda b: (el('textarea', *b),),
    }


KEYS = sorted(wraps(0))
BODIES = [(T(' W '),), (T('W '), ('x', 'x'), T(' W\n')), (el('b', T('W')), T(' \n'), ('c', ' W ')), (T('\nW'), ('cd', (T('W'),)))]


class Containers(Space):
    name = 'containers'
    bound = ('all nestings of up to 2 (thorough: 3) out of %d constructs (elements, attributes, directives in both forms, functions, call bodies, '
             'blocks, py:strip, py:content, py:replace, script, style) around %d bodies, with text before and after; in both '
             'branches; xml and html' % (len(KEYS), len(BODIES)))

    def cases(self, tier):
        for d in (1, 2) if tier == 'quick' else (1, 2, 3):
            for k in itertools.product(KEYS, repeat=d):
                if any(x in RAW for x in k[:-1]):
                    continue            # they contain text only
                for b in range(len(BODIES)):
                    yield k, b

    def run(self, case, st):
        ks, b = case
        body = BODIES[b]
        for n, k in enumerate(reversed(ks)):
            body = wraps(n)[k](tuple(body))
            if n % 2 == 0 and k not in ('script', 'style'):
                body = (T('W '),) + body + (T(' W'),)
        root = number(el('a', *body))
        envs = [dict(('a%d' % i, v) for i, v in enumerate(vs)) for vs in itertools.product((1, 0, 5), repeat=len(ks))]
        for e in envs:
            e['x'] = None if e['a0'] == 5 else 'v&'
        for mode in ('xml', 'html') if len(ks) == 1 else (('xml', 'html', 'html5')[(len(ks[0]) + b) % 3],):
            seen, got = verify(root, st, envs, mode=mode, unique=WORD, trans=TRANS if len(ks) < 2 else TRANS[1:3],
                               strip=bool(b % 2) and len(ks) > 1, cdata_scripts=mode == 'xml' or b % 2 == 0)
            if seen != got:
                raise Violation('extraction finds messages that rendering never asks for', source=src(root),
                                expected=repr(sorted(seen)), observed=repr(sorted(got)))


# --- where gettext comes from ------------------------------------------------------------------

class Sources(Space):
    name = 'installation'
    bound = ('gettext in {context or not} x {loader or template globals or not} x {library default replaced before or after loading, or '
             'not} x role of the text (page, parent, grandparent, child block, included, imported function, include in a child, text in a '
             'function called from an attribute) x file loader or templates with globals; also through _() in expressions')
    FILES = {
        'p.xml': '<p>word $x ${_("word")}</p>',
        'l.xml': '<l>lw<py:block name="b">lb</py:block>${_("le")}</l>',
        'c.xml': '<py:extends href="l.xml"><py:block name="b">cb<py:include href="p.xml"/>${parent_block()}${_("ce")}</py:block></py:extends>',
        'd.xml': '<py:extends href="c.xml"><py:block name="b">db${parent_block()}</py:block></py:extends>',
        'i.xml': '<i>iw<py:include href="p.xml"/></i>',
        'f.xml': '<f><py:def function="g(a)">fw $a ${_("fe")}</py:def></f>',
        'm.xml': '<m>mw<py:import href="f.xml"/>${f.g(1)}<b t="${f.g(2)}"/></m>',
        'n.xml': '<n><py:include href="c.xml"/>nw<py:def function="h()">hw</py:def><b u="${h()}"/></n>',
    }

    def expected(self, name, g):
        """Model output with translation function g."""
        p = '<p>%s1 %s</p>' % (g('word '), g('word'))
        if name == 'p.xml':
            return p
        if name == 'l.xml':
            return '<l>%s%s%s</l>' % (g('lw'), g('lb'), g('le'))
        c = g('cb') + p + g('lb') + g('ce')
        if name == 'c.xml':
            return '<l>%s%s%s</l>' % (g('lw'), c, g('le'))
        if name == 'd.xml':
            return '<l>%s%s%s</l>' % (g('lw'), g('db') + c, g('le'))
        if name == 'i.xml':
            return '<i>%s%s</i>' % (g('iw'), p)
        f = lambda a: '%s%s %s' % (g('fw '), a, g('fe'))
        if name == 'm.xml':
            return '<m>%s%s<b t="%s"/></m>' % (g('mw'), f(1), f(2))
        if name == 'n.xml':
            return '<n><l>%s%s%s</l>%s<b u="%s"/></n>' % (g('lw'), c, g('le'), g('nw'), g('hw'))
        return '<f></f>'

    def cases(self, tier):
        for ctx in (0, 1, 2):
            for glob in (0, 1, 2):
                for default in ('no', 'before', 'after', 'late'):
                    for kind in ('file', 'file no reload', 'mock'):
                        for name in sorted(self.FILES):
                            yield ctx, glob, default, kind, name

    def run(self, case, st):
        ctx, glob, default, kind, name = case
        mk = lambda tag: lambda s: '(%s:%s)' % (tag, s)
        # 2: present, but the identity
        funcs = {'ctx': [None, mk('C'), ident][ctx], 'glob': [None, mk('G'), ident][glob],
                 'default': mk('D') if default != 'no' else ident}
        g = funcs['ctx'] or funcs['glob'] or funcs['default']
        opts = {'base_globals': {'gettext': funcs['glob']}} if glob else {}
        old = i18n.gettext
        tmp = None
        try:
            if default == 'before':
                i18n.gettext = funcs['default']
            if kind == 'mock':
                loader = MockLoader(dict((n, XMLTemplate(s, **opts)) for n, s in self.FILES.items()))
            else:
                tmp = tempfile.mkdtemp(prefix='mc-c15-')
                for n, s in self.FILES.items():
                    with open(os.path.join(tmp, n), 'w') as f:
                        f.write(s)
                loader = FileLoader(tmp, reload=kind == 'file', **opts)
            if default == 'after':
                i18n.gettext = funcs['default']
            cls = loader.import_(name)
            if default == 'late':
                i18n.gettext = funcs['default']
            c = {'x': 1}
            if ctx:
                c['gettext'] = funcs['ctx']
            want = self.expected(name, g)
            for i in (1, 2):
                st.traces += 1
                st.steps += 1
                got = cls(dict(c)).render()
                if got != want:
                    raise Violation('the wrong translation function is used', source=self.FILES[name], context=repr(case), expected=want,
                                    observed=got)
            outcome(st, got)
        finally:
            i18n.gettext = old
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)


# --- expressions ------------------------------------------------------------------------------

EXPRS = [('_("q1")', ['q1']), ("_('q1') + gettext('q2')", ['q1', 'q2']), ('_("a" "b")', ['ab']), ('x', []), ('"q1"', []),
         ('other("q1")', []), ('_(_("q1"))', ['q1']), ('[_(i) for i in (x, "q3")][0]', []), ('_("\\u00e9 < & \'")', ['\u00e9 < & \'']),
         ('{"a": _("q1")}["a"]', ['q1']), ('x if x else _("q1")', ['q1']), ('lambda_("q1")', []), ('_("q1").upper()', ['q1']),
         ('(_("q1"),\n _("q2"))', ['q1', 'q2'])]


class Expressions(Space):
    name = 'messages in expressions'
    bound = ('%d expressions x position (text, text between words, attribute, part of an attribute, py:content, py:replace, CDATA, script, function, '
             'block) x pairs, with and without the extract_python option' % len(EXPRS))
    POS = [
        ('text', '<a>${%s}</a>', []), ('words', '<a>m1 ${%s} m2</a>', ['m1 ', ' m2']), ('attribute', '<a b=%s/>', []),
        ('part', '<a b=%s c="n"><i>m1</i></a>', ['m1']), ('content', '<a py:content=%s>gone</a>', []), ('replace', '<a><b py:replace=%s/>m1</a>', ['m1']),
        ('cdata', '<a><![CDATA[${%s}]]></a>', []), ('script', '<a><script>var m = ${%s};</script></a>', []),
        ('function', '<a><py:def function="f()">m1${%s}</py:def>${f()}</a>', ['m1']), ('block', '<a><py:block name="k">${%s}m1</py:block></a>', ['m1']),
        ('if', '<a><py:if test="x">${%s}</py:if><py:else>m1</py:else></a>', ['m1']),
    ]

    def cases(self, tier):
        for e in range(len(EXPRS)):
            for p in range(len(self.POS)):
                for second in (None,) + tuple(range(0, len(EXPRS), 1 if tier != 'quick' else 3)):
                    yield e, p, second

    def run(self, case, st):
        e, p, second = case
        expr, msgs = EXPRS[e]
        kind, tpl, static = self.POS[p]
        want = list(msgs) + list(static)
        if kind in ('attribute', 'part'):
            q = expr.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
            source = tpl % ('"%s${%s}"' % ('n ' if kind == 'part' else '', q))
        elif kind in ('content', 'replace'):
            source = tpl % ('"%s"' % expr.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;'))
        elif kind == 'cdata':
            source = tpl % expr
        else:
            source = tpl % expr.replace('&', '&amp;').replace('<', '&lt;')
        if second is not None:
            source = '<r>%s${%s}</r>' % (source, EXPRS[second][0].replace('&', '&amp;').replace('<', '&lt;'))
            want += EXPRS[second][1]
        for on in (False, True):
            st.traces += 1
            st.steps += 1
            got = [m[2] for m in extraction(source, extract_python=on) if m[2] is not None]
            w = want if on else static
            if sorted(got) != sorted(w):
                raise Violation('extraction from expressions', source=source, context='extract_python=%s' % on, expected=repr(sorted(w)),
                                observed=repr(sorted(got)))
            outcome(st, tuple(got))


def spaces():
    return [Vocabulary(), Runs(), Blanks(), Characters(), Containers(), Sources(), Expressions()]


ASSUMPTIONS = ['white space is what str.strip() removes', 'a dollar sign written $$ is a piece of text of its own',
               'the keywords passed to the extractor are _ and gettext']
