"""C13: loading, compiling and rendering are safe from several threads.

Stateless model checking of the real threads (see sched.py): all interleavings of two or three threads
up to a preemption bound, at the granularity stated for each space.  Oracle: the result of each thread when
it runs alone (and, where a file is replaced meanwhile, the old or the new version).
"""
import gc
import os
import shutil
import sys
import tempfile

from mc import core, sched
from mc.core import Space, Violation, outcome

# run.py has called sched.install() before the library was imported
core.setup_repo()
from kajiki import FileLoader, PackageLoader, MockLoader, XMLTemplate, TextTemplate, i18n  # noqa: E402

SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
CALL, LINE, OP = 1, 2, 3


class Scratch(object):
    def __init__(self, files):
        self.root = tempfile.mkdtemp(prefix='mc-c13-', dir=SHM)
        self.clock = 1500000000
        for n, s in files.items():
            self.write(n, s)

    def write(self, n, s):
        p = os.path.join(self.root, n)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        self.clock += 10
        with open(p + '~', 'w') as f:
            f.write(s)
        os.utime(p + '~', (self.clock, self.clock))
        os.rename(p + '~', p)

    def delete(self, n):
        os.unlink(os.path.join(self.root, n))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Scenario(object):
    """A named set of thread bodies over fresh shared state."""
    name = ''
    threads = 2
    grans = ()          # (label, granularity, bound quick, bound thorough)

    def make(self):
        """-> (list of bodies, cleanup, extra)"""
        raise NotImplementedError

    def allowed(self, i):
        """Results that thread i may return, or None: what it returns alone."""
        return None

    def after(self, extra):
        """Checked in the main thread when all threads are done."""


# --- loading ------------------------------------------------------------------------------

A = {'a.xml': '<a py:with="v=x"><py:def function="f()">F$v$x</py:def>${x}</a>', 'b.txt': '%for i in [1,2]\n$i$x\n%end\n',
     'm.xml': '<py:extends href="l.xml"><py:block name="b">B$x<py:include href="p.xml"/></py:block></py:extends>',
     'n.xml': '<py:extends href="l.xml"><py:block name="b">N$x<py:import href="p.xml"/>${p.f()}</py:block></py:extends>',
     'l.xml': '<l><py:block name="b"/><py:include href="p.xml"/></l>',
     'p.xml': '<p><py:def function="f()">f$x</py:def>$x${f()}</p>'}

G_LOADER_OP = {'loader.py': OP, 'integration/pyramid.py': OP}
G_LOADER_LINE = {'loader.py': LINE, 'integration/pyramid.py': LINE}
G_MIX = {'loader.py': OP, '*': CALL, 'template': CALL}
G_CALL = {'*': CALL, 'template': CALL}
G_LINE = {'*': LINE, 'template': LINE}
G_RENDER = {'template.py': LINE, 'util.py': LINE, 'i18n.py': LINE, 'template': LINE, '*': CALL}
G_RENDER_CALL = {'*': CALL, 'template': CALL}
G_RENDER_OP = {'template.py': OP, 'util.py': OP, 'template': OP, '*': LINE}


class Load(Scenario):
    LINES, OPS, CALLS = (('lines of the loaders', G_LOADER_LINE, 2, 3), ('bytecode of the loaders', G_LOADER_OP, 1, 2),
                         ('calls of the library', G_MIX, 1, 1))
    grans = LINES, OPS, CALLS[:2] + (None, 1)

    def __init__(self, name, bodies, setup=None, reload=True, post=None, allow=None, loader='file', calls=False):
        if len(bodies) > 2 or 'l' in getattr(bodies[0], 'big', ''):
            self.grans = self.LINES[:2] + (1, 2), self.OPS[:2] + (None, 1), self.CALLS[:2] + (None, 1)
        if calls:
            self.grans = self.LINES, self.OPS, self.CALLS
        self.name, self.bodies, self.setup, self.reload = name, bodies, setup, reload
        self.threads, self.post, self.allow, self.kind = len(bodies), post, allow or {}, loader

    def make(self):
        if self.kind == 'package':
            s = Scratch(dict(('mcp/' + n, t) for n, t in A.items()))
            s.write('mcp/__init__.py', '')
            sys.path.insert(0, s.root)
            sys.modules.pop('mcp', None)
            loader = PackageLoader(reload=self.reload)
            conv = lambda n: 'mcp.' + n.split('.')[0]
            prefix = 'mcp/'
        else:
            s = Scratch(A)
            loader = FileLoader(s.root, reload=self.reload)
            conv = lambda n: n
            prefix = ''
        env = Env(loader, s, conv, prefix)
        if self.setup:
            self.setup(env)

        def cleanup():
            s.close()
            if self.kind == 'package':
                sys.path.remove(s.root)
                sys.modules.pop('mcp', None)
        return [(lambda b=b: b(env)) for b in self.bodies], cleanup, env

    def allowed(self, i):
        return self.allow.get(i)

    def after(self, env):
        if self.post:
            for name, x, want in self.post:
                try:
                    got = env.show(name, x)
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, str(e)[:200])
                if got != want:
                    raise Violation('loading %s after the threads are done' % name, expected=want, observed=got)


class Env(object):
    def __init__(self, loader, scratch, conv, prefix):
        self.loader, self.scratch, self.conv, self.prefix = loader, scratch, conv, prefix

    def show(self, name, x):
        return self.loader.import_(self.conv(name))({'x': x}).render()

    def write(self, name, s):
        self.scratch.write(self.prefix + name, s)


def show(name, x):
    body = lambda env: env.show(name, x)
    if name in ('m.xml', 'n.xml'):
        body.big = 'l'
    return body


def warm(*names):
    def setup(env):
        for n in names:
            env.show(n, 0)
    return setup


def change(name, src, *names):
    def setup(env):
        warm(*names)(env)
        env.write(name, src)
    return setup


def replace_and_show(name, src, x):
    def body(env):
        env.write(name, src)
        return env.show(name, x)
    return body


def load_twice(name, x):
    return lambda env: env.show(name, x) + env.show(name, x)


NEW = '<new>$x</new>'
OLD1 = '<a>1</a>'
LOADS = [
    Load('two threads load the same template', [show('a.xml', 1), show('a.xml', 2)], post=[('a.xml', 3, '<a>3</a>')], calls=True),
    Load('two threads load different templates', [show('a.xml', 1), show('b.txt', 2)], post=[('a.xml', 3, '<a>3</a>')]),
    Load('both notice the same change', [show('a.xml', 1), show('a.xml', 2)], change('a.xml', NEW, 'a.xml'), calls=True,
         post=[('a.xml', 3, '<new>3</new>')]),
    Load('one replaces the file that the other one loads', [show('a.xml', 1), replace_and_show('a.xml', NEW, 2)], calls=True,
         allow={0: ['<a>1</a>', '<new>1</new>'], 1: ['<new>2</new>']}, post=[('a.xml', 3, '<new>3</new>')]),
    Load('the file in the cache is replaced', [show('a.xml', 1), replace_and_show('a.xml', NEW, 2)], warm('a.xml'),
         allow={0: ['<a>1</a>', '<new>1</new>'], 1: ['<new>2</new>']}, post=[('a.xml', 3, '<new>3</new>')]),
    Load('already loaded', [load_twice('a.xml', 1), load_twice('a.xml', 2)], warm('a.xml'), calls=True),
    Load('reloading off', [show('a.xml', 1), show('a.xml', 2)], calls=True, reload=False, post=[('a.xml', 3, '<a>3</a>')]),
    Load('reloading off, different templates', [show('a.xml', 1), load_twice('b.txt', 2)], reload=False),
    Load('inheritance and includes', [show('m.xml', 1), show('n.xml', 2)]),
    Load('the same page with includes', [show('m.xml', 1), show('m.xml', 2)], reload=False),
    Load('a part is used and loaded', [show('m.xml', 1), show('p.xml', 2)]),
    Load('the layout has changed', [show('m.xml', 1), show('n.xml', 2)],
         change('l.xml', '<l2><py:block name="b"/></l2>', 'm.xml', 'n.xml')),
    Load('the layout is replaced meanwhile',
         [show('m.xml', 1), replace_and_show('l.xml', '<l2><py:block name="b"/></l2>', 2)], warm('m.xml'),
         allow={0: ['<l>B1<p>1f1</p><p>1f1</p></l>', '<l2>B1<p>1f1</p></l2>'], 1: ['<l2></l2>']},
         post=[('m.xml', 3, '<l2>B3<p>3f3</p></l2>')]),
    Load('package loader', [show('a.xml', 1), show('a.xml', 2)], loader='package'),
    Load('package loader, different templates', [show('a.xml', 1), show('b.txt', 2)], loader='package'),
    Load('three threads load the same template', [show('a.xml', 1), show('a.xml', 2), show('a.xml', 3)]),
    Load('three threads, one change', [show('a.xml', 1), replace_and_show('a.xml', NEW, 2), show('a.xml', 3)], warm('a.xml'),
         allow={0: ['<a>1</a>', '<new>1</new>'], 1: ['<new>2</new>'], 2: ['<a>3</a>', '<new>3</new>']},
         post=[('a.xml', 4, '<new>4</new>')]),
]


def load_missing(name):
    def body(env):
        try:
            return env.show(name, 1)
        except IOError:
            return 'IOError'
    return body


def break_file(name):
    def body(env):
        env.write(name, '<a>${')
        try:
            return env.show(name, 1)
        except Exception as e:
            return 'broken'
    return body


def show_or_broken(name, x):
    def body(env):
        try:
            return env.show(name, x)
        except Exception as e:
            return 'broken'
    return body


LOADS += [
    Load('a missing template', [load_missing('zz.xml'), show('a.xml', 2)], allow={0: ['IOError']}),
    Load('the file is broken meanwhile', [show_or_broken('a.xml', 1), break_file('a.xml')], warm('a.xml'),
         allow={0: ['<a>1</a>', 'broken'], 1: ['broken']}),
    Load('one compiles a broken file', [show_or_broken('a.xml', 1), show('b.txt', 2)], change('a.xml', '<a>${'),
         allow={0: ['broken']}, post=[('b.txt', 3, '13\n23\n')]),
]


# --- Pyramid ------------------------------------------------------------------------------

class PyramidLoad(Scenario):
    name = 'Pyramid loader'
    grans = Load.grans
    threads = 2

    def __init__(self, name, changed, auto):
        self.name, self.changed, self.auto = name, changed, auto

    def make(self):
        from mc import c12
        mod = c12.stub_modules()
        s = Scratch({'app/m.kajiki': '<b>$x<py:include href="app:p.kajiki"/></b>', 'app/p.kajiki': '<i>$x</i>'})
        c12.ROOT[0] = s.root
        loader = mod.PyramidKajikiLoader(auto_reload=self.auto, mode='xml')

        def render(x):
            return loader({'x': x}, {'renderer_name': 'app:m.kajiki'})
        if self.changed:
            render(0)
            s.write('app/m.kajiki', '<c>$x</c>')
        return [lambda: render(1), lambda: render(2)], s.close, render

    def after(self, render):
        want = '<c>3</c>' if self.changed and self.auto else '<b>3<i>3</i></b>'
        got = render(3)
        if got != want:
            raise Violation('after the threads are done', expected=want, observed=got)


PYRAMID = [PyramidLoad('Pyramid: first load', False, True), PyramidLoad('Pyramid: changed page', True, True),
           PyramidLoad('Pyramid: reloading off', False, False)]


# --- rendering ----------------------------------------------------------------------------

RICH = '''<a py:with="v=x"><py:def function="f(n)">[$n$x${n and f(n-1)}]</py:def>\
<py:switch test="v"><py:case value="1">one${f(1)}</py:case><py:else>many$v</py:else></py:switch>\
<i py:for="i in [v, v]" class="$i" py:if="i">$i<py:with vars="v=i+1">$v</py:with></i>\
<py:call args="z" function="w(%caller)">$z$x</py:call><py:def function="w(c)">${c(1)}</py:def>\
<py:block name="k">K$x</py:block>$v</a>'''
SW = ('<a><py:switch test="x"><b py:case="1"><py:switch test="x+1"><py:case value="2">in</py:case></py:switch>${x}</b>'
      '<c py:else="">e</c></py:switch></a>')
WITH = '<a><py:with vars="v=x;w=v"><py:with vars="v=w*2">$v</py:with>$v$w</py:with><b py:with="v=x" py:content="v"/></a>'
DEFS = '<a><py:def function="f(n)">$n$x<py:if test="n">${f(n-1)}</py:if></py:def>${f(2)}<b py:attrs="{\'q\': x}" r="${f(0)}"/></a>'
TEXT = '%def f(a)\n$a$x\n%end\n%for i in (x, 5)\n%switch i\n%case 1\none ${f(i)}\n%else\nother\n%end\n%end\n'
SMALL = '<a><py:def function="f(n)">$n</py:def>${f(2)}<b py:attrs="{\'q\': x}" r="$x"/></a>'
TRANS = '<a>hello ${x}<b>world</b></a>'


class Render(Scenario):
    grans = (('calls and generator steps', G_RENDER_CALL, 2, 3), ('lines of the run time', G_RENDER, 1, 2),
             ('bytecode of the run time', G_RENDER_OP, None, 1))

    def __init__(self, name, src, cls=XMLTemplate, ctx=None, big=False):
        if big:
            self.grans = (self.grans[0][:2] + (1, 2),) + self.grans[1:]
        self.name, self.src, self.cls, self.ctx = name, src, cls, ctx or [{'x': 1}, {'x': 2}]
        self.threads = len(self.ctx)

    def make(self):
        t = self.cls(self.src)

        def body(c):
            def run():
                d = dict(c)
                r = t(d).render()
                if d != c:
                    return 'context changed: %r' % d
                return r
            return run
        self.t = t
        return [body(c) for c in self.ctx], lambda: None, t

    def after(self, t):
        c = dict(self.ctx[0])
        c['x'] = 7
        got, want = t(c).render(), self.cls(self.src)(c).render()
        if got != want:
            raise Violation('rendering after the threads are done', expected=want, observed=got)


class RenderChain(Render):
    """Two children of one parent, an included part."""
    SRC = {'l': '<l><py:def function="f()">lf$x</py:def><py:block name="b">lb</py:block>${f()}${self.f()}</l>',
           'c': '<py:extends href="l"><py:block name="b">c${parent_block()}<py:include href="p"/></py:block></py:extends>',
           'd': '<py:extends href="l"><py:def function="f()">df</py:def><py:block name="b">d${parent.b()}</py:block></py:extends>',
           'p': '<p><py:def function="f()">pf$x</py:def>${f()}</p>'}

    def __init__(self, name, tops, bound):
        self.grans = (self.grans[0][:2] + (bound, 2),) + self.grans[1:]
        self.name, self.tops, self.threads = name, tops, len(tops)

    def make(self):
        loader = MockLoader(dict((n, XMLTemplate(s)) for n, s in self.SRC.items()))

        def body(i, n):
            return lambda: loader.import_(n)({'x': i}).render()
        return [body(i + 1, n) for i, n in enumerate(self.tops)], lambda: None, loader

    def after(self, loader):
        got = loader.import_('l')({'x': 9}).render()
        if got != '<l>lblf9lf9</l>':
            raise Violation('the parent renders differently afterwards', expected='<l>lblf9lf9</l>', observed=got)


def up(s):
    return s.upper()


def brackets(s):
    return '[' + s + ']'


RENDERS = [
    Render('rich template', RICH, big=True),
    Render('switches', SW), Render('switches, three threads', SW, ctx=[{'x': 1}, {'x': 2}, {'x': 1}]),
    Render('py:with', WITH), Render('functions and attributes', DEFS, big=True),
    Render('text template', TEXT, cls=TextTemplate),
    Render('different translations', TRANS, ctx=[{'x': 1, 'gettext': up}, {'x': 2, 'gettext': brackets}]),
    Render('translation and none', TRANS, ctx=[{'x': 1, 'gettext': up}, {'x': 2}]),
    Render('one fails', '<a py:with="v=1"><py:switch test="x"><py:case value="0">${1/x}</py:case><py:case value="2">two</py:case>'
           '</py:switch>$v</a>', ctx=[{'x': 0}, {'x': 2}]),
    RenderChain('two children of one parent', 'cd', 1), RenderChain('the same child', 'cc', 1),
    RenderChain('child and parent', 'dl', 2), RenderChain('child and part', 'cp', 1),
]


# --- compiling ----------------------------------------------------------------------------

class Compile(Scenario):
    grans = (('calls of the library', G_CALL, 1, 1), ('lines of the library', G_LINE, None, 1))

    def __init__(self, name, *jobs):
        self.name, self.jobs, self.threads = name, jobs, len(jobs)

    def make(self):
        return [(lambda j=j: j()) for j in self.jobs], lambda: None, None


class CompileSmall(Compile):
    grans = (('calls of the library', G_CALL, 1, 2),)


def compile_xml(src, **kw):
    def job():
        return XMLTemplate(src, **kw)({'x': 1}).render()
    return job


def compile_text(src):
    return lambda: TextTemplate(src)({'x': 1}).render()


def compile_bad(src):
    def job():
        try:
            XMLTemplate(src, filename='bad.xml')
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e)
        return 'compiled'
    return job


def extract(src):
    import io

    def job():
        return repr(list(i18n.extract(io.BytesIO(src.encode('utf-8')), None, None, {})))
    return job


COMPILES = [
    Compile('two markup templates', compile_xml(WITH), compile_xml(SW, mode='html5')),
    Compile('the same markup template', compile_xml(SMALL), compile_xml(SMALL)),
    Compile('markup and text', compile_xml(WITH), compile_text(TEXT)),
    Compile('two text templates', compile_text(TEXT), compile_text('%for i in [1]\n${i}%if x\na\n%else\nb\n%end\n%end\n')),
    Compile('a broken and a valid template', compile_bad('<a>\n\n<b py:else="">x</b></a>'), compile_xml(SW)),
    Compile('message extraction and compilation', extract(TRANS), compile_xml(TRANS)),
    Compile('different options', compile_xml('<a><script>x &lt; 1</script> <py:nop> t </py:nop><b/></a>', strip_text=True),
            compile_xml('<a><script>x &lt; 1</script> <py:nop> t </py:nop><b/></a>', cdata_scripts=False, mode='html')),
    Compile('entities and doctypes', compile_xml('<!DOCTYPE html>\n<p title="&eacute;">&nbsp;$x<br/></p>'),
            compile_xml('<p>&copy;<br/>${x}</p>')),
    CompileSmall('tiny markup templates', compile_xml('<a b="$x"/>'), compile_xml('<c py:if="x">t</c>')),
    CompileSmall('tiny text templates', compile_text('a$x'), compile_text('%if x\nb\n%end\n')),
]


# every kind of construct against every other one
TINY = [
    ('CDATA', compile_xml('<a>&lt;<![CDATA[<$x&]]>&lt;</a>')),
    ('comment', compile_xml('<!-- c --><a><!-- d -->&lt;</a>')),
    ('script', compile_xml('<a><script>1 &lt; $x</script>&lt;</a>')),
    ('function', compile_xml('<a><py:def function="f(y)">$y</py:def>${f(x)}</a>')),
    ('call', compile_xml('<a><py:def function="f(c)">${c()}</py:def><py:call function="f(%caller)">$x</py:call></a>')),
    ('switch', compile_xml('<a py:strip="x"><py:switch test="x"><py:case value="1">1</py:case><py:else>2</py:else></py:switch></a>')),
    ('Python block', compile_xml('<a><?py %z = 5 ?><?py y = x ?>$y$z</a>')),
    ('document type', compile_xml('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd"><a><br/>&eacute;</a>')),
    ('text', compile_text('%def f(a)\n$a\\\n%end\n{%for i in (x, 2)%}${f(i)}{%end%}')),
    ('stripped text', compile_xml('<a>\n <b> q $x </b>\n</a>', strip_text=True)),
    ('block and loop', compile_xml('<a><b py:for="i in (x, 2)" py:if="i" py:attrs="{\'k\': i}"><py:block name="k">$i</py:block></b></a>'.replace('>$i<', '>$x<'))),
    ('error', compile_bad('<a>\n<b>${1 +}</b></a>')),
]


class CompilePair(Compile):
    grans = (('calls of the library', G_CALL, 1, 2),)


class CompilePairLater(Compile):
    grans = (('calls of the library', G_CALL, None, 1),)


PAIRS = [(CompilePair if n1 == n2 or n1 == 'CDATA' or 'text' in (n1, n2) else CompilePairLater)('%s and %s' % (n1, n2), j1, j2)
         for k, (n1, j1) in enumerate(TINY) for n2, j2 in TINY[k:]]


class Schedules(Space):
    """One space per family; a case is a share of the schedules of one scenario."""
    case_timeout = 600
    parts = 16

    def __init__(self, name, scenarios, bound):
        self.name, self.scenarios, self.bound = name, scenarios, bound
        self._alone = {}

    def cases(self, tier):
        for i, sc in enumerate(self.scenarios):
            for g, (label, gran, bq, bt) in enumerate(sc.grans):
                b = bq if tier == 'quick' else bt
                if b is None:
                    continue
                if sc.threads > 2 and b > 1:
                    b -= 1
                for part in range(self.parts):
                    yield i, g, b, part

    def describe(self, case):
        i, g, b, part = case
        return '%s; %s; at most %d preemptions; share %d' % (self.scenarios[i].name, self.scenarios[i].grans[g][0], b, part)

    def run(self, case, st):
        i, g, bound, part = case
        sc = self.scenarios[i]
        core.jit_off()
        if st.cases % 8 == 0:
            gc.collect()
        if i not in self._alone:
            alone = []
            for n in range(sc.threads):
                bodies, cleanup, extra = sc.make()
                try:
                    s = sched.Sched([bodies[n]], {}, {})
                    alone.append(s.run()[0])
                finally:
                    cleanup()
            self._alone[i] = alone
        alone = self._alone[i]

        def check(decisions, results, deadlock, extra):
            show = '%s: %s, switches at steps %r' % (sc.name, sc.grans[g][0], sorted(decisions.items()))
            if deadlock:
                raise Violation('deadlock', source=show, observed=repr(results))
            for n, r in enumerate(results):
                allowed = sc.allowed(n)
                if allowed is None:
                    ok = r == alone[n]
                    want = alone[n]
                else:
                    ok = r[0] == 'ok' and r[1] in allowed
                    want = allowed
                if not ok:
                    raise Violation('thread %d returns something else than it would alone' % n, source=show,
                                    expected=repr(want), observed=repr(r))
            outcome(st, (i, tuple(results)))
            try:
                sc.after(extra)
            except Violation as v:
                v.detail['source'] = show
                raise
        schedules, points = sched.explore(sc.make, sc.grans[g][1], bound, part, self.parts, check)
        st.traces += schedules
        st.steps += points


def spaces():
    return [
        Schedules('loading', LOADS + PYRAMID, '%d scenarios of two or three threads loading, changing and rendering files through one '
                  'FileLoader, PackageLoader or Pyramid loader; switches at every line of the loaders with up to 2 '
                  'preemptions (thorough: 3), at every bytecode instruction of the loaders with up to 1 (thorough: 2) and, for some of them, at every call in the library with up to 1' % (len(LOADS) + len(PYRAMID))),
        Schedules('rendering', RENDERS, '%d scenarios of two or three threads rendering instances of one class or of one inheritance '
                  'chain; switches at every call and generator step with up to 2 preemptions (large templates: 1; thorough: 3 and 2), at every line of the '
                  'run time and the generated code with up to 1 (thorough: 2; every bytecode: 1)' % len(RENDERS)),
        Schedules('pairs of constructs', PAIRS, 'two threads that compile and render templates with one construct each: %d constructs, each with itself, a CDATA section and a text template (thorough: all pairs); switches at every call in the library '
                  'with 1 preemption (thorough: those of the quick tier with 2)' % len(TINY)),
        Schedules('compiling', COMPILES, '%d scenarios of two threads compiling templates or extracting messages; switches at every call '
                  'in the library with 1 preemption (thorough: also every line; tiny templates: 2 preemptions)' % len(COMPILES)),
    ]


ASSUMPTIONS = ['threads switch at bytecode, line or call boundaries of the library as stated per space; single C-level operations are atomic (as with the GIL)',
               'files are replaced atomically and get a new modification time']
