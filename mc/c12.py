"""C12: file-based loaders always serve the current template source.

Explicit-state exploration of loader histories.  The model state is the set of files (content and
modification time per place) plus what has been loaded; a history is a sequence of rounds, each a set of
file-system changes followed by loads.  File-system operations on different files between two loads
commute, and of several operations on one file only the last one matters, so a round holds at most one
change per file (a sound partial-order reduction).  Each history is replayed on the real loader.
"""
import itertools
import os
import shutil
import sys
import tempfile
import types

from mc import core
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import FileLoader, PackageLoader  # noqa: E402

SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


class Files(object):
    """Scratch directory with a logical clock for modification times."""

    def __init__(self, dirs=('d1', 'd2')):
        self.root = tempfile.mkdtemp(prefix='mc-c12-', dir=SHM)
        self.up, self.down = 1500000000, 1400000000
        self.model = {}      # relative path -> (content, version) of the files that exist
        for d in dirs:
            os.mkdir(os.path.join(self.root, d))

    def path(self, rel):
        return os.path.join(self.root, rel)

    def stamp(self, rel, older=False):
        if older:
            self.down -= 10
            t = self.down
        else:
            self.up += 10
            t = self.up
        os.utime(self.path(rel), (t, t))

    def write(self, rel, content, older=False):
        # written elsewhere and moved into place, as editors and deployments do
        tmp = self.path('.new')
        with open(tmp, 'w') as f:
            f.write(content)
        os.rename(tmp, self.path(rel))
        self.stamp(rel, older)
        self.model[rel] = content

    def touch(self, rel):
        if rel in self.model:
            self.stamp(rel)

    def delete(self, rel):
        if rel in self.model:
            os.unlink(self.path(rel))
            del self.model[rel]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def attempt(f):
    """('ok', value) or ('io',) or ('error', text)"""
    try:
        return ('ok', f())
    except (IOError, OSError) as e:
        return ('io', repr(e)[:150])
    except Exception as e:
        return ('error', '%s: %s' % (type(e).__name__, str(e)[:150]))


KINDS = {
    'xml': ('a.xml', lambda v: '<a>%s</a>' % v, lambda v: '<a>%s</a>' % v, '<a>${', {}),
    'txt': ('a.txt', lambda v: 'text %s' % v, lambda v: 'text %s' % v, 'x ${1+}', {}),
    'html': ('a.html', lambda v: '<p>%s<br/></p>' % v, lambda v: '<p>%s<br></p>' % v, '<p>', {}),
    'html5': ('a.html5', lambda v: '<p>%s<br/></p>' % v, lambda v: '<!DOCTYPE html>\n<p>%s<br></p>' % v, '<p>$</q>', {}),
    'forced text': ('sub/a.any', lambda v: 'text <%s>' % v, lambda v: 'text <%s>' % v, '{%if x%}', {'force_mode': 'text'}),
    'forced html': ('a', lambda v: '<p>%s<hr/></p>' % v, lambda v: '<p>%s<hr></p>' % v, '<py:else/>', {'force_mode': 'html'}),
}


class OneName(Space):
    name = 'one name, two places'
    case_timeout = 30
    C1 = ['keep', 'new', 'old', 'broken', 'delete', 'touch']
    C2 = ['keep', 'new', 'delete']
    bound = ('all histories of 3 rounds (thorough: 4) over {nothing, newer version, version with an older time, broken '
             'source, deletion, touch} in the first and {nothing, new version, deletion} in the second directory of the '
             'path, two loads and a rendering per round; reloading on and off; six kinds of templates')

    def cases(self, tier):
        steps = list(itertools.product(self.C1, self.C2))
        for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
            for h in itertools.product(steps, repeat=n):
                for kind in ('xml', 'txt') if n > 2 else sorted(KINDS):
                    yield kind, h

    def run(self, case, st):
        for reload in (True, False):
            self.history(case, reload, st)

    def history(self, case, reload, st):
        kind, hist = case
        name, src, out, bad, opts = KINDS[kind]
        fs = Files(('d1', 'd2'))
        try:
            for d in ('d1/sub', 'd2/sub'):
                os.mkdir(fs.path(d))
            v = 0
            path = [fs.path('d1'), fs.path('d2')]
            loader = FileLoader(path if len(hist) % 2 else ';'.join(path), reload=reload, **opts)
            kept = None                 # reloading off: what was loaded first
            last = (None, None)         # class loaded last and identity of the file it came from
            log = []
            for c1, c2 in hist:
                for d, c in (('d1', c1), ('d2', c2)):
                    rel = d + '/' + name
                    v += 1
                    if c in ('new', 'old'):
                        fs.write(rel, src(d + str(v)), older=c == 'old')
                        fs.model[rel] = (d + str(v), v)
                    elif c == 'broken':
                        fs.write(rel, bad)
                        fs.model[rel] = (None, v)
                    elif c == 'touch':
                        fs.touch(rel)
                        if rel in fs.model:
                            fs.model[rel] = (fs.model[rel][0], v)
                    elif c == 'delete':
                        fs.delete(rel)
                log.append((c1, c2))
                found = [fs.model[r] + (r,) for r in ('d1/' + name, 'd2/' + name) if r in fs.model][:1]
                for again in (0, 1):
                    st.steps += 1
                    st.traces += 1
                    got = attempt(lambda: (loader.load if again else loader.import_)(name))
                    if not reload and kept is not None:
                        self.expect(got[0] == 'ok' and got[1] is kept[0], 'reloading is off, but the template was loaded again',
                                    log, got, kept)
                        continue
                    if not found or found[0][0] is None:
                        last = (None, None)
                    if not found:
                        self.expect(got[0] == 'io', 'a missing template is not reported as such', log, got, 'IOError')
                        continue
                    version, stamp, rel = found[0]
                    if version is None:
                        self.expect(got[0] == 'error', 'a broken template is loaded', log, got, 'an error')
                        continue
                    self.expect(got[0] == 'ok', 'a valid template cannot be loaded', log, got, version)
                    cls = got[1]
                    text = attempt(lambda: cls().render())
                    self.expect(text == ('ok', out(version)), 'not the current version', log, text, out(version))
                    if last[1] == (rel, stamp):
                        self.expect(cls is last[0], 'an unchanged file was compiled again', log, cls, last)
                    last = cls, (rel, stamp)
                    outcome(st, (kind, reload, version))
                    if not reload:
                        kept = cls, version
        finally:
            fs.close()

    def expect(self, ok, what, log, got, want):
        if not ok:
            raise Violation(what, source=repr(log), expected=repr(want)[:300], observed=repr(got)[:300])


# --- several names ------------------------------------------------------------------------

class TwoNames(Space):
    name = 'two names'
    case_timeout = 30
    OPS = ['wa', 'wb', 'da', 'db', 'xa', 'la', 'lb', 'sb']
    bound = ('all sequences of up to 6 (thorough: 7) operations out of: write a, write b, delete a, delete b, break a, load a, '
             'load b, shadow b; ending in a load')

    def cases(self, tier):
        for n in range(1, 7 if tier == 'quick' else 8):
            for h in itertools.product(self.OPS, repeat=n):
                # Only the last of consecutive file operations on one file counts, and those on different files commute
                if h[-1][0] != 'l' or any(x[0] != 'l' and y[0] != 'l' and x[1] >= y[1] for x, y in zip(h, h[1:])):
                    continue
                if h[0][0] in 'dx' and tier == 'quick':
                    continue
                if sum(1 for x in h if x[0] == 'l') < 2 and n > 4:
                    continue
                if n == 6 and tier == 'quick' and sum(1 for x in h if x[0] == 'l') < 3:
                    continue
                yield h

    def run(self, case, st):
        fs = Files(('d0', 'd1'))
        try:
            loader = FileLoader([fs.path('d0'), fs.path('d1')])
            v, last = 0, {}
            for op in case:
                v += 1
                n = op[1]
                rel = 'd1/%s.xml' % n
                if op[0] == 'w':
                    fs.write(rel, '<%s>%d</%s>' % (n, v, n))
                elif op[0] == 'x':
                    fs.write(rel, '<%s>' % n)
                elif op[0] == 's':
                    fs.write('d0/%s.xml' % n, '<%s>s%d</%s>' % (n, v, n))
                elif op[0] == 'd':
                    fs.delete('d0/%s.xml' % n if 'd0/%s.xml' % n in fs.model else rel)
                else:
                    st.steps += 1
                    st.traces += 1
                    got = attempt(lambda: loader.import_(n + '.xml'))
                    content = fs.model.get('d0/%s.xml' % n, fs.model.get(rel))
                    if content in (None, '<%s>' % n):
                        last.pop(n, None)
                    if content is None:
                        ok = got[0] == 'io'
                    elif content == '<%s>' % n:
                        ok = got[0] == 'error'
                    else:
                        ok = got[0] == 'ok' and got[1]().render() == content
                        if ok and n in last and last[n][1] == content:
                            ok = got[1] is last[n][0]
                        if ok:
                            last[n] = got[1], content
                    if not ok:
                        raise Violation('not the current version', source=repr(case), expected=content, observed=repr(got))
                    outcome(st, (n, content))
        finally:
            fs.close()


# --- dependencies -------------------------------------------------------------------------

class Deps(Space):
    """m extends l, includes p and imports q; l includes p."""
    name = 'dependencies'
    case_timeout = 30
    CH = {'m': ['A', 'B'], 'l': ['new', 'old', 'broken', 'delete'], 'p': ['new', 'broken', 'delete'], 'q': ['new', 'delete']}
    bound = ('templates extending l, including p and importing q: all histories of 2 rounds of up to two changes (quick: up to three in both rounds) and 3 rounds '
             '(thorough: 4) of up to one; per round a fresh load and rendering, a rendering of the class loaded '
             'first and of an instance created first; reloading on and off; XML and text')

    def cases(self, tier):
        one = [()] + [((f, c),) for f in 'mlpq' for c in self.CH[f]]
        two = one + [((f, c), (g, e)) for f, g in itertools.combinations('mlpq', 2) for c in self.CH[f] for e in self.CH[g]]
        for d in (0, 1):
            for first in ('A', 'B'):
                for h in itertools.product(two, two):
                    if tier == 'quick' and len(h[0]) == len(h[1]) == 2:
                        continue
                    yield d, first, h
                for h in itertools.product(one, repeat=3 if tier == 'quick' else 4):
                    yield d, first, h

    def source(self, d, f, kind, v):
        ext = ['xml', 'txt'][d]
        if d == 0:
            if f == 'm':
                blk = '%s<py:include href="p.xml"/>' % v
                if kind == 'A':
                    return '<py:extends href="l.xml"><py:block name="b">%s</py:block></py:extends>' % blk
                return '<m>%s<py:import href="q.xml"/>${q.f()}</m>' % blk
            if f == 'l':
                return '<l>%s<py:block name="b"/><py:include href="p.xml"/></l>' % v
            if f == 'p':
                return '<p>%s</p>' % v
            return '<q><py:def function="f()">%s</py:def></q>' % v
        if f == 'm':
            if kind == 'A':
                return '%%extends "l.txt"\n{%%block b%%}%s{%%include "p.txt"%%}{%%end%%}' % v
            return 'm%s{%%include "p.txt"%%}{%%import "q.txt"%%}${q.f()}' % v
        if f == 'l':
            return 'l%s{%%block b%%}{%%end%%}{%%include "p.txt"%%}' % v
        if f == 'p':
            return 'p%s' % v
        return 'q{%%def f()%%}%s{%%end%%}' % v

    def expected(self, d, m, files):
        """Rendering of version m = (kind, v) of the main template, or 'io' / 'error'."""
        kind, v = m
        wrap = (lambda t, s: '<%s>%s</%s>' % (t, s, t)) if d == 0 else (lambda t, s: t + s)
        order = ['l', 'p'] if kind == 'A' else ['p', 'q']
        for f in order:
            if f not in files:
                return ('io',)
            if files[f] == 'broken':
                return ('error',)
        p = wrap('p', files['p'])
        if kind == 'A':
            return ('ok', wrap('l', files['l'] + v + p + p))
        return ('ok', wrap('m', v + p + files['q']))

    def run(self, case, st):
        for reload in (True, False):
            self.history(case, reload, st)

    def history(self, case, reload, st):
        d, first, hist = case
        ext = ['xml', 'txt'][d]
        fs = Files(('d1', 'd2'))
        place = dict(m='d1/m.', l='d2/l.', p='d1/p.', q='d2/q.')
        try:
            files, v = {}, 0

            def write(f, kind, old=False):
                if kind == 'broken':
                    fs.write(place[f] + ext, '<l>${x' if d == 0 else 'x ${1+}')
                    files[f] = 'broken'
                else:
                    ver = f + str(v)
                    fs.write(place[f] + ext, self.source(d, f, kind, ver), old)
                    files[f] = (kind, ver) if f == 'm' else ver
            for f in 'mlpq':
                v += 1
                write(f, first if f == 'm' else 'new')
            loader = FileLoader([fs.path('d1'), fs.path('d2')], reload=reload)
            name = 'm.' + ext
            held = loader.import_(name)
            heldm = files['m']
            inst = held({})
            loaded = {}             # reloading off: versions in the cache
            if not reload:
                loaded['m'] = heldm
            for rnd in ((),) + hist:
                for f, c in rnd:
                    v += 1
                    if c == 'delete':
                        fs.delete(place[f] + ext)
                        files.pop(f, None)
                    else:
                        write(f, c, c == 'old')
                for what in ('fresh', 'held', 'instance', 'fresh'):
                    st.steps += 1
                    st.traces += 1
                    view = dict(files)
                    view.update(loaded)
                    m = view.get('m') if what == 'fresh' else heldm
                    want = ('io',) if m is None else self.expected(d, m, view)
                    if not reload:
                        loaded.update((f, view[f]) for f in 'mlpq' if view.get(f, 'broken') != 'broken' and (
                            f == 'm' or f in self.touched(m, view)))
                    if what == 'fresh':
                        got = attempt(lambda: loader.import_(name)({}).render())
                    elif what == 'held':
                        got = attempt(lambda: held({}).render())
                    else:
                        got = attempt(inst.render)
                    if got != want if want[0] == 'ok' else got[0] != want[0]:
                        raise Violation('%s rendering differs from the current files (reload=%s)' % (what, reload),
                                        source=repr((first, hist, rnd)), context=repr(files), expected=repr(want),
                                        observed=repr(got))
                    outcome(st, got[:1] if got[0] != 'ok' else got)
        finally:
            fs.close()

    def touched(self, m, view):
        """Dependencies that rendering m loads, in order, up to the first failure."""
        if m is None:
            return []
        out = []
        for f in ['l', 'p'] if m[0] == 'A' else ['p', 'q']:
            if view.get(f, 'broken') == 'broken':
                break
            out.append(f)
        return out


# --- package loader -----------------------------------------------------------------------

class Packages(Space):
    name = 'package loader'
    case_timeout = 30
    serial = False
    EXTS = ['xml', 'html', 'html5', 'txt']
    bound = ('PackageLoader: all histories of 3 rounds (thorough: 4) over {write, delete, break} x {xml, html, html5, txt} with a load '
             'per round, of one or two templates of a package; reloading on and off')

    def cases(self, tier):
        ops = [(o, e) for e in self.EXTS for o in 'wd'] + [('x', 'xml'), ('x', 'txt'), ('n', '')]
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for h in itertools.product(ops, repeat=n):
                yield h

    def run(self, case, st):
        for reload in (True, False):
            self.history(case, reload, st)

    counter = 0

    def history(self, case, reload, st):
        Packages.counter += 1
        pkg = 'mcpkg%d' % Packages.counter
        fs = Files((pkg,))
        sys.path.insert(0, fs.root)
        try:
            fs.write(pkg + '/__init__.py', '')
            fs.write(pkg + '/b.xml', '<b/>')
            loader = PackageLoader(reload=reload)
            v, kept, last = 0, None, None
            for op, ext in case:
                v += 1
                rel = '%s/a.%s' % (pkg, ext)
                if op == 'w':
                    fs.write(rel, 'text %d' % v if ext == 'txt' else '<p>%d<br/></p>' % v)
                elif op == 'x':
                    fs.write(rel, '${x')
                elif op == 'd':
                    fs.delete(rel)
                st.steps += 1
                st.traces += 1
                got = attempt(lambda: loader.import_(pkg + '.a'))
                if kept is not None:
                    ok = got[0] == 'ok' and got[1] is kept
                    want = 'the version loaded first'
                else:
                    cur = [(e, fs.model['%s/a.%s' % (pkg, e)]) for e in self.EXTS if '%s/a.%s' % (pkg, e) in fs.model]
                    if not cur or cur[0][1] == '${x':
                        last = None
                    if not cur:
                        ok, want = got[0] == 'io', 'IOError'
                    elif cur[0][1] == '${x':
                        ok, want = got[0] == 'error', 'an error'
                    else:
                        e, s = cur[0]
                        want = {'txt': s, 'xml': s, 'html': s.replace('/>', '>'),
                                'html5': '<!DOCTYPE html>\n' + s.replace('/>', '>')}[e]
                        ok = got[0] == 'ok' and got[1]().render() == want
                        if ok and last is not None and last[1] == cur[0]:
                            ok, want = got[1] is last[0], 'not compiled again'
                        if ok:
                            last = got[1], cur[0]
                            if not reload:
                                kept = got[1]
                if not ok:
                    raise Violation('the package loader does not serve the current template', source=repr(case),
                                    context='reload=%s' % reload, expected=want, observed=repr(got))
                outcome(st, want)
                other = loader.import_(pkg + '.b')
                if other().render() != '<b/>':
                    raise Violation('another template of the package is served', source=repr(case))
        finally:
            sys.path.remove(fs.root)
            sys.modules.pop(pkg, None)
            fs.close()


# --- Pyramid ------------------------------------------------------------------------------

def stub_modules():
    """The frameworks are not installed; the integration module only needs these names."""
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        return m

    class _I(object):
        pass

    def asbool(v):
        return str(v).lower() in ('true', 'yes', 'on', 'y', 't', '1')

    def implementer(*i):
        return lambda cls: cls

    if 'kajiki.integration.pyramid' in sys.modules:
        return sys.modules['kajiki.integration.pyramid']
    for n in ('paste', 'paste.deploy', 'zope', 'pyramid'):
        module(n)
    module('paste.deploy.converters', asbool=asbool)
    module('zope.interface', implementer=implementer)
    module('pyramid.interfaces', IRenderer=_I, ITemplateRenderer=_I)
    module('pyramid.resource', abspath_from_resource_spec=lambda spec, pname='__main__': resolve(spec))
    import importlib
    return importlib.import_module('kajiki.integration.pyramid')


ROOT = [None]


def resolve(spec):
    if ':' not in spec:
        return spec if os.path.isabs(spec) else os.path.join(ROOT[0], spec)
    return os.path.join(ROOT[0], *spec.split(':', 1))


class Registry(object):
    pass


class Config(object):
    def __init__(self, settings):
        self.registry, self.settings, self.renderers = Registry(), settings, {}

    def get_settings(self):
        return self.settings

    def add_renderer(self, ext, factory):
        self.renderers[ext] = factory


class Info(object):
    def __init__(self, name, registry):
        self.name, self.registry, self.type, self.package, self.settings = name, registry, '.kajiki', None, {}


class Pyramid(Space):
    name = 'Pyramid loader'
    case_timeout = 30
    OPS = ['wm', 'wp', 'xm', 'dm', 'om', 'n']
    bound = ('the Pyramid renderer (framework modules replaced by stubs): all histories of 5 rounds (thorough: 6) over {write page, '
             'write part, break page, delete page, older page, nothing}, a rendering per round; auto_reload on and off; modes')

    def cases(self, tier):
        for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
            for h in itertools.product(self.OPS, repeat=n):
                yield h

    def run(self, case, st):
        mod = stub_modules()
        for auto in ('true', 'false'):
            for mode in ('html5', 'xml') if len(case) < 4 else (('html5', 'xml')[len(case) % 2],):
                self.history(mod, case, auto, mode, st)

    def history(self, mod, case, auto, mode, st):
        fs = Files(('app',))
        ROOT[0] = fs.root
        try:
            settings = {'pyramid.reload_templates': auto, 'kajiki.extensions': '.kajiki .k2', 'kajiki.mode': mode}
            if mode == 'html5':
                del settings['kajiki.mode']     # the default
            config = Config(settings)
            mod.includeme(config)
            mod.includeme(config)
            if sorted(config.renderers) != ['.k2', '.kajiki']:
                raise Violation('extensions', observed=sorted(config.renderers))
            render = config.renderers['.kajiki'](Info('app:m.kajiki', config.registry))
            v = 0
            fs.write('app/p.kajiki', '<i>p0<hr/>$who</i>')
            cache = {}
            for op in case:
                v += 1
                if op in ('wm', 'om'):
                    fs.write('app/m.kajiki', '<b>%d$who<py:include href="app:p.kajiki"/></b>' % v, op == 'om')
                elif op == 'wp':
                    fs.write('app/p.kajiki', '<i>p%d<hr/>$who</i>' % v)
                elif op == 'xm':
                    fs.write('app/m.kajiki', '<b>')
                elif op == 'dm':
                    fs.delete('app/m.kajiki')
                st.steps += 1
                st.traces += 1
                view = dict(fs.model)
                if auto == 'false':
                    view.update(cache)
                system = {'renderer_name': 'app:m.kajiki', 'request': None, 'view': None, 'context': None}
                got = attempt(lambda: render({'who': 'W%d&' % v}, system))
                m = view.get('app/m.kajiki')
                if m is None:
                    want = ('io',)
                elif m == '<b>':
                    want = ('error',)
                else:
                    cache['app/m.kajiki'], cache['app/p.kajiki'] = m, view['app/p.kajiki']
                    text = m.replace('<py:include href="app:p.kajiki"/>', view['app/p.kajiki']).replace('$who', 'W%d&amp;' % v)
                    if mode == 'html5':
                        text = '<!DOCTYPE html>\n' + text.replace('/>', '>')
                    want = ('ok', text)
                if got != want if want[0] == 'ok' else got[0] != want[0]:
                    raise Violation('the Pyramid renderer does not serve the current template', source=repr(case),
                                    context='auto_reload=%s' % auto, expected=want, observed=got)
                outcome(st, want)
        finally:
            fs.close()


# --- faults and changes at every point of a load ----------------------------------------------

class Injected(Exception):
    pass


def traced(f, at, action, depth_all):
    """Run f(); call action() at the at-th executed line of kajiki code.  Returns (result, lines executed)."""
    count = [0]
    repo = os.path.join(core.REPO, 'kajiki') + os.sep
    loader_files = (os.path.join(core.REPO, 'kajiki', 'loader.py'),)

    def line(frame, event, arg):
        if event in ('line', 'return'):
            count[0] += 1
            if count[0] == at:
                action()
        return line

    def call(frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(repo):
            return None
        line(frame, 'line', arg)
        return line if depth_all or fn in loader_files else None
    old = sys.gettrace()
    sys.settrace(call)
    try:
        r = attempt(f)
    finally:
        sys.settrace(old)
    return r, count[0]


class Interference(Space):
    name = 'change or fault at every line of a load'
    case_timeout = 120
    bound = ('while a template is loaded (for the first time, again after a change, after a failed load): at every executed line '
             '(quick: every line of the loader and every function call of the compiler) the file is replaced, broken, deleted or shadowed, or an exception is raised; the load gives the old or '
             'the new state, the next one the new state')
    ACTIONS = ['replace', 'break', 'delete', 'shadow', 'raise']
    BEFORE = ['first', 'changed', 'unchanged', 'was broken', 'was missing']

    def cases(self, tier):
        for ext in ('xml', 'txt'):
            for before in self.BEFORE:
                for action in self.ACTIONS:
                    for part in range(16):
                        yield ext, before, action, part, tier != 'quick'

    def run(self, case, st):
        core.jit_off()
        ext, before, action, part, full = case
        total = self.point(case, 0, st)
        for at in range(1 + part, total + 1, 16):
            self.point(case, at, st)

    def point(self, case, at, st):
        ext, before, action, part, full = case
        fs = Files(('d0', 'd1'))
        name, rel = 'a.' + ext, 'd1/a.' + ext

        def src(v):
            if ext == 'xml':
                return '<a py:with="x=1">%s<py:for each="i in [1]">${x}</py:for></a>' % v
            return '%s\n%%for i in [1]\n${i}\n%%end\n' % v

        def out(v):
            return '<a>%s1</a>' % v if ext == 'xml' else '%s\n1\n' % v
        bad = '<a>${' if ext == 'xml' else 'x\n${1+}'
        try:
            loader = FileLoader([fs.path('d0'), fs.path('d1')])
            if before == 'was broken':
                fs.write(rel, bad)
                attempt(lambda: loader.import_(name))
            elif before == 'was missing':
                attempt(lambda: loader.import_(name))
            elif before in ('changed', 'unchanged'):
                fs.write(rel, src('v1'))
                loader.import_(name)
            if before != 'unchanged':
                fs.write(rel, src('v2'))
            old = ('ok', out('v1' if before == 'unchanged' else 'v2'))

            def act():
                if action == 'replace':
                    fs.write(rel, src('v3'))
                elif action == 'break':
                    fs.write(rel, bad)
                elif action == 'delete':
                    fs.delete(rel)
                elif action == 'shadow':
                    fs.write('d0/' + name, src('v4'))
                else:
                    raise Injected('injected')
            new = {'replace': ('ok', out('v3')), 'break': ('error',), 'delete': ('io',), 'shadow': ('ok', out('v4')),
                   'raise': old}[action]
            got, lines = traced(lambda: loader.import_(name), at, act, full)
            if at == 0:
                return lines
            st.steps += 1
            st.traces += 1
            show = repr((ext, before, action, 'line event %d of %d' % (at, lines)))
            first = got
            if got[0] == 'ok':
                got = attempt(lambda: got[1]().render())
            allowed = [old, new]
            if action == 'raise':
                if got[0] != 'error' or 'Injected' not in got[1]:
                    # swallowed by the library: then the result must be right
                    if got != old:
                        raise Violation('a failed load returns something wrong', source=show, expected=repr(old), observed=repr(got))
            elif not any(got == a if a[0] == 'ok' else got[0] == a[0] for a in allowed):
                if action in ('delete', 'break') and got[0] != 'ok':
                    pass            # some other error: the file was gone in the middle of it
                else:
                    raise Violation('a load during a change returns neither the old nor the new version', source=show,
                                    expected=repr(allowed), observed=repr(got))
            for i in (1, 2):
                got = attempt(lambda: loader.import_(name)().render())
                if got != new if new[0] == 'ok' else got[0] != new[0]:
                    raise Violation('load no. %d after the %s does not give the current version' % (i, action), source=show,
                                    expected=repr(new), observed=repr(got))
            outcome(st, (first[0], got))
            return lines
        finally:
            fs.close()


class Settings(Space):
    name = 'names and settings'
    STEMS = ['a', 'A', 'a.b', 'a.html.b', 'sub/a', 'sub.d/a', 'sub/deep/a.b', '.a', 'a b', 'a-b', 'a;b', '1', 'a.txt.']
    EXTS = ['xml', 'html', 'html5', 'txt']
    PATHS = ['string', 'semicolons', 'list', 'tuple', 'relative', 'trailing slash']
    bound = ('%d file names (folders, several dots, blanks, capitals) x 4 extensions x force_mode (5) x kinds of the path argument (%d) x reload '
             'x autoescape_text: the file first on the path is rendered in the mode of the loader or of its extension, again after a change, '
             'and a name that differs in any way is not found' % (len(STEMS), len(PATHS)))

    def cases(self, tier):
        for stem in self.STEMS:
            for ext in self.EXTS:
                for path in self.PATHS:
                    yield stem, ext, path

    def run(self, case, st):
        stem, ext, path = case
        for force in (None, 'text', 'xml', 'html', 'html5'):
            for reload in (True, False):
                for auto in (False, True):
                    self.one(stem, ext, path, force, reload, auto, st)

    def one(self, stem, ext, path, force, reload, auto, st):
        fs = Files(('d1', 'd2'))
        cwd = os.getcwd()
        try:
            name = stem + '.' + ext
            for d in ('d1', 'd2'):
                folder = os.path.dirname(fs.path(d + '/' + name))
                if not os.path.isdir(folder):
                    os.makedirs(folder)
            body = '<p q="1">%s$v<br/></p>'
            mode = force or (ext if ext != 'txt' else 'text')

            def want(v):
                if mode == 'text':
                    return '<p q="1">%s%s<br/></p>' % (v, '&amp;' if auto else '&')
                return {'html5': '<!DOCTYPE html>\n'}.get(mode, '') + '<p q="1">%s&amp;<br%s></p>' % (v, '/' if mode == 'xml' else '')
            p = [fs.path('d1'), fs.path('d2')]
            arg = {'string': p[1], 'semicolons': ';'.join(p), 'list': p, 'tuple': tuple(p), 'relative': ['d1', 'd2'],
                   'trailing slash': p[0] + '/;' + p[1] + '/'}[path]
            if path == 'relative':
                os.chdir(fs.root)
            loader = FileLoader(arg, reload=reload, force_mode=force, autoescape_text=auto)
            fs.write('d2/' + name, body % 'two')
            # files that must not be taken for it
            others = [n for n in (name + 'x', 'x' + os.path.basename(name), name.swapcase(), stem) if not os.path.exists(fs.path('d1/' + n))]
            for n in others:
                if os.path.isdir(os.path.dirname(fs.path('d1/' + n))):
                    with open(fs.path('d1/' + n), 'w') as f:
                        f.write('<other/>')

            def expect(w):
                st.traces += 1
                st.steps += 1
                got = attempt(lambda: loader.import_(name)({'v': '&'}).render())
                if got != w if w[0] == 'ok' else got[0] != w[0]:
                    raise Violation('the wrong file or mode', source=repr((name, arg)), context='force_mode=%r reload=%r autoescape_text=%r' % (force, reload, auto),
                                    expected=repr(w), observed=repr(got))
                outcome(st, w)
            expect(('ok', want('two')))
            if path != 'string':
                fs.write('d1/' + name, body % 'one')
                expect(('ok', want('one' if reload else 'two')))
                fs.delete('d1/' + name)
                expect(('ok', want('two')))
            fs.delete('d2/' + name)
            expect(('io',) if reload else ('ok', want('two')))
        finally:
            os.chdir(cwd)
            fs.close()


class Spellings(Space):
    name = 'names that look alike'
    NAMES = ['a.xml', 'A.xml', 'a.Xml.xml', 'a.html', 'a.txt', 'b.xml', 'd/a.xml', 'D/a.xml', 'd/d/a.xml', 'd.xml', 'aa.xml', 'a .xml', ' a.xml', 'a_.xml', 'a-.xml', 'a.xml.xml', 'a.b.xml', 'xa.xml']
    bound = ('all ordered pairs (thorough: triples) of %d names that differ in case, folder, extension, white space or a letter: loaded from one loader, changed one by one, '
             'loaded again, with reloading on and off' % len(NAMES))

    def cases(self, tier):
        for t in itertools.permutations(range(len(self.NAMES)), 2 if tier == 'quick' else 3):
            yield t

    def describe(self, case):
        return repr([self.NAMES[i] for i in case])

    def run(self, case, st):
        names = [self.NAMES[i] for i in case]
        for reload in True, False:
            fs = Files(('d1',))
            try:
                for d in ('d1/d', 'd1/D', 'd1/d/d'):
                    os.mkdir(fs.path(d))
                for i, n in enumerate(names):
                    fs.write('d1/' + n, '<p>%d</p>' % i)
                loader = FileLoader(fs.path('d1'), reload=reload)
                current = dict((n, '<p>%d</p>' % i) for i, n in enumerate(names))
                classes = {}

                def look(log):
                    for n in names:
                        st.traces += 1
                        st.steps += 1
                        got = attempt(lambda: loader.import_(n))
                        text = got if got[0] != 'ok' else attempt(lambda: got[1]().render())
                        if text != ('ok', current[n]):
                            raise Violation('not the current template of that name', source=repr(names), context='reload=%s %s %s' % (reload, log, n), expected=current[n], observed=repr(text))
                        if n in classes and got[1] is not classes[n]:
                            raise Violation('an unchanged file was compiled again', source=repr(names), context='reload=%s %s %s' % (reload, log, n), expected='', observed='')
                        classes[n] = got[1]
                look('first')
                look('second')
                for i, n in enumerate(names):
                    fs.write('d1/' + n, '<p>%d new</p>' % i)
                    if reload:
                        current[n] = '<p>%d new</p>' % i
                        del classes[n]
                    look('after the change of %s' % n)
                outcome(st, (tuple(names), reload))
            finally:
                fs.close()


class Many(Space):
    name = 'many templates'
    bound = ('a loader with n templates (n = 1, 2, 3, 10, 60, 300; thorough: 3000), alone or each including the one before: loaded twice in order, in reverse, and after every '
             '7th was changed; reloading on and off; each renders its current (or, with reloading off, first) version and none is compiled without need')

    def cases(self, tier):
        for n in (1, 2, 3, 10, 60, 300) + (() if tier == 'quick' else (3000,)):
            for ext in ('xml', 'txt', 'html'):
                for linked in (False, True):
                    yield n, ext, linked

    def run(self, case, st):
        count, ext, linked = case
        for reload in True, False:
            fs = Files(('d1',))
            try:
                name = lambda i: 'n%d.%s' % (i, ext)

                def source(i, v):
                    # the included one is rendered as well, unless the chain gets too long
                    if linked and i % 10:
                        return ('{%%include %s%%}+%d.%s' if ext == 'txt' else '<p><py:include href="%s"/>+%d.%s</p>') % (name(i - 1), i, v)
                    return ('%d.%s' if ext == 'txt' else '<p>%d.%s</p>') % (i, v)

                def output(i, vs):
                    body = '%d.%s' % (i, vs[i])
                    if linked and i % 10:
                        body = output(i - 1, vs) + '+' + body
                    return body if ext == 'txt' else '<p>%s</p>' % body
                vs = dict((i, 'a') for i in range(count))
                for i in range(count):
                    fs.write('d1/' + name(i), source(i, 'a'))
                loader = FileLoader(fs.path('d1'), reload=reload)
                classes = {}

                def look(order, when):
                    for i in order:
                        st.traces += 1
                        st.steps += 1
                        cls = loader.import_(name(i))
                        got = attempt(lambda: cls().render())
                        if got != ('ok', output(i, vs)):
                            raise Violation('not the current version', source=repr(case), context='reload=%s, %s, number %d' % (reload, when, i), expected=output(i, vs), observed=repr(got))
                        if i in classes and cls is not classes[i]:
                            raise Violation('an unchanged file was compiled again', source=repr(case), context='reload=%s, %s, number %d' % (reload, when, i), expected='', observed='')
                        classes[i] = cls
                look(range(count), 'first')
                look(range(count), 'second')
                look(range(count - 1, -1, -1), 'in reverse')
                for i in range(0, count, 7):
                    fs.write('d1/' + name(i), source(i, 'b'))
                    if reload:
                        vs[i] = 'b'
                        classes.pop(i)
                look(range(count), 'after changes')
                look(range(count - 1, -1, -1), 'after changes, in reverse')
                outcome(st, (case, reload))
            finally:
                fs.close()


class Encodings(Space):
    name = 'encodings'
    ENC = ['utf-8', 'latin-1', 'cp1251', 'utf-16', 'shift_jis', 'ascii']
    TEXT = {'utf-8': u'\u20ac\xe9\u65e5', 'latin-1': u'\xe9\xff\xa0', 'cp1251': u'\u0416\u044f', 'utf-16': u'\xe9\u65e5', 'shift_jis': u'\u65e5\u672c', 'ascii': u'a'}
    bound = ('%d encodings x (default of the loader, option of the loader, argument of the load by keyword or position, both) x extension x force_mode x reload after a '
             'change; the encoding of a load is for text templates, that of the loader for all' % len(ENC))

    def cases(self, tier):
        for enc in self.ENC:
            for how in ('default', 'loader', 'load', 'positional', 'both'):
                for ext in ('txt', 'xml', 'html'):
                    for force in (None, 'text', 'xml'):
                        if how == 'default' and enc not in ('utf-8', 'ascii'):
                            continue
                        if how in ('load', 'positional', 'both') and (force or ext) not in ('text', 'txt'):
                            continue
                        yield enc, how, ext, force

    def run(self, case, st):
        enc, how, ext, force = case
        fs = Files(('d1',))
        try:
            kw = {'loader': {'encoding': enc}, 'both': {'encoding': 'utf-16' if enc != 'utf-16' else 'ascii'}}.get(how, {})
            loader = FileLoader(fs.path('d1'), force_mode=force, **kw)
            load = {'load': lambda: loader.import_('a.' + ext, encoding=enc), 'both': lambda: loader.import_('a.' + ext, encoding=enc),
                    'positional': lambda: loader.import_('a.' + ext, enc)}.get(how, lambda: loader.import_('a.' + ext))
            for v in ('1', '2'):
                fs.write('d1/a.' + ext, '')
                body = u'<p>%s$v %s</p>' % (self.TEXT[enc], v)
                with open(fs.path('d1/a.' + ext), 'wb') as f:
                    f.write(body.encode(enc))
                fs.stamp('d1/a.' + ext)
                want = ('ok', body.replace('$v', 'V'))
                got = attempt(lambda: load()({'v': 'V'}).render())
                st.traces += 1
                st.steps += 1
                if got != want:
                    raise Violation('the encoding of a template file', source=body, context=repr(case), expected=repr(want), observed=repr(got))
                outcome(st, want)
        finally:
            fs.close()


def spaces():
    return [Spellings(), Many(), Encodings(), Settings(), OneName(), TwoNames(), Deps(), Packages(), Pyramid(), Interference()]


ASSUMPTIONS = ['two different contents of one file never carry the same modification time (the loaders compare times)',
               'files are replaced atomically (written elsewhere and renamed), as long as a load is under way',
               'the third-party modules that the Pyramid integration imports are replaced by stubs with the documented behaviour']
