"""C20: the framework plugins render what direct use of the template renders.

All combinations of settings, values and call forms of the Pyramid renderer and of the TurboGears 1 plugin, and all short
histories of calls; the oracle is the output written down by hand (a function of mode, values and file version).
The frameworks themselves are not installed; the four names that the Pyramid module imports from them are stubs.
"""
import itertools
import os
import sys

from mc import core
from mc.c12 import Config, Files, Info, ROOT, stub_modules
from mc.core import Space, Violation, outcome

core.setup_repo()
from kajiki import PackageLoader, XMLTemplate, TextTemplate  # noqa: E402
from kajiki.integration import turbogears1  # noqa: E402


def attempt(f):
    try:
        return ('ok', f())
    except Exception as e:
        return (type(e).__name__, isinstance(e, ValueError), str(e)[:200])


class Odd(object):
    """Shows up in the output as itself."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return '<%s>' % self.n


class Mapping(dict):
    pass


BODY = '<p a="$who">$who ${value_of("request", "-")} ${value_of("view", "-")} ${value_of("extra", "-")}<br/><b py:if="who">y</b></p>'


def esc(v):
    return '' if v is None else str(v).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def expected(mode, who, request='-', view='-', extra='-', fragment=False, version=''):
    s = '<p%s>%s %s %s %s<br%s>%s%s</p>' % (
        '' if who is None else ' a="%s"' % esc(who), esc(who), esc(request), esc(view), esc(extra), '/' if mode == 'xml' else '',
        '<b>y</b>' if who else '', version)
    return ('<!DOCTYPE html>\n' if mode == 'html5' and not fragment else '') + s


# --- Pyramid -----------------------------------------------------------------------------------

WHO = ['w', 'a<b>&"', '', None, 0, Odd(1)]
EXTS = [None, '.kajiki', '.kajiki .genshi', ' .a\n.b  .c ', '.html', '.Kajiki .KAJIKI .x', '.a.b .x-y_z .1', '.z .a .m .k .Z', '.kajiki2 .kajik .kajiki']
BAD = [None, 1, 'abc', 1.5, object(), ['abc'], (1, 2), True, [1], 'a', {1, 2}]


class PyramidSettings(Space):
    name = 'Pyramid: settings and values'
    bound = ('extensions (%d) x mode (4) x reload_templates (5) x name given as renderer_name, as renderer_info or both x values (%d, overriding the '
             'values of the framework or not, dictionaries and subclasses) x page or fragment; %d results that are no dictionaries'
             % (len(EXTS), len(WHO), len(BAD)))

    def cases(self, tier):
        for ext in range(len(EXTS)):
            for mode in (None, 'html5', 'html', 'xml'):
                for reload in (None, 'true', 'false', True, False):
                    yield ext, mode, reload

    def run(self, case, st):
        mod = stub_modules()
        e, mode, reload = case
        fs = Files(('app',))
        ROOT[0] = fs.root
        try:
            settings = {}
            for k, v in (('kajiki.extensions', EXTS[e]), ('kajiki.mode', mode), ('pyramid.reload_templates', reload)):
                if v is not None:
                    settings[k] = v
            config = Config(settings)
            mod.includeme(config)
            first = config.registry.kajiki_loader
            mod.includeme(config)
            exts = (EXTS[e] or '.kajiki').split()
            if sorted(config.renderers) != sorted(exts) or config.registry.kajiki_loader is not first:
                raise Violation('registered extensions', source=repr(settings), expected=exts, observed=sorted(config.renderers))
            for x in exts:
                fs.write('app/m' + x, BODY)
                fs.write('app/f' + x, BODY)
                info = Info('app:m' + x, config.registry)
                render = config.renderers[x](info)
                for w, form, over, cls in itertools.product(range(len(WHO)), ('name', 'info', 'both'), (0, 1, 2), (dict, Mapping)):
                    who = WHO[w]
                    system = {'view': 'V', 'request': 'R', 'context': 'C'}
                    if form != 'info':
                        system['renderer_name'] = 'app:m' + x
                    if form != 'name':
                        system['renderer_info'] = info if form == 'info' else Info('app:missing', config.registry)
                    value = cls({'who': who})
                    if over:
                        value['request'] = 'mine'
                    if over == 2:
                        value['view'] = None
                    self.expect(st, settings, value, ('ok', expected(mode or 'html5', who, 'mine' if over else 'R', None if over == 2 else 'V')),
                                attempt(lambda: render(value, system)))
                for v in BAD:
                    got = attempt(lambda: render(v, {'renderer_name': 'app:m' + x, 'request': None}))
                    if got[0] != 'ValueError':
                        self.expect(st, settings, repr(v), ('ValueError', True), got)
                    st.traces += 1
                for who in WHO:
                    class V(object):
                        request = 'VR'

                        def __str__(self):
                            return 'V'
                    for kw, r, vw in (({'view': V()}, 'VR', 'V'), ({'request': 'Q'}, 'Q', None), ({'request': 'Q', 'view': V()}, 'Q', 'V')):
                        got = attempt(lambda: config.registry.kajiki_loader.fragment('app:f' + x, {'who': who}, **kw))
                        self.expect(st, settings, 'fragment %r' % (who,), ('ok', expected(mode or 'html5', who, r, vw, fragment=True)), got)
        finally:
            fs.close()

    def expect(self, st, settings, value, want, got):
        st.traces += 1
        st.steps += 1
        if got != want:
            raise Violation('the Pyramid renderer', source=BODY, context='%r %r' % (settings, value), expected=repr(want), observed=repr(got))
        outcome(st, repr(want))


class PyramidHistories(Space):
    name = 'Pyramid: histories of requests'
    OPS = ['a', 'b', 'bad', 'fail', 'missing', 'frag']
    bound = ('all sequences of up to 5 (thorough: 6) of: a request with one set of values, with another, with a result that is no dictionary, '
             'one whose rendering fails, for a missing template, a fragment: each gives what it gives alone')

    def cases(self, tier):
        for n in range(1, 6 if tier == 'quick' else 7):
            for h in itertools.product(self.OPS, repeat=n):
                yield h

    def run(self, case, st):
        mod = stub_modules()
        fs = Files(('app',))
        ROOT[0] = fs.root
        try:
            fs.write('app/m.kajiki', BODY)
            fs.write('app/f.kajiki', BODY)
            fs.write('app/e.kajiki', '<p>${1/who}$extra</p>')
            config = Config({'pyramid.reload_templates': str(len(case) % 2 == 0), 'kajiki.mode': 'html5'})
            mod.includeme(config)
            render = config.renderers['.kajiki'](Info('x', config.registry))
            for op in case:
                sys_ = lambda n: {'renderer_name': 'app:%s.kajiki' % n, 'request': 'R', 'view': 'V'}
                if op == 'a':
                    got, want = attempt(lambda: render({'who': 'A'}, sys_('m'))), ('ok', expected('html5', 'A', 'R', 'V'))
                elif op == 'b':
                    got = attempt(lambda: render({'who': 'B', 'extra': 'E', 'view': 'W'}, sys_('m')))
                    want = ('ok', expected('html5', 'B', 'R', 'W', 'E'))
                elif op == 'bad':
                    got, want = attempt(lambda: render(5, sys_('m')))[:2], ('ValueError', True)
                elif op == 'fail':
                    got, want = attempt(lambda: render({'who': 0, 'extra': 1}, sys_('e')))[0], 'ZeroDivisionError'
                elif op == 'missing':
                    got, want = attempt(lambda: render({'who': 'A'}, sys_('none')))[0] in ('IOError', 'OSError', 'FileNotFoundError'), True
                else:
                    got = attempt(lambda: config.registry.kajiki_loader.fragment('app:f.kajiki', {'who': 'F'}, request='Q'))
                    want = ('ok', expected('html5', 'F', 'Q', None, fragment=True))
                st.steps += 1
                st.traces += 1
                if got != want:
                    raise Violation('a request depends on earlier ones', source=repr(case), context=op, expected=repr(want), observed=repr(got))
            outcome(st, repr(case[-1:]))
        finally:
            fs.close()


# --- TurboGears 1 ------------------------------------------------------------------------------

class Recording(PackageLoader):
    made = []

    def __init__(self, **kw):
        Recording.made.append(kw)
        super(Recording, self).__init__(**kw)


TEXTBODY = '<p>$who & ${value_of("extra", "-")}\n%if who\ny\n%end\n'
_n = [0]


def package(fs, files):
    _n[0] += 1
    name = 'mctg%d_%d' % (os.getpid(), _n[0])
    os.mkdir(fs.path(name))
    fs.write(name + '/__init__.py', '')
    for f, s in files.items():
        fs.write(name + '/' + f, s)
    sys.path.insert(0, fs.root)
    return name


def done(fs, name):
    sys.path.remove(fs.root)
    sys.modules.pop(name, None)
    fs.close()


BADLOADERS = ['x', 'no.such.Loader', 'kajiki.loader.Nope', 'kajiki.', '.Loader', 'mc.c20.', 'os']


class TurboGears(Space):
    name = 'TurboGears: settings and values'
    LOADERS = [None, '', 'kajiki.loader.PackageLoader', 'kajiki.PackageLoader', 'mc.c20.Recording']
    bound = ('force_mode (6) x loader_class (%d valid, %d invalid) x reload (3) x extra variables (none, empty, new, overriding) x template by name, as a '
             'class, from a string x values (%d) x render or transform; no options at all' % (len(LOADERS), len(BADLOADERS), len(WHO)))

    def cases(self, tier):
        for force in (None, '', 'txt', 'xml', 'html', 'html5'):
            for ext in ('xml', 'html', 'html5', 'txt'):
                for loader in range(len(self.LOADERS)):
                    yield force, ext, loader
        for bad in BADLOADERS:
            yield 'bad', bad, 0

    def run(self, case, st):
        force, ext, loader = case
        if force == 'bad':
            got = attempt(lambda: turbogears1.XMLTemplateEnginePlugin(None, {'kajiki.loader_class': ext}))
            st.traces += 1
            if got[0] != 'ConfigurationError':
                raise Violation('a loader class that cannot be imported', source=ext, expected='ConfigurationError', observed=repr(got))
            return
        mode = {'txt': 'text'}.get(force or ext, force or ext)
        if mode == 'text':
            body = TEXTBODY
        elif ext == 'txt' and not force:
            body = TEXTBODY
        else:
            body = BODY
        fs = Files(())
        pkg = package(fs, {'m.' + ext: body})
        try:
            for reload in (None, True, False):
                options = {}
                for k, v in (('kajiki.force_mode', force), ('kajiki.loader_class', self.LOADERS[loader]), ('kajiki.reload', reload)):
                    if v is not None:
                        options[k] = v
                for ev in (None, {}, {'extra': 'E&'}, {'who': 'over'}, {'who': None}, {'extra': None}, {'who': '', 'extra': 0}):
                    func = None if ev is None else (lambda: dict(ev))
                    before = len(Recording.made)
                    if not options:
                        plugin = turbogears1.XMLTemplateEnginePlugin(func)
                    else:
                        plugin = turbogears1.XMLTemplateEnginePlugin(func, options)
                    if loader == 4 and len(Recording.made) == before:
                        raise Violation('the configured loader class is not used', source=repr(options))
                    for who in WHO:
                        for how in ('name', 'class', 'string'):
                            info = {'who': who}
                            w, extra = (ev or {}).get('who', who), (ev or {}).get('extra', '-')
                            m = mode
                            if how == 'name':
                                t = pkg + '.m'
                            elif how == 'class':
                                t = XMLTemplate(BODY, mode='html') if mode != 'text' else TextTemplate(TEXTBODY)
                                m = 'html' if mode != 'text' else 'text'
                            else:
                                t, m = plugin.load_template(None, BODY), 'xml'
                            if m == 'text':
                                want = '<p>%s & %s\n%s' % ('' if w is None else w, '' if extra is None else extra, 'y\n' if w else '')
                            else:
                                want = expected(m, w, extra=extra)
                            for call in ('render', 'transform'):
                                if call == 'render':
                                    got = attempt(lambda: plugin.render(dict(info), template=t))
                                else:
                                    got = attempt(lambda: plugin.transform(dict(info), t).render())
                                st.traces += 1
                                st.steps += 1
                                if got != ('ok', want):
                                    raise Violation('the TurboGears plugin', source=body, context=repr((options, ev, who, how, call)),
                                                    expected=repr(want), observed=repr(got))
                                outcome(st, want)
        finally:
            done(fs, pkg)


class TurboGearsHistories(Space):
    name = 'TurboGears: histories'
    OPS = ['w', 'a', 'b', 'x', 'string']
    bound = ('all sequences of up to 5 (thorough: 6) of: change the file, render with one set of values, with another, with a failing template, from a '
             'string; reload on, off and by default; extra variables that change from call to call')

    def cases(self, tier):
        for n in range(1, 6 if tier == 'quick' else 7):
            for h in itertools.product(self.OPS, repeat=n):
                yield h

    def run(self, case, st):
        for reload in (None, True, False):
            fs = Files(())
            pkg = package(fs, {'m.html': BODY.replace('</p>', '0</p>'), 'e.html': '<p>${1/who}</p>'})
            try:
                calls = [0]

                def extra():
                    calls[0] += 1
                    return {'extra': calls[0]}
                options = {} if reload is None else {'kajiki.reload': reload}
                plugin = turbogears1.XMLTemplateEnginePlugin(extra, options)
                version, seen, n = 0, None, 0
                for i, op in enumerate(case):
                    st.steps += 1
                    if op == 'w':
                        version = i + 1
                        fs.write(pkg + '/m.html', BODY.replace('</p>', '%d</p>' % version))
                        continue
                    n += 1
                    if op == 'x':
                        got, want = attempt(lambda: plugin.render({'who': 0}, template=pkg + '.e'))[0], 'ZeroDivisionError'
                    elif op == 'string':
                        got = attempt(lambda: plugin.render({'who': 'S'}, template=plugin.load_template('x', '<p>$who $extra</p>')))
                        want = ('ok', '<p>S %d</p>' % n)
                    else:
                        if seen is None or reload is not False:
                            seen = version
                        got = attempt(lambda: plugin.render({'who': op, 'view': 'v'} if op == 'b' else {'who': op}, template=pkg + '.m'))
                        want = ('ok', expected('html', op, view='v' if op == 'b' else '-', extra=n, version=seen))
                    st.traces += 1
                    if got != want:
                        raise Violation('the TurboGears plugin after other calls', source=repr(case), context='reload=%r, step %d' % (reload, i),
                                        expected=repr(want), observed=repr(got))
                    outcome(st, want)
            finally:
                done(fs, pkg)


def spaces():
    return [PyramidSettings(), PyramidHistories(), TurboGears(), TurboGearsHistories()]


ASSUMPTIONS = ['the third-party modules that the Pyramid integration imports are replaced by stubs with the documented behaviour',
               'one template is either always rendered as a page or always as a fragment through one loader (documented limitation of the cache)']
