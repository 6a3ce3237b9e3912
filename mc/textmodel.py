"""Reference model of the text template language.

A program is a list of nodes:

    T(raw)                         text as the author wrote it
    X(code)                        ${code}
    D(kind, segments)              a directive: segments = [(tag name, argument, body)...]

Every opening, middle and closing tag is a Tag with a spelling *form*:

    L   indentation + %name arg + line break        (needs to start a line)
    B   {%name arg%}      R  {%name arg-%}      J  {%-name arg%}      K  {%-name arg-%}

``layout`` prints the program and computes, from the documented white-space rules, what is left
of every text; ``Interp`` runs it.
"""
import itertools


class T(object):
    def __init__(self, raw):
        self.raw = raw
        self.eff = raw


class X(object):
    def __init__(self, code, src=None):
        self.code = code
        self.src = src or '${%s}' % code


class Tag(object):
    form = 'B'
    indent = ''

    def __init__(self, name, arg=''):
        self.name = name
        self.arg = arg


class D(object):
    def __init__(self, kind, segments, end=True):
        self.kind = kind
        self.segments = [(Tag(n, a), list(body)) for n, a, body in segments]
        self.end = Tag('end') if end else None


class Impossible(Exception):
    """This choice of forms cannot be written down."""


def tags(nodes):
    for n in nodes:
        if isinstance(n, D):
            for t, body in n.segments:
                yield t
                for x in tags(body):
                    yield x
            if n.end:
                yield n.end


def flat(nodes):
    for n in nodes:
        if isinstance(n, D):
            for t, body in n.segments:
                yield t
                for x in flat(body):
                    yield x
            if n.end:
                yield n.end
        else:
            yield n


def layout(nodes, eol='\n'):
    """Returns the source; sets T.eff."""
    out = ''
    pending = None        # T whose text directly precedes
    trim = False
    for n in flat(nodes):
        if isinstance(n, T):
            raw = n.raw.replace('\n', eol)
            out += raw
            n.eff = raw.lstrip(' \t') if trim else raw
            assert pending is None, 'adjacent texts'
            pending, trim = n, False
        elif isinstance(n, X):
            out += n.src
            pending, trim = None, False
        else:
            at = len(out) - len(pending.eff) if pending is not None else len(out)
            text = pending.eff if pending is not None else ''
            # start of the white space before the tag, at the beginning of a line
            keep = len(text.rstrip())
            start = None
            for k in range(keep, len(text) + 1):
                pos = at + k
                if pos == 0 or out[pos - 1] == '\n':
                    start = k
                    break
            if n.form == 'L':
                if start is None:
                    raise Impossible()
                if pending is not None:
                    pending.eff = text[:start]
                out += n.indent + '%' + n.name + n.arg + eol
            else:
                if n.form in 'JK' and pending is not None:
                    pending.eff = text[:start] if start is not None else text.rstrip(' \t')
                out += ('{%-' if n.form in 'JK' else '{%') + n.name + n.arg + (
                    '-%}' if n.form in 'RK' else '%}')
            pending = None
            trim = n.form in 'RK'
    return out


def unescape(s):
    r, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            if s.startswith('\r\n', i + 1):
                i += 3
                continue
            if s[i + 1] != '\n':
                r += s[i + 1]
            i += 2
        else:
            r += s[i]
            i += 1
    return r


class Raw(str):
    """Output of template code."""


class Func(object):
    def __init__(self, interp, params, body, env, in_def=True):
        self.interp, self.params, self.body, self.env = interp, params, body, env
        self.in_def = in_def

    def __call__(self, *a, **kw):
        env = dict(self.env)
        # let Python bind the arguments
        env.update(eval('(lambda %s: dict(locals()))' % self.params, {})(*a, **kw))
        return Raw(self.interp.run(self.body, env, self.in_def))


class Interp(object):
    def __init__(self, nodes, context, autoescape=False):
        self.nodes, self.autoescape = nodes, autoescape
        self.globals = dict(context)
        self.steps = 0

    def render(self):
        self.hoist(self.nodes, False)
        return self.run(self.nodes, self.globals_env(), False)

    def globals_env(self):
        return dict(self.globals)

    def hoist(self, nodes, in_def):
        """Functions outside of others, blocks and module-level code belong to the template."""
        for n in nodes:
            if not isinstance(n, D):
                continue
            tag, body = n.segments[0]
            if n.kind == 'def' and not in_def:
                name, params = tag.arg.strip().rstrip(')').split('(', 1)
                f = Func(self, params, body, None)
                self.globals[name] = f
            if n.kind == 'modpy':
                exec(tag.arg.strip().lstrip('%').strip(), self.globals)
                self.globals.pop('__builtins__', None)
            for t, b in n.segments:
                self.hoist(b, in_def or n.kind == 'def')
        if nodes is self.nodes:
            for v in self.globals.values():
                if isinstance(v, Func):
                    v.env = self.globals

    def value(self, code, env):
        self.steps += 1
        return eval('(%s)' % code.strip(), dict(env))

    def text_of(self, v):
        if v is None:
            return ''
        if isinstance(v, Raw):
            return str.__str__(v)
        s = str(v)
        if self.autoescape:
            s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
        return s

    def run(self, nodes, env, in_def):
        out = []
        for n in nodes:
            self.steps += 1
            if isinstance(n, T):
                out.append(unescape(n.eff))
            elif isinstance(n, X):
                out.append(self.text_of(self.value(n.code, env)))
            else:
                out.append(getattr(self, 'd_' + n.kind)(n, env, in_def))
        return ''.join(out)

    def d_if(self, n, env, in_def):
        if self.value(n.segments[0][0].arg, env):
            return self.run(n.segments[0][1], env, in_def)
        if len(n.segments) > 1:
            return self.run(n.segments[1][1], env, in_def)
        return ''

    def d_for(self, n, env, in_def):
        var, it = n.segments[0][0].arg.split(' in ', 1)
        names = [v.strip() for v in var.split(',')]
        out = []
        for v in self.value(it, env):
            if len(names) == 1:
                env[names[0]] = v
            else:
                env.update(zip(names, v))
            out.append(self.run(n.segments[0][1], env, in_def))
        return ''.join(out)

    def d_switch(self, n, env, in_def):
        v = self.value(n.segments[0][0].arg, env)
        for tag, body in n.segments[1:]:
            if tag.name == 'else' or self.value(tag.arg, env) == v:
                return self.run(body, env, in_def)
        return ''

    def d_def(self, n, env, in_def):
        if in_def:
            name, params = n.segments[0][0].arg.strip().rstrip(')').split('(', 1)
            f = Func(self, params, n.segments[0][1], env)
            env[name] = f
        return ''

    def d_call(self, n, env, in_def):
        tag, body = n.segments[0]
        params, call = tag.arg.split(')', 1)
        f = Func(self, params.strip().lstrip('('), body, env, in_def)
        e = dict(env)
        e['_caller_'] = f
        return str(self.text_of(eval(call.strip().replace('%caller', '_caller_'), e)))

    def d_py(self, n, env, in_def):
        tag, body = n.segments[0]
        code = tag.arg.strip() or ''.join(t.raw for t in body)
        exec(code.strip('\n'), env)
        env.pop('__builtins__', None)
        return ''

    def d_modpy(self, n, env, in_def):
        return ''

    def d_block(self, n, env, in_def):
        return self.run(n.segments[0][1], self.globals_env(), in_def)


def forms(nodes, choices):
    """All assignments of forms to the tags of a program."""
    ts = list(tags(nodes))
    for c in itertools.product(choices, repeat=len(ts)):
        yield c


def assign(nodes, fs, indent=''):
    for t, f in zip(tags(nodes), fs):
        t.form = f
        t.indent = indent
