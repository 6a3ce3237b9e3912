"""Reference model of the XML template language: source printer + interpreter.

Independent of the implementation: it never looks at generated code.  A
template is plain data (tuples):

  ('t', text)                     static text
  ('x', expr)  ('n', dotted)      ${expr}   $dotted
  ('e', tag, attrs, kids, dirs)   element; tag None = directive element(s)
       attrs: ((name, parts), ...)  parts: (str | ('x', e) | ('n', e), ...)
       dirs:  ((directive, value), ...)   value of call: (function, args|None)
              if/else/for/switch/case/with/replace/def/call/block/strip/content/attrs/extends
  ('c', text)   comment           ('cd', (t|x|n, ...))  CDATA section
  ('py', code)  Python block      ('inc', href)  ('imp', href, alias|None)
  ('raw', src, out)               text whose rendering is known
"""
import re

# The documented order in which directives on one element nest.
ORDER = ('def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with',
         'replace', 'block', 'extends')
ATTR_OF = dict([('def', 'function'), ('call', 'function'), ('case', 'value'),
                ('for', 'each'), ('if', 'test'), ('switch', 'test'),
                ('with', 'vars'), ('replace', 'value'), ('block', 'name'),
                ('extends', 'href')])
VOID = frozenset('area base br col hr img input link meta param'.split())
BOOLEAN = frozenset('checked disabled readonly multiple selected nohref ismap '
                    'declare defer'.split())
RAW = frozenset(['script', 'style'])


# -- source printer --------------------------------------------------------

def q_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def q_attr(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def dollars(s):
    return s.replace('$', '$$')


def part_src(p):
    if isinstance(p, str):
        return dollars(p)
    if p[0] == 't':
        return dollars(p[1])
    if p[0] == 'x':
        return '${%s}' % p[1]
    if p[0] == 'n':
        return '$%s' % p[1]
    raise ValueError(p)


def src(node):
    k = node[0]
    if k in 'txn':
        return q_text(part_src(node))
    if k == 'raw':
        return node[1]
    if k == 'c':
        return '<!--%s-->' % node[1]
    if k == 'cd':
        return '<![CDATA[%s]]>' % ''.join(part_src(p) for p in node[1])
    if k == 'py':
        return '<?py %s?>' % node[1]
    if k == 'inc':
        return '<py:include href="%s"/>' % node[1]
    if k == 'imp':
        return '<py:import href="%s"%s/>' % (
            node[1], '' if node[2] is None else ' alias="%s"' % node[2])
    _, tag, attrs, kids, dirs = node
    items = []
    if tag is None:
        (kind, value), dirs = dirs[0], dirs[1:]
        tag = 'py:' + kind
        if kind == 'call':
            items.append('function="%s"' % q_attr(value[0]))
            if value[1] is not None:
                items.append('args="%s"' % q_attr(value[1]))
        elif kind != 'else':
            items.append('%s="%s"' % (ATTR_OF[kind], q_attr(value)))
    for name, parts in attrs:
        items.append('%s="%s"' % (name, q_attr(''.join(part_src(p) for p in parts))))
    for kind, value in dirs:
        if kind == 'call':
            value = value[0]
        items.append('py:%s="%s"' % (kind, q_attr(value or '')))
    head = '<' + ' '.join([tag] + items)
    if not kids:
        return head + '/>'
    return '%s>%s</%s>' % (head, ''.join(src(c) for c in kids), tag)


# -- values ----------------------------------------------------------------

class Mk(str):
    """Markup produced by a template function: already encoded."""
    def __html__(self):
        return str(self)


def esc(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('"', '&quot;'))


def is_trusted(v):
    # flattener is the public type of literal()/Markup() values
    return hasattr(v, '__html__') or type(v).__name__ == 'flattener'


def markup_of(v):
    if hasattr(v, '__html__'):
        return v.__html__()
    return ''.join(str(x) for x in v)


def out_value(v):
    if v is None:
        return ''
    if is_trusted(v):
        return markup_of(v)
    return esc(str(v))


def out_attr(v):
    if is_trusted(v):
        return markup_of(v).replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    return esc(str(v))


# -- interpreter -----------------------------------------------------------

class Frame(object):
    """Local variables of one activation of a template function or call body.

    Template functions are Python functions, so Python's scoping applies: a
    name bound anywhere in a function belongs to all of it.  Reading it while
    it is unbound is undefined here; such programs are in no space."""
    __slots__ = ('vars', 'up', 'names', 'in_def')

    def __init__(self, names=(), vars=None, up=None, in_def=False):
        self.names = names          # every name bound somewhere in the function
        self.vars = vars if vars is not None else {}
        self.up = up
        self.in_def = in_def


_codes = {}


def code(text, mode='eval'):
    key = text, mode
    c = _codes.get(key)
    if c is None:
        if len(_codes) > 20000:
            _codes.clear()
        c = _codes[key] = compile(text.strip(), '<model>', mode)
    return c


_names = {}


def all_names(c):
    """The names a code object may look up (attribute names included)."""
    r = _names.get(c)
    if r is None:
        r = set(c.co_names)
        for k in c.co_consts:
            if hasattr(k, 'co_names'):
                r |= all_names(k)
        if len(_names) > 20000:
            _names.clear()
        _names[c] = r
    return r


class Undefined(Exception):
    """The program reads a name that is not bound: it is in no space."""


POISON = object()     # a name whose value is not specified any more


class Interp(object):
    """Evaluates one template (no inheritance) in a context."""

    def __init__(self, root, ctx=None, mode='xml', strip=False, gettext=None,
                 cdata_scripts=True, prolog=()):
        self.root, self.mode, self.strip = root, mode, strip
        self.html = mode.startswith('html')
        self.gettext, self.cdata_scripts = gettext, cdata_scripts
        self.glob = {'Markup': Mk, 'literal': Mk}
        self.steps = 0
        self.messages = []
        self.prolog = prolog
        self.ctx = dict(ctx or {})
        self.blocks = {}
        self.module_code = []
        for n in prolog:
            self._collect(n, False)
        self._collect(root, False)
        for c in self.module_code:
            exec(code(c, 'exec'), self.glob)
        self.glob.update(self.functions())
        self.glob.update(self.ctx)

    def functions(self):
        return {}

    # hoisting: functions outside of any other function, and all blocks
    def _collect(self, node, in_def):
        if node[0] == 'py':
            if node[1].startswith('%'):
                self.module_code.append(node[1][1:])
            return
        if node[0] != 'e':
            return
        _, tag, attrs, kids, dirs = node
        d = dict(dirs)
        if 'def' in d:
            if not in_def:
                self._define(d['def'], self._inner(node, 'def'), None, self.glob)
            in_def = True
        if 'block' in d:
            self.blocks[d['block']] = (self._block_body(node), in_def)
        for c in kids:
            self._collect(c, in_def)

    @staticmethod
    def _inner(node, kind):
        return node[:4] + (tuple(x for x in node[4] if x[0] != kind),)

    @staticmethod
    def _block_body(node):
        # the other directives of the element nest around the block
        return node[:4] + (tuple(x for x in node[4] if x[0] in ('strip', 'content', 'attrs')),)

    def binder(self, params, frame):
        ns = {}
        c = code('def bind(%s: return locals()' % params, 'exec')
        exec(c, self.env(c, frame), ns)
        return ns['bind'], frozenset(ns['bind'].__code__.co_varnames)

    def _define(self, decl, body, frame, target):
        name, params = decl.split('(', 1)
        bind, args = self.binder(params, frame)
        names = args | bound_names((body,), True)

        def fn(*a, **kw):
            return Mk(self.body(body, Frame(names, bind(*a, **kw), frame, True)))
        target[name.strip()] = fn
        return fn

    def body(self, node, frame):
        return self.seq((node,), frame)

    def lookup(self, name, frame):
        """(found, value); raises Undefined for an unbound local name."""
        while frame is not None:
            if name in frame.names:
                v = frame.vars.get(name, POISON)
                if v is POISON:
                    raise Undefined(name)
                return True, v
            frame = frame.up
        if name in self.glob:
            return True, self.glob[name]
        return False, None

    def env(self, c, frame, statements=False):
        env = {}
        for n in all_names(c):
            try:
                found, v = self.lookup(n, frame)
            except Undefined:
                if not statements:      # statements may assign it before they use it
                    raise
                found = False
            if found:
                env[n] = v
        return env

    def ev(self, expr, frame, extra=None):
        self.steps += 1
        c = code(expr)
        env = self.env(c, frame)
        if extra:
            env.update(extra)
        return eval(c, env)

    def render(self):
        fr = Frame(bound_names(tuple(self.prolog) + (self.root,), False))
        out = []
        for n in self.prolog:
            out.append(self.seq((n,), fr))
        out.append(self.seq((self.root,), fr))
        return ''.join(out)

    # a run of text: consecutive t/x/n nodes
    def text_run(self, run, frame, translate, enc=q_text):
        parts = []
        for p in run:
            if p[0] == 't' and parts and parts[-1][0] == 't':
                parts[-1] = ('t', parts[-1][1] + p[1])
            elif p[0] != 't' or p[1]:
                parts.append(p)
        lead = trail = ''
        data = ''.join('\0' if p[0] != 't' else p[1] for p in parts)
        stripped = data.strip()
        if stripped or self.strip:
            lead = data[:len(data) - len(data.lstrip())]
            trail = data[len(data.rstrip()):] if stripped else ''
            if lead:
                parts = _cut(parts, len(lead), True)
            if trail:
                parts = _cut(parts, len(trail), False)
        out = [] if self.strip else [enc(lead)]
        for p in parts:
            self.steps += 1
            if p[0] != 't':
                out.append(out_value(self.ev(p[1], frame)))
                continue
            for t in re.split(r'(\$)', p[1]):
                t = enc(t)
                if translate and self.gettext is not None and t.strip():
                    self.messages.append(t)
                    t = self.gettext(t)
                out.append(t)
        if not self.strip:
            out.append(enc(trail))
        return ''.join(out)

    def seq(self, kids, frame, raw=False):
        out = []
        i, n = 0, len(kids)
        while i < n:
            k = kids[i]
            if k[0] in 'txn':
                j = i
                while j < n and kids[j][0] in 'txn':
                    j += 1
                out.append(self.text_run(kids[i:j], frame, not raw))
                i = j
                continue
            if k[0] == 'e' and outermost(k) == 'if':
                self.steps += 1
                cond = self.ev(dict(k[4])['if'], frame)
                nxt = kids[i + 1] if i + 1 < n else None
                has_else = nxt is not None and nxt[0] == 'e' and outermost(nxt) == 'else'
                if cond:
                    out.append(self.seq((self._inner(k, 'if'),), frame))
                elif has_else:
                    out.append(self.seq((self._inner(nxt, 'else'),), frame))
                i += 2 if has_else else 1
                continue
            out.append(self.node(k, frame))
            i += 1
        return ''.join(out)

    def assign(self, target, value, frame):
        ns = {'_v': value}
        exec(code('%s = _v' % target, 'exec'), ns)
        for k in ns:
            if k not in ('_v', '__builtins__'):
                frame.vars[k] = ns[k]

    def node(self, node, frame):
        self.steps += 1
        k = node[0]
        if k == 'raw':
            return node[2]
        if k == 'c':
            return '' if node[1].startswith('!') else '<!-- %s -->' % node[1]
        if k == 'cd':
            return '<![CDATA[%s]]>' % self.text_run(node[1], frame, True, lambda t: t)
        if k == 'py':
            if not node[1].startswith('%'):
                c = code(node[1], 'exec')
                ns = {}
                exec(c, self.env(c, frame, True), ns)
                frame.vars.update(ns)
            return ''
        if k in ('inc', 'imp'):
            return self.external(node, frame)
        o = outermost(node)
        if o is None:
            return self.element(node, frame)
        inner = self._inner(node, o)
        value = dict(node[4])[o]
        if o == 'def':
            if frame.in_def:
                self._define(value, inner, frame, frame.vars)
            return ''
        if o == 'call':
            func, args = value
            if args is None:
                args = ''

            bind, params = self.binder(args + ')', frame)
            names = params | bound_names((inner,), frame.in_def)

            def caller(*a, **kw):
                return Mk(self.body(inner, Frame(names, bind(*a, **kw), frame, frame.in_def)))
            v = self.ev(func.replace('%caller', '_caller_'), frame, {'_caller_': caller})
            return '' if v is None else str(v)
        if o == 'for':
            target, it = re.match(r'(.*?)\s+in\s+(.*)$', value, re.S).groups()
            out = []
            for item in self.ev(it, frame):
                self.assign(target, item, frame)
                out.append(self.seq((inner,), frame))
            for nm in target_names(target):     # after the loop: not specified
                frame.vars[nm] = POISON
            return ''.join(out)
        if o == 'switch':
            v = self.ev(value, frame)
            for c in inner[3]:
                if c[0] != 'e':
                    continue
                oc = outermost(c)
                if oc == 'case':
                    if self.ev(dict(c[4])['case'], frame) == v:
                        return self.seq((self._inner(c, 'case'),), frame)
                elif oc == 'else':
                    return self.seq((self._inner(c, 'else'),), frame)
            return ''
        if o == 'with':
            pairs = [t.split('=', 1) for t in split_vars(value)]
            names = [nm.strip() for nm, e in pairs]
            saved = []
            for nm in names:
                if nm in frame.vars:
                    saved.append((nm, True, frame.vars[nm]))
                    continue
                f = frame.up
                while f is not None and nm not in f.names:
                    f = f.up
                # a name of an enclosing function is not promised to come back
                saved.append((nm, f is None and nm in self.glob, self.glob.get(nm)))
            for nm, e in pairs:
                frame.vars[nm.strip()] = self.ev(e, frame)
            out = self.seq((inner,), frame)
            for nm, had, old in reversed(saved):
                if had:
                    frame.vars[nm] = old
                else:
                    frame.vars[nm] = POISON
            return out
        if o == 'replace':
            return out_value(self.ev(value, frame))
        if o == 'block':
            return self.block(value)
        if o == 'if':
            return self.seq((node,), frame)
        raise ValueError(o)

    def block(self, name):
        body, in_def = self.blocks[name]
        return self.body(body, Frame(bound_names((body,), in_def), in_def=in_def))

    def external(self, node, frame):
        raise NotImplementedError

    def render_attr(self, name, v):
        """v: None, or encoded text."""
        if v is None:
            return ''
        if self.html and name in BOOLEAN:
            return ' ' + name.lower()
        return ' %s="%s"' % (name, v)

    def element(self, node, frame):
        _, tag, attrs, kids, dirs = node
        if tag is None:
            return self.seq(kids, frame)
        d = dict(dirs)
        strip = 'strip' in d and (d['strip'] == '' or bool(self.ev(d['strip'], frame)))
        out = []
        if not strip:
            out.append('<' + tag)
            for name, parts in sorted(attrs):
                vals = []
                for p in parts:
                    self.steps += 1
                    if isinstance(p, str):
                        vals.append(esc(p))
                    else:
                        v = self.ev(p[1], frame)
                        if v is not None:
                            vals.append(out_attr(v))
                if not parts:
                    vals.append('')
                out.append(self.render_attr(name, ''.join(vals) if vals else None))
            if d.get('attrs'):
                a = self.ev(d['attrs'], frame)
                if hasattr(a, 'items'):
                    a = a.items()
                for name, v in sorted(a or ()):
                    if name in BOOLEAN and (v is True or v is False):
                        v = name if v else None
                    out.append(self.render_attr(name, None if v is None else out_attr(v)))
        if d.get('content'):
            if not strip:
                out.append('>')
            out.append(out_value(self.ev(d['content'], frame)))
            if not strip:
                out.append('</%s>' % tag)
            return ''.join(out)
        if not kids:
            if not strip:
                if tag == 'script':
                    out.append('></script>')
                elif self.html:
                    out.append('>' if tag in VOID else '></%s>' % tag)
                else:
                    out.append('/>')
            return ''.join(out)
        if not strip:
            out.append('>')
        if self.cdata_scripts and tag in RAW:
            if not self.html:
                out.append('/*<![CDATA[*/')
            out.append(self.raw(kids, frame))
            if not self.html:
                out.append('/*]]>*/')
        else:
            out.append(self.seq(kids, frame, raw=tag in RAW))
        if not strip and not (self.html and tag in VOID):
            out.append('</%s>' % tag)
        return ''.join(out)

    def raw(self, kids, frame):
        out, run = [], []
        for k in tuple(kids) + (('cd', ()),):
            if k[0] != 'cd':
                run.append(k)
                continue
            out.append(self.text_run(run, frame, False, lambda t: t))
            out.append(self.text_run(k[1], frame, False, lambda t: t))
            run = []
        return ''.join(out)


def _cut(parts, n, front):
    """Remove n characters of static text from the front or the end."""
    parts = list(parts)
    while n > 0:
        p = parts[0] if front else parts[-1]
        assert p[0] == 't', parts
        m = min(n, len(p[1]))
        rest = p[1][m:] if front else p[1][:len(p[1]) - m]
        n -= m
        if rest:
            parts[0 if front else -1] = ('t', rest)
        elif front:
            parts.pop(0)
        else:
            parts.pop()
    return parts


def split_vars(s):
    return [t for t in s.split(';') if t.strip()]


def target_names(target):
    return [t.strip() for t in re.sub(r'[()\[\]]', '', target).split(',') if t.strip()]


def bound_names(nodes, in_def):
    """Names bound by the function that has these nodes as its body."""
    r = set()
    for node in nodes:
        if node[0] == 'py' and not node[1].startswith('%'):
            r |= stored(node[1])
        if node[0] != 'e':
            continue
        d = dict(node[4])
        if 'def' in d:
            if in_def:
                r.add(d['def'].split('(')[0].strip())
            continue        # another function, what is in it is not ours
        if 'call' in d:
            continue
        if 'for' in d:
            r |= set(target_names(re.match(r'(.*?)\s+in\s+', d['for'], re.S).group(1)))
        if 'with' in d:
            r |= set(t.split('=', 1)[0].strip() for t in split_vars(d['with']))
        if 'block' in d:
            continue
        r |= bound_names(node[3], in_def)
    return frozenset(r)


def stored(text):
    import ast
    r = set()
    for n in ast.walk(ast.parse(text.strip())):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            r |= set((a.asname or a.name).split('.')[0] for a in n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
    return r


def outermost(node):
    if not node[4]:
        return None
    d = dict(node[4])
    for k in ORDER:
        if k in d:
            return k
    return None
