"""All parameter lists up to a bound and all calls of them, with Python itself as the oracle (used by C06, C09 and C21)."""
import itertools

from mc.core import Space, Violation, outcome


def signatures():
    """Lists of parameters: (text, names, name of *args, name of **kw)."""
    for po in ('', 'r', 'd'):
        for pos in ('', 'r', 'd', 'rr', 'rd', 'dd'):
            if 'dr' in po + pos:
                continue
            for star in ('', '*', '*args'):
                for ko in ('', 'r', 'd', 'rr', 'rd', 'dr', 'dd') if star else ('',):
                    if star == '*' and not ko:
                        continue
                    for kw in ('', '**kw'):
                        yield po, pos, star, ko, kw


def parse(sig):
    po, pos, star, ko, kw = sig
    parts, names = [], []
    for kinds, prefix in ((po, 'x'), (pos, 'p'), (ko, 'k')):
        if prefix == 'k' and star:
            parts.append(star)
        for i, kind in enumerate(kinds):
            n = prefix + str(i)
            names.append(n)
            parts.append(n + ('=%r' % (prefix.upper() + str(i),) if kind == 'd' else ''))
        if prefix == 'x' and kinds:
            parts.append('/')
    if kw:
        parts.append(kw)
    return ', '.join(parts), names


def calls(names):
    for n in range(4):
        for r in range(3):
            for kws in itertools.combinations(names + ['zz'], r):
                yield list(range(n)), dict((k, 'v' + k) for k in kws)
                # values that could be taken for none at all
                if n or r:
                    yield [None] * n, dict((k, None) for k in kws)
                    yield [False, '', 0][:n], dict(zip(kws, ('', 0)))


def body(sig, names):
    exprs = list(names)
    if sig[2] == '*args':
        exprs.append('args')
    if sig[4]:
        exprs.append('sorted(kw.items())')
    return exprs


def oracle(params, exprs):
    ns = {}
    exec('def f(%s): return [%s]' % (params, ', '.join(exprs)), ns)
    return ns['f']


def cells(exprs):
    """The body of the function: a dot before, between and after the values."""
    return '.' + ''.join('${%s}.' % q for q in exprs)


class Signatures(Space):
    """Subclasses list SITES: functions of (params, exprs) that give (source, prefix of the output, suffix)."""
    name = 'parameter lists'
    SITES = ()
    compile = None

    def __init__(self, compile, sites):
        self.compile = compile
        self.SITES = sites
        self.bound = ('all parameter lists of up to 1 positional-only, 2 positional, 2 keyword-only parameters (with and without defaults), *args, **kw '
                      'at %d kinds of definition; all calls with up to 3 positional and 2 keyword arguments, that are true, None, or false; TypeError exactly where Python '
                      'raises it' % len(sites))

    def cases(self, tier):
        for s in range(len(self.SITES)):
            for sig in signatures():
                yield s, sig

    def describe(self, case):
        params, names = parse(case[1])
        return self.SITES[case[0]](params, body(case[1], names))[0]

    def run(self, case, st):
        s, sig = case
        params, names = parse(sig)
        exprs = body(sig, names)
        source, before, after = self.SITES[s](params, exprs)
        f = oracle(params, exprs)
        t = self.compile(source)
        for a, k in calls(names):
            try:
                want = before + '.' + ''.join(('' if v is None else '%s' % (v,)) + '.' for v in f(*a, **k)) + after
            except TypeError:
                want = 'TypeError'
            try:
                got = t(dict(A=a, K=k)).render()
            except TypeError:
                got = 'TypeError'
            st.traces += 1
            st.steps += 1
            if got != want:
                raise Violation('arguments of a template function', source=source, context='call with %r %r' % (a, k), expected=want, observed=got)
            outcome(st, (len(a), len(k), got == 'TypeError'))
