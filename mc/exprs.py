"""Python expressions of every operator class, for the Python arguments of directives.

All are over a, b, c (small integers) and evaluate without errors."""

BASE = ['a', 'b', '0', '1', "''", "'x'", 'None', 'a + b', 'a * b - c', '-a', '~a', 'a ^ b', 'a | c', 'a == b',
        'a != b', 'a < b', 'a >= c', 'a < b < c', 'a in (b, c)', 'a not in (b, c)', 'a is None', 'a is not None',
        'not a', 'not (a)', '(not a)', 'not a == b', '(a)', '((a))', '( a )', '[a][0]', "{'k': a}['k']", '(a, b)[c % 2]',
        'str(a)', 'max(a, b)', '"%s" % a', "'{}'.format(a)", '(lambda q: q + a)(b)', '[q for q in (a, b)]',
        'any(q for q in (a, b))', 'len([q for q in (a, b) if q])', '{a: b}.get(c)', 'int(str(a))', "'abc'[a:]",
        "'a' 'b'", "'=;:'", "'#'", "'%'", "'{}'", "'(' ", "')'", "'\\''", "r'\\n'", "' and '", '1.5', 'True', 'a.real',
        'a and b', 'a or b', 'a and not b', 'a or not b', '(a) or (b)', '(a) and (b)', '(a or b) and (b or c)',
        'a or b and c', 'a and b or c', 'not a or b', 'not a and b', 'a == b or c', 'a or b == c', 'a == 0 and b == 0',
        'a if b else c', 'a if b else b if c else a', '(a if b else c) or b', 'a or b if c else b', 'not a if b else c',
        'a or (b if c else a)', '[] or a', '() and a', 'a or None', "'' or a", "'or' and a", 'a or (lambda: b)()',
        'a in [] or b', '{} == {} and a']
TUPLES = ['a,', 'a, b', 'a, b or c', '(a, b), c']
ENVS = [dict(a=a, b=b, c=c) for a in (0, 1) for b in (0, 1) for c in (0, 2)]
