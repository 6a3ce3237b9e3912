"""Value alphabets shared by the checks."""
import collections
import datetime
import decimal
import enum
import itertools
import re


class StrSub(str):
    """A str subclass whose str() is itself."""


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return 'Obj(%r)' % self.s


class Html(object):
    """Trusted markup by protocol."""
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return 'str:' + self.s

    def __repr__(self):
        return 'Html(%r)' % self.s


class HtmlStr(str):
    def __html__(self):
        return str(self)


class Falsy(object):
    """Renders, though it is false."""
    def __bool__(self):
        return False

    def __str__(self):
        return '<falsy>'

    def __repr__(self):
        return 'Falsy()'


SPECIAL = '&<>"\''


def strings(alphabet, maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def nasty():
    """Single values that name a shortcut an implementation could take."""
    base = ['<', '&', '"', '>', "'", '&amp;', '&lt;b&gt;', '<b>', '</a>', '<!--', '-->', ']]>',
            '<![CDATA[', '"><x y="', "'><x y='", '&#60;', '&nbsp;', '${x}', '$x', '$$', '{}', '%s',
            '%(a)s', '\\', '\\n', '\n', '\t', '\r', ' ', '  ', '\x0b', '\xa0', '\u2028',
            '\xe9', '\u4e2d', '\U0001f600', '\ufeff', '\x7f', '\x80', 'None', 'True', 'False',
            '0', '', 'a;b', 'javascript:alert(1)', '<?py x?>', '&&', '<<', '>>', '""',
            '&amp;amp;', '&quot;', 'x="y"', '/*]]>*/', '</script>', '<br/>', 'A&B<C>D"E\'F']
    for b in base:
        yield b
    # lengths around every plausible buffer or shortcut threshold; the special
    # character first, in the middle and last
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201,
              255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
              2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001,
              16384, 32768, 65535, 65536, 65537, 100000):
        for c in '&<>"':
            yield c + 'a' * (n - 1)
            yield 'a' * (n - 1) + c
            yield 'a' * (n // 2) + c + 'a' * (n - n // 2 - 1)
        yield '<' * n
        yield '&<>"' * (n // 4 + 1)


class Proxy(object):
    """Passes everything on to another object, as lazy objects do."""
    def __init__(self, target):
        self.__dict__['target'] = target

    def __getattr__(self, name):
        return getattr(self.target, name)

    def __str__(self):
        return str(self.target)

    def __repr__(self):
        return 'Proxy(%r)' % (self.target,)


class Own(str):
    """A str whose text is not its content."""
    def __str__(self):
        return '<own> ' + str.__str__(self)


class Format(object):
    def __str__(self):
        return '<s>'

    def __repr__(self):
        return 'r'

    def __format__(self, spec):
        return 'f'


class Dict(dict):
    def __str__(self):
        return '<dict>'


class Tuple(collections.namedtuple('Tuple', 'x y')):
    pass


class Color(enum.Enum):
    red = '<r>'


class Level(enum.IntEnum):
    low = 1


class Callable(object):
    def __call__(self):
        return 'called'

    def __str__(self):
        return '<call>'


class Seq(object):
    """Iterable, with a length, and a text of its own."""
    def __iter__(self):
        return iter(['a', 'b'])

    def __len__(self):
        return 2

    def __str__(self):
        return '<seq> & "'


class Empty(Seq):
    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


class Strange(object):
    """Equal to everything and true or false by mood."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None

    def __str__(self):
        return '<strange>'


class StrMethods(str):
    """A str with methods of its own that are of no concern to the template."""
    def __html_not__(self):
        return 'x'

    def items(self):
        return [('a', 'b')]


class Int(int):
    def __str__(self):
        return '<int> &'


class Float(float):
    def __str__(self):
        return '<float> "'


class Date(datetime.date):
    def __str__(self):
        return '<date>'


class Num(decimal.Decimal):
    def __str__(self):
        return '<num>'


class Error(KeyError):
    pass


class List(list):
    def __str__(self):
        return '<list>'


class Bytes(bytes):
    def __str__(self):
        return '<bytes>'


class Meta(type):
    def __str__(self):
        return '<class>'


Class = Meta('Class', (object,), {})


VARIETY = ['', ' ', 'a', '<', '>', '&', '"', "'", ' <A b="c"> & \'d\' ', '&lt;', '&amp;amp;', '&#60;', '&nbsp', '<!--', ']]>', '</script>', '</d>', '<br/>', '\t\n', ' a ', '\xe9<\u4e2d',
           'javascript:a("b")', '$v', '${v}', '%s', '\\', '<' * 300, 'http://x/?a=b&c=d', '#&', 'a;b', 'x="y"', 0, 1, 2, True, False, 1.5, 0.0, (), ('<',), [], ['<'], {}, {'<': '"'},
           b'<', b'', Obj('<&"'), Obj(''), StrSub('<&"'), Falsy(), Proxy('<p>'), Proxy(5), Own('<'), Own(''), Format(), Dict(), Dict(a=1), Tuple('<', '"'), Color.red, Level.low,
           Callable(), Seq(), Empty(), Strange(), StrMethods('<&'), StrMethods(''), ValueError('<'), int, Proxy(Obj('<')),
           Int(5), Int(0), Float(1.5), Date(2020, 1, 2), Num('1.5'), Error('<'), List(), List(['a']), Bytes(b'a'), Class, decimal.Decimal('1.10'), datetime.date(2020, 1, 2), 1j, None.__class__,
           range(2), iter(()), re.compile('<'), lambda: '<', len, collections, (None,), [None, '<'], {'<'}, frozenset(['"'])]


def objects():
    import decimal
    import fractions
    import datetime
    out = [0, 1, -1, 10 ** 30, True, False, 0.0, 1.5, -0.0, float('inf'), 1e100, 1j, (), (1,),
           ('<', '&'), [], ['<b>'], {}, {'<': '&'}, set(), b'', b'<&>"', bytearray(b'<'),
           decimal.Decimal('1.10'), fractions.Fraction(1, 3), datetime.date(2020, 1, 2),
           StrSub('<sub>'), StrSub(''), Obj('<obj>&"'), Obj(''), Falsy(), type(None), int,
           range(3), Ellipsis, NotImplemented, frozenset(['<']), [None], ValueError('<e>')]
    return out
