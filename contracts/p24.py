"""P24: bibliography entries are parsed and queried faithfully."""
import itertools
import os
import tempfile
from reference import Reference, Reference_Manager

OPTS = {'*': {'time': 100, 'n': 200, 'max_paths': 60000},
        'check_words': {'n': 1, 'tl': 60}, 'check_load': {'n': 600, 'tl': 20}, 'check_bibliography': {'n': 1, 'tl': 30},
        'assumptions': ["files are read through the operating system; the encoding is that of the platform"]}


def ref(E, n):
    """a reference with or without author and year"""
    f = {}
    a = E.choice(n + 'author', [None, 'Vinogradov', 'Heath-Brown--Iwaniec', ''])
    if a is not None:
        f['author'] = a
    y = E.opt(n + 'year', E.int(n + 'y', -1, 2100))
    if y is not None:
        f['year'] = y
    f['title'] = 'T' + n
    return Reference('l' + n, 'article', f)


def prove_fields(E):
    """author and year give the stored fields or say that they are unknown"""
    r = ref(E, 'r')
    E.ensure('author', r.author() == (r.entries['author'] if 'author' in r.entries else 'Unknown author'))
    E.ensure('year', r.year() == (r.entries['year'] if 'year' in r.entries else 'Unknown date'))
    E.ensure('ordinary', r.is_literature() and not (r.is_classical() or r.is_derived() or r.is_conjectured() or r.is_trivial()))


def prove_kinds(E):
    """make, classical, derived, conjectured and trivial, for every year"""
    y = E.int('y', -1, 3000)
    k = E.choice('k', ['make', 'classical', 'derived', 'conjectured', 'trivial'])
    r = Reference.make('A', y) if k == 'make' else Reference.derived(y) if k == 'derived' else \
        Reference.classical() if k == 'classical' else Reference.conjectured() if k == 'conjectured' else Reference.trivial()
    E.ensure('classical', r.is_classical() == (k == 'classical'))
    E.ensure('derived', r.is_derived() == (k == 'derived'))
    E.ensure('conjectured', r.is_conjectured() == (k == 'conjectured'))
    E.ensure('trivial', r.is_trivial() == (k == 'trivial'))
    if k != 'trivial':
        E.ensure('literature', r.is_literature() == (k == 'make'))
    E.ensure('year', r.year() == (y if k == 'make' or k == 'derived' else float('inf') if k == 'conjectured' else -1))
    E.ensure('author', r.author() == ('A' if k == 'make' else 'Unknown author'))


def bounded_query(E):
    """find_all and get return the matching entries, all of them and nothing else (bounded: up to 2 entries)"""
    n = E.count('n', 0, 2)
    rs = [ref(E, str(i)) for i in range(n)]
    m = Reference_Manager('nowhere')
    for r in rs:
        m.refs[r.label] = r
    author = E.choice('author', ['Any', 'Vinogradov', 'Iwaniec', 'nobody'])
    year = E.choice('byyear', ['Any', 'given'])
    if year == 'given':
        year = E.int('year', -1, 2100)
    if E.choice('call', [0, 1]):
        got = m.find_all(author=author, year=year)
    else:
        got = m.find_all(author, year)
    want = []
    for r in rs:
        a = author == 'Any' or ('author' in r.entries and author in r.entries['author'])
        y = year == 'Any' or ('year' in r.entries and r.entries['year'] == year)
        E.ensure('found exactly when it matches', (a and y) == any(g is r for g in got))
        if a and y:
            want.append(r)
    E.ensure('once', len(got) == len(want))
    E.ensure('all by default', len(m.find_all()) == n)
    E.ensure('nothing removed', len(m.refs) == n)


class Key:
    def __init__(self, ref):
        self.ref = ref


class Table:
    """a dictionary with any number of entries, its keys remember their values"""
    def __init__(self, refs):
        self.refs = refs

    def __iter__(self):
        return iter([Key(r) for r in self.refs])

    def __getitem__(self, key):
        return key.ref

    def keys(self):
        return [Key(r) for r in self.refs]

    def values(self):
        return list(self.refs)

    def items(self):
        return [(Key(r), r) for r in self.refs]


def prove_query(E):
    """find_all returns the matching entries in order and nothing else (any number of entries, any fields)"""
    rs = E.seq('r', lambda i: ref(E, 'r'))
    m = Reference_Manager('nowhere')
    m.refs = Table(rs)
    author = E.choice('author', ['Any', 'Vinogradov', 'Iwaniec', 'nobody'])
    year = E.choice('byyear', ['Any', 'given'])
    if year == 'given':
        year = E.int('year', -1, 2100)
    got = m.find_all(author=author, year=year)

    def matches(r):
        return (author == 'Any' or ('author' in r.entries and author in r.entries['author'])) and (
            year == 'Any' or ('year' in r.entries and r.entries['year'] == year))
    E.ensure('nothing else', all(matches(g) for g in got))
    E.ensure('entries of the table', all(any(g is r for r in rs) for g in got))
    E.ensure('every match', all(any(g is r for g in got) for r in rs if matches(r)))


# ------------------------------------------------------------------------------- concrete runs
def levels(w):
    """(character, depth before it) with closing braces counted after the decrease"""
    d, out = 0, []
    for c in w:
        if c == '}':
            d -= 1
        out.append((c, d))
        if c == '{':
            d += 1
    return out, d


def check_words(E):
    """_extract and _split_level on every balanced word of up to 9 characters (bounded, exhaustive)"""
    m = Reference_Manager('nowhere')

    def words(n, d):
        """every word of n characters that closes d braces"""
        if n == 0:
            if d == 0:
                yield ''
            return
        for c in 'a{},':
            k = d + (c == '{') - (c == '}')
            if 0 <= k <= n - 1:
                for w in words(n - 1, k):
                    yield c + w
    for n in range(10):
        for w in words(n, 0):
            lv, _ = levels(w)
            E.ensure('inside of the braces', m._extract(w, '{', '}') == ''.join(c for c, d in lv if d >= 1), (w,))
            cut = [i for i, (c, d) in enumerate(lv) if c == ',' and d == 0]
            parts = [w[a + 1:b] for a, b in zip([-1] + cut, cut + [len(w)])]
            E.ensure('parts', m._split_level(w, '{', '}', ',', 0) == [p for p in parts if p], (w,))


def rand_value(rng, depth=2, top=6):
    out = []
    for _ in range(rng.randint(1, top)):
        k = rng.random()
        if k < 0.2 and depth:
            out.append('{' + (rand_value(rng, depth - 1, 3) if rng.random() < 0.9 else '') + '}')
        elif k < 0.35:
            out.append(rng.choice([',', ' = ', '=', ', ', '#', '"', '%', '\\', '$', '(', '--', ';', ':']))
        else:
            out.append(rng.choice(['a', 'Zeta', 'function', ' ', 'the', 'é', '1999', '/', 'L. M.', 'and']))
    return ''.join(out)


SURNAMES = ['Vinogradov', 'Heath-Brown', 'de la Vall{\\\'e}e Poussin', 'Li', '{IMPAN}', 'Guth', "O'Hara", 'Bombieri', 'Anderson', 'Hand']
FIRST = ['I. M.', 'D. R.', 'Larry', 'J.', 'Andrew', 'A.~B.']


def rand_authors(rng):
    """text and surnames"""
    txt, want = [], []
    for _ in range(rng.randint(1, 4)):
        s = rng.choice(SURNAMES)
        k = rng.random()
        if k < 0.5:
            f = rng.choice(FIRST)
            txt.append(s + ', ' + f + (', Jr.' if rng.random() < 0.1 else ''))
        elif k < 0.85 and ' ' not in s:
            txt.append(rng.choice(FIRST) + ' ' + s)
        elif ' ' not in s:
            txt.append(s)
        else:
            txt.append(s + ', X.')
        want.append(s)
    sep = ' and '
    return sep.join(txt), '--'.join(want)


def rand_entry(rng, i):
    """the text of an entry, its label, kind and fields"""
    label = rng.choice(['ref', 'heath-brown', 'ford_zeta', 'Item:', 'x.y']) + str(i)
    typ = rng.choice(['article', 'book', 'Article', 'InProceedings', 'misc', 'ARTICLE'])
    fields, want = [], {}
    keys = ['title', 'journal', 'note', 'doi', 'pages', 'MRNUMBER', 'Volume', 'issn', 'abstract', 'year', 'Year', 'author', 'AUTHOR', 'url']
    seen = set()
    for k in rng.sample(keys, rng.randint(0, 8)):
        if k.lower() in seen:
            continue
        seen.add(k.lower())
        if k.lower() == 'year':
            y = rng.randint(1850, 2030)
            v, w = rng.choice([(str(y), y), (str(y) + '/' + str(y + 1)[2:], y), (' ' + str(y), y)])
        elif k.lower() == 'author':
            v, w = rand_authors(rng)
        elif rng.random() < 0.08:
            v, w = '', None
        else:
            v = rand_value(rng)
            v = v.strip()
            w = v or None
        fields.append((k, v))
        if w is not None:
            want[k.lower()] = w
    nl = rng.choice(['\n', '\n  ', '\n\t', ' '])
    eq = rng.choice([' = ', '=', '  =  '])
    body = (',' + nl).join([k + eq + '{' + v + '}' for k, v in fields])
    s = '@' + typ + rng.choice(['{', ' {']) + rng.choice(['', ' ']) + label + ',' + nl + body + rng.choice(['', ',', ', ']) + rng.choice(['\n}', '}']) + '\n'
    return s, label, typ, want


def wrap(rng, s):
    """break some lines at a space"""
    out = []
    for w in s.split(' '):
        out.append(w)
        out.append('\n    ' if rng.random() < 0.05 else ' ')
    return ''.join(out[:-1])


def check_load(E):
    """random bibliographies are read back"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    es = [rand_entry(rng, i) for i in range(rng.randint(0, 5))]
    s = rng.choice(['', '', '\n', '% a comment\n\n'])
    for e in es:
        s += wrap(rng, e[0]) if rng.random() < 0.3 else e[0]
        s += rng.choice(['', '\n', '\n\n', '% text between entries\n'])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'x.bib')
        with open(path, 'w') as f:
            f.write(s)
        m = Reference_Manager(path)
        m.load()
        with open(path) as f:
            E.ensure('file kept', f.read() == s)
    E.ensure('labels', sorted(m.refs) == sorted(e[1] for e in es), (s, sorted(m.refs)))
    for t, label, typ, want in es:
        r = m.get(label)
        E.ensure('label', r.label == label)
        E.ensure('kind', r.reftype.strip() == typ.lower())
        E.ensure('fields', r.entries == want, (t, r.entries, want))
        E.ensure('author', r.author() == want.get('author', 'Unknown author'))
        E.ensure('year', r.year() == want.get('year', 'Unknown date') and (r.year() == 'Unknown date' or type(r.year()) is int))
    for bad in ('', 'nobody', 'ref', 'Ref0'):
        ok = False
        try:
            m.get(bad)
        except ValueError:
            ok = True
        E.ensure('unknown labels', ok)
    a = rng.choice(['Any', 'Vinogradov', 'Guth', 'Heath', 'nobody'])
    ys = [e[3]['year'] for e in es if 'year' in e[3]]
    y = rng.choice(ys + ['Any', 1700] + [x // 10 for x in ys[:1]] + [x % 1000 for x in ys[:1]])
    got = m.find_all(a, y)
    want = [e[1] for e in es if (a == 'Any' or a in e[3].get('author', '')) and (y == 'Any' or e[3].get('year') == y)]
    E.ensure('query', sorted(r.label for r in got) == sorted(want), (a, y))


def check_bibliography(E):
    """the bibliography of the repository, read by an independent parser"""
    import reference
    import re
    path = os.path.join(os.path.dirname(reference.__file__), '..', 'references.bib')
    with open(path) as f:
        s = f.read()
    m = Reference_Manager(path)
    m.load()
    want = {}
    i = 0
    while True:
        h = re.compile(r'@\s*(\w+)\s*\{\s*([^,\s{}]+)\s*,').search(s, i)
        if h is None:
            break
        i, fields = h.end(), {}
        while True:
            k = re.compile(r'\s*,?\s*([\w-]+)\s*=\s*').match(s, i)
            if k is None:
                break
            i = k.end()
            if s[i] == '{':
                d, j = 0, i
                while True:
                    d += (s[j] == '{') - (s[j] == '}')
                    j += 1
                    if d == 0:
                        break
                v = ' '.join(x.strip() for x in s[i + 1:j - 1].split('\n'))
                i = j
                fields[k.group(1).lower()] = v
            else:
                i = re.compile(r'"[^"]*"|\w*').match(s, i).end()
        want[h.group(2)] = fields
    E.ensure('entries', sorted(want) == sorted(m.refs), (set(want) ^ set(m.refs),))
    for l, f in want.items():
        r = m.get(l)
        for k, v in f.items():
            if k == 'year':
                E.ensure('year', r.entries['year'] == int(v.split('/')[0]), (l,))
            elif k == 'author':
                names = [p.strip() for p in v.split(' and ')]
                E.ensure('author', r.entries['author'] == '--'.join(p.split(',')[0] if ',' in p else p.split(' ')[-1] for p in names), (l,))
            elif v:
                E.ensure('field', r.entries[k] == v, (l, k))
