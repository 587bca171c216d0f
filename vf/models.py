"""Reference models, written from the documentation.  No code is shared with
the package under test."""
import math

STOPWORDS = frozenset(
    'a and are as at be but by for if in into is it no not of on or such that '
    'the their then there these they this to was will with'.split())

K1 = 1.2
B = 0.75


# ------------------------------------------------------------- text pipeline

def wordchar(c):
    return c.isalnum() or c == '_'


def split_words(s):
    res, cur = [], []
    for c in s:
        if wordchar(c):
            cur.append(c)
        elif cur:
            res.append(''.join(cur))
            cur = []
    if cur:
        res.append(''.join(cur))
    return res


def split_globs(s):
    """Runs of word characters and wildcards that start at a word character."""
    res, cur = [], []
    for c in s:
        if wordchar(c) or (cur and c in '*?'):
            cur.append(c)
        elif cur:
            res.append(''.join(cur))
            cur = []
    if cur:
        res.append(''.join(cur))
    return res


ASCII_LETTERS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def strip_markup(s):
    s = s.lower()
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '<':
            j = i + 1
            while j < n and s[j] not in '<>':
                j += 1
            if j < n and s[j] == '>':
                out.append(' ')
                i = j + 1
                continue
        elif c == '&':
            j = i + 1
            while j < n and s[j] in ASCII_LETTERS:
                j += 1
            if j > i + 1 and j < n and s[j] == ';':
                out.append(' ')
                i = j + 1
                continue
        out.append(c)
        i += 1
    return ''.join(out)


def split_space(s):
    return s.split(' ')


class Pipeline:
    """name: default | nostop | case | html | single | space | none"""

    def __init__(self, name):
        self.name = name

    def __call__(self, text, glob=False):
        if text is None:
            text = ''
        if isinstance(text, str):
            text = [text]
        if self.name == 'none':
            return list(text)
        res = []
        for chunk in text:
            if self.name == 'html':
                chunk = strip_markup(chunk)
            if self.name == 'space':
                ws = [w for w in split_space(chunk) if w]
            elif glob:
                ws = split_globs(chunk)
            else:
                ws = split_words(chunk)
            res += ws
        if self.name == 'case' or self.name == 'space':
            return res
        res = [w.lower() for w in res]
        if self.name in ('default', 'html', 'single'):
            res = [w for w in res if w not in STOPWORDS]
        if self.name == 'single':
            res = [w for w in res if not (len(w) == 1 and ord(w) < 255)]
        return res


# ------------------------------------------------------------- query language

class PErr(Exception):
    """A query the grammar rejects."""


def query_tokens(s):
    res = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in '()':
            res.append(c)
            i += 1
            continue
        q = i + 1 if c == '-' else i
        if q < n and s[q] == '"':
            k = s.find('"', q + 1)
            if k >= 0:
                res.append(s[i:k + 1])
                i = k + 1
                continue
            if c == '"':
                i += 1
                continue
        if c == '"' or c.isspace():
            i += 1
            continue
        j = i
        while j < n and s[j] not in '()"' and not s[j].isspace():
            j += 1
        res.append(s[i:j])
        i = j
    return res


def token_type(t):
    u = t.upper()
    return u if u in ('AND', 'OR', 'NOT', '(', ')') else 'ATOM'


class RefParser:
    """-> nested tuples ('ATOM', w) ('PHRASE', [w..]) ('GLOB', p)
    ('AND', [..]) ('OR', [..]) ('NOT', t); None = only common words."""

    def __init__(self, pipeline):
        self.pipeline = pipeline

    def parse(self, s):
        self.toks = [(token_type(t), t) for t in query_tokens(s)]
        self.toks.append(('EOF', ''))
        self.i = 0
        self.ignored = []
        t = self.orexpr()
        if self.type() != 'EOF':
            raise PErr('trailing')
        if t is None:
            raise PErr('only common words')
        return t

    def type(self):
        return self.toks[self.i][0]

    def orexpr(self):
        alts = [self.andexpr()]
        while self.type() == 'OR':
            self.i += 1
            alts.append(self.andexpr())
        alts = [a for a in alts if a is not None]
        if not alts:
            return None
        return alts[0] if len(alts) == 1 else ('OR', alts)

    def andexpr(self):
        pos, neg = [], []
        t = self.term()
        if t is not None:
            pos.append(t)
        while self.type() in ('AND', 'NOT'):
            negated = self.type() == 'NOT'
            self.i += 1
            if not negated and self.type() == 'NOT':
                negated = True
                self.i += 1
            t = self.term()
            if t is None:
                continue
            if negated:
                neg.append(('NOT', t))
            else:
                pos.append(t)
        if not pos:
            return None
        both = pos + neg
        return both[0] if len(both) == 1 else ('AND', both)

    def term(self):
        if self.type() == '(':
            self.i += 1
            t = self.orexpr()
            if self.type() != ')':
                raise PErr('missing )')
            self.i += 1
            return t
        if self.type() != 'ATOM':
            raise PErr('word expected')
        pos, neg = [], []
        while self.type() == 'ATOM':
            tok = self.toks[self.i][1]
            self.i += 1
            words = self.pipeline(tok, glob=True)
            if not words:
                self.ignored.append(tok)
                continue
            if len(words) > 1:
                node = ('PHRASE', list(words))
            elif '*' in words[0] or '?' in words[0]:
                node = ('GLOB', words[0])
            else:
                node = ('ATOM', words[0])
            if tok[0] == '-':
                neg.append(('NOT', node))
            else:
                pos.append(node)
        if not pos and not neg:
            return None
        if not pos:
            raise PErr('no positive word')
        both = pos + neg
        return both[0] if len(both) == 1 else ('AND', both)


def tree_terms(t):
    """The terms of a parse tree outside negated parts, in order."""
    if t[0] == 'NOT':
        return []
    if t[0] in ('AND', 'OR'):
        return [x for s in t[1] for x in tree_terms(s)]
    return [t[1]]


def tree_has_glob(t):
    if t[0] in ('AND', 'OR'):
        return any(tree_has_glob(s) for s in t[1])
    if t[0] == 'NOT':
        return False
    if t[0] == 'PHRASE':
        return any('*' in w or '?' in w for w in t[1])
    return t[0] == 'GLOB'


def tree_depth_ops(t):
    if t[0] in ('AND', 'OR'):
        return 1 + max(tree_depth_ops(s) for s in t[1])
    if t[0] == 'NOT':
        return 1 + tree_depth_ops(t[1])
    return 0


def wildcard(pattern, word):
    """Shell-like match of * and ?, everything else literal."""
    i = j = 0
    star = None             # after the last *, and what it has taken up to
    while j < len(word):
        if i < len(pattern) and pattern[i] == '*':
            i += 1
            star = i, j
        elif i < len(pattern) and pattern[i] in ('?', word[j]):
            i, j = i + 1, j + 1
        elif star:
            star = star[0], star[1] + 1
            i, j = star
        else:
            return False
    return not pattern[i:].strip('*')


def contains_run(words, run):
    n = len(run)
    return any(words[i:i + n] == run for i in range(len(words) - n + 1))


# -------------------------------------------------------------------- models

class TextModel:
    def __init__(self, ranking, pipeline='default'):
        self.ranking = ranking           # 'okapi' | 'cosine'
        self.pipe = Pipeline(pipeline)
        self.docs = {}
        self.lex = {}                    # words ever fed to the lexicon
        self._stats = None

    def copy(self):
        m = TextModel(self.ranking, self.pipe.name)
        m.docs = dict(self.docs)
        m.lex = dict(self.lex)
        return m

    def index(self, docid, text):
        words = self.pipe(text)
        for w in words:
            self.lex.setdefault(w, None)
        self.docs[docid] = words
        self._stats = None
        return words

    def unindex(self, docid):
        self.docs.pop(docid, None)
        self._stats = None

    def clear(self):
        self.docs = {}
        self._stats = None

    # statistics
    def stats(self):
        if self._stats is None:
            freq = {}
            for d, ws in self.docs.items():
                for w in ws:
                    freq.setdefault(w, {})
                    freq[w][d] = freq[w].get(d, 0) + 1
            total = sum(map(len, self.docs.values()))
            W = {}
            if self.ranking == 'cosine':
                for d, ws in self.docs.items():
                    c = {}
                    for w in ws:
                        c[w] = c.get(w, 0) + 1
                    W[d] = math.sqrt(sum((1 + math.log(n)) ** 2
                                         for n in c.values()))
            self._stats = freq, total, W
        return self._stats

    def document_count(self):
        return len(self.docs)

    def word_count(self):
        return len(self.stats()[0])

    def idf(self, w):
        return math.log(1.0 + len(self.docs) / len(self.stats()[0][w]))

    def term_scores(self, w):
        freq, total, W = self.stats()
        if w not in freq:
            return {}
        idf = self.idf(w)
        res = {}
        for d, f in freq[w].items():
            if self.ranking == 'okapi':
                mean = total / len(self.docs)
                tf = f * (K1 + 1) / (
                    f + K1 * ((1 - B) + B * len(self.docs[d]) / mean))
                res[d] = tf * idf
            else:
                res[d] = (1 + math.log(f)) / W[d] * idf
        return res

    # searches
    def search_words(self, ws):
        """union over the word occurrences"""
        res = {}
        for w in ws:
            for d, s in self.term_scores(w).items():
                res[d] = res.get(d, 0.0) + s
        return res

    def search(self, text):
        ws = self.pipe(text)
        return None if not ws else self.search_words(ws)

    def search_phrase(self, words):
        ws = self.pipe(words)
        if not ws:
            return {}
        res = {}
        scores = [self.term_scores(w) for w in ws]
        for d, dw in self.docs.items():
            if contains_run(dw, ws):
                res[d] = sum(s[d] for s in scores)
        return res

    def search_glob(self, pattern):
        return self.search_words([w for w in self.stats()[0]
                                  if wildcard(pattern, w)])

    def evaluate(self, t):
        kind, v = t
        if kind == 'ATOM':
            return self.search(v)
        if kind == 'PHRASE':
            return self.search_phrase(v)
        if kind == 'GLOB':
            return self.search_glob(v)
        if kind == 'OR':
            res = {}
            for s in v:
                for d, x in (self.evaluate(s) or {}).items():
                    res[d] = res.get(d, 0.0) + x
            return res
        if kind == 'AND':
            parts = [self.evaluate(s) for s in v if s[0] != 'NOT']
            nots = [self.evaluate(s[1]) or {} for s in v if s[0] == 'NOT']
            parts = [p for p in parts if p is not None]
            res = {}
            for d in (parts[0] if parts else {}):
                if all(d in p for p in parts) and not any(d in n for n in nots):
                    res[d] = sum(p[d] for p in parts)
            return res
        raise AssertionError(t)

    def query_weight(self, terms):
        freq = self.stats()[0]
        ws = [w for t in terms for w in self.pipe(t) if w in freq]
        if self.ranking == 'okapi':
            return sum(self.idf(w) * (1 + K1) for w in ws)
        count = {}
        for w in ws:
            count[w] = count.get(w, 0) + 1
        return math.sqrt(sum((n * self.idf(w)) ** 2 for w, n in count.items()))

    def parse(self, query):
        return RefParser(self.pipe).parse(query)

    def apply(self, query):
        """-> ('ok', {docid: score/weight}, tree) or ('ParseError',)"""
        try:
            t = self.parse(query)
        except PErr:
            return ('ParseError',)
        res = self.evaluate(t) or {}
        qw = self.query_weight(tree_terms(t)) or 1.0
        return ('ok', {d: s / qw for d, s in res.items()}, t)


def field_key(v):
    return (v is not None, v)


class FieldModel:
    def __init__(self):
        self.docs = {}

    def copy(self):
        m = FieldModel()
        m.docs = dict(self.docs)
        return m

    def index(self, docid, v):
        self.docs[docid] = v

    def unindex(self, docid):
        self.docs.pop(docid, None)

    def clear(self):
        self.docs = {}

    def document_count(self):
        return len(self.docs)

    def word_count(self):
        res = []
        if all(isinstance(v, (int, float, str, tuple, bytes, type(None)))
               for v in self.docs.values()):
            return len(set(self.docs.values()))
        for v in self.docs.values():
            if v not in res:
                res.append(v)
        return len(res)

    def range(self, lo, hi):
        res = []
        for d, v in self.docs.items():
            if lo is not None and (v is None or v < lo):
                continue
            if hi is not None and v is not None and v > hi:
                continue
            res.append(d)
        return sorted(res)

    def sorted(self, docids, reverse=False):
        ids = sorted(set(docids) & self.docs.keys())
        return sorted(ids, key=lambda d: field_key(self.docs[d]),
                      reverse=reverse)


def own_keywords(ws):
    """Normalization by a subclass: several keywords of one, or none."""
    return [part for w in ws for part in w.split(' ') if part]


class KeywordModel:
    def __init__(self, ci=False):
        self.ci = ci
        self.docs = {}

    def copy(self):
        m = KeywordModel(self.ci)
        m.docs = dict(self.docs)
        return m

    def norm(self, ws):
        if self.ci == 'own':
            return frozenset(own_keywords(ws))
        return frozenset(w.lower() if self.ci else w for w in ws)

    def index(self, docid, ws):
        ws = self.norm(ws or ())
        if ws:
            self.docs[docid] = ws
        else:
            self.docs.pop(docid, None)

    def unindex(self, docid):
        self.docs.pop(docid, None)

    def clear(self):
        self.docs = {}

    def document_count(self):
        return len(self.docs)

    def word_count(self):
        return len(set().union(*self.docs.values()))

    def search(self, ws, operator):
        ws = self.norm(ws)
        if not ws:
            return []
        if operator == 'and':
            return sorted(d for d, k in self.docs.items() if ws <= k)
        return sorted(d for d, k in self.docs.items() if ws & k)


class TopicModel:
    """filters: id -> [expression, set of docids]"""

    def __init__(self):
        self.filters = {}

    def copy(self):
        m = TopicModel()
        m.filters = {k: [e, set(s)] for k, (e, s) in self.filters.items()}
        return m

    def clear(self):
        self.filters = {}

    def add_filter(self, fid, expr):
        self.filters[fid] = [expr, set()]

    def del_filter(self, fid):
        self.filters.pop(fid, None)

    def clear_filters(self):
        for f in self.filters.values():
            f[1] = set()

    def index(self, docid, ctx):
        for f in self.filters.values():
            f[1].discard(docid)
            if truth(f[0], ctx):
                f[1].add(docid)

    def unindex(self, docid):
        for f in self.filters.values():
            f[1].discard(docid)

    def search(self, names, operator):
        sets = [f[1] for k, f in self.filters.items() if k in names]
        if not sets:
            return []
        res = set(sets[0])
        for s in sets[1:]:
            res = res & s if operator == 'and' else res | s
        return sorted(res)


# A topic expression is a pair (source, meaning): the meaning is a small
# literal tuple evaluated here, without eval.
def truth(meaning, ctx):
    try:
        return bool(meaning_value(meaning, ctx))
    except Exception:
        return False


def meaning_value(m, ctx):
    op = m[0]
    if op == 'attr':
        v = ctx[m[1]]            # KeyError: no such attribute
        if isinstance(v, tuple) and v and v[0] in ('raise', 'badbool'):
            raise RuntimeError(v)
        return v
    if op == 'const':
        return m[1]
    if op == 'error':
        raise RuntimeError
    if op == 'eq':
        return meaning_value(m[1], ctx) == m[2]
    if op == 'gt':
        return meaning_value(m[1], ctx) > m[2]
    if op == 'in':
        return m[1] in meaning_value(m[2], ctx)
    if op == 'and':
        return meaning_value(m[1], ctx) and meaning_value(m[2], ctx)
    if op == 'or':
        return meaning_value(m[1], ctx) or meaning_value(m[2], ctx)
    if op == 'not':
        return not meaning_value(m[1], ctx)
    raise AssertionError(m)
