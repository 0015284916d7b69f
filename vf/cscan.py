"""Small C scanner: finds function definitions and their loops in a source file.

Used to inject loop contracts into a mechanical copy of /repo's sources.  The
only edits ever made to the copy are inserting loop contracts between a loop
header and its body, and statements on ghost variables at the start of a loop
body and after a loop; everything else is byte for byte the file in /repo.
"""
import re

_WS = re.compile(r'\s+')
_ID = re.compile(r'[A-Za-z_]\w*')
_NUM = re.compile(r'\.?\d[\w.]*')
KEYWORDS = {'if', 'while', 'for', 'switch', 'return', 'sizeof', 'do', 'else'}
LOOP_MACROS = re.compile(r'^(\w+_)?(FOREACH|FOREACH_SAFE|FOREACH_REVERSE|'
                         r'FOREACH_REVERSE_SAFE)$')


def tokens(text):
    """Yield (kind, text, start, end); comments and cpp lines are skipped."""
    i, n = 0, len(text)
    bol = True
    while i < n:
        c = text[i]
        if c in ' \t\r\f\v':
            i += 1
            continue
        if c == '\n':
            bol = True
            i += 1
            continue
        if text.startswith('/*', i):
            j = text.find('*/', i + 2)
            i = n if j < 0 else j + 2
            continue
        if text.startswith('//', i):
            j = text.find('\n', i)
            i = n if j < 0 else j
            continue
        if c == '#' and bol:
            while True:
                j = text.find('\n', i)
                if j < 0:
                    i = n
                    break
                if text[j - 1] == '\\':
                    i = j + 1
                    continue
                i = j
                break
            continue
        bol = False
        if c == '"' or c == "'":
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            yield ('str', text[i:j + 1], i, j + 1)
            i = j + 1
            continue
        m = _ID.match(text, i)
        if m:
            yield ('id', m.group(), i, m.end())
            i = m.end()
            continue
        m = _NUM.match(text, i)
        if m:
            yield ('num', m.group(), i, m.end())
            i = m.end()
            continue
        yield ('p', c, i, i + 1)
        i += 1


class Loop:
    __slots__ = ('kind', 'insert', 'line', 'body', 'end')

    def __init__(self, kind, insert, line, body, end=None):
        self.kind, self.insert, self.line = kind, insert, line
        self.body, self.end = body, end


class Func:
    __slots__ = ('name', 'start', 'body', 'end', 'loops', 'toks')

    def __repr__(self):
        return '<%s %d loops>' % (self.name, len(self.loops))


def functions(text):
    """Return {name: Func} for the function definitions in text."""
    toks = list(tokens(text))
    out = {}
    i, n = 0, len(toks)
    depth = 0
    while i < n:
        k, t, s, e = toks[i]
        if t == '{' and k == 'p':
            if depth == 0:
                name = _funcname(toks, i)
                j = _match(toks, i, '{', '}')
                if name:
                    f = Func()
                    f.name = name
                    f.start = s
                    f.body = (s, toks[j][3] if j < n else len(text))
                    f.toks = toks[i:j + 1]
                    f.loops = _loops(text, f.toks)
                    out[name] = f
                i = j + 1
                continue
        i += 1
    return out


def _match(toks, i, o, c):
    d = 0
    while i < len(toks):
        t = toks[i][1] if toks[i][0] == 'p' else None
        if t == o:
            d += 1
        elif t == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(toks) - 1


def _funcname(toks, i):
    """toks[i] is a '{' at depth 0; return the function name or None."""
    j = i - 1
    if j < 0 or toks[j][1] != ')':
        return None
    while True:
        d = 0
        while j >= 0:
            if toks[j][0] == 'p' and toks[j][1] == ')':
                d += 1
            elif toks[j][0] == 'p' and toks[j][1] == '(':
                d -= 1
                if d == 0:
                    break
            j -= 1
        j -= 1
        if j < 0 or toks[j][0] != 'id':
            return None
        if toks[j][1] == '__attribute__':
            j -= 1
            if toks[j][1] != ')':
                return None
            continue
        return toks[j][1]


def _loops(text, toks):
    loops = []
    dotails = {}
    i = 0
    n = len(toks)
    # find do ... while tails
    stack = []
    for i in range(n):
        k, t = toks[i][0], toks[i][1]
        if k == 'id' and t == 'do':
            if i + 1 < n and toks[i + 1][1] == '{':
                j = _match(toks, i + 1, '{', '}')
                if j + 1 < n and toks[j + 1][1] == 'while':
                    # Contracts follow the keyword.
                    dotails[j + 1] = (toks[i][3], toks[i + 1][3])
    for i in range(n):
        k, t, s, e = toks[i]
        if k != 'id':
            continue
        if t in ('for', 'while') or LOOP_MACROS.match(t):
            if i + 1 >= n or toks[i + 1][1] != '(':
                continue
            j = _match(toks, i + 1, '(', ')')
            line = text.count('\n', 0, s) + 1
            if i in dotails:
                loops.append(Loop('do', dotails[i][0], line, dotails[i][1]))
                continue
            kind = t
            body = end = None
            if j + 1 < n and toks[j + 1][1] == '{':
                body = toks[j + 1][3]
                end = toks[_match(toks, j + 1, '{', '}')][3]
            elif j + 1 < n and toks[j + 1][1] not in (
                    ';', 'if', 'for', 'while', 'do', 'switch'):
                # A single statement, put into braces if needed.
                m = j + 1
                while m < n and toks[m][1] != ';':
                    m = _match(toks, m, '(', ')') if toks[m][1] == '(' \
                        else m
                    m += 1
                if m < n:
                    body = (toks[j + 1][2], toks[m][3])
                    end = toks[m][3]
            loops.append(Loop(kind, toks[j][3], line, body, end))
    return loops


def inject(text, clauses):
    """clauses: {func: [clause or None, ...]}.  Returns (newtext, problems)."""
    fs = functions(text)
    ins = []
    problems = []
    for fn, cl in clauses.items():
        f = fs.get(fn)
        if f is None:
            problems.append('function %s not found' % fn)
            continue
        if len(f.loops) != len(cl):
            problems.append('function %s has %d loops, contracts expect %d' %
                            (fn, len(f.loops), len(cl)))
            continue
        for lp, c in zip(f.loops, cl):
            if c:
                c, _, after = c.partition('@after')
                c, _, ghost = c.partition('@ghost')
                ins.append((lp.insert, ' ' + _WS.sub(' ', c.strip()) + ' '))
                if after:
                    if lp.end is None:
                        problems.append('function %s: no loop end' % fn)
                        continue
                    ins.append((lp.end, ' ' + _WS.sub(' ', after.strip()) +
                                ' '))
                if ghost:
                    if lp.body is None:
                        problems.append('function %s: no loop body' % fn)
                        continue
                    if isinstance(lp.body, tuple):
                        ins.append((lp.body[0], '{ ' + _WS.sub(
                            ' ', ghost.strip()) + ' '))
                        ins.append((lp.body[1], ' }'))
                        continue
                    ins.append((lp.body, ' ' + _WS.sub(' ', ghost.strip()) +
                                ' '))
    for pos, c in sorted(ins, reverse=True):
        text = text[:pos] + c + text[pos:]
    return text, problems


def cut(text, fn, cuts):
    """Loops made of a label and backward jumps: ghost statements after the
    label (assert, havoc and assume the invariant) and in front of every jump
    to it (assert the invariant, stop).  cuts: {label: (entry, back)}."""
    f = functions(text).get(fn)
    if f is None:
        return text, ['function %s not found' % fn]
    ins, problems = [], []
    for label, (entry, back) in cuts.items():
        n = 0
        for a, b, c in zip(f.toks, f.toks[1:], f.toks[2:]):
            if b[1] == label and c[1] == ':' and a[1] in (';', '}', '{'):
                ins.append((c[3], ' %s ' % entry))
                n += 1
                pos = c[3]
            if a[1] == 'goto' and b[1] == label:
                # Never taken: back ends with assume(0).
                ins.append((a[2], ' { %s /* ' % back))
                ins.append((c[3], ' */ } '))
                n += 1
        if n != 2 or max(i[0] for i in ins) == pos:
            problems.append('function %s: label %s' % (fn, label))
    for pos, c in sorted(ins, reverse=True):
        text = text[:pos] + c + text[pos:]
    return text, problems


def local_renames(reftoks, curtoks):
    """Consistent identifier renaming between two token lists, or None."""
    if len(reftoks) != len(curtoks):
        return None
    m, inv = {}, {}
    for a, b in zip(reftoks, curtoks):
        if a[0] != b[0]:
            return None
        if a[0] != 'id':
            if a[1] != b[1]:
                return None
            continue
        if m.setdefault(a[1], b[1]) != b[1]:
            return None
        if inv.setdefault(b[1], a[1]) != a[1]:
            return None
    return m


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        for f in functions(open(p).read()).values():
            print(p, f.name, [(l.kind, l.line) for l in f.loops])
