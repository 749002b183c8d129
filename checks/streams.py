"""token streams: the sequence of items a routine writes to a stream, from the abstract interpretation's output events"""
from formulas import *

SPACE = ' \t\n'


def root(loc):
    return loc[0] if type(loc) is tuple and len(loc) == 2 else loc


def is_manip(v):
    return isinstance(v, Fn)


def items(I, obj=None):
    """[(event, value)] of everything written with <<, newest stream naming: only to `obj` when given"""
    out = []
    for e in I.events:
        if e.name != '<<':
            continue
        r = e.args[0]
        o = root(r.loc) if isinstance(r, Ref) else None
        if obj is not None and o != obj:
            continue
        out.append((e, e.args[1]))
    return out


def text(v, t=''):
    """constant text of a written value"""
    if t in ('char', 'const char') and isinstance(v, Poly) and v.is_const():
        return chr(int(v.cval()))
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Fn):
        return '\n' if 'endl' in str(v.n) else ''
    return None


class Tokens:
    """whitespace separated tokens; a token is a text or a term; a token glued from a text and a term becomes ('glued', parts)"""

    def __init__(self, its):
        self.t = []
        self.ev = []
        self.lines = []
        cur = []
        cev = None
        line = []

        def flush():
            nonlocal cur, cev
            if cur:
                tok = cur[0] if len(cur) == 1 else (''.join(cur) if all(isinstance(x, str) for x in cur) else ('glued', tuple(cur)))
                self.t.append(tok)
                self.ev.append(cev)
                line.append(tok)
                cur = []
        for e, v in its:
            s = text(v, e.args[2].k[1] if len(e.args) > 2 and isinstance(e.args[2], Opq) else '')
            if s is None:
                cur.append(v)
                cev = e
                continue
            for ch in s:
                if ch in SPACE:
                    flush()
                    if ch == '\n':
                        self.lines.append(line)
                        line = []
                elif cur and isinstance(cur[-1], str):
                    cur[-1] += ch
                else:
                    cur.append(ch)
                    cev = e
        flush()
        if line:
            self.lines.append(line)
