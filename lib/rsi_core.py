"""Abstract interpreter for Rust source (syntax tree from rsdump).

Values are concrete where the program fixes them and abstract where it does
not: `Ch` is an input character known only up to a set of code points, `Lin`
a linear form over unknown integers, `Top` an unknown.  A test the abstract
values do not settle splits the trace (trace partitioning); splits are taken
from a decision list so that a trace can be replayed.  Anything the
interpreter has no transfer function for raises `Unknown`: no verdict is
drawn from it.
"""
import json, os, subprocess
from collections import OrderedDict
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(HERE, '..', 'work', 'rsdump-target', 'debug', 'rsdump')


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


class Prune(Exception):
    pass


class BreakEx(Exception):
    def __init__(s, label, v): s.label, s.v = label, v


class ContinueEx(Exception):
    def __init__(s, label): s.label = label


class ReturnEx(Exception):
    def __init__(s, v): s.v = v


def ensure():
    if not os.path.exists(BIN) or os.path.getmtime(BIN) < os.path.getmtime(os.path.join(HERE, '..', 'rsdump', 'src', 'main.rs')):
        subprocess.run(['bash', os.path.join(HERE, '..', 'rsdump', 'build.sh')], check=True)
    return BIN


def dump(files):
    ensure()
    r = subprocess.run([BIN] + list(files), capture_output=True, text=True)
    if r.returncode:
        raise Unknown('source does not parse: ' + r.stderr[:300])
    return json.loads(r.stdout)


def dump_exprs(snips):
    ensure()
    r = subprocess.run([BIN, '--exprs'], input=json.dumps(snips), capture_output=True, text=True, check=True)
    return json.loads(r.stdout)


# ---------------------------------------------------------------- values
class Cell:
    __slots__ = ('v',)

    def __init__(s, v=None): s.v = v


class Place:
    """a mutable reference: get/set pair"""
    def __init__(s, get, set_): s.get, s.set = get, set_


class Adt:
    def __init__(s, ty, var, fields=None):
        s.ty, s.var, s.f = ty, var, fields if fields is not None else []

    def __repr__(s):
        return f'{s.ty}::{s.var}' + (repr(s.f) if s.f else '')


class IW(int):
    """an integer of a known Rust type"""
    def __new__(cls, v, t):
        x = int.__new__(cls, v); x.t = t; return x
    def __reduce__(s): return (IW, (int(s), s.t))


class NotI(int):
    """the complement of an integer whose type is not known: only its low bits mean anything"""


def Some(v): return Adt('Option', 'Some', [v])
def Ok(v): return Adt('Result', 'Ok', [v])
def Err(v): return Adt('Result', 'Err', [v])


NONE = Adt('Option', 'None')
UNIT = ()


class CP:
    """a concrete character"""
    def __init__(s, c): s.c = c
    def __repr__(s): return f'CP({chr(s.c)!r})'
    def __eq__(s, o): return isinstance(o, CP) and s.c == o.c
    def __hash__(s): return hash(('cp', s.c))


FULL = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def isect(a, b):
    r = []
    for x, y in a:
        for u, v in b:
            l, h = max(x, u), min(y, v)
            if l <= h:
                r.append((l, h))
    return tuple(sorted(r))


def compl(a, uni=FULL):
    r = list(uni)
    for x, y in a:
        n = []
        for u, v in r:
            if y < u or x > v:
                n.append((u, v)); continue
            if u < x: n.append((u, x - 1))
            if v > y: n.append((y + 1, v))
        r = n
    return tuple(r)


def single(st):
    return len(st) == 1 and st[0][0] == st[0][1]


class Ch:
    """input character number idx, known up to its set"""
    def __init__(s, idx, st=FULL): s.idx, s.set = idx, st
    def __repr__(s): return f'Ch{s.idx}{s.set}'


class Lin:
    """const + sum coef*atom; atoms are hashable with known ranges"""
    def __init__(s, c, terms): s.c, s.t = c, tuple(sorted((a, k) for a, k in terms if k))

    def key(s): return (s.c, s.t)
    def __repr__(s): return f'Lin({s.c},{s.t})'


class CharOf:
    """character with code given by an abstract integer"""
    def __init__(s, n): s.n = n
    def __repr__(s): return f'CharOf({s.n})'


class Top:
    def __init__(s, why=''): s.why = why
    def __repr__(s): return f'Top({s.why})'


class Closure:
    def __init__(s, node, env, frame): s.node, s.env, s.frame = node, env, frame


class FnRef:
    def __init__(s, node, selfty=None): s.node, s.selfty = node, selfty


class Ctor:
    def __init__(s, ty, var): s.ty, s.var = ty, var


class NFn:
    def __init__(s, fn): s.fn = fn


class Native:
    """base for modelled library objects"""
    def method(s, I, m, args, node): raise Unknown(f'{type(s).__name__}.{m}')
    def norm(s, nz): return (type(s).__name__,) + tuple(nz(v) for v in s.__dict__.values())


class U256v:
    def __init__(s, v): s.v = v
    def __repr__(s): return f'U256({s.v})'


class RangeV:
    def __init__(s, lo, hi, incl): s.lo, s.hi, s.incl = lo, hi, incl


class It:
    """iterator; nxt() -> value or None-marker STOP"""
    def __init__(s, nxt, parts=(), clone=None, kind='it'):
        s.nxt, s.parts, s._clone, s.kind = nxt, parts, clone, kind
        s.peeked = []

    def next(s):
        if s.peeked:
            return s.peeked.pop()
        return s.nxt()

    def clone(s):
        if not s._clone:
            raise Unknown('clone of iterator')
        n = s._clone(); n.peeked = list(s.peeked)
        return n


STOP = object()


# ------------------------------------------------------------- input text
class Input:
    """the abstract source text, materialised one character at a time"""
    def __init__(s, I, universe=FULL): s.I, s.cells, s.ended, s.universe = I, [], False, universe

    def get(s, k):
        while len(s.cells) <= k:
            if s.ended:
                return None
            s.I.on_read(s)
            c = Ch(len(s.cells), s.universe)
            if s.I.choose(2, 'end of input') == 1:
                s.ended = True
                s.I.on_char(s, None)
                return None
            s.cells.append(c)
            s.I.on_char(s, c)
        return s.cells[k]


class InStr:
    """slice of the input from cell a up to cell b (None: the end)"""
    def __init__(s, inp, a, b=None): s.inp, s.a, s.b = inp, a, b


class Off:
    """byte offset of input cell k, counted from cell base; k None: the end"""
    def __init__(s, inp, base, k): s.inp, s.base, s.k = inp, base, k


class InChars(It):
    def __init__(s, inp, pos, end, mode='chars', base=0):
        s.inp, s.pos, s.end, s.mode, s.base = inp, pos, end, mode, base
        s.peeked = []; s.kind = 'in'

    def nxt(s):
        if s.end is not None and s.pos >= s.end:
            return STOP
        c = s.inp.get(s.pos)
        if c is None:
            return STOP
        p = s.pos
        s.pos += 1
        if s.mode == 'idx':
            return (Off(s.inp, s.base, p), c)
        if s.mode == 'bytes':
            return ByteOf(c)
        return c

    def clone(s):
        n = InChars(s.inp, s.pos, s.end, s.mode, s.base); n.peeked = list(s.peeked)
        return n


class ByteOf:
    def __init__(s, ch): s.ch = ch


class SymStr:
    """text with known pieces and unknown ones: tuple of str | (name, charset, min, max)"""
    def __init__(s, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        s.parts = tuple(out)
    def __repr__(s): return f'SymStr{s.parts}'
    def __eq__(s, o): return isinstance(o, SymStr) and s.parts == o.parts
    def __hash__(s): return hash(s.parts)


class View(list):
    """A slice of a list that writes through to it, as &mut v[a..b] does."""
    def __init__(s, base, lo, hi):
        super().__init__(base[lo:hi])
        s.base, s.lo = base, lo
    def back(s): s.base[s.lo:s.lo + len(s)] = list(s)
    def __setitem__(s, i, x):
        super().__setitem__(i, x); s.back()
    def reverse(s):
        super().reverse(); s.back()
    def sort(s, **k):
        super().sort(**k); s.back()


PLACEK = ('Path', 'Field', 'Index', 'Unary')


def last(segs): return segs[-1][0]


MUTSTR = {'push', 'push_str', 'pop', 'remove', 'clear', 'insert', 'insert_str', 'truncate', 'retain', 'drain'}


