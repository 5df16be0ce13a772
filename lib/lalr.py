"""LALRPOP grammars: reading one, inlining it over chosen core symbols, and
evaluating its actions symbolically."""
import re, json
from rsi_core import *
import rsi


class G:
    def __init__(g): g.nts, g.match, g.prelude, g.order = {}, None, '', []


class Tok:
    def __init__(s, t):
        s.t, s.i = t, 0

    def ws(s):
        while True:
            m = re.compile(r'\s+|//[^\n]*|/\*.*?\*/', re.S).match(s.t, s.i)
            if not m: return
            s.i = m.end()

    def at(s, x): s.ws(); return s.t.startswith(x, s.i)

    def eat(s, x):
        if s.at(x): s.i += len(x); return True
        return False

    def need(s, x):
        if not s.eat(x): raise Unknown(f'grammar: expected {x} at {s.t[s.i:s.i + 30]!r}')

    def ident(s):
        s.ws()
        m = re.compile(r'[A-Za-z_]\w*').match(s.t, s.i)
        if not m: return None
        if re.compile(r'r#*"').match(s.t, s.i): return None
        s.i = m.end()
        return m.group()

    def string(s):
        """('lit', text) | ('re', pattern) or None"""
        s.ws()
        m = re.compile(r'r(#*)"').match(s.t, s.i)
        if m:
            e = '"' + m.group(1)
            j = s.t.index(e, m.end())
            v = s.t[m.end():j]
            s.i = j + len(e)
            return ('re', v)
        if s.t.startswith('"', s.i):
            j = s.i + 1
            while s.t[j] != '"': j += 2 if s.t[j] == '\\' else 1
            v = json.loads(s.t[s.i:j + 1])
            s.i = j + 1
            return ('lit', v)
        return None

    def until(s, stops):
        """raw Rust text up to a stop character at bracket depth 0"""
        s.ws()
        j, d = s.i, 0
        t = s.t
        while j < len(t):
            c = t[j]
            m = re.compile(r'r(#*)"').match(t, j)
            if m and not (j and (t[j - 1].isalnum() or t[j - 1] == '_')):
                e = '"' + m.group(1); j = t.index(e, m.end()) + len(e); continue
            if c == '"':
                j += 1
                while t[j] != '"': j += 2 if t[j] == '\\' else 1
                j += 1; continue
            if c == "'":
                m = re.compile(r"'(\\.[^']*|[^'\\])'").match(t, j)
                if m: j = m.end(); continue
            if t.startswith('//', j): j = t.index('\n', j); continue
            if c in '([{': d += 1
            elif c in ')]}':
                if d == 0: break
                d -= 1
            elif d == 0 and c in stops: break
            j += 1
        r = t[s.i:j]; s.i = j
        return r


def parse(text):
    k = Tok(text)
    g = G()
    m = re.search(r'\bgrammar\b[^;]*;', text)
    if not m: raise Unknown('no grammar declaration')
    g.prelude = text[:m.start()]
    k.i = m.end()
    while True:
        k.ws()
        if k.i >= len(text): break
        attrs = []
        while k.eat('#['):
            attrs.append(k.until(']')); k.need(']')
        if k.at('match') and re.match(r'match\s*\{', text[k.i:]):
            k.eat('match'); k.need('{'); g.match = k.until(''); k.need('}')
            while k.eat('else'): k.need('{'); g.match += ' else ' + k.until(''); k.need('}')
            continue
        if k.at('extern'): raise Unknown('external tokens')
        if re.match(r'use\b', text[k.i:]):
            k.until(';'); k.need(';'); continue
        vis = k.at('pub')
        if vis:
            k.eat('pub')
            if k.eat('('): k.until(')'); k.need(')')
        name = k.ident()
        if not name: raise Unknown('grammar: ' + text[k.i:k.i + 40])
        params = []
        if k.eat('<'):
            while not k.eat('>'):
                params.append(k.ident()); k.eat(',')
        ty = None
        if k.eat(':'): ty = k.until('=').strip()
        k.need('=')
        alts = []
        if k.eat('{'):
            while not k.eat('}'):
                while k.eat('#['): attrs.append(k.until(']')); k.need(']')
                alts.append(alt(k)); k.eat(',')
            k.eat(';')
        else:
            alts.append(alt(k)); k.need(';')
        if any('precedence' in a or 'assoc' in a for a in attrs): raise Unknown('precedence annotations')
        g.nts[name] = {'name': name, 'params': params, 'type': ty, 'alts': alts, 'attrs': attrs}
        g.order.append(name)
    return g


def alt(k):
    syms = []
    while not (k.at('=>') or k.at(',') or k.at('}') or k.at(';')):
        if k.at('if '): raise Unknown('conditional alternative')
        syms.append(symbol(k))
    act = None
    fall = False
    if k.eat('=>'):
        if k.eat('?'): fall = True
        act = k.until(',;').strip()
    return {'syms': syms, 'act': act, 'fallible': fall}


def symbol(k):
    """{'k': lit|re|nt|grp, 'q': quantifiers, 'sel': bool, 'name'}"""
    if k.eat('<'):
        save = k.i
        mut = k.eat('mut ')
        n = k.ident()
        if n and k.at(':') and not k.at('::'):
            k.eat(':')
        else: k.i = save; n = None
        s = symbol(k)
        k.need('>')
        s = dict(s, sel=True, name=n)
        return quant(k, s) if False else s
    if k.eat('('):
        inner = []
        while not k.eat(')'): inner.append(symbol(k))
        s = {'k': 'grp', 'v': inner}
    else:
        t = k.string()
        if t: s = {'k': t[0], 'v': t[1]}
        else:
            if k.at('@'): raise Unknown('location symbols')
            n = k.ident()
            if not n: raise Unknown('grammar symbol ' + k.t[k.i:k.i + 20])
            args = []
            if k.at('<') :
                k.eat('<')
                while not k.eat('>'):
                    args.append(symbol(k)); k.eat(',')
            s = {'k': 'nt', 'v': n, 'args': args}
    return quant(k, s)


def quant(k, s):
    q = ''
    while k.i < len(k.t) and k.t[k.i] in '?*+':
        q += k.t[k.i]; k.i += 1
    return dict(s, q=q, sel=False, name=None)


# ----------------------------------------------------------- expansion
class Sym:
    """an opaque grammar value: core nonterminal or token occurrence"""
    def __init__(s, kind, n=0): s.kind, s.n = kind, n
    def __repr__(s): return f'{s.kind}#{s.n}'
    def __eq__(s, o): return isinstance(o, Sym) and (s.kind, s.n) == (o.kind, o.n)
    def __hash__(s): return hash((s.kind, s.n))


class Gram:
    def __init__(s, g, core, classify, forbid=(), I=None, reps=(0, 1, 2), file=''):
        s.file = file
        # core: {nonterminal: kind}; classify(pattern) -> token class name; forbid: token classes that never occur
        s.g, s.core, s.classify, s.forbid, s.I, s.reps = g, core, classify, set(forbid), I, reps
        s.exprs, s.lits, s.regs = {}, set(), set()
        snips, keys = [], []
        for n, d in g.nts.items():
            for i, a in enumerate(d['alts']):
                if a['act'] is not None:
                    snips.append(prep(a['act'])); keys.append((n, i))
        for kx, e in zip(keys, dump_exprs(snips)):
            if e is None or e.get('k') in ('Unknown', 'Error'): raise Unknown('action of ' + kx[0])
            s.exprs[kx] = e
        s.stack = []

    def collect(s):
        def w(x):
            if x['k'] == 'lit': s.lits.add(x['v'])
            elif x['k'] == 're': s.regs.add(x['v'])
            elif x['k'] == 'grp':
                for y in x['v']: w(y)
            for y in x.get('args', []): w(y)
        for d in s.g.nts.values():
            for a in d['alts']:
                for x in a['syms']: w(x)

    # regular expression over terminals and core symbols
    def rx(s, name, args=(), top=False, env=None):
        if not top and name in s.core: return ('sym', s.core[name])
        if (name, tuple(map(str, args))) in s.stack: raise Unknown('recursion through ' + name)
        s.stack.append((name, tuple(map(str, args))))
        try:
            d = s.g.nts.get(name)
            if d is None: raise Unknown('nonterminal ' + name)
            e = dict(zip(d['params'], args))
            return ('alt', [('cat', [s.rxsym(x, e) for x in a['syms']]) for a in d['alts']])
        finally: s.stack.pop()

    def rxsym(s, x, env):
        k = x['k']
        if k == 'lit': r = ('sym', '"' + x['v'] + '"')
        elif k == 're':
            c = s.classify(x['v'])
            r = ('none',) if c in s.forbid else ('sym', c)
        elif k == 'grp': r = ('cat', [s.rxsym(y, env) for y in x['v']])
        elif x['v'] in env: r = env[x['v']][0]
        else: r = s.rx(x['v'], [(s.rxsym(a, env), a) if not (a['k'] == 'nt' and a['v'] in env and not a['q']) else env[a['v']] for a in x.get('args', [])])
        for q in x['q']:
            r = ('rep', r, {'?': 0, '*': 0, '+': 1}[q], 1 if q == '?' else None, True)
        return r

    # shapes: list of (terminal sequence, derivation tree)
    def shapes(s, name, env=None, top=False, args=()):
        if not top and name in s.core: return [((s.core[name],), ('leaf', s.core[name]))]
        d = s.g.nts.get(name)
        if d is None: raise Unknown('nonterminal ' + name)
        if len(d['alts']) == 1 and len(d['alts'][0]['syms']) == 1 and d['alts'][0]['syms'][0]['k'] == 're' and not d['alts'][0]['syms'][0]['q']:
            c = s.classify(d['alts'][0]['syms'][0]['v'])      # the payload of a token is judged on its own
            return [] if c in s.forbid else [((c,), ('leaf', c))]
        e = dict(zip(d['params'], args))
        if len(s.stack) > 60: raise Unknown('recursion through ' + name)
        s.stack.append(name)
        try:
            out = []
            for i, a in enumerate(d['alts']):
                for seq, kids in s.seqs(a['syms'], e):
                    out.append((seq, ('act', name, i, a, kids)))
            return out
        finally: s.stack.pop()

    def seqs(s, syms, env):
        out = [((), [])]
        for x in syms:
            out = [(seq + q, kids + [v]) for seq, kids in out for q, v in s.symshapes(x, env)]
            if len(out) > 20000: raise Unknown('too many shapes')
        return out

    def symshapes(s, x, env):
        k = x['k']
        if k == 'lit': base = [(('"' + x['v'] + '"',), ('leaf', '"' + x['v'] + '"'))]
        elif k == 're':
            c = s.classify(x['v'])
            base = [] if c in s.forbid else [((c,), ('leaf', c))]
        elif k == 'grp': base = [(q, ('grp', x['v'], kids)) for q, kids in s.seqs(x['v'], env)]
        elif x['v'] in env: base = s.symshapes(env[x['v']][0], env[x['v']][1])
        else: base = s.shapes(x['v'], args=[(a, env) for a in x.get('args', [])])
        for q in x['q']:
            if q == '?':
                base = [((), ('none',))] + [(a, ('some', v)) for a, v in base]
                continue
            res = []
            for n in s.reps:
                if n < (1 if q == '+' else 0): continue
                if n > 1 and len(base) > 4:
                    # every combination would be too many: rotate through the alternatives
                    picks = [[base[(j + t * (1 + j % 3)) % len(base)] for t in range(n)] for j in range(len(base))]
                else:
                    picks = [[]]
                    for _ in range(n): picks = [p + [b] for p in picks for b in base]
                res += [(sum((p[0] for p in pk), ()), ('list', [p[1] for p in pk])) for pk in picks]
            base = res
        return base

    def value(s, tree, ctr):
        """evaluates a derivation; opaque symbols are numbered from left to right"""
        k = tree[0]
        if k == 'leaf':
            ctr[tree[1]] = ctr.get(tree[1], 0) + 1
            return Sym(tree[1], ctr[tree[1]])
        if k == 'none': return NONE
        if k == 'some': return Some(s.value(tree[1], ctr))
        if k == 'list': return [s.value(x, ctr) for x in tree[1]]
        if k == 'grp':
            vals = [s.value(x, ctr) for x in tree[2]]
            return s.chosen(tree[1], vals)
        _, name, i, a, kids = tree
        vals = [s.value(x, ctr) for x in kids]
        sel = s.selected(a['syms'], vals)
        if a['act'] is None: return sel[0][1] if len(sel) == 1 else tuple(v for _, v in sel)
        return s.evalact(name, s.exprs[(name, i)], sel)

    def selected(s, syms, vals):
        return [(x, v) for x, v in zip(syms, vals) if x['sel']] if any(x['sel'] for x in syms) else list(zip(syms, vals))

    def chosen(s, syms, vals):
        ch = [v for _, v in s.selected(syms, vals)]
        return ch[0] if len(ch) == 1 else tuple(ch)

    def evalact(s, name, expr, sel):
        I = s.I
        I.fuel = 100000
        env = [{ANG: Cell(sel[0][1] if len(sel) == 1 else tuple(v for _, v in sel))}]
        for x, v in sel:
            if x['name']: env[0][x['name']] = Cell(v)
        fr = {'fn': {'name': name, 'file': s.file}, 'env': env, 'selfty': None, 'ret': None}
        I.frames.append(fr)
        try: return I.deref(I.val(expr, env))
        finally: I.frames.pop()


ANG = '__angle__'


def prep(act):
    """action text with <> made an identifier the evaluator knows"""
    return re.sub(r'<>', ANG, act)
