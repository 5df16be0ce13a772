"""F properties: the front end (comments, string literals, tokens, grammar, packages)."""
import os, time
import rsi
from rsi_core import *
from product import *
import report

REPO = os.environ.get('VERIF_REPO', '/repo')
UTILS = REPO + '/src/yul2ir/utils.rs'


def interp_for(files):
    trees = dump(files)
    return rsi.Interp(trees)


class Spec:
    """a specification machine fed one character at a time; None is the end"""
    def __init__(s, I): s.I, s.out, s.st = I, [], None
    def buffer(s, its, nz): return None
    def is_(s, c, *codes): return s.I.split_ch(c, tuple((k, k) for k in sorted(ord(x) for x in codes)))


# ---------------------------------------------------------------- F01
class CommentSpec(Spec):
    """deletes // and /* */ outside string literals, keeps everything else"""
    def __init__(s, I): super().__init__(I); s.st = 'code'; s.q = None; s.dont = False

    def key(s, nz): return ('F01', s.st, s.q)

    def step(s, c):
        st = s.st
        if c is None:
            if st == 'slash': s.out.append(CP(47))
            return
        if st == 'slash':
            if s.is_(c, '/'): s.st = 'line'; return
            if s.is_(c, '*'): s.st = 'block'; return
            # a stray slash is no Yul; what a quote right after it does is left open
            s.out.append(CP(47)); st = s.st = 'code'
            if s.is_(c, '"', "'"): s.dont = True; return
        if st == 'code':
            if s.is_(c, '/'): s.st = 'slash'; return
            for q in '"\'':
                if s.is_(c, q): s.st = 'str'; s.q = q
            s.out.append(c)
        elif st == 'str':
            s.out.append(c)
            if s.is_(c, s.q): s.st = 'code'; s.q = None
            elif s.is_(c, '\\'): s.st = 'esc'
        elif st == 'esc':
            s.out.append(c); s.st = 'str'
        elif st == 'line':
            if s.is_(c, '\n'): s.out.append(c); s.st = 'code'
        elif st == 'block':
            if s.is_(c, '*'): s.st = 'star'
        elif st == 'star':
            if s.is_(c, '/'): s.st = 'code'
            elif not s.is_(c, '*'): s.st = 'block'


def run_product(r, prop, entry, mkspec, judge, universe=FULL, mk=None, filt=None, file=UTILS, what=''):
    if mk is None:
        trees = dump([file])
        def mk(): return rsi.Interp(trees)
    I0 = mk()
    if isinstance(entry, str):
        fn = I0.fns.get(entry)
        if fn is None:
            r.violate(f'{prop}:{entry}:missing', f'{entry} is not defined in {os.path.relpath(file, REPO)}')
            return None
        def call(I, inp): return I.call_fn(I.fns[entry], [InStr(inp, 0)])
    else: call = entry
    def mk1(): return I0
    res = explore(mk1, call, mkspec, judge, universe, filt=filt)
    r.count('joint states of function and specification', res['states'])
    r.count('input classes run to their end', res['paths'])
    r.count('functions analysed', len(res['fns']))
    r.samples.append(f'{what or entry}: {res["states"]} joint states, {res["paths"]} completed input classes; functions ' + ', '.join(sorted(n for _, n in res['fns'])))
    return res


def F01(r, tier):
    r.rule('product of the abstract interpretation of remove_comments with the comment-removal machine (code, string, escape, slash, line, block, block-star) over symbolic characters: on every reachable joint state the outputs agree up to a bounded difference, and they are equal when the text ends')

    def judge(I, inp, spec, out):
        if out is None: return 'no result'
        k = diff(I, out, spec.out)
        if k is None: return None
        return f'returns {show_items(out)!r} where {show_items(spec.out)!r} is right'
    res = run_product(r, 'F01', 'remove_comments', CommentSpec, judge)
    finish_product(r, 'F01', 'remove_comments', res, classify_f01)


def classify_f01(w, why):
    """violation class of a witness (no line numbers, no frozen text)"""
    if '\\' in w: return 'escape-in-string'
    if '/*' in w: return 'block-comment'
    if '//' in w: return 'line-comment'
    if '"' in w or "'" in w: return 'string'
    return 'plain-text'


def finish_product(r, prop, entry, res, classify):
    if res is None: return
    r.obligations += res['states'] + res['paths']
    r.discharged += res['states'] + res['paths'] - len(res['bad'])
    for w, why, out in res['bad']:
        r.violate(f'{prop}:{entry}:{classify(w, why)}', f'{entry} on text of the shape {w!r} {why}', repr(w))
    for w, why in res['undecided'][:10]:
        r.unsure(f'{entry} on {w!r}: {why}')


# ---------------------------------------------------------------- F02
HEX = ((48, 57), (65, 70), (97, 102))
ASCIIWS = ((9, 9), (10, 10), (13, 13), (32, 32))


class EscapeSpec(Spec):
    """what a string literal's characters decode to; self.errs: mistakes met"""
    def __init__(s, I):
        super().__init__(I)
        s.st, s.errs, s.dont, s.n, s.val, s.hi, s.nl = 'norm', [], False, 0, None, None, 0

    def key(s, nz):
        return ('F02', s.st, tuple(sorted(set(s.errs))), s.dont, min(s.n, 8), nz(s.val), nz(s.hi), s.nl)

    def buffer(s, its, nz):
        if not s.errs: return None
        return ('errbuf', tuple(names_in(its)))

    def err(s, e):
        if e not in s.errs: s.errs.append(e)
        s.st = 'norm'; s.val = s.hi = None; s.n = 0

    def put(s, c):
        if not s.errs: s.out.append(c)
        s.st = 'norm'; s.val = s.hi = None; s.n = 0

    def digit(s, c): return Lin(0, [(('dig', c.idx, 15), 1)])

    def step(s, c):
        st, I = s.st, s.I
        if c is None:
            if st == 'esc': s.err('LoneSlash')
            elif st in ('x1', 'x2'): s.err('TooShortHexEscape')
            elif st == 'u0': s.err('NoBraceInUnicodeEscape')
            elif st in ('u1', 'u'): s.err('UnclosedUnicodeEscape')
            return
        if st == 'cont':
            if I.split_ch(c, ASCIIWS):
                if s.is_(c, '\n'): s.dont = True
                return
            if I.split_ch(c, rsi.rsi_std.WS): s.dont = True
            st = s.st = 'norm'
        if st == 'norm':
            if s.is_(c, '\\'): s.st = 'esc'; return
            if s.is_(c, '\r'): s.err('BareCarriageReturn'); return
            if s.is_(c, '"'): s.dont = True
            s.put(c)
        elif st == 'esc':
            for k, v in (('"', '"'), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('\\', '\\'), ("'", "'"), ('0', '\0')):
                if s.is_(c, k): s.put(CP(ord(v))); return
            if s.is_(c, '\n'): s.st = 'cont'; return
            if s.is_(c, 'x'): s.st = 'x1'; return
            if s.is_(c, 'u'): s.st = 'u0'; return
            s.err('InvalidEscape')
        elif st == 'x1':
            if not I.split_ch(c, HEX): s.err('InvalidCharInHexEscape'); return
            s.hi = s.digit(c); s.st = 'x2'
        elif st == 'x2':
            if not I.split_ch(c, HEX): s.err('InvalidCharInHexEscape'); return
            v = I.lin_add(I.binop('*', s.hi, 16), s.digit(c))
            if not I.split_lin(v, ((0, 127),)): s.err('OutOfRangeHexEscape'); return
            s.put(CharOf(v))
        elif st == 'u0':
            if not s.is_(c, '{'): s.err('NoBraceInUnicodeEscape'); return
            s.st = 'u1'
        elif st == 'u1':
            if s.is_(c, '_'): s.err('LeadingUnderscoreUnicodeEscape'); return
            if s.is_(c, '}'): s.err('EmptyUnicodeEscape'); return
            if not I.split_ch(c, HEX): s.err('InvalidCharInUnicodeEscape'); return
            s.val = s.digit(c); s.n = 1; s.st = 'u'
        elif st == 'u':
            if s.is_(c, '_'): return
            if s.is_(c, '}'):
                if s.n > 6: s.err('OverlongUnicodeEscape'); return
                if I.split_lin(s.val, FULL): s.put(CharOf(s.val))
                elif I.split_lin(s.val, ((0x110000, 1 << 40),)): s.err('OutOfRangeUnicodeEscape')
                else: s.err('LoneSurrogateUnicodeEscape')
                return
            if not I.split_ch(c, HEX): s.err('InvalidCharInUnicodeEscape'); return
            s.n += 1
            if s.n <= 6: s.val = I.lin_add(I.binop('*', s.val, 16), s.digit(c))


ERRS = ['LoneSlash', 'InvalidEscape', 'BareCarriageReturn', 'TooShortHexEscape', 'InvalidCharInHexEscape', 'OutOfRangeHexEscape', 'NoBraceInUnicodeEscape',
        'InvalidCharInUnicodeEscape', 'EmptyUnicodeEscape', 'UnclosedUnicodeEscape', 'LeadingUnderscoreUnicodeEscape', 'OverlongUnicodeEscape',
        'LoneSurrogateUnicodeEscape', 'OutOfRangeUnicodeEscape', 'UnskippedWhitespaceWarning', 'MultipleSkippedLinesWarning', 'EscapeOnlyChar']


def names_in(its):
    t = ''.join(chr(code_of(x)) if isinstance(code_of(x), int) else '\uffff' for x in its)
    return sorted(e for e in ERRS if e in t)


def judge_f02(I, inp, spec, out):
    if spec.dont: return None
    if out is None: return 'no result'
    if spec.errs:
        got = names_in(out)
        if not got: return f'decodes to {show_items(out)!r} although the literal is malformed ({spec.errs[0]})'
        if not set(got) & set(spec.errs): return f'reports {got[0]} where the mistake is {spec.errs[0]}'
        return None
    k = diff(I, out, spec.out)
    if k is None: return None
    if names_in(out): return f'reports {names_in(out)[0]} for a well-formed literal'
    return f'decodes to {show_items(out)!r} where {show_items(spec.out)!r} is right'


def classify_f02(w, why):
    i = w.find('\\')
    if i < 0: return 'plain'
    k = w[i + 1:i + 2]
    return 'escape-' + {'': 'none', '\n': 'newline', '"': 'quote', '\\': 'backslash', "'": 'apostrophe'}.get(k, k if k in 'nrt0xu' else 'other') + (':' + why.split()[1] if why.startswith('reports') else '')


def F02(r, tier):
    r.rule('product of the abstract interpretation of unescape_str_wrap_error and all it calls with the escape-decoding machine over symbolic characters; hex digits are symbolic, so the value of a numeric escape is compared as a linear form in its digits and every range test splits the joint state')
    res = run_product(r, 'F02', 'unescape_str_wrap_error', EscapeSpec, judge_f02)
    finish_product(r, 'F02', 'unescape_str_wrap_error', res, classify_f02)


def run(prop, tier, seed):
    r = report.Result(prop)
    globals()[prop](r, tier)
    return r


# ---------------------------------------------------------------- F03 / F04
LALR = REPO + '/src/yul.lalrpop'
AST = REPO + '/src/yul2ir/ast.rs'
ESCB = r'(["\\nt]|x[0-9A-F][0-9A-F]|u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\}|[ \n\t\r\f]+\\)'
ESCT = r'''(["\\nrt'0\n]|x[0-9A-Fa-f][0-9A-Fa-f]|u\{[0-9A-Fa-f][0-9A-Fa-f_]*\}|[ \n\t\r\f]+\\)'''
TOKENS = {   # class: (least language, greatest language)
    'ID': (r'[a-zA-Z_][a-zA-Z0-9_.$]*',) * 2,
    'DEC': (r'[0-9]+',) * 2,
    'HEX': (r'0x[0-9a-fA-F]+',) * 2,
    'HEXDATA': (r'hex"[0-9a-fA-F]+"',) * 2,
    'DATANAME': (r'data "[a-zA-Z0-9_.]+"',) * 2,
    'STR': (r'"(\\' + ESCB + r'|[^"\n\\])*"', r'"(\\' + ESCT + r'|[^"\n\\])*"'),
    'LINE': (r'//[^\n]*\n',) * 2,
    'BLOCKC': (r'/\*([^*]|\*+[^*/])*\*+/',) * 2,
}
SAMPLES = {'ID': ['a', 'Zz_9', 'x.y$1', '_', 'abc'], 'DEC': ['0', '42', '007', '9999999', '10'], 'HEX': ['0x0', '0xfF', '0xABcd01', '0x12', '0xa'],
           'HEXDATA': ['hex"00"', 'hex"aBcD"', 'hex"ff00ff"', 'hex"1"', 'hex"12"'], 'DATANAME': ['data "a"', 'data ".metadata"', 'data "A_9.z"', 'data "9"', 'data "x.y"'],
           'STR': ['""', '"abc"', '"a b/c"', '"\\n"', '"\\x4A"'], 'LINE': ['//\n', '//ab\n', '// "\n', '///\n', '//a/*\n'],
           'BLOCKC': ['/**/', '/* a */', '/***/', '/*a\n*/', '/*/*/']}
KEYWORDS = {'object', 'code', 'function', 'let', 'if', 'for', 'switch', 'case', 'default', 'leave', 'break', 'continue', 'true', 'false',
            '{', '}', '(', ')', ',', ':', ':=', '->'}
# payload of a token, as pieces of its text
PAYLOAD = {'ID': lambda p: [p['all']], 'DEC': lambda p: [p['all']], 'HEX': lambda p: [p['all']],
           'HEXDATA': lambda p: [p['body']], 'DATANAME': lambda p: [p['body']]}


class Lexis:
    def __init__(s):
        import rex, lalr
        s.text = open(LALR).read()
        s.g = lalr.parse(s.text)
        s.dfas, s.cls = {}, {}
        s.spec = {c: tuple(rex.dfa(rex.parse(x)) for x in l) for c, l in TOKENS.items()}

    def dfa(s, pat):
        import rex
        if pat not in s.dfas: s.dfas[pat] = rex.dfa(rex.parse(pat))
        return s.dfas[pat]

    def classify(s, pat):
        if pat in s.cls: return s.cls[pat]
        d = s.dfa(pat)
        best = max(TOKENS, key=lambda c: (sum(d.accepts(w) for w in SAMPLES[c]), c == 'ID'))
        if not any(d.accepts(w) for w in SAMPLES[best]): best = 'other:' + pat
        s.cls[pat] = best
        return best

    def regexes(s):
        import lalr
        G = lalr.Gram.__new__(lalr.Gram)
        G.g, G.lits, G.regs = s.g, set(), set()
        G.collect()
        return G.lits, G.regs


def F03(r, tier):
    import rex, lalr
    r.rule('every regular terminal of yul.lalrpop is turned into a finite automaton over code-point intervals and compared with the documented token class (language equality; for string literals between the spellings documented and those Yul has), the keyword terminals are compared with Yul\'s, and the payload action of every token is evaluated on the symbolic token text')
    L = Lexis()
    lits, regs = L.regexes()
    r.count('keyword terminals', len(lits)); r.count('regular terminals', len(regs))
    for k in sorted(KEYWORDS): r.check(k in lits, f'F03:keyword:{k}:missing', f'"{k}" is no terminal of the grammar: it would be read as something else')
    for k in sorted(lits - KEYWORDS): r.check(False, f'F03:keyword:{k}:extra', f'"{k}" is taken away from identifiers as a keyword')
    seen = set()
    if L.g.match is not None:
        r.unsure('the grammar has a match block: token priorities are not modelled')
    for pat in sorted(regs):
        c = L.classify(pat)
        if c.startswith('other:'):
            r.violate('F03:token:unknown', f'the grammar has a terminal {pat!r} that is no token class of Yul'); continue
        seen.add(c)
        d = L.dfa(pat)
        lo, hi = L.spec[c]
        w = rex.not_in(d, hi)
        r.check(w is None, f'F03:token:{c}:accepts', f'the terminal for {NAMES[c]} accepts {w!r}, which is none', repr(w))
        w = rex.not_in(lo, d)
        r.check(w is None, f'F03:token:{c}:rejects', f'the terminal for {NAMES[c]} does not accept {w!r}', repr(w))
        r.samples.append(f'{NAMES[c]}: automaton with {len(d.trans)} states against {len(lo.trans)}')
    for c in TOKENS:
        if c not in seen and c not in ('LINE', 'BLOCKC'): r.check(False, f'F03:token:{c}:missing', f'no terminal recognises {NAMES[c]}')
    # payloads
    for n, d in L.g.nts.items():
        for i, a in enumerate(d['alts']):
            res = [x for x in a['syms'] if x['k'] == 're']
            if not res: continue
            if len(a['syms']) != 1 or res[0]['q']:
                r.unsure(f'{n}: token inside a longer production'); continue
            c = L.classify(res[0]['v'])
            if c in ('LINE', 'BLOCKC') or c.startswith('other'): continue
            try:
                payload(r, L, n, a, res[0], c)
            except Unknown as u:
                r.unsure(f'payload of {n}: {u}')
            except Panic as p:
                r.check(False, f'F03:payload:{c}', f'the payload action of {NAMES[c]} panics: {p}')


NAMES = {'ID': 'identifiers', 'DEC': 'decimal numbers', 'HEX': 'hex numbers', 'HEXDATA': 'hex data', 'DATANAME': 'data segment names', 'STR': 'string literals',
         'LINE': 'line comments', 'BLOCKC': 'block comments'}


class Tokens(rsi.Interp):
    pass


def action_interp(L):
    import lalr
    trees = dump([AST, UTILS])
    I = rsi.Interp(trees)
    uses = re_uses(L.g.prelude)
    I.aliases.setdefault(LALR, {}).update(uses)
    regexes(I)
    return I


def re_uses(pre):
    import re
    out = {}
    for m in re.finditer(r'use\s+([\w:]+)(?:\s+as\s+(\w+))?\s*;', pre):
        p = m.group(1).split('::')
        out[m.group(2) or p[-1]] = p
    return out


def _as_text(self):
    c = self.clone()
    return LazyText(lambda: c.clone())


class Regexp(Native):
    def __init__(s, pat):
        import rex
        s.pat, s.ast = pat, rex.parse(pat)

    def norm(s, nz): return ('re', s.pat)

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m in ('replace', 'replace_all', 'replacen'):
            n = {'replace': 1, 'replace_all': 0}.get(m)
            rep = a[1]
            if n is None: n, rep = a[1], a[2]
            src = a[0]
            if not isinstance(rep, str): raise Unknown('regex replacement')
            if isinstance(src, InStr): mk = lambda: ReStream(I, s.ast, rep, n, src.inp, src.a)
            else: raise Unknown('regex replacement in computed text')
            return LazyText(mk)
        if m == 'clone': return s
        raise Unknown('Regex.' + m)


class ReStream(It):
    """characters of the text with matches replaced, produced as they are asked for"""
    def __init__(s, I, ast, rep, n, inp, pos, done=0, pend=()):
        s.I, s.ast, s.rep, s.n, s.inp, s.pos, s.done, s.pend = I, ast, rep, n, inp, pos, done, list(pend)
        s.peeked, s.kind = [], 're'
        s.off = None

    @property
    def parts(s): return [InChars(s.inp, s.pos, None), min(s.done, s.n) if s.n else 0, s.pend]

    def nxt(s):
        import rex
        while not s.pend:
            if s.n and s.done >= s.n: m = None
            else:
                m = rex.match(s.I, s.ast, lambda k: s.inp.get(k), s.pos)
            if m is None or m[0] == s.pos:
                c = s.inp.get(s.pos)
                if c is None: return STOP
                s.pos += 1
                return c
            end, g = m
            s.done += 1
            s.pend = s.expand(g)
            s.pos = end
        return s.pend.pop(0)

    def expand(s, g):
        out, i = [], 0
        while i < len(s.rep):
            c = s.rep[i]
            if c == '$' and i + 1 < len(s.rep):
                if s.rep[i + 1] == '$': out.append(CP(36)); i += 2; continue
                j = i + 1
                br = s.rep[j] == '{'
                if br: j += 1
                k = j
                while k < len(s.rep) and (s.rep[k].isalnum() or s.rep[k] == '_'): k += 1
                nm = s.rep[j:k]
                if not nm: raise Unknown('regex replacement')
                if nm == '0': raise Unknown('regex replacement')
                if nm in g: out += [s.inp.get(q) for q in range(*g[nm])]
                i = k + (1 if br else 0)
                continue
            out.append(CP(ord(c))); i += 1
        return out

    def clone(s): 
        n = ReStream(s.I, s.ast, s.rep, s.n, s.inp, s.pos, s.done, s.pend); n.peeked = list(s.peeked)
        return n


class Shift(It):
    """an inner stream without its first (skip) and last (drop) characters"""
    def __init__(s, inner, skip, drop, buf=()):
        s.inner, s.skip, s.drop, s.buf, s.peeked, s.kind = inner, skip, drop, list(buf), [], 'shift'

    @property
    def parts(s): return [s.inner, s.skip, s.drop, s.buf]

    def nxt(s):
        while s.skip:
            s.skip -= 1
            if s.inner.next() is STOP: return STOP
        while len(s.buf) <= s.drop:
            x = s.inner.next()
            if x is STOP: return STOP
            s.buf.append(x)
        return s.buf.pop(0)

    def clone(s):
        n = Shift(s.inner.clone(), s.skip, s.drop, s.buf); n.peeked = list(s.peeked)
        return n


class Without(It):
    def __init__(s, I, inner, st): s.I, s.inner, s.st, s.peeked, s.kind = I, inner, st, [], 'without'

    @property
    def parts(s): return [s.inner]

    def nxt(s):
        x = s.inner.next()
        if x is STOP: return x
        if isinstance(x, CP) and any(a <= x.c <= b for a, b in s.st) or isinstance(x, Ch) and s.I.split_ch(x, s.st): raise Prune()
        return x

    def clone(s): return Without(s.I, s.inner.clone(), s.st)


class BytesOf(It):
    def __init__(s, inner): s.inner, s.peeked, s.kind = inner, [], 'bytes'

    @property
    def parts(s): return [s.inner]

    def nxt(s):
        x = s.inner.next()
        return x if x is STOP else (ByteOf(x) if isinstance(x, Ch) else (x.c if x.c < 128 else Top('byte')))

    def clone(s): return BytesOf(s.inner.clone())


class LazyText(Native):
    def __init__(s, mk): s.stream = mk
    def norm(s, nz): return ('lazy', nz(s.stream()))

    def method(s, I, m, args, node):
        if m in ('to_string', 'as_str', 'to_owned', 'clone', 'into_owned', 'as_ref', 'borrow'): return s
        if m == 'chars': return s.stream()
        if m == 'bytes': return BytesOf(s.stream())
        if m == 'len': return Top('len')
        if m == 'is_empty':
            return s.stream().next() is STOP
        if m == 'contains':
            st = I.pat_set(args[0])
            if st is None: return Top('contains')
            if I.choose(2, 'contains') == 0: return True
            old = s.stream
            s.stream = lambda: Without(I, old(), st)
            return False
        raise Unknown('text.' + m)


for _c in (ReStream, Shift, Without): _c.as_text = _as_text


def regexes(I):
    def ext(segs, args, node, hint):
        n = [x[0] for x in segs]
        if n[-2:] == ['Regex', 'new'] and isinstance(I.deref(args[0]), str): return Ok(Regexp(I.deref(args[0])))
        return NotImplemented
    I.ext_call = ext
    old = I.method

    def method(rp, v, m, args, node, hint):
        if isinstance(v, LazyText) and m in ('remove', 'pop') and isinstance(rp, Place):
            mk = v.stream
            if m == 'remove' and I.deref(args[0]) == 0:
                rp.set(LazyText(lambda: Shift(mk(), 1, 0))); return Top('removed')
            if m == 'pop':
                rp.set(LazyText(lambda: Shift(mk(), 0, 1))); return Some(Top('popped'))
        if isinstance(v, (InStr,)) and m in ('remove', 'pop') and isinstance(rp, Place):
            mk = lambda: InChars(v.inp, v.a, v.b)
            rp.set(LazyText((lambda: Shift(mk(), 1, 0)) if m == 'remove' else (lambda: Shift(mk(), 0, 1))))
            return Top('removed')
        return old(rp, v, m, args, node, hint)
    I.method = method


class TokenSpec(EscapeSpec):
    """a string literal token: quotes, gaps, escapes"""
    def __init__(s, I):
        super().__init__(I)
        s.st = 'open'; s.gap = False

    def key(s, nz): return super().key(nz) + (s.gap,)

    def step(s, c):
        if s.st == 'open':
            s.st = 'norm'; return
        if c is not None and s.st == 'gap':
            if s.is_(c, '\\'): s.st = 'norm'
            return
        if c is not None and s.st == 'norm' and s.is_(c, '"'):
            s.st = 'closed'; return
        if c is None: return
        if s.st == 'esc' and s.I.split_ch(c, ((9, 10), (12, 13), (32, 32))):
            s.st = 'gap'; return
        super().step(c)


class GapSpec(Spec):
    """a string literal token without its quotes and gaps, escapes kept"""
    def __init__(s, I): super().__init__(I); s.st = 'open'; s.dont = False; s.errs = []

    def key(s, nz): return ('gap', s.st)

    def step(s, c):
        if c is None: return
        if s.st == 'open': s.st = 'norm'
        elif s.st == 'gap':
            if s.is_(c, '\\'): s.st = 'norm'
        elif s.st == 'esc':
            if s.I.split_ch(c, ((9, 10), (12, 13), (32, 32))): s.st = 'gap'; return
            s.out.append(CP(92)); s.out.append(c); s.st = 'norm'
        elif s.is_(c, '"'): s.st = 'closed'
        elif s.is_(c, '\\'): s.st = 'esc'
        else: s.out.append(c)


class NotWrapped(Exception):
    pass


class Wrapped(Native):
    """the result of decoding the escapes of a text (F02 decides that function on every text)"""
    def __init__(s, text): s.text = text
    def norm(s, nz): return ('decoded', nz(s.text))

    def method(s, I, m, args, node):
        if m in ('to_string', 'as_str', 'to_owned', 'clone', 'into', 'as_ref', 'borrow'): return s
        raise NotWrapped()


def payload(r, L, n, a, sym, c):
    import lalr, rex
    I = action_interp(L)
    expr = dump_exprs([lalr.prep(a['act'])])[0] if a['act'] is not None else None
    node = {'name': n, 'file': LALR}

    def run_action(I, v):
        if expr is None: return v
        env = [{lalr.ANG: Cell(v)}]
        if sym['name']: env[0][sym['name']] = Cell(v)
        I.frames.append({'fn': node, 'env': env, 'selfty': None, 'ret': None})
        I.points.append(id(expr))
        return I.deref(I.val(expr, env))
    if c == 'STR':
        def judge(I, inp, spec, out): return judge_f02(I, inp, spec, out)
        dec = I.fns.get('unescape_str_wrap_error')
        if dec is not None:
            # decoding is F02's: here the text handed to it is compared
            plain = I.call_fn

            def call_fn(fn, args, *k, **kw):
                if fn is dec and len(args) == 1: return Wrapped(I.deref(args[0]))
                return plain(fn, args, *k, **kw)

            def judge1(I, inp, spec, out):
                if out is None: return 'no result'
                return None if diff(I, out, spec.out) is None else f'hands {show_items(out)!r} to the decoder where {show_items(spec.out)!r} is right'

            def run1(I, inp):
                v = run_action(I, InStr(inp, 0))
                if not isinstance(v, Wrapped): raise NotWrapped()
                return v.text
            I.call_fn = call_fn
            try:
                res = run_product(r, 'F03', run1, GapSpec, judge1, mk=lambda: I, filt=lambda I: rex.Filter(L.dfa(sym['v'])), what='string literal token, text to decode')
                finish_product(r, 'F03', 'string-literal', res, classify_f03)
                return
            except NotWrapped: pass
            finally: I.call_fn = plain
        res = run_product(r, 'F03', lambda I, inp: run_action(I, InStr(inp, 0)), TokenSpec, judge, mk=lambda: I, filt=lambda I: rex.Filter(L.dfa(sym['v'])), what='string literal token')
        finish_product(r, 'F03', 'string-literal', res, classify_f03)
        return
    # prefix / body / suffix of the token text
    pre, suf = {'HEXDATA': ('hex"', '"'), 'DATANAME': ('data "', '"')}.get(c, ('', ''))
    alpha = {'ID': ((36, 36), (46, 46), (48, 57), (65, 90), (95, 95), (97, 122)), 'DEC': ((48, 57),), 'HEX': ((48, 57), (65, 70), (97, 102), (120, 120)), 'HEXDATA': ((48, 57), (65, 70), (97, 102)),
             'DATANAME': ((46, 46), (48, 57), (65, 90), (95, 95), (97, 122))}[c]
    body = (c, alpha, 1, None)
    want = SymStr([body])
    try:
        got = run_action(I, SymStr([pre, body, suf]) if pre else want)
        if isinstance(got, str): got = SymStr([got])
        if not isinstance(got, SymStr): raise Unknown(f'payload {got!r}')
        r.check(got == want, f'F03:payload:{c}', f'the payload of {NAMES[c]} is {got.parts} instead of the {"text between the quotes" if pre else "token text"}')
    except Unknown:
        # not followed with the text open: every short text, and some long ones
        for w in texts(c):
            I = action_interp(L)
            got = run_action(I, pre + w + suf)
            if not isinstance(got, str): raise Unknown(f'payload {got!r}')
            if not r.check(got == w, f'F03:payload:{c}', f'the payload of the token {pre + w + suf!r} is {got!r} instead of {w!r}', repr(w)): return
        raise


def texts(c):
    import itertools
    al, head, extra = {
        'ID': ('ax_9.$', 'aZ_', ('data', 'hex', 'hexa', 'usr$x.1', 'object_', 'a' * 70, 'x$', 'fun_Data_1', '__', 'ABC')),
        'DEC': ('019', None, ('115792089237316195423570985008687907853269984665640564039457584007913129639935', '007', '10000')),
        'HEX': ('0aF1', None, ('f' * 64, '0' * 64, 'dEaDbEeF', '00ff00')),
        'HEXDATA': ('0aF', None, ('00ff00', 'a264697066735822', '0' * 40, 'deadBEEF00')),
        'DATANAME': ('aD_.9', None, ('.metadata', 'data', 'data_1', 'x.data', '0', 'hex', 'T_deployed'))}[c]
    for n in range(1, 5):
        for t in itertools.product(al, repeat=n):
            t = ''.join(t)
            if head and t[0] not in head: continue
            yield '0x' + t if c == 'HEX' else t
    for t in extra: yield '0x' + t if c == 'HEX' else t


def classify_f03(w, why):
    return 'gap' if any('\\' + x in w for x in ' \t\r\n\f') else classify_f02(w, why)


def mkadt(I, ty, var=None, **f):
    if var is None:
        t = I.types.get(ty)
        if t is None or {x['name'] for x in t['fields']} != set(f): raise Unknown(f'ast::{ty} has changed')
        return Adt(ty, None, f)
    raise Unknown('variant')


class Oracle:
    """recursive descent over a token sequence with opaque sub-trees: the tree Yul's grammar gives it"""
    def __init__(s, I, seq): s.I, s.seq, s.i, s.n = I, list(seq), 0, {}

    def pk(s, k=0): return s.seq[s.i + k] if s.i + k < len(s.seq) else None

    def take(s, kind):
        if s.pk() != kind: raise ValueError(kind)
        s.i += 1
        import lalr
        s.n[kind] = s.n.get(kind, 0) + 1
        return lalr.Sym(kind, s.n[kind])

    def st(s, ty, **f): return mkadt(s.I, ty, **f)

    def va(s, ty, var, *f):
        e = s.I.enums.get(ty)
        if e is None or not any(v['name'] == var and v['n'] == len(f) for v in e['variants']): raise Unknown(f'ast::{ty}::{var} has changed')
        return Adt(ty, var, list(f))

    def ident(s): return s.st('Identifier', name=s.take('ID'))

    def typed(s):
        i = s.ident()
        t = NONE
        if s.pk() == '":"':
            s.take('":"'); t = Some(s.st('TypeName', type_name=s.ident()))
        return s.st('TypedIdentifier', identifier=i, type_name=t)

    def typed_list(s):
        r = [s.typed()]
        while s.pk() == '","': s.take('","'); r.append(s.typed())
        return r

    def ty(s):
        if s.pk() == '":"':
            s.take('":"'); return Some(s.ident())
        return NONE

    def literal(s):
        k = s.pk()
        if k in ('"true"', '"false"'):
            s.take(k); return s.va('Literal', 'TrueLiteral' if k == '"true"' else 'FalseLiteral', s.ty())
        if k == 'DEC':
            v = s.st('DecimalNumber', dec=s.take(k)); return s.va('Literal', 'DecimalNumberLiteral', v, s.ty())
        if k == 'HEX':
            v = s.st('HexNumber', hex=s.take(k)); return s.va('Literal', 'HexNumberLiteral', v, s.ty())
        if k == 'STR':
            v = s.st('StringLiteral', str=s.take(k)); return s.va('Literal', 'StringLiteral', v, s.ty())
        raise ValueError(k)

    def call(s):
        i = s.ident(); s.take('"("')
        args = []
        if s.pk() != '")"':
            args.append(s.take('Expression'))
            while s.pk() == '","': s.take('","'); args.append(s.take('Expression'))
        s.take('")"')
        return s.st('FunctionCall', id=i, arguments=args)

    def Expression(s):
        if s.pk() == 'ID':
            if s.pk(1) == '"("': return s.va('Expression', 'FunctionCall', s.call())
            return s.va('Expression', 'Identifier', s.ident())
        return s.va('Expression', 'Literal', s.literal())

    def Block(s):
        s.take('"{"')
        r = []
        while s.pk() == 'Statement': r.append(s.take('Statement'))
        s.take('"}"')
        return s.st('Block', statements=r)

    def Object(s):
        s.take('"object"'); n = s.take('STR'); s.take('"{"'); s.take('"code"'); c = s.take('Block')
        seg = []
        while s.pk() in ('DATANAME', 'Object'):
            if s.pk() == 'Object': seg.append(s.va('InnerSegment', 'Object', s.take('Object')))
            else:
                d = s.take('DATANAME'); h = []
                while s.pk() == 'HEXDATA': h.append(s.va('DataLiteral', 'HexLiteral', s.take('HEXDATA')))
                seg.append(s.va('InnerSegment', 'Data', d, h))
        s.take('"}"')
        return s.st('Object', name=n, code=c, inner_segments=seg)

    def Statement(s):
        k = s.pk()
        V = lambda v, *f: s.va('Statement', v, *f)
        if k == 'Block': return V('Block', s.take('Block'))
        if k in ('"leave"', '"break"', '"continue"'): s.take(k); return V(k.strip('"').capitalize())
        if k == '"function"':
            s.take(k); n = s.ident(); s.take('"("')
            ps = s.typed_list() if s.pk() != '")"' else []
            s.take('")"')
            rs = []
            if s.pk() == '"->"': s.take('"->"'); rs = s.typed_list()
            return V('FunctionDefinition', s.st('FunctionDefinition', name=n, params=ps, returns=rs, body=s.take('Block')))
        if k == '"let"':
            s.take(k); ids = s.typed_list(); v = NONE
            if s.pk() == '":="': s.take('":="'); v = Some(s.take('Expression'))
            return V('VariableDeclaration', s.st('VariableDeclaration', identifiers=ids, value=v))
        if k == '"if"':
            s.take(k); return V('If', s.st('If', cond=s.take('Expression'), body=s.take('Block')))
        if k == '"for"':
            s.take(k); a = s.take('Block'); c = s.take('Expression'); p = s.take('Block')
            return V('For', s.st('For', init_block=a, condition=c, post_block=p, execution_block=s.take('Block')))
        if k == '"switch"':
            s.take(k); c = s.take('Expression')
            cs = []
            while s.pk() == '"case"':
                s.take('"case"'); l = s.literal(); cs.append(s.st('SwitchCase', case=l, body=s.take('Block')))
            d = NONE
            if s.pk() == '"default"': s.take('"default"'); d = Some(s.st('SwitchDefault', body=s.take('Block')))
            if cs: o = s.va('SwitchOptions', 'Cases', cs, d)
            elif d.var == 'Some': o = s.va('SwitchOptions', 'Default', d.f[0])
            else: raise ValueError('switch')
            return V('Switch', s.st('Switch', condition=c, opt=o))
        if k == 'ID' and s.pk(1) == '"("': return V('FunctionCall', s.call())
        ids = [s.ident()]
        while s.pk() == '","': s.take('","'); ids.append(s.ident())
        s.take('":="')
        return V('Assignment', s.st('Assignment', identifiers=ids, value=s.take('Expression')))


def rx_(*xs): return ('cat', [('sym', x) if isinstance(x, str) else x for x in xs])
def rx_opt(*xs): return ('rep', rx_(*xs), 0, 1, True)
def rx_many(lo, *xs): return ('rep', rx_(*xs), lo, None, True)
def rx_alt(*xs): return ('alt', [x if isinstance(x, tuple) else ('sym', x) for x in xs])


def spec_rx():
    q = lambda k: '"' + k + '"'
    ID = 'ID'
    ty = rx_opt(q(':'), ID)
    lit = rx_(rx_alt(q('true'), q('false'), 'DEC', 'HEX', 'STR'), ty)
    tid = rx_(ID, ty)
    tl = rx_(tid, rx_many(0, q(','), tid))
    call = rx_(ID, q('('), rx_opt('Expression', rx_many(0, q(','), 'Expression')), q(')'))
    case = rx_(q('case'), lit, 'Block')
    dfl = rx_(q('default'), 'Block')
    return {
        'Expression': rx_alt(lit, ID, call),
        'Block': rx_(q('{'), rx_many(0, 'Statement'), q('}')),
        'Object': rx_(q('object'), 'STR', q('{'), q('code'), 'Block', rx_many(0, rx_alt(rx_('DATANAME', rx_many(0, 'HEXDATA')), 'Object')), q('}')),
        'Statement': rx_alt('Block', q('leave'), q('break'), q('continue'), call,
                            rx_(q('function'), ID, q('('), rx_opt(tl), q(')'), rx_opt(q('->'), tl), 'Block'),
                            rx_(q('let'), tl, rx_opt(q(':='), 'Expression')),
                            rx_(ID, rx_many(0, q(','), ID), q(':='), 'Expression'),
                            rx_(q('if'), 'Expression', 'Block'), rx_(q('for'), 'Block', 'Expression', 'Block', 'Block'),
                            rx_(q('switch'), 'Expression', rx_alt(rx_(rx_many(1, case), rx_opt(dfl)), dfl))),
    }


def encode(a, ids):
    """regular expression over symbols -> over private code points"""
    k = a[0]
    if k == 'sym':
        c = ids.setdefault(a[1], 0x4E00 + len(ids))
        return ('set', ((c, c),))
    if k == 'none': return ('set', ())
    if k in ('cat', 'alt'): return (k, [encode(x, ids) for x in a[1]])
    if k == 'rep': return ('rep', encode(a[1], ids), a[2], a[3], True)
    raise Unknown(k)


def F04(r, tier):
    import rex, lalr
    r.rule('for Object, Block, Statement and Expression the grammar is inlined down to tokens and these four symbols; the resulting regular right-hand side must denote exactly the token sequences of Yul\'s grammar (automata equality, any length), and for every sequence shape with up to '
           + ('three' if tier == 'thorough' else 'two') + ' repetitions the grammar\'s own actions, evaluated on opaque sub-trees numbered by position, must build the tree a recursive-descent reading of the sequence gives')
    L = Lexis()
    g = L.g
    want = {'Object': 'Object', 'Block': 'Block', 'Statement': 'Statement', 'Expression': 'Expression'}
    core = {}
    for n, d in g.nts.items():
        t = (d['type'] or '').replace(' ', '').split('::')[-1]
        if t in want and t not in core.values() and not d['params'] and (n == t or t not in g.nts): core[n] = t
    for t in want:
        if t not in core.values():
            r.violate(f'F04:{t}:missing', f'no nonterminal of the grammar yields ast::{t}'); return
    I = action_interp(L)
    G = lalr.Gram(g, core, L.classify, forbid={'LINE', 'BLOCKC'}, I=I, reps=(0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2), file=LALR)
    spec = spec_rx()
    nshapes = 0
    for n, t in core.items():
        try:
            ids = {}
            a = rex.dfa(encode(G.rx(n, top=True), ids)); b = rex.dfa(encode(spec[t], ids))
            back = {chr(v): k for k, v in ids.items()}
            show = lambda w: ' '.join(back.get(c, '?') for c in w)
            w = rex.not_in(a, b)
            r.check(w is None, f'F04:{t}:accepts', f'the grammar accepts {show(w or "")!r} as {t}, which is no Yul', show(w or ''))
            w = rex.not_in(b, a)
            r.check(w is None, f'F04:{t}:rejects', f'the grammar rejects {show(w or "")!r}, a valid {t}', show(w or ''))
            shapes = G.shapes(n, top=True)
        except Unknown as u:
            r.unsure(f'{t}: {u}'); continue
        for seq, tree in shapes:
            o = Oracle(I, seq)
            try:
                exp = getattr(o, t)()
                if o.i != len(seq): continue
            except ValueError:
                continue            # reported by the language comparison
            nshapes += 1
            try:
                got = G.value(tree, {})
            except Unknown as u:
                r.unsure(f'{t} {" ".join(seq)}: {u}'); continue
            except Panic as p:
                r.check(False, f'F04:{t}:{head(seq)}:panic', f'building the tree of {" ".join(seq)} panics: {p}'); continue
            d = treediff(exp, got)
            r.check(d is None, f'F04:{t}:{head(seq)}:{d and d[0]}', f'{" ".join(seq)}: {d and d[1]}', ' '.join(seq))
    r.count('sequence shapes evaluated', nshapes)
    r.count('grammar productions', sum(len(d['alts']) for d in g.nts.values()))
    r.samples.append(f'{nshapes} sequence shapes; {len(g.nts)} nonterminals inlined into {", ".join(core)}')


def head(seq):
    h = seq[0].strip('"') if seq else 'empty'
    return h


def treediff(e, g, at=''):
    if isinstance(e, Adt) and isinstance(g, Adt):
        if e.ty != g.ty or e.var != g.var: return (at or e.ty, f'{at or "the result"} is {g.ty}{"::" + g.var if g.var else ""} instead of {e.ty}{"::" + e.var if e.var else ""}')
        if isinstance(e.f, dict):
            if not isinstance(g.f, dict): return (at, 'shape')
            for k in e.f:
                d = treediff(e.f[k], g.f.get(k), e.ty + '.' + k)
                if d: return d
            return None
        if len(e.f) != len(g.f): return (at, 'number of fields')
        for i, (x, y) in enumerate(zip(e.f, g.f)):
            d = treediff(x, y, f'{e.ty}::{e.var}.{i}' if e.ty != 'Option' else at)
            if d: return d
        return None
    if isinstance(e, list) and isinstance(g, list):
        if len(e) != len(g): return (at, f'{at} has {len(g)} elements instead of {len(e)}')
        for x, y in zip(e, g):
            d = treediff(x, y, at)
            if d: return d
        return None
    if e == g: return None
    return (at, f'{at} is {g!r} instead of {e!r}')


# ---------------------------------------------------------------- F05
def package(blob, inst=None):
    from mainrun import Len
    if inst: return list(inst.size().to_bytes(4, 'big')) + inst.blob()
    return [Len(blob, 24, 8, 8), Len(blob, 16, 8, 8), Len(blob, 8, 8, 8), Len(blob, 0, 8, 8), blob]


def hexed(x):
    from mainrun import HexV
    out = []
    for y in x:
        if isinstance(y, HexV) and all(isinstance(z, int) for z in y.b): out += bytes(y.b).hex().encode()
        else: out.append(y)
    return out


def show_pkg(x):
    if len(x) > 12: x = [*x[:11], '...']
    return '[' + ', '.join(('length bits %d..%d' % (y.shift, y.shift + y.bits) if hasattr(y, 'bits') and y.bits else str(y)) for y in x) + ']'


def F05(r, tier):
    from mainrun import MainI, Blob, HexV, PathV, Tok, runs, FILES, Flag, instances
    r.rule('the package builder is interpreted on a module of unknown content and unknown length below 2^32 (lengths as bit ranges), and every abstract run of main is followed to the files it writes; the package must be the four length bytes from the most significant down, then the module')
    I = MainI(dump(FILES[1:]))
    fn = I.fns.get('merge_sub_wasm_with_length_prefix')
    if fn is None: r.violate('F05:builder:missing', 'merge_sub_wasm_with_length_prefix is gone')
    else:
        b = Blob('the module')
        try:
            I.decisions, I.dpos = [], 0
            got = I.deref(I.call_fn(fn, [b]))
            if I.alts: raise Unknown('the package depends on a test of the module')
            got = I.bytes_of(got)
            r.check(got == package(b), 'F05:builder', f'embedded packages are {show_pkg(got)} instead of {show_pkg(package(b))}', show_pkg(got))
        except Panic as p: r.check(False, 'F05:builder:panic', f'building a package panics: {p}')
        except Unknown as u:
            r.unsure(f'package builder: {u}')
            for i in instances():
                I.reset(); I.inst = i; I.decisions, I.dpos, I.alts = [], 0, []
                try:
                    got = I.deref(I.call_fn(fn, [I.module()]))
                    if I.alts: continue
                    r.check(I.bytes_of(got) == package(None, i), 'F05:builder', f'the embedded package of {i.size()} bytes is {show_pkg(I.bytes_of(got))} instead of {show_pkg(package(None, i))}')
                except Panic as p: r.check(False, 'F05:builder:panic', f'building a package of {i.size()} bytes panics: {p}')
                except Unknown: pass
        r.samples.append('merge_sub_wasm_with_length_prefix on an unknown module: ' + show_pkg(package(b)))
    n = 0
    try:
        for run in runs(tier == 'thorough'):
            if run.taint or run.out != 'exit 0': continue
            n += 1
            i = run.inst
            b = i.blob() if i else [Blob('the module')]
            pk = package(b[0] if b else None, i)
            out = PathV('of', Tok('option', 'output'))
            want = {out: b, PathV('ext', out, 'cbin'): pk, PathV('ext', out, 'cbin.hex'): [HexV(pk)]}
            names_ = {out: 'output', PathV('ext', out, 'cbin'): 'cbin', PathV('ext', out, 'cbin.hex'): 'cbin-hex'}
            got = {}
            for e in run.effects:
                if e[0] == 'write': got[e[1]] = e[2]
            for p, w in want.items():
                if p not in got and len(got) >= len(want): r.unsure(f'files written: {got}'); continue
                r.check(p in got and hexed(got[p]) == hexed(w), f'F05:{names_[p]}', f'a successful run{" on a module of %d bytes" % i.size() if i else ""} leaves {show_pkg(got[p]) if p in got else "nothing"} as the {names_[p]} file instead of {show_pkg(w)}')
    except Unknown as u: r.unsure(f'main: {u}')
    r.count('abstract runs of main ending well', n)
