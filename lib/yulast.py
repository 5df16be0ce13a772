"""Yul program texts for the code-generation properties: a small parser to neutral tuples
and the conversion of those tuples to values of the repository's own syntax-tree types.

Expressions  ('id', n) | ('call', n, [e]) | ('dec'|'hex'|'str', text) | ('true',) | ('false',)
Statements   ('let', [(n, type|None)], e|None) | ('set', [n], e) | ('if', e, b) | ('for', b, e, b, b)
             ('switch', e, [(lit, b)], b|None) | ('leave',) | ('break',) | ('continue',)
             ('block', b) | ('expr', e) | ('fun', n, [(n, t)], [(n, t)], b)
Objects      ('object', name, [statement], [segment])   segment: object | ('data', name, [('hex'|'str', text)])
"""
import re
from rsi_core import Adt, Some, NONE, Unknown

TOK = re.compile(r'\s+|//[^\n]*|(?P<hexlit>hex"[0-9a-fA-F]*")|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>0x[0-9a-fA-F]+|[0-9]+)|(?P<id>[A-Za-z_$][\w$.]*)|(?P<op>:=|->|[{}(),:])')


def tokens(t):
    i, out = 0, []
    while i < len(t):
        m = TOK.match(t, i)
        if not m: raise ValueError('yul text at ' + t[i:i + 20])
        i = m.end()
        if m.lastgroup: out.append((m.lastgroup, m.group()))
    return out + [('end', '')]


class P:
    def __init__(s, t): s.t, s.i = tokens(t), 0
    def peek(s): return s.t[s.i][1]
    def kind(s): return s.t[s.i][0]
    def next(s): s.i += 1; return s.t[s.i - 1][1]
    def eat(s, x):
        if s.peek() != x: raise ValueError(f'expected {x} before {" ".join(v for _, v in s.t[s.i:s.i + 8])}')
        s.i += 1
    def opt(s, x):
        if s.peek() == x: s.i += 1; return True
        return False

    def expr(s):
        k, v = s.t[s.i]
        s.i += 1
        if k == 'num': return ('hex', v[2:]) if v.startswith('0x') else ('dec', v)
        if k == 'str': return ('str', v[1:-1])
        if v in ('true', 'false'): return (v,)
        if s.opt('('):
            a = []
            while not s.opt(')'):
                a.append(s.expr()); s.opt(',')
            return ('call', v, a)
        return ('id', v)

    def typed(s):
        n = s.next()
        return (n, s.next() if s.opt(':') else None)

    def block(s):
        s.eat('{')
        b = []
        while not s.opt('}'): b.append(s.stmt())
        return b

    def stmt(s):
        v = s.peek()
        if v == '{': return ('block', s.block())
        if v == 'let':
            s.next(); ids = [s.typed()]
            while s.opt(','): ids.append(s.typed())
            return ('let', ids, s.expr() if s.opt(':=') else None)
        if v == 'if': s.next(); return ('if', s.expr(), s.block())
        if v == 'for': s.next(); return ('for', s.block(), s.expr(), s.block(), s.block())
        if v == 'switch':
            s.next(); e = s.expr(); cs, d = [], None
            while s.opt('case'): l = s.expr(); cs.append((l, s.block()))
            if s.opt('default'): d = s.block()
            return ('switch', e, cs, d)
        if v in ('leave', 'break', 'continue'): s.next(); return (v,)
        if v == 'function':
            s.next(); n = s.next(); s.eat('('); ps = []
            while not s.opt(')'): ps.append(s.typed()); s.opt(',')
            rs = []
            if s.opt('->'):
                rs.append(s.typed())
                while s.opt(','): rs.append(s.typed())
            return ('fun', n, ps, rs, s.block())
        e = s.expr()
        if e[0] == 'id' and s.peek() in (',', ':='):
            ids = [e[1]]
            while s.opt(','): ids.append(s.next())
            s.eat(':=')
            return ('set', ids, s.expr())
        return ('expr', e)

    def object(s):
        s.eat('object'); name = s.next()[1:-1]; s.eat('{'); s.eat('code')
        code = s.block(); segs = []
        while not s.opt('}'):
            if s.peek() == 'object': segs.append(s.object())
            else:
                s.eat('data'); n = s.next()[1:-1]; ls = []
                while s.kind() in ('hexlit', 'str'):
                    k = s.kind(); v = s.next()
                    ls.append(('hex', v[4:-1]) if k == 'hexlit' else ('str', v[1:-1]))
                segs.append(('data', n, ls))
        return ('object', name, code, segs)


def parse(t):
    p = P(t); o = p.object()
    if p.kind() != 'end': raise ValueError('trailing text')
    return o


def stmts(t):
    p = P(t); b = []
    while p.kind() != 'end': b.append(p.stmt())
    return b


def expr(t): return P(t).expr()


# ------------------------------------------------------------ to the repository's types
class Conv:
    """to Adt values; the names are looked up in the interpreter's type table so that a
    renamed field is noticed instead of silently misread"""
    def __init__(s, I): s.I = I

    def st(s, ty, **f):
        t = s.I.types.get(ty)
        if t is None or {x['name'] for x in t['fields']} != set(f): raise Unknown(f'syntax tree type {ty} has changed')
        return Adt(ty, None, f)

    def en(s, ty, var, *f):
        if ty not in s.I.enums or var not in [v['name'] for v in s.I.enums[ty]['variants']]: raise Unknown(f'syntax tree type {ty} has changed')
        return Adt(ty, var, list(f))

    def ident(s, n): return s.st('Identifier', name=n)
    def typed(s, p): return s.st('TypedIdentifier', identifier=s.ident(p[0]), type_name=Some(s.st('TypeName', type_name=s.ident(p[1]))) if p[1] else NONE)

    def lit(s, e):
        k = e[0]
        if k == 'true': return s.en('Literal', 'TrueLiteral', NONE)
        if k == 'false': return s.en('Literal', 'FalseLiteral', NONE)
        if k == 'dec': return s.en('Literal', 'DecimalNumberLiteral', s.st('DecimalNumber', dec=e[1]), NONE)
        if k == 'hex': return s.en('Literal', 'HexNumberLiteral', s.st('HexNumber', hex='0x' + e[1]), NONE)
        if k == 'str': return s.en('Literal', 'StringLiteral', s.st('StringLiteral', str=e[1]), NONE)
        raise ValueError(k)

    def fcall(s, e): return s.st('FunctionCall', id=s.ident(e[1]), arguments=[s.expr(a) for a in e[2]])

    def expr(s, e):
        if e[0] == 'id': return s.en('Expression', 'Identifier', s.ident(e[1]))
        if e[0] == 'call': return s.en('Expression', 'FunctionCall', s.fcall(e))
        return s.en('Expression', 'Literal', s.lit(e))

    def block(s, b): return s.st('Block', statements=[s.stmt(x) for x in b])

    def stmt(s, x):
        k = x[0]
        S = lambda var, *f: s.en('Statement', var, *f)
        if k == 'let': return S('VariableDeclaration', s.st('VariableDeclaration', identifiers=[s.typed(p) for p in x[1]], value=Some(s.expr(x[2])) if x[2] else NONE))
        if k == 'set': return S('Assignment', s.st('Assignment', identifiers=[s.ident(n) for n in x[1]], value=s.expr(x[2])))
        if k == 'if': return S('If', s.st('If', cond=s.expr(x[1]), body=s.block(x[2])))
        if k == 'for': return S('For', s.st('For', init_block=s.block(x[1]), condition=s.expr(x[2]), post_block=s.block(x[3]), execution_block=s.block(x[4])))
        if k == 'switch':
            d = s.st('SwitchDefault', body=s.block(x[3])) if x[3] is not None else None
            if x[2]:
                o = s.en('SwitchOptions', 'Cases', [s.st('SwitchCase', case=s.lit(l), body=s.block(b)) for l, b in x[2]], Some(d) if d else NONE)
            else: o = s.en('SwitchOptions', 'Default', d)
            return S('Switch', s.st('Switch', condition=s.expr(x[1]), opt=o))
        if k in ('leave', 'break', 'continue'): return S(k.capitalize())
        if k == 'block': return S('Block', s.block(x[1]))
        if k == 'expr': return S('FunctionCall', s.fcall(x[1]))
        if k == 'fun':
            return S('FunctionDefinition', s.st('FunctionDefinition', name=s.ident(x[1]), params=[s.typed(p) for p in x[2]], body=s.block(x[4]), returns=[s.typed(p) for p in x[3]]))
        raise ValueError(k)

    def object(s, o):
        segs = []
        for g in o[3]:
            if g[0] == 'object': segs.append(s.en('InnerSegment', 'Object', s.object(g)))
            else: segs.append(s.en('InnerSegment', 'Data', g[1], [s.en('DataLiteral', 'HexLiteral' if k == 'hex' else 'StringLiteral', v) for k, v in g[2]]))
        return s.st('Object', name=o[1], code=s.block(o[2]), inner_segments=segs)
