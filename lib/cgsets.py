"""The Yul programs whose generated code is compared with their text, by property.

Every program is one function; operands arrive in every representation the generator has
(native words, big-endian words in memory, 32- and 64-bit numbers, booleans, constants).
"""
import itertools, random, re
from cgprops import Item

H = 'function id(u) -> v { v := u }\nfunction pair(u) -> v, w { v := u w := add(u, 1) }\nfunction sb(u) -> v { v := sload(u) }'
# representation -> text of a value made from the parameter given
REPS = {
    'u256': lambda p: p, 'i32': lambda p: f'extcodesize({p})', 'i64': lambda p: f'mul64({p})', 'u256 routine': lambda p: f'selfbal({p})',
    'b32': lambda p: f'calldataload({p})', 'b32 storage': lambda p: f'sload({p})', 'mem': lambda p: f'mload({p})', 'bool': lambda p: f'lt({p}, 7)', 'fn': lambda p: f'id({p})',
    'balance': lambda p: f'balance({p})',
}
REPS['i64'] = lambda p: 'add(extcodesize(%s), returndatasize())' % p
REPS['u256 routine'] = lambda p: 'exp(%s, 77)' % p
LITS = ['0', '1', '5', '255', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '115792089237316195423570985008687907853269984665640564039457584007913129639935',
        '0x7f', '0xffffffff', '0x100000000', '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '0x8000000000000000000000000000000000000000000000000000000000000000', '"abc"', 'true', 'false']
LITS2 = ['0', '1', '5', '31', '32', '255', '256', '4294967296', '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '0x8000000000000000000000000000000000000000000000000000000000000000', '"abc"', 'true']

BIN = ['add', 'sub', 'mul', 'and', 'or', 'xor', 'lt', 'gt', 'eq', 'exp']
SBIN = ['slt', 'sgt']
DIVB = ['div', 'sdiv', 'mod', 'smod', 'byte', 'shl', 'shr', 'sar', 'signextend']
UN = ['iszero', 'not']
ZERO = ['caller', 'address', 'origin', 'coinbase', 'callvalue', 'chainid', 'basefee', 'blobbasefee', 'gasprice', 'prevrandao', 'difficulty', 'timestamp', 'number', 'gaslimit',
        'calldatasize', 'codesize', 'returndatasize', 'gas', 'msize', 'selfbalance']
LOAD = ['mload', 'sload', 'tload', 'balance', 'extcodesize', 'extcodehash', 'calldataload', 'blockhash']
# no result: builtin -> operands
EFF = {'mstore': 2, 'mstore8': 2, 'sstore': 2, 'tstore': 2, 'mcopy': 3, 'calldatacopy': 3, 'returndatacopy': 3, 'codecopy': 3, 'datacopy': 3, 'extcodecopy': 4,
       'log0': 2, 'log1': 3, 'log2': 4, 'log3': 5, 'log4': 6, 'return': 2, 'revert': 2, 'selfdestruct': 1, 'pop': 1}
VAL = {'addmod': 3, 'mulmod': 3, 'keccak256': 2, 'create': 3, 'create2': 4, 'call': 7, 'delegatecall': 6, 'staticcall': 6, 'memoryguard': 1}
P7 = ('a', 'b', 'c', 'd', 'e', 'f', 'g')


def it(key, body, **kw):
    kw.setdefault('helpers', H)
    return Item(key, body, **kw)


def operands(thorough, full):
    """every operand position of every builtin in every representation"""
    out = []
    reps = list(REPS)
    for op in BIN + SBIN:
        for x in reps:
            for y in reps:
                if not full and x != y and 'u256' not in (x, y) and (reps.index(x) * 7 + reps.index(y) * 3 + len(op)) % 5: continue
                out.append(it(f'{op}({x}, {y})', f'r := {op}({REPS[x]("a")}, {REPS[y]("b")})'))
        for l in LITS2:
            for x in ('u256', 'b32', 'i32', 'i64') if full else ('u256', 'b32'):
                out.append(it(f'{op}({x}, {l})', f'r := {op}({REPS[x]("a")}, {l})'))
                out.append(it(f'{op}({l}, {x})', f'r := {op}({l}, {REPS[x]("a")})'))
    for op in UN + LOAD:
        for x in reps: out.append(it(f'{op}({x})', f'r := {op}({wide(op, 0, REPS[x]("a"), x)})'))
        for l in LITS:
            if op in ('calldataload', 'mload', 'blockhash') and big(l): continue
            out.append(it(f'{op}({l})', f'r := {op}({l})'))
    for op in ZERO: out.append(it(f'{op}()', f'r := {op}()'))
    for op, n in VAL.items():
        if op == 'memoryguard': out.append(it('memoryguard(128)', 'r := memoryguard(128)')); out.append(it('memoryguard(0x80)', 'r := memoryguard(0x80)')); continue
        ps = P7[:n]
        for i in range(n):
            for x in reps:
                args = [wide(op, j, p if j != i else REPS[x](p), 'u256' if j != i else x) for j, p in enumerate(ps)]
                out.append(it(f'{op} operand {i + 1} {x}', f'r := {op}({", ".join(args)})', params=ps))
            for l in ('0', '1', '64', '0x40', '"abc"', 'true'):
                args = [wide(op, j, p, 'u256') if j != i else l for j, p in enumerate(ps)]
                out.append(it(f'{op} operand {i + 1} {l}', f'r := {op}({", ".join(args)})', params=ps))
    for op, n in EFF.items():
        ps = P7[:n]
        for i in range(n):
            for x in reps:
                args = [wide(op, j, p if j != i else REPS[x](p), 'u256' if j != i else x) for j, p in enumerate(ps)]
                out.append(it(f'{op} operand {i + 1} {x}', f'{op}({", ".join(args)}) r := 1', params=ps))
            for l in LITS:
                if isoff(op, i) and big(l): continue
                args = [wide(op, j, p, 'u256') if j != i else l for j, p in enumerate(ps)]
                out.append(it(f'{op} operand {i + 1} {l}', f'{op}({", ".join(args)}) r := 1', params=ps))
    for op in ('stop', 'invalid'): out.append(it(op, f'if a {{ {op}() }} r := 1'))
    out += [it('return in a called function', 'r := add(hlt(a), 1)', helpers='function hlt(u) -> v { if u { return(u, 32) } v := 2 }'),
            it('effects in order', 'sstore(1, a) tstore(2, b) mstore(32, c) log1(0, 32, a) r := sload(1) mstore8(31, r) sstore(r, mload(32))')]
    return out


# operands the host interface takes as 32- or 64-bit numbers; how a wider word is treated is a separate question
OFF = {'mload': (0,), 'calldataload': (0,), 'mstore': (0,), 'mstore8': (0,), 'mcopy': (0, 1, 2), 'calldatacopy': (0, 1, 2), 'returndatacopy': (0, 1, 2), 'codecopy': (0, 1, 2), 'datacopy': (0, 1, 2), 'extcodecopy': (1, 2, 3),
       'keccak256': (0, 1), 'create': (1, 2), 'create2': (1, 2), 'call': (0, 3, 4, 5, 6), 'delegatecall': (0, 2, 3, 4, 5), 'staticcall': (0, 2, 3, 4, 5), 'return': (0, 1), 'revert': (0, 1), 'blockhash': (0,), 'memoryguard': (0,)}
for _k in range(5): OFF['log%d' % _k] = (0, 1)
def isoff(op, i): return i in OFF.get(op, ())
def big(l): return l.startswith('"') or (l not in ('true', 'false') and int(l, 0) >= 1 << 32)
def wide(op, i, t, x): return t


# operands the machine interface has 32 (or 64) bits for, given a wider word: what the EVM does
PAST = {('calldataload', 0): 'r := 0', ('blockhash', 0): 'r := 0', ('calldatacopy', 1): 'calldatacopy({0}, 0xffffffff, {2}) r := 1', ('codecopy', 1): 'codecopy({0}, 0xffffffff, {2}) r := 1', ('extcodecopy', 2): 'extcodecopy({0}, {1}, 0xffffffff, {3}) r := 1'}
TRUNC = 'only the low bits of the operand count'


def wides():
    out = []
    for op, pos in OFF.items():
        if op in ('memoryguard', 'datacopy'): continue
        for i in pos:
            if op in ('call', 'delegatecall', 'staticcall') and i == 0: continue    # the gas limit is an upper bound: the host caps it
            n = max(list(pos) + [i]) + 1
            n = {'mload': 1, 'calldataload': 1, 'blockhash': 1}.get(op) or EFF.get(op) or VAL.get(op)
            args = ['32'] * n
            low = 7
            W = hex((1 << 64) + low) if op == 'blockhash' else hex((1 << 32) + low)
            call = lambda x: f'{op}({", ".join(x if j == i else a for j, a in enumerate(args))})'
            val = op in UN + LOAD or op in VAL
            form = (lambda e: f'r := {e}') if val else (lambda e: f'{e} r := 1')
            ref = PAST.get((op, i), 'invalid()').format(*args)
            out.append(it(f'{op} operand {i + 1} wider than the machine takes', f'let k := {W} ' + form(call('k')), ref=ref, alt=(TRUNC, form(call(str(low))), H)))
    return out


CTX = {
    'result': 'r := {}', 'variable': 'let x := {} r := x', 'variable reassigned': 'let x := {} x := c r := x', 'assigned later': 'let x := c x := {} r := x',
    'assigned over a small value': 'let x := 5 x := {} r := x', 'condition': 'if {} {{ r := 1 }}', 'loop condition': 'for {{ let k := 0 }} {} {{ }} {{ r := 1 break }}',
    'scrutinee': 'switch {} case 0 {{ r := 1 }} case 7 {{ r := 2 }} case 0x10000000000000007 {{ r := 3 }} default {{ r := 4 }}', 'argument': 'r := id({})', 'tuple': 'let x, y := pair({}) r := sub(x, mul(y, 3))',
    'stored': 'sstore({}, c)', 'stored value': 'sstore(c, {})', 'memory value': 'mstore(32, {})', 'memory byte': 'mstore8(31, {})', 'topic': 'log2(0, 32, {}, c)',
    'added': 'r := add({}, c)', 'doubled': 'let x := {} r := add(x, x)', 'is zero': 'r := iszero({})', 'inverted': 'r := not({})', 'compared': 'r := eq({}, c)', 'less': 'r := lt({}, c)', 'shifted': 'r := shr(3, {})', 'masked': 'r := and({}, 0xff)',
    'dropped': 'pop({})', 'size': 'keccak(0, and({}, 0xffff))', 'negated': 'r := sub(0, {})', 'in a block': '{{ let x := {} r := x }}', 'two results': 'r := {} let y := r r := c r := sub(r, y)',
}
CTX['size'] = 'r := keccak256(0, and({}, 0xffff))'


def results():
    """every builtin's result in every use"""
    vals = {n: f'{n}()' for n in ZERO}
    for n in BIN + SBIN + DIVB: vals[n] = f'{n}(a, b)'
    for n in UN + LOAD: vals[n] = f'{n}(a)'
    for n, k in VAL.items():
        vals[n] = f'{n}({", ".join(("a", "b", "8", "16", "24", "32", "40")[:k])})' if n != 'memoryguard' else 'memoryguard(128)'
    vals['add of numbers'] = 'add(extcodesize(a), returndatasize())'
    vals['add of memory words'] = 'add(sload(a), sload(b))'
    vals['not of memory word'] = 'not(sload(a))'
    vals['and of memory words'] = 'and(sload(a), calldataload(b))'
    vals['or of a word and a number'] = 'or(sload(a), extcodesize(b))'
    vals['call'] = 'call(a, b, c, 8, 16, 24, 32)'
    vals['user function'] = 'id(a)'
    vals['user function from storage'] = 'sb(a)'
    vals['parameter'] = 'a'
    for l in LITS: vals['literal ' + l] = l
    out = []
    for n, v in vals.items():
        for cn, c in CTX.items():
            out.append(it(f'{n} as {cn}', c.format(v)))
    return out


def division(full):
    out = []
    reps = list(REPS)
    for op in DIVB:
        for x in reps:
            for y in reps:
                if not full and x != y and 'u256' not in (x, y) and (reps.index(x) * 5 + reps.index(y) * 3 + len(op)) % 4: continue
                out.append(it(f'{op}({x}, {y})', f'r := {op}({REPS[x]("a")}, {REPS[y]("b")})'))
        ls = LITS + ['2', '30', '31', '32', '33', '224', '248', '254', '256', '257', '0xe0', '0x8000000000000000000000000000000000000000000000000000000000000001', '2147483647', '2147483648']
        for l in ls:
            for x in ('u256', 'b32', 'i32', 'i64', 'bool') if full else ('u256', 'b32', 'i32'):
                out.append(it(f'{op}({x}, {l})', f'r := {op}({REPS[x]("a")}, {l})'))
                out.append(it(f'{op}({l}, {x})', f'r := {op}({l}, {REPS[x]("a")})'))
        for l in ls:
            for m in ls if full else ['0', '1', '32', '256', LITS[12], LITS[13], '2147483647']:
                out.append(it(f'{op}({l}, {m})', f'r := {op}({l}, {m})'))
        out.append(it(f'{op} of variables', f'let x := a let y := b x := {op}(x, y) r := x'))
        out.append(it(f'{op} twice', f'r := {op}({op}(a, b), {op}(b, c))'))
        out.append(it(f'{op} condition', f'if {op}(a, b) {{ r := 1 }}'))
        out.append(it(f'{op} in a loop', f'let x := a for {{ let i := 0 }} lt(i, 2) {{ i := add(i, 1) }} {{ x := {op}(b, x) }} r := x'))
    for op in ('addmod', 'mulmod'):
        for l in ('0', '1', '2', LITS[12]):
            out.append(it(f'{op} by {l}', f'r := {op}(a, b, {l})'))
            out.append(it(f'{op} of {l}', f'r := {op}({l}, b, c)'))
        for x in reps: out.append(it(f'{op} modulus {x}', f'r := {op}(a, b, {REPS[x]("c")})'))
    for l in LITS:
        out.append(it(f'exp to {l}', f'r := exp(a, {l})')); out.append(it(f'exp of {l}', f'r := exp({l}, a)'))
    return out


# ---------------------------------------------------------------- control flow
class CF:
    """control-flow programs: every statement writes a different slot"""
    def __init__(s): s.k = 0
    def st(s, v='a'):
        s.k += 1
        return f'sstore({s.k}, {v}) '

    def leaf(s, n, loop):
        return {'none': s.st(), 'leave': s.st() + 'leave ', 'leave first': 'leave ' + s.st(), 'break': s.st() + ('break ' if loop else 'leave '), 'continue': s.st() + ('continue ' if loop else ''),
                'break first': ('break ' if loop else '') + s.st(), 'continue first': ('continue ' if loop else '') + s.st(), 'conditional break': f'if eq(b, {s.k + 1}) {{ ' + ('break' if loop else 'leave') + ' } ' + s.st(),
                'conditional continue': f'if gt(b, {s.k + 1}) {{ ' + ('continue' if loop else 'leave') + ' } ' + s.st(), 'empty': '', 'revert': s.st() + 'revert(0, b) ', 'call that leaves': f'pop(lv(b)) ' + s.st(),
                'conditional leave': f'if c {{ r := {s.k + 40} leave }} ' + s.st()}[n]

    def comp(s, n, inner, loop):
        """compound statement n around inner(loop)"""
        if n == 'if': return f'if c {{ {inner(loop)}}} '
        if n == 'if not': return f'if iszero(a) {{ {inner(loop)}}} '
        if n == 'switch': return f'switch b case 0 {{ {inner(loop)}}} case 1 {{ {s.st()}}} default {{ {inner(loop)}}} '
        if n == 'switch no default': return f'switch a case 3 {{ {inner(loop)}}} case 0x10000000000000003 {{ {s.st("c")}}} '
        if n == 'switch default only': return f'switch c default {{ {inner(loop)}}} '
        if n == 'for': s.k += 1; i = f'i{s.k}'; return f'for {{ let {i} := 0 }} lt({i}, 2) {{ {i} := add({i}, 1) {s.st(i)}}} {{ {inner(True)}}} '
        if n == 'for condition': return f'for {{ {s.st()}}} sload({s.k}) {{ {s.st()}}} {{ {inner(True)}}} '
        if n == 'for empty': return f'for {{ }} gt(a, b) {{ a := sub(a, 1) }} {{ {inner(True)}}} '
        if n == 'forever': return f'for {{ }} 1 {{ {s.st()}}} {{ {inner(True)}if b {{ {s.st()} break }} leave }} '
        if n == 'block': return f'{{ {inner(loop)}}} '


LEAVES = ['none', 'leave', 'leave first', 'break', 'continue', 'break first', 'continue first', 'conditional break', 'conditional continue', 'empty', 'revert', 'call that leaves', 'conditional leave']
COMPS = ['if', 'if not', 'switch', 'switch no default', 'switch default only', 'for', 'for condition', 'for empty', 'forever', 'block']
LV = 'function lv(u) -> v { if u { v := 3 leave } v := 9 sstore(77, v) }'


def control(depth3=0, seed=1):
    out = []
    def mk(key, chain, leaf):
        c = CF()
        def nest(i):
            def f(loop):
                if i == len(chain): return c.leaf(leaf, loop)
                return c.comp(chain[i], nest(i + 1), loop) + c.st()
            return f
        body = c.st('b') + nest(0)(False) + c.st('c') + 'r := add(r, 7)'
        # loops in loops run long: follow fewer decisions
        n = sum(x.startswith('for') for x in chain)
        out.append(it(key, body, helpers=LV, limit=8 if n < 2 else 7))
    for l in LEAVES:
        for x in COMPS:
            mk(f'{x} / {l}', [x], l)
            for y in COMPS: mk(f'{x} / {y} / {l}', [x, y], l)
    if depth3:
        r = random.Random(seed)
        al = [(x, y, z, l) for x in COMPS for y in COMPS for z in COMPS for l in LEAVES]
        for x, y, z, l in r.sample(al, min(depth3, len(al))): mk(f'{x} / {y} / {z} / {l}', [x, y, z], l)
    for v, t in (('true', 'true'), ('false', 'false'), ('0', '0'), ('2', '2'), ('word', 'sload(a)'), ('high bits', '0x1000000000000000000000000'), ('string', '"x"'), ('function', 'lv(a)')):
        out.append(it(f'if {v}', f'if {t} {{ sstore(1, b) r := 1 }} sstore(2, c)', helpers=LV))
        out.append(it(f'for {v}', f'for {{ }} {t} {{ sstore(3, b) }} {{ sstore(1, b) r := 1 if c {{ break }} leave }} sstore(2, c)', helpers=LV))
    for v, cs in (('literals', ['0', '0x1', '255', '"a"', 'true0']), ('wide', ['0', '4294967296', '0x10000000000000000', '115792089237316195423570985008687907853269984665640564039457584007913129639935', '7', '8'])):
        cs = [c for c in cs if c != 'true0']
        for sc in ('a', 'sload(a)', 'extcodesize(a)', 'calldataload(a)', 'lt(a, b)', 'id(a)', 'shr(224, a)'):
            out.append(it(f'switch {sc} {v}', f'switch {sc} ' + ' '.join(f'case {c} {{ sstore({i}, b) r := {i + 5} }}' for i, c in enumerate(cs)) + ' default { r := 99 } sstore(50, c)', helpers=H))
            out.append(it(f'switch {sc} {v} no default', f'switch {sc} ' + ' '.join(f'case {c} {{ sstore({i}, b) r := {i + 5} }}' for i, c in enumerate(cs)) + ' sstore(50, c)', helpers=H))
    out += [it('switch case true', 'switch lt(a, b) case true { r := 1 } case false { r := 2 }'), it('switch scrutinee once', 'switch bump(a) case 0 { r := 1 } case 1 { r := 2 } default { r := 3 }', helpers='function bump(u) -> v { sstore(u, add(sload(u), 1)) v := sload(u) }'),
            it('condition once', 'if bump(a) { r := 1 } if bump(b) { r := add(r, 2) }', helpers='function bump(u) -> v { sstore(u, add(sload(u), 1)) v := sload(u) }'),
            it('recursion', 'r := fac(and(a, 3))', helpers='function fac(n) -> v { switch n case 0 { v := 1 } default { v := mul(n, fac(sub(n, 1))) } }', limit=10),
            it('mutual recursion', 'r := ev(and(a, 3))', helpers='function ev(n) -> v { if iszero(n) { v := 1 leave } v := od(sub(n, 1)) } function od(n) -> v { if iszero(n) { leave } v := ev(sub(n, 1)) }', limit=12),
            it('loop in a called function', 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { if lp(b) { continue } sstore(i, a) } r := 5', helpers='function lp(u) -> v { for { let j := 0 } lt(j, 2) { j := add(j, 1) } { if eq(u, j) { v := 1 break } } }', limit=9),
            it('call between push and pop of a loop', 'for { let i := 0 } lt(i, 2) { i := add(i, lp2(i)) } { sstore(9, i) } r := 5', helpers='function lp2(u) -> v { v := 1 for { } gt(u, 5) { } { break } }', limit=9),
            it('statements after leave', 'if a { leave sstore(1, 2) r := 9 } r := 3'), it('leave in every branch', 'switch a case 0 { r := 1 leave } default { r := 2 leave } r := 3'),
            it('no result function', 'nothing(a) r := 1', helpers='function nothing(u) { if u { leave } sstore(1, 2) }'), it('empty function', 'nothing(a) r := 1', helpers='function nothing(u) { }'),
            it('function that never returns', 'nr(a) r := 1', helpers='function nr(u) { revert(u, 4) }'), it('expression statement', 'pop(lv(a)) r := 1', helpers=LV)]
    return out


CODES = {
    'plain': 'sstore(1, 2) if calldatasize() { sstore(3, 4) } for { let i := 0 } lt(i, 2) { i := add(i, 1) } { sstore(i, callvalue()) } let z := 5 sstore(z, z)',
    'ends early': 'if callvalue() { revert(0, 0) } return(0, 32) sstore(1, 2)', 'stops': 'switch calldatasize() case 0 { stop() } case 4 { invalid() } default { sstore(9, 9) } sstore(1, caller())',
    'dispatch': 'let s := shr(224, calldataload(0)) switch s case 0xa9059cbb { sstore(f(1), f(2)) stop() } case 0x01 { leaveit(3) } default { revert(0, 0) } sstore(7, s) function f(x) -> y { y := add(x, 1) } function leaveit(x) { if x { leave } sstore(x, 8) }',
    'blocks': '{ let x := 1 { let y := add(x, 2) sstore(x, y) } { let y := 9 sstore(y, x) } } let x := 4 sstore(x, x)',
    'empty': '',
    'selector check': 'if iszero(lt(calldatasize(), 4)) { let s := shr(224, calldataload(0)) if eq(s, 0x12345678) { if callvalue() { revert(0, 0) } if slt(add(calldatasize(), not(3)), 0) { revert(0, 0) } mstore(128, sload(0)) return(128, 32) } } revert(0, 0)',
}


# ---------------------------------------------------------------- scopes
def scopes():
    out = []
    vals = {'word': 'a', 'number': 'extcodesize(b)', 'memory word': 'sload(c)', 'constant': '5', 'wide constant': '0x10000000000000000000000000000000000000001', 'nothing': None, 'function': 'id(b)', 'bool': 'lt(a, b)'}
    def let(n, k): return f'let {n}' + (f' := {vals[k]}' if vals[k] else '')
    for x in vals:
        for y in vals:
            out.append(it(f'siblings {x}, {y}', f'{{ {let("x", x)} sstore(1, x) }} {{ {let("x", y)} sstore(2, x) x := c sstore(3, x) }} {let("x", x)} r := x'))
            out.append(it(f'if body then same name {x}, {y}', f'if a {{ {let("x", x)} r := x }} {let("x", y)} r := add(r, x)'))
            out.append(it(f'cases {x}, {y}', f'switch a case 0 {{ {let("x", x)} r := x }} case 1 {{ {let("x", y)} r := x }} default {{ {let("x", x)} x := c r := x }} {let("x", y)} sstore(r, x)'))
            out.append(it(f'loop {x}, {y}', f'for {{ {let("i", x)} }} lt(i, b) {{ {let("q", y)} i := add(i, q) }} {{ {let("q", x)} sstore(i, q) if eq(q, c) {{ break }} }} {let("i", y)} {let("q", x)} r := add(i, q)', limit=6))
            out.append(it(f'loops in sequence {x}, {y}', f'for {{ {let("i", x)} }} lt(i, 2) {{ i := add(i, 1) }} {{ sstore(i, 1) }} for {{ {let("i", y)} }} lt(i, 2) {{ i := add(i, 1) }} {{ sstore(i, 2) }} r := 1', limit=6))
            out.append(it(f'outer assigned from inner {x}, {y}', f'{let("x", x)} {{ {let("y", y)} x := y {{ x := add(x, y) }} }} r := x'))
            out.append(it(f'function locals {x}, {y}', f'{let("x", x)} {let("y", y)} let s := loc(x, b) r := sub(s, add(x, y))', helpers=H + '\nfunction loc(y, q) -> x { let z := y { let w := q x := add(z, w) } z := 3 if z { let w := 9 x := add(x, w) } }'))
    out += [
        it('same name in two functions', 'let v := a r := add(one(b), add(two(c), v))', helpers='function one(v) -> x { x := add(v, 1) v := 7 } function two(x) -> v { v := mul(x, 2) x := 7 }'),
        it('nested loops same depth', 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { for { let j := i } lt(j, 2) { j := add(j, 1) } { let t := add(i, j) sstore(t, a) } let t := 9 sstore(t, i) }'),
        it('after continue', 'for { let i := 0 } lt(i, 3) { i := add(i, 1) } { let t := i if eq(t, 1) { let u := t sstore(u, 1) continue } let u := b sstore(t, u) } let t := c r := t'),
        it('after break', 'for { let i := 0 } lt(i, 3) { i := add(i, 1) } { let t := i if eq(t, a) { let u := t r := u break } } let t := c let u := b r := add(r, add(t, u))'),
        it('after leave', 'if a { let t := b r := t leave } let t := c r := t'),
        it('tuple in block', '{ let x, y := pair(a) r := add(x, y) } { let x, y := pair(b) r := sub(r, mul(x, y)) } let y, x := pair(c) r := add(r, sub(x, y))'),
        it('init seen everywhere', 'for { let i := a let j := b } lt(i, j) { i := add(i, j) } { sstore(i, j) j := sload(i) } r := a', limit=6),
        it('body does not reach post', 'let q := a for { let i := 0 } lt(i, 2) { q := add(q, i) i := add(i, 1) } { { let w := q sstore(w, i) } } r := q'),
        it('deep', '{ { { let x := a { let y := x { let z := y { r := z } z := b r := add(r, z) } } } let x := c { let y := x r := add(r, y) } } }'),
        it('declared in case, used after in sibling', 'switch a case 0 { let k := b sstore(k, 1) } default { } { let k := c sstore(k, 2) } r := 1'),
        it('block in a loop', 'let s := 0 for { let i := 0 } lt(i, 2) { i := add(i, 1) } { { let k := sload(i) s := add(s, k) } { let k := i s := add(s, k) } } r := s'),
        it('parameter reused', 'a := add(a, 1) { let k := a a := b k := sub(k, a) r := k } sstore(a, c)'),
    ]
    return out


# (key, function body) that must be refused: the name is not visible there
REFUSED = {
    'block': '{ let x := a } r := x', 'if body': 'if a { let x := b } r := x', 'case': 'switch a case 0 { let x := b } default { r := x }', 'default': 'switch a case 0 { r := x } default { let x := b }',
    'after switch': 'switch a case 0 { let x := b } r := x', 'loop init': 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { } r := i', 'loop body': 'for { } a { a := 0 } { let x := b } r := x',
    'loop body in post': 'for { } a { r := x } { let x := b }', 'loop body in condition': 'for { } x { } { let x := b }', 'post in body': 'for { } a { let x := b } { r := x }', 'post after': 'for { } a { let x := b } { } r := x',
    'nested': '{ { let x := a } { r := x } }', 'other function': 'r := add(oth(a), loc)', 'other function parameter': 'r := add(oth(a), par)', 'other function result': 'r := add(oth(a), res)',
    'after break': 'for { } a { } { let x := b break } r := x', 'after leave': 'if a { let x := b leave } r := x', 'after continue': 'for { } a { } { if b { let x := c continue } r := x }',
    'never declared': 'r := x', 'assigned before': 'x := 1 r := a', 'read before': 'r := x let x := a', 'top level': 'r := top', 'tuple in block': '{ let x, y := pair(a) } r := y',
    'assigned out of scope': '{ let x := a } x := 3 r := a', 'if in loop': 'for { } a { } { if b { let x := c } sstore(x, 1) break }',
}


# ---------------------------------------------------------------- zero by default
def zeros():
    out = []
    uses = {'result': 'r := {}', 'added': 'r := add({}, a)', 'condition': 'if {} {{ r := 1 }}', 'stored': 'sstore({}, a)', 'value stored': 'sstore(a, {})', 'memory': 'mstore(0, {})', 'scrutinee': 'switch {} case 0 {{ r := 3 }} default {{ r := 4 }}',
            'argument': 'r := id({})', 'topic': 'log1(0, 1, {})', 'hash': 'r := sub(not({}), a)', 'offset': 'r := mload({})', 'compared': 'r := eq({}, b)', 'then assigned': 'r := {0} {0} := a r := add(r, {0})', 'then word': '{0} := sload(a) r := {0}', 'then number': '{0} := extcodesize(a) r := {0}'}
    for n, u in uses.items():
        out.append(it(f'let, {n}', 'let x ' + u.format('x')))
        out.append(it(f'let two, {n}', 'let x, y ' + u.format('y')))
        out.append(it(f'let three, {n}', 'let x, y, z y := b ' + u.format('z')))
        out.append(it(f'let in a loop, {n}', 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { let x ' + u.format('x') + ' x := b }'))
        out.append(it(f'let in a branch, {n}', 'if a { let x ' + u.format('x') + ' x := b } if c { let x ' + u.format('x') + ' }'))
        if '{0}' not in u:
            out.append(it(f'function result, {n}', u.format('z1(a)'), helpers=ZH))
            out.append(it(f'function result assigned in one branch, {n}', u.format('z2(a)'), helpers=ZH))
            out.append(it(f'function result after leave, {n}', u.format('z3(a)'), helpers=ZH))
            out.append(it(f'function result in a loop, {n}', 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { sstore(i, z2(i)) ' + u.format('z1(i)') + ' }', helpers=ZH))
        out.append(it(f'tuple result, {n}', 'let x, y := z4(a) ' + u.format('y'), helpers=ZH))
        out.append(it(f'tuple result assigned, {n}', 'let x, y x, y := z5(a) ' + u.format('x'), helpers=ZH))
    out += [it('own result read first', 'sstore(r, a)'), it('own result in a condition', 'if r { sstore(1, a) } r := a'), it('own result accumulates', 'for { let i := 0 } lt(i, 3) { i := add(i, 1) } { r := add(r, b) }'),
            it('two own results', 's := a', rets=('r', 's')), it('two own results, none assigned', 'sstore(a, b)', rets=('r', 's')), it('three own results', 'if a { t := b } r := s', rets=('r', 's', 't')),
            it('after a call that fills the stack', 'let q := fill(a) let x r := add(x, q)', helpers='function fill(u) -> v { let k1 := u let k2 := add(u, 1) let k3 := mul(u, 3) v := add(k1, add(k2, k3)) }')]
    return out
ZH = H + '\nfunction z1(u) -> v { sstore(5, u) }\nfunction z2(u) -> v { if u { v := u } }\nfunction z3(u) -> v { if u { leave } v := 7 }\nfunction z4(u) -> v, w { if u { v := 3 } }\nfunction z5(u) -> v, w { w := u }'


# ---------------------------------------------------------------- widths and aliases
def widths():
    out = []
    src = {'word': 'a', 'number': 'extcodesize(a)', 'long number': 'gas()', 'sum of numbers': 'add(extcodesize(a), extcodesize(b))', 'memory word': 'sload(a)', 'loaded': 'mload(a)', 'constant': '5', 'middle constant': '4294967296', 'long constant': '18446744073709551616',
           'hex': '0xff', 'wide hex': '0x8000000000000000000000000000000000000000000000000000000000000000', 'bool': 'true', 'string': '"abc"', 'comparison': 'lt(a, b)', 'function': 'id(a)', 'from storage': 'sb(a)', 'difference': 'sub(a, b)', 'shift': 'shl(200, 1)', 'product': 'mul(a, b)', 'hash': 'keccak256(0, 32)', 'inverted': 'not(0)', 'call': 'call(a, b, 0, 0, 0, 0, 0)'}
    for x in src:
        for y in src:
            out.append(it(f'{x} then {y}', f'let v := {src[x]} sstore(1, v) v := {src[y]} r := v'))
            out.append(it(f'{x} then {y} in a branch', f'let v := {src[x]} if c {{ v := {src[y]} }} r := v'))
        out.append(it(f'{x} in a loop', f'let v := {src[x]} for {{ let i := 0 }} lt(i, 2) {{ i := add(i, 1) }} {{ v := mul(v, c) }} r := v'))
        out.append(it(f'{x} read into another', f'let v := {src[x]} let w := v v := c r := sub(w, v)'))
        out.append(it(f'{x} swapped', f'let v := {src[x]} let w := c let t := v v := w w := t r := sub(mul(w, 3), v)'))
        out.append(it(f'{x} to a parameter', f'a := {src[x]} r := a'))
        out.append(it(f'{x} to a parameter and back', f'let k := a a := {src[x]} b := a a := k r := sub(a, b)'))
        out.append(it(f'{x} through a call', f'r := id(id({src[x]}))'))
        out.append(it(f'{x} through a tuple', f'let p, q := pair({src[x]}) let s, t := pair(q) p, q := pair(t) r := sub(mul(p, 5), q)'))
        out.append(it(f'{x} to a result', f'r := {src[x]} let k := r r := c r := sub(k, r)'))
        out.append(it(f'{x} incremented', f'let v := {src[x]} v := add(v, 1) v := add(v, v) r := v'))
        out.append(it(f'{x} as loop counter', f'for {{ let i := {src[x]} }} lt(i, c) {{ i := add(i, b) }} {{ r := i }}', limit=6))
        out.append(it(f'{x} assigned in post', f'let v := {src[x]} for {{ let i := 0 }} lt(i, 2) {{ i := add(i, 1) v := shl(40, v) }} {{ }} r := v'))
        out.append(it(f'{x} assigned in a nested loop', f'let v := {src[x]} for {{ let i := 0 }} lt(i, 2) {{ i := add(i, 1) }} {{ switch i case 1 {{ v := not(v) }} }} r := v'))
        for cn in ('condition', 'loop condition', 'scrutinee'): out.append(it(f'{x} as {cn}', CTX[cn].format(src[x])))
        out.append(it(f'variable {x} as condition', f'let v := {src[x]} if v {{ r := 1 }} v := b if v {{ r := add(r, 2) }}'))
        out.append(it(f'variable {x} as scrutinee', f'let v := {src[x]} switch v case 0 {{ r := 1 }} case 5 {{ r := 2 }} case 0x10000000000000005 {{ r := 3 }} v := a switch v case 0 {{ r := add(r, 10) }} case 0x100000005 {{ r := add(r, 20) }}'))
        out.append(it(f'{x} two variables', f'let v, w := pair({src[x]}) v := w w := c r := sub(v, w)'))
        out.append(it(f'{x} into a later tuple', f'let v := {src[x]} let w w, v := pair(c) r := sub(mul(v, 3), w)'))
        out.append(it(f'{x} compared with a word', f'let v := {src[x]} r := lt(v, c)'))
        out.append(it(f'{x} compared with itself', f'let v := {src[x]} let w := v v := c r := add(mul(2, gt(v, w)), eq(v, w))'))
    out += [it('results swapped', 'r := b s := a', rets=('r', 's')), it('results read after change', 's := a r := s s := b', rets=('r', 's')), it('recursion keeps own variables', 'r := rc(and(a, 3))', helpers='function rc(n) -> v { let k := n if n { v := rc(sub(n, 1)) } v := add(mul(v, 4), k) }', limit=10),
            it('two live calls', 'let x := id(a) let y := id(b) r := sub(x, y)'), it('call result kept over calls', 'let x := sb(a) let y := sb(b) x := add(x, sb(c)) r := sub(x, y)'), it('same function twice in one expression', 'r := sub(sb(a), sb(b))'),
            it('arguments are copies', 'let x := a r := ch(x) r := add(r, mul(x, 3))', helpers='function ch(u) -> v { u := add(u, 5) v := u }'), it('tuple of same', 'let x, y := pair(a) x, y := pair(y) x, y := pair(x) r := add(mul(x, 7), y)'),
            it('memory words stay apart', 'let x := mload(0) let y := mload(32) let z := x x := y y := z r := sub(mul(x, 3), y)'), it('result then loop', 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { let k := r r := sload(k) }')]
    return out


# ---------------------------------------------------------------- evaluation order
OH = ''.join(f'function e{i}(u) -> v {{ sstore({100 + i}, u) v := add(u, {i}) }}\n' for i in range(7)) + 'function rz(u, v) { revert(0, 0) }\nfunction rz2(u, v) -> w, x { revert(0, 0) }\nfunction rz1(u) -> w { revert(0, 0) }\nfunction f2(u, v) -> w { sstore(u, v) w := sub(u, v) }\nfunction f3(u, v, w) -> x, y { x := sub(u, v) y := sub(v, w) }\nfunction f4(u, v, w, x) { log4(0, 0, u, v, w, x) }'


def order():
    out = []
    P = ('a', 'b', 'c', 'd', 'e', 'f', 'g')
    def sideargs(n, skip=()): return [f'e{i}({P[i]})' if i not in skip else P[i] for i in range(n)]
    ar = {**{o: 2 for o in BIN + SBIN + DIVB}, **{o: 1 for o in UN + LOAD}, **{k: v for k, v in VAL.items() if k != 'memoryguard'}, **EFF}
    for op, n in ar.items():
        res = op not in EFF
        def w(key, args): out.append(it(key, (f'r := {op}({", ".join(args)})' if res else f'{op}({", ".join(args)}) r := 1'), params=P, helpers=OH))
        w(f'{op}: every operand', sideargs(n))
        for i in range(n):
            if n > 1: w(f'{op}: all but operand {i + 1}', sideargs(n, (i,)))
            w(f'{op}: operand {i + 1} constant', [x if j != i else '160' for j, x in enumerate(sideargs(n))])
            w(f'{op}: operand {i + 1} gas', [x if j != i else 'gas()' for j, x in enumerate(sideargs(n))])
            w(f'{op}: operand {i + 1} from state', [x if j != i else f'sload({101})' for j, x in enumerate(sideargs(n))])
            w(f'{op}: operand {i + 1} memory', [x if j != i else 'mload(96)' for j, x in enumerate(sideargs(n))])
            w(f'{op}: operand {i + 1} nested', [x if j != i else f'add(e5({P[j]}), e6({P[j]}))' for j, x in enumerate(sideargs(n))])
    ext = {'call': 'call(gas(), a, e1(b), 0, 0, 0, 0)', 'create': 'create(e0(a), 0, 32)', 'keccak': 'keccak256(e0(a), e1(b))', 'storage': 'sload(e0(a))', 'balance': 'selfbalance()', 'returned size': 'returndatasize()'}
    for n, t in ext.items():
        for op in ('add', 'sub', 'lt', 'div', 'shl', 'and', 'eq', 'sstore', 'mstore', 'f2'):
            if op in EFF: out.append(it(f'{op}({n}, effect)', f'{op}({t}, e2(c)) r := 1', params=P, helpers=OH)); out.append(it(f'{op}(effect, {n})', f'{op}(e2(c), {t}) r := 1', params=P, helpers=OH))
            else: out.append(it(f'{op}({n}, effect)', f'r := {op}({t}, e2(c))', params=P, helpers=OH)); out.append(it(f'{op}(effect, {n})', f'r := {op}(e2(c), {t})', params=P, helpers=OH))
    for k, b in {
        'user call': 'r := f2(e0(a), e1(b))', 'user call, three': 'let x, y := f3(e0(a), e1(b), e2(c)) r := sub(x, y)', 'user call, four': 'f4(e0(a), e1(b), e2(c), e3(d)) r := 1', 'nested user calls': 'r := f2(f2(e0(a), e1(b)), f2(e2(c), e3(d)))',
        'assigned tuple': 'let x, y x, y := f3(e0(a), e1(b), e2(c)) r := add(x, y)', 'reverting function': 'rz(e0(a), e1(b)) r := 1', 'reverting function in a branch': 'if c { rz(e0(a), e1(b)) } r := 1', 'reverting function with a result': 'if c { r := rz1(e0(a)) } r := add(r, 1)',
        'declared': 'let x := e0(a) let y := e1(b) r := add(y, x)', 'condition': 'if lt(e0(a), e1(b)) { r := e2(c) }', 'scrutinee': 'switch sub(e0(a), e1(b)) case 0 { r := e2(c) } default { r := e3(d) }',
        'loop condition': 'for { let i := e0(a) } lt(e1(i), e2(b)) { i := e3(i) } { r := e4(i) if c { break } }', 'once': 'r := mul(e0(a), 2) let x := r x := add(x, x) r := x', 'argument used twice': 'let x := e0(a) r := add(x, mul(x, x))',
        'log with effects': 'log4(e0(a), e1(b), e2(c), e3(d), e4(e), e5(f)) r := 1', 'constants between': 'r := addmod(e0(a), 5, e2(c))', 'shifts of constants': 'r := add(shl(1, 2), add(e0(a), e1(b)))', 'selector then effect': 'r := add(shr(224, calldataload(0)), e0(a))',
        'store of constant': 'mstore(e0(a), 5) r := 1', 'store of wide constant': 'mstore(e0(a), 0x112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00) r := 1', 'short circuit is not taken': 'r := and(0, e0(a)) r := add(r, mul(0, e1(b)))', 'discarded': 'pop(e0(a)) pop(add(e1(b), e2(c))) r := 1',
        'gas each time': 'r := sub(gas(), gas())', 'gas around effects': 'let x := gas() sstore(a, b) let y := gas() r := sub(x, y)', 'state read before write': 'let x := sload(a) sstore(a, b) r := sub(x, sload(a))', 'memory read before write': 'let x := mload(a) mstore(a, b) r := sub(x, mload(a))',
        'read in one operand, write in the other': 'r := sub(sload(101), e1(b))', 'write in one operand, read in the other': 'r := sub(e1(b), sload(101))', 'memory read and written': 'r := add(mload(0), wm(a))', 'memory written and read': 'r := add(wm(a), mload(0))',
        'condition of a read': 'if iszero(eq(sload(101), e1(b))) { r := 1 }', 'calldata size check': 'r := add(calldatasize(), not(3)) r := add(r, e0(a))',
    }.items(): out.append(it(k, b, params=P, helpers=OH + '\nfunction wm(u) -> v { mstore(0, u) v := u }'))
    return out


# ---------------------------------------------------------------- pattern replacements
def patterns():
    out = []
    sel = {'decimal': '224', 'hex': '0xe0', 'one less': '223', 'one more': '225', 'variable': 'a', 'longer': '0224', 'other': '0'}
    off = {'zero': '0', 'hex zero': '0x00', 'four': '4', 'one': '1', 'variable': 'b', 'thirty-two': '32', 'false': 'false'}
    sel.pop('longer')
    for op in ('shr', 'shl', 'sar'):
        for s_, x in sel.items():
            for o_, y in off.items():
                out.append(it(f'{op} {s_} of calldata at {o_}', f'r := {op}({x}, calldataload({y}))'))
                out.append(it(f'{op} {s_} of calldata at {o_} in a variable', f'let v := calldataload({y}) r := {op}({x}, v)'))
    for ld in ('mload', 'sload', 'tload', 'id', 'balance'): out.append(it(f'shr 224 of {ld}', f'r := shr(224, {ld}(0))'))
    out.append(it('selector swapped', 'r := shr(calldataload(0), 224)'))
    for n in ('0', '1', '2', '3', '4', '5', '0x03', '0x3', '255', 'true', 'a', '115792089237316195423570985008687907853269984665640564039457584007913129639932'):
        out.append(it(f'calldatasize + not({n})', f'r := add(calldatasize(), not({n}))'))
        out.append(it(f'not({n}) + calldatasize', f'r := add(not({n}), calldatasize())'))
        out.append(it(f'calldatasize - {n}', f'r := sub(calldatasize(), {n})'))
        out.append(it(f'calldatasize and not({n})', f'r := and(calldatasize(), not({n}))'))
        out.append(it(f'slt(calldatasize + not({n}), 32)', f'if slt(add(calldatasize(), not({n})), 32) {{ r := 1 }}'))
    for z in ('returndatasize', 'codesize', 'msize', 'gas'): out.append(it(f'{z} + not(3)', f'r := add({z}(), not(3))'))
    out.append(it('nested not', 'r := add(calldatasize(), not(not(3)))'))
    ks = ['0', '1', '2', '8', '31', '32', '63', '64', '160', '224', '255', '256', '257', '2147483646', '2147483647', '2147483648', '4294967296', '4294967297', '0x100000000000000000000000000000001', 'true']
    vs = ['0', '1', '3', '0x80', '4294967295', '2147483646', '2147483647', '4294967296', '18446744073709551615', '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '"ab"', 'true', 'false']
    for k in ks:
        for v in vs: out.append(it(f'shl({k}, {v})', f'r := shl({k}, {v})'))
        out.append(it(f'shl({k}, a)', f'r := shl({k}, a)'))
        out.append(it(f'condition shl({k}, 1)', f'if shl({k}, 1) {{ r := 1 }}'))
        out.append(it(f'sub(shl({k}, 1), 1)', f'r := sub(shl({k}, 1), 1)'))
        out.append(it(f'variable shl({k}, 1)', f'let x := shl({k}, 1) x := add(x, a) r := x'))
    for v in vs + ['65535', '4294967294', '18446744073709551614', '18446744073709551616', '0x112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00', '115792089237316195423570985008687907853269984665640564039457584007913129639935']:
        for o_ in ('0', '4', '32', '128', '0x80', 'a', 'mload(128)', 'add(a, 32)', 'calldataload(a)', 'extcodesize(a)', '0xffffffff', '4294967295'):
            out.append(it(f'mstore({o_}, {v})', f'mstore({o_}, {v}) r := 1'))
    for m in ('mstore(64, a)', 'mstore(0x40, a)', 'mstore(64, 128)', 'mstore(0x40, memoryguard(128))', 'mstore(63, a)', 'mstore(65, a)', 'mstore8(64, a)', 'mstore(add(32, 32), a)', 'r := mload(64)', 'r := mload(0x40)', 'r := mload(63)', 'r := mload(65)', 'r := mload(add(60, 4))', 'mstore(64, 128) r := mload(64)',
              'mstore(64, extcodesize(a)) r := mload(64)', 'let p := mload(64) mstore(p, a) mstore(64, add(p, 32)) r := keccak256(p, 32)', 'let p := mload(64) mstore(64, a) r := sub(p, mload(64))', 'mstore("@", a)', 'r := sload(64)', 'sstore(64, a)', 'r := calldataload(64)', 'let k := 64 mstore(k, a) r := mload(k)',
              'return(64, 32)', 'r := keccak256(64, 32)', 'calldatacopy(64, 0, 32) r := mload(64)', 'mcopy(64, 0, 32)', 'log0(64, 32)', 'r := call(a, b, c, 64, 32, 64, 32)'):
        out.append(it(f'word 64: {m}', m + ' r := add(r, 1)'))
    masks = {'mask': 'sub(shl(160, 1), 1)', 'mask literal': '0xffffffffffffffffffffffffffffffffffffffff', 'one less': 'sub(shl(159, 1), 1)', 'one more': 'sub(shl(161, 1), 1)', 'hex shift': 'sub(shl(0xa0, 1), 1)', 'minus two': 'sub(shl(160, 1), 2)', 'of two': 'sub(shl(160, 2), 1)', 'swapped': 'sub(1, shl(160, 1))', 'added': 'add(shl(160, 1), 1)', 'inverted': 'not(sub(shl(160, 1), 1))', 'plain': 'shl(160, 1)', 'shr': 'sub(shr(160, 1), 1)', 'variable': 'b'}
    vals = {'parameter': 'a', 'caller': 'caller()', 'variable': 'v', 'storage': 'sload(a)', 'memory variable': 'w'}
    for mn, m in masks.items():
        for vn, v in vals.items():
            for op in ('and', 'or', 'xor'):
                if op != 'and' and (vn != 'parameter'): continue
                out.append(it(f'{op} {vn}, {mn}', f'let v := b let w := sload(c) r := {op}({v}, {m})'))
                out.append(it(f'{op} {mn}, {vn}', f'let v := b let w := sload(c) r := {op}({m}, {v})'))
        out.append(it(f'check {mn}', f'if iszero(eq(a, and(a, {m}))) {{ revert(0, 0) }} r := a'))
    for fn in ('abi_decode_address', 'abi_decode_t_address', 'abi_decode_addresst_uint256', 'abi_decode_t_addresst_bool', 'abi_decode_uint256', 'abi_decode_addr', 'fun_transfer', 'fun_transferFrom', 'fun__transfer', 'my_fun_transfer_1', 'fun_tran'):
        for bn, b in {'iszero': 'v := iszero(u)', 'iszero of word': 'v := iszero(sload(u))', 'check': 'v := calldataload(u) if iszero(eq(v, and(v, sub(shl(160, 1), 1)))) { revert(0, 0) }', 'and': 'v := and(u, 255)', 'and of word': 'let k := sload(u) v := and(k, sub(shl(160, 1), 1))', 'and of number': 'let k := extcodesize(u) v := and(k, 0xff00)',
                      'size check': 'if iszero(lt(u, 36)) { revert(0, 0) } v := calldataload(4)', 'condition': 'if iszero(u) { v := 7 }', 'or': 'v := or(u, 1)', 'plain': 'v := add(u, 1)', 'and of a constant': 'v := and(0xff, u)', 'iszero of a number': 'v := iszero(extcodesize(u))', 'iszero twice': 'v := iszero(iszero(u))', 'iszero of a comparison': 'v := iszero(gt(u, 9))'}.items():
            out.append(it(f'{fn}: {bn}', f'r := {fn}(a)', helpers=f'function {fn}(u) -> v {{ {b} }}'))
            if 'fun_' in fn: out.append(it(f'{fn} of three: {bn}', f'r := {fn}(a, b, c)', helpers=f'function {fn}(u, p, q) -> v {{ {b} v := add(v, sub(p, q)) }}'))
    for bn, b in {'revert(0, 0)': 'revert(0, 0)', 'hex': 'revert(0x00, 0x0)', 'false': 'revert(false, false)', 'not zero': 'revert(0, 1)', 'not zero first': 'revert(1, 0)', 'size': 'revert(0, 4)', 'two statements': 'mstore(0, 1) revert(0, 0)', 'after': 'revert(0, 0) mstore(0, 1)', 'return': 'return(0, 0)', 'variable': 'revert(u, 0)', 'block': '{ revert(0, 0) }', 'conditional': 'if u { revert(0, 0) }',
                  'loop': 'for { } u { } { revert(0, 0) }', 'invalid': 'invalid()', 'stop': 'stop()', 'string': 'revert("", "")', 'expression': 'revert(0, sub(1, 1))', 'empty': ''}.items():
        out.append(it(f'reverting function: {bn}', f'if c {{ rv(a) sstore(1, 2) }} r := b', helpers=f'function rv(u) {{ {b} }}'))
        out.append(it(f'reverting function with result: {bn}', f'if c {{ r := rv(a) sstore(1, r) }} r := add(r, b)', helpers=f'function rv(u) -> v {{ {b} }}'))
        out.append(it(f'reverting function with two results: {bn}', f'if c {{ let x, y := rv(a) sstore(x, y) }} r := add(r, b)', helpers=f'function rv(u) -> v, w {{ {b} }}'))
    for k in ('callvalue()', 'iszero(callvalue())', 'lt(callvalue(), 1)', 'eq(callvalue(), 0)', 'and(callvalue(), 1)', 'gt(callvalue(), a)', 'add(callvalue(), 1)'):
        out.append(it(f'callvalue: if {k}', f'if {k} {{ r := 1 }}')); out.append(it(f'callvalue: value {k}', f'r := {k}')); out.append(it(f'callvalue: loop {k}', f'for {{ }} {k} {{ }} {{ r := 1 break }}'))
        out.append(it(f'callvalue: variable {k}', f'let v := {k} if v {{ r := v }}'))
    for x in out:
        def dev(t): return re.sub(r'\band\((\w+), sub\(shl\((?:160|0xa0), 1\), 1\)\)', r'\1', t)
        def dev2(t): return re.sub(r'\bmstore\((64|0x40), ', 'keep_pointer(', re.sub(r'\bmload\((64|0x40)\)', 'kept_pointer()', t))
        for n, f in (('the address mask is dropped', dev), ('the free memory pointer is kept outside memory', dev2)):
            if f(x.body) != x.body or f(x.helpers) != x.helpers: x.alt = (n, f(x.body), f(x.helpers)); break
    return out


# ------------------------------------------------------------------ the fused ERC20 transfer
STD_TRANSFER = [
    'let _1 := sub(shl(160, 1), 1)', 'let _2 := and(var_from, _1)',
    'if iszero(_2) { let _3 := mload(64) mstore(_3, shl(225, 0x4b637e8f)) mstore(add(_3, 4), 0x00) revert(_3, 36) }',
    'let _4 := and(var_to, _1)',
    'if iszero(_4) { let _5 := mload(64) mstore(_5, shl(224, 0xec442f05)) mstore(add(_5, 4), 0x00) revert(_5, 36) }',
    'mstore(0, _2)', 'mstore(0x20, 0)', 'let _6 := sload(keccak256(0, 0x40))',
    'if lt(_6, var_value) { let _7 := mload(64) mstore(_7, shl(226, 0x391434e3)) mstore(add(_7, 4), _2) mstore(add(_7, 36), _6) mstore(add(_7, 68), var_value) revert(_7, 100) }',
    'mstore(0, _2)', 'mstore(0x20, 0)', 'sstore(keccak256(0, 0x40), sub(_6, var_value))', 'mstore(0, _4)',
    'let dataSlot := keccak256(0, 0x40)', 'sstore(dataSlot, add(sload(dataSlot), var_value))',
    'let _8 := mload(0x40)', 'mstore(_8, var_value)',
    'log3(_8, 0x20, 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _2, _4)']


def transfers():
    """(name, program, may be replaced by the runtime's own transfer)"""
    def prog(st, obj='MyToken', name='fun_transfer', call=None, params='var_from, var_to, var_value'):
        return f'object "{obj}" {{ code {{ function {name}({params}) {{ {" ".join(st)} }}\n{call or name}(caller(), calldataload(4), calldataload(36)) stop() }}}}'
    S = STD_TRANSFER
    out = [('the standard transfer', prog(S), True), ('the standard transfer, fun__transfer', prog(S, name='fun__transfer'), True), ('the standard transfer in an ERC20 object', prog(S, obj='ERC20Basic'), True)]
    def at(i, new, what): out.append((what, prog(S[:i] + ([new] if isinstance(new, str) else new) + S[i + 1:]), False))
    # one part means something else
    at(0, 'let _1 := sub(shl(96, 1), 1)', 'a mask of 96 bits')
    at(2, 'if iszero(_1) { revert(0, 0) }', 'the zero sender is not refused')
    at(2, 'if iszero(_2) { mstore(0, 1) revert(0, 32) }', 'another error for the zero sender')
    at(2, 'if iszero(_2) { sstore(0, 1) }', 'the zero sender is recorded, not refused')
    at(3, 'let _4 := and(var_value, _1)', 'the receiver is taken from the amount')
    at(4, 'if iszero(_1) { revert(0, 0) }', 'the zero receiver is not refused')
    out.append(('balances in slot 5', prog([x.replace('mstore(0x20, 0)', 'mstore(0x20, 5)') for x in S]), False))
    at(7, 'let _6 := sload(keccak256(0, 0x20))', 'balances found by another hash')
    at(8, 'if lt(var_value, _6) { revert(0, 0) }', 'the balance check the other way round')
    at(8, 'if lt(_6, var_value) { stop() }', 'an insufficient balance stops instead of reverting')
    at(11, 'sstore(keccak256(0, 0x40), sub(_6, add(var_value, 1)))', 'a fee is taken from the sender')
    at(11, 'sstore(dataSlotOf(), sub(_6, var_value))', 'the sender is debited in another slot')
    out[-1] = (out[-1][0], out[-1][1].replace('object "MyToken" { code {', 'object "MyToken" { code { function dataSlotOf() -> r { r := 7 }'), False)
    at(14, 'sstore(dataSlot, sub(sload(dataSlot), var_value))', 'the receiver is debited')
    at(16, 'mstore(_8, _6)', 'the event carries the balance')
    at(17, S[17].replace('_2, _4', '_4, _2'), 'the event names receiver and sender the other way round')
    at(17, S[17].replace('0xddf2', '0xddf3'), 'another event')
    at(17, [S[17], 'sstore(9, var_value)'], 'one more statement at the end')
    at(17, [S[17], 'if gt(var_value, 1000) { revert(0, 0) }'], 'a limit checked at the end')
    out.append(('sender and receiver the other way round', prog(S, params='var_to, var_from, var_value'), False))
    out.append(('the amount first', prog(S, params='var_value, var_from, var_to'), False))
    # the shape itself differs
    for i in range(len(S)):
        if S[i].startswith('let'): at(i, S[i].split(':=')[0] + ':= address()', f'variable {i} holds something else')
        else:
            at(i, 'sstore(3, var_value)', f'statement {i} is another storage write') if i not in (11, 14) else at(i, 'tstore(3, var_value)', f'statement {i} is a transient write')
            at(i, [], f'statement {i} is missing')
        at(i, [S[i], 'pop(gas())'] + ['pop(gas())'] * 4, f'five statements more after statement {i}')
    for i in (5, 6, 9, 10, 12, 16): at(i, S[i].replace('mstore', 'mstore8'), f'statement {i} writes a byte')
    at(17, S[17].replace('log3', 'log2').replace(', _2, _4', ', _2'), 'an event of two topics')
    out.append(('an object of another name', prog(S, obj='Vault'), False))
    out.append(('a function of another name', prog(S, name='fun_move'), False))
    out.append(('fun_transferFrom', prog(S, name='fun_transferFrom'), False))
    out.append(('my_fun_transfer', prog(S, name='my_fun_transfer'), False))
    return out
