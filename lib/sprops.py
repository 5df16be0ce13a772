"""S properties: the helper scripts in examples/scripts."""
import ast, os
import report
from pyi import *
import pyi

DIR = os.environ.get('VERIF_REPO', '/repo') + '/examples/scripts/'


def run(prop, tier, seed):
    r = report.Result(prop)
    r.trusted = ["CPython's parser", 'lib/pyi.py: its model of Python and of the library calls used', 'argparse, eth_abi, eth_utils and the file system do what they document']
    try: globals()[prop](r, tier)
    except Unknown as u: r.unsure(f'analysis stopped: {u}')
    except FileNotFoundError as e: r.violate(f'{prop}:missing', f'the script is gone: {e.filename}')
    return r


def argparse_lib(argv, box):
    """argparse over a command line of positional values"""
    def parser(args, kw):
        specs = []; extra = []
        def add(a, k):
            flags = [x for x in a if isinstance(x, str) and x.startswith('-')]
            if flags: extra.append((flags, k)); return Nat('action')
            specs.append((a[0] if a else k['dest'], k)); return Nat('action')
        def error(a, k): box['error'] = True; raise Exit(2)
        def parse(a, k):
            vals = list(argv); ns = {}
            for flags, kk in extra:
                d = kk.get('dest') or max(flags, key=len).lstrip('-').replace('-', '_')
                ns[d] = kk.get('default', False if kk.get('action') == 'store_true' else True if kk.get('action') == 'store_false' else None)
            for i, (nm, kk) in enumerate(specs):
                nargs = kk.get('nargs'); ty = kk.get('type'); after = sum(1 for _, q in specs[i + 1:] if q.get('nargs') in (None, '+'))
                conv = lambda v: v if ty is None else conv_(v)
                def conv_(v):
                    try: return box['it'].call(ty, [v])
                    except Exc as e:
                        if is_a(e.kind, 'ValueError') or is_a(e.kind, 'TypeError'): error([], {})
                        raise
                if kk.get('choices') is not None: raise Unknown('choices')
                if nargs is None:
                    if not vals: error([], {})
                    ns[nm] = conv(vals.pop(0))
                elif nargs in ('*', '+'):
                    n = len(vals) - after
                    if nargs == '+' and n < 1: error([], {})
                    ns[nm] = [conv(v) for v in vals[:n]]; del vals[:n]
                    if nargs == '*' and not ns[nm] and 'default' in kk: ns[nm] = kk['default']
                elif nargs == '?': ns[nm] = conv(vals.pop(0)) if len(vals) > after else kk.get('default')
                else: raise Unknown('nargs')
            if vals: error([], {})
            return Nat('namespace', ns)
        def pexit(a, k): raise Exit(a[0] if a else k.get('status', 0))
        def noop(a, k): return None
        return Nat('parser', {'add_argument': Nat('add_argument', call=add), 'parse_args': Nat('parse_args', call=parse), 'error': Nat('error', call=error), 'exit': Nat('exit', call=pexit),
                              'print_help': Nat('print_help', call=noop), 'print_usage': Nat('print_usage', call=noop)})
    return Nat('argparse', {'ArgumentParser': Nat('ArgumentParser', call=parser)})


def sys_lib(argv):
    def ex(a, k): raise Exit(a[0] if a else None)
    return Nat('sys', {'argv': ['script.py'] + list(argv), 'exit': Nat('exit', call=ex), 'stderr': Nat('sys.stderr', {'write': Nat('w', call=lambda a, k: None)}), 'stdout': Nat('sys.stdout')})


# ---------------------------------------------------------------- S01
def base_ok(t):
    import re
    m = re.fullmatch(r'(uint|int)(\d*)', t)
    if m: return m.group(2) == '' or (m.group(2)[0] != '0' and 8 <= int(m.group(2)) <= 256 and int(m.group(2)) % 8 == 0)
    m = re.fullmatch(r'bytes(\d*)', t)
    if m: return m.group(1) == '' or (m.group(1)[0] != '0' and 1 <= int(m.group(1)) <= 32)
    return t in ('address', 'bool', 'string', 'function')


def split_type(t):
    """(element type, length or None) of an array type, else None"""
    if t.endswith(']'):
        i = t.rindex('['); k = t[i + 1:-1]
        if k and not k.isdigit(): raise Exc('ParseError')
        return t[:i], int(k) if k else None
    return None


def norm(t, v):
    """the ABI value of v as type t; raises when eth_abi would reject it"""
    a = split_type(t)
    if a:
        if not isinstance(v, (list, tuple)): raise Exc('EncodingError')
        if a[1] is not None and len(v) != a[1]: raise Exc('EncodingError')
        return ('array',) + tuple(norm(a[0], x) for x in v)
    if not base_ok(t): raise Exc('ParseError')
    if t.startswith(('uint', 'int')):
        if isinstance(v, bool) or not isinstance(v, (int, SInt)): raise Exc('EncodingError')
        return ('int', repr(v))
    if t == 'bool':
        if not isinstance(v, bool): raise Exc('EncodingError')
        return ('bool', v)
    if t == 'address':
        if isinstance(v, SByt):
            if len(v.ps) == 1 and v.ps[0][0] == 'fromhex': return ('address', v.ps[0][1])
            raise Exc('EncodingError')
        ps = pieces(v) if isinstance(v, (str, STxt)) else ()
        if ps and ps[0] in ('0x', '0X'): ps = ps[1:]
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'hex' and pyi._len(ps[0]) == 40: return ('address', ps[0].name)
        if any(isinstance(p, Atom) and p.kind not in ('hex', 'dec', 'cut') for p in ps): raise Unknown('address text')
        raise Exc('EncodingError')
    if t == 'string':
        if not isinstance(v, (str, STxt)): raise Exc('EncodingError')
        return ('string', v)
    if not isinstance(v, (bytes, SByt)): raise Exc('EncodingError')
    if isinstance(v, SByt) and len(v.ps) == 1 and v.ps[0][0] == 'fromhex': return ('bytes', v.ps[0][1])
    if v == b'' or isinstance(v, SByt) and not v.ps: return ('bytes', '')
    return ('bytes', repr(v))


def eth_libs():
    isb = lambda v: isinstance(v, (bytes, SByt))
    def encode(a, kw):
        types, vals = a[0] if a else kw['types'], a[1] if len(a) > 1 else kw['args']
        if isinstance(types, str): raise Exc('TypeError')
        types = list(types); vals = list(vals)
        if len(types) != len(vals): raise Exc('ValueError')
        return SByt((('enc', tuple(types), tuple(norm(t, v) for t, v in zip(types, vals))),)) if types else SByt(())
    def selector(a, kw):
        v = a[0]
        if not isinstance(v, str): raise Unknown('selector of an unknown text')
        return SByt((('sel', v.replace(' ', '')),))
    def keccak(a, kw):
        if 'text' in kw: v = kw['text']
        elif a and isinstance(a[0], SByt) and a[0].ps[0][0] == 'text': v = a[0].ps[0][1]
        elif 'primitive' in kw and isinstance(kw['primitive'], SByt) and kw['primitive'].ps[0][0] == 'text': v = kw['primitive'].ps[0][1]
        else: raise Unknown('keccak')
        return SByt((('keccak', v),))
    def unhex(v, what):
        if isinstance(v, str):
            try: return SByt((('lit', bytes.fromhex(v).hex()),)) if v else SByt(())
            except ValueError: raise Exc('ValueError')
        ps = pieces(v)
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'hex': return SByt((('fromhex', ps[0].name),))
        if len(ps) == 2 and ps[0] in ('0x', '0X'): raise Exc('ValueError')
        raise Unknown('hexadecimal text')
    def strip0x(v):
        if isinstance(v, str): return v[2:] if v.startswith(('0x', '0X')) else v
        if v.ps[0] in ('0x', '0X'): return txt(STxt(v.ps[1:]))
        if isinstance(v.ps[0], Atom) and v.ps[0].kind in ('hex', 'dec'): return v
        if isinstance(v.ps[0], str) and not v.ps[0].startswith(('0', )): return v
        raise Unknown('remove_0x_prefix')
    def to_hex(a, kw):
        v = a[0] if a else kw.get('primitive')
        if not isb(v): raise Unknown('to_hex')
        return txt(STxt(('0x',) + pieces(hexof(v))))
    def to_bytes(a, kw):
        if 'hexstr' in kw: return unhex(strip0x(kw['hexstr']), 'to_bytes')
        if 'text' in kw: return SByt((('text', kw['text']),))
        raise Unknown('to_bytes')
    def addr(a, kw):
        v = a[0]; w = strip0x(v)
        ps = pieces(w)
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'hex' and pyi._len(ps[0]) == 40: return STxt(('0x', ps[0]))
        if isinstance(w, str) or all(isinstance(p, Atom) and p.kind in ('dec', 'hex') for p in ps): raise Exc('ValueError')
        raise Unknown('address')
    def is_addr(a, kw):
        try: addr(a, kw); return True
        except Exc: return False
    def canonical(a, kw): return SByt((('fromhex', pieces(addr(a, kw))[1].name),))
    def add0x(v): return v if isinstance(v, (str, STxt)) and pieces(v) and isinstance(pieces(v)[0], str) and pieces(v)[0].startswith(('0x', '0X')) else txt(STxt(('0x',) + pieces(v)))
    f1 = lambda f: Nat('f', call=lambda a, kw: f(a[0] if a else next(iter(kw.values()))))
    def has0x(v):
        p = pieces(v)
        if p and isinstance(p[0], str): return p[0].startswith(('0x', '0X'))
        if p and p[0].kind in ('hex', 'dec'): return False
        if not p: return False
        raise Unknown('prefix')
    eu = {'function_signature_to_4byte_selector': Nat('selector', call=selector), 'to_hex': Nat('to_hex', call=to_hex), 'keccak': Nat('keccak', call=keccak), 'to_bytes': Nat('to_bytes', call=to_bytes),
          'remove_0x_prefix': f1(strip0x), 'add_0x_prefix': f1(add0x), 'encode_hex': f1(lambda v: to_hex([v], {})), 'decode_hex': f1(lambda v: unhex(strip0x(v), 'decode_hex')), 'is_0x_prefixed': f1(has0x),
          'to_checksum_address': Nat('a', call=addr), 'to_normalized_address': Nat('a', call=addr), 'to_canonical_address': Nat('a', call=canonical), 'is_address': Nat('a', call=is_addr), 'is_hex_address': Nat('a', call=is_addr)}
    fromhex = f1(lambda v: unhex(v, 'fromhex'))
    hexl = lambda v: SByt((('hexbytes', hexof(v)),))
    import re as _re
    def rx(fn):
        def f(a, kw):
            if not all(isinstance(x, str) for x in a): raise Unknown('regex')
            m = getattr(_re, fn)(*a)
            if fn in ('findall', 'split', 'sub'): return m
            if m is None: return None
            return Nat('match', {'group': Nat('group', call=lambda b, k: m.group(*b)), 'groups': Nat('groups', call=lambda b, k: m.groups()), 'start': Nat('s', call=lambda b, k: m.start(*b)), 'end': Nat('e', call=lambda b, k: m.end(*b))})
        return Nat(fn, call=f)
    return {'eth_abi': Nat('eth_abi', {'encode': Nat('encode', call=encode), 'encode_abi': Nat('encode', call=encode)}), 'eth_abi.abi': Nat('eth_abi.abi', {'encode': Nat('encode', call=encode)}),
            'eth_utils': Nat('eth_utils', dict(eu, hexadecimal=Nat('h', eu))), 'eth_utils.hexadecimal': Nat('h', eu), 'eth_utils.abi': Nat('h', eu), 'eth_utils.crypto': Nat('h', eu), 'eth_utils.conversions': Nat('h', eu), 'eth_utils.address': Nat('h', eu),
            're': Nat('re', {k: rx(k) for k in ('match', 'fullmatch', 'search', 'findall', 'split', 'sub')}),
            'binascii': Nat('binascii', {'unhexlify': fromhex, 'hexlify': f1(hexl), 'a2b_hex': fromhex, 'b2a_hex': f1(hexl)}),
            '': {'bytes': Nat('bytes', {'fromhex': fromhex}), 'bytearray': Nat('bytearray', {'fromhex': fromhex})}}


def cases(t, k=0):
    """argument texts of type t with the ABI value each stands for"""
    a = split_type(t)
    if a:
        out = []
        if split_type(a[0]): return []
        for n in ((0, 1, 2, 3) if a[1] is None else (a[1],)):
            if n == 0:
                if a[0] != 'string': out.append(('', ('array',), 'no element'))
                continue
            els = [cases(a[0], k * 10 + i + 1) for i in range(n)]
            for j in range(max(map(len, els))):
                row = [e[j % len(e)] for e in els]
                for sep, w in ((',', ''), (', ', ' with blanks')):
                    if n == 1 and w: continue
                    ps = []
                    for i, c in enumerate(row): ps += ([sep] if i else []) + list(pieces(c[0]))
                    out.append((txt(STxt(ps)), ('array',) + tuple(c[1] for c in row), f'{n} elements{w}, {row[0][2]}'))
        return out
    if t.startswith(('uint', 'int')):
        out = [(STxt([Atom('dec', f'n{k}')]), ('int', f'n{k}'), 'decimal')]
        if t.startswith('int'): out.append((STxt(['-', Atom('dec', f'n{k}')]), ('int', f'-n{k}'), 'negative decimal'))
        return out
    if t == 'address':
        return [(STxt(['0x', Atom('hex', f'a{k}', len=40)]), ('address', f'a{k}'), '0x form'), (STxt([Atom('hex', f'a{k}', len=40)]), ('address', f'a{k}'), 'bare form')]
    if t == 'bool':
        return [(v, ('bool', v.lower() == 'true'), v) for v in ('true', 'false', 'True', 'False')]
    if t == 'string': return [(STxt([Atom('word', f's{k}')]), ('string', STxt([Atom('word', f's{k}')])), 'text')]
    if t.startswith('bytes'):
        n = t[5:]
        return [(STxt(['0x', Atom('hex', f'h{k}', len=2 * int(n) if n else None)]), ('bytes', f'h{k}'), '0x form')]
    raise Unknown(t)


def S01(r, tier):
    f = DIR + 'abi_encode.py'
    tree = ast.parse(open(f).read())
    r.rule('the encoder script is interpreted on every ABI base type (and arrays of it), on symbolic argument texts; the calldata printed must be the selector of the given signature followed by the ABI encoding of the typed values, and every rejected command line must end with a non-zero status and print no calldata')
    ints = range(8, 257, 8) if tier == 'thorough' else (8, 16, 32, 64, 128, 160, 248, 256)
    bys = range(1, 33) if tier == 'thorough' else (1, 4, 20, 31, 32)
    base = [f'{p}{n}' for n in ints for p in ('uint', 'int')] + ['uint', 'int', 'address', 'bool', 'string', 'bytes'] + [f'bytes{n}' for n in bys]
    arr = ['uint256', 'uint8', 'int128', 'uint', 'address', 'bool', 'string', 'bytes32', 'bytes']
    types = base + [t + s for t in (base if tier == 'thorough' else arr) for s in ('[]', '[2]')]
    jobs = []                       # (name, key, sig, texts, expected types/values or None = must be rejected)
    for t in types:
        for text, val, how in cases(t): jobs.append((f'f({t}) with {how}', f'{family(t)}', f'f({t})', [text], ((t,), (val,))))
    mix = ['uint256', 'int8', 'address', 'bool', 'string', 'bytes32', 'bytes', 'uint256[]', 'address[]']
    for a in mix:
        for b in mix:
            ca = cases(a, 1)[-1]; cb = cases(b, 2)[0]
            jobs.append((f'transfer({a},{b})', f'pair:{family(a)}:{family(b)}', f'transfer({a},{b})', [ca[0], cb[0]], ((a, b), (ca[1], cb[1]))))
    ca = [cases(t, i)[0] for i, t in enumerate(('uint256', 'uint256', 'address[]', 'address', 'uint256'))]
    jobs.append(('five parameters', 'many', 'swap_1$(uint256,uint256,address[],address,uint256)', [c[0] for c in ca], (('uint256', 'uint256', 'address[]', 'address', 'uint256'), tuple(c[1] for c in ca))))
    jobs.append(('no parameters', 'none', 'totalSupply()', [], ((), ())))
    num = lambda k: STxt([Atom('dec', f'n{k}')])
    for n in range(0, 4):
        for m in range(0, 5):
            if n != m: jobs.append((f'{m} arguments for {n} parameters', f'count:{n}:{"more" if m > n else "fewer"}', 'f(' + ','.join(['uint256'] * n) + ')', [num(i) for i in range(m)], None))
    for what, sig, ps in (('no parenthesis', 'transfer', []), ('no parenthesis, one argument', 'transfer', [num(0)]), ('no closing parenthesis', 'f(uint256', [num(0)]), ('text for the closing parenthesis', 'f(uint2568', [num(0)]), ('an unknown type', 'f(uint257)', [num(0)]),
                          ('an unknown type', 'f(foo)', [num(0)]), ('an empty parameter', 'f(uint256,)', [num(0), num(1)]), ('an array without its end', 'f(uint256[)', [num(0)]), ('text after the closing parenthesis', 'f(uint256)x', [num(0)])):
        jobs.append((f'signature with {what}', f'malformed:{what}', sig, ps, None))
    for what, t, v in (('a text for a number', 'uint256', STxt([Atom('hex', 'x', len=40)])), ('a number for an address', 'address', num(0)), ('too few elements', 'uint256[2]', num(0)), ('a text in an array of numbers', 'uint256[]', STxt([num(0).ps[0], ',', 'zz']))):
        jobs.append((what, f'argument:{what}', f'f({t})', [v], None))
    n = 0
    for name, key, sig, texts, want in jobs:
        if key.startswith('pair:') and any(k.startswith(f'S01:{f}:') for f in key.split(':')[1:] for k in r.violations): continue  # already reported for the type alone
        def go(rn):
            box = {}; libs = eth_libs(); libs['argparse'] = argparse_lib([sig] + texts, box); libs['sys'] = sys_lib([sig] + texts)
            it = Interp(tree, rn, libs); box['it'] = it
            try: it.module(); code = 0
            except Exit as e: code = 0 if e.code in (None, 0) else 1
            except Exc as e: code = 1; it.failed = e
            return it, code
        try:
            for rn, (it, code) in explore(go):
                n += 1
                out = ''.join(str(x) for k, t, e in it.out if k == 'out' for x in ())  # text is compared below
                lines = [(t, e) for k, t, e in it.out if k == 'out']
                texts_out = [t for t, e in lines]
                hexed = any(isinstance(t, STxt) and any(isinstance(p, Atom) and p.kind in ('hexof', 'upper', 'hexsep', 'cut') for p in t.ps) or isinstance(t, str) and t.startswith('0x') for t in texts_out)
                if want is None:
                    r.check(not hexed, f'S01:{key}:prints', f'{name}: calldata is printed although the command line must be rejected', f'{sig} {texts} -> {texts_out}')
                    r.check(code != 0, f'S01:{key}:status', f'{name}: the rejected command line ends with exit status 0')
                    continue
                exp = SByt((('sel', sig),) + ((('enc',) + want,) if want[0] else ()))
                good = txt(STxt(('0x',) + pieces(hexof(exp))))
                if code != 0: r.check(False, f'S01:{key}:rejected', f'{name}: a valid call is rejected', f'{sig} {texts}'); continue
                r.check(len(lines) == 1 and same_calldata(lines[0][0], sig, want), f'S01:{key}:calldata', f'{name}: prints {texts_out} instead of the selector and encoding', f'{sig} {texts}; expected {good!r}')
        except Unknown as u: r.unsure(f'{name}: {u}')
    r.count('command lines (signature shape x argument shape)', len(jobs)); r.count('abstract runs', n)
    r.samples = [j[0] for j in jobs[::max(1, len(jobs) // 10)]]
    r.assumptions = ['value ranges (a number too large for its type) are rejected by eth_abi', 'texts for bool other than true and false are left open', 'arrays of arrays are not expressible on this command line']


def same_calldata(t, sig, want):
    """0x, selector, encoding; the encoding may be split per library conventions only"""
    ps = pieces(t)
    if not ps or ps[0] != '0x': return False
    chunks = []
    for p in ps[1:]:
        if not (isinstance(p, Atom) and p.kind == 'hexof'): return False
        chunks.append(p.name[1])
    if not chunks or chunks[0] != ('sel', sig): return False
    rest = chunks[1:]
    if not want[0]: return rest in ([], [('enc', (), ())])
    return rest == [('enc',) + want]


def family(t):
    import re
    return re.sub(r'(?<=[a-z])\d+', 'N', t)


# ---------------------------------------------------------------- S02
class FS:
    """files of one run: what each path holds, as chunks; the input exists unless a choice says otherwise"""
    def __init__(s, run, inp, out, chunks):
        s.run = run; s.inp = inp; s.out = out; s.chunks = chunks; s.writes = {}; s.opened = []; s.failed = None; s.removed = []
    def name(s, p):
        if isinstance(p, Nat) and 'path' in p.attrs: p = p.attrs['path']
        return p


def fs_libs(fs):
    def fail(what, kinds):
        c = fs.run.choose(1 + len(kinds), what)
        if c: fs.failed = fs.failed or (what, kinds[c - 1]); raise Exc(kinds[c - 1])
    def op(a, kw):
        p = fs.name(a[0] if a else kw['file']); mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str): raise Unknown('mode')
        return opened(p, mode)
    def opened(p, mode):
        fs.opened.append((p, mode))
        rd = mode.strip('bt') in ('r', '')
        if rd and p == fs.inp: fail('opening the input', ['FileNotFoundError', 'PermissionError'])
        if rd and p != fs.inp: fs.misread = p
        if not rd:
            fail(f'opening {p} for writing', ['PermissionError', 'FileNotFoundError'])
            if 'w' in mode: fs.writes[p] = []
            elif 'a' in mode: fs.writes.setdefault(p, ['what was there before'])
            elif 'x' in mode: fs.writes[p] = []
        st = {'i': 0}
        def read(a, kw):
            if not rd and '+' not in mode: raise Exc('OSError')
            if p != fs.inp: return SByt((('contents of', repr(p)),))
            size = a[0] if a else None
            ch = fs.chunks
            if size in (None, -1):
                res = ch[st['i']:]; st['i'] = len(ch)
            elif type(size) is int and size > 0:
                res = ch[st['i']:st['i'] + 1]; st['i'] += 1
            else: raise Unknown('read size')
            if st['i'] <= 1: fail('reading the input', ['OSError'])
            if 'b' not in mode: return STxt([Atom('decoded', f'text of {c}') for c in res]) if res else ''
            return SByt(tuple(res))
        def write(a, kw):
            if rd: raise Exc('OSError')
            fail('writing', ['OSError'])
            v = a[0]
            if '+' in mode and 'w' not in mode: fs.writes.setdefault(p, ['what was there before'])
            if 'b' in mode:
                if not isinstance(v, (bytes, SByt)): raise Exc('TypeError')
                for q in bps(v):
                    fs.writes[p] += list(pieces(q[1])) if isinstance(q, tuple) and q[0] in ('hexbytes', 'text') else [('bytes', q)]
            else:
                if not isinstance(v, (str, STxt)): raise Exc('TypeError')
                fs.writes[p] += list(pieces(v))
            return None
        def lines(a, kw):
            for x in a[0]: write([x], {})
        none = Nat('n', call=lambda a, kw: None)
        return Nat('file', {'read': Nat('read', call=read), 'write': Nat('write', call=write), 'writelines': Nat('wl', call=lines), 'close': none, 'flush': none, 'fileno': none}, enter=lambda: None)
    def path(a, kw):
        p = fs.name(a[0])
        return Nat('path', {'path': p, 'read_bytes': Nat('rb', call=lambda b, k: opened(p, 'rb').attrs['read'].fn([], {})), 'read_text': Nat('rt', call=lambda b, k: opened(p, 'r').attrs['read'].fn([], {})),
                            'write_text': Nat('wt', call=lambda b, k: opened(p, 'w').attrs['write'].fn(b, {})), 'write_bytes': Nat('wb', call=lambda b, k: opened(p, 'wb').attrs['write'].fn(b, {})),
                            'open': Nat('o', call=lambda b, k: opened(p, b[0] if b else k.get('mode', 'r'))), 'exists': Nat('e', call=exists(p)), 'is_file': Nat('e', call=exists(p))})
    def exists(p):
        def f(a, kw):
            q = fs.name(a[0]) if a else p
            c = fs.run.choose(2, f'{q} exists')
            if c == 0 and q == fs.inp: fs.failed = fs.failed or ('the input is missing', 'absent')
            return c == 1
        return f
    def remove(a, kw): fs.removed.append(fs.name(a[0]))
    f1 = lambda f: Nat('f', call=lambda a, kw: f(a[0]))
    hexl = f1(lambda v: SByt((('hexbytes', hexof(v)),)))
    os_ = Nat('os', {'remove': Nat('rm', call=remove), 'unlink': Nat('rm', call=remove), 'path': Nat('path', {'exists': Nat('e', call=exists(None)), 'isfile': Nat('e', call=exists(None))})})
    return {'': {'open': Nat('open', call=op)}, 'pathlib': Nat('pathlib', {'Path': Nat('Path', call=path)}), 'binascii': Nat('binascii', {'hexlify': hexl, 'b2a_hex': hexl}), 'os': os_, 'os.path': os_.attrs['path'], 'io': Nat('io', {'open': Nat('open', call=op)})}


def S02(r, tier):
    f = DIR + 'bin_to_hex.py'
    tree = ast.parse(open(f).read())
    r.rule('the converter script is interpreted on an input of unknown bytes (empty, or any number of read chunks up to the bound) and unknown file failures; the output file must receive exactly the lower-case hex of every chunk in order and nothing else, and no other file is touched')
    inp = STxt([Atom('path', 'IN')]); out = STxt([Atom('path', 'OUT')]); n = 0
    for k in range(0, 6 if tier == 'thorough' else 4):
        def go(rn):
            fs = FS(rn, inp, out, tuple(('chunk', i) for i in range(k)))
            libs = fs_libs(fs); box = {}; libs['argparse'] = argparse_lib([inp, out], box); libs['sys'] = sys_lib([inp, out])
            it = Interp(tree, rn, libs); box['it'] = it
            try: it.module(); code = 0
            except Exit as e: code = 0 if e.code in (None, 0) else 1
            except Exc as e: code = 1
            return fs, it, code
        want = [Atom('hexof', ('hexof', ('chunk', i))) for i in range(k)]
        name = f'an input of {k} chunks'
        try:
            for rn, (fs, it, code) in explore(go, 20000):
                n += 1
                r.check(inp not in fs.writes and inp not in fs.removed, 'S02:input:modified', f'{name}: the input file is written or removed')
                other = [p for p in list(fs.writes) + fs.removed if p not in (inp, out)]
                r.check(not other, 'S02:other:written', f'{name}: {other} is written or removed')
                if fs.failed:
                    what = fs.failed[0]
                    if what in ('opening the input', 'the input is missing'): r.check(out not in fs.writes and out not in fs.removed, 'S02:output:on failure', f'{name}: after {what} failed the output file is overwritten')
                    continue
                if code: r.check(False, 'S02:status', f'{name}: the conversion fails'); continue
                got = fs.writes.get(out)
                r.check(got is not None, 'S02:output:missing', f'{name}: the output file is not written')
                if got is not None: r.check([p for p in got if p != ''] == want, 'S02:output:text', f'{name}: the output file holds {got} instead of {want}')
        except Unknown as u: r.unsure(f'{name}: {u}')
    r.count('abstract runs', n)
    r.assumptions = ['input and output name different files', 'a file is read in at most %d chunks when read piecewise' % (5 if tier == 'thorough' else 3)]
