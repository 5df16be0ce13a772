"""A small parser for textual LLVM IR (clang -O0/-g output, opaque pointers)."""
import re

class Fn:
    def __init__(s, name): s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = None; s.line = 0; s.file = ""; s.internal = False
class Module:
    def __init__(s): s.fns = {}; s.decls = {}; s.globals = {}; s.attrs = {}

def tysize(ty):
    ty = ty.strip()
    if ty == "ptr": return 4
    m = re.fullmatch(r"i(\d+)", ty)
    if m:
        n = int(m.group(1)); b = (n + 7) // 8
        p = 1
        while p < b: p *= 2
        return p
    m = re.fullmatch(r"\[(\d+) x (.*)\]", ty)
    if m: return int(m.group(1)) * tysize(m.group(2))
    if ty.startswith("<{") or ty.startswith("{"):
        inner = ty.strip("<>").strip()[1:-1]
        packed = ty.startswith("<")
        off = 0; al = 1
        for t in split_top(inner):
            a = 1 if packed else tyalign(t)
            off = (off + a - 1) // a * a + tysize(t); al = max(al, a)
        return (off + al - 1) // al * al
    raise ValueError("type " + ty)

def tyalign(ty):
    ty = ty.strip()
    m = re.fullmatch(r"\[(\d+) x (.*)\]", ty)
    if m: return tyalign(m.group(2))
    if ty.startswith("{"): return max(tyalign(t) for t in split_top(ty[1:-1]))
    if ty.startswith("<{"): return 1
    return min(tysize(ty), 8)

def split_top(s):
    out = []; d = 0; cur = ""; q = False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in "[{(<": d += 1
            elif c in "]})>": d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def take_type(s):
    """split 'TYPE rest'"""
    s = s.lstrip()
    if s[0] in "[{<":
        d = 0
        for i, c in enumerate(s):
            if c in "[{<": d += 1
            elif c in "]}>":
                d -= 1
                if d == 0: return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r"(i\d+|ptr|void|label|metadata|%[\w.]+|float|double)\b\s*", s)
    if not m: raise ValueError("type? " + s)
    return m.group(1), s[m.end():]

ATTR = re.compile(r"^(noundef|nonnull|nocapture|readonly|writeonly|zeroext|signext|noalias|returned|immarg|inreg|readnone|align \d+|dereferenceable\(\d+\)|byval\([^)]*\)|sret\([^)]*\)|nofpclass\([^)]*\)|captures\([^)]*\)|noundef)\s+")

def typed_value(s):
    ty, rest = take_type(s)
    byval = None
    while True:
        m = ATTR.match(rest + " ")
        if not m: break
        if m.group(1).startswith("byval("): byval = m.group(1)[6:-1]
        rest = rest[m.end():] if len(rest) >= m.end() else ""
    return ty, rest.strip(), byval

def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\" and i + 2 < len(s) + 1 and re.match(r"[0-9A-Fa-f]{2}", s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        elif s[i] == "\\" and s[i + 1:i + 2] == "\\": out.append(92); i += 2
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def init_bytes(ty, v):
    """initial bytes of a global (list of ints), or None when it holds addresses"""
    v = v.strip(); n = tysize(ty)
    if v in ("zeroinitializer", "null", "undef", "poison"): return [0] * n
    if v.startswith('c"'): return list(cstr(v[2:v.rindex('"')]))
    m = re.fullmatch(r"i(\d+)", ty)
    if m:
        if v in ("true", "false"): return [int(v == "true")]
        return list((int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
    if ty == "ptr": return None
    if v.startswith("[") or v.startswith("{") or v.startswith("<{"):
        inner = v.strip("<>").strip()[1:-1]
        out = []
        packed = v.startswith("<") or v.startswith("[")
        for e in split_top(inner):
            t, val = take_type(e)
            b = init_bytes(t, val)
            if b is None: return None
            if not packed:
                while len(out) % tyalign(t): out.append(0)
            out += b
        return out + [0] * (n - len(out))
    return None

def parse(text):
    mod = Module(); md = {}
    lines = text.split("\n")
    for l in lines:
        m = re.match(r"^(!\d+) = (?:distinct )?(.*)$", l)
        if m: md[m.group(1)] = m.group(2)
    def mdfield(n, f):
        d = md.get(n, "")
        m = re.search(rf"\b{f}: (!?\w+|\"[^\"]*\")", d)
        return m.group(1).strip('"') if m else None
    fcache = {}
    def locfile(n, d=0):
        if n in fcache: return fcache[n]
        f = mdfield(n, "file")
        r = ""
        if f: r = mdfield(f, "filename") or ""
        elif d < 12:
            sc = mdfield(n, "scope")
            if sc: r = locfile(sc, d + 1)
        fcache[n] = r
        return r
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^@([\w.$]+|\"[^\"]+\") = (.*)$", l)
        if m:
            name = m.group(1); rest = m.group(2)
            rest = re.split(r", (?:align \d+|!dbg|section|comdat|partition)", rest)[0]
            const_ = bool(re.search(r"\bconstant\b", rest.split("[")[0].split("{")[0].split('c"')[0]))
            internal = bool(re.match(r"(internal|private)\b", rest))
            mm = re.search(r"\b(global|constant)\s+(.*)$", rest)
            if mm:
                ty, v = take_type(mm.group(2))
                mod.globals[name] = dict(ty=ty, size=tysize(ty), init=init_bytes(ty, v) if v else None,
                                         initv=v, const=const_, internal=internal, external="external" in rest.split(mm.group(1))[0])
            i += 1; continue
        m = re.match(r"^declare (.*?)@([\w.$]+)\((.*)\)(.*)$", l)
        if m:
            ps = [typed_value(x)[0] for x in split_top(m.group(3)) if x != "..."]
            rt = re.findall(r"(void|i\d+|ptr|\{[^}]*\})\s*$", m.group(1).strip())
            mod.decls[m.group(2)] = dict(params=ps, ret=rt[0] if rt else None, attrs=m.group(4))
            i += 1; continue
        m = re.match(r"^define (.*?)@([\w.$]+)\((.*?)\)([^(]*)\{\s*$", l) or re.match(r"^define (.*?)@([\w.$]+)\((.*)\)(.*)\{\s*$", l)
        if m:
            f = Fn(m.group(2))
            f.internal = "internal" in m.group(1) or "private" in m.group(1)
            f.ret = re.findall(r"(void|i\d+|ptr|\{[^}]*\})\s*$", m.group(1).strip())[0]
            raw = l[l.index("@" + f.name) + len(f.name) + 1:]
            d = 0
            for j, c in enumerate(raw):
                if c == "(": d += 1
                elif c == ")":
                    d -= 1
                    if d == 0: break
            for x in split_top(raw[1:j]):
                ty, v, bv = typed_value(x)
                f.params.append((ty, v, bv))
            dm = re.search(r"!dbg (!\d+)", raw[j:])
            if dm: f.line = int(mdfield(dm.group(1), "line") or 0); f.file = locfile(dm.group(1))
            cur = None; i += 1
            # unnamed entry block label
            n_unnamed = len([1 for p in f.params if re.fullmatch(r"%\d+", p[1])])
            cur = str(n_unnamed); f.blocks[cur] = []; f.order.append(cur); first = True
            while lines[i] != "}":
                l = lines[i]
                bm = re.match(r"^([\w.$-]+):", l)
                if bm:
                    if first and not f.blocks[cur]:
                        del f.blocks[cur]; f.order.pop()
                    cur = bm.group(1); f.blocks[cur] = []; f.order.append(cur)
                elif l.strip():
                    s = l.strip()
                    # multi-line switch
                    if s.startswith("switch") and not s.endswith("]") and "]" not in s:
                        while True:
                            i += 1; s += " " + lines[i].strip()
                            if "]" in lines[i]: break
                    line = 0; fil = f.file
                    dm = re.search(r", !dbg (!\d+)", s)
                    if dm:
                        line = int(mdfield(dm.group(1), "line") or 0)
                        fil = locfile(dm.group(1)) or f.file
                    s = re.sub(r"(, !\w+(\.\w+)* !\d+)+", "", s)
                    if "llvm.dbg." in s or s.startswith("#dbg_"): i += 1; continue
                    f.blocks[cur].append(parse_inst(s) + ((fil, line),))
                    first = False
                i += 1
            mod.fns[f.name] = f
        i += 1
    return mod

BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"}

def parse_inst(s):
    dest = None
    m = re.match(r"^(%[\w.$-]+) = (.*)$", s)
    if m: dest, s = m.group(1), m.group(2)
    op = s.split(" ", 1)[0]; r = s[len(op):].strip()
    if op in ("tail", "musttail", "notail"):
        op = "call"; r = r.split("call", 1)[1].strip()
    if op in BIN:
        r = re.sub(r"^((nuw|nsw|exact|disjoint)\s+)*", "", r)
        ty, rest = take_type(r)
        a, b = split_top(rest)
        return (op, dest, ty, a, b)
    if op in CAST:
        r = re.sub(r"^((nneg|nuw|nsw)\s+)*", "", r)
        m = re.match(r"^(.*) to (\S+)$", r)
        ty, v = take_type(m.group(1))
        return (op, dest, ty, v, m.group(2))
    if op == "freeze":
        ty, v = take_type(r); return ("bitcast", dest, ty, v, ty)
    if op == "icmp":
        r = re.sub(r"^samesign\s+", "", r)
        p, rest = r.split(" ", 1); ty, rest = take_type(rest); a, b = split_top(rest)
        return ("icmp", dest, p, ty, a, b)
    if op == "alloca":
        ps = split_top(r); n = "1"
        for x in ps[1:]:
            if not x.startswith("align") and not x.startswith("addrspace"): n = x.split()[-1]
        return ("alloca", dest, ps[0], n)
    if op == "load":
        r = re.sub(r"^(volatile|atomic)\s+", "", r)
        ps = split_top(r); return ("load", dest, ps[0], take_type(ps[1])[1])
    if op == "store":
        r = re.sub(r"^(volatile|atomic)\s+", "", r)
        ps = split_top(r); ty, v = take_type(ps[0]); return ("store", None, ty, v, take_type(ps[1])[1])
    if op == "getelementptr":
        r = re.sub(r"^((inbounds|nuw|nusw)\s+)*", "", r)
        ps = split_top(r); base = take_type(ps[1])[1]
        return ("gep", dest, ps[0], base, [take_type(x) for x in ps[2:]])
    if op == "br":
        if r.startswith("label"): return ("br", None, r.split("%")[1].strip())
        ps = split_top(r)
        return ("condbr", None, take_type(ps[0])[1], ps[1].split("%")[1], ps[2].split("%")[1])
    if op == "switch":
        m = re.match(r"^(\w+) (\S+), label %([\w.$-]+) \[(.*)\]", r)
        cases = re.findall(r"i\d+ (-?\d+), label %([\w.$-]+)", m.group(4))
        return ("switch", None, m.group(1), m.group(2), m.group(3), [(int(a), b) for a, b in cases])
    if op == "ret":
        if r == "void": return ("ret", None, None, None)
        ty, v = take_type(r); return ("ret", None, ty, v)
    if op == "unreachable": return ("unreachable", None)
    if op == "phi":
        ty, rest = take_type(r)
        inc = re.findall(r"\[\s*([^,\]]+),\s*%([\w.$-]+)\s*\]", rest)
        return ("phi", dest, ty, [(a.strip(), b) for a, b in inc])
    if op == "select":
        ps = split_top(r)
        c = take_type(ps[0])[1]; ty, a = take_type(ps[1]); b = take_type(ps[2])[1]
        return ("select", dest, c, ty, a, b)
    if op == "extractvalue":
        ps = split_top(r); ty, v = take_type(ps[0]); return ("extractvalue", dest, ty, v, int(ps[1]))
    if op == "insertvalue":
        ps = split_top(r); ty, v = take_type(ps[0]); ty2, v2 = take_type(ps[1]); return ("insertvalue", dest, ty, v, v2, int(ps[2]))
    if op == "call":
        m = re.match(r"^(.*?)(@[\w.$]+|%[\w.$]+)\((.*)\)[^)]*$", r)
        if not m: raise ValueError("call? " + r)
        pre = m.group(1).strip()
        rt = re.findall(r"(void|i\d+|ptr|\{[^}]*\})(?:\s*\([^)]*\))?\s*$", pre)[0]
        # balanced argument list
        start = r.index(m.group(2)) + len(m.group(2)); d = 0
        for j in range(start, len(r)):
            if r[j] == "(": d += 1
            elif r[j] == ")":
                d -= 1
                if d == 0: break
        args = []
        for x in split_top(r[start + 1:j]):
            if x.startswith("metadata"): continue
            ty, v, bv = typed_value(x); args.append((ty, v, bv))
        return ("call", dest, rt, m.group(2), args)
    raise ValueError("inst? " + s)
