"""Contracts of the runtime library's entry routines (the oracle of the R properties).

Each contract is the EVM/Yul meaning of the routine, written over the same abstract machine
the implementation is interpreted on.  Parameter kinds:
  pN    pointer to N bytes        off   EVM memory offset (non-negative)   len  length
  soff  offset that may name embedded data (negative)
  u8/u32/u64  full-range scalars
"""
from term import *
from absint import *

class Stop(Exception): pass
class NeedSplit(Exception):
    def __init__(s, c): s.c = c
class Skip(Exception): pass

EVM = sym(32, "&EVM")
SPECS = {}
class Contract: pass
def contract(name, params, *props, **kw):
    def dec(fn):
        c = Contract(); c.name = name; c.params = [tuple(p.split(":")) for p in params.split()]; c.props = props; c.fn = fn
        c.kw = kw
        SPECS.setdefault(name, []).append(c)
        return fn
    return dec

class Spec:
    """what a contract may do"""
    def __init__(S, state, args):
        S.s = state; S.m = Machine(state); S.m.spec = True; S.a = args; S.label = []
    def ask(S, c, label=None):
        k = S.s.decide(c)
        if k is None: raise NeedSplit(c)
        if label: S.label.append(label if k else "not " + label)
        return k
    def require(S, c):
        """precondition: disjuncts that violate it are outside the contract"""
        k = S.s.decide(c)
        if k is False: raise Skip()
        if k is None: raise NeedSplit(c)
    def rd(S, p, n=32): return S.m.read_bytes(p, n)
    def wr(S, p, bs): S.m.write_bytes(p, bs)
    def u256(S, p): return from_bytes(S.rd(p))          # native integer
    def word(S, p): return be_value(S.rd(p))            # byte word
    def set_u256(S, p, v): S.wr(p, bytes_of(v))
    def set_word(S, p, v): S.wr(p, be_bytes(v))
    def host(S, name, n=32, *args): return S.m.host_bytes(name, n, *args)   # memory order = big-endian
    def evm(S, off): return add_raw(EVM, off)
    def range(S, off, n): return S.m.content(S.evm(off), n)
    def end(S, kind, *e):
        S.m.event(*e); S.s.outcome = kind; raise Stop()
    def revert(S, *content): S.end("revert", "revert", *content)
    def bytes(S, bs): return ("bytes", from_bytes(list(bs)))
    def addr(S, p): return S.bytes(S.rd(add_raw(p, C32(12)), 20))

def C32(v): return const(32, v)
def b2i(c, w=32): return ite(c, const(w, 1), const(w, 0))
Z8 = const(8, 0)
def BE(v): return be_bytes(v)
def lit(s): return [const(8, c) for c in (s.encode() if isinstance(s, str) else s)]
def ule(a, b): return not_(ult(b, a))
def umin(S, a, b): return a if S.ask(ule(a, b)) else b

# ---------------------------------------------------------------- R01 addresses
for fn, h in (("wrapper_caller", "caller"), ("wrapper_current_contract", "address"), ("wrapper_origin", "origin"), ("wrapper_block_coin_base", "coinbase")):
    def f(S, result, h=h): S.wr(result, [Z8] * 12 + S.host(h, 20))
    contract(fn, "result:p32", "R01")(f)

# ---------------------------------------------------------------- R02 environment
for fn, h in (("wrapper_callvalue", "callvalue"), ("wrapper_current_chainid", "chainid"), ("wrapper_current_base_fee", "basefee"),
              ("wrapper_current_blob_base_fee", "blobbasefee"), ("wrapper_gas_price", "gasprice")):
    def f(S, result, h=h): S.wr(result, list(reversed(S.host(h))))
    contract(fn, "result:p32", "R02")(f)
def _randao20(S, result): S.wr(result, [Z8] * 12 + S.host("prevrandao")[:20])
@contract("wrapper_block_prevRandao", "result:p32", "R02", recorded=("only the first 20 bytes, 12 bytes late", _randao20))
def _(S, result): S.wr(result, S.host("prevrandao"))
@contract("wrapper_callvalue_not_zero", "", "R02")
def _(S): return b2i(not_(eq(from_bytes(S.host("callvalue")), const(256, 0))))
@contract("wrapper_query_balance", "addr:p32 result:p32", "R02")
def _(S, addr, result): S.wr(result, list(reversed(S.host("balance", 32, S.m.ctr("epoch"), S.addr(addr)))))
@contract("wrapper_self_balance", "result:p32", "R02")
def _(S, result): S.wr(result, list(reversed(S.host("balance", 32, S.m.ctr("epoch"), S.bytes(S.host("address", 20))))))
@contract("wrapper_extcode_hash", "addr:p32 result:p32", "R02")
def _(S, addr, result): S.wr(result, S.host("codehash", 32, S.m.ctr("epoch"), S.addr(addr)))
@contract("wrapper_extcode_size", "addr:p32", "R02")
def _(S, addr): return app(32, "extcodesize", S.m.ctr("epoch"), S.addr(addr))
for fn, q in (("wrapper_gas_limit", "gaslimit"), ("wrapper_time_stamp", "timestamp"), ("wrapper_block_number", "blocknumber")):
    contract(fn, "", "R02")(lambda S, q=q: sym(64, q))
@contract("wrapper_gas", "", "R02")
def _(S): return app(64, "gasleft", S.m.ctr("gas") + 1, S.m.ctr("epoch"))
@contract("wrapper_block_hash", "number:u64 result:p32", "R02")
def _(S, number, result): S.wr(result, S.host("blockhash", 32, number))
@contract("wrapper_returndata_size", "", "R02")
def _(S): return S.m.rds()
@contract("wrapper_calldata_size", "", "R02")
def _(S): return CDS
@contract("wrapper_memory_size", "", "R02", recorded=("counts 64 KiB pages of the whole module's memory", lambda S: zext(S.m.pages_now(), 64)))
def _(S): return app(64, "evm-memory-size-in-bytes")

# ---------------------------------------------------------------- R03 memory words
@contract("u256_to_big_endian_bytes", "value:p32 memory_ptr:p32", "R03")
def _(S, value, out): S.wr(out, BE(S.u256(value)))
@contract("u256_from_big_endian_bytes", "memory_ptr:p32 result:p32", "R03")
def _(S, src, out): S.set_u256(out, S.word(src))
@contract("wrapper_decode_big_endian_i256_from_wasm_mem", "memory_ptr:p32 result:p32", "R03")
def _(S, src, out): S.set_u256(out, S.word(src))
@contract("i32_to_bytes32_big_endian_bytes", "value:u32 memory_ptr:p32", "R03")
def _(S, value, out): S.wr(out, BE(zext(value, 256)))
@contract("i32_from_big_endian_bytes32", "value:p32", "R03")
def _(S, value): return trunc(S.word(value), 32)
@contract("wrapper_mstore_bytes32", "mem:off value:p32", "R03")
def _(S, mem, value): S.wr(S.evm(mem), S.rd(value))
@contract("wrapper_mstore_u256", "mem:off value:p32", "R03")
def _(S, mem, value): S.wr(S.evm(mem), BE(S.u256(value)))
@contract("wrapper_mstore_u32", "mem:off value:u32", "R03")
def _(S, mem, value): S.wr(S.evm(mem), BE(zext(value, 256)))
@contract("wrapper_mstore_u64", "mem:off value:u64", "R03")
def _(S, mem, value): S.wr(S.evm(mem), BE(zext(value, 256)))
@contract("wrapper_mstore_u8", "mem:off value:u8", "R03")
def _(S, mem, value): S.wr(S.evm(mem), [value])
@contract("wrapper_mload_u256", "mem:off result:p32", "R03")
def _(S, mem, result): S.set_u256(result, S.word(S.evm(mem)))
@contract("wrapper_mload_bytes32", "mem:off result:p32", "R03")
def _(S, mem, result): S.wr(result, S.rd(S.evm(mem)))
@contract("wrapper_mload_u32", "mem:off", "R03")
def _(S, mem): return trunc(S.word(S.evm(mem)), 32)
@contract("wrapper_mload_u64", "mem:off", "R03")
def _(S, mem): return trunc(S.word(S.evm(mem)), 64)

# ---------------------------------------------------------------- R05 calldata
def cdword(off):  # total: zero past the end; positions do not wrap
    def byte(i):
        p = add_raw(off, C32(i))
        return cd(p)
    return [byte(i) for i in range(32)]
def _cdload(S, off):
    # offsets near 2^32 name positions past any calldata: no wrap-around
    if S.ask(ult(C32(0xffffffff - 32), off), "offset near 2^32"): return [Z8] * 32
    return cdword(off)
@contract("wrapper_calldataload_u256", "off:u32 result:p32", "R05", globals=True)
def _(S, off, result): S.wr(result, list(reversed(_cdload(S, off))))
@contract("wrapper_calldataload_bytes32", "off:u32 result:p32", "R05", globals=True)
def _(S, off, result): S.wr(result, _cdload(S, off))
@contract("wrapper_calldata_load_selector", "", "R05", globals=True)
def _(S): return be_value(cdword(C32(0))[:4])
@contract("wrapper_calldata_size_minus_4", "", "R05", globals=True)
def _(S): return sub(CDS, C32(4))
@contract("wrapper_calldata_copy", "dst:off off:u32 n:len", "R05", globals=True)
def _(S, dst, off, n):
    if S.ask(ule(CDS, off), "offset past the end"): S.m.bulk(S.evm(dst), n, ("fill", Z8)); return
    if S.ask(ult(CDS, add_raw(off, n)), "range past the end"):
        k = sub(CDS, off)
        S.m.bulk(S.evm(dst), k, ("cd", off)); S.m.bulk(S.evm(add_raw(dst, k)), sub(n, k), ("fill", Z8)); return
    S.m.bulk(S.evm(dst), n, ("cd", off))

# ---------------------------------------------------------------- R06 copies
@contract("wrapper_returndata_copy", "dst:off off:u32 n:len", "R06")
def _(S, dst, off, n): S.m.bulk(S.evm(dst), n, ("rd", S.m.ctr("epoch"), off))
@contract("wrapper_extcode_copy", "addr:p32 dst:off off:u32 n:len", "R06")
def _(S, addr, dst, off, n): S.m.bulk(S.evm(dst), n, ("ext", S.m.ctr("epoch"), S.addr(addr), off))
@contract("wrapper_mcopy", "dst:off src:off n:len", "R06")
def _(S, dst, src, n): S.m.bulk(S.evm(dst), n, S.m.src_of(S.evm(src), n))
@contract("wrapper_data_copy", "dst:off src:noff n:len", "R06", "R16")
def _(S, dst, src, n): S.m.bulk(S.evm(dst), n, S.m.src_of(S.evm(src), n))

# ---------------------------------------------------------------- R07 storage
def store(op, key, val):
    def f(S, slot, value): S.m.event(op, from_bytes(key(S, slot)), from_bytes(val(S, value)))
    return f
U = lambda S, p: BE(S.u256(p)); B = lambda S, p: S.rd(p)
contract("wrapper_sstore_u256", "slot:p32 value:p32", "R07")(store("sstore", U, U))
contract("wrapper_sstore_bytes32", "slot:p32 value:p32", "R07")(store("sstore", B, B))
contract("wrapper_sstore_u256_using_little_endian_hostapi", "slot:p32 value:p32", "R07")(store("sstore", B, U))
contract("wrapper_tstore_u256", "slot:p32 value:p32", "R07")(store("tstore", U, U))
contract("wrapper_tstore_bytes32", "slot:p32 value:p32", "R07")(store("tstore", B, B))
def load(read, native):
    def f(S, slot, result):
        v = getattr(S.m, read)(S.rd(slot))
        S.wr(result, list(reversed(v)) if native else v)
    return f
contract("wrapper_sload_u256", "slot:p32 result:p32", "R07")(load("storage", True))
contract("wrapper_sload_u256_using_little_endian_hostapi", "slot:p32 result:p32", "R07")(load("storage", True))
contract("wrapper_sload_bytes32", "slot:p32 result:p32", "R07")(load("storage", False))
contract("wrapper_tload_u256", "slot:p32 result:p32", "R07")(load("transient", True))
contract("wrapper_tload_bytes32", "slot:p32 result:p32", "R07")(load("transient", False))

# ---------------------------------------------------------------- R09 logs
for k in range(5):
    def f(S, mem, n, *tops, k=k):
        S.m.event("log", S.range(mem, n), C32(k), tuple(S.bytes(S.rd(t)) for t in tops) + (("none",),) * (4 - k))
    contract(f"wrapper_log{k}", "mem:off n:len " + " ".join(f"topic{i}:p32" for i in range(k)), "R09")(f)

# ---------------------------------------------------------------- R10 hashing, termination
@contract("wrapper_keccak256", "mem:off n:len result:p32", "R10")
def _(S, mem, n, result): S.wr(result, S.host("keccak256", 32, S.range(mem, n)))
@contract("wrapper_return", "mem:off n:len", "R10")
def _(S, mem, n): S.end("return", "return", S.range(mem, n))
@contract("wrapper_revert", "mem:off n:len", "R10")
def _(S, mem, n): S.end("revert", "revert", S.range(mem, n))
@contract("wrapper_stop", "", "R10")
def _(S): S.end("return", "return", ("empty",))
@contract("wrapper_invalid", "", "R10")
def _(S): S.end("invalid", "invalid")
@contract("wrapper_selfdestruct", "addr:p32", "R10")
def _(S, addr): S.end("selfdestruct", "selfdestruct", S.addr(addr))

# ---------------------------------------------------------------- R11 calls
def call_tail(S, r, out, outn, callee):
    ok = S.ask(eq(r, C32(0)), "host reports success")
    rds = S.m.rds()
    cw = S.word(callee)
    if not ok and S.ask(ult(cw, const(256, 11))) and not S.ask(eq(cw, const(256, 0))):
        S.require(eq(rds, C32(0)))      # a failed precompiled contract returns nothing
    n = umin(S, outn, rds)
    S.m.bulk(S.evm(out), n, ("rd", S.m.ctr("epoch"), C32(0)))
    return C32(int(ok))
@contract("wrapper_call_contract", "gas:u64 callee:p32 value:p32 inp:off inn:len out:off outn:len", "R11")
def _(S, gas, callee, value, inp, inn, out, outn):
    S.m.event("call", "callContract", gas, S.addr(callee), S.bytes(BE(S.u256(value))), S.range(inp, inn))
    return call_tail(S, S.m.after_call("callret"), out, outn, callee)
for fn, h in (("wrapper_delegatecall", "callDelegate"), ("wrapper_staticcall", "callStatic")):
    def f(S, gas, callee, inp, inn, out, outn, h=h):
        S.m.event("call", h, gas, S.addr(callee), S.range(inp, inn))
        return call_tail(S, S.m.after_call("callret"), out, outn, callee)
    contract(fn, "gas:u64 callee:p32 inp:off inn:len out:off outn:len", "R11")(f)

# ---------------------------------------------------------------- R12 create
def create(S, value, code, n, salt, result):
    L = be_value(S.rd(S.evm(code), 4))
    S.require(ule(L, C32(1 << 30)))
    pk = add_raw(L, C32(4))
    S.require(ule(pk, n))
    S.m.event("create", S.bytes(BE(S.u256(value))), S.range(code, pk), S.range(add_raw(code, pk), sub(n, pk)),
              ("none",) if salt is None else S.bytes(BE(S.u256(salt))), C32(0 if salt is None else 1))
    r = S.m.after_call("createret")
    if S.ask(eq(r, C32(0)), "host reports success"):
        S.wr(result, [Z8] * 12 + S.host("newaddr", 20, S.m.ctr("epoch")))
    else:
        # reported as a failure: either the transaction stops or the word is zero
        if S.kw_outcome == "revert": S.s.outcome = "revert"; S.m.event(*S.impl_last); raise Stop()
        S.wr(result, [Z8] * 32)
def PACKAGE(st, a):      # the range holds a package: a 4-byte length, that much code, arguments
    m = Machine(st); m.spec = True
    L = be_value(m.read_bytes(add_raw(EVM, a["code"]), 4))
    return st.assume(ule(C32(4), a["n"]), True) and st.assume(ult(C32(1 << 30), L), False) and st.assume(ule(add_raw(L, C32(4)), a["n"]), True)
@contract("wrapper_create", "value:p32 code:off n:len result:p32", "R12", outcome=True, pre=PACKAGE)
def _(S, value, code, n, result): create(S, value, code, n, None, result)
@contract("wrapper_create2", "value:p32 code:off n:len salt:p32 result:p32", "R12", outcome=True, pre=PACKAGE)
def _(S, value, code, n, salt, result): create(S, value, code, n, salt, result)

# ---------------------------------------------------------------- R13 word helpers
for fn, f in (("lt", lambda a, b: ult(a, b)), ("gt", lambda a, b: ult(b, a)), ("slt", lambda a, b: slt(a, b)), ("sgt", lambda a, b: slt(b, a)), ("eq", lambda a, b: eq(a, b))):
    contract("wrapper_bytes32_" + fn, "a:p32 b:p32", "R13")(lambda S, a, b, f=f: b2i(f(S.word(a), S.word(b))))
contract("wrapper_bytes32_iszero", "a:p32", "R13")(lambda S, a: b2i(eq(S.word(a), const(256, 0))))
contract("wrapper_bytes32_not", "a:p32 result:p32", "R13")(lambda S, a, r: S.set_word(r, not_(S.word(a))))
for fn, f in (("and", and_), ("or", or_), ("xor", xor_), ("add", add)):
    contract("wrapper_bytes32_" + fn, "a:p32 b:p32 result:p32", "R13")(lambda S, a, b, r, f=f: S.set_word(r, f(S.word(a), S.word(b))))
for k in (0, 1, 2):
    pass
def shifts(native, left):
    def f(S, value, n, result):
        v = S.u256(value) if native else S.word(value)
        k = sval(n)
        if k <= 0: r = v
        elif k >= 256: r = const(256, 0)
        else: r = (shl if left else lshr)(v, const(256, k))
        (S.set_u256 if native else S.set_word)(result, r)
    return f
SHIFTS = list(range(-1, 262)) + [264, 288, 300, 319, 320, 321, 511, 512, 513, 1000, 1 << 16, 1 << 30, (1 << 31) - 1]
for rep_, nat in (("bytes32", False), ("u256", True)):
    for d, left in (("shl", True), ("shr", False)):
        contract(f"wrapper_{rep_}_{d}", "value:p32 shift:each result:p32", "R13", each=SHIFTS)(shifts(nat, left))
@contract("wrapper_sign_extend", "bits:each value:p32 result:p32", "R13", each=list(range(0, 34)) + [63, 64, 255, 256, 257, 1 << 16, (1 << 31), (1 << 32) - 1])
def _(S, b, value, result):
    v = S.u256(value)
    S.set_u256(result, v if b.a > 30 else sext(trunc(v, 8 * (b.a + 1)), 256))
for fn in ("addmod", "mulmod"):
    contract("wrapper_" + fn, "a:p32 b:p32 mod:p32 result:p32", "R13")(
        lambda S, a, b, n, r, fn=fn: S.wr(r, S.host(fn, 32, from_bytes(S.rd(a)), from_bytes(S.rd(b)), from_bytes(S.rd(n)))))
@contract("wrapper_zero_bytes32", "", "R13", retmem=32)
def _(S): return const(256, 0)

# ---------------------------------------------------------------- R16 deployment
@contract("wrapper_current_contract_pure_contract_size", "", "R16")
def _(S): return CODESIZE
@contract("wrapper_current_contract_code_size", "", "R16", globals=True, deploying=True)
def _(S):
    d = S.deploying
    if d: S.require(not_(extract(add(CODESIZE, CDS), 31, 1)))     # sizes below 2^31 in all
    return add_raw(CODESIZE, CDS) if d else CODESIZE
@contract("is_deploying_tx", "", "R16", globals=True, deploying=True)
def _(S): return C32(int(S.deploying))
@contract("wrapper_codecopy", "dst:off src:noff n:len", "R16")
def _(S, dst, src, n): S.m.bulk(S.evm(dst), n, S.m.src_of(S.evm(src), n))
@contract("wrapper_codecopy", "dst:off src:off n:len", "R16", globals=True)
def _(S, dst, src, n):
    S.require(not_(eq(n, C32(0))))
    if S.ask(ule(add_raw(src, n), CODESIZE), "inside the code"): S.m.bulk(S.evm(dst), n, ("code", src)); return
    if S.ask(ule(CODESIZE, src), "starts in the constructor arguments"):
        off = sub(src, CODESIZE)
        S.require(ule(add_raw(off, n), CDS))     # constructor arguments exist that far
        S.m.bulk(S.evm(dst), n, ("cd", off)); return
    raise Skip()      # a single copy spanning code and arguments: not something Solidity emits

# ---------------------------------------------------------------- R17 fused ERC20 transfer
def mapslot(S, key):
    return S.host("keccak256", 32, S.bytes(S.rd(key) + [Z8] * 32))
@contract("wrapper_optimized_erc20_fun_transfer", "from:p32 to:p32 amount:p32", "R17")
def _(S, frm, to, amount):
    # address operands are clean words (the compiler masks them before the call)
    for p in (frm, to):
        S.require(eq(from_bytes(S.rd(p, 12)), const(96, 0)))
    if S.ask(eq(from_bytes(S.rd(add_raw(frm, C32(12)), 20)), const(160, 0)), "sender is zero"):
        S.revert(S.bytes(lit(bytes.fromhex("96c6fd1e")) + [Z8] * 32))
    if S.ask(eq(from_bytes(S.rd(add_raw(to, C32(12)), 20)), const(160, 0)), "receiver is zero"):
        S.revert(S.bytes(lit(bytes.fromhex("ec442f05")) + [Z8] * 32))
    v = S.word(amount)
    ks = mapslot(S, frm); bal = be_value(S.m.storage(ks))
    if S.ask(ult(bal, v), "balance too small"):
        S.revert(S.bytes(lit(bytes.fromhex("e450d38c")) + S.rd(frm) + BE(bal) + S.rd(amount)))
    S.m.event("sstore", from_bytes(ks), from_bytes(BE(sub(bal, v))))
    kt = mapslot(S, to); tb = be_value(S.m.storage(kt))
    S.m.event("sstore", from_bytes(kt), from_bytes(BE(add(tb, v))))
    topic = lit(bytes.fromhex("ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef"))
    S.m.event("log", S.bytes(S.rd(amount)), C32(3), (S.bytes(topic), S.bytes(S.rd(frm)), S.bytes(S.rd(to)), ("none",)))

# ---------------------------------------------------------------- R18 freestanding primitives
def off(p): return sub(p, EVM)
@contract("__memset", "dest:mem val:u8 n:len", "R18", primitive=True)
def _(S, dest, val, n): S.m.bulk(dest, n, ("fill", trunc(val, 8)))
@contract("memset", "dest:mem val:u8 n:len", "R18", primitive=True)
def _(S, dest, val, n): S.m.bulk(dest, n, ("fill", trunc(val, 8))); return dest
@contract("memcpy", "dest:mem src:mem n:len", "R18", primitive=True)
def _(S, dest, src, n):
    if not S.ask(ule(add_raw(off(src), n), off(dest)), "source below"): S.require(ule(add_raw(off(dest), n), off(src)))
    S.m.bulk(dest, n, S.m.src_of(src, n)); return dest
@contract("__memcmp", "left:mem ln:len right:mem rn:len", "R18", primitive=True)
def _(S, left, ln, right, rn):
    if not S.ask(eq(ln, rn), "lengths equal"): return const(1, 0)
    if S.ask(eq(ln, C32(0)), "empty"): return const(1, 1)
    same = forall(eq(src_byte(S.m.src_of(left, ln), KITER), src_byte(S.m.src_of(right, ln), KITER)), ln)
    return const(1, int(S.ask(same, "all bytes equal")))
@contract("int32_to_str", "value:u32 buf:p16 size:each", "R18", primitive=True, each=[12, 13, 16])
def _(S, value, buf, size):
    neg_ = S.ask(slt(value, C32(0)), "negative")
    v = neg(value) if neg_ else value
    out = []
    if S.ask(eq(v, C32(0)), "zero"): out = [const(8, 48)]
    else:
        while not S.ask(eq(v, C32(0))):
            out.append(trunc(add(C32(48), div("urem", v, C32(10))), 8)); v = div("udiv", v, C32(10))
        if neg_: out.append(const(8, ord("-")))
        out.reverse()
    S.wr(buf, out + [Z8])
    return C32(len(out))

# ---------------------------------------------------------------- E03 exponentiation
EXPS = list(range(0, 40)) + [1 << k for k in range(5, 256)] + [(1 << k) - 1 for k in (8, 16, 32, 64, 128, 255, 256)] + [3 << 254, (1 << 255) + 1, (1 << 256) - 2]
@contract("wrapper_exp", "base:p32 exp:eachptr result:p32", "E03", each=EXPS)
def _(S, base, exp, result):
    S.set_u256(result, power(S.u256(base), S.u256(exp).a))
