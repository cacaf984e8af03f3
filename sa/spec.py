"""The Y86-64 instruction set definition (with iopq), written independently of the
analysed code, over the same abstract domain."""
from values import *
import bdd

HALT, NOP, CMOV, IRMOV, RMMOV, MRMOV, OPQ, JX, CALL, RET, PUSH, POP, IOPQ = range(13)
NAMES = ["halt", "nop", "cmovXX", "irmovq", "rmmovq", "mrmovq", "OPq", "jXX", "call", "ret", "pushq", "popq", "iopq"]
LEN = {HALT: 1, NOP: 1, CMOV: 2, IRMOV: 10, RMMOV: 10, MRMOV: 10, OPQ: 2, JX: 9, CALL: 9, RET: 1, PUSH: 2, POP: 2, IOPQ: 10}
MAXFUN = {CMOV: 6, JX: 6, OPQ: 3, IOPQ: 3}
RSP, RNONE = 4, 15
MEM = 65536


def const(v):
    return leaf(v)


def switch(d, table, default):
    """Diagram selecting by the constant leaves of d."""
    out = None
    for g, k in guards(d):
        x = table.get(k, default)
        out = x if out is None else merge(g, x, out)
    return out


def isin(d, ks):
    return map1(lambda l: T if l in ks else F, d)


def is_(d, k):
    return isin(d, (k,))


def hi4(b):
    return map1(lambda l: op_shr(8, l, 4), b)


def lo4(b):
    return map1(lambda l: op_bit("and", 8, l, 15), b)


def word(arr, addr):
    """Little-endian 8-byte word of a byte array at a 64-bit address."""
    r = leaf(0)
    for i in range(8):
        b = aget(arr, addn(addr, leaf(i)))
        z = map1(lambda x: cast(x, 8, False, 64), b)
        z = map1(lambda x, i=i: op_shl(64, x, 8 * i), z)
        r = addn(r, z)
    return r


def put_word(arr, addr, v, cond):
    for i in range(8):
        b = map1(lambda x, i=i: leaf(ext(x, 64, 8 * i, 8)), v)
        arr = aset(arr, addn(addr, leaf(i)), b, cond)
    return arr


def in_mem(addr, n):
    """All n bytes from a 64-bit address lie in memory."""
    return map1(lambda x: ult_const(x, 64, MEM - n + 1), addr)


def in_mem_var(addr, ln):
    return map2(lambda x, n: ult_const(x, 64, MEM - n + 1), addr, ln)


def msbd(x):
    return map1(lambda l: msb(l, 64), x)


def bitop(kind, a, b):
    return map2(lambda x, y: op_bit(kind, 64, x, y), a, b)


def alu(fun, a, b):
    """b OP a for fun 0 add, 1 sub, 2 and, 3 xor; other functions give 0."""
    return merge(is_(fun, 0), addn(b, a), merge(is_(fun, 1), subn(b, a), merge(is_(fun, 2), bitop("and", b, a), merge(is_(fun, 3), bitop("xor", b, a), leaf(0)))))


def alu_cc(fun, a, b, e):
    """(zf, sf, of)"""
    zf = map1(lambda l: eq(l, 0, 64), e)
    sf = msbd(e)
    sa, sb = msbd(a), msbd(b)
    oadd = AND(NOT(XOR(sa, sb)), XOR(sa, sf))
    osub = AND(XOR(sa, sb), XOR(sb, sf))
    of = ite(is_(fun, 0), oadd, ite(is_(fun, 1), osub, F))
    return zf, sf, of


def cond(fun, zf, sf, of):
    x = XOR(sf, of)
    t = {0: T, 1: OR(x, zf), 2: x, 3: zf, 4: NOT(zf), 5: NOT(x), 6: AND(NOT(x), NOT(zf))}
    r = F
    for k, c in t.items():
        r = ite(is_(fun, k), c, r)
    return r


class Instr:
    """Fields of the instruction at pc."""

    def __init__(self, mem, pc):
        b0 = aget(mem, pc)
        b1 = aget(mem, addn(pc, leaf(1)))
        self.icode, self.ifun = hi4(b0), lo4(b0)
        self.ra, self.rb = hi4(b1), lo4(b1)
        ic = self.icode
        self.has_reg = isin(ic, (CMOV, IRMOV, RMMOV, MRMOV, OPQ, PUSH, POP, IOPQ))
        self.is_jump = isin(ic, (JX, CALL))
        self.valc = merge(self.is_jump, word(mem, addn(pc, leaf(1))), word(mem, addn(pc, leaf(2))))
        self.len = map1(lambda l: leaf(LEN.get(l, 1)), ic)
        self.valp = addn(pc, self.len)
        okfun = F
        for k in range(13):
            okfun = ite(is_(ic, k), isin(self.ifun, range(MAXFUN.get(k, 0) + 1)), okfun)
        okreg = ite(isin(ic, (IRMOV, IOPQ)), is_(self.ra, RNONE), ite(isin(ic, (PUSH, POP)), is_(self.rb, RNONE), T))
        self.legal = AND(isin(ic, range(13)), okfun, okreg)
        # register fields that must name a register
        named = T
        named = AND(named, OR(NOT(isin(ic, (CMOV, RMMOV, MRMOV, OPQ, PUSH, POP))), NOT(is_(self.ra, RNONE))))
        named = AND(named, OR(NOT(isin(ic, (CMOV, IRMOV, RMMOV, MRMOV, OPQ, IOPQ))), NOT(is_(self.rb, RNONE))))
        self.named = named
        self.fits = map2(lambda x, n: ult_const(x, 64, MEM - n + 1), pc, self.len)


def step(mem, pc, cc, regs, instr=None):
    """One instruction.  cc = (zf, sf, of).  Returns the new components and conditions."""
    I = instr or Instr(mem, pc)
    ic = I.icode
    zf, sf, of = cc
    va, vb = aget(regs, cast_idx(I.ra)), aget(regs, cast_idx(I.rb))
    rsp = aget(regs, leaf(RSP))
    isop = isin(ic, (OPQ, IOPQ))
    a = merge(is_(ic, IOPQ), I.valc, va)
    e = alu(I.ifun, a, vb)
    nz, ns, no = alu_cc(I.ifun, a, vb, e)
    cnd = cond(I.ifun, zf, sf, of)
    eff = addn(vb, I.valc)
    dec, inc = subn(rsp, leaf(8)), addn(rsp, leaf(8))
    # memory operand
    macc = isin(ic, (RMMOV, MRMOV, CALL, RET, PUSH, POP))
    addr = merge(isin(ic, (RMMOV, MRMOV)), eff, merge(isin(ic, (CALL, PUSH)), dec, rsp))
    addr_ok = OR(NOT(macc), in_mem(addr, 8))
    nmem = put_word(mem, eff, va, is_(ic, RMMOV))
    nmem = put_word(nmem, dec, I.valp, is_(ic, CALL))
    nmem = put_word(nmem, dec, va, is_(ic, PUSH))
    m_mr = word(mem, eff)
    m_sp = word(mem, rsp)
    r = regs
    r = aset(r, leaf(RSP), dec, isin(ic, (CALL, PUSH)))
    r = aset(r, leaf(RSP), inc, isin(ic, (RET, POP)))
    r = aset(r, cast_idx(I.rb), va, AND(is_(ic, CMOV), cnd))
    r = aset(r, cast_idx(I.rb), I.valc, is_(ic, IRMOV))
    r = aset(r, cast_idx(I.rb), e, isop)
    r = aset(r, cast_idx(I.ra), m_mr, is_(ic, MRMOV))
    r = aset(r, cast_idx(I.ra), m_sp, is_(ic, POP))
    npc = merge(is_(ic, JX), merge(cnd, I.valc, I.valp), merge(is_(ic, CALL), I.valc, merge(is_(ic, RET), m_sp, I.valp)))
    npc = merge(is_(ic, HALT), pc, npc)
    return dict(instr=I, legal=I.legal, valid=AND(I.legal, I.named, I.fits, addr_ok), halt=is_(ic, HALT), mem=nmem, regs=r, pc=npc,
                cc=(ite(isop, nz, zf), ite(isop, ns, sf), ite(isop, no, of)), addr=addr, addr_ok=addr_ok)


def cast_idx(d):
    return map1(lambda l: cast(l, 8, False, 64), d)
