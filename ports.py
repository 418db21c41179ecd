#!/usr/bin/env python3
"""Explores histories of make_fcontext / jump_fcontext / ontop_fcontext for every ELF port.

The assembly of the port is assembled from the tree (clang), linked (lld) and executed by a small
instruction-level interpreter.  The C side (callers, entry functions, functions run on top) is played
by the explorer, which follows the calling convention of the platform: it puts fresh values into all
callee-saved registers before each call and junk into all others, and after each switch compares
what the resumed side finds with what the convention promises.  After every single instruction a
signal may arrive: everything below the stack pointer (minus the platform's red zone) is overwritten.

  ports.py <port> [--depth N] [--ctx K]      explore;   ports.py <port> --replay "<ops>"
Prints one JSON line.  An instruction the interpreter does not know makes the port "not covered".
"""
import json, os, time, re, subprocess, sys, tempfile, shutil, hashlib, struct

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class NotCovered(Exception): pass
class Violation(Exception): pass

# ------------------------------------------------------------------ memory
class Mem:
    def __init__(self, big): self.big = big; self.reg = []; self.log = None
    def add(self, name, base, data): self.reg.append([name, base, bytearray(data)])
    def find(self, a, n):
        for r in self.reg:
            if r[1] <= a and a + n <= r[1] + len(r[2]): return r
        raise Violation('access to %#x (%d bytes), which is no memory of any context' % (a, n))
    def load(self, a, n):
        r = self.find(a, n); o = a - r[1]
        return int.from_bytes(r[2][o:o + n], 'big' if self.big else 'little')
    def store(self, a, n, v):
        r = self.find(a, n); o = a - r[1]
        if r[0] == 'image' : raise Violation('write to %#x, which is not a stack' % a)
        if self.log is not None: self.log.append((a, n))
        r[2][o:o + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'big' if self.big else 'little')
    def snap(self): return [bytes(r[2]) for r in self.reg if r[0] != 'image']
    def back(self, s):
        for r, d in zip([r for r in self.reg if r[0] != 'image'], s): r[2][:] = d

def sx(v, bits): v &= (1 << bits) - 1; return v - (1 << bits) if v >> (bits - 1) else v

# ------------------------------------------------------------------ machines
class Machine:
    """Registers are held in self.r by canonical name; self.pc is the next instruction."""
    big = False; bits = 64; redzone = 0; arch = ''; target = ''; sp = 'sp'; bias = 0
    flags = []; odflags = []
    area = 0             # bytes above the caller's sp that belong to the callee
    entry_area = 0       # bytes above sp an entry function may use
    align = 16; align_off = 0    # sp % align at the first instruction of a function
    saved = []; fixed = []; volatile = []
    sret = False         # is transfer_t returned through memory?
    byref = False        # is transfer_t passed by reference?
    stack_fill = 0
    def __init__(self):
        self.r = {}; self.code = {}; self.sym = {}; self.mem = Mem(self.big); self.steps = 0; self.unk = None; self.pc = 0
        self.cache = {}
    W = property(lambda s: s.bits // 8)
    def mask(self, v): return v & ((1 << self.bits) - 1)
    def ld(self, a): return self.mem.load(self.mask(a), self.W)
    def st(self, a, v): self.mem.store(self.mask(a), self.W, v)
    def reg(self, n):
        n = self.canon(n)
        if n == '0': return 0
        if n not in self.r: raise NotCovered('register %s' % n)
        return self.r[n]
    def set(self, n, v):
        n = self.canon(n)
        if n == '0': return
        if n not in self.r: raise NotCovered('register %s' % n)
        self.r[n] = v & ((1 << self.width(n)) - 1)
    def width(self, n): return self.bits
    def canon(self, n): return n
    def getsp(self): return self.mask(self.r[self.sp] + self.bias)
    # ---- build
    def build(self, tmp):
        objs = []
        for k in ('make', 'jump', 'ontop'):
            o = os.path.join(tmp, k + '.o')
            self.cc(['-c', os.path.join(REPO, 'src/asm/%s_%s_elf_gas.S' % (k, self.arch)), '-o', o]); objs.append(o)
        s = os.path.join(tmp, 'stub.S')
        at = '%' if self.arch == 'arm_aapcs' else '#' if 'sparc' in self.arch else '@'
        open(s, 'w').write('.text\n.globl _exit\n.type _exit,%sfunction\n_exit: .long 0\n.long 0\n' % at)
        o = os.path.join(tmp, 'stub.o'); self.cc(['-c', s, '-o', o]); objs.append(o)
        objs += self.more(tmp)
        elf = os.path.join(tmp, 'p.elf')
        p = subprocess.run(['ld.lld', '-e', 'make_fcontext', '-o', elf] + objs, capture_output=True, text=True)
        if p.returncode: raise Violation('the port does not link: ' + p.stderr[:400])
        self.load_elf(elf)
    def more(self, tmp): return []
    def cc(self, a, cxx=False):
        p = subprocess.run(['clang++' if cxx else 'clang', '--target=' + self.target] + self.flags + a, capture_output=True, text=True)
        if p.returncode: raise Violation('the port does not assemble: ' + p.stderr[:600])
    def load_elf(self, elf):
        d = open(elf, 'rb').read()
        is64 = d[4] == 2; e = '>' if d[5] == 2 else '<'
        if is64: phoff, = struct.unpack_from(e + 'Q', d, 32); n, = struct.unpack_from(e + 'H', d, 56); ps = 56
        else: phoff, = struct.unpack_from(e + 'I', d, 28); n, = struct.unpack_from(e + 'H', d, 44); ps = 32
        for i in range(n):
            o = phoff + i * ps
            if struct.unpack_from(e + 'I', d, o)[0] != 1: continue
            if is64: off, va, _, fs, ms = struct.unpack_from(e + 'QQQQQ', d, o + 8)
            else: off, va, _, fs, ms = struct.unpack_from(e + 'IIIII', d, o + 4)
            self.mem.add('image', va, d[off:off + fs] + bytes(ms - fs + 4096))
        p = subprocess.run(['llvm-nm-18', elf], capture_output=True, text=True)
        for l in p.stdout.splitlines():
            w = l.split()
            if len(w) == 3: self.sym.setdefault(w[2], int(w[0], 16))
        self.disasm(elf, 0)
    def disasm(self, f, base, relocs=None):
        p = subprocess.run(['llvm-objdump-18', '-d', '--no-show-raw-insn'] + (['-r'] if relocs is not None else []) + self.odflags + [f], capture_output=True, text=True)
        last = None
        for l in p.stdout.splitlines():
            m = re.match(r'^\s*([0-9a-f]+):\s+(?:R_\S+\s+(\S+)|(\S.*))$', l)
            if not m: continue
            if m.group(2):
                if relocs is not None: relocs[base + int(m.group(1), 16)] = m.group(2)
                continue
            t = re.sub(r'\s*(//|@|# ).*$', '', m.group(3)).strip()
            a = base + int(m.group(1), 16)
            w = t.split(None, 1)
            sy = re.search(r'<(.*)>$', t)
            ops = re.sub(r'\s*<[^>]*>$', '', w[1]) if len(w) > 1 else ''
            if last is not None: self.code[last] = self.code[last][:3] + (a - last,)
            self.code[a] = (w[0], self.split(ops), sy.group(1) if sy else None, 4)
            last = a
    def split(self, s):
        out, cur, d = [], '', 0
        for c in s:
            if c in '[({': d += 1
            if c in '])}': d -= 1
            if c == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += c
        if cur.strip(): out.append(cur.strip())
        return out
    def imm(self, s):
        s = s.lstrip('#$').replace('%', '')
        try: return int(s, 0)
        except ValueError: raise NotCovered('operand ' + s)
    def target_of(self, ops, sy):
        if sy:
            m = re.match(r'^(.*?)(?:\+(0x[0-9a-f]+))?$', sy)
            if m.group(1) in self.sym: return self.sym[m.group(1)] + int(m.group(2) or '0', 16)
        return self.imm(ops[-1])
    # ---- execution
    def step(self):
        if self.pc not in self.code: raise Violation('control went to %#x, which is no code' % self.pc)
        m, o, sy, ln = self.code[self.pc]
        f = self.cache.get(m)
        if f is None:
            f = self.cache[m] = getattr(self, 'i_' + re.sub(r'[^a-z0-9]', '_', m), None)
            if f is None: raise NotCovered('instruction %s %s' % (m, ', '.join(o)))
        self.next = self.pc + ln
        f(o, sy)
        self.pc = self.mask(self.next)
    # ---- hooks of particular ports
    def calling(self, rec): pass            # the C side calls a library function
    def came_back(self, rec): pass          # ... which returned
    def before_make(self, w, rec): pass
    def made(self, w, rec, c): pass
    def snap_mem(self): return (self.mem.snap(), self.sh.snap() if hasattr(self, 'sh') else None)
    def back_mem(self, s):
        self.mem.back(s[0])
        if s[1] is not None: self.sh.back(s[1])
    def get_ret(self): return self.r[self.ret[0]], self.r[self.ret[1]]
    def set_ret(self, x, d): self.r[self.ret[0]] = x; self.r[self.ret[1]] = d
    # ---- calling convention: overridden where needed
    ret = []             # registers that return fctx, data
    args = []            # integer argument registers
    def put_args(self, vals, ra):
        for n, v in zip(self.args, vals): self.r[n] = v
        self.r[self.ra] = ra
    def call_fn(self, fn): pass         # registers that have to hold the address of the called function
    def at_function(self, fn): return None
    def ret_to(self, ra, spv):
        self.pc = ra; self.r[self.sp] = spv
    def ra_at_entry(self): return self.r[self.ra]
    def sp_after_return(self, spv): return spv
    def get_args(self, n): return [self.r[x] for x in self.args[:n]]

class ARM64(Machine):
    arch = 'arm64_aapcs'; target = 'aarch64-linux-gnu'; ra = 'x30'
    saved = ['x%d' % i for i in range(19, 30)] + ['d%d' % i for i in range(8, 16)]
    fixed = ['x18']; volatile = ['x%d' % i for i in list(range(0, 18)) + [30]] + ['d%d' % i for i in list(range(0, 8)) + list(range(16, 32))]
    args = ['x%d' % i for i in range(8)]; ret = ['x0', 'x1']
    def canon(self, n): return '0' if n == 'xzr' else {'fp': 'x29', 'lr': 'x30'}.get(n, n)
    def mref(self, o):
        """[base], [base, #imm], [base, #imm]!, or [base], #imm  ->  (address, writeback)"""
        m = re.match(r'^\[(\w+)(?:,\s*#?(-?\w+))?\](!?)$', o[0])
        if not m: raise NotCovered(str(o))
        b = self.reg(m.group(1)); i = int(m.group(2) or '0', 0)
        if len(o) > 1: return b, (m.group(1), b + self.imm(o[1]))
        return b + i, ((m.group(1), b + i) if m.group(3) else None)
    def wb(self, w):
        if w: self.set(w[0], w[1])
    def ok(self, n):
        if not re.match(r'^([xd]\d+|xzr|sp)$', n): raise NotCovered('register ' + n)
        return n
    def i_stp(self, o, s):
        a, w = self.mref(o[2:]); self.ok(o[0]); self.ok(o[1]); v = self.reg(o[0]), self.reg(o[1]); self.wb(w); self.st(a, v[0]); self.st(a + 8, v[1])
    def i_ldp(self, o, s):
        a, w = self.mref(o[2:]); x, y = self.ld(a), self.ld(a + 8); self.wb(w); self.set(self.ok(o[0]), x); self.set(self.ok(o[1]), y)
    def i_str(self, o, s):
        a, w = self.mref(o[1:]); v = self.reg(self.ok(o[0])); self.wb(w); self.st(a, v)
    i_stur = i_str
    def i_ldr(self, o, s):
        a, w = self.mref(o[1:]); x = self.ld(a); self.wb(w); self.set(self.ok(o[0]), x)
    i_ldur = i_ldr
    def val(self, x): return self.imm(x) if x[0] == '#' else self.reg(x)
    def i_add(self, o, s): self.three(o); self.set(o[0], self.reg(o[1]) + self.val(o[2]))
    def i_sub(self, o, s): self.three(o); self.set(o[0], self.reg(o[1]) - self.val(o[2]))
    def i_and(self, o, s): self.three(o); self.set(o[0], self.reg(o[1]) & self.val(o[2]))
    def i_orr(self, o, s): self.three(o); self.set(o[0], self.reg(o[1]) | self.val(o[2]))
    def three(self, o):
        if len(o) != 3: raise NotCovered(str(o))
    def i_mov(self, o, s): self.set(self.ok(o[0]), self.val(o[1]))
    def i_adr(self, o, s): self.set(o[0], self.target_of(o, s))
    def i_ret(self, o, s): self.next = self.reg(o[0] if o else 'x30')
    def i_br(self, o, s): self.next = self.reg(o[0])
    def i_blr(self, o, s): t = self.reg(o[0]); self.set('x30', self.pc + 4); self.next = t
    def i_b(self, o, s): self.next = self.target_of(o, s)
    def i_bl(self, o, s): self.set('x30', self.pc + 4); self.next = self.target_of(o, s)
    def i_nop(self, o, s): pass
class ARM64BE(ARM64): target = 'aarch64_be-linux-gnu'; big = True

class ARM(Machine):
    arch = 'arm_aapcs'; target = 'armv7-linux-gnueabihf'; bits = 32; ra = 'r14'; sp = 'r13'; align = 8; sret = True
    saved = ['r%d' % i for i in range(4, 12)] + ['d%d' % i for i in range(8, 16)]
    volatile = ['r0', 'r1', 'r2', 'r3', 'r12', 'r14'] + ['d%d' % i for i in range(0, 8)]
    args = ['r0', 'r1', 'r2', 'r3']
    def canon(self, n): return {'sp': 'r13', 'lr': 'r14', 'ip': 'r12', 'fp': 'r11', 'pc': 'pc'}.get(n, n)
    def width(self, n): return 64 if n[0] == 'd' else 32
    def reg(self, n): return self.mask(self.pc + 8) if n == 'pc' else Machine.reg(self, n)
    def set(self, n, v):
        if n == 'pc': self.next = self.bx(v)
        else: Machine.set(self, n, v)
    def bx(self, v):
        if v & 3: raise Violation('branch to the misaligned address %#x' % v)
        return v
    def val(self, x): return self.imm(x) if x[0] == '#' else self.reg(x)
    mref = ARM64.mref; wb = ARM64.wb
    def list(self, s):
        out = []
        for x in s.strip('{}').split(','):
            x = x.strip(); m = re.match(r'^([a-z])(\d+)-[a-z](\d+)$', x)
            out += ['%s%d' % (m.group(1), i) for i in range(int(m.group(2)), int(m.group(3)) + 1)] if m else [self.canon(x)]
        return out
    def regs(self, o, store, before, up):
        l = self.list(o[1]); n = sum(self.width(x) // 8 if x != 'pc' else 4 for x in l); b = o[0].rstrip('!'); a = self.reg(b)
        lo = a if up and not before else a + 4 if up else a - n if before else a - n + 4
        if store:
            v = [(x, self.reg(x)) for x in l]
            if o[0].endswith('!'): self.set(b, a + n if up else a - n)
            for x, y in v: w = self.width(x) // 8; self.mem.store(self.mask(lo), w, y) if w == 4 else self.wide(lo, y); lo += w
        else:
            v = []
            for x in l:
                w = 4 if x == 'pc' else self.width(x) // 8
                v.append((x, self.mem.load(self.mask(lo), w))); lo += w
            if o[0].endswith('!'): self.set(b, a + n if up else a - n)
            for x, y in v: self.set(x, y)
    def wide(self, a, v): self.mem.store(self.mask(a), 8, v)
    def i_push(self, o, s): self.regs(['sp!', o[0]], True, True, False)
    def i_pop(self, o, s): self.regs(['sp!', o[0]], False, False, True)
    def i_stmdb(self, o, s): self.regs(o, True, True, False)
    def i_stmia(self, o, s): self.regs(o, True, False, True)
    i_stm = i_stmia
    def i_ldmia(self, o, s): self.regs(o, False, False, True)
    i_ldm = i_ldmia
    i_vstmia = i_stmia
    i_vldmia = i_ldmia
    def i_vstmdb(self, o, s): self.regs(o, True, True, False)
    def i_vpush(self, o, s): self.regs(['sp!', o[0]], True, True, False)
    def i_vpop(self, o, s): self.regs(['sp!', o[0]], False, False, True)
    def i_str(self, o, s): a, w = self.mref(o[1:]); v = self.reg(o[0]); self.wb(w); self.st(a, v)
    def i_ldr(self, o, s): a, w = self.mref(o[1:]); x = self.ld(a); self.wb(w); self.set(o[0], x)
    def i_add(self, o, s): self.set(o[0], self.reg(o[1]) + self.val(o[2]))
    def i_sub(self, o, s): self.set(o[0], self.reg(o[1]) - self.val(o[2]))
    def i_bic(self, o, s): self.set(o[0], self.reg(o[1]) & ~self.val(o[2]))
    def i_and(self, o, s): self.set(o[0], self.reg(o[1]) & self.val(o[2]))
    def i_mov(self, o, s): self.set(o[0], self.val(o[1]))
    def i_bx(self, o, s): self.next = self.bx(self.reg(o[0]))
    def i_b(self, o, s): self.next = self.target_of(o, s)
    def i_bl(self, o, s): self.set('lr', self.pc + 4); self.next = self.target_of(o, s)
    def i_nop(self, o, s): pass
class ARMSOFT(ARM):
    target = 'armv6-linux-gnueabi'; flags = ['-mfloat-abi=soft', '-mfpu=none']
    saved = ['r%d' % i for i in range(4, 12)]

class RISCV(Machine):
    arch = 'riscv64_sysv'; target = 'riscv64-linux-gnu'; flags = ['-march=rv64gc']; odflags = ['--mattr=+f,+d,+c,+a,+m']; ra = 'ra'
    saved = ['s%d' % i for i in range(12)] + ['fs%d' % i for i in range(12)]
    fixed = ['gp', 'tp']; volatile = ['ra'] + ['t%d' % i for i in range(7)] + ['a%d' % i for i in range(8)] + ['ft%d' % i for i in range(12)] + ['fa%d' % i for i in range(8)]
    args = ['a%d' % i for i in range(8)]; ret = ['a0', 'a1']
    def canon(self, n): return {'zero': '0', 'fp': 's0'}.get(n, n)
    def mref(self, x):
        m = re.match(r'^(-?\w*)\((\w+)\)$', x)
        if not m: raise NotCovered(x)
        return self.reg(m.group(2)) + int(m.group(1) or '0', 0)
    def i_addi(self, o, s): self.set(o[0], self.reg(o[1]) + self.imm(o[2]))
    def i_andi(self, o, s): self.set(o[0], self.reg(o[1]) & self.imm(o[2]))
    def i_add(self, o, s): self.set(o[0], self.reg(o[1]) + self.reg(o[2]))
    def i_sub(self, o, s): self.set(o[0], self.reg(o[1]) - self.reg(o[2]))
    def i_mv(self, o, s): self.set(o[0], self.reg(o[1]))
    def i_li(self, o, s): self.set(o[0], self.imm(o[1]))
    def i_auipc(self, o, s): self.set(o[0], self.pc + (sx(self.imm(o[1]), 20) << 12))
    def i_sd(self, o, s): self.st(self.mref(o[1]), self.reg(o[0]))
    i_fsd = i_sd
    def i_ld(self, o, s): self.set(o[0], self.ld(self.mref(o[1])))
    i_fld = i_ld
    def i_jr(self, o, s): self.next = (self.reg(o[0]) if '(' not in o[0] else self.mref(o[0])) & ~1
    def i_jalr(self, o, s):
        t = self.reg(o[-1]) if '(' not in o[-1] else self.mref(o[-1])
        self.set('ra' if len(o) == 1 else o[0], self.next); self.next = t & ~1
    def i_j(self, o, s): self.next = self.target_of(o, s)
    def i_jal(self, o, s): self.set('ra' if len(o) == 1 else o[0], self.next); self.next = self.target_of(o, s)
    def i_call(self, o, s): self.i_jal(o, s)
    def i_ret(self, o, s): self.next = self.reg('ra') & ~1
    def i_nop(self, o, s): pass

class LOONG(Machine):
    arch = 'loongarch64_sysv'; target = 'loongarch64-linux-gnu'; ra = 'ra'
    saved = ['fp'] + ['s%d' % i for i in range(9)] + ['fs%d' % i for i in range(8)]
    fixed = ['tp', 'r21']; volatile = ['ra'] + ['t%d' % i for i in range(9)] + ['a%d' % i for i in range(8)] + ['ft%d' % i for i in range(16)] + ['fa%d' % i for i in range(8)]
    args = ['a%d' % i for i in range(8)]; ret = ['a0', 'a1']
    def canon(self, n): n = n.lstrip('$'); return {'zero': '0', 's9': 'fp'}.get(n, n)
    def adr(self, o): return self.reg(o[1]) + self.imm(o[2])
    def i_addi_d(self, o, s): self.set(o[0], self.reg(o[1]) + self.imm(o[2]))
    def i_add_d(self, o, s): self.set(o[0], self.reg(o[1]) + self.reg(o[2]))
    def i_sub_d(self, o, s): self.set(o[0], self.reg(o[1]) - self.reg(o[2]))
    def i_ori(self, o, s): self.set(o[0], self.reg(o[1]) | self.imm(o[2]))
    def i_or(self, o, s): self.set(o[0], self.reg(o[1]) | self.reg(o[2]))
    def i_and(self, o, s): self.set(o[0], self.reg(o[1]) & self.reg(o[2]))
    def i_move(self, o, s): self.set(o[0], self.reg(o[1]))
    def i_bstrins_d(self, o, s):
        hi, lo = self.imm(o[2]), self.imm(o[3]); m = ((1 << (hi - lo + 1)) - 1) << lo
        self.set(o[0], self.reg(o[0]) & ~m | (self.reg(o[1]) << lo) & m)
    def i_pcalau12i(self, o, s): self.set(o[0], (self.pc & ~0xfff) + (sx(self.imm(o[1]), 20) << 12))
    def i_pcaddi(self, o, s): self.set(o[0], self.pc + (sx(self.imm(o[1]), 20) << 2))
    def i_st_d(self, o, s): self.st(self.adr(o), self.reg(o[0]))
    i_fst_d = i_st_d
    def i_ld_d(self, o, s): self.set(o[0], self.ld(self.adr(o)))
    i_fld_d = i_ld_d
    def i_jr(self, o, s): self.next = self.reg(o[0])
    def i_jirl(self, o, s): t = self.reg(o[1]) + self.imm(o[2]); self.set(o[0], self.pc + 4); self.next = t
    def i_ret(self, o, s): self.next = self.reg('ra')
    def i_b(self, o, s): self.next = self.pc + self.imm(o[0])
    def i_bl(self, o, s): self.set('ra', self.pc + 4); self.next = self.pc + self.imm(o[0])
    def i_nop(self, o, s): pass

class MIPS(Machine):
    """A branch takes effect after the instruction that follows it."""
    names = {'zero': '0', 'at': 'r1', 'gp': 'r28', 'sp': 'r29', 'fp': 'r30', 'ra': 'r31'}
    sp = 'r29'; ra = 'r31'; delay = None
    def canon(self, n):
        n = n.lstrip('$')
        if n == '0': return '0'
        return self.names.get(n) or ('r' + n if n.isdigit() else n)
    def mref(self, x):
        m = re.match(r'^(-?\w*)\((\$\w+)\)$', x)
        if not m: raise NotCovered(x)
        return self.reg(m.group(2)) + int(m.group(1) or '0', 0)
    def step(self):
        d = self.delay
        Machine.step(self)
        if d is not None:
            if self.delay is not d: raise NotCovered('branch in a delay slot')
            self.pc = self.mask(d[0]); self.delay = None
    def branch(self, t): self.delay = [t]
    def i_jr(self, o, s): self.branch(self.reg(o[0]))
    def i_jalr(self, o, s): t = self.reg(o[-1]); self.set('$31' if len(o) == 1 else o[0], self.pc + 8); self.branch(t)
    def i_b(self, o, s): self.branch(self.target_of(o, s))
    i_j = i_b
    def i_bal(self, o, s): self.set('$31', self.pc + 8); self.branch(self.target_of(o, s))
    i_jal = i_bal
    def s32(self, v): return sx(v, 32)
    def i_addiu(self, o, s): self.set(o[0], self.s32(self.reg(o[1]) + self.imm(o[2])))
    def i_addu(self, o, s): self.set(o[0], self.s32(self.reg(o[1]) + self.reg(o[2])))
    def i_daddiu(self, o, s): self.set(o[0], self.reg(o[1]) + self.imm(o[2]))
    def i_daddu(self, o, s): self.set(o[0], self.reg(o[1]) + self.reg(o[2]))
    def i_lui(self, o, s): self.set(o[0], self.s32(self.imm(o[1]) << 16))
    def i_and(self, o, s): self.set(o[0], self.reg(o[1]) & self.reg(o[2]))
    def i_or(self, o, s): self.set(o[0], self.reg(o[1]) | self.reg(o[2]))
    def i_move(self, o, s): self.set(o[0], self.reg(o[1]))
    def i_nop(self, o, s): pass
    def i_sw(self, o, s): self.mem.store(self.mask(self.mref(o[1])), 4, self.reg(o[0]))
    def i_lw(self, o, s): self.set(o[0], self.s32(self.mem.load(self.mask(self.mref(o[1])), 4)))
    def i_sd(self, o, s): self.mem.store(self.mask(self.mref(o[1])), 8, self.reg(o[0]))
    def i_ld(self, o, s): self.set(o[0], self.mem.load(self.mask(self.mref(o[1])), 8))
    i_sdc1 = i_sd
    i_ldc1 = i_ld
    def call_fn(self, fn): self.r['r25'] = fn
    def at_function(self, fn):
        if self.r['r25'] != fn: return 'register t9 does not hold the address of the called function (%#x)' % self.r['r25']
class MIPS32(MIPS):
    arch = 'mips32_o32'; target = 'mipsel-linux-gnu'; bits = 32; sret = True; align = 8; area = 16; entry_area = 16; flags = ['-fPIC']
    saved = ['r%d' % i for i in list(range(16, 24)) + [30]] + ['f%d' % i for i in range(20, 32, 2)]
    volatile = ['r%d' % i for i in list(range(1, 16)) + [24, 25, 28, 31]] + ['f%d' % i for i in range(0, 20, 2)]
    fixed = ['r26', 'r27']; args = ['r4', 'r5', 'r6', 'r7']; sretret = 'r2'
    def width(self, n): return 64 if n[0] == 'f' else 32
class MIPS32BE(MIPS32): target = 'mips-linux-gnu'; big = True
class MIPS64(MIPS):
    arch = 'mips64_n64'; target = 'mips64el-linux-gnuabi64'; flags = ['-fPIC']
    saved = ['r%d' % i for i in list(range(16, 24)) + [28, 30]] + ['f%d' % i for i in range(24, 32)]
    volatile = ['r%d' % i for i in list(range(1, 16)) + [24, 25, 31]] + ['f%d' % i for i in range(0, 24)]
    fixed = ['r26', 'r27']; args = ['r%d' % i for i in range(4, 12)]; ret = ['r2', 'r3']
    def gp_value(self): return self.sym['_gp'] if '_gp' in self.sym else self.image_gp
    def build(self, tmp):
        MIPS.build(self, tmp)
        p = subprocess.run(['llvm-readelf-18', '-A', os.path.join(tmp, 'p.elf')], capture_output=True, text=True)
        m = re.search(r'Canonical gp value:\s*(?:0x)?([0-9a-fA-F]+)', p.stdout)
        if not m: raise NotCovered('gp value')
        self.image_gp = int(m.group(1), 16)
class MIPS64BE(MIPS64): target = 'mips64-linux-gnuabi64'; big = True

class PPC(Machine):
    sp = 'r1'; ra = 'lr'
    def canon(self, n): return 'r' + n if n.isdigit() else n
    def width(self, n): return 64 if n[0] == 'f' else 32 if n == 'cr' else self.bits
    def mref(self, x):
        m = re.match(r'^(-?\w+)\((\d+)\)$', x)
        if not m: raise NotCovered(x)
        return self.mask((0 if m.group(2) == '0' else self.reg(m.group(2))) + int(m.group(1), 0))
    def base(self, x): return 0 if x == '0' else self.reg(x)
    def i_mflr(self, o, s): self.set(o[0], self.r['lr'])
    def i_mtlr(self, o, s): self.r['lr'] = self.reg(o[0])
    def i_mtctr(self, o, s): self.r['ctr'] = self.reg(o[0])
    def i_mfctr(self, o, s): self.set(o[0], self.r['ctr'])
    def i_mfcr(self, o, s): self.set(o[0], self.r['cr'])
    def i_mtcr(self, o, s): self.r['cr'] = self.reg(o[0]) & 0xffffffff
    def i_mtcrf(self, o, s):
        m = self.imm(o[0]); k = sum(0xf << (4 * i) for i in range(8) if m >> i & 1)
        self.r['cr'] = self.r['cr'] & ~k | self.reg(o[1]) & k & 0xffffffff
    def i_mffs(self, o, s): self.r['f' + o[0]] = self.r['fpscr']
    def i_mtfsf(self, o, s):
        if self.imm(o[0]) != 255: raise NotCovered('mtfsf')
        self.r['fpscr'] = self.r['f' + o[1]]
    def i_stfd(self, o, s): self.mem.store(self.mref(o[1]), 8, self.reg('f' + o[0]))
    def i_lfd(self, o, s): self.set('f' + o[0], self.mem.load(self.mref(o[1]), 8))
    def i_stw(self, o, s): self.mem.store(self.mref(o[1]), 4, self.reg(o[0]))
    def i_lwz(self, o, s): self.set(o[0], self.mem.load(self.mref(o[1]), 4))
    def i_std(self, o, s): self.mem.store(self.mref(o[1]), 8, self.reg(o[0]))
    def i_ld(self, o, s): self.set(o[0], self.mem.load(self.mref(o[1]), 8))
    def upd(self, n, o): a = self.mref(o[1]); self.mem.store(a, n, self.reg(o[0])); self.set(re.search(r'\((\d+)\)', o[1]).group(1), a)
    def i_stwu(self, o, s): self.upd(4, o)
    def i_stdu(self, o, s): self.upd(8, o)
    def i_addi(self, o, s): self.set(o[0], self.base(o[1]) + self.imm(o[2]))
    def i_addis(self, o, s): self.set(o[0], self.base(o[1]) + (sx(self.imm(o[2]), 16) << 16))
    def i_add(self, o, s): self.set(o[0], self.reg(o[1]) + self.reg(o[2]))
    def i_li(self, o, s): self.set(o[0], self.imm(o[1]))
    def i_lis(self, o, s): self.set(o[0], sx(self.imm(o[1]), 16) << 16)
    def i_mr(self, o, s): self.set(o[0], self.reg(o[1]))
    def i_rlwinm(self, o, s):
        sh, mb, me = map(self.imm, o[2:]); v = self.reg(o[1]) & 0xffffffff; v = (v << sh | v >> (32 - sh)) & 0xffffffff
        if mb > me: raise NotCovered('rlwinm')
        self.set(o[0], v & sum(1 << (31 - i) for i in range(mb, me + 1)))
    def i_rldicr(self, o, s):
        sh, me = map(self.imm, o[2:]); v = self.reg(o[1]); v = (v << sh | v >> (64 - sh)) & (1 << 64) - 1
        self.set(o[0], v & ~((1 << (63 - me)) - 1))
    def cmp(self, a, b, f=0):
        c = 8 if a < b else 4 if a > b else 2
        k = 28 - 4 * f
        self.r['cr'] = self.r['cr'] & ~(0xf << k) | c << k
    def i_cmpdi(self, o, s):
        f = 0
        if len(o) == 3: f = self.imm(o[0].replace('cr', '')); o = o[1:]
        self.cmp(sx(self.reg(o[0]), 64), self.imm(o[1]), f)
    def i_cmpwi(self, o, s):
        f = 0
        if len(o) == 3: f = self.imm(o[0].replace('cr', '')); o = o[1:]
        self.cmp(sx(self.reg(o[0]), 32), self.imm(o[1]), f)
    def bit(self, x):
        if not x.isdigit(): raise NotCovered('condition ' + x)
        return self.r['cr'] >> (31 - int(x)) & 1
    def i_bt(self, o, s):
        if self.bit(o[0]): self.next = self.target_of(o, s)
    def i_bf(self, o, s):
        if not self.bit(o[0]): self.next = self.target_of(o, s)
    def i_b(self, o, s): self.next = self.target_of(o, s)
    def i_bl(self, o, s): self.r['lr'] = self.pc + 4; self.next = self.target_of(o, s)
    def i_blr(self, o, s): self.next = self.r['lr']
    def i_bctr(self, o, s): self.next = self.r['ctr']
    def i_bctrl(self, o, s): self.r['lr'] = self.pc + 4; self.next = self.r['ctr']
    def i_nop(self, o, s): pass
FAKE = {'boost/config.hpp': '#pragma once\n#define BOOST_CONTEXT_NO_CONFIG\n#define BOOST_SYMBOL_VISIBLE\n#define BOOST_SYMBOL_EXPORT\n#define BOOST_SYMBOL_IMPORT\n#define BOOST_NOEXCEPT noexcept\n',
        'boost/cstdint.hpp': '#pragma once\n#include <stdint.h>\nnamespace boost { using ::uintptr_t; }\n', 'boost/assert.hpp': '#pragma once\n#define BOOST_ASSERT(x) ((void)0)\n#define BOOST_ASSERT_MSG(x,y) ((void)0)\n',
        'boost/detail/workaround.hpp': '#pragma once\n#define BOOST_WORKAROUND(a,b) 0\n', 'boost/predef.h': '', 'utility': '#include <cstddef>\n', 'type_traits': '', 'new': '', 'cstring': '', 'boost/predef/os.h': '',
        'boost/config/abi_prefix.hpp': '', 'boost/config/abi_suffix.hpp': '', 'boost/config/auto_link.hpp': '',
        'stdint.h': '#pragma once\ntypedef __UINTPTR_TYPE__ uintptr_t; typedef __INTPTR_TYPE__ intptr_t; typedef __UINT32_TYPE__ uint32_t; typedef __UINT64_TYPE__ uint64_t;\n', 'cstdint': '#pragma once\n#include <stdint.h>\nnamespace std { using ::uintptr_t; using ::intptr_t; }\n',
        'cstddef': '#pragma once\n#include <stddef.h>\nnamespace std { using ::size_t; }\n', 'stddef.h': '#pragma once\ntypedef __SIZE_TYPE__ size_t; typedef __PTRDIFF_TYPE__ ptrdiff_t;\n#define NULL 0\n'}
class PPC32(PPC):
    arch = 'ppc32_sysv'; target = 'powerpc-linux-gnu'; big = True; bits = 32; sret = True; byref = True; area = 8; entry_area = 8
    saved = ['r%d' % i for i in range(14, 32)] + ['f%d' % i for i in range(14, 32)] + ['cr24', 'fpscr']
    fixed = ['r2', 'r13']; volatile = ['r0'] + ['r%d' % i for i in range(3, 13)] + ['f%d' % i for i in range(0, 14)] + ['lr', 'ctr', 'crv']
    args = ['r%d' % i for i in range(3, 11)]
    def more(self, tmp):
        src = os.path.join(REPO, 'src/asm/tail_ontop_ppc32_sysv.cpp')
        if not os.path.exists(src): return []
        inc = os.path.join(tmp, 'inc')
        for k, v in FAKE.items():
            p = os.path.join(inc, k); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(v)
        out = []
        o = os.path.join(tmp, 'tail.o')
        self.cc(['-std=c++11', '-O1', '-fno-exceptions', '-fno-asynchronous-unwind-tables', '-nostdinc', '-nostdinc++', '-I', inc, '-I', os.path.join(REPO, 'include'), '-DBOOST_CONTEXT_NO_LIB', '-c', src, '-o', o], cxx=True)
        return [o]
class PPC64(PPC):
    arch = 'ppc64_sysv'; target = 'powerpc64le-linux-gnu'; redzone = 288; area = 32; entry_area = 32
    saved = ['r%d' % i for i in range(14, 32)] + ['f%d' % i for i in range(14, 32)] + ['cr24']
    fixed = ['r13']; volatile = ['r0', 'r2'] + ['r%d' % i for i in range(3, 13)] + ['f%d' % i for i in range(0, 14)] + ['lr', 'ctr', 'crv']
    args = ['r%d' % i for i in range(3, 11)]; ret = ['r3', 'r4']
    def call_fn(self, fn): self.r['r12'] = fn
    def at_function(self, fn):
        if self.r['r12'] != fn: return 'register r12 does not hold the address of the called function (%#x)' % self.r['r12']
class PPC64V1(PPC64):
    target = 'powerpc64-linux-gnu'; big = True; sret = True; area = 112; entry_area = 64; fixed = ['r2', 'r13']; volatile = [x for x in PPC64.volatile if x != 'r2']
    # functions are called through descriptors: { code, TOC, environment }
    def build(self, tmp):
        base = 0x10000; toc = 0x5550000
        syms = {}; rel = {}
        opd = 0x40000; img = bytearray(4096)
        for k in ('make', 'jump', 'ontop'):
            o = os.path.join(tmp, k + '.o')
            self.cc(['-c', os.path.join(REPO, 'src/asm/%s_%s_elf_gas.S' % (k, self.arch)), '-o', o])
            self.disasm(o, base, rel)
            p = subprocess.run(['llvm-readelf-18', '-x', '.opd', '-r', o], capture_output=True, text=True)
            if 'R_PPC64_ADDR64' not in p.stdout: raise NotCovered('no function descriptor')
            m = re.search(r'R_PPC64_ADDR64\s+(?:[0-9a-f]+\s+)?\.text\s*(?:\+\s*([0-9a-f]+))?', p.stdout)
            if not m: raise NotCovered('function descriptor')
            struct.pack_into('>QQQ', img, opd - 0x40000, base + int(m.group(1) or '0', 16), toc, 0)
            self.sym[k + '_fcontext'] = opd; opd += 24; base += 0x1000
        self.sym['_exit'] = base; self.code[base] = ('nop', [], None, 4)
        for a, s in rel.items():
            s = re.sub(r'\+.*$', '', s)
            if a not in self.code or s not in self.sym: raise NotCovered('relocation against ' + s)
            c = self.code[a]; self.code[a] = (c[0], ['%#x' % self.sym[s]], None, 4)
        # branches inside an object are printed relative to it
        for a, c in list(self.code.items()):
            if c[0] in ('b', 'bl', 'bt', 'bf') and a not in rel:
                t = int(c[1][-1], 0) + (a & ~0xfff); self.code[a] = (c[0], c[1][:-1] + ['%#x' % t], None, 4)
        self.mem.add('image', 0x40000, img)
        self.toc = toc
    def code_of(self, f): return self.mem.load(f, 8)
    def call_fn(self, fn): self.r['r2'] = self.mem.load(fn + 8, 8); self.r['r11'] = self.mem.load(fn + 16, 8)
    def at_function(self, fn):
        t = self.mem.load(fn + 8, 8)
        if self.r['r2'] != t: return 'register r2 does not hold the TOC pointer of the called function (%#x)' % self.r['r2']

class S390X(Machine):
    arch = 's390x_sysv'; target = 's390x-linux-gnu'; big = True; sp = 'r15'; ra = 'r14'; align = 8; area = 160; entry_area = 160; sret = True; byref = True
    saved = ['r%d' % i for i in range(6, 14)] + ['f%d' % i for i in range(8, 16)] + ['fpc']
    volatile = ['r%d' % i for i in list(range(0, 6)) + [14]] + ['f%d' % i for i in range(0, 8)] + ['cc']
    args = ['r%d' % i for i in range(2, 7)]
    def canon(self, n): return n.lstrip('%')
    def width(self, n): return 32 if n == 'fpc' else 2 if n == 'cc' else 64
    def mref(self, x):
        m = re.match(r'^(-?\w+)\((?:%(\w+))?\)$', x)
        if not m: raise NotCovered(x)
        return self.mask(int(m.group(1), 0) + (0 if m.group(2) in (None, 'r0') else self.reg(m.group(2))))
    def i_aghi(self, o, s): self.set(o[0], self.reg(o[0]) + self.imm(o[1]))
    def i_lay(self, o, s): self.set(o[0], self.mref(o[1]))
    i_la = i_lay
    def i_lgr(self, o, s): self.set(o[0], self.reg(o[1]))
    def i_lghi(self, o, s): self.set(o[0], self.imm(o[1]))
    def i_nill(self, o, s): self.set(o[0], self.reg(o[0]) & (~0xffff | self.imm(o[1])))
    def i_stg(self, o, s): self.mem.store(self.mref(o[1]), 8, self.reg(o[0]))
    i_std = i_stg
    def i_lg(self, o, s): self.set(o[0], self.mem.load(self.mref(o[1]), 8))
    i_ld = i_lg
    def i_ltg(self, o, s):
        v = self.mem.load(self.mref(o[1]), 8); self.set(o[0], v); v = sx(v, 64); self.r['cc'] = 0 if v == 0 else 1 if v < 0 else 2
    def i_ltgr(self, o, s): v = self.reg(o[1]); self.set(o[0], v); v = sx(v, 64); self.r['cc'] = 0 if v == 0 else 1 if v < 0 else 2
    def i_mvghi(self, o, s): self.mem.store(self.mref(o[0]), 8, self.imm(o[1]))
    def i_stfpc(self, o, s): self.mem.store(self.mref(o[0]), 4, self.r['fpc'])
    def i_lfpc(self, o, s): self.r['fpc'] = self.mem.load(self.mref(o[0]), 4)
    def rng(self, o):
        a, b = int(o[0][2:]), int(o[1][2:])
        return ['r%d' % (i % 16) for i in range(a, (b if b >= a else b + 16) + 1)]
    def i_stmg(self, o, s):
        a = self.mref(o[2])
        for x in self.rng(o): self.mem.store(a, 8, self.r[x]); a += 8
    def i_lmg(self, o, s):
        a = self.mref(o[2])
        for x in self.rng(o): self.r[x] = self.mem.load(a, 8); a += 8
    def i_larl(self, o, s): self.set(o[0], self.target_of(o, s))
    def i_br(self, o, s): self.next = self.reg(o[0])
    def i_basr(self, o, s): t = self.reg(o[1]); self.set(o[0], self.next); self.next = t
    def i_brasl(self, o, s): self.set(o[0], self.next); self.next = self.target_of(o, s)
    def i_j(self, o, s): self.next = self.target_of(o, s)
    i_jg = i_j
    def i_jne(self, o, s):
        if self.r['cc'] != 0: self.next = self.target_of(o, s)
    i_jnz = i_jne
    def i_je(self, o, s):
        if self.r['cc'] == 0: self.next = self.target_of(o, s)
    i_jz = i_je
    def i_nopr(self, o, s): pass
    i_nop = i_nopr

class SPARC(Machine):
    """Register windows: r holds the current window; older ones are in self.win until they are spilled."""
    arch = 'sparc64_sysv'; target = 'sparc64-linux-gnu'; big = True; sp = 'o6'; ra = 'o7'; bias = 2047; area = 176; entry_area = 176
    saved = ['l%d' % i for i in range(8)] + ['i%d' % i for i in range(8)]
    fixed = ['g6', 'g7']; volatile = ['g%d' % i for i in range(1, 6)] + ['o%d' % i for i in range(6)] + ['o7']
    args = ['o%d' % i for i in range(6)]; ret = ['o0', 'o1']
    def __init__(self): Machine.__init__(self); self.win = []; self.delay = None
    def canon(self, n): n = n.lstrip('%'); return {'g0': '0', 'sp': 'o6', 'fp': 'i6'}.get(n, n)
    def cur(self): return [self.r['l%d' % i] for i in range(8)] + [self.r['i%d' % i] for i in range(8)]
    def spill(self):
        # all windows but the current one go to the save areas of their frames
        sp = self.r['i6']
        for w in reversed(self.win):
            self.save_window(sp, w); sp = w[14]
        self.win = []
    def save_window(self, sp, w):
        a = self.mask(sp + 2047)
        lg, self.mem.log = self.mem.log, None
        for i, v in enumerate(w): self.mem.store(a + 8 * i, 8, v)
        self.mem.log = lg
    def push_window(self):
        self.win.append(self.cur())
        for i in range(8): self.r['i%d' % i] = self.r['o%d' % i]
        for i in range(8): self.r['l%d' % i] = self.unk(); self.r['o%d' % i] = self.unk()
    def pop_window(self):
        o = [self.r['i%d' % i] for i in range(8)]
        if self.win: w = self.win.pop()
        else:
            a = self.mask(self.r['i6'] + 2047); w = [self.mem.load(a + 8 * i, 8) for i in range(8 * 2)]
        for i in range(8): self.r['l%d' % i] = w[i]; self.r['i%d' % i] = w[8 + i]; self.r['o%d' % i] = o[i]
    def val(self, x): return self.reg(x) if x[0] == '%' else self.imm(x)
    def mref(self, x):
        m = re.match(r'^\[(%\w+)(?:\s*([+-])\s*(%?\w+))?\]$', x)
        if not m: raise NotCovered(x)
        v = self.reg(m.group(1))
        if m.group(3): k = self.val(m.group(3)); v = v + k if m.group(2) == '+' else v - k
        return self.mask(v)
    def step(self):
        d = self.delay
        Machine.step(self)
        if d is not None:
            if self.delay is not d: raise NotCovered('branch in a delay slot')
            self.pc = self.mask(d[0]); self.delay = None
    def i_save(self, o, s):
        v = self.val(o[0]) + self.val(o[1]) if o else 0
        v = self.reg(o[0]) + self.val(o[1]) if o else 0
        self.push_window()
        if o: self.set(o[2], v)
    def i_restore(self, o, s):
        v = (self.reg(o[0]) + self.val(o[1])) if o else 0
        self.pop_window()
        if o: self.set(o[2], v)
    def i_flushw(self, o, s): self.spill()
    def i_and(self, o, s): self.set(o[2], self.reg(o[0]) & self.val(o[1]))
    def i_andn(self, o, s): self.set(o[2], self.reg(o[0]) & ~self.val(o[1]))
    def i_or(self, o, s): self.set(o[2], self.reg(o[0]) | self.val(o[1]))
    def i_add(self, o, s): self.set(o[2], self.reg(o[0]) + self.val(o[1]))
    def i_sub(self, o, s): self.set(o[2], self.reg(o[0]) - self.val(o[1]))
    def i_mov(self, o, s): self.set(o[1], self.val(o[0]))
    def i_stx(self, o, s): self.mem.store(self.mref(o[1]), 8, self.reg(o[0]))
    def i_ldx(self, o, s): self.set(o[1], self.mem.load(self.mref(o[0]), 8))
    def i_rd(self, o, s):
        if o[0] != '%pc': raise NotCovered('rd ' + o[0])
        self.set(o[1], self.pc)
    def i_ret(self, o, s): self.delay = [self.reg('%i7') + 8]
    def i_retl(self, o, s): self.delay = [self.reg('%o7') + 8]
    def i_jmp(self, o, s): self.delay = [self.reg(o[0]) if o[0][0] == '%' and '+' not in o[0] else self.mref('[' + o[0] + ']')]
    def i_call(self, o, s):
        t = self.reg(o[0]) if o[0][0] == '%' else self.pc + self.imm(o[0]); self.set('%o7', self.pc); self.delay = [t]
    def i_nop(self, o, s): pass
    def put_args(self, vals, ra): Machine.put_args(self, vals, ra - 8)
    def ra_at_entry(self): return self.r['o7'] + 8

class X86(Machine):
    jump_args = 0
    def canon(self, n): return n.lstrip('%')
    def width(self, n): return {'mxcsr': 32, 'cw': 16}.get(n, self.bits)
    def adr(self, x):
        if x[0] == '@': return int(x[1:], 0)
        m = re.match(r'^%[gf]s:(\w+)$', x)
        if m: return TIB + int(m.group(1), 0)
        m = re.match(r'^(-?\w*)\(%(\w+),%(\w+)\)$', x)
        if m: return self.mask(self.reg(m.group(2)) + self.reg(m.group(3)) + int(m.group(1) or '0', 0))
        m = re.match(r'^(-?\w*)\(%(\w+)\)$', x)
        if not m: raise NotCovered(x)
        b = m.group(2)
        return self.mask((self.next if b == 'rip' else self.reg(b)) + int(m.group(1) or '0', 0))
    zf = None
    def flag(self, v): self.zf = self.mask(v) == 0; return v
    def neg(self, o, s): self.wv(o[0], self.flag(-self.rv(o[0])))
    def inc(self, o, s): self.wv(o[0], self.flag(self.rv(o[0]) + 1))
    def dec(self, o, s): self.wv(o[0], self.flag(self.rv(o[0]) - 1))
    def xchg(self, o, s): a, b = self.rv(o[0]), self.rv(o[1]); self.wv(o[0], b); self.wv(o[1], a)
    def i_je(self, o, s):
        if self.zf: self.next = self.target_of(o, s)
    i_jz = i_je
    def i_jne(self, o, s):
        if not self.zf: self.next = self.target_of(o, s)
    i_jnz = i_jne
    def i_movaps(self, o, s):
        a = [x for x in o if x[0] != '%' or ':' in x]
        if a and self.adr(a[0]) % 16: raise Violation('aligned access to the misaligned address %#x' % self.adr(a[0]))
        self.i_movups(o, s)
    i_movdqa = i_movaps
    def i_movups(self, o, s): self.wv(o[1], self.rv(o[0], 16), 16)
    i_movdqu = i_movups
    def rv(self, x, n=None):
        if x[0] == '$': return self.imm(x)
        if x[0] == '%' and ':' not in x: return self.reg(x)
        return self.mem.load(self.adr(x), n or self.W)
    def wv(self, x, v, n=None):
        if x[0] == '%' and ':' not in x: self.set(x, v)
        else: self.mem.store(self.adr(x), n or self.W, v)
    def lea(self, o, s): self.set(o[1], self.adr(o[0]))
    def mov(self, o, s): self.wv(o[1], self.rv(o[0]))
    def and_(self, o, s): self.wv(o[1], self.rv(o[1]) & self.rv(o[0]))
    def add(self, o, s): self.wv(o[1], self.rv(o[1]) + self.rv(o[0]))
    def sub(self, o, s): self.wv(o[1], self.rv(o[1]) - self.rv(o[0]))
    def xor(self, o, s): self.wv(o[1], self.rv(o[1]) ^ self.rv(o[0]))
    def push(self, o, s): self.pushv(self.rv(o[0]))
    def pushv(self, v): self.r[self.sp] = self.mask(self.r[self.sp] - self.W); self.st(self.r[self.sp], v)
    def popv(self): v = self.ld(self.r[self.sp]); self.r[self.sp] = self.mask(self.r[self.sp] + self.W); return v
    def pop(self, o, s): v = self.popv(); self.wv(o[0], v)
    def call(self, o, s):
        t = self.rv(o[0][1:]) if o[0][0] == '*' else self.target_of(o, s); self.pushv(self.next); self.next = t
    def jmp(self, o, s): self.next = self.rv(o[0][1:]) if o[0][0] == '*' else self.target_of(o, s)
    def ret_(self, o, s): self.next = self.popv(); self.r[self.sp] += self.imm(o[0]) if o else 0
    def i_stmxcsr(self, o, s): self.mem.store(self.adr(o[0]), 4, self.r['mxcsr'])
    def i_ldmxcsr(self, o, s): self.r['mxcsr'] = self.mem.load(self.adr(o[0]), 4)
    def i_fnstcw(self, o, s): self.mem.store(self.adr(o[0]), 2, self.r['cw'])
    def i_fldcw(self, o, s): self.r['cw'] = self.mem.load(self.adr(o[0]), 2)
    def i_hlt(self, o, s): raise Violation('a halt instruction was reached')
    def i_nop(self, o, s): pass
    i_endbr64 = i_nop
    i_endbr32 = i_nop
for _n, _f in dict(lea='lea', mov='mov', push='push', pop='pop', call='call', jmp='jmp', ret='ret_', add='add', sub='sub', xor='xor', neg='neg', inc='inc', dec='dec', xchg='xchg').items():
    for _s in ('', 'l', 'q'): setattr(X86, 'i_' + _n + _s, getattr(X86, _f))
for _s in ('', 'l', 'q'): setattr(X86, 'i_and' + _s, X86.and_)
class I386(X86):
    arch = 'i386_sysv'; target = 'i386-linux-gnu'; bits = 32; sp = 'esp'; align = 16; align_off = 12; sret = True; area = 20; entry_area = 12
    saved = ['ebx', 'esi', 'edi', 'ebp', 'mxcsr', 'cw']; volatile = ['eax', 'ecx', 'edx']; sretret = 'eax'
    def put_args(self, vals, ra):
        n = len(vals); sp = self.r['esp']
        # args at a 16-aligned address, then the return address
        sp = (sp - 4 * n) & ~15
        for i, v in enumerate(vals): self.mem.store(sp + 4 * i, 4, v)
        self.mem.store(sp - 4, 4, ra); self.r['esp'] = sp - 4
    def sp_after_return(self, spv): return spv + 8       # return address and the hidden pointer
    def get_args(self, n): return [self.ld(self.r['esp'] + 4 + 4 * i) for i in range(n)]
    def ra_at_entry(self): return self.ld(self.r['esp'])
    def ret_to(self, ra, spv): self.pc = ra; self.r['esp'] = spv + (8 if self.fn_sret else 4)
    fn_sret = False
class X86_64(X86):
    arch = 'x86_64_sysv'; target = 'x86_64-linux-gnu'; sp = 'rsp'; redzone = 128; align_off = 8; area = 8; entry_area = 8
    saved = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15', 'mxcsr', 'cw']; volatile = ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']
    args = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']; ret = ['rax', 'rdx']
    def put_args(self, vals, ra):
        for n, v in zip(self.args, vals): self.r[n] = v
        self.r['rsp'] = (self.r['rsp'] & ~15) - 8; self.st(self.r['rsp'], ra)
    def sp_after_return(self, spv): return spv + 8
    def ra_at_entry(self): return self.ld(self.r['rsp'])
    def ret_to(self, ra, spv): self.pc = ra; self.r['rsp'] = spv + 8

PORTS = dict(arm64=ARM64, arm64be=ARM64BE, arm=ARM, armsoft=ARMSOFT, riscv64=RISCV, loongarch64=LOONG, mips32=MIPS32, mips32be=MIPS32BE, mips64=MIPS64, mips64be=MIPS64BE,
             ppc32=PPC32, ppc64=PPC64, ppc64v1=PPC64V1, s390x=S390X, sparc64=SPARC, i386=I386, x86_64=X86_64)

# ------------------------------------------------------------------ Darwin and Windows
TIB = 0x2f0000
class TibMem(Mem):
    """The thread information block: every known field is a register of the machine."""
    fields = {}; mach = None
    def tib(self, a, n, W):
        f = self.fields.get(a - TIB)
        if f is None or n != W: raise Violation('access to %d bytes at offset %#x of the thread information block' % (n, a - TIB))
        return f
    def load(self, a, n):
        if TIB <= a < TIB + 0x2000:
            f = self.tib(a, n, self.W)
            return TIB if f == 'self' else self.mach.r[f]
        return Mem.load(self, a, n)
    def store(self, a, n, v):
        if TIB <= a < TIB + 0x2000:
            f = self.tib(a, n, self.W)
            if f == 'self': raise Violation('write to the self pointer of the thread information block')
            self.mach.r[f] = v & ((1 << (8 * n)) - 1); return
        Mem.store(self, a, n, v)
class ObjPort:
    """The objects are decoded one by one and placed in memory; the few relocations are applied to the decoded instructions."""
    suffix = ''; prefix = ''; asm = 'clang'; fields = None; ext = []
    def source(self, k, tmp):
        return os.path.join(REPO, 'src/asm/%s_%s' % (k, self.suffix))
    def assemble(self, k, tmp):
        o = os.path.join(tmp, k + '.o'); self.cc(['-x', 'assembler-with-cpp', '-c', self.source(k, tmp), '-o', o]); return o
    def build(self, tmp):
        if self.fields is not None:
            m = TibMem(self.big); m.reg = self.mem.reg; m.fields = self.fields; m.mach = self; m.W = self.W; self.mem = m
        base = 0x10000; ex = 0x1f000
        for k in ('make', 'jump', 'ontop'):
            o = self.assemble(k, tmp)
            self.load_obj(o, base, ex)
            if k + '_fcontext' not in self.sym: raise Violation('%s_fcontext is no symbol of the object' % k)
            base += 0x1000
        self.sym['_exit'] = ex; self.code[ex] = ('nop', [], None, 4)
        self.mem.add('image', 0x10000, bytes(0x10000))
        self.setup()
    def setup(self): pass
    def load_obj(self, o, base, ex):
        loc = {}
        p = subprocess.run(['llvm-nm-18', o], capture_output=True, text=True)
        for l in p.stdout.splitlines():
            w = l.split()
            if len(w) != 3: continue
            n = w[2]; n = n[len(self.prefix):] if self.prefix and n.startswith(self.prefix) else n
            loc[w[2]] = base + int(w[0], 16)
            if w[1] == 'T': self.sym[n] = base + int(w[0], 16)
        p = subprocess.run(['llvm-objdump-18', '-d', '-r', '--no-show-raw-insn'] + self.odflags + [o], capture_output=True, text=True)
        last = None
        def close(a):
            if last is not None and last in self.code: self.code[last] = self.code[last][:3] + (a - last,)
        for l in p.stdout.splitlines():
            m = re.match(r'^\s*([0-9a-f]+):\s+(?:((?:IMAGE_REL|ARM64_RELOC|X86_64_RELOC|GENERIC_RELOC|ARM_RELOC|R_)\S*)\s+(\S+)|(\S.*))$', l)
            if not m: continue
            a = base + int(m.group(1), 16)
            if m.group(2):
                i = max(x for x in self.code if x <= a); c = self.code[i]; t = m.group(3)
                if 'DIFF' in m.group(2): continue
                if t == self.prefix + '_exit': self.code[i] = (c[0], c[1][:-1] + ['%#x' % ex], None, c[3]); continue
                if t not in loc: raise NotCovered('relocation against ' + t)
                ops = list(c[1]); t = loc[t]
                if c[0].startswith('lea'): ops[0] = '@%#x' % t
                elif c[0].startswith('mov') and ops[0].startswith('$'): ops[0] = '$%#x' % (t + int(ops[0][1:], 0))
                else: ops[-1] = '%#x' % t
                self.code[i] = (c[0], ops, None, c[3]); continue
            t = re.sub(r'\s*(//|@|;|## |# ).*$', '', m.group(4)).strip()
            close(a)
            if t.startswith('<unknown>'): last = None; continue
            w = t.split(None, 1); ops = w[1] if len(w) > 1 else ''
            sy = re.search(r'\s*<([^>]*)>$', ops)
            if sy: ops = ops[:sy.start()]
            ops = self.split(ops)
            if sy and 'rip' not in ops[0] and not (w[0] == 'adr' and ops[-1].startswith('#')): ops[-1] = '%#x' % (base + int(ops[-1].lstrip('#'), 0))
            self.code[a] = (w[0], ops, None, 4); last = a
class MacARM64(ObjPort, ARM64): target = 'arm64-apple-macos11'; suffix = 'arm64_aapcs_macho_gas.S'; prefix = '_'; redzone = 128
class MacARM(ObjPort, ARM):
    target = 'armv7-apple-ios'; suffix = 'arm_aapcs_macho_gas.S'; prefix = '_'; align = 4
    fields = {72: 'tls_sjlj'}       # the thread's chain of exception handlers
    saved = [x for x in ARM.saved if x != 'r9'] + ['tls_sjlj']; volatile = ARM.volatile + ['r9']; flags = ['-marm']; odflags = ['--triple=armv7-apple-ios']
    def i_mrc(self, o, s):
        if [x.replace('#0x', '#') for x in o[:2] + o[3:]] != ['p15', '#0', 'c13', 'c0', '#3']: raise NotCovered('mrc ' + ', '.join(o))
        self.set(o[2], TIB | 1)     # the low bits hold the number of the processor
    def new_context(self, w, c, k):
        if self.r['tls_sjlj'] != 0: raise Violation('the chain of exception handlers of a new context starts at %#x instead of being empty' % self.r['tls_sjlj'])
class MacX64(ObjPort, X86_64): target = 'x86_64-apple-macos10.9'; suffix = 'x86_64_sysv_macho_gas.S'; prefix = '_'
class MacI386(ObjPort, I386): target = 'i386-apple-macos10.9'; suffix = 'i386_sysv_macho_gas.S'; prefix = '_'; sret = False; sretret = None; ret = ['eax', 'edx']; area = 16
TIB64 = {0x30: 'self', 0x08: 'tib_base', 0x10: 'tib_limit', 0x1478: 'tib_dealloc', 0x20: 'tib_fiber'}
TIB32 = {0x18: 'self', 0x04: 'tib_base', 0x08: 'tib_limit', 0xe0c: 'tib_dealloc', 0x10: 'tib_fiber', 0: 'tib_seh'}
class Windows(ObjPort):
    def new_context(self, w, c, k):
        """what the system has to find in a context that starts"""
        for f, v in (('tib_base', c['top']), ('tib_limit', c['top'] - c['size']), ('tib_dealloc', c['top'] - c['size']), ('tib_fiber', 0)):
            if f in self.r and f in self.saved and self.r[f] != v: raise Violation('%s of the thread information block is %#x instead of %#x in a new context' % (f[4:], self.r[f], v))
class WinX64(Windows, X86_64):
    target = 'x86_64-pc-windows-gnu'; suffix = 'x86_64_ms_pe_clang_gas.S'; fields = TIB64; redzone = 0; area = 40; entry_area = 40; sret = True; byref = True; sretret = 'rax'
    saved = ['rbx', 'rbp', 'rdi', 'rsi', 'r12', 'r13', 'r14', 'r15', 'mxcsr', 'cw'] + ['xmm%d' % i for i in range(6, 16)] + ['tib_base', 'tib_limit', 'tib_dealloc', 'tib_fiber']
    volatile = ['rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11'] + ['xmm%d' % i for i in range(6)]; args = ['rcx', 'rdx', 'r8', 'r9']; ret = []
    def width(self, n): return 128 if n.startswith('xmm') else X86_64.width(self, n)
    def put_args(self, vals, ra):
        for n, v in zip(self.args, vals): self.r[n] = v
        self.r['rsp'] = (self.r['rsp'] & ~15) - 40; self.st(self.r['rsp'], ra)
    home = 32
class WinX64Gas(WinX64): suffix = 'x86_64_ms_pe_gas.asm'
class Masm:
    """assembled by llvm-ml, which does not know three things of the original assembler"""
    bits_flag = '-m64'
    def assemble(self, k, tmp):
        t = open(self.source(k, tmp)).read()
        t = re.sub(r'\bBOOST_CONTEXT_EXPORT\b', '', t)
        t = re.sub(r'(?im)^\s*assume\b.*$', '', t); t = re.sub(r'(?im)^\s*_exit\s+PROTO\b.*$', 'EXTERN _exit:PROC', t)
        for lb in re.findall(r'(?m)^(\w+):', t):        # a label of code as an operand is its address
            t = re.sub(r'(?m)^(\s*mov\s+\w+\s*,\s*)%s\b' % lb, r'\1OFFSET ' + lb, t)
        f = os.path.join(tmp, k + '.asm'); o = os.path.join(tmp, k + '.o'); open(f, 'w').write(t)
        p = subprocess.run(['llvm-ml-18', self.bits_flag, '/c', '/Fo' + o, f], capture_output=True, text=True)
        if p.returncode or not os.path.exists(o): raise Violation('the port does not assemble: ' + (p.stdout + p.stderr)[:500])
        return o
class WinX64Masm(Masm, WinX64): suffix = 'x86_64_ms_pe_masm.asm'
class WinI386(Windows, I386):
    target = 'i686-pc-windows-gnu'; suffix = 'i386_ms_pe_clang_gas.S'; prefix = '_'; fields = TIB32; sret = False; sretret = None; ret = ['eax', 'edx']; area = 16; align = 4; align_off = 0; entry_area = 12
    saved = I386.saved + ['tib_base', 'tib_limit', 'tib_dealloc', 'tib_fiber', 'tib_seh']
    HANDLER = 0x7778899
    def setup(self):
        # exception registrations that exist already: three chains which end at the same, last, handler
        self.seh = 0x2e0000; img = bytearray(4096)
        for i, (nx, h) in enumerate([(0xffffffff, self.HANDLER), (self.seh, 0x1111), (self.seh + 8, 0x2222), (self.seh, 0x3333)]): struct.pack_into('<II', img, 8 * i, nx, h)
        self.mem.add('image', self.seh, img)
    def after_scramble(self, w): self.r['tib_seh'] = self.seh + 8 * (w.n % 4)
    def new_context(self, w, c, k):
        Windows.new_context(self, w, c, k)
        a = self.r['tib_seh']
        if not (w.stk[k] <= a < c['top']): raise Violation('the exception registration of a new context is at %#x, not in its stack' % a)
        if self.mem.load(a, 4) != 0xffffffff or self.mem.load(a + 4, 4) != self.HANDLER: raise Violation('the exception registration of a new context is (%#x, %#x) instead of the last one with the handler of the system' % (self.mem.load(a, 4), self.mem.load(a + 4, 4)))
        if not (a >= self.r['esp'] + 12): raise Violation('the exception registration of a new context overlaps the frame of the entry function')
        c['seh'] = a
class WinI386Gas(WinI386): suffix = 'i386_ms_pe_gas.asm'
class WinI386Masm(Masm, WinI386): suffix = 'i386_ms_pe_masm.asm'; prefix = ''; bits_flag = '-m32'
class WinARM64(Windows, ARM64):
    target = 'aarch64-pc-windows-msvc'; suffix = 'arm64_aapcs_pe_armclang.S'; fields = TIB64; redzone = 16; saved = ARM64.saved + ['tib_base', 'tib_limit', 'tib_dealloc', 'tib_fiber']
    fixed_values = {'x18': TIB}
class Armasm:
    """translated line by line to the syntax of the GNU assembler"""
    head = ''
    def assemble(self, k, tmp):
        out = [self.head]
        for l in open(self.source(k, tmp)).read().split('\n'):
            l = l.split(';')[0].rstrip(); w = l.split()
            if not w: continue
            if w[0].upper() in ('AREA', 'ALIGN', 'IMPORT', 'ENDP', 'END'): continue
            if w[0].upper() == 'EXPORT': out.append('.globl ' + w[1])
            elif len(w) > 1 and w[1].upper() == 'PROC': out.append(w[0] + ':')
            elif not l[0].isspace() and len(w) == 1: out.append(w[0] + ':')
            elif not l[0].isspace(): raise NotCovered('line ' + l)
            else: out.append(l)
        f = os.path.join(tmp, k + '.s'); o = os.path.join(tmp, k + '.o'); open(f, 'w').write('\n'.join(out) + '\n')
        self.cc(['-c', f, '-o', o]); return o
class WinARM64Asm(Armasm, WinARM64): suffix = 'arm64_aapcs_pe_armasm.asm'
class WinARM(Armasm, Windows, ARM):
    """Thumb code: addresses of code that are jumped to have bit 0 set"""
    target = 'thumbv7-windows-msvc'; suffix = 'arm_aapcs_pe_armasm.asm'; head = '.syntax unified\n.thumb'; fields = TIB32; code_bit = 1
    saved = ARM.saved + ['tib_base', 'tib_limit', 'tib_dealloc']
    def reg(self, n): return self.mask((self.pc + 4) & ~3) if n == 'pc' else Machine.reg(self, n)
    def bx(self, v):
        if not v & 1: raise Violation('branch to %#x switches the processor to the other instruction set' % v)
        return v & ~1
    def i_mrc(self, o, s):
        if [x.replace('#0x', '#') for x in o[:2] + o[3:]] != ['p15', '#0', 'c13', 'c0', '#2']: raise NotCovered('mrc ' + ', '.join(o))
        self.set(o[2], TIB)
    def i_adr(self, o, s): self.set(o[0], ((self.pc + 4) & ~3) + self.imm(o[1]))
    def i_add(self, o, s): o = o if len(o) == 3 else [o[0]] + o; self.set(o[0], self.reg(o[1]) + self.val(o[2]))
    def i_orr(self, o, s): o = o if len(o) == 3 else [o[0]] + o; self.set(o[0], self.reg(o[1]) | self.val(o[2]))
    def i_sub(self, o, s): o = o if len(o) == 3 else [o[0]] + o; self.set(o[0], self.reg(o[1]) - self.val(o[2]))
    def i_bl(self, o, s): self.set('lr', self.next | 1); self.next = self.target_of(o, s)
    def put_args(self, vals, ra): ARM.put_args(self, vals, ra | 1)
    def ret_to(self, ra, spv): ARM.ret_to(self, self.bx(ra), spv)
for _n in 'adr add sub str ldr mov bic pop push and orr ldm stm stmdb ldmia'.split():
    _f = getattr(WinARM, 'i_' + _n, None)
    if _f: setattr(WinARM, 'i_' + _n + '_w', _f)
for _n in 'mov orr and bic add sub'.split():
    _f = getattr(WinARM, 'i_' + _n, None)
    if _f: setattr(WinARM, 'i_' + _n + 's', _f)

PORTS.update({'mac-arm64': MacARM64, 'mac-arm': MacARM, 'mac-x86_64': MacX64, 'mac-i386': MacI386, 'win-x86_64-clang': WinX64, 'win-x86_64-gas': WinX64Gas, 'win-x86_64-masm': WinX64Masm,
              'win-i386-clang': WinI386, 'win-i386-gas': WinI386Gas, 'win-i386-masm': WinI386Masm, 'win-arm64-clang': WinARM64, 'win-arm64-armasm': WinARM64Asm, 'win-arm-armasm': WinARM})

# ------------------------------------------------------------------ build variants of the x86 ports
class Elf:
    fields = None
    def build(self, tmp):
        if self.fields is not None:
            m = TibMem(self.big); m.fields = self.fields; m.mach = self; m.W = self.W; self.mem = m
        Machine.build(self, tmp); self.setup()
    def setup(self): pass
class Guard(Elf):
    """each context has its own value of the stack protector (BOOST_CONTEXT_TLS_STACK_PROTECTOR)"""
    flags = ['-DBOOST_CONTEXT_TLS_STACK_PROTECTOR']
    def before_make(self, w, rec): rec['guard'] = self.r['guard']
    def made(self, w, rec, c): c['guard'] = rec['guard']
    def new_context(self, w, c, k):
        if self.r['guard'] != c['guard']: raise Violation('the stack guard of a new context is %#x instead of %#x, its value when the context was made' % (self.r['guard'], c['guard']))
class GuardX64(Guard, X86_64): fields = {0x28: 'guard'}; saved = X86_64.saved + ['guard']
class GuardI386(Guard, I386): fields = {0x14: 'guard'}; saved = I386.saved + ['guard']
class Tsx(Elf): flags = ['-DBOOST_USE_TSX']
class TsxX64(Tsx, X86_64): saved = [x for x in X86_64.saved if x not in ('mxcsr', 'cw')]; volatile = X86_64.volatile + ['mxcsr', 'cw']
class TsxI386(Tsx, I386): saved = [x for x in I386.saved if x not in ('mxcsr', 'cw')]; volatile = I386.volatile + ['mxcsr', 'cw']
class X32(Elf, X86_64):
    """pointers of 32 bits: transfer_t is one register"""
    target = 'x86_64-linux-gnux32'; ptr = 32; ret = ['rax']
    def get_args(self, n):
        if n == 2 or n == 3: v = self.r['rdi']; return [v & 0xffffffff, v >> 32]
        return [self.r['rdi']]
    def i_sal(self, o, s): self.wv(o[1], self.flag(self.rv(o[1]) << self.imm(o[0])))
    i_shl = i_salq = i_shlq = i_sal
    def i_or(self, o, s): self.wv(o[1], self.flag(self.rv(o[1]) | self.rv(o[0])))
    i_orq = i_or
    def get_ret(self): v = self.r['rax']; return v & 0xffffffff, v >> 32
    def set_ret(self, x, d): self.r['rax'] = x | d << 32
class Cet(Elf, X86_64):
    """shadow stacks as the processor manual defines them: every return is compared, switches go through restore tokens"""
    flags = ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1']; SH = 4096
    def setup(self): self.sh = Mem(False); self.r['ssp'] = 0
    def sld(self, a):
        if a % 8: raise Violation('misaligned shadow stack address %#x' % a)
        return self.sh.load(a, 8)
    def sst(self, a, v):
        if a % 8: raise Violation('misaligned shadow stack address %#x' % a)
        self.sh.store(a, 8, v)
    def spush(self, v): self.r['ssp'] -= 8; self.sst(self.r['ssp'], v)
    def spop(self, v):
        t = self.sld(self.r['ssp'])
        if t != v: raise Violation('return to %#x, but the shadow stack has %#x' % (v, t))
        self.r['ssp'] += 8
    def i_rdsspq(self, o, s): self.set(o[0], self.r['ssp'])
    def i_rstorssp(self, o, s):
        a = self.adr(o[0]); t = self.sld(a)
        if t != (a + 8 | 1): raise Violation('no restore token at %#x of the shadow stack (%#x)' % (a, t))
        self.sst(a, self.r['ssp'] | 3); self.r['ssp'] = a
    def i_saveprevssp(self, o, s):
        t = self.sld(self.r['ssp'])
        if t & 3 != 3: raise Violation('no previous-stack token on the shadow stack')
        self.r['ssp'] += 8; p = t & ~7
        self.sst(p - 8, p | 1)
    def i_incsspq(self, o, s):
        n = self.rv(o[0]) & 0xff
        for i in range(n): self.sld(self.r['ssp']); self.r['ssp'] += 8
    def i_call(self, o, s): X86.call(self, o, s); self.spush(self.pc + self.code[self.pc][3])
    i_callq = i_call
    def i_ret(self, o, s): X86.ret_(self, o, s); self.spop(self.next)
    i_retq = i_ret
    # the shadow stacks of the contexts
    def shadow(self, w, k):
        b = 0x600000000000 + k * 0x100000
        if not any(r[1] == b for r in self.sh.reg): self.sh.add('shadow%d' % k, b, bytes(self.SH))
        for i in range(self.SH // 8): self.sst(b + 8 * i, w.fresh() & ~7)
        return b + self.SH
    def put_args(self, vals, ra):
        X86_64.put_args(self, vals, ra)
        if not self.r['ssp']: self.r['ssp'] = self.world.m.shadow(self.world, 0) - 64
        self.before = self.r['ssp']; self.spush(ra)
    def calling(self, rec): rec['ssp'] = self.before
    def before_make(self, w, rec):
        k = rec['target']; e = self.shadow(w, k); self.sst(e - 8, e | 1)
        lg, self.mem.log = self.mem.log, None; self.st(rec['top'] - 8, e); self.mem.log = lg
    def came_back(self, rec):
        if self.r['ssp'] != rec['ssp']: raise Violation('the shadow stack pointer is %#x instead of %#x after the return' % (self.r['ssp'], rec['ssp']))
    def at_function(self, fn):
        ra = self.ld(self.r['rsp']); t = self.sld(self.r['ssp'])
        return None if ra == t else 'a function starts with return address %#x, but the shadow stack has %#x' % (ra, t)
    def ret_to(self, ra, spv): X86_64.ret_to(self, ra, spv); self.spop(ra)
PORTS.update({'x86_64-guard': GuardX64, 'i386-guard': GuardI386, 'x86_64-tsx': TsxX64, 'i386-tsx': TsxI386, 'x32': X32, 'x86_64-cet': Cet})
for _k, _c in (('mac-x86_64', MacX64), ('mac-i386', MacI386)):
    for _n, _s in (('', 'combined_sysv_macho_gas.S'), ('2', 'i386_x86_64_sysv_macho_gas.S')): PORTS[_k + '-combined' + _n] = type('C' + _n, (_c,), dict(suffix=_s))
for _k, _c in (('mac-arm64', MacARM64), ('mac-arm', MacARM)): PORTS[_k + '-combined'] = type('C', (_c,), dict(suffix='combined_sysv_macho_gas.S'))

# ------------------------------------------------------------------ explorer
STK = 0x2000
def m_bit(m): return getattr(m, 'code_bit', 0)
class World:
    """The C side.  Context 0 is the caller; 1..K have their own stacks."""
    def __init__(self, port, K, tmp):
        self.m = PORTS[port](); self.K = K; self.m.build(tmp); m = self.m
        self.n = 0; m.unk = self.fresh; m.world = self; self.ptr = (1 << getattr(m, 'ptr', m.bits)) - 1
        self.port = port
        hi = 0x7f0000000000 if self.ptr >> 32 else 0x70000000
        self.stk = {}
        for k in range(K + 1):
            b = (hi >> 4) + k * 0x100000; m.mem.add('stack%d' % k, b, bytes(STK)); self.stk[k] = b
        self.magic = hi >> 8
        if port == 'ppc64v1': self.desc = 0x50000; m.mem.add('image', self.desc, bytes(65536)); self.ndesc = 0
        for x in m.saved + m.volatile + m.fixed:
            if x not in ('cr24', 'crv'): m.r[x] = 0
        if 'cr24' in m.saved: m.r['cr'] = 0
        if isinstance(m, PPC): m.r['fpscr'] = 0
        m.r[m.sp] = 0
        for x in m.fixed: m.r[x] = getattr(m, 'fixed_values', {}).get(x) or self.fresh()
        if port == 'ppc64v1': m.r['r2'] = m.toc      # one module
        self.fixed = {x: m.r[x] for x in m.fixed}
        # context: dict(state: none|fresh|susp|run, frames: [..], handle)
        self.c = [dict(state='run', frames=[dict(kind='main', sp=self.align_sp(self.stk[0] + STK - 1024), regs={})], handle=0)] + [dict(state='none', frames=[], handle=0) for _ in range(K)]
        self.cur = 0; self.trans = 0; self.exited = False
        self.fns = {}       # magic address -> ('entry', k) | ('ontop', id) | ('ret', id)
    def align_sp(self, a): return a & ~15
    def fresh(self):
        self.n += 1
        return int.from_bytes(hashlib.blake2b(self.n.to_bytes(8, 'little'), digest_size=8).digest(), 'little') & ((1 << self.m.bits) - 1)
    def new_magic(self, what):
        a = self.magic + 64 * (len(self.fns) + 1); self.fns[a] = what; return a
    def fptr(self, a):
        """what C code sees as the address of the function at a"""
        if self.port != 'ppc64v1': return a | m_bit(self.m)
        d = self.desc + 24 * (self.ndesc % 2000); self.ndesc += 1
        r = self.m.mem.find(d, 24); struct.pack_into('>QQQ', r[2], d - r[1], a, self.m.toc, 0)
        self.dmap = getattr(self, 'dmap', {}); self.dmap[a] = d
        return d
    def code(self, s):
        f = self.m.sym[s]
        return self.m.code_of(f) if self.port == 'ppc64v1' else f
    # ---- registers
    def scramble(self):
        """fresh values in all registers that the running function may change freely"""
        m = self.m
        for x in m.saved + m.volatile:
            if x in ('cr24', 'crv'): continue
            m.r[x] = sum(self.fresh() << i for i in range(0, m.width(x), m.bits)) & ((1 << m.width(x)) - 1)
        if 'cr24' in m.saved: m.r['cr'] = self.fresh() & 0xffffffff
        if isinstance(m, SPARC): m.r['i6'] = self.frame_fp
        for x in ('mxcsr', 'cw'):
            if x in m.r: m.r[x] &= 0xffff
        for x in m.fixed: m.r[x] = self.fixed[x]
        if hasattr(m, 'after_scramble'): m.after_scramble(self)
    def put_saved(self, d):
        for n, v in d.items():
            if n == 'cr24': self.m.r['cr'] = self.m.r['cr'] & ~0x00fff000 | v
            else: self.m.r[n] = v
    def saved_now(self):
        m = self.m; d = {}
        for x in m.saved:
            if x == 'cr24': d[x] = m.r['cr'] & 0x00fff000       # fields 2, 3, 4
            else: d[x] = m.r[x]
        return d
    def check_saved(self, want, where):
        now = self.saved_now()
        for x, v in want.items():
            if now[x] != v: raise Violation('register %s has the value %#x instead of %#x %s' % (x, now[x], v, where))
        for x in self.m.fixed:
            if self.m.r[x] != self.fixed[x]: raise Violation('the reserved register %s was changed %s' % (x, where))
    # ---- running
    def stack_of(self, a):
        for k, b in self.stk.items():
            if b <= a <= b + STK: return k
        return None
    def signal(self):
        m = self.m; sp = m.getsp(); k = self.stack_of(sp)
        if k is None: raise Violation('the stack pointer %#x points to no stack (a signal there would be fatal)' % sp)
        lo = sp - m.redzone - self.stk[k]
        if lo > 0:
            r = m.mem.reg[[x[0] for x in m.mem.reg].index('stack%d' % k)]
            self.n += 1
            r[2][:lo] = bytes([self.n & 0xff | 1]) * lo
    def run(self, where):
        m = self.m; n = 0
        while m.pc not in self.fns and m.pc != self.sym_exit():
            m.step(); n += 1; m.steps += 1
            if not m.delay_pending(): self.signal()
            if n > 2000: raise Violation('control does not come back ' + where)
        return m.pc
    def sym_exit(self): return self.m.sym['_exit']
    def begin_call(self, sym, vals, target_fn=None, sret=False):
        """The running function of the current context calls a library function.  Returns its frame record."""
        m = self.m; c = self.c[self.cur]; f = c['frames'][-1]
        # the frame of the calling function: 256 bytes below the place where it started
        spv = self.align_sp(f['sp'] - 256)
        if isinstance(m, SPARC):
            # its own window: it was entered with o6 == f['sp']
            m.r['o6'] = f['sp'] - 2047 if f.get('started') is None else m.r['o6']
            self.frame_fp = self.mask(f['sp'] - 2047)
            m.win = []
            self.scramble(); m.r['o6'] = self.mask(spv - 2047)
        else:
            self.scramble(); m.r[m.sp] = spv
        ra = self.new_magic(('ret', len(self.fns)))
        rec = dict(ra=ra, ctx=self.cur, spv=spv)
        if sret:
            rec['sret'] = spv + 128; vals = [rec['sret']] + vals
        if isinstance(m, SPARC): pass
        lg = m.mem.log; m.mem.log = None
        m.put_args(vals, ra); m.mem.log = lg
        m.calling(rec)
        m.call_fn(m.sym[sym])
        if isinstance(m, MIPS64) and sym == 'make_fcontext': m.r['r28'] = m.image_gp       # it is called from its own module
        rec['sp'] = m.r[m.sp]; rec['saved'] = self.saved_now()
        m.pc = self.code(sym)
        return rec
    def mask(self, v): return self.m.mask(v)
    def make(self, k, off):
        """make_fcontext for context k on its stack; the given top is off bytes below the end"""
        m = self.m; top = self.stk[k] + STK - off; size = STK - off
        # old contents of the stack are arbitrary
        r = m.mem.reg[[x[0] for x in m.mem.reg].index('stack%d' % k)]
        self.n += 1; r[2][:] = bytes([self.n & 0xff | 1]) * STK
        ea = self.new_magic(('entry', k)); fp = self.fptr(ea)
        rec = self.begin_call('make_fcontext', [top, size, fp])
        rec['target'] = k; rec['top'] = top; m.before_make(self, rec)
        m.mem.log = []; self.run('from make_fcontext')
        log, m.mem.log = m.mem.log, None
        if m.pc != rec['ra']: raise Violation('make_fcontext returned to a wrong place')
        for a, n in log:
            if not (self.stk[k] <= a and a + n <= top or self.own(a, n, rec)): raise Violation('make_fcontext wrote %d bytes at %#x, outside the given stack [%#x, %#x)' % (n, a, self.stk[k], top))
        self.check_return_sp(rec, False); m.came_back(rec)
        self.check_saved(rec['saved'], 'after make_fcontext')
        ret = (m.ret or [getattr(m, 'sretret', None) or m.args[0]])[0]
        h = m.r[ret]
        if not (self.stk[k] <= h < top): raise Violation('make_fcontext returned %#x, which is not in the stack' % h)
        self.c[k] = dict(state='fresh', frames=[], handle=h, top=top, size=size, entry=ea, fp=fp)
        m.made(self, rec, self.c[k])
    def own(self, a, n, rec):
        b = self.stk[rec['ctx']]
        return b <= a and a + n <= self.mask(rec['sp'] + self.m.bias) + self.m.area
    def check_return_sp(self, rec, sret):
        m = self.m
        want = rec['sp']
        if isinstance(m, I386): want = rec['sp'] + (8 if sret else 4)   # cdecl; the hidden pointer is removed by the callee
        elif isinstance(m, X86_64): want = rec['sp'] + 8
        if m.r[m.sp] != want: raise Violation('the stack pointer is %#x instead of %#x after the return' % (m.r[m.sp], want))
    def transfer(self, ref):
        m = self.m
        return m.ld(ref), m.ld(ref + m.W)
    def switch(self, k, ontop):
        """jump_fcontext / ontop_fcontext from the current context to context k"""
        m = self.m; a = self.cur; t = self.c[k]; data = self.fresh() & self.ptr; h = t['handle']
        vals = [h, data]; fa = fp = None
        if ontop: fa = self.new_magic(('ontop', len(self.fns))); fp = self.fptr(fa); vals.append(fp)
        rec = self.begin_call('ontop_fcontext' if ontop else 'jump_fcontext', vals, sret=m.sret)
        rec['old'] = self.c[a]['frames'][-1]
        m.mem.log = []
        self.run('from the switch')
        log, m.mem.log = m.mem.log, None
        # what was written, and where
        ok = [(self.stk[a], self.mask(rec['sp'] + m.bias) + m.area)]
        if t['state'] == 'fresh': ok.append((h, t['top']))
        else:
            tr = t['call']; ok.append((self.stk[k], self.mask(tr['sp'] + m.bias) + m.area))
            if m.sret: ok.append((tr['sret'], tr['sret'] + 2 * m.W))
        for x, n in log:
            if not any(lo <= x and x + n <= hi for lo, hi in ok): raise Violation('a switch wrote %d bytes at %#x, which belongs to neither side' % (n, x))
        self.c[a]['state'] = 'susp'; self.c[a]['call'] = rec
        self.cur = k
        self.arrive(a, k, t, data, fa, fp)
    def arrive(self, a, k, t, data, fa, fp):
        m = self.m; c = self.c[k]
        spv = self.mask(m.r[m.sp] + m.bias)
        if fa is not None:
            if m.pc != fa: raise Violation('the function to run on top was not called (control went to %s)' % self.where())
            tr = c['call']
            self.at_start(k, fp if self.port == 'ppc64v1' else fa)
            # the target's frame must not be touched from now on
            lim = self.mask(tr['sp'] + m.bias)
            if isinstance(m, X86): lim += 0
            if spv > lim + (0 if not isinstance(m, I386) else 0): raise Violation('the function on top runs with sp %#x, above the target\'s sp %#x' % (spv, lim))
            args = m.get_args(3)
            rs = None
            if m.sret: rs, args = args[0], args[1:]
            if m.byref:          # the function may write its result before it reads its argument
                for i in (0, m.W): self.poke(rs + i, self.fresh())
            f, d = self.transfer(args[0]) if m.byref else args[:2]
            if d != data: raise Violation('the function on top got the pointer %#x instead of %#x' % (d, data))
            self.learn(a, f)
            self.callee_area(spv, args[0] if m.byref else None)
            frame = dict(kind='ontop', sp=spv, ra=m.ra_at_entry(), rawsp=m.r[m.sp], regs=self.saved_now(), rs=rs, below=tr, cr=m.r.get('cr'))
            if isinstance(m, SPARC): frame['win'] = list(m.win); m.spill()
            c['frames'].append(frame); c['state'] = 'run'; c.pop('call')
            return
        if t['state'] == 'fresh':
            if m.pc != t['entry']: raise Violation('the entry function was not called (control went to %s)' % self.where())
            self.at_start(k, t['fp'] if self.port == 'ppc64v1' else t['entry'])
            if spv + m.entry_area > t['top']: raise Violation('the entry function starts with sp %#x: less than %d bytes below the top %#x' % (spv, m.entry_area, t['top']))
            if t['top'] - spv > 1024: raise Violation('the entry function starts %d bytes below the top' % (t['top'] - spv))
            args = m.get_args(2)
            f, d = self.transfer(args[0]) if m.byref else args[:2]
            if d != data: raise Violation('the entry function got the pointer %#x instead of %#x' % (d, data))
            self.learn(a, f)
            if isinstance(m, SPARC): m.spill()
            if hasattr(m, 'new_context'): m.new_context(self, t, k)
            self.callee_area(spv, args[0] if m.byref else None)
            c['frames'] = [dict(kind='entry', sp=spv, ra=m.ra_at_entry(), rawsp=m.r[m.sp], regs={}, atstart=self.saved_now())]; c['state'] = 'run'
            for x in m.fixed:
                if m.r[x] != self.fixed[x]: raise Violation('the reserved register %s was changed by the first switch' % x)
            return
        self.returned(k, a, data)
    def poke(self, a, v):
        m = self.m; lg, m.mem.log = m.mem.log, None; m.mem.store(a, m.W, v); m.mem.log = lg
    def callee_area(self, spv, arg):
        """the called function may use its home area, and its argument is its own"""
        m = self.m
        for i in range(getattr(m, 'home', 0) // m.W): self.poke(spv + m.W + i * m.W, self.fresh())
        if arg is not None:
            for i in (0, m.W): self.poke(arg + i, self.fresh())
    def returned(self, k, a, data, f=None):
        """control is back behind a call of context k; (a, data) were handed over (a: context, or None: the values given)"""
        m = self.m; c = self.c[k]; tr = c['call']
        if m.pc != tr['ra']: raise Violation('control came back to the wrong place (%s)' % self.where())
        self.check_return_sp(tr, m.sret); m.came_back(tr)
        self.check_saved(tr['saved'], 'after the switch')
        if m.sret: x, d = self.transfer(tr['sret'])
        else: x, d = m.get_ret()
        sr = getattr(m, 'sretret', None)
        if sr and m.r[sr] != tr['sret']: raise Violation('the returned address of the result is %#x instead of %#x' % (m.r[sr], tr['sret']))
        if d != data: raise Violation('the resumed side got the pointer %#x instead of %#x' % (d, data))
        if f is None: self.learn(a, x)
        elif x != f: raise Violation('the resumed side got the handle %#x instead of %#x' % (x, f))
        c['state'] = 'run'; c.pop('call')
        if isinstance(m, SPARC): m.win = []
    def at_start(self, k, fn):
        m = self.m; sp = self.mask(m.r[m.sp] + m.bias)
        if sp % m.align != m.align_off: raise Violation('sp is %#x at the start of a function: not aligned as the platform requires' % sp)
        e = m.at_function(fn)
        if e: raise Violation(e)
    def learn(self, a, f):
        """context a is suspended and is denoted by f from now on"""
        m = self.m; lo = self.stk[a]; hi = self.mask(self.c[a]['call']['sp'] + m.bias) + m.area
        if not (lo <= self.mask(f + m.bias) <= hi): raise Violation('the handle %#x of the suspended context does not point into its stack' % f)
        self.c[a]['handle'] = f
    def where(self):
        w = self.fns.get(self.m.pc)
        return '%s %s' % w if w else ('_exit' if self.m.pc == self.sym_exit() else '%#x' % self.m.pc)
    def ret(self):
        """the running function on top returns; its result goes to the call below it"""
        m = self.m; k = self.cur; c = self.c[k]; f = c['frames'][-1]
        c['frames'].pop()
        c['call'] = f['below']
        # the function hands over a transfer_t of its choice
        x, d = self.fresh() & self.ptr, self.fresh() & self.ptr
        if isinstance(m, SPARC): self.frame_fp = 0
        self.scramble()
        self.put_saved(f['regs'])
        lg = m.mem.log; m.mem.log = None
        if m.sret: m.st(f['rs'], x); m.st(f['rs'] + m.W, d)
        else: m.set_ret(x, d)
        m.mem.log = lg
        sr = getattr(m, 'sretret', None)
        if sr: m.r[sr] = f['rs']
        if isinstance(m, I386): m.fn_sret = m.sret
        if isinstance(m, SPARC): m.r['o6'] = f['rawsp']; m.win = []; m.pc = f['ra']
        else: m.ret_to(f['ra'], f['rawsp'])
        m.mem.log = []
        self.run('from the function on top')
        log, m.mem.log = m.mem.log, None
        tr = c['call']
        ok = [(self.stk[k], self.mask(tr['sp'] + m.bias) + m.area)] + ([(tr['sret'], tr['sret'] + 2 * m.W)] if m.sret else [])
        for a, n in log:
            if not any(lo <= a and a + n <= hi for lo, hi in ok): raise Violation('%d bytes were written at %#x, outside the frame of the switch' % (n, a))
        self.returned(k, None, d, x)
    def end(self):
        """the running entry function returns: the process ends with status 0"""
        m = self.m; c = self.c[self.cur]; f = c['frames'][-1]
        if isinstance(m, SPARC): self.frame_fp = 0
        self.scramble()
        self.put_saved(f['atstart'])
        if isinstance(m, I386): m.fn_sret = False
        if isinstance(m, SPARC): m.r['o6'] = f['rawsp']; m.win = []; m.pc = f['ra']
        else: m.ret_to(f['ra'], f['rawsp'])
        # whatever was below the frame of the entry function is gone
        self.run('from the entry function')
        if m.pc != self.sym_exit(): raise Violation('after the entry function returned control went to %s instead of _exit()' % self.where())
        a = m.get_args(1)[0] & 0xffffffff
        if a: raise Violation('_exit(%#x) instead of _exit(0) after the entry function returned' % a)
        sp = self.mask(m.r[m.sp] + m.bias)
        if sp % m.align != m.align_off: raise Violation('sp is %#x at the start of _exit(): not aligned as the platform requires' % sp)
        if not (self.stk[self.cur] <= sp and sp + m.entry_area <= c['top']): raise Violation('_exit() starts with sp %#x: outside the stack, or less than %d bytes below the top %#x' % (sp, m.entry_area, c['top']))
        self.exited = True
    # ---- exploration
    def snap(self):
        m = self.m
        import copy
        return (m.snap_mem(), dict(m.r), m.pc, copy.deepcopy(self.c), self.cur, self.n, dict(self.fns), self.exited, getattr(self, 'ndesc', 0), dict(getattr(self, 'dmap', {})))
    def back(self, s):
        m = self.m
        import copy
        m.back_mem(s[0]); m.r = dict(s[1]); m.pc = s[2]; self.c = copy.deepcopy(s[3]); self.cur = s[4]; self.n = s[5]; self.fns = dict(s[6]); self.exited = s[7]
        if isinstance(m, SPARC): m.win = []
        m.delay = None
        if self.port == 'ppc64v1': self.ndesc, self.dmap = s[8], dict(s[9])
    def moves(self):
        if self.exited: return []
        out = []
        run = self.c[self.cur]; top = run['frames'][-1]
        for k in range(1, self.K + 1):
            if self.c[k]['state'] == 'none' and (k == 1 or self.c[k - 1]['state'] != 'none'): out += ['M%d:%d' % (k, o) for o in (0, 8, 15, 24, 33)]
        for k in range(self.K + 1):
            if k == self.cur: continue
            if self.c[k]['state'] in ('fresh', 'susp'): out.append('J%d' % k)
            if self.c[k]['state'] == 'susp' and len(self.c[k]['frames']) < 4: out.append('O%d' % k)
        if top['kind'] == 'ontop': out.append('R')
        if top['kind'] == 'entry': out.append('E')
        return out
    def do(self, op):
        self.trans += 1
        if op[0] == 'M': k, o = op[1:].split(':'); self.make(int(k), int(o))
        elif op[0] == 'J': self.switch(int(op[1:]), False)
        elif op[0] == 'O': self.switch(int(op[1:]), True)
        elif op == 'R': self.ret()
        elif op == 'E': self.end()
    def key(self):
        return (self.cur, self.exited, tuple((c['state'], c.get('top', 0) and (c['top'] - self.stk[i]) , tuple(f['kind'] for f in c['frames'])) for i, c in enumerate(self.c)))

Machine.delay = None
def _dp(self): return self.delay is not None
Machine.delay_pending = _dp

def explore(port, K, depth, budget=1e9):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='ports-')
    res = dict(port=port, states=0, transitions=0, instructions=0, traces=0)
    path = []
    try:
        w = World(port, K, tmp)
        seen = {w.key()}
        front = [(w.snap(), [])]; res['states'] = 1
        for d in range(depth):
            nxt = []
            for s, p in front:
                if time.time() - t0 > budget: res['capped'] = True; break
                w.back(s)
                for op in w.moves():
                    w.back(s); path = p + [op]
                    w.do(op)
                    if w.key() not in seen: seen.add(w.key()); nxt.append((w.snap(), path))
            front = nxt
        res['states'] = len(seen); res['transitions'] = w.trans; res['instructions'] = w.m.steps; res['traces'] = w.trans
        res['samples'] = ['%s: %s' % (port, ' '.join(p)) for s, p in front[-1:]]
        res['code'] = len(w.m.code)
    except NotCovered as e: res['notcovered'] = str(e)
    except Violation as e: res['violation'] = dict(message='%s: %s' % (port, e), path=' '.join(path), replay=[port, '--ctx', str(K), '--replay', ' '.join(path)])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return res

def main():
    a = sys.argv[1:]; port = a[0]; K = 2; depth = 6; rp = None; budget = 1e9
    for i in range(1, len(a) - 1, 2):
        if a[i] == '--ctx': K = int(a[i + 1])
        if a[i] == '--depth': depth = int(a[i + 1])
        if a[i] == '--budget': budget = float(a[i + 1])
        if a[i] == '--replay': rp = a[i + 1].split()
    if rp is not None:
        tmp = tempfile.mkdtemp(prefix='ports-')
        try:
            w = World(port, K, tmp)
            for op in rp: print(op); w.do(op)
            print('no violation'); return 0
        except Violation as e: print('violation: %s' % e); return 1
        finally: shutil.rmtree(tmp, ignore_errors=True)
    r = explore(port, K, depth, budget)
    print(json.dumps(r))
    return 1 if 'violation' in r else 0
if __name__ == '__main__': sys.exit(main())
