"""PE + PDB modules with ground truth: assembly with explicit CodeView directives, assembled by
llvm-mc and linked by lld-link. Positions of rows, inlined calls and symbols are chosen by us."""
import os
import subprocess

from .elf import Func, chain_at, file_path, row_at
from . import gen

LLVM = "/usr/lib/llvm-18/bin/"
TRIPLE = {"x64": "x86_64-pc-windows-msvc", "x86": "i686-pc-windows-msvc", "arm64": "aarch64-pc-windows-msvc"}
MACHINE = {"x64": "x64", "x86": "x86", "arm64": "arm64"}


def tool(argv, cwd=None):
    p = subprocess.run(argv, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("%s: %s" % (argv, p.stdout.decode("utf-8", "replace")[-2000:]))
    return p.stdout


def _q(s):
    return '"' + "".join(c if c not in '"\\' else "\\" + c for c in s) + '"'


class WinMod:
    """m: a gen.Mod (langs=('c',), pie, no multi-range). arch: x64/x86.
    extra_pub: [(label text, offset from text start)] global labels without debug info.
    exports: list of /export names. seh: functions (by decl index) covered by .pdata."""

    def __init__(self, m, arch="x64", extra_pub=(), paths=None, bare_pdata=(), labels=None, untyped=(), fpo=False):
        self.m, self.arch = m, arch
        self.fpo = {}                        # x86: (lo, hi) -> parameter bytes, of the functions with frame data
        if fpo and arch == "x86":
            have = set(m.fdes)
            self.fpo = {(lo, hi): 4 * (k % 7) for k, (_, _, lo, hi) in enumerate(m.decl) if (lo, hi) in have}
        self.labels = labels or {}           # decl index -> linker symbol of the function
        self.untyped = set(untyped)          # decl indices whose procedure record has no type
        self.paths = paths or (lambda cu, f: file_path(cu, f))
        self.extra_pub = list(extra_pub)
        self.text0 = m.execs[0][1]
        m.base = self.text0 - 0x1000
        self.bare_pdata = list(bare_pdata)   # (offset lo, hi) with unwind info but no symbol
        self.fname, self.aname = {}, {}
        # a PDB function is printed with its parameter list: ours have none
        for k, (fn, cu, lo, hi) in enumerate(m.decl):
            if id(fn) not in self.fname:
                self.fname[id(fn)] = fn.expect
                if k not in self.untyped:
                    fn.expect += "()"
        for cu in m.cus:
            for a in cu.abstracts:
                self.aname[id(a)] = a["expect"]
                a["expect"] += "()"
        m.path = self.paths

    def asm(self):
        m, x64 = self.m, self.arch == "x64"
        us = "_" if self.arch == "x86" else ""
        out = []
        w = out.append
        w(".text")
        w('.def @feat.00; .scl 3; .type 0; .endef\n.globl @feat.00\n.set @feat.00, 0')
        files = {}

        def fid(cu, f):
            p = self.paths(cu, f)
            if p not in files:
                files[p] = len(files) + 1
                w('.cv_file %d %s' % (files[p], _q(p)))
            return files[p]

        events = {}   # addr -> list of text, emitted before the byte at addr
        ends = {}

        def ev(a, t):
            events.setdefault(a, []).append(t)

        self.func_syms = []
        nfid = 0
        debug = []    # per function symbol subsection
        types = []    # (name) LF_FUNC_ID records
        tindex = {}

        def func_type(name):
            if name not in tindex:
                tindex[name] = 0x1002 + len(types)
                types.append(name)
            return tindex[name]

        inlinees = {}
        for k, (fn, cu, lo, hi) in enumerate(m.decl):
            sym = _q(self.labels.get(k, us + "F%d" % k))
            fid0 = nfid
            nfid += 1
            head = ['.def %s; .scl 2; .type 32; .endef' % sym, '.globl %s' % sym, '%s:' % sym]
            seh = x64 and (lo, hi) in set(m.fdes)
            if seh:
                head.append('.seh_proc %s' % sym)
            if (lo, hi) in self.fpo:
                head.append('.cv_fpo_proc %s %d\n.cv_fpo_pushreg ebp\n.cv_fpo_endprologue' % (sym, self.fpo[lo, hi]))
            head += ['.cv_func_id %d' % fid0]
            sites = {}
            body = []

            def reg(inls, parent, depth):
                nonlocal nfid
                for i in inls:
                    sid = nfid
                    nfid += 1
                    sites[id(i)] = sid
                    head.append('.cv_inline_site_id %d within %d inlined_at %d %d 0' % (sid, parent, fid(cu, i.call_file), i.call_line))
                    reg(i.children, sid, depth + 1)

            # file ids must exist before use
            for f in range(len(cu.files)):
                fid(cu, f)
            reg(fn.inlines, fid0, 0)
            for h in head:
                ev(lo, h)
            if seh:
                ev(lo, '.seh_endprologue')
            prev = None
            for a in gen.points(fn, lo, hi):
                ch = chain_at(fn, a)
                r = row_at(fn, a)
                cur = (tuple(sites[id(c)] for c in ch), r[1], r[2])
                if cur != prev:
                    ev(a, '.cv_loc %d %d %d 0' % (sites[id(ch[-1])] if ch else fid0, fid(cu, r[1]), r[2]))
                    prev = cur
            ends.setdefault(hi, []).append('.Lend%d:' % k)
            if seh:
                ends[hi].append('.seh_endproc')
            # symbols
            b = []
            if (lo, hi) in self.fpo:
                ends[hi].append('.cv_fpo_endproc')
                b.append('.cv_fpo_data %s' % sym)
            b.append('.long 241\n.long .Lss_e%d-.Lss_b%d\n.Lss_b%d:' % (k, k, k))
            tname = self.fname[id(fn)]
            b.append('.short .Lr_e%d-.Lr_b%d\n.Lr_b%d:\n.short 4423\n.long 0\n.long 0\n.long 0\n.long .Lend%d-%s\n.long 0\n.long 0\n.long %d\n.secrel32 %s\n.secidx %s\n.byte 0\n.asciz %s\n.p2align 2, 0\n.Lr_e%d:' % (
                k, k, k, k, sym, 0 if k in self.untyped else func_type(tname), sym, sym, _q(tname), k))

            def inl_syms(inls):
                for i in inls:
                    sid = sites[id(i)]
                    a = cu.abstracts[i.origin]
                    t = func_type(self.aname[id(a)])
                    f0, l0 = inlinees.setdefault(t, (fid(cu, 0), 1))
                    b.append('.short .Li_e%d-.Li_b%d\n.Li_b%d:\n.short 4429\n.long 0\n.long 0\n.long %d\n.cv_inline_linetable %d %d %d %s .Lend%d\n.p2align 2, 0\n.Li_e%d:' % (
                        sid, sid, sid, t, sid, f0, l0, sym, k, sid))
                    inl_syms(i.children)
                    b.append('.short 2\n.short 4430')

            inl_syms(fn.inlines)
            b.append('.short 2\n.short 4431\n.Lss_e%d:\n.p2align 2, 0' % k)
            b.append('.cv_linetable %d, %s, .Lend%d' % (fid0, sym, k))
            debug.append("\n".join(b))
        for k, (label, off) in enumerate(self.extra_pub):
            ev(self.text0 + off, '.def %s; .scl 2; .type 32; .endef\n.globl %s\n%s:' % (_q(label), _q(label), _q(label)))
        if x64:
            for k, (lo, hi) in enumerate(self.bare_pdata):
                ev(self.text0 + lo, '.Lbare%d:\n.seh_proc .Lbare%d\n.seh_endprologue' % (k, k))
                ends.setdefault(self.text0 + hi, []).append('.seh_endproc')
        pts = sorted(set(events) | set(ends) | {self.text0, self.text0 + m.execs[0][2]})
        fill = '.byte 0x90'
        for p, q in zip(pts, pts[1:] + [None]):
            for t in ends.get(p, []):
                w(t)
            for t in events.get(p, []):
                w(t)
            if q is not None and q > p:
                w('.fill %d, 1, 0x90' % (q - p))
        w('.section .debug$S,"dr"\n.p2align 2, 0\n.long 4')
        # inlinee lines
        if inlinees:
            w('.long 246\n.long .Linl_e-.Linl_b\n.Linl_b:\n.long 0')
            for t, (f0, l0) in inlinees.items():
                w('.long %d\n.cv_filechecksumoffset %d\n.long %d' % (t, f0, l0))
            w('.Linl_e:\n.p2align 2, 0')
        for d in debug:
            w(d)
        w('.cv_filechecksums\n.cv_stringtable')
        w('.section .debug$T,"dr"\n.p2align 2, 0\n.long 4')
        w('.short 0x6\n.short 0x1201\n.long 0')                                  # 0x1000 arglist ()
        w('.short 0xe\n.short 0x1008\n.long 3\n.byte 0\n.byte 0\n.short 0\n.long 0x1000')  # 0x1001 void ()
        for n in types:
            nb = n.encode() + b"\0"
            pad = -(2 + 8 + len(nb)) % 4
            w('.short %d\n.short 0x1601\n.long 0\n.long 0x1001\n.asciz %s' % (2 + 8 + len(nb) + pad, _q(n)))
            for x in range(pad, 0, -1):
                w('.byte %d' % (0xf0 + x))
        return "\n".join(out) + "\n"

    def build(self, d, name="mod", exports=(), link_args=(), pdb_name=None, ext="dll"):
        """Writes name.dll and name.pdb in d; returns their paths."""
        s, o = os.path.join(d, name + ".s"), os.path.join(d, name + ".obj")
        with open(s, "w") as f:
            f.write(self.asm())
        tool([LLVM + "llvm-mc", "-triple=" + TRIPLE[self.arch], "-filetype=obj", s, "-o", o])
        dll, pdb = os.path.join(d, name + "." + ext), os.path.join(d, name + ".pdb")
        argv = [LLVM + "lld-link", "/dll", "/noentry", "/debug", "/nodefaultlib", "/machine:" + MACHINE[self.arch], "/timestamp:1234567",
                "/out:" + dll, "/pdb:" + pdb, "/pdbaltpath:" + (pdb_name or (name + ".pdb")), o] + ["/export:" + e for e in exports] + list(link_args)
        if self.arch == "x86":
            argv.append("/safeseh:no")
        tool(argv, cwd=d)
        os.unlink(s)
        os.unlink(o)
        for x in (".lib", ".exp"):
            try:
                os.unlink(os.path.join(d, name + x))
            except OSError:
                pass
        return dll, pdb
