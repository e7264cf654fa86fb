#!/usr/bin/env python3
"""Collects numeric literals for the generators' dictionary.

usage: harvest.py REPO OBJDIR BASE OUT [--write-base]

Sources: tokens of REPO/src/*.[ch] and takum.h, immediates of the compiled
objects, constants in their read-only data.  Literals that are not in the
committed baseline list BASE are marked '+': the generators draw them more
often (a change-directed dictionary; it is a search heuristic only and never
decides a verdict)."""
import glob, os, re, struct, subprocess, sys

repo, objs, base, out = sys.argv[1:5]
ints, flts, exts = set(), set(), set()
M = 1 << 64

def addi(v):
    v %= M
    ints.add(v if v < M // 2 else v - M)

def strip(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    s = re.sub(r"//[^\n]*", " ", s)
    return re.sub(r'"(\\.|[^"\\])*"', " ", s)

num = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)([uUlLfF]*)(?![\w.])")
for f in sorted(glob.glob(repo + "/src/*.[ch]")) + [repo + "/takum.h"]:
    try:
        s = strip(open(f, errors="replace").read())
    except OSError:
        continue
    for m in num.finditer(s):
        t = m.group(1)
        hx = t.lower().startswith("0x")
        try:
            if (hx and re.search(r"[.pP]", t)) or (not hx and re.search(r"[.eE]", t)):
                v = float.fromhex(t) if hx else float(t)
                flts.add(v)
                if v == int(v) and abs(v) < 2**63:
                    addi(int(v))
            else:
                addi(int(t, 16) if hx else int(t, 8) if len(t) > 1 and t[0] == "0" and t.isdigit() and set(t) <= set("01234567") else int(t))
        except (ValueError, OverflowError):
            pass
for o in sorted(glob.glob(objs + "/*.o")):
    try:
        d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", o], capture_output=True, text=True).stdout
        for m in re.finditer(r"\$(-?)0x([0-9a-f]+)", d):
            v = int(m.group(2), 16)
            addi(-v if m.group(1) else v)
            if v >= 1 << 31 and v < 1 << 32:
                addi(v - (1 << 32))
        # comparisons written as lea/sub with a displacement
        for m in re.finditer(r"lea\s+(-?)0x([0-9a-f]+)\(%r[^i]", d):
            v = int(m.group(2), 16)
            if v > 64:
                addi(-v if m.group(1) else v)
        secs = subprocess.run(["objdump", "-h", o], capture_output=True, text=True).stdout
        for sec in re.findall(r"\s(\.rodata\S*)\s", secs):
            tmp = objs + "/.sec"
            subprocess.run(["objcopy", "-O", "binary", "--only-section=" + sec, "--set-section-flags", sec + "=alloc", o, tmp], capture_output=True)
            b = open(tmp, "rb").read() if os.path.exists(tmp) else b""
            if "cst4" in sec:
                for k in range(0, len(b) - 3, 4):
                    flts.add(struct.unpack_from("<f", b, k)[0]); addi(struct.unpack_from("<i", b, k)[0])
            elif "cst8" in sec:
                for k in range(0, len(b) - 7, 8):
                    flts.add(struct.unpack_from("<d", b, k)[0]); addi(struct.unpack_from("<q", b, k)[0])
            elif "cst16" in sec:
                for k in range(0, len(b) - 15, 16):
                    m_, e_ = struct.unpack_from("<QH", b, k)
                    if m_ >> 63 and 0 < (e_ & 0x7fff) < 0x7fff:
                        x = (e_ & 0x7fff) - 16383 - 63
                        if -900 < x < 900:
                            (flts.add((-1 if e_ >> 15 else 1) * float(m_) * 2.0 ** x) if int(float(m_)) == m_
                             else exts.add(f"f {'-' if e_ >> 15 else ''}0x{m_:x}p{x}"))
            if os.path.exists(tmp):
                os.unlink(tmp)
    except OSError:
        pass
flts = {f for f in flts if f == f and abs(f) != float("inf")}
lines = sorted(f"i {v}" for v in ints) + sorted("f " + f.hex() for f in flts) + sorted(exts)
if "--write-base" in sys.argv:
    open(base, "w").write("\n".join(lines) + "\n")
known = set(open(base).read().split("\n")) if os.path.exists(base) else set(lines)
with open(out, "w") as fo:
    for l in lines:
        fo.write(("" if l in known else "+") + l + "\n")
