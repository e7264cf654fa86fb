#!/usr/bin/env python3
"""Which public functions have compiled code that differs from the committed fingerprints.

usage: changed.py OBJDIR BASE OUT [--write-base]

A function is affected when its own code, a constant it reads, or anything it
reaches through calls differs from BASE.  The names are appended to OUT (the
generators' dictionary) as lines "c NAME".  The list only steers how much of
the search goes where; it never decides a verdict."""
import glob, hashlib, os, re, subprocess, sys

objs, base, out = sys.argv[1:4]
fn_re = re.compile(r"^<([^>]+)>:$")
ref_re = re.compile(r"^\s*R_X86_64_\w+\s+(\S+?)([+-]0x[0-9a-f]+)?$")
call_re = re.compile(r"<([^>+]+)(?:\+0x[0-9a-f]+)?>")


def sections(o):
    r = {}
    for m in re.finditer(r"^\s*\d+\s+(\.\S+)\s+([0-9a-f]+)\s+[0-9a-f]+\s+[0-9a-f]+\s+([0-9a-f]+)", subprocess.run(["objdump", "-h", o], capture_output=True, text=True).stdout, re.M):
        r[m.group(1)] = (int(m.group(3), 16), int(m.group(2), 16))
    return r


code, edges, where = {}, {}, {}
for o in sorted(glob.glob(objs + "/*.o")):
    f = os.path.basename(o)[:-2]
    raw = open(o, "rb").read()
    sec = sections(o)
    data = {}
    for l in subprocess.run(["objdump", "-t", o], capture_output=True, text=True).stdout.split("\n"):
        m = re.match(r"^[0-9a-f]+ (.{7}) (\S+)\s+[0-9a-f]+ (\S+)$", l)
        if m and "O" in m.group(1):
            data[m.group(3)] = m.group(2)
    cur = None
    for l in subprocess.run(["objdump", "-dr", "--no-show-raw-insn", "--no-addresses", o], capture_output=True, text=True).stdout.split("\n"):
        m = fn_re.match(l)
        if m:
            cur = (f, m.group(1))
            code[cur], edges[cur] = [], set()
            where.setdefault(m.group(1), []).append(cur)
            continue
        if cur is None or not l.strip():
            continue
        m = ref_re.match(l)
        if not m:
            # a call or jump inside the section
            for s in call_re.findall(l):
                if s != cur[1]:
                    edges[cur].add(s)
            code[cur].append(re.sub(r"^\s*[0-9a-f]+ (?=<)", "", l.strip()))
            continue
        s, add = m.group(1), int(m.group(2) or "0", 16)
        t = data.get(s, s)
        if t.startswith("."):
            off, size = sec.get(t, (0, 0))
            if ".cst" in t and s == t:
                n = int(re.sub(r"\D", "", t.split(".cst")[1]) or 16)
                b = raw[off + add + 4: off + add + 4 + n]
            elif t.startswith(".bss"):
                b = b"bss" + str(size).encode()
            elif t.startswith(".text"):
                b = b""
            else:
                b = raw[off:off + size]
            code[cur].append(f"{t} {hashlib.sha256(b).hexdigest()}")
        else:
            edges[cur].add(s)
            code[cur].append(f"ref {s} {add}")

lines = {}
for k, v in code.items():
    lines[k] = f"{k[0]} {k[1]} {hashlib.sha256(chr(10).join(v).encode()).hexdigest()[:16]}"
if "--write-base" in sys.argv:
    open(base, "w").write("\n".join(sorted(lines.values())) + "\n")
known = set(open(base).read().split("\n")) if os.path.exists(base) else set()
dirty = {k for k, l in lines.items() if l not in known}
back = {}
for k, es in edges.items():
    for s in es:
        for t in ([(k[0], s)] if (k[0], s) in code else where.get(s, [])):
            back.setdefault(t, set()).add(k)
todo = list(dirty)
while todo:
    for p in back.get(todo.pop(), ()):
        if p not in dirty:
            dirty.add(p)
            todo.append(p)
names = sorted({k[1] for k in dirty if k[1].startswith("takum")})
with open(out, "a") as fo:
    for n in names:
        fo.write(f"c {n}\n")
