"""From /repo/stdlib/*.c to analysed IR, with the flags the project's Makefile uses."""
import os, re, subprocess, tempfile, shutil, glob
import llir
from absint import Anchor
REPO = os.environ.get("VERIF_REPO", "/repo")
STD = REPO + "/stdlib"

def cc():
    for c in ("clang-16", "clang-18", "clang"):
        if shutil.which(c): return c
    raise Anchor("no clang")

def makefile_units(release=True):
    mk = open(STD + "/Makefile").read()
    var = "WASM_RELEASE" if release else "WASM_DEBUG"
    m = re.search(var + r"=((?:.*\\\n)*.*)", mk)
    us = re.findall(r",(\w+)\.bc\)", m.group(1)) if m else []
    if not us: raise Anchor("Makefile lists no " + var + " units")
    return us

def tool(*names):
    for n in names:
        if shutil.which(n): return n
    raise Anchor("no " + names[0])

def build(passes=None, units=None):
    """parse the linked IR of the runtime library; returns (Module, text)"""
    d = tempfile.mkdtemp(prefix="vrt")
    try:
        outs = []
        for u in units or makefile_units():
            src = f"{STD}/{u}.c"
            if not os.path.exists(src): raise Anchor(f"{src} is gone")
            o = f"{d}/{u}.ll"
            subprocess.run([cc(), "-S", "-c", "--target=wasm32", "-emit-llvm", "-Xclang", "-fexperimental-max-bitint-width=256",
                            "-ffreestanding", "-fno-builtin", "-ftrapv", "-O0", "-Xclang", "-disable-O0-optnone", "-DNDEBUG", "-g", "-gno-column-info",
                            "-w", src, "-o", o], check=True, cwd=STD, capture_output=True)
            outs.append(o)
        allf = f"{d}/all.ll"
        subprocess.run([tool("llvm-link", "llvm-link-18"), "-S", *outs, "-o", allf], check=True, capture_output=True)
        if passes:
            t = open(allf).read()
            t = re.sub(r'"no-builtins"', "", t)
            t = re.sub(r"@(memcpy|memset|memmove|__memset|__memcpy|__memcmp)\b", r"@rt_\1", t)
            open(allf, "w").write(t)
            subprocess.run([tool("opt", "opt-18"), "-S", "-passes=" + passes, allf, "-o", f"{d}/o.ll"], check=True, capture_output=True)
            text = open(f"{d}/o.ll").read()
            text = re.sub(r"@rt_(memcpy|memset|memmove|__memset|__memcpy|__memcmp)\b", r"@\1", text)
        else: text = open(allf).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return llir.parse(text), text
IDIOM = "function(mem2reg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars,loop-idiom,loop-deletion),simplifycfg)"
