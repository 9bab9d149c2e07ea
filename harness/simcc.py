#!/usr/bin/env python3
"""g++ whose output asks the driver instead of the processor: every CPUID and XGETBV becomes a call to mc_cpuid / mc_xgetbv."""
import re, subprocess, sys
args = sys.argv[1:]
if "-c" not in args:
    sys.exit(subprocess.call(["g++", *args]))
i = args.index("-o")
out = args[i + 1]
asm = out + ".s"
rc = subprocess.call(["g++", *args[:i], *args[i + 2:], "-mno-red-zone", "-fno-pie", "-S", "-o", asm])
if rc:
    sys.exit(rc)
text = open(asm).read()
text = re.sub(r"(?<=[\s;])cpuid[ \t]*(?=[\n;])", "call mc_cpuid", text)
text = re.sub(r"(?<=[\s;])xgetbv[ \t]*(?=[\n;])", "call mc_xgetbv", text)
text = re.sub(r"\.byte\s+0x0?f\s*,\s*0x0?1\s*,\s*0xd0\b", "call mc_xgetbv", text, flags=re.I)
open(asm, "w").write(text)
sys.exit(subprocess.call(["g++", "-c", asm, "-o", out]))
