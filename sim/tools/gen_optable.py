#!/usr/bin/env python3
"""Writes plcsim/src/optable.rs: one entry per stateless exported function of the library.

Run once by hand (python3 gen_optable.py > ../plcsim/src/optable.rs); the result is committed, so that
the checks depend on the library's ABI only and not on how its sources are written.
"""
import glob
import re

ops = []  # (name, abi, [argtypes], ret)
SKIP = {"counters.rs", "timers.rs", "flanks.rs", "bistable_functionblocks.rs"}
for f in sorted(glob.glob("/repo/src/*.rs")):
    if f.split("/")[-1] in SKIP:
        continue
    s = open(f).read().split("#[cfg(test)]")[0]
    for m in re.finditer(
        r'pub\s+(?:unsafe\s+)?(extern "C"\s+)?fn\s+([A-Z]\w+)\s*\(([^)]*)\)\s*(?:->\s*([^{]+?))?\s*(?:where[^{]*)?\{', s
    ):
        args = [a.split(":")[1].strip() for a in m.group(3).split(",") if ":" in a]
        ops.append((m.group(2), "C" if m.group(1) else "Rust", args, (m.group(4) or "").strip()))
    if f.endswith("types.rs"):
        for m in re.finditer(r"define_(?:order|int|float)_type!\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+)\s*\)", s):
            if m.group(1).startswith("$"):
                continue
            t = m.group(4)
            ops.append((m.group(1), "C", ["u32", "*const " + t], t))
            ops.append((m.group(2), "C", ["u32", "*const " + t], t))
            ops.append((m.group(3), "C", [t, t, t], t))
    if f.endswith("endianness_conversion_functions.rs"):
        for m in re.finditer(r"define_endianness_for_int_types!\s*[\{\(\[](.*?)[\}\)\]]", s, re.S):
            for st, t in re.findall(r"(\w+)\s*,\s*(\w+)", m.group(1)):
                for p in ("TO_BIG_ENDIAN", "TO_LITTLE_ENDIAN", "FROM_BIG_ENDIAN", "FROM_LITTLE_ENDIAN"):
                    ops.append((f"{p}__{st}", "Rust", [t], t))

ops = [o for o in ops if o[0] != "TIME"]
seen, out = set(), []
for o in ops:
    if o[0] not in seen:
        seen.add(o[0])
        out.append(o)

SC = {"u8": "U8", "i8": "I8", "u16": "U16", "i16": "I16", "u32": "U32", "i32": "I32", "u64": "U64", "i64": "I64",
      "f32": "F32", "f64": "F64", "bool": "Bool"}


def arg_kinds(name, args):
    ks = []
    for i, a in enumerate(args):
        if a == "*const *const u8":
            ks[-1] = "Argc"
            ks.append("Argv8")
        elif a == "*const *const u16":
            ks[-1] = "Argc"
            ks.append("Argv16")
        elif a == "*mut u8":
            ks.append("Dest8")
        elif a == "*mut u16":
            ks.append("Dest16")
        elif a.startswith("&mut "):
            ks.append(f"Out({ {'8': 1}.get(a, 0) or int(a[6:]) // 8 })")
        elif a.startswith("*const ") and i == 1 and args[0] == "u32":
            ks[-1] = "Count"
            ks.append(f"Arr({int(a[8:]) // 8})")
        elif a == "*const u8":
            ks.append("Src8")
        elif a == "*const u16":
            ks.append("Src16")
        else:
            ks.append(SC[a])
    return ks


def conv_in(t, i):
    x = f"a[{i}]"
    if t.startswith("*") or t.startswith("&"):
        return f"{x} as *mut u8"
    if t == "f32":
        return f"f32::from_bits({x} as u32)"
    if t == "f64":
        return f"f64::from_bits({x})"
    if t == "bool":
        return f"{x} != 0"
    return f"{x} as {t}"


def conv_out(t, e):
    if not t:
        return "{ " + e + "; 0 }"
    if t == "f32":
        return e + ".to_bits() as u64"
    if t == "f64":
        return e + ".to_bits()"
    if t == "bool":
        # read the register as the caller would
        return e + " as u64"
    return e + " as u64"


def ext(t):
    if t.startswith("*") or t.startswith("&"):
        return "*mut u8"
    return t


print("// Generated by ../../tools/gen_optable.py from the library's exported signatures.")
print("#![allow(clashing_extern_declarations, non_snake_case)]")
print("use crate::ops::{Arg::*, Op};")
for abi in ("C", "Rust"):
    print('extern "%s" {' % ("C-unwind" if abi == "C" else "Rust"))
    for n, ab, args, r in out:
        if ab == abi:
            a = ", ".join(f"a{i}: {ext(t)}" for i, t in enumerate(args))
            print(f"    fn {n}({a})" + (f" -> {r}" if r else "") + ";")
    print("}")
print("pub static OPS: &[Op] = &[")
for n, ab, args, r in out:
    ks = ", ".join(arg_kinds(n, args))
    call = f"{n}({', '.join(conv_in(t, i) for i, t in enumerate(args))})"
    print(f'    Op {{ name: "{n}", args: &[{ks}], call: |a| unsafe {{ {conv_out(r, call)} }} }},')
print("];")
