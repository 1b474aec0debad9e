"""Compact stand-in for jxl's Error enum, generated mechanically from /repo's error.rs (Kani builds only).

CBMC copies every field of every variant at each `?`; the ~170-variant enum makes symbolic execution
hundreds of times slower. Kept as real variants: those matched on or built with struct syntax
(OutOfBounds, struct-like variants). Every other variant becomes a constructor function / constant that
keeps the variant's identity (its index) and drops its payload."""
import os, re


def body(src):
    m = re.search(r"pub enum Error\s*\{", src)
    i = m.end()
    d, j = 1, i
    instr = False
    while d:
        c = src[j]
        if instr:
            if c == "\\":
                j += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c == "/" and src[j:j + 2] == "//":
            j = src.index("\n", j)
        elif c == "{":
            d += 1
        elif c == "}":
            d -= 1
        j += 1
    return src[i:j - 1]


def variants(src):
    b = body(src)
    b = re.sub(r'"(?:\\.|[^"\\])*"', '""', b)
    b = re.sub(r"//[^\n]*", "", b)
    b = re.sub(r'#\[error\([^\]]*\]', "", b)
    # split on top-level commas
    out, cur, d = [], "", 0
    for c in b:
        if c in "({[<":
            d += 1
        if c in ")}]>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [re.sub(r"\s+", " ", v) for v in out if v]


def split_top(s):
    out, cur, d = [], "", 0
    for c in s:
        if c in "({[<":
            d += 1
        if c in ")}]>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def needed(srcdir):
    """Variants that must stay real: matched on, or imported by name."""
    keep = {"OutOfBounds"}
    for root, _, files in os.walk(srcdir):
        for f in files:
            if not f.endswith(".rs") or f == "error.rs":
                continue
            t = open(os.path.join(root, f), errors="replace").read()
            if "Error::" not in t:
                continue
            for m in re.finditer(r"\bError::\{([^}]*)\}", t):
                keep |= set(re.findall(r"\w+", m.group(1)))
            for m in re.finditer(r"use [\w:]*\bError::(\w+)\s*;", t):
                keep.add(m.group(1))
            for m in re.finditer(r"(?:Err\(|\|\s*)?\bError::(\w+)(?:\([^()]*\))?\)?\s*(?:=>|\||if |=[^=>])", t):
                keep.add(m.group(1))
    return keep


def generate(src, keep):
    real, funcs, froms = [], [], []
    for k, v in enumerate(variants(src)):
        m = re.match(r"(\w+)\s*(\(.*\)|\{.*\})?$", v)
        name, pay = m.group(1), m.group(2)
        if pay is None and name not in keep:
            funcs.append(f"    pub const {name}: Error = Error::Other({k});")
            continue
        if pay is None or pay.startswith("{") or name in keep:
            real.append(f"    {name}{' ' + pay if pay else ''},")
            continue
        tys = []
        for t in split_top(pay[1:-1]):
            f = re.match(r"#\[from\]\s*(.*)", t)
            if f:
                t = f.group(1)
                froms.append((t, k))
            tys.append(t)
        args = ", ".join(f"a{i}: {t}" for i, t in enumerate(tys))
        forget = " ".join(f"std::mem::forget(a{i});" for i, t in enumerate(tys))
        funcs.append(f"    pub fn {name}({args}) -> Error {{ {forget} Error::Other({k}) }}")
    out = ["#[derive(Debug)]", "#[non_exhaustive]", "#[allow(dead_code)]", "pub enum Error {"] + real + ["    Other(u16),", "}"]
    out += ["#[allow(non_snake_case, non_upper_case_globals, dead_code, missing_docs)]", "impl Error {"] + funcs + ["}"]
    for t, k in froms:
        out.append(f"impl From<{t}> for Error {{ fn from(e: {t}) -> Error {{ std::mem::forget(e); Error::Other({k}) }} }}")
    out.append("impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }")
    out.append("impl std::error::Error for Error {}")
    return "\n".join(out) + "\n"


def full(src):
    m = re.search(r"#\[derive\(Error, Debug\)\]\s*#\[non_exhaustive\]\s*pub enum Error\s*\{", src)
    b = body(src)
    return "#[derive(Error, Debug)]\n#[non_exhaustive]\npub enum Error {" + b + "}\n"


if __name__ == "__main__":
    import sys
    print(generate(open(sys.argv[1]).read(), needed(os.path.dirname(sys.argv[1]))))
