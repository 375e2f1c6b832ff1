import re, subprocess


def demangle(names):
    names = sorted(names)
    try:
        out = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()
        if len(out) == len(names):
            return out
    except Exception:
        pass
    return names


def plain(n):
    """without generic arguments: <A<B> as C>::f::<D>::{closure#0} -> <A as C>::f"""
    n = re.sub(r"\[[0-9a-f]{16}\]", "", n)
    o, i = "", 0
    depth = 0
    # a leading '<' is the self type, a '<' after a name or '::' opens generics
    while i < len(n):
        c = n[i]
        if c == "<" and (o and o[-1] not in "< &(,[" or depth):
            depth += 1
        elif c == ">" and depth and n[i - 1] != "-":
            depth -= 1
            if depth == 0 and o.endswith("::"):
                o = o[:-2]
        elif not depth:
            o += c
        i += 1
    return re.sub(r"::\{closure#\d+\}.*$", "", o)


def library(names):
    """functions of cola among the executed ones, without generics"""
    s = {plain(n) for n in demangle(names)}
    return sorted(x for x in s if x.startswith("cola::") or x.startswith("<cola::") or " as cola::" in x)
