"""Faults on the files of an archive."""
from hypothesis import strategies as st
import struct


KINDS = ["delete", "truncate", "empty", "extend", "header", "schema-append", "schema-cut", "schema-char",
         "schema-swap", "resize", "delete-dir", "stub"]


@st.composite
def faults(draw, max_faults=3):
    n = draw(st.integers(0, max_faults))
    return [(draw(st.sampled_from(KINDS)), draw(st.integers(0, 200)), draw(st.integers(0, 300))) for _ in range(n)]


def apply(files, fault, resizable=lambda name: True):
    """Apply one fault to {name: bytes}; returns (new files, what was done) or (files, None) if not applicable."""
    kind, which, param = fault
    files = dict(files)
    if kind == "delete-dir":
        dirs = sorted({n.rsplit("/", 1)[0] for n in files if "/" in n})
        if not dirs:
            return files, None
        d = dirs[which % len(dirs)]
        return {n: c for n, c in files.items() if not n.startswith(d + "/")}, (kind, d)
    is_schema = kind.startswith("schema")
    names = sorted(n for n in files if (n.endswith(".schema") if is_schema else
                                        kind in ("delete",) or not n.endswith(".schema")))
    if kind in ("resize", "stub"):
        names = [n for n in names if resizable(n)]
    if not names:
        return files, None
    name = names[which % len(names)]
    content = files[name]
    if kind == "delete":
        del files[name]
        return files, (kind, name)
    if kind == "empty":
        new = b""
    elif kind == "truncate":
        new = content[:max(0, len(content) - 1 - param % max(1, len(content)))]
    elif kind == "extend":
        new = content + bytes([0] if param % 2 else [param % 256]) * (1 + param % 17)
    elif kind == "stub":
        # cut inside the size or the padding, with a size that is right when computed modulo 2^64
        n = param % 17
        new = (struct.pack("<Q", (n - 16) % 2**64) + content[8:] + b"\0" * 16)[:n]
    elif kind == "header":
        if len(content) < 8:
            return files, None
        size = struct.unpack_from("<Q", content)[0]
        size = [size + 1, size - 1, size + 8, size - 8, 0, 2**63, 2**64 - 1, size ^ (1 << (param % 64)),
                2**64 - 16, 2**64 - 8, size + 16, size + 2**32][param % 12] % 2**64
        new = struct.pack("<Q", size) + content[8:]
    elif kind == "resize":
        if len(content) < 16:
            return files, None
        body = content[8:-8]
        body = body[:max(0, len(body) - 1 - param % 9)] if param % 3 else body + bytes([param % 256]) * (1 + param % 5)
        new = struct.pack("<Q", len(body)) + body + b"\0" * 8
    elif kind == "schema-append":
        new = content + [b" ", b"\n", b"x", b"\0", b"//"][param % 5]
    elif kind == "schema-cut":
        new = content[:-1 - param % 4] if param % 2 else content[1:]
    elif kind == "schema-char":
        if not content:
            return files, None
        i = param % len(content)
        new = content[:i] + bytes([content[i] ^ (1 << (which % 5))]) + content[i + 1:]
    else:
        others = sorted(n for n in files if n.endswith(".schema") and n != name)
        if not others:
            return files, None
        new = files[others[param % len(others)]]
    if new == content:
        return files, None
    files[name] = new
    return files, (kind, name)
