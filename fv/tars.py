"""Writing tar files with full control over the packing."""
import io
import tarfile


def pack(path, files, order=None, prefix="", fmt=tarfile.GNU_FORMAT, dirs="before", extra=()):
    """dirs: 'before' | 'after' | 'interleaved'; extra: [(position, TarInfo, bytes)]"""
    names = sorted(files)
    if order:
        rank = {n: order[i % len(order)] for i, n in enumerate(names)}
        names.sort(key=lambda n: (rank[n], n))
    dirset = []
    for n in names:
        parts = n.split("/")[:-1]
        for i in range(len(parts)):
            d = "/".join(parts[:i + 1])
            if d not in dirset:
                dirset.append(d)
    members = []
    fmembers = [("f", n) for n in names]
    dmembers = [("d", d) for d in dirset]
    if dirs == "before":
        members = dmembers + fmembers
    elif dirs == "after":
        members = fmembers + dmembers
    elif dirs == "none":
        members = fmembers
    else:
        seen = set()
        for k, n in fmembers:
            for _, d in dmembers:
                if n.startswith(d + "/") and d not in seen:
                    seen.add(d)
                    members.append(("d", d))
            members.append((k, n))
    extras = {}
    for pos, info, content in extra:
        extras.setdefault(pos % (len(members) + 1), []).append((info, content))
    with tarfile.open(path, "w", format=fmt) as tar:
        if prefix == "./":
            info = tarfile.TarInfo("./")
            info.type = tarfile.DIRTYPE
            info.mode = 0o755
            tar.addfile(info)
        for i, (kind, name) in enumerate(members + [(None, None)]):
            for info, content in extras.get(i, ()):
                tar.addfile(info, io.BytesIO(content) if content is not None else None)
            if kind is None:
                break
            info = tarfile.TarInfo(prefix + name)
            if kind == "d":
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                tar.addfile(info)
            else:
                info.size = len(files[name])
                tar.addfile(info, io.BytesIO(files[name]))


# --------------------------------------------------------------------------------------------
# a writer of its own, for every way the formats allow to spell the same members

BLOCK = 512


def numeric(value, width, base256=False):
    if base256:
        b = value.to_bytes(width, "big")
        return bytes([b[0] | 0x80]) + b[1:]
    return b"%0*o\0" % (width - 1, value)


def header(name, size, kind, fmt="gnu", base256=False, prefix=b"", mode=0o644, link=b""):
    h = bytearray(BLOCK)
    h[0:len(name)] = name
    h[100:108] = numeric(mode, 8)
    h[108:116] = numeric(1000, 8)
    h[116:124] = numeric(1000, 8)
    h[124:136] = numeric(size, 12, base256)
    h[136:148] = numeric(1600000000, 12)
    h[156:157] = kind
    h[157:157 + len(link)] = link
    if fmt == "gnu":
        h[257:265] = b"ustar  \0"
    elif fmt == "ustar":
        h[257:265] = b"ustar\x0000"
        h[345:345 + len(prefix)] = prefix
    if fmt != "v7":
        h[265:269] = b"user"
        h[297:302] = b"group"
    return seal(h)


def seal(h):
    """Header with the right checksum."""
    h = bytearray(h)
    h[148:156] = b" " * 8
    h[148:156] = b"%06o\0 " % sum(h)
    return bytes(h)


def padded(content):
    return content + b"\0" * (-len(content) % BLOCK)


def member(name, content, fmt="gnu", long_form=False, base256=False, split=0):
    """Bytes of one regular file (content) or directory (content None).

    fmt: gnu | ustar | v7; long_form: store the name in a GNU long name member even if it would fit;
    split: which slash separates the ustar prefix."""
    raw = name.encode() + (b"/" if content is None else b"")
    out = b""
    prefix = b""
    if fmt == "ustar" and not long_form:
        cuts = [i for i, c in enumerate(raw[:-1]) if c == 47 and 0 < i <= 155 and len(raw) - i - 1 <= 100]
        if len(raw) > 100 and not cuts:
            fmt = "gnu"
        elif cuts and (len(raw) > 100 or split):
            c = cuts[split % len(cuts)]
            prefix, raw = raw[:c], raw[c + 1:]
    if len(raw) > 100 and fmt == "v7":
        fmt = "gnu"
    if len(raw) > 100 or long_form:
        out += header(b"././@LongLink", len(raw) + 1, b"L", "gnu", base256) + padded(raw + b"\0")
    kind = b"5" if content is None else b"\0" if fmt == "v7" else b"0"
    size = 0 if content is None else len(content)
    return out + header(raw[:100], size, kind, fmt, base256, prefix, 0o755 if content is None else 0o644) + padded(content or b"")


def build(members, trailer=2, tail=b""):
    """members: [(name, content or None, {format options})]"""
    out = b"".join(member(n, c, **kw) for n, c, kw in members)
    out += b"\0" * BLOCK * trailer
    return out + padded(tail)
