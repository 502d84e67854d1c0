"""Reference encoder/decoder of the flatdata storage layout (independent of the code under test)."""
import struct as _struct

from .schema import Index, archive_schema, resource_schema


def encode_struct(layout, nbytes, values):
    acc = 0
    for (_, off, w, _, _, _), v in zip(layout, values):
        acc |= (v & ((1 << w) - 1)) << off
    return acc.to_bytes(nbytes, "little")


def decode_struct(layout, data):
    acc = int.from_bytes(data, "little")
    out = []
    for _, off, w, signed, _, _ in layout:
        v = (acc >> off) & ((1 << w) - 1)
        if signed and w > 1 and v >> (w - 1):
            v -= 1 << w
        out.append(v)
    return tuple(out)


def frame(payload):
    return _struct.pack("<Q", len(payload)) + payload + b"\0" * 8


def enc(ix, path, values):
    layout, bits = ix.layout(path)
    return encode_struct(layout, (bits + 7) // 8, values)


def resource_files(ix, r, value):
    """{suffix: payload}"""
    kind = r["kind"]
    if kind == "raw":
        return {"": value}
    if kind == "inst":
        return {"": enc(ix, r["types"][0], value)}
    if kind == "vector":
        return {"": b"".join(enc(ix, r["types"][0], v) for v in value)}
    if kind == "multi":
        data, index = b"", []
        for item in value:
            index.append(len(data))
            for t, v in item:
                data += bytes([t]) + enc(ix, r["types"][t], v)
        index.append(len(data))
        n = (r["width"] + 7) // 8
        return {"": data, "_index": b"".join(i.to_bytes(n, "little") for i in index)}
    raise ValueError(kind)


def archive_files(ix, path, data, prefix="", index_schema=True):
    """{relative file name: bytes} of a whole archive, the documented layout."""
    item = ix.items[path]
    name = item["name"]
    out = {prefix + name + ".archive": b"\0" * 16,
           prefix + name + ".archive.schema": archive_schema(ix, path).encode()}
    for r in item["res"]:
        v = data.get(r["name"])
        if v is None:
            continue
        if r["kind"] == "archive":
            out.update(archive_files(ix, r["types"][0], v, prefix + r["name"] + "/"))
            continue
        schema = resource_schema(ix, path, r["name"])
        for suffix, payload in resource_files(ix, r, v).items():
            out[prefix + r["name"] + suffix] = frame(payload)
            out[prefix + r["name"] + suffix + ".schema"] = (
                schema if suffix == "" else "index(%s)" % schema).encode()
    return out


def write_files(root, files):
    import os
    for name, content in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content)


def read_files(root):
    import os
    out = {}
    for base, _, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


# --------------------------------------------------------------------------------------------
# reference reader: what opening a set of files must give

def payload(content):
    """Payload of a framed resource, or None if size header and file size disagree."""
    if len(content) < 16:
        return None
    n = _struct.unpack_from("<Q", content)[0]
    return content[8:8 + n] if n + 16 == len(content) else None


class Undefined(Exception):
    """The offsets of a multivector's index do not fit its data, which the format leaves to the writer."""


def decode_resource(ix, r, data, index=None):
    """Value of one resource from its payload(s), or None if they cannot be such a resource."""
    kind = r["kind"]
    if kind == "raw":
        return data
    if kind == "multi":
        n = (r["width"] + 7) // 8
        if len(index) % n:
            return None
        mask = (1 << r["width"]) - 1
        offs = [int.from_bytes(index[i:i + n], "little") & mask for i in range(0, len(index), n)]
        out = []
        for a, b in zip(offs, offs[1:]):
            item = []
            if a > b or b > len(data):
                raise Undefined
            while a < b:
                t = data[a]
                if t >= len(r["types"]) or a + 1 + ix.size_bytes(r["types"][t]) > b:
                    raise Undefined
                size = ix.size_bytes(r["types"][t])
                item.append((t, decode_struct(ix.layout(r["types"][t])[0], data[a + 1:a + 1 + size])))
                a += 1 + size
            out.append(item)
        return out
    size = ix.size_bytes(r["types"][0])
    lay = ix.layout(r["types"][0])[0]
    if kind == "inst":
        return decode_struct(lay, data) if len(data) == size else None
    if len(data) % size:
        return None
    return [decode_struct(lay, data[i:i + size]) for i in range(0, len(data), size)]


def read_model(ix, path, files, prefix="", index_schemas=False, long_instances=False):
    """(problems, data): problems of mandatory and of optional resources as
    {(resource path, optional, "missing"|"mismatch"|"corrupt")}; data of the resources without problem,
    None for the others."""
    item = ix.items[path]
    problems, data = set(), {}

    def check(name, schema, optional):
        found = []
        got = files.get(prefix + name + ".schema")
        if got is None:
            found.append("missing")
        elif got != schema.encode():
            found.append("mismatch")
        content = files.get(prefix + name)
        body = None
        if content is None:
            found.append("missing")
        else:
            body = payload(content)
            if body is None:
                found.append("corrupt")
        for f in found:
            problems.add((prefix + name, optional, f, "schema" if got is None or f == "mismatch" else "data"))
        return body if not found else None

    check(item["name"] + ".archive", archive_schema(ix, path), False)
    for r in item["res"]:
        optional = any(d[0] == "optional" for d in r["decs"])
        name = r["name"]
        data[name] = None
        if r["kind"] == "archive":
            sub = prefix + name + "/"
            if not any(f.startswith(sub) for f in files):
                problems.add((prefix + name, optional, "missing", "data"))
                continue
            sub_problems, sub_data = read_model(ix, r["types"][0], files, sub, index_schemas, long_instances)
            if any(not p[1] for p in sub_problems):
                for p in sub_problems:
                    if not p[1]:
                        problems.add((p[0], optional, p[2], "sub"))
                    else:
                        problems.add(p)
            else:
                problems |= sub_problems
                data[name] = sub_data
            continue
        schema = resource_schema(ix, path, name)
        body = check(name, schema, optional)
        index = None
        if r["kind"] == "multi":
            if index_schemas:
                index = check(name + "_index", "index(%s)" % schema, optional)
            else:
                content = files.get(prefix + name + "_index")
                if content is None:
                    problems.add((prefix + name, optional, "missing", "data"))
                else:
                    index = payload(content)
                    if index is None:
                        problems.add((prefix + name, optional, "corrupt", "data"))
            if index is None:
                continue
        if body is None:
            continue
        if r["kind"] == "inst" and long_instances:
            body = body[:ix.size_bytes(r["types"][0])]
        value = decode_resource(ix, r, body, index)
        if value is None:
            problems.add((prefix + name, optional, "corrupt", "data"))
        else:
            data[name] = value
    return problems, data


def partial(ix, path, files):
    """Whether an optional resource with problems is not just absent: some of its files are there."""
    for name, optional, _, where in read_model(ix, path, files, index_schemas=True)[0]:
        if optional and (where == "sub" or any(
                f in files for n in (name, name[:-6] if name.endswith("_index") else name)
                for f in (n, n + ".schema", n + "_index", n + "_index.schema")) or any(
                    f.startswith(name + "/") for f in files)):
            return True
    return False
