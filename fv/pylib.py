"""Driving the Python side of the code under test."""
import types

from . import env  # noqa: F401


class DictStorage:
    """In-memory resource storage with the interface of the library's storages."""

    def __init__(self, files, prefix=""):
        self.files, self.prefix = files, prefix

    def get(self, key, is_optional=False):
        from flatdata.lib.errors import MissingResourceError
        p = self.prefix + key
        if p in self.files:
            return memoryview(self.files[p])
        if any(f.startswith(p + "/") for f in self.files):
            return DictStorage(self.files, p + "/")
        if not is_optional:
            raise MissingResourceError(key)
        return None

    def ls(self):
        n = len(self.prefix)
        return sorted({f[n:].split("/")[0] for f in self.files if f.startswith(self.prefix)})


def load_module(text, engine=None):
    from flatdata.generator.engine import Engine
    engine = engine or Engine(text)
    code = engine.render("py")
    module = types.ModuleType("flatdata_generated")
    exec(compile(code, "<flatdata-generated>", "exec"), module.__dict__)
    return module


def cls_name(path):
    return path[1:].replace(".", "_")


def struct_type_name(path):
    return cls_name(path)


def builder_value(ix, r, value):
    """Convert reference data of one resource to what ArchiveBuilder.set takes."""
    def rec(path, v):
        return {f[0]: x for f, x in zip(ix.layout(path)[0], v)}
    kind = r["kind"]
    if kind == "raw":
        return value
    if kind == "inst":
        return rec(r["types"][0], value)
    if kind == "vector":
        return [rec(r["types"][0], v) for v in value]
    return [[{"name": struct_type_name(r["types"][t]), "attributes": rec(r["types"][t], v)} for t, v in item]
            for item in value]


def write_archive(module, ix, path, data, root, order=None):
    """Write an archive (and its sub-archives) with the generated builder; returns nothing."""
    import os
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    builder = getattr(module, cls_name(path) + "Builder")(ResourceStorage(FileResourceWriter(), root))
    res = ix.items[path]["res"]
    if order:
        res = [res[i % len(res)] for i in order] if res else []
        seen, uniq = set(), []
        for r in res + ix.items[path]["res"]:
            if r["name"] not in seen:
                seen.add(r["name"])
                uniq.append(r)
        res = uniq
    for r in res:
        v = data.get(r["name"])
        if v is None:
            continue
        if r["kind"] == "archive":
            write_archive(module, ix, r["types"][0], v, os.path.join(root, r["name"]))
        else:
            builder.set(r["name"], builder_value(ix, r, v))
    builder.finish()


def struct_value(ix, path, s):
    return tuple(getattr(s, f[0]) for f in ix.layout(path)[0])


def dump_archive(ix, path, archive):
    """Read everything back through the public views, in the shape of the reference data."""
    out = {}
    for r in ix.items[path]["res"]:
        res = getattr(archive, r["name"])
        if res is None:
            out[r["name"]] = None
            continue
        kind = r["kind"]
        if kind == "raw":
            out[r["name"]] = bytes(res[0:len(res)])
        elif kind == "inst":
            out[r["name"]] = tuple(getattr(res, f[0]) for f in ix.layout(r["types"][0])[0])
        elif kind == "vector":
            out[r["name"]] = [struct_value(ix, r["types"][0], s) for s in res]
        elif kind == "multi":
            names = [struct_type_name(t) for t in r["types"]]
            items = []
            for item in res:
                row = []
                for e in item:
                    i = names.index(type(e)._NAME)
                    row.append((i, struct_value(ix, r["types"][i], e)))
                items.append(row)
            out[r["name"]] = items
        else:
            out[r["name"]] = dump_archive(ix, r["types"][0], res)
    return out


def normalize(ix, path, data):
    """Data as the reader reports it (absent resources as None)."""
    out = {}
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        if v is not None and r["kind"] == "archive":
            v = normalize(ix, r["types"][0], v)
        elif v is not None and r["kind"] == "multi":
            # which type stands behind an index: identical names cannot occur, so keep as is
            v = [[(t, tuple(x)) for t, x in item] for item in v]
        out[r["name"]] = v
    return out
