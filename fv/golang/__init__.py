"""Compiling generated Go code together with a driver, and talking to it."""
import fcntl
import os
import shutil
import subprocess

from .. import cpp, env
from ..cpp import HarnessError, run_dir

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = "github.com/heremaps/flatdata/flatdata-go"


def environ(d):
    return dict(os.environ, GOCACHE=os.path.join(d, "cache"), GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off",
                GOTOOLCHAIN="local", GO111MODULE="on", GOTELEMETRY="off", GOWORK="off", CGO_ENABLED="0")


def prepare():
    """A module with the library of the working tree, its stubbed dependency and the driver package."""
    d = os.path.join(run_dir(), "go")
    os.makedirs(d, exist_ok=True)
    done = os.path.join(d, "done")
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return d

        def put(path, text):
            os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
            with open(os.path.join(d, path), "w") as f:
                f.write(text)
        put("go.mod", "module fv\n\ngo 1.18\n\nrequire %s v0.0.0\nrequire golang.org/x/exp v0.0.0\n"
            "replace %s => ./lib\nreplace golang.org/x/exp => ./exp\n" % (LIB, LIB))
        put("lib/go.mod", "module %s\n\ngo 1.18\n\nrequire golang.org/x/exp v0.0.0\n" % LIB)
        put("exp/go.mod", "module golang.org/x/exp\n\ngo 1.18\n")
        src = os.path.join(env.REPO, "flatdata-go", "flatdata")
        os.makedirs(os.path.join(d, "lib", "flatdata"), exist_ok=True)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go") and not f.endswith("_test.go"):
                shutil.copy(os.path.join(src, f), os.path.join(d, "lib", "flatdata", f))
        for sub, f in (("exp/mmap", "mmap/mmap.go"), ("driver", "driver.go")):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            shutil.copy(os.path.join(HERE, f), os.path.join(d, sub, os.path.basename(f)))
        p = subprocess.run(["go", "build", "./driver"], cwd=d, env=environ(d), capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise HarnessError("cannot build the Go library and driver:\n%s" % (p.stderr + p.stdout)[-3000:])
        open(done, "w").close()
    return d


def compile_exe(code, main, name, timeout=300):
    """(path, None) or (None, compiler output). main imports the generated code as "fv/NAME/gen"."""
    d = prepare()
    w = os.path.join(d, name)
    os.makedirs(os.path.join(w, "gen"), exist_ok=True)
    with open(os.path.join(w, "gen", "gen.go"), "w") as f:
        f.write(code)
    with open(os.path.join(w, "main.go"), "w") as f:
        f.write(main.replace("@GEN@", "fv/%s/gen" % name))
    exe = os.path.join(w, "exe")
    p = subprocess.run(["go", "build", "-ldflags=-s -w", "-o", exe, "./" + name], cwd=d, env=environ(d), capture_output=True,
                       text=True, timeout=timeout)
    return (exe, None) if p.returncode == 0 else (None, p.stderr + p.stdout)


class Driver(cpp.Driver):
    LANGUAGE = "Go"


# --------------------------------------------------------------------------------------------
# the schema specific part of a driver

def case(n):
    """The naming convention: words joined, first letter in upper case"""
    if "_" in n:
        n = "".join(p.title() for p in n.split("_"))
    return n[0].upper() + n[1:]


def short(path):
    return case(path.rsplit(".", 1)[1])


SUFFIX = {"vector": "Vector", "multi": "Multivector", "raw": "RawData", "inst": "Instance", "archive": "Archive"}


def member(r):
    return case(r["name"]) + SUFFIX[r["kind"]]


def emit_struct(ix, path):
    n = short(path)
    return """func row%s(s *gen.%s, o *driver.Out) {
o.Raw("[[")
%s
o.Raw("],")
o.JSON(s.ToString())
o.Raw("]")
}
""" % (n, n, '\no.Raw(",")\n'.join("o.Num(s.Get%s())" % case(f["name"]) for f in ix.items[path]["fields"]))


def emit_archive(ix, path):
    n = short(path)
    out = ["func dump%s(a *gen.%sArchive, o *driver.Out) {\n" % (n, n),
           'o.Raw("{\\"optional\\":")\no.Num(a.IsOptional)\no.Raw(",\\"open\\":")\no.Num(a.IsOpen)\n',
           'o.Raw(",\\"bytes\\":")\no.Num(a.GetSizeInBytes())\no.Raw(",\\"text\\":")\n',
           "driver.Text(a.ToString, o)\no.Raw(\",\\\"res\\\":{\")\n"]
    for i, r in enumerate(ix.items[path]["res"]):
        m = "a." + member(r)
        out.append('o.Raw("%s\\"%s\\":")\n' % ("," if i else "", r["name"]))
        if r["kind"] == "archive":
            out.append("dump%s(%s, o)\n" % (short(r["types"][0]), m))
            continue
        out.append("if !%s.IsOpen { o.Raw(\"{\\\"optional\\\":\"); o.Num(%s.IsOptional); o.Raw(\",\\\"v\\\":null}\") } else {\n" % (m, m))
        out.append("v := %s\n" % m)
        out.append('o.Raw("{\\"optional\\":")\no.Num(v.IsOptional)\n')
        out.append('o.Raw(",\\"bytes\\":")\no.Num(v.GetSizeInBytes())\no.Raw(",\\"text\\":")\no.JSON(v.ToString())\n')
        out.append('o.Raw(",\\"size\\":")\no.Num(v.GetSize())\no.Raw(",\\"v\\":")\n')
        if r["kind"] == "raw":
            out.append("o.Hex(v.GetValue())\n")
        elif r["kind"] == "inst":
            out.append("row%s(v.Get(), o)\n" % short(r["types"][0]))
        elif r["kind"] == "vector":
            t = short(r["types"][0])
            out.append('o.Raw("[")\nfor i := 0; i < v.GetSize(); i++ {\nif i > 0 { o.Raw(",") }\nrow%s(v.Get(i), o)\n}\n' % t)
            out.append('o.Raw("],\\"slices\\":[")\nfor i, x := range driver.Slices(v.GetSize()) {\nif i > 0 { o.Raw(",") }\n'
                       'o.Raw("[")\nfor k, s := range v.GetSlice(x[0], x[1], x[2]) {\nif k > 0 { o.Raw(",") }\n'
                       'row%s(s, o)\n}\no.Raw("]")\n}\no.Raw("]")\n' % t)
        else:
            out.append('o.Raw("[")\nfor i := 0; i < v.GetSize(); i++ {\nif i > 0 { o.Raw(",") }\no.Raw("[")\n'
                       'for k, e := range v.Get(i) {\nif k > 0 { o.Raw(",") }\nswitch s := e.(type) {\n%s'
                       'default: panic("unexpected type")\n}\n}\no.Raw("]")\n}\no.Raw("]")\n' % "".join(
                           'case *gen.%s: o.Raw("[%d,"); row%s(s, o); o.Raw("]")\n' % (short(t), k, short(t))
                           for k, t in enumerate(r["types"])))
        out.append('o.Raw("}")\n}\n')
    out.append('o.Raw("}}")\n}\n')
    out.append("""func open%s(args []string, o *driver.Out) {
a, err := gen.Open%sArchive(driver.Storage(args[0], args[1], "%s"))
if err != nil { o.Raw("{\\"error\\":"); o.Str(err.Error()); o.Raw("}"); return }
o.Raw("{\\"data\\":")
dump%s(a, o)
a.Close()
o.Raw(",\\"closed\\":")
o.Num(a.GetSizeInBytes())
o.Raw("}")
}
""" % (n, n, path.rsplit(".", 1)[1], n))
    return "".join(out)


def emit_driver(ix):
    used = ix.of("struct") + ix.of("archive") + ix.of("const")
    out = ["package main\n\nimport (\n\"fv/driver\"\n%s \"@GEN@\"\n)\n" % ("gen" if used else "_")]
    out += [emit_struct(ix, p) for p in ix.of("struct")]
    out += [emit_archive(ix, p) for p in ix.of("archive")]
    out.append("func consts(args []string, o *driver.Out) {\no.Raw(\"{\")\n")
    for i, p in enumerate(ix.of("const")):
        out.append('o.Raw("%s\\"%s\\":")\ndriver.Const(gen.%s, o)\n' % ("," if i else "", p, short(p)))
    out.append("o.Raw(\"}\")\n}\nfunc main() {\ndriver.Run(map[string]driver.Handler{\"consts\": consts,\n")
    for p in ix.of("archive"):
        out.append("\"%s\": open%s,\n" % (p, short(p)))
    out.append("})\n}\n")
    return "".join(out)


def compile_schema(schema_text, ix, tag):
    from flatdata.generator.engine import Engine
    exe, err = compile_exe(Engine(schema_text).render("go"), emit_driver(ix), tag)
    return (Driver(exe), None) if exe else (None, err)
