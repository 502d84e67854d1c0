ID="c11-underscore"; PROPERTY="C11"
NEEDS="a namespace whose name starts with an underscore"
BREAKS="types of such namespaces are missing in the normalised schema"
EDITS=[("flatdata-generator/flatdata/generator/generators/flatdata.py",
'                if namespace.name == "_builtin":\n', '                if namespace.name.startswith("_builtin"):\n')]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
text = """namespace _builtins { struct S { a : u8 : 3; } }
namespace n { archive A { v : vector< ._builtins.S >; } }"""
out = Engine(text).render("flatdata")
assert "struct S" in out, out
assert Engine(out).render("flatdata") == out
E
'''
