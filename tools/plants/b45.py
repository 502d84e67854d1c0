ID="c12-const-name"; PROPERTY="C12"
NEEDS="two constants of one name in different namespaces, one of them used by a field"
BREAKS="a constant that no field uses is left out of the schemas of archives, so a change of it goes unnoticed"
EDITS=[("flatdata-generator/flatdata/generator/tree/builder.py",
"    constant_references = set(c.target for c in root.iterate(ConstantReference))\n",
"    constant_references = set(c.node.name for c in root.iterate(ConstantReference))\n"),
("flatdata-generator/flatdata/generator/tree/builder.py",
"            if not constant.path in constant_references:\n",
"            if not constant.name in constant_references:\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
def schema(value):
    text = """namespace n.m { const u8 C = %d; }
namespace n { const u8 C = 3; struct S { @optional( C ) a : u8; } archive A { v : vector< S >; } }""" % value
    return Engine(text).render_python_module().n_A.schema()
assert schema(1) != schema(2), schema(1)
E
'''
