ID="c12-second-const-decoration"; PROPERTY="C12"
NEEDS="a field with more than one @const decoration"
BREAKS="only the first constant of a field is part of the stored schema, changing another one goes unnoticed"
EDITS=[("flatdata-generator/flatdata/generator/templates/flatdata/structure.jinja2",
"    {% for const_ref in field.const_value_refs %}\n",
"    {% for const_ref in field.const_value_refs[:1] %}\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
text = """namespace n { const u8 X = 1; const u8 Y = 2; const u8 Z = 3;
struct S { @const( X ) @const( %s ) f : u8; } archive A { v : vector< S >; } }"""
schemas = []
for name in "YZ":
    module = Engine(text % name).render_python_module()
    schemas.append((module.n_A._V_SCHEMA, module.n_S._SCHEMA))
assert "@const( .n.Y )" in schemas[0][1], schemas[0][1]
assert schemas[0][1] != schemas[1][1]
E
'''
