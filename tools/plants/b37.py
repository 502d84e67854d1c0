ID="c14-line-end-backslash"; PROPERTY="C14"
NEEDS="a comment in the schema that holds backslashes"
BREAKS="the generated Python module does not compile or has other schemas"
EDITS=[("flatdata-generator/flatdata/generator/generators/python.py",
r"""            return value.replace('\\', '\\\\').replace('"', r'\"')
""",
r"""            return value.replace('"', r'\"')
""")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
text = "namespace n {\\n// see C:\\\\x\\nstruct S { a : u8 : 3; }\\n archive A { v : vector< S >; } }"
module = Engine(text).render_python_module()
assert "struct S" in module.n_A.schema() or module.n_A.schema()
E
'''
