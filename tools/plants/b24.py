ID="c24-archive-scope"; PROPERTY="C24"
NEEDS="a relative two-part name that exists both inside the archive and, through a namespace of the archive's name or a sibling archive, in the namespace"
BREAKS="names are looked up in the namespace before the archive they are used in"
EDITS=[("flatdata-generator/flatdata/generator/tree/resolver.py",
"                resolved = _resolve_in_parent_scope(node) or _resolve_in_parent_namespace(node)\n",
"                resolved = _resolve_in_parent_namespace(node) or _resolve_in_parent_scope(node)\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
# S.f: the resource S of the archive has no field, but B.r is a resource of another archive or of the namespace
text = """namespace n { struct S { f : u8 : 4; }
archive v { w : vector< S >; }
archive A { @explicit_reference( S.f, v ) v : vector< S >; } }"""
tree = Engine(text).tree
ref = tree.find(".n.A.v").explicit_references[0]
assert ref.destination.node.path == ".n.A.v", ref.destination.node.path
E
'''
