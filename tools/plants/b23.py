ID="c23-self-reference"; PROPERTY="C23"
NEEDS="a resource whose elements refer to elements of the same resource, with no narrower reference from elsewhere"
BREAKS="references of a resource into itself do not limit its size"
EDITS=[("flatdata-generator/flatdata/generator/tree/builder.py",
"        if reference.field.node.type.width == 64:\n            continue\n",
"        if reference.field.node.type.width == 64 or reference.destination.node is reference.parent:\n            continue\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
tree = Engine("""namespace n { struct S { next : u16 : 3; } struct T { at : u16 : 5; }
archive A { @explicit_reference( S.next, v ) v : vector< S >; @explicit_reference( T.at, v ) w : vector< T >; } }""").tree
assert tree.find(".n.A.v").max_size == 8, tree.find(".n.A.v").max_size
text = Engine(tree and """namespace n { struct S { next : u16 : 3; } archive A { @explicit_reference( S.next, v ) v : vector< S >; } }""").render("cpp")
assert "size( ) <= 8" in text
E
'''
