ID="c27-implicit-binding"; PROPERTY="C27"
NEEDS="a resource that is bound by two bound resources"
BREAKS="the graph shows only one of the groups the resource belongs to"
EDITS=[("flatdata-generator/flatdata/generator/tree/syntax_tree.py",
"                result.append(resource)\n        return result\n",
"                result.append(resource)\n        return result[-1:]\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
text = Engine("""namespace n { struct S { a : u8 : 3; } struct T { b : u8 : 2; }
@bound_implicitly( p : x, y ) @bound_implicitly( q : y, z ) archive A { x : vector< S >; y : vector< S >; z : vector< S >;
@explicit_reference( T.b, y ) w : vector< T >; } }""").render("dot")
edges = [l.split("->")[1] for l in text.splitlines() if "->" in l]
assert any("_A_p_" in e for e in edges) and any("_A_q_" in e for e in edges), edges
E
'''
