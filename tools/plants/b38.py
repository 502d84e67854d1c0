ID="c06-tag-order"; PROPERTY="C06"
NEEDS="a multivector whose types are not listed in the order of their names"
BREAKS="Go decodes the elements of a multivector as the wrong types"
EDITS=[("flatdata-generator/flatdata/generator/generators/go.py",
"            return [_decorate_archive_type(t.node) for t in resource.referenced_structures]\n",
"            return sorted(_decorate_archive_type(t.node) for t in resource.referenced_structures)\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
text = "namespace n { struct Z { a : u8; } struct B { a : u16; } archive A { m : multivector< 8, Z, B >; } }"
lines = [l.strip() for l in Engine(text).render("go").splitlines()]
assert any(l.startswith("0: &Z{") for l in lines), [l for l in lines if "&Z{" in l]
E
'''
