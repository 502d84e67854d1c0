ID="c13-enum-extreme"; PROPERTY="C13"
NEEDS="an enumeration over a signed type with both the lowest value of its width and the positive value of the same magnitude"
BREAKS="an enumerator one above the maximum of the enumeration's width is accepted"
EDITS=[("flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py",
"""        for value in unique_values:
            bits_required = result.type.bits_required(value=value)
            if bits_required > result.type.width:
                raise InvalidEnumValueError(enumeration_name=result._name, value=value)
""","""        # the values with the largest magnitude need the most bits
        for value in sorted(unique_values, key=lambda v: (v < 0, abs(v)))[-1:] + sorted(unique_values, key=abs)[-1:]:
            bits_required = result.type.bits_required(value=value)
            if bits_required > result.type.width:
                raise InvalidEnumValueError(enumeration_name=result._name, value=value)
""")]
DEMO='''
exec "$py" - <<'E'
from flatdata.generator.engine import Engine
from flatdata.generator.tree.errors import FlatdataSyntaxError
def accepted(values, type, width):
    body = ", ".join("V%d = %d" % (i, v) for i, v in enumerate(values))
    try:
        Engine("namespace n { enum E : %s : %d { %s } }" % (type, width, body))
        return True
    except FlatdataSyntaxError:
        return False
for width in range(2, 7):
    low, high = -(1 << (width - 1)), (1 << (width - 1)) - 1
    for values, ok in (([low, high], 1), ([low], 1), ([high, low], 1), ([low, high + 1], 0), ([high + 1, low], 0), ([low - 1, high], 0), ([high + 1], 0)):
        assert accepted(values, "i8", width) == bool(ok), (values, width)
    for values, ok in (([0, (1 << width) - 1], 1), ([1 << width, 0], 0), ([-1, 3], 0)):
        assert accepted(values, "u8", width) == bool(ok), (values, width)
E
'''
