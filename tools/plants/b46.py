ID="c16-set-order"; PROPERTY="C16"
NEEDS="several constants that no field uses, and processes with different hash seeds"
BREAKS="the order of constants in the schemas depends on the hash seed"
EDITS=[("flatdata-generator/flatdata/generator/tree/builder.py",
"""        for constant in constants:
            if not constant.path in constant_references:
                archive.insert(ConstantValueReference(constant.path))
""","""        for path in set(c.path for c in constants) - constant_references:
            archive.insert(ConstantValueReference(path))
""")]
FILES={"s.flatdata":"namespace n { %s archive A { r : raw_data; } }\n" % " ".join("const u8 C%d = %d;" % (i, i) for i in range(9))}
DEMO='''
for seed in 1 2 3 4 5; do
  PYTHONHASHSEED=$seed gen "$here/s.flatdata" py "$work/$seed.py" || exit 1
  cmp "$work/1.py" "$work/$seed.py" || exit 1
done
'''
