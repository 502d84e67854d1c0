"""C01: Python bit-field access is exact at every offset, width and sign."""
from fv import gen
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

from flatdata.lib.data_access import read_value, write_value


@st.composite
def cases(draw):
    width = draw(st.one_of(st.integers(1, 64), st.sampled_from([1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 57, 63, 64])))
    signed = draw(st.booleans())
    offset = draw(st.integers(0, 80))
    nbytes = (offset + width + 7) // 8
    tail = draw(st.integers(0, 9))   # storage always has padding behind the last field, or none at all
    buf = draw(st.one_of(st.binary(min_size=nbytes + tail, max_size=nbytes + tail),
                         st.sampled_from([0, 255, 0xAA, 0x55]).map(lambda b: bytes([b]) * (nbytes + tail))))
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    return {"buf": buf, "offset": offset, "width": width, "signed": signed, "value": draw(gen.boundary_int(lo, hi))}


def model_read(buf, offset, width, signed):
    v = (int.from_bytes(buf, "little") >> offset) & ((1 << width) - 1)
    if signed and v >> (width - 1):
        v -= 1 << width
    return v


def check_read(case, rec):
    buf, o, w, s = case["buf"], case["offset"], case["width"], case["signed"]
    rec.label("unaligned" if o % 8 else "aligned")
    rec.label("crosses-byte" if (o % 8) + w > 8 else "within-byte")
    # a one-bit field carries a flag: signed or not it reads 0 or 1 in every implementation
    expected = model_read(buf, o, w, s and w > 1)
    if w == 1 and s:
        # one-bit signed: the language backends disagree on -1 vs 1, so only zero/non-zero is claimed
        rec.label("one-bit-signed")
        got = read_value(memoryview(buf), o, w, s)
        require((got != 0) == (expected != 0), "read %d-bit signed at bit %d of %s: %r", w, o, buf.hex(), got)
        return
    for view in (buf, memoryview(buf), bytearray(buf)):
        got = read_value(view, o, w, s)
        require(got == expected, "read width=%d offset=%d signed=%s buffer=%s: got %r, stored bits are %r",
                w, o, s, buf.hex(), got, expected)
    rec.nontrivial(expected != 0)


def check_write(case, rec):
    before, o, w, s, v = case["buf"], case["offset"], case["width"], case["signed"], case["value"]
    if w == 1 and s:
        rec.label("one-bit-signed-write-skipped")
        return
    data = bytearray(before)
    write_value(data, o, w, s, v)
    mask = ((1 << w) - 1) << o
    expected = (int.from_bytes(before, "little") & ~mask) | ((v << o) & mask)
    got = int.from_bytes(data, "little")
    require(len(data) == len(before), "write changed the buffer length")
    require(got & mask == expected & mask,
            "write %r width=%d offset=%d signed=%s into %s stored %s: field bits are wrong", v, w, o, s,
            before.hex(), data.hex())
    require(got & ~mask == expected & ~mask,
            "write %r width=%d offset=%d signed=%s changed bits outside the field: %s -> %s", v, w, o, s,
            before.hex(), data.hex())
    back = read_value(data, o, w, s)
    require(back == v, "write %r width=%d offset=%d signed=%s reads back %r", v, w, o, s, back)
    rec.label("dirty" if any(before) else "zeroed")
    rec.nontrivial(v != 0 and any(before))


@st.composite
def histories(draw):
    """Several disjoint fields in one buffer, written in any order, some repeatedly."""
    n = draw(st.integers(1, 6))
    fields, off = [], draw(st.integers(0, 20))
    for _ in range(n):
        w = draw(st.integers(1, 64))
        fields.append((off, w, draw(st.booleans()) and w > 1))
        off += w + draw(st.sampled_from([0, 0, 0, 1, 3, 8]))
    size = (off + 7) // 8 + draw(st.sampled_from([0, 0, 8]))
    steps = []
    for _ in range(draw(st.integers(1, 10))):
        i = draw(st.integers(0, n - 1))
        o, w, s = fields[i]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        steps.append((i, draw(gen.boundary_int(lo, hi))))
    return {"fields": fields, "size": size, "steps": steps,
            "init": draw(st.sampled_from([0, 255, 0x5A]))}


def check_history(case, rec):
    data = bytearray([case["init"]]) * case["size"]
    model = int.from_bytes(data, "little")
    for i, v in case["steps"]:
        o, w, s = case["fields"][i]
        write_value(data, o, w, s, v)
        mask = ((1 << w) - 1) << o
        model = (model & ~mask) | ((v << o) & mask)
        require(int.from_bytes(data, "little") == model,
                "after writing %r to field %s the buffer is %s, expected %s", v, (o, w, s), data.hex(),
                model.to_bytes(case["size"], "little").hex())
    for o, w, s in case["fields"]:
        require(read_value(data, o, w, s) == model_read(bytes(data), o, w, s), "field %s reads %r", (o, w, s),
                read_value(data, o, w, s))
    rec.label("rewrites" if len({i for i, _ in case["steps"]}) < len(case["steps"]) else "each-once")
    rec.nontrivial(len(case["fields"]) > 1 and len(case["steps"]) > 1)


def grid(rec, tier, seed, shard, nshards):
    """Every (offset mod 8.. two bytes, width, sign) with extreme values and backgrounds."""
    from fv.core import CaseViolation, Violation
    for o in range(shard, 17, nshards):
        for w in range(1, 65):
            for s in (False, True):
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                vals = {lo, hi, 0, lo + 1 if w > 1 else lo, (hi // 3), min(hi, 1), -1 if s else hi}
                for v in sorted(vals):
                    for bg in (0, 255):
                        case = {"buf": bytes([bg]) * ((o + w + 7) // 8 + (0 if bg else 8)), "offset": o,
                                "width": w, "signed": s, "value": v}
                        rec.begin(case)
                        try:
                            check_write(case, rec)
                            if v == hi:
                                check_read(case, rec)
                        except Violation as e:
                            raise CaseViolation(str(e), case)
    rec.label("grid-complete")


def replay_grid(case, rec):
    rec.begin(case)
    check_write(case, rec)
    check_read(case, rec)


from fv.core import Custom  # noqa: E402

CHECK = Check(
    "C01",
    "a case is a buffer, bit offset, width, sign and representable value (or a set of disjoint fields and a "
    "history of writes); non-trivial when the value is non-zero and the buffer already holds data (reads: "
    "non-zero result; histories: several fields and several writes). The oracle is big-integer bit arithmetic.",
    [Part("read", cases, check_read, 12000, 300000),
     Part("write", cases, check_write, 12000, 300000),
     Part("history", histories, check_history, 6000, 150000),
     Custom("grid", grid, replay_grid, shards=4)],
    assumptions=["one-bit signed fields: only zero/non-zero is claimed (C++ and Python agree on reads of stored bits "
                 "only up to that)"])
