"""C26: raw-data string helpers agree with plain byte-string splitting."""
from fv.core import Check, Part, require
from hypothesis import strategies as st

SEPS = [b"\0", b"\0", b",", b"\0\0", b"ab", b"aa", b"aba", b"::", b"\xc3\xa9"]
ALPHA = [b"a", b"b", b"\0", b",", b":", b"xyz", "\u00e9".encode(), "\u4e2d".encode()]


@st.composite
def cases(draw):
    sep = draw(st.sampled_from(SEPS))
    lsep = draw(st.sampled_from([b"\0\0", sep + sep, sep, b"END", b"b"]))
    atoms = st.sampled_from(ALPHA + [sep, sep, sep, lsep])
    payload = b"".join(draw(st.lists(atoms, max_size=14)))
    # positions callers use come from offsets stored in the data: anything up to and including the end
    index = draw(st.integers(0, len(payload)))
    return {"payload": payload, "sep": sep, "lsep": lsep, "index": index, "count": draw(st.integers(0, 5))}


def decodes(*parts):
    try:
        return [p.decode("utf-8") for p in parts]
    except UnicodeDecodeError:
        return None


def terminated(payload, index, sep):
    """Strings ended by a separator, from index on."""
    return payload[index:].split(sep)[:-1]


def check(case, rec):
    from flatdata.lib.resources import RawData
    p, sep, lsep, i, n = (case[k] for k in ("payload", "sep", "lsep", "index", "count"))
    raw = RawData(len(p).to_bytes(8, "little") + p + b"\0" * 8, None)

    def compare(what, call, parts, one=False):
        want = decodes(*parts)
        if want is None:
            rec.label("not-utf8")
            try:
                call()
            except UnicodeDecodeError:
                return
            require(False, "%s of %r did not reject invalid UTF-8", what, p)
        got = call()
        want = want[0] if one else want
        require(got == want, "%s of %r from %d with separator %r: got %r, splitting gives %r", what, p, i, sep, got, want)

    compare("sub_str", lambda: raw.sub_str(i, sep), [p[i:].split(sep)[0]], True)
    if sep == b"\0":
        compare("sub_str()", lambda: raw.sub_str(i), [p[i:].split(b"\0")[0]], True)
    compare("sub_str_array(%d)" % n, lambda: raw.sub_str_array(i, n, sep), terminated(p, i, sep)[:n])
    # a list ends where a list separator starts an item
    parts, pos = [], i
    while pos < len(p) and not p.startswith(lsep, pos):
        end = p.find(sep, pos)
        if end < 0:
            break
        parts.append(p[pos:end])
        pos = end + len(sep)
    compare("sub_str_list(%r)" % lsep, lambda: raw.sub_str_list(i, sep, lsep), parts)
    rec.label("separator-length:%d" % len(sep))
    rec.label("terminated" if sep in p[i:] else "unterminated")
    rec.nontrivial(sep in p[i:] and len(parts) > 0)


CHECK = Check(
    "C26",
    "a case is a payload built from text, separators and list separators, a start position and a count; non-trivial when "
    "at least one terminated string exists from the start position. Oracle: bytes.split / bytes.find.",
    [Part("strings", cases, check, 30000, 600000,
          regressions=[{"payload": b"hello", "sep": b"\0", "lsep": b"\0\0", "index": 1, "count": 2},
                       {"payload": b"a::b::", "sep": b"::", "lsep": b"END", "index": 0, "count": 2},
                       {"payload": b"aaa", "sep": b"aa", "lsep": b"END", "index": 0, "count": 9}])],
    assumptions=["an unterminated rest counts as a string for the single-string helper only; lists contain terminated "
                 "strings, and a list ends where a list separator starts an item"])
