"""Generated contents of Serializable objects: nested containers of scalars and arrays.

A payload is JSON: ["none"] ["bool", b] ["int", n] ["float", repr] ["str", s] ["bytes", hex]
["list", [P]] ["dict", [[key P, P]]] ["arr", dtype, shape, layout, hex of the C-order contents].
"""
import numpy as np

BOOL_INT = ["|b1", "|i1", "|u1", "<i2", "<u2", "<i4", "<u4", "<i8", "<u8", ">i2", ">i4", ">u4", ">i8", ">u8", ">u2"]
FLOATS = ["<f4", "<f8", "<f2", ">f4", ">f8", "<c8", "<c16", ">c8", ">c16"]
OTHERS = ["<U1", "<U4", ">U3", "|S1", "|S5", "<M8[ns]", "<M8[D]", "<m8[s]", "<m8[us]", ">M8[s]"]
STRUCTS = [
    [["x", "<f8"], ["y", "<i4"]],
    [["a", "|u1"], ["b", ">i2", [2]], ["c", "<f4", [2, 3]]],
    [["p", [["q", "<i8"], ["r", "|b1"]]], ["t", "<M8[ns]"]],
    [["q", [["f", "<c8"]], [2]]],
]
LAYOUTS = ["C", "F", "strided", "negative", "offset", "broadcast"]


def gen(d, depth=3):
    k = d.weighted([(2, "none"), (2, "bool"), (4, "int"), (4, "float"), (4, "str"), (3, "bytes"), (12, "arr")]
                   + ([(7, "dict"), (5, "list")] if depth else []))
    if k == "none":
        return ["none"]
    if k == "bool":
        return ["bool", d.chance(50)]
    if k == "int":
        return ["int", gen_int(d)]
    if k == "float":
        return ["float", repr(d.real())]
    if k == "str":
        return ["str", (d.text() * (d.pick([40, 300, 9000, 80000]) if d.chance(3) else d.pick([1, 1, 1, 9])))[:300000]]
    if k == "bytes":
        return ["bytes", gen_hex(d, d.pick([0, 1, 5, 40, 300])), d.pick([200, 3000, 70000])] if d.chance(5) else ["bytes", gen_hex(d, d.pick([0, 1, 5, 40, 300]))]
    if k == "list":
        # long ones repeat a few
        out = ["list", [gen(d, depth - 1) for _ in range(d.size(0, 4))]]
        if d.chance(4):
            times = d.pick([5, 20, 300])
            if weight(out) * times < 2000000:
                return out + [times]
        return out
    if k == "dict":
        keys = {}
        for _ in range(d.size(0, 4)):
            key = d.weighted([(8, "str"), (2, "int"), (1, "bytes")])
            key = ["str", d.text()] if key == "str" else ["int", gen_int(d)] if key == "int" else ["bytes", gen_hex(d, 3)]
            if key == ["bytes", b"__tensor__".hex()]:
                continue
            keys[repr(key)] = [key, gen(d, depth - 1)]
        return ["dict", list(keys.values())]
    return gen_array(d)


def weight(p):
    """About how many bytes there are."""
    if p[0] == "str":
        return 1 + len(p[1])
    if p[0] == "bytes":
        return 1 + len(p[1]) // 2 * (p[2] if len(p) > 2 else 1)
    if p[0] == "list":
        return (1 + sum(map(weight, p[1]))) * (p[2] if len(p) > 2 else 1)
    if p[0] == "dict":
        return 1 + sum(weight(a) + weight(b) for a, b in p[1])
    if p[0] == "arr":
        n = dtype_of(p[1]).itemsize
        for s in p[2]:
            n *= s
        return 1 + n
    return 9


def gen_int(d):
    v = d.integer()
    return v if -(2**63) <= v < 2**64 else d.pick([2**64 - 1, -(2**63), 2**63, 2**32])


def gen_hex(d, n):
    return "".join("%02x" % (d.n(255) if i < 40 else (i * 37) % 256) for i in range(d.n(n) if n else 0))


def gen_array(d, dtypes=None):
    if dtypes is None:
        dtypes = d.weighted([(5, ["<f4", "<f8", "<i8"]), (4, BOOL_INT), (3, FLOATS), (2, OTHERS), (1, STRUCTS)])
    dt = d.pick(dtypes)
    shape = [d.weighted([(5, d.n(4)), (1, 1), (1, 0)]) for _ in range(d.weighted([(4, 1), (3, 2), (2, 0), (1, 3), (1, 4)]))]
    if d.chance(4):
        # larger than any buffer
        shape = d.pick([[300], [70000], [9, 9000], [40, 3, 20], [1, 1, 1, 1, 1, 2], [66000, 1]])
    layout = d.weighted([(6, "C"), (2, "F"), (2, "strided"), (1, "negative"), (1, "offset"), (1, "broadcast")])
    n = 1
    for s in shape:
        n *= s
    nums = [d.pick([0, 1, 255, 65, 128, d.n(2**32)]) for _ in range(min(n, 24))]
    return ["arr", dt, shape, layout, nums]


def gen_odd(d, depth=1):
    """A structured dtype with gaps, titles, overlaps, sub-arrays: stored exactly or refused."""
    n = d.size(1, 4, 60)
    names = d.sample(["x", "y", "f0", "f1", "a b", "\u00e9", "__tensor__", "dtype", "shape", "data", "0"], n)
    formats, sizes = [], []
    for _ in range(n):
        f = gen_odd(d, depth - 1) if depth and d.chance(15) else d.pick(BOOL_INT + FLOATS + OTHERS)
        formats.append(f)
        sizes.append(dtype_of(f).itemsize)
    out = {"names": names, "formats": formats}
    if d.chance(60):
        at, offsets = 0, []
        for s in sizes:
            at += d.pick([0, 0, 0, 1, 3, 8])
            offsets.append(at)
            at += s
        out["offsets"] = offsets
        if d.chance(30):
            out["itemsize"] = at + d.pick([0, 1, 4])
        if d.chance(15):
            out["offsets"] = d.shuffle(offsets)
            out.pop("itemsize", None)
    if d.chance(15):
        out["titles"] = ["t%d" % i for i in range(n)]
    return out


def dtype_of(dt):
    if isinstance(dt, str):
        return np.dtype(dt)
    if isinstance(dt, dict):
        return np.dtype(dict(dt, formats=[dtype_of(f) for f in dt["formats"]]))
    return np.dtype([(f[0], dtype_of(f[1])) + tuple(map(tuple, f[2:])) for f in dt])


def array(dt, shape, layout, nums):
    dtype = dtype_of(dt)
    n = 1
    for s in shape:
        n *= s
    vals = [nums[i % len(nums)] + i // max(1, len(nums)) if nums else 0 for i in range(n)]
    k = dtype.kind
    a = np.zeros(n, dtype)
    if k in "US":
        for i, v in enumerate(vals):
            s = ["", "a", "bc", "\u00e9z" if k == "U" else "ez", "x y"][v % 5]
            a[i] = s if k == "U" else s.encode("latin1")
    elif n:
        # any bit pattern is a value, except for bools
        size = dtype.itemsize
        raw = b"".join((v * 2654435761 % 2 ** (8 * size) if v > 255 else v).to_bytes(size, "little") for v in vals)
        if k in "bV":
            raw = bytes(x & 1 for x in raw)
        a = np.frombuffer(raw, dtype).copy()
    a = a.reshape(shape)
    if layout == "F":
        return np.asfortranarray(a) if a.ndim else a
    if layout == "strided" and a.ndim:
        big = np.zeros(tuple(2 * s for s in shape), dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = a
        return view
    if layout == "negative" and a.ndim:
        return a[::-1].copy()[::-1]
    if layout == "offset" and a.ndim:
        big = np.zeros((shape[0] + 1,) + tuple(shape[1:]), dtype)
        big[1:] = a
        return big[1:]
    if layout == "broadcast" and a.ndim and n:
        return np.broadcast_to(a[:1], a.shape)
    return a


def build(p):
    k = p[0]
    if k == "none":
        return None
    if k in ("bool", "int", "str"):
        return p[1]
    if k == "float":
        return float(p[1])
    if k == "bytes":
        return bytes.fromhex(p[1]) * (p[2] if len(p) > 2 else 1)
    if k == "list":
        return [build(x) for x in p[1] * (p[2] if len(p) > 2 else 1)]
    if k == "dict":
        return {build(a): build(b) for a, b in p[1]}
    return array(*p[1:])


def same_contents(a, b):
    if a.dtype.names is not None:
        # whatever is in the gaps
        return all(same_contents(a[n], b[n]) for n in a.dtype.names)
    return a.tobytes() == b.tobytes()


def differ(a, b, path="blob"):
    """None if a and b are the same contents, else where they differ."""
    if type(a) is not type(b):
        return "%s: %.200r (%s) != %.200r (%s)" % (path, a, type(a), b, type(b))
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.dtype.str != b.dtype.str or a.shape != b.shape:
            return "%s: %s%s != %s%s" % (path, a.dtype.str, a.shape, b.dtype.str, b.shape)
        return None if same_contents(a, b) else "%s: %r != %r" % (path, a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %r != %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            m = differ(x, y, "%s[%d]" % (path, i))
            if m:
                return m
        return None
    if isinstance(a, dict):
        ka, kb = [(type(k), k) for k in a], [(type(k), k) for k in b]
        if len(ka) != len(kb) or set(ka) != set(kb):
            return "%s: keys %r != %r" % (path, ka, kb)
        for k in a:
            m = differ(a[k], b[k], "%s[%r]" % (path, k))
            if m:
                return m
        return None
    if isinstance(a, float):
        import struct

        return None if struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b) else "%s: %r != %r" % (path, a, b)
    return None if a == b else "%s: %r != %r" % (path, a, b)


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays(x)
    elif isinstance(v, list):
        for x in v:
            yield from arrays(x)
