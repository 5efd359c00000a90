"""Contract tables: which shapes of which contracts each property's check decides."""

import re

TRUSTED = [
    "rustc, the Kani compiler (MIR to goto), CBMC and CaDiCaL",
    "bitvec-spec: executable contracts standing in for the bitvec crate during verification "
    "(every contract is also evaluated natively against the real bitvec, sampled)",
    "core::mem::swap stubbed by its contract (exchange of two values)",
    "the specification functions in harness/src (spec.rs and the contract bodies)",
    "the ghost streams: Read/Write/Seek/BufRead behave as their documentation says",
]
ASSUMPTIONS = [
    "one obligation per concrete shape (type, width, endianness, order, number of pending bits); all data bytes, "
    "values, pending bits and counters within a shape are unconstrained; shapes outside the tier's table are only "
    "sampled natively",
    "counters bits_read/bits_written are below 2^32 before the call (no overflow of the counters themselves)",
    "allocation does not fail",
    "machine arithmetic is bit-precise; overflow, out-of-bounds and unreachable code are obligations of every contract",
    "Kani does not model concurrency, and aborts on inline assembly (neither occurs in the code under contract)",
]
NA = {}


def is_bounded(mod, fn):
    return fn.startswith("bnd_")


def tables(lib, rows, native=(), chunk=40, group=4, uses=()):
    """Contract tables, `chunk` contracts per generated module (one goto program each);
    `group` contracts (they share no state) are handed to the verifier together."""
    seen, out = set(), []
    for u, n, b in rows:
        if n not in seen:
            seen.add(n)
            out.append("%d %s => { %s }" % (u, n, b))
    head = "".join("use crate::%s::*;\n" % m for m in (lib,) + tuple(uses))
    head += ("#[cfg(not(kani))]\nuse crate::kani;\nuse crate::{common::*, ghost::*, spec::*};\n"
             "use deku::{ctx::*, prelude::*};\n")
    t = {}
    for i in range(0, len(out), chunk):
        part = out[i:i + chunk]
        names = [x.split()[1] for x in part]
        g, room = [], 0
        for n in names:
            w = {64: 2, 128: 4}.get(W.get(n.split("_")[0]), 1)
            if not g or room < w:
                g.append([])
                room = group
            g[-1].append(n)
            room -= w
        t["%s_%02d" % (lib, i // chunk)] = (
            head + "crate::contracts! {\n" + "\n".join(part) + "\n}\n"
            + "".join("// GROUP gg%d: %s\n#[cfg(kani)]\nfn gg%d() { %s }\n"
                      % (k, " ".join(x), k, " ".join(n + "();" for n in x)) for k, x in enumerate(g))
            + "#[cfg(kani)]\nfn groups() { %s }\n" % " ".join("gg%d();" % k for k in range(len(g))))
    if native:
        t["%s_native" % lib] = (head + "crate::contracts! {\n; native\n"
                                + "\n".join("%s => { %s }" % r for r in native) + "\n}\n")
    return t


INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
W = dict(u8=8, u16=16, u32=32, u64=64, u128=128, usize=64, i8=8, i16=16, i32=32, i64=64, i128=128, isize=64,
         f32=32, f64=64)


def need(l, n):
    return (n - l + 7) // 8 if n > l else 0


def unwind(t):
    return max(W[t], 12) + 6


# ctx forms of the integer impls: (text, n, e, o); b = bit width, k = byte width
def int_forms(t, b, k, write=False):
    w = W[t]
    out = []
    for e in ("BE", "LE"):
        for o in "ML":
            out.append(("ebo%d_%s_%s" % (b, e, o), "(%s, BitSize(%d), %s)" % (e, b, o), b, e, o))
            out.append(("eyo%d_%s_%s" % (k, e, o), "(%s, ByteSize(%d), %s)" % (e, k, o), 8 * k, e, o))
            out.append(("eo_%s_%s" % (e, o), "(%s, %s)" % (e, o), w, e, o))
        out.append(("eb%d_%s" % (b, e), "(%s, BitSize(%d))" % (e, b), b, e, "M"))
        out.append(("ey%d_%s" % (k, e), "(%s, ByteSize(%d))" % (e, k), 8 * k, e, "M"))
        out.append(("e_%s" % e, e, w, e, "M"))
    for o in "ML":
        out.append(("bo%d_%s" % (b, o), "(BitSize(%d), %s)" % (b, o), b, "LE", o))
        out.append(("o_%s" % o, o, w, "LE", o))
    out.append(("b%d" % b, "BitSize(%d)" % b, b, "LE", "M"))
    out.append(("y%d" % k, "ByteSize(%d)" % k, 8 * k, "LE", "M"))
    out.append(("unit", "()", w, "LE", "M"))
    return out


def thin(rows, keep):
    """quick tier: at most keep[type] contracts of a type, spread evenly"""
    by = {}
    for r in rows:
        by.setdefault(r[1].split("_")[0], []).append(r)
    out = []
    for t, rs in by.items():
        n = min(keep.get(t, keep["*"]), len(rs))
        out += [rs[i * len(rs) // n] for i in range(n)]
    return out


def order(rows):
    """the slow ones first"""
    rows.sort(key=lambda r: -W[r[1].split("_")[0]])


WIDE = [("u64", 33, "BE", "M", 3), ("u64", 33, "LE", "M", 3), ("u64", 33, "BE", "L", 3), ("u64", 64, "LE", "L", 5),
        ("u128", 100, "BE", "M", 3), ("u128", 77, "LE", "M", 8), ("u128", 77, "BE", "L", 3),
        ("u128", 65, "BE", "M", 1), ("u128", 64, "BE", "M", 7),
        ("i32", 13, "BE", "L", 3), ("i32", 20, "LE", "M", 8), ("i64", 50, "LE", "M", 7), ("i64", 64, "BE", "M", 1),
        ("u32", 24, "LE", "M", 4), ("u32", 17, "BE", "L", 6), ("u32", 25, "LE", "L", 7), ("u64", 63, "BE", "M", 7),
        ("u64", 64, "BE", "M", 7), ("i16", 9, "LE", "L", 4), ("i16", 13, "BE", "L", 4), ("i16", 7, "BE", "M", 2)]


def c02(tier):
    rows = []
    quick = tier == "quick"

    def ok(t, name, ctx, n, e, o, l, exact):
        lo = o if l or (n + W[t]) % 3 else ("L" if o == "M" else "M")
        rows.append((unwind(t), ("%s_%s_l%d" % (t, name, l)).lower(),
                     "write_ok::<%s, _, %d>(%s, %d, %s, %s, %d, %s, %s)"
                     % (t, W[t] // 8 + 1, ctx, n, e, o, l, lo, "true" if exact else "false")))

    def ebo(t, n, e, o, l):
        ok(t, "ebo%d_%s_%s" % (n, e, o), "(%s, BitSize(%d), %s)" % (e, n, o), n, e, o, l, True)

    c = 0
    for t in INTS:
        for n in range(1, W[t] + 1):
            for e in ("BE", "LE"):
                for o in "ML":
                    for l in range(8):
                        c += 1
                        if quick and t in ("u16", "i16") and (n in ((1, 7, 12, 16) if t[0] == "u" else (3, 9, 15)) and l == (n * 3 + c // 8) % 8):
                            ebo(t, n, e, o, l)
                        if quick and t in ("u8", "i8") and l == (n * 3 + c // 8) % 8 and e == "LE":
                            ebo(t, n, e, o, l)
                        if not quick and (W[t] <= 32 or l in ((n * 5) % 8, (n * 7 + 4) % 8)):
                            ebo(t, n, e, o, l)
    for x in WIDE:
        ebo(*x[:4], x[4] % 8)
    c = 0
    for t in INTS + ["f32", "f64"]:
        w = W[t]
        sizes = [(max(w - 5, 3), max(w // 8 - 1, 1))]
        if not quick:
            sizes += [(w, w // 8), (w // 2, 1)]
        for b, k in sizes:
            if t[0] == "f":
                b = w
            for (name, ctx, n, e, o) in int_forms(t, b, k):
                if t[0] == "f" and "BitSize" in ctx:
                    continue
                for l in (0, 3, 7, 5):
                    c += 1
                    # a byte-sized write without an order continues in Msb0 order
                    if not quick or l == (0, 3, 7, 5)[(c // 4) % 4] and (t == "u16" or c // 4 % (3 if t in ("u8", "u32") else 9) == 0):
                        ok(t, name, ctx, n, e, o, l, "BitSize" in ctx)
        for l in (0, 5):
            for e, o in (("BE", "M"), ("LE", "L")):
                c += 1
                if quick and c % (3 if w == 8 else 6):
                    continue
                if t[0] == "u":
                    rows.append((unwind(t), ("%s_zero_bits_%s_l%d" % (t, e, l)).lower(),
                                 "write_ok::<%s, _, 1>((%s, BitSize(0), %s), 0, %s, %s, %d, %s, true)" % (t, e, o, e, o, l, o)))
                rows.append((unwind(t), ("%s_zero_bytes_%s_l%d" % (t, e, l)).lower(),
                             "write_ok::<%s, _, 1>((%s, ByteSize(0), %s), 0, %s, %s, %d, %s, false)" % (t, e, o, e, o, l, o)))
                if t[0] != "f":
                    rows.append((unwind(t), ("%s_above_bits_%s_l%d" % (t, e, l)).lower(),
                                 "write_refuse::<%s, _>((%s, BitSize(%d), %s), %d, %s)" % (t, e, w + 1 + 7 * (l // 5), o, l, o)))
                    rows.append((unwind(t), ("%s_above_eb_%s_l%d" % (t, e, l)).lower(),
                                 "write_refuse::<%s, _>((%s, BitSize(%d)), %d, M)" % (t, e, w + 8, l)))
                rows.append((unwind(t), ("%s_above_bytes_%s_l%d" % (t, e, l)).lower(),
                             "write_refuse::<%s, _>((%s, ByteSize(%d), %s), %d, %s)" % (t, e, w // 8 + 1, o, l, o)))
    native = [("sampled_%s" % t, "sampled_write::<%s>()" % t) for t in INTS]
    native += [("sampled_refuse_%s" % t, "sampled_write_refuse::<%s>()" % t) for t in INTS]
    if quick:
        rows = thin(rows, {"u8": 20, "u16": 22, "u32": 10, "u64": 7, "i8": 16, "i16": 12, "i64": 4, "u128": 4, "*": 3})
    order(rows)
    return [dict(name="bits", features=["bits"], libs=["common", "c02"], tables=tables("c02", rows, native))]


def c01(tier):
    rows = []
    quick = tier == "quick"

    def ok(t, name, ctx, n, e, o, l):
        rows.append((unwind(t), ("%s_%s_l%d" % (t, name, l)).lower(),
                     "read_ok::<%s, _, %d>(%s, %d, %s, %s, %d)" % (t, W[t] // 8 + 1, ctx, n, e, o, l)))

    def ebo(t, n, e, o, l):
        ok(t, "ebo%d_%s_%s" % (n, e, o), "(%s, BitSize(%d), %s)" % (e, n, o), n, e, o, l)

    # bit fields
    c = 0
    for t in INTS:
        for n in range(1, W[t] + 1):
            for e in ("BE", "LE"):
                for o in "ML":
                    for l in range(9):
                        c += 1
                        if quick and t == "u16" and (n in (1, 3, 7, 8, 9, 12, 15, 16) and l == (n * 3 + c // 9) % 9):
                            ebo(t, n, e, o, l)
                        if quick and t in ("u8", "i8") and l == (n * 3 + c // 9) % 9 and e == "LE":
                            ebo(t, n, e, o, l)
                        if not quick and (W[t] <= 32 or l in ((n * 5) % 9, (n * 7 + 4) % 9)):
                            ebo(t, n, e, o, l)
    for x in WIDE:
        ebo(*x)
    # every context form
    c = 0
    for t in INTS + ["f32", "f64"]:
        w = W[t]
        sizes = [(max(w - 5, 3), max(w // 8 - 1, 1))]
        if not quick:
            sizes += [(w, w // 8), (w // 2, 1)]
        for b, k in sizes:
            for (name, ctx, n, e, o) in int_forms(t, b, k):
                for l in (0, 3, 8, 5):
                    c += 1
                    if not quick or l == (0, 3, 8, 5)[(c // 4) % 4] and (t == "u16" or c // 4 % (2 if t in ("u8", "u32") else 6) == 0):
                        ok(t, name, ctx, n, e, o, l)
        # nothing, and too much
        for l in (0, 5, 8):
            for e, o in (("BE", "M"), ("LE", "L")):
                c += 1
                if quick and c % (2 if w == 8 else 6):
                    continue
                for what, ctx, f in (("zero_bits", "BitSize(0)", 1), ("zero_bytes", "ByteSize(0)", 1),
                                     ("above_bits", "BitSize(%d)" % (w + 1 + 7 * (l // 5)), 0),
                                     ("above_bytes", "ByteSize(%d)" % (w // 8 + 1), 0)):
                    body = ("read_ok::<%s, _, 1>((%s, %s, %s), 0, %s, %s, %d)" % (t, e, ctx, o, e, o, l) if f else
                            "read_refuse::<%s, _, 1>((%s, %s, %s), %d)" % (t, e, ctx, o, l))
                    rows.append((unwind(t), ("%s_%s_%s_l%d" % (t, what, e, l)).lower(), body))
        rows.append((unwind(t), "%s_above_bits_eb" % t,
                     "read_refuse::<%s, _, 1>((LE, BitSize(%d)), 2)" % (t, w + 1)))
    native = [("sampled_%s" % t, "sampled_read::<%s>()" % t) for t in INTS + ["f32", "f64"]]
    native += [("sampled_refuse_%s" % t, "sampled_refuse::<%s>()" % t) for t in INTS + ["f32", "f64"]]
    if quick:
        rows = thin(rows, {"u8": 26, "u16": 30, "u32": 14, "u64": 10, "i8": 18, "i16": 14, "i64": 6, "u128": 6, "*": 6})
    order(rows)
    return [dict(name="bits", features=["bits"], libs=["common", "c01"], tables=tables("c01", rows, native))]


def one(name, lib, rows, native=(), features=("bits",), libs=None, **kw):
    return dict(name=name, features=list(features), libs=libs or ["common", lib], tables=tables(lib, rows, native, **kw))


def c03(tier):
    q = tier == "quick"
    rows = []
    k = 0

    def pick(m):
        nonlocal k
        k += 1
        return not q or k % m == 0
    for o in "ML":
        for l in range(9):
            for n in range(0, 25):
                if pick(11):
                    rows.append((n + 14, "bits_%d_%s_l%d" % (n, o.lower(), l), "bits::<4>(%d, %d, %s)" % (l, n, o)))
                if pick(13):
                    rows.append((n + 14, "into_%d_%s_l%d" % (n, o.lower(), l), "bits_into::<4>(%d, %d, %s)" % (l, n, o)))
                if pick(11):
                    rows.append((20, "skip_%d_%s_l%d" % (n, o.lower(), l), "skip::<4>(%d, %d, %s)" % (l, n, o)))
            for n in range(0, 4):
                if pick(3):
                    rows.append((20, "bytes_%d_%s_l%d" % (n, o.lower(), l), "bytes::<4>(%d, %d, %s)" % (l, n, o)))
            for n in (1, 2, 3, 4, 8):
                if pick(3):
                    rows.append((20, "bytes_const_%d_%s_l%d" % (n, o.lower(), l), "bytes_const::<%d>(%d, %s)" % (n, l, o)))
                if pick(7):
                    rows.append((20, "bytes_const_into_%d_%s_l%d" % (n, o.lower(), l), "bytes_const_into::<%d>(%d, %s)" % (n, l, o)))
            for n1, n2 in ((3, 5), (1, 14), (8, 8), (7, 2), (13, 9), (16, 1)):
                if pick(9):
                    rows.append((40, "two_%d_%d_%s_l%d" % (n1, n2, o.lower(), l), "two::<4>(%d, %d, %d, %s)" % (l, n1, n2, o)))
        for n in (1, 4, 8, 12, 16, 17):
            if pick(3):
                rows.append((40, "end_then_read_%d_%s" % (n, o.lower()), "end_then_read(%d, %s)" % (n, o)))
    for l in range(9):
        rows.append((20, "end_l%d" % l, "end(%d)" % l))
        rows.append((20, "rest_l%d" % l, "rest(%d)" % l))
        if not q or l in (0, 3, 8):
            for w in ("FROM_START", "FROM_CURRENT", "FROM_END"):
                rows.append((20, "seek_%s_l%d" % (w[5:].lower(), l), "seek(%d, %s)" % (l, w)))
                rows.append((20, "seek_any_%s_l%d" % (w[5:].lower(), l), "seek_any(%d, %s)" % (l, w)))
    rows.append((20, "end_on_fault", "end_fault()"))
    rows.sort(key=lambda r: r[1])
    return [one("bits", "c03", rows, [("history_of_operations", "history()")])]


def c12(tier):
    q = tier == "quick"
    rows = []
    k = 0

    def pick(m):
        nonlocal k
        k += 1
        return not q or k % m == 0
    for o in "ML":
        x = "L" if o == "M" else "M"
        for l in range(8):
            for n in range(0, 25):
                if pick(3):
                    rows.append((20, "bits_%d_%s_l%d" % (n, o.lower(), l), "bits::<4>(%d, %d, %s)" % (l, n, o)))
                if l and pick(8):
                    rows.append((20, "mixed_%d_%s_l%d" % (n, o.lower(), l), "mixed::<4>(%d, %d, %s, %s)" % (l, n, o, x)))
                if l == 0 and pick(4):
                    rows.append((20, "fresh_%d_%s" % (n, o.lower()), "bits_fresh::<4>(%d, %s, %s)" % (n, x, o)))
                if o == "M" and pick(10):
                    rows.append((20, "write_bits_%d_l%d" % (n, l), "write_bits::<4>(%d, %d)" % (l, n)))
            for n1, n2 in ((3, 5), (1, 14), (8, 8), (7, 2), (13, 9), (16, 1)):
                if pick(5):
                    rows.append((20, "two_%d_%d_%s_l%d" % (n1, n2, o.lower(), l), "two::<4>(%d, %d, %d, %s)" % (l, n1, n2, o)))
            rows.append((20, "finalize_%s_l%d" % (o.lower(), l), "finalize(%d, %s)" % (l, o)))
            if pick(2):
                rows.append((20, "seek_%s_l%d" % (o.lower(), l), "seek(%d, %s)" % (l, o)))
                rows.append((20, "rest_%s_l%d" % (o.lower(), l), "rest(%d, %s)" % (l, o)))
            if o == "M":
                for n in (0, 1, 2, 3):
                    if pick(2):
                        rows.append((20, "bytes_%d_l%d" % (n, l), "bytes::<%d, 4>(%d)" % (n, l)))
    rows.sort(key=lambda r: r[1])
    return [one("bits", "c12", rows, [("history_of_writes", "history()")])]


def catalogue(lib, names, unw=24, slow=()):
    """contracts of a module that need no shape"""
    return [(unw, "t_" + re.sub(r"\W+", "_", n).strip("_").lower(), (n if "(" in n else n + "()")) for n in names]


C09 = """endian_read endian_write endian_field_read endian_field_write bits_read over_contract::bits_write lsb_read over_contract::lsb_write lsb_field_read
over_contract::lsb_field_write order_child_read over_contract::order_child_write override_read over_contract::override_write bytes_read bytes_write
dyn_bits_read::<1> dyn_bits_read::<7> dyn_bits_read::<11> over_contract::dyn_bits_write::<1> over_contract::dyn_bits_write::<7> over_contract::dyn_bits_write::<11>
count_read::<0> count_read::<1> count_read::<2> count_write limits_read::<0> limits_read::<1> limits_read::<2> read_all
cond_read_yes cond_read_no cond_write_yes cond_write_some cond_write_no temp_read over_contract::temp_write magic_read magic_write
pad_read over_contract::pad_write pad_dyn_read::<0> pad_dyn_read::<1> pad_dyn_read::<3> pad_dyn_write pad_lsb_read over_contract::pad_lsb_write
assert_read assert_write map_read update ctx_read ctx_write ctx_default custom_read custom_write offsets
generic_read generic_write""".split()


C09_NATIVE = [("n_bits_refuse", "bits_refuse()"), ("n_temp_bits_read", "temp_bits_read()")]


def c09(tier):
    return [one("bits", "c09", catalogue("c09", C09) + catalogue("c09", ["pad_long_read", "pad_long_write"], unw=70), C09_NATIVE + twins(C09), chunk=16, group=1,
                libs=["common", "io", "nat", "c09"])]


C10 = """plain_read plain_write plain_id default_read default_write pat_read pat_write pat_default_read pat_none_read disc_read disc_write
disc_signed_read disc_signed_write disc_bytes_read disc_bytes_write id_endian_read id_endian_write big_id_read big_id_write
bits_id_read over_contract::bits_id_write lsb_id_read over_contract::lsb_id_write from_ctx_read from_ctx_write with_id_read with_id_write ctx_default_read
bytes_id_read bytes_id_write enum_id_read enum_id_write bool_id custom_read custom_write variant_field_attributes""".split()


def twins(names):
    return [("n_" + re.sub(r"\W+", "_", x).strip("_"), "real::%s()" % x.split("::", 1)[1]) for x in names if x.startswith("over_contract::")]


def c10(tier):
    return [one("bits", "c10", catalogue("c10", C10), twins(C10), chunk=16, group=1,
                libs=["common", "io", "nat", "c10"])]


NOTE = ("Each obligation is proved by Kani/CBMC for all data in its shape with exhausted unwinding. Trusts Kani/CBMC and the "
        "bitvec stand-in (validated natively). ")
PROPS = {
    "C01": dict(builds=c01, level="proof", note=NOTE + "Quick tier: a spread of shapes per type, all shapes sampled natively; "
                "thorough: every shape of the types up to 32 bits, a third of the wider ones."),
    "C02": dict(builds=c02, level="proof", note=NOTE + "Quick tier: a spread of shapes per type, all shapes sampled natively; "
                "thorough: every shape of the types up to 32 bits, a third of the wider ones."),
    "C03": dict(builds=c03, level="proof", note=NOTE + "Each operation is proved from an arbitrary state to its exact post-state, so "
                "operation histories follow by composition; histories are also sampled natively. Bit amounts up to 24 (the tier's table), seeks by any amount."),
    "C12": dict(builds=c12, level="proof", note=NOTE + "Each operation is proved from an arbitrary state to its exact post-state and output, so "
                "write histories follow by composition; histories are also sampled natively. Bit amounts up to 24 (the tier's table). "
                "Mixed bit orders inside one byte: only that no bit is lost or invented."),
    "C09": dict(builds=c09, level="proof", note=NOTE + "A catalogue of derived structs covering every documented attribute; each "
                "contract is for all input bytes or field values. Counts and runtime sizes are the concrete ones in the contract names."),
    "C10": dict(builds=c10, level="proof", note=NOTE + "A catalogue of derived enums covering every way of giving ids; each contract "
                "is for all ids and data bytes (reading) or all field values (writing)."),
}
