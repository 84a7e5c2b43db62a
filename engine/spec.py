"""Which analyses decide which property."""
TRUSTED = ["clang 18 front end (C++ to LLVM IR at -O0) and opt -passes=sroa", "engine/absint.py, values.py, models.py (abstract interpreter)",
           "engine/poly.py over libisl (polyhedra)", "the driver's environment model"]

MEM = ("mem-", "shift-range", "div-by-zero", "abort", "free")
ASSERT = ("assert:", "abort", "mem-overlap")

PROPS = {}

BO = ["BufferedOut.cpp"]
HIST = [dict(merge_at=6), dict(merge_at=20), dict(merge_at=8, narrow=4, hull=(12, 3000000))]
INTS = [("int", "vp_i32"), ("unsigned int", "vp_u32"), ("long", "vp_i64"), ("unsigned long", "vp_u64"), ("long long", "vp_i64"),
        ("unsigned long long", "vp_u64")]

PROPS["B01"] = dict(
    level="proof", rule="every load and store reachable from the driver stays inside the object its pointer was derived from",
    explain="Abstract interpretation of BufferedOut under the most general client: any capacity up to 2^30, any sequence of public operations (loop fixpoint over histories), any arguments.",
    kinds=MEM + ("assert:",),
    tasks=[dict(driver="bo_bounds.cpp", sources=BO, floor=60, portfolio=HIST)])
PROPS["B02"] = dict(
    level="proof", rule="content below the old fill level is unchanged after an insertion; the fill level never shrinks; all views show [buffer, fill level)",
    explain="History fixpoint to an arbitrary state, then one insertion of each kind with one arbitrary earlier byte followed exactly.",
    tasks=[dict(driver="bo_append.cpp", sources=BO, floor=3, defines=["VP_OP=vp_u8()"], portfolio=HIST),
           dict(driver="bo_text.cpp", fn="drv_views", sources=BO, floor=6, reach=["views"]), dict(driver="bo_text.cpp", sources=BO, floor=1, reach=["text"])])
PROPS["B03"] = dict(
    level="proof", rule="an insertion of an integer adds exactly max(width, digits) bytes, fill bytes first, digits last, or nothing when that does not fit; the width applies once",
    explain="Relational proof for all six integer types, any value, width, fill, capacity and fill level; std::to_chars is used through its contract.",
    tasks=[dict(driver="bo_int.cpp", sources=BO, floor=5, reach=["printed", "dropped", "prefix"], defines=["VP_T=" + t, "VP_ANY=" + a]) for t, a in INTS])
PROPS["B04"] = dict(
    level="proof", rule="each byte below the fill level has been written by an insertion since the buffer was handed over",
    explain="Typestate (never written / written) on one arbitrary byte, one insertion of each kind from every fill level and format.",
    tasks=[dict(driver="bo_written.cpp", sources=BO, floor=2, reach=["exposed"], defines=["VP_OP=%d" % i]) for i in range(13)])
PROPS["B05"] = dict(
    level="proof", rule="a byte is inserted as its two upper case hexadecimal digits, most significant first, or not at all; a block keeps the order and stops only when the buffer is full",
    explain="Case split over the 16 values of each nibble for single bytes; watched element of an arbitrary block.",
    tasks=[dict(driver="bo_hex.cpp", sources=BO, floor=3, reach=["hex", "hex-dropped"], defines=d, opt=dict(merge_at=64)) for d in (["VP_BYTE=0", "VP_AT=0"], ["VP_LOW", "VP_BYTE=0", "VP_AT=0"])] +
          [dict(driver="bo_hex.cpp", fn="drv_block", sources=BO, floor=2, reach=["block"], defines=["VP_BYTE=0x5A", "VP_AT=%d" % i]) for i in (0, 1)])
PROPS["B06"] = dict(
    level="proof", rule="inserted text is copied unchanged up to the free space; characters are stored as given or dropped when full; clear empties",
    explain="Symbolic text of any length at any fill level, one arbitrary byte of it followed exactly.",
    tasks=[dict(driver="bo_text.cpp", sources=BO, floor=1, reach=["text"]), dict(driver="bo_text.cpp", fn="drv_views", sources=BO, floor=6, reach=["views"]),
           dict(driver="bo_text.cpp", fn="drv_whole", sources=BO, floor=2, reach=["cstr"]), dict(driver="bo_text.cpp", fn="drv_order", sources=BO, floor=2, reach=["cstr"]),
           dict(driver="bo_text.cpp", fn="drv_char", sources=BO, floor=3, reach=["char"]),
           dict(driver="bo_text.cpp", fn="drv_clear", sources=BO, floor=2, reach=["cleared"]),
           dict(driver="bo_text.cpp", fn="drv_clear_fill", sources=BO, floor=2, reach=["cleared-fill"]),
           dict(driver="bo_text.cpp", fn="drv_clear_float", sources=BO, floor=1, reach=["cleared-float"])])

PROPS["B07"] = dict(
    level="proof", rule="each round of each loop strictly moves a location of the loop in one direction inside its machine type (lexicographically)",
    explain="Ranking argument on the loop invariants of every insertion and setting, from any fill level and format, with arguments of any length.",
    kinds=("terminates",),
    tasks=[dict(driver="bo_ends.cpp", sources=BO, floor=1, reach=["ended"], opt=dict(check_term=True), portfolio=[dict(merge_at=6), dict(merge_at=20)])])

PROPS["M01"] = dict(
    level="proof", rule="every view returned for (offset, count) is exactly [offset, min(offset + count, size)) of the viewed region, or empty",
    explain="Symbolic region of any size up to 2^28 elements, any 64-bit offset and count, for five element types; every accessor and conversion of the view.",
    tasks=[dict(driver="view.cpp", fn=f, floor=3, reach=[r], defines=["VP_T=" + t] + m)
           for t, m in (("uint8_t", ["VP_MUTABLE"]), ("const uint8_t", []), ("uint32_t", ["VP_MUTABLE"]), ("Rec", ["VP_MUTABLE"]), ("const Rec", []))
           for f, r in (("drv", "whole"), ("drv_sub", "sub"), ("drv_ends", "ends"), ("drv_conv", "conv"))] +
          [dict(driver="view.cpp", fn="drv_text", floor=1, reach=["text"], defines=["VP_CHAR", "VP_T=" + t]) for t in ("char", "const char")])
PROPS["M02"] = dict(
    level="proof", rule="each violating program is rejected by the compiler, its legal sibling accepted",
    explain="Type-level encoding: the constness of a view is part of its type; one program per way of writing through read-only memory.",
    kinds=("accepted", "rejected"),
    tasks=[dict(rule="witnesses", driver="witness_const.cpp", floor=39)])
PROPS["E01"] = dict(
    level="proof", rule="each byte of the result is exactly the byte of the argument the conversion names, for symbolic arguments",
    explain="Bit-provenance analysis: every bit of the result is traced to one bit of the argument.",
    kinds=MEM + ("assert:",),
    tasks=[dict(driver="endian.cpp", floor=17, reach=["endian"])])

PS = ["PersistentStorage.cpp"]
PSO = dict(pure=1, cmp=False)
PSP = [dict(merge_at=4), dict(merge_at=6), dict(merge_at=20)]
def psb(seq, *more, **k):
    return dict(dict(driver="ps_bounds.cpp", sources=PS, floor=10, reach=["history"], defines=['VP_SEQ="%s"' % seq] + list(more), opt=PSO, portfolio=PSP), **k)
PROPS["P01"] = dict(
    level="proof", rule="every load and store of attaching, looking up and storing stays inside the region or the object handed in",
    explain="Any bytes in the region (chain domain: facts about the record chain that attaching has validated), any region size, any key of any length, any object; then every sequence of two operations, and of three on a freshly initialised region.",
    kinds=MEM + ("mem-overlap",),
    tasks=[psb(q) for q in ("sg", "ss", "gs", "gg")] + [psb(q, "VP_FRESH") for q in ("ssg", "gss", "sss", "sgs")] +
          [psb("sg", "VP_T=R40,uint8_t"), psb("ss", "VP_T=uint8_t,R40")])
def keydefs(a, b, i=0, less=1):
    return ["VP_L1=%d" % a, "VP_L2=%d" % b, "VP_DIFF=%d" % i, "VP_LESS=%d" % less]


KEYS = [(4, 4, 3, 1), (4, 4, 3, 0), (4, 4, 0, 1), (3, 3, 2, 0), (2, 2, 1, 1), (1, 1, 0, 0), (4, 3), (3, 4), (0, 4), (3, 2), (1, 4)]
ALLKEYS = [(n, n, i, l) for n in range(1, 5) for i in range(n) for l in (0, 1)] + [(a, b) for a in range(5) for b in range(5) if a != b]


def pss(fn, reach, floor, keys=None):
    for k in keys or ALLKEYS:
        for t in ("uint16_t", "R3"):
            yield dict(driver="ps_store.cpp", fn=fn, sources=PS, floor=floor, reach=[reach], defines=keydefs(*k) + ["VP_T2=" + t], opt=dict(pure=1),
                       thorough=keys is None and not (k in KEYS and (t == "uint16_t" or k in KEYS[:1] + KEYS[6:7])))


PROPS["P02"] = dict(
    level="proof", rule="after an accepted store the lookup with the same key and type yields exactly that object, every other stored object is still found unchanged, and a store is accepted exactly when the record fits or replaces one",
    explain="Symbolic keys (all byte values, lengths 0 to 4 and longer), symbolic objects and region size; histories of up to three stores on an initialised region.",
    tasks=list(pss("drv", "stored", 6)) + list(pss("drv_over", "replaced", 7)) + list(pss("drv_init", "initialised", 2, KEYS[:1])) +
          [t for t in pss("drv_type", "typed", 6, [(4, 4, 0, 1), (0, 4)]) if t["defines"][-1] == "VP_T2=R3"] + list(pss("drv_long", "long", 4, [(0, 1), (2, 1), (4, 1)])))
PROPS["P03"] = dict(
    level="proof", rule="attaching and looking up write nothing, a refused store writes nothing, an accepted one writes nothing outside one record",
    explain="Any bytes in the region, any key and object: the region is read-only for attaching and looking up; one (for accepted stores two) arbitrary bytes of it are followed exactly through a store.",
    tasks=[dict(driver="ps_frame.cpp", fn=f, kinds=ASSERT + (("mem-write",) if f == "drv_get" else ()), sources=PS, floor=1, reach=[r], defines=["VP_T=" + t], opt=PSO, portfolio=[dict(merge_at=6), dict(merge_at=20)])
           for f, r in (("drv_get", "get"), ("drv_refused", "refused"), ("drv_accepted", "accepted")) for t in ("float", "R12")])
PROPS["P04"] = dict(
    level="proof", rule="a storage attached to a region finds exactly what earlier storages stored there, and has the same room left",
    explain="Symbolic keys, objects and region size; two objects stored, attached, replaced and a third one added, attached again.",
    tasks=list(pss("drv_attach", "attached", 8)))
PROPS["P05"] = dict(
    level="proof", rule="each round of each loop strictly moves a location of the loop in one direction inside its machine type",
    explain="Ranking argument on the loop invariants of attaching, looking up and storing, for any bytes in the region.",
    kinds=("terminates",),
    tasks=[psb(q, opt=dict(PSO, check_term=True), floor=3) for q in ("sg", "gs")] + [psb("sg", "VP_T=R40,uint8_t", opt=dict(PSO, check_term=True), floor=3)])

CV = ["graphics/Canvas.cpp"]
GI = ["$REPO"]
ROT = "VP_ROT=vp_range(0,3)"


def gb(op, rot=None, **k):
    return dict(dict(driver="gfx_bounds.cpp", sources=CV, includes=GI, floor=1, reach=["pixel"], defines=["VP_OP=%d" % op, "VP_ROT=%d" % rot if rot is not None else ROT],
                     portfolio=[dict(merge_at=1, frame=1), dict(merge_at=4, frame=1)] if rot is None else [dict(merge_at=4, frame=1), dict(merge_at=1, frame=1)]), **k)


PROPS["G01"] = dict(
    level="proof", rule="each call of FrameBufferBase::drawPixel made by the canvas has 0 <= x < width and 0 <= y < height",
    explain="Any frame buffer size, rotation, coordinates (also negative and far outside), sizes and radii up to 2^24; loop invariants by polyhedra.",
    tasks=[gb(i) for i in (5, 3, 4, 1, 2, 0)] + [gb(i, r, thorough=True) for i in (5, 3, 4, 1, 2) for r in range(4)])


def gs(op, where, rot, back=0, **k):
    return dict(dict(driver="gfx_shape.cpp", sources=CV, includes=GI, floor=2, reach=["inside" if where in (0, 5, 6, 7, 8) else "outside"],
                     defines=["VP_OP=%d" % op, "VP_WHERE=%d" % where, "VP_ROT=%d" % rot, "VP_BACK=%d" % back],
                     portfolio=[dict(merge_at=2, frame=1), dict(merge_at=1), dict(merge_at=4), dict(merge_at=20)] if 5 <= where <= 8 else
                     [dict(merge_at=1), dict(merge_at=4), dict(merge_at=2, frame=1), dict(merge_at=20)]), **k)


QUICK2 = ((9, 0), (5, 0), (6, 0), (7, 0), (8, 0), (5, 1), (7, 3), (1, 2), (2, 3), (3, 0), (4, 1))
PROPS["G02"] = dict(
    level="proof", rule="one arbitrary pixel of the canvas is painted by a call exactly when it belongs to the shape, rotation included",
    explain="A watched pixel anywhere in a frame buffer of any size and a pixel, filled rectangle, rectangle outline, horizontal or vertical line of any size around it or on either side of it.",
    tasks=[gs(2, w, r, thorough=(w, r) not in QUICK2) for w in (9, 8, 7, 6, 5, 4, 3, 2, 1) for r in range(4)] +
          [gs(1, w, r) for w in (0, 1, 2, 3, 4) for r in range(4)] +
          [gs(o, w, r, b, thorough=bool(b) and w > 0) for o in (3, 4) for b in (0, 1) for w in (0, 1, 2, 3, 4) for r in range(4)] +
          [gs(0, w, r) for w in range(5) for r in range(4)])


def gf(fn, reach, depth, side=None, size=None, **k):
    d = ["VP_D=%d" % depth] + (["VP_SIDE=%d" % side] if side is not None else []) + (["VP_W=%d" % size[0], "VP_H=%d" % size[1]] if size else [])
    return dict(dict(driver="gfx_buffer.cpp", includes=GI, fn=fn, floor=2, reach=[reach], defines=d, opt=dict(merge_at=64)), **k)


DEPTHS = (1, 2, 4, 8, 16, 24, 32)
PROPS["G03"] = dict(
    level="proof", rule="drawPixel changes the bits of the addressed pixel to the colour and no other bit; clear gives every pixel the colour; all accesses inside the buffer",
    explain="All colour depths; an arbitrary pixel, another arbitrary pixel, any colour and any prior content, traced bit by bit.",
    kinds=MEM + ASSERT,
    tasks=[gf("drv", "drawn", d, size=s) for d in DEPTHS for s in (None, (48, 60), (280, 480))] +
          [gf("drv_other", "other", d, i) for d in DEPTHS for i in range(6 if d <= 4 else 4)] +
          [gf("drv_keep", "kept", d) for d in DEPTHS] + [gf("drv_clear", "cleared", d, size=(8, 3)) for d in DEPTHS] +
          [gf("drv_clear_any", "cleared", d, size=s, floor=1, opt=dict(merge_at=4, max_unroll=2)) for d in DEPTHS[1:] for s in ((320, 240),)])


GT = ["graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp"]


def gg(fn, reach, rot, where=1, at=None, size=(3, 3), text="'C','A','B'", floor=3, **k):
    d = ["VP_ROT=%d" % rot, "VP_WHERE=%d" % where, "VP_GW=%d" % size[0], "VP_GH=%d" % size[1]]
    if fn == "drv_text":
        d += ["VP_TEXT=" + text, "VP_AT=%d" % at]
    elif at:
        d += ["VP_I=%d" % at[0], "VP_J=%d" % at[1], "VP_SET=%d" % at[2]]
    return dict(dict(driver="gfx_glyph.cpp", fn=fn, sources=GT, includes=GI, floor=floor, reach=[reach], defines=d, kinds=MEM + ASSERT,
                     portfolio=[dict(merge_at=1), dict(merge_at=8), dict(merge_at=64)]), **k)


def gx(fn, reach, floor, *defs, **k):
    return dict(dict(driver="gfx_font.cpp", fn=fn, sources=GT[1:], includes=GI, floor=floor, reach=[reach], defines=list(defs), kinds=MEM + ASSERT,
                     portfolio=[dict(merge_at=20), dict(merge_at=1), dict(merge_at=100)]), **k)


FONTS = ((32, 255, 191), (32, 126, 95), (0, 255, 223), (65, 65, 1), (48, 57, 10), (0xA1, 0xFF, 95))
PROPS["G04"] = dict(
    level="proof", rule="a glyph paints exactly its set bits, at the text position plus its offset; a code finds its own glyph or the first one; text bounds enclose every glyph",
    explain="One watched pixel in a frame buffer of any size; any glyph offset, advance and position; glyph sizes from 1x9 to 23x20. Lookup: all 256 codes in the shipped font and in fonts of any glyphs. Bounds: any glyph sizes, offsets and advances.",
    tasks=[gg("drv_glyph", "glyph", 0, 0, (22, 19, s), (23, 20), thorough=not s) for s in (1, 0)] +
          [gg("drv_glyph", "glyph", 0, 0, (254, 1, 1), (255, 2), thorough=True), gg("drv_glyph", "glyph", 0, 0, (1, 254, 1), (2, 255), thorough=True)] +
          [gg("drv_glyph", "glyph", r, 0, at, size) for r in range(4) for size, at in
           (((3, 3), (1, 0, 1)), ((3, 3), (1, 2, 1)), ((3, 3), (2, 2, 0)), ((5, 4), (0, 0, 1)), ((5, 4), (4, 3, 1)), ((5, 4), (2, 1, 0)), ((5, 4), (3, 1, 1)), ((8, 2), (7, 1, 1)), ((1, 9), (0, 8, 1)), ((11, 2), (10, 1, 1)))] +
          [gg("drv_glyph", "glyph", r, w, size=(5, 3)) for r in range(4) for w in (1, 2, 3, 4)] +
          [gg("drv_text", "text", r, 1, at, (1, 1), t, floor=2) for r, at, t in ((0, 0, "'A'"), (0, 1, "'C','A'"), (1, 2, "'C','A','B'"), (2, 1, "'A','A','B'"), (3, 2, "'B','B','A'"))] +
          [gx("drv", "lookup", 3, "VP_FROM=%d" % f) for f in (0, 64, 128, 192)] +
          [gx("drv", "lookup", 3, "VP_FROM=%d" % f, "VP_FIRST=%d" % a, "VP_LAST=%d" % b, "VP_TABLE=%d" % n) for f in (0, 64, 128, 192) for a, b, n in FONTS] +
          [gx("drv_bounds", "bounds", 4, "VP_TEXT=" + t, "VP_AT=%d" % at) for t, at in
           (("'A'", 0), ("'A','B'", 0), ("'A','B'", 1), ("'A','B','A'", 1), ("'C','B','A'", 0), ("'C','B','A'", 2), ("'A','A'", 1))] +
          [gx("drv_empty", "empty", 1), gx("drv_none", "none", 1)])

TT = dict(check_term=True, frame=1)
PROPS["G01"]["tasks"] += [gx("drv_any", "any", 1, "VP_DRAW=%d" % (r + 1), sources=GT, kinds=ASSERT, thorough=True, portfolio=[dict(merge_at=4, frame=1)], limit=600, budget=500.0) for r in range(4)]
PROPS["G05"] = dict(
    level="proof", rule="each round of each loop strictly moves a location of the loop in one direction inside its machine type (lexicographically)",
    explain="Ranking argument on the loop invariants of every drawing operation, with any arguments, and of the text bounds of a text of any length.",
    kinds=("terminates",),
    tasks=[gb(i, r, opt=TT, floor=1, thorough=r > 0, portfolio=[dict(merge_at=20)] if i > 3 else [dict(merge_at=4), dict(merge_at=20)]) for i in (5, 4, 3, 1, 2) for r in range(4)] +
          [gx("drv_any", "any", 1, "VP_DRAW=%d" % d, sources=GT, kinds=("terminates",), opt=TT, portfolio=[dict(merge_at=4)], limit=600, thorough=d > 0, budget=500.0) for d in (0, 1)] +
          [gf("drv_clear_any", "cleared", d, size=(320, 240), floor=1, opt=dict(check_term=True, merge_at=4, max_unroll=2), kinds=("terminates",)) for d in (4, 16)])


# ------------------------------------------------------------------------------------------------ hardware backends
HI = {"arduino": ["$VERIF/drivers/hal/arduino", "$REPO/arduino"], "esp": ["$VERIF/drivers/hal/esp", "$REPO/esp32-esp-idf"]}
HD = {"arduino": "arduino/", "esp": "esp32-esp-idf/"}
HP = [dict(merge_at=20, narrow=0), dict(merge_at=64, narrow=0), dict(merge_at=20)]
HM = MEM + ASSERT


def hal(back, driver, sources, fn, reach, floor, defs=(), **k):
    return dict(dict(driver="hal_%s_%s.cpp" % (driver, back), sources=[HD[back] + s for s in sources], includes=HI[back], fn=fn, reach=reach, floor=floor,
                     defines=list(defs), kinds=HM, portfolio=HP), **k)


def uart(back, fn, reach, floor, *defs, **k):
    return hal(back, "uart", ["PacketUart.cpp"] + (["SimpleUartDevice.cpp"] if back == "esp" else []), fn, reach, floor, defs, **k)


UB = []
for b in ("arduino", "esp"):
    UB += [uart(b, "drv_send", ["sent"], 2), uart(b, "drv_receive", [], 2), uart(b, "drv_receive", ["got"], 3, "VP_BYTES", "VP_REL=0")]
    FL = ("VP_FOREVER", "VP_LIMITED") if b == "esp" else ("VP_ALL",)
    UB += [uart(b, "drv_until", [], 2, f) for f in FL] + [uart(b, "drv_between", [], 2)]
    UB += [uart(b, "drv_until", ["got"], 4, "VP_BYTES", "VP_REL=%d" % r, f) for r in range(3) for f in FL]
    UB += [uart(b, "drv_between", ["got"], 4, "VP_BYTES", "VP_REL=%d" % r, portfolio=HP if b == "arduino" else HP[1::-1], **k) for r in range(3) for k in (dict(),)]
    UB += [uart(b, "drv_between", ["got"], 4, "VP_BYTES", "VP_FIRST", "VP_REL=%d" % r) for r in range(3)]
PROPS["H01"] = dict(
    level="proof", rule="each byte below the returned count is the byte the UART delivered at that place, the count is what was taken from the UART and at most the size of the buffer; packets end at the end byte; nothing else is written",
    explain="The UART is an environment that delivers any bytes with any gaps and errors; any buffer size, start and end byte and timeout; one arbitrary byte of the packet is followed.",
    tasks=UB)
PROPS["H02"] = dict(
    level="proof", rule="no poll or wait lies behind the deadline on a clock that may wrap, an incomplete receive means that the deadline was seen, the stream's own timeout is restored on every exit",
    explain="The clock starts anywhere and advances arbitrarily between two looks at it; differences modulo 2^32.",
    tasks=[uart(b, f, r, 1, "VP_DEADLINE", *m) for b in ("arduino", "esp") for f, r in (("drv_send", ["sent"]), ("drv_receive", []), ("drv_until", []), ("drv_between", []))
           for m in ((("VP_FOREVER",), ("VP_LIMITED",)) if (b, f) == ("esp", "drv_until") else ((),))])
PROPS["H03"] = dict(
    level="proof", rule="byte k sent is byte k of the caller's block, byte k received lands in place k, exactly the given length is moved, in chunks the driver accepts and in one transaction; success is reported exactly when all of it went through",
    explain="Any length up to 65535, one arbitrary byte of the block followed; the ESP driver may fail at any chunk.",
    tasks=[hal("arduino", "spi", ["SpiBus.cpp", "SpiDevice.cpp"], "drv", ["moved"], 4, ["VP_MODE=%d" % m] + d) for m in range(4) for d in ([], ["VP_BYTES"])] +
          [hal("esp", "spi", ["SpiBus.cpp", "SpiDevice.cpp"], "drv", ["moved", "refused"], 4, ["VP_MODE=%d" % m] + d) for m in range(3) for d in ([], ["VP_BYTES"])])
I2 = ["I2CDevice.cpp"]
PROPS["H04"] = dict(
    level="proof", rule="an I2C, GPIO or ADC operation addresses its own device or pin only and reports success or a value exactly when the driver did",
    explain="Any address, pin, length and data; the drivers may refuse or fail at each call.",
    tasks=[hal("arduino", "i2c", I2, "drv_send", ["sent"], 3), hal("arduino", "i2c", I2, "drv_receive", ["received"], 3), hal("arduino", "i2c", I2, "drv_receive", ["received"], 4, ["VP_BYTES"])] +
          [hal("esp", "i2c", I2 + ["I2CBus.cpp"], f, [r], 2, ["VP_FAILS=%d" % i]) for f, r in (("drv_transfer", "transferred"), ("drv_test", "tested"), ("drv_init", "init")) for i in range(3)] +
          [hal("arduino", "gpio", ["GpioDigitalPin.cpp", "AnalogPin.cpp"], f, [r], 1) for f, r in (("drv_levels", "levels"), ("drv_select", "selected"), ("drv_init", "init"), ("drv_analog", "analog"))] +
          [hal("esp", "gpio", ["GpioDigitalPin.cpp"], f, [r], 1, portfolio=[{}]) for f, r in (("drv_levels", "levels"), ("drv_select", "selected"), ("drv_init", "init"))] +
          [hal("esp", "adc", ["AnalogPin.cpp"], "drv", ["converted"], 6 if f < 64 else 2, ["VP_FROM=%d" % f], portfolio=[{}]) for f in (0, 32, 64, 96)])
PROPS["H05"] = dict(
    level="proof", rule="typestate of buses, devices, ADC units and command lists: nothing is used unclaimed, claimed twice, or still claimed when its user is gone or has reported failure",
    explain="Any history of claiming, failing to claim and giving back; every failure point of the drivers.",
    tasks=[hal("esp", "spi", ["SpiBus.cpp", "SpiDevice.cpp"], "drv_life", ["released", "gone"], 6, ["VP_MODE=3"]),
           hal("esp", "i2c", I2 + ["I2CBus.cpp"], "drv_test", ["tested"], 4, ["VP_FAILS=0"])] +
          [hal("esp", "i2c", I2 + ["I2CBus.cpp"], "drv_test", ["tested"], 4, ["VP_FAILS=%d" % i]) for i in (1, 2)] +
          [hal("esp", "adc", ["AnalogPin.cpp"], "drv", ["converted"], 6 if f < 64 else 2, ["VP_FROM=%d" % f], portfolio=[{}]) for f in (0, 32)])
SERIAL = dict(kinds=HM, portfolio=[dict(merge_at=20, max_unroll=2), dict(merge_at=6, max_unroll=2), dict(merge_at=20)])


def serial(back, fn, reach, floor, line, odd):
    return dict(SERIAL, driver="hal_serial.cpp", sources=BO + [HD[back] + "SerialOut.cpp"], includes=HI[back], fn=fn, reach=reach, floor=floor,
                defines=["VP_LINE=%d" % line, "VP_ODD=%d" % odd, "VP_LEAST=%d" % odd])


PROPS["H06"] = dict(
    level="proof", rule="a flush hands the whole content of the buffer to the UART, in order, once, and empties the buffer; the end of a line is always sent, after it",
    explain="Any buffer size up to 2^30 and fill level; one arbitrary byte followed to the UART.",
    tasks=[serial(b, "drv", ["filled", "emptied"], 2, l, o) for b in ("arduino", "esp") for l in (0, 1) for o in (0, 1)] +
          [serial(b, "drv_line", ["line"], 1, 1, o) for b in ("arduino", "esp") for o in (0, 1)] +
          [serial(b, "drv_bytes", ["bytes"], 2, 0, 0) for b in ("arduino", "esp")])
