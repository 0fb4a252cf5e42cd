from driver import Unit
UNITS = []
SEARCH = []
LEVELS = {}
ASSUMPTIONS = [
    "memory allocation never fails; std::pair, std::vector, std::variant and the atomic builtins are executed as compiled, not assumed",
    "pointer provenance, strict aliasing and padding are as the LLVM IR of clang 18 at -O1 without optimisation passes makes them",
    "user-supplied types, comparators and extractors are the ones the harnesses instantiate",
    "machine integers are bit vectors of their real width; nothing is treated as mathematical",
]


def B(name, src, props, **kw):
    UNITS.append(Unit(name, src, props, "bounded", **kw))


def C(name, src, props, **kw):
    UNITS.append(Unit(name, src, props, "contract", **kw))


def S(name, src, props, **kw):
    SEARCH.append(Unit(name, src, props, "search", **kw))


SEQ = {0: "index, sum, min, max on uint32 (leaf capacity 3, internal capacity 4)", 1: "max, 64-bit sum of int32, 64-bit index, min (4/5)", 2: "no extension (3/4)",
       3: "16-bit index, min with ties, max by low byte, 16-bit sum (5/6)", 4: "default 512-byte nodes, all extensions", 5: "sum and index (2/4)"}
ORDC = {0: "map, linear search (3/4)", 1: "map, binary search (3/4)", 2: "decreasing signed keys, all extensions, linear search", 3: "the same with binary search",
        4: "set with unequal equivalent keys and index, linear search", 5: "the same with binary search", 6: "64-bit key stored second, with sum"}


def bset(src, entry, props, size, extra="", parts=24, thorough=None, **kw):
    """One entry point of the API layer over several configurations.  size: {configuration: size flags} of the quick
    tier; thorough: size flags of the thorough tier (every configuration listed there)."""
    names = ORDC if "-DORD" in extra or src in ("api_ord.cpp",) or (src == "api_checked.cpp" and "-DSEQ" not in extra) else TRK if src == "api_track.cpp" else SEQ
    tag = "o" if names is ORDC and "-DORD" in extra else ""
    for c, fl in size.items():
        B("%s%s_c%d" % (tag, entry, c), src, props, unit=entry, flags=["-DCFG=%d" % c] + extra.split() + fl.split(), parts=parts, bound="tree sizes %s, all build orders and positions of the unit; node capacities of the configuration" % fl, what=names[c], **kw)
    for c, fl in (thorough or {}).items():
        B("%s%s_c%d_deep" % (tag, entry, c), src, props, unit=entry, flags=["-DCFG=%d" % c] + extra.split() + fl.split(), parts=64, tier="thorough", bound="tree sizes %s, all build orders and positions of the unit; node capacities of the configuration" % fl, what=names[c], timeout=3000, **kw)


TRK = {0: "tracked elements, index", 1: "tracked elements, min, max, index", 2: "map of tracked keys and values", 3: "the same with binary search and exceptions disabled"}
def N(n): return "-DNMAX=%d" % n
def NL(*a): return "-DNLIST=" + ",".join(map(str, a))

# ---- API layer: bounded stand-ins (public histories on small nodes; values, keys, targets universally quantified)
bset("api_seq.cpp", "edit", "P01 P05 P09 P10 P12 P14 P16 P19", {0: N(14), 1: N(10), 2: N(14), 3: N(10), 5: N(10)}, thorough={0: N(22), 1: N(22), 2: N(40), 3: N(32), 5: N(22), 4: NL(0, 1, 62, 63, 64, 125, 126, 127, 128, 190, 253)})
bset("api_seq.cpp", "hist", "P01 P03 P05 P09 P10 P12 P14", {0: N(14), 1: N(10), 3: N(10), 5: N(10)}, thorough={2: N(14)})
bset("api_seq.cpp", "drain", "P01 P02 P05 P12", {0: N(14), 3: N(10)}, thorough={1: N(20), 2: N(14), 5: N(10)})
bset("api_seq.cpp", "share", "P03 P05 P06 P19", {0: NL(0, 1, 4, 6, 13), 2: N(10)}, thorough={0: N(14), 1: N(14), 2: N(24), 3: N(14), 5: N(14)})
bset("api_iter.cpp", "walk", "P14", {0: N(12), 1: N(12), 2: N(12), 5: N(12)}, thorough={0: N(20), 1: N(20), 3: N(20), 2: N(20), 5: N(20)})
bset("api_iter.cpp", "compare", "P15", {0: N(12), 1: N(12), 2: N(12), 5: N(12)}, thorough={0: N(20), 1: N(20), 3: N(20), 2: N(20), 5: N(20)})
bset("api_iter.cpp", "sources", "P14 P15", {0: N(12), 1: N(12), 5: N(12)}, thorough={0: N(20), 3: N(20), 2: N(20)})
bset("api_iter.cpp", "iteredit", "P16", {0: N(12), 1: N(12), 2: N(12), 3: N(12), 5: N(12)}, thorough={0: N(18), 1: N(20), 3: N(24), 2: N(24), 5: N(20)})
bset("api_iter.cpp", "itersweep", "P16", {0: N(12), 2: N(12), 5: N(12)}, thorough={0: N(20), 1: N(20), 2: N(24)})
bset("api_iter.cpp", "survive", "P17", {0: NL(1, 4, 7, 13), 2: N(10), 5: N(8)}, thorough={0: N(14), 1: N(14), 3: N(14), 2: N(18), 5: N(14)})
bset("api_iter.cpp", "survivep", "P17 P03", {0: NL(1, 4, 7, 13), 2: N(10), 5: N(8)}, thorough={0: N(14), 1: N(14), 3: N(14), 2: N(18), 5: N(14)})
bset("api_query.cpp", "range", "P13", {0: N(12), 1: N(12), 3: N(12)}, thorough={0: N(18), 1: N(18), 3: N(20)})
bset("api_query.cpp", "rangesym", "P13", {0: NL(1, 3, 4, 6, 8), 1: NL(1, 4, 6), 3: NL(1, 6, 7)}, thorough={0: N(10), 1: N(8), 3: N(8)})
bset("api_query.cpp", "sumlb", "P11", {0: N(12), 1: N(12), 3: N(12), 5: N(12)}, thorough={0: N(20), 1: N(20), 5: N(24)})
bset("api_query.cpp", "sumlbsym", "P11", {0: N(12), 1: N(12), 5: N(12)}, thorough={0: N(18), 1: N(18), 5: N(18)})
bset("api_misc.cpp", "alias", "P22", {0: NL(1, 3, 6, 13), 1: NL(1, 4, 9), 2: N(8), 3: NL(1, 5, 11), 5: N(7)}, thorough={0: N(14), 1: N(14), 2: N(20), 3: N(14), 5: N(14)})
bset("api_misc.cpp", "copies", "P03 P05", {0: NL(0, 1, 3, 4, 13), 2: N(9), 1: NL(1, 4, 9)}, thorough={0: N(14), 1: N(14), 2: N(20), 3: N(14)})
bset("api_misc.cpp", "sharing", "P06 P05", {0: N(14), 1: N(10), 2: N(14), 3: N(10), 5: N(10)}, thorough={0: N(30), 2: N(40), 5: N(40)})
bset("api_misc.cpp", "occupancy", "P02", {0: N(10), 1: N(10), 2: N(10), 3: N(10), 5: N(10)})
bset("api_misc.cpp", "nonempty", "P02", {0: N(10), 1: N(10), 2: N(10), 3: N(10), 5: N(10)})
bset("api_ord.cpp", "okey", "P07 P19", {0: N(10), 1: N(10), 2: N(8), 3: N(8), 4: N(10), 5: N(10), 6: N(10)}, thorough={0: N(20), 1: N(20), 2: N(14), 3: N(14), 4: N(18), 5: N(18), 6: N(20)})
bset("api_ord.cpp", "oshare", "P03 P07 P19", {0: N(10), 2: NL(0, 1, 5), 5: N(10)}, thorough={0: N(16), 1: N(16), 2: N(10), 3: N(10), 4: N(14), 5: N(14), 6: N(16)})
bset("api_ord.cpp", "olook", "P08", {0: N(10), 1: N(10), 2: N(8), 3: N(8), 4: N(10), 5: N(10), 6: N(10)}, thorough={0: N(30), 1: N(30), 2: N(30), 3: N(30), 4: N(24), 5: N(24), 6: N(30)})
bset("api_ord.cpp", "oedlook", "P08", {0: N(10), 1: N(10), 2: N(8), 3: N(8), 4: N(10), 5: N(10), 6: N(10)}, thorough={0: N(18), 1: N(18), 2: N(18), 3: N(18), 4: N(16), 5: N(16), 6: N(18)})
bset("api_ord.cpp", "ohist", "P07 P08", {0: N(10), 1: N(10), 4: N(10), 5: N(10)}, thorough={2: N(8), 3: N(8), 6: N(10)})
bset("api_ord.cpp", "oalias", "P22", {0: N(10), 1: N(10), 2: NL(1, 5, 6), 4: N(7), 6: N(10)}, thorough={0: N(14), 1: N(14), 2: N(8), 3: N(8), 4: N(12), 5: N(12), 6: N(14)})
bset("api_ord.cpp", "oproxy", "P18", {0: N(10), 1: N(10), 6: N(10)}, thorough={0: N(16), 1: N(16), 6: N(16)})
bset("api_track.cpp", "tedit", "P04 P05", {0: N(10), 1: N(10), 2: N(10), 3: N(10)}, thorough={0: N(24), 1: N(24), 2: N(20), 3: N(20)})
bset("api_track.cpp", "tshare", "P04 P05", {0: N(10), 1: N(10), 2: N(10), 3: N(10)}, thorough={0: N(20), 1: N(20), 2: N(16), 3: N(16)})
bset("api_track.cpp", "thist", "P04 P05", {0: N(10), 1: N(10), 2: N(10), 3: N(10)})
bset("api_checked.cpp", "ckey", "P20", {0: N(8), 1: N(8), 2: N(8), 4: N(8), 5: N(8), 6: N(8)}, thorough={c: N(12) for c in range(7)})
bset("api_checked.cpp", "cgood", "P20", {0: N(8), 1: N(8), 2: N(8), 4: N(8), 5: N(8), 6: N(8)}, thorough={c: N(12) for c in range(7)})
bset("api_checked.cpp", "cminmax", "P20", {0: N(8), 1: N(8), 3: N(8)}, extra="-DSEQ", thorough={0: N(12), 1: N(12), 3: N(12)})
bset("api_checked.cpp", "citer", "P20", {0: N(8), 1: N(8), 3: N(8)}, extra="-DSEQ", thorough={0: N(12), 1: N(12), 3: N(12)})
bset("api_throw.cpp", "throwing", "P21", {0: NL(1, 4, 8), 2: N(8), 3: NL(1, 6)}, thorough={0: N(8), 2: N(14), 3: N(8)})
bset("api_throw.cpp", "throwing", "P21", {0: N(8), 2: NL(1, 6), 4: NL(1, 5, 8)}, extra="-DORD", thorough={c: N(9) for c in (0, 1, 2, 4, 6)})
bset("api_throw.cpp", "throwown", "P21", {0: NL(1, 4, 8), 2: N(8)}, thorough={0: N(8), 2: N(14), 3: N(8)})
bset("api_throw.cpp", "throwown", "P21", {0: N(8), 4: NL(1, 5, 8)}, extra="-DORD", thorough={c: N(9) for c in (0, 1, 2, 4, 6)})
bset("api_proxy.cpp", "proxy", "P18", {0: NL(1, 4, 7), 2: N(7), 3: NL(1, 6), 5: N(5)}, thorough={0: N(8), 2: N(14), 3: N(8), 5: N(10)})
bset("api_proxy.cpp", "proxy2", "P18", {0: NL(1, 4, 7), 2: N(7), 3: NL(1, 6), 5: N(5)}, thorough={0: N(8), 2: N(14), 3: N(8), 5: N(10)})
bset("api_proxy.cpp", "proxyx", "P17 P18", {0: NL(1, 4, 7), 2: N(7), 5: N(5)}, thorough={0: N(8), 2: N(14), 3: N(8), 5: N(10)})
bset("api_thread.cpp", "threads", "P23", {0: N(8), 2: N(8), 3: N(8), 5: N(8)}, thorough={0: N(14), 2: N(20), 3: N(14), 5: N(14)})
bset("api_thread.cpp", "threads", "P23", {0: N(8), 2: N(5), 5: N(8)}, extra="-DORD", thorough={0: N(14), 2: N(8), 5: N(12), 6: N(12)})
