"""Bounded call histories on stateful types: what a sequence of calls returns and writes, from the constructor on.

These obligations do not look at private fields, so they also judge a changed representation."""
import props as P

W, R = P.BW, P.BR
FLUSHW, FLUSHR = W + "flush_write_word", R + "flush_read_word"
_NEXT = " as std::iter::Iterator>::next"


def writer(ops):
    return [("bits::BitsIOWriter::new", "new")] + [({"p": W + "put_bits", "f": FLUSHW}[c], "do") for c in ops]


def reader(ops):
    return [("bits::BitsIOReader::new", "new")] + [({"b": R + "get_bits", "z": R + "get_zeros", "f": FLUSHR}[c], "do") for c in ops]


def iterator(ctor, nxt, n):
    return [(x, "new" if not i else "into") for i, x in enumerate(ctor)] + [(nxt, "do")] * n


HIST = {}
for o in ("ppp", "ppf", "pfp", "fpf", "pppf"):
    HIST["BitsIOWriter(%s)" % o] = writer(o)
for o in ("bb", "bzb", "zz", "zbb", "bfb", "zfz", "bbb", "bzf"):
    HIST["BitsIOReader(%s)" % o] = reader(o)
HIST["OverlappingChunksIterator x5"] = iterator([P.OVI + "::from_slice"], "<" + P.OVI + _NEXT, 5)
HIST["DoubleOverlappingChunksIterator x5"] = iterator([P.DOI + "::from_slice"], "<" + P.DOI + _NEXT, 5)
HIST["VariableChunksIterator x4"] = iterator([P.VCI + "::new"], "<" + P.VCI + _NEXT, 4)
HIST["Image::into_chunks_mut x5"] = iterator([P.IMG + "Image::from_slice", P.IMG + "Image::into_chunks_mut"], "<" + P.IMG + "ImageChunkIteratorMut" + _NEXT, 5)

# types whose values only their own functions make, and the histories that judge them
TYPES = {
    "bits::BitsIOWriter": [h for h in HIST if h.startswith("BitsIOWriter")],
    "bits::BitsIOReader": [h for h in HIST if h.startswith("BitsIOReader")],
    P.OVI: ["OverlappingChunksIterator x5"], P.DOI: ["DoubleOverlappingChunksIterator x5"], P.VCI: ["VariableChunksIterator x4"],
    P.IMG + "Image": ["Image::into_chunks_mut x5"], P.IMG + "ImageChunkIteratorMut": ["Image::into_chunks_mut x5"],
    P.IMG + "ImageChunkIteratorState": ["Image::into_chunks_mut x5"],
}
HW = [h for h in HIST if h.startswith("BitsIOWriter")]
HR = [h for h in HIST if h.startswith("BitsIOReader")]
HV, HO, HD, HI = "VariableChunksIterator x4", "OverlappingChunksIterator x5", "DoubleOverlappingChunksIterator x5", "Image::into_chunks_mut x5"
OBLIGATIONS = {
    "C01": HW + HR, "C02": HW + HR, "C03": HW + HR, "C09": HW + HR,
    "C05": [HO], "C06": [HD], "C12": HR + [HV, HI], "C13": [HO, HD, HI], "C15": [HV, HI] + HW, "C16": [HV, HI] + HR,
    "C17": list(HIST), "C18": [HI], "C20": [HO, HD, HV, HI], "C21": HR + [HV, HI], "C22": list(HIST),
}


def reshaped(spec, repo):
    """types whose fields (names and types) are not the reference's"""
    out = set()
    for p, a in repo.adts.items():
        s = spec.adts.get(p)
        if s is None or not a.get("local") or not s.get("local"):
            continue

        def fields(prog, v):
            return {f["n"]: str(prog.ty(f["t"])).replace("gfwxspec", "gfwx") for f in v["f"]}

        def same(x, y):
            # a renamed field keeps its place among the unmatched ones
            return (len(x) == len(y) and all(x[n] == y[n] for n in x if n in y)
                    and [t for n, t in x.items() if n not in y] == [t for n, t in y.items() if n not in x])
        if len(s["v"]) != len(a["v"]) or not all(same(fields(spec, x), fields(repo, y)) for x, y in zip(s["v"], a["v"])):
            out.add(p)
    return out


def mentions(t, names):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and t[1] in names:
            return True
        return any(mentions(x, names) for x in t)
    return False
