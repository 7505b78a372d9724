"""C08: what the builder writes to disk is read back with the same layout."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, AnalysisError, is_log
from place import Fn, pathtext
import ser

FILES = re.compile(r"ad_utility::File\b|basic_[io]?fstream|[io]?fstream")


def bodies(prog, qn):
    return [f for f in prog.fns(qn) if f.get("body") and not f["key"].startswith("T:")]


def channel(f):
    """Which expressions of a function denote a file or stream."""
    types = {n["id"]: n.get("t", "") for n in walk(f["body"]) if n["k"] == "var"}
    types.update({q["id"]: q["t"] for q in f.get("params", [])})

    def ch(x):
        x = strip(x)
        while True:
            if x["k"] == "un" and x["op"] in ("*", "&"):
                x = strip(x["x"])
            elif x["k"] == "call" and x.get("op") in ("[]", "*", "->"):
                x = strip(x["a"][0])
            elif x["k"] == "call" and short(x) in ("back", "front", "at") and x.get("o") is not None:
                x = strip(x["o"])
            else:
                break
        t = types.get(x.get("id"), "") or x.get("t", "")
        return x["k"] in ("ref", "mem") and FILES.search(t) is not None
    return ch


def sequence(prog, f, mode, assume=None):
    buf = None
    ch = channel(f)
    if mode == "r" and f["n"] == "createFromByteBuffer":
        buf = {f["params"][0]["id"]}
    s = ser.Seq(prog, f, mode, ch, buf, assume)
    return s, s.run()


def is_stream_of(f, cls):
    return len(f.get("params", [])) == 2 and FILES.search(f["params"][0]["t"]) and re.sub(r"^const ", "", f["params"][1]["t"]).split("<")[0].split("::")[-1].rstrip(" &") == cls


def check(prog, rep):
    rep.rule("layout", "a reader consumes the items its writer produces, in the same sequence, with the same widths and into the same fields", 14)
    rep.rule("position", "every value is read right behind the one before, with the width of the value it is stored in", 14)
    rep.rule("size", "the size an object claims to occupy is the number of bytes its writer produces", 4)
    rep.rule("marker", "a constant written as magic number or version is one the reader accepts", 4)
    rep.rule("packing", "values packed into one word are taken out with the mask and shift they are put in with, and do not overlap", 5)
    rep.rule("trailer", "the offset stored at the end of a file is the position where the metadata starts, taken before it is written", 3)
    rep.rule("elements", "the number of bytes written or read per element is the size of the element", 9)
    rep.rule("sections", "the posting lists are read from the positions and with the coding they were written with", 12)
    rep.rule("settings", "every key the server reads from the configuration of an index is stored there by the builder", 6)
    rep.rule("escaping", "words are escaped when they are written to line-based files and unescaped when they are read", 5)
    rep.rule("offsets", "the offset of a word is recorded before the word is written, and the end of the last one after", 2)
    for part in (layouts, packing, trailer, elements, sections, settings, escaping, offsets):
        rep.part(part, prog, rep)


def report(rep, name, wf, rf, ws, rs, s1, s2):
    for f, s, kind in ((wf, s1, "writer"), (rf, s2, "reader")):
        rep.inst("position", "%s of %s (%s)" % (kind, name, loc(f)))
        for n, t in s.problems:
            rep.viol("position", "%s %s" % (name, kind), loc(f, n), "%s %s" % (f["qn"], t))
    for w in sorted(ws, key=str):
        rep.inst("layout", "%s: %s writes %s" % (name, wf["qn"], ser.describe(w)[:200]))
    why = ser.agree(ws, rs)
    if why:
        rep.viol("layout", name, loc(rf), "%s does not read what %s (%s) writes: %s" % (rf["qn"], wf["qn"], loc(wf), why))
    for k, c in s1.consts.items():
        allowed = set()
        for v in s2.compared.values():
            allowed |= v
        if not allowed or k.upper() != k and "magic" not in k.lower() and "version" not in k.lower() and "byte" not in k.lower():
            continue
        if ("version" in k.lower() or k.startswith("V_")) and not any("version" in x.lower() for x in s2.compared) and "magic" not in k.lower():
            continue
        rep.inst("marker", "%s: %s = %s" % (name, k, c))
        if c not in allowed and (c & 0xffffffffffffffff) not in {a & 0xffffffffffffffff for a in allowed}:
            rep.viol("marker", "%s %s" % (name, k), loc(rf), "%s writes %s = %s, which %s does not test for" % (wf["qn"], k, c, rf["qn"]))


def version_of(s1):
    """Truth of a comparison of the stored version, given what the writer stores."""
    cur = [v for k, v in s1.consts.items() if ("version" in k.lower() or k.upper().startswith("V_")) and "magic" not in k.lower()]

    def assume(c):
        c = strip(c)
        if len(cur) != 1 or c["k"] != "bin" or c["op"] not in ("<", ">", "<=", ">=", "==", "!="):
            return None
        x, y = strip(c["x"]), strip(c["y"])
        a, b = (const_int(z) for z in (x, y))
        if b is not None and a is None and "version" in x.get("n", "").lower():
            a = cur[0]
        elif a is not None and b is None and "version" in y.get("n", "").lower():
            b = cur[0]
        else:
            return None
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[c["op"]]
    return assume


def kind(t):
    """Name of a class with the parts of its arguments that decide the layout."""
    return re.sub(r"View\b", "", t.replace("const ", "").rstrip(" &").replace(" ", ""))


def layouts(prog, rep):
    writers, readers = {}, {}
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if k.startswith("T:") or b"operator<<" not in raw and b"createFromByteBuffer" not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body"):
            continue
        if f["n"] == "operator<<" and len(f["params"]) == 2 and "ad_utility::File" in f["params"][0]["t"]:
            writers.setdefault(kind(f["params"][1]["t"]), []).append(f)
        elif f["n"] == "createFromByteBuffer":
            readers.setdefault(kind(f["cls"]), []).append(f)
    if len(readers) < 6:
        raise AnalysisError("anchor vanished: only %d classes read from a byte buffer" % len(readers))
    fixed = {}
    for cls, rfs in sorted(readers.items()):
        name = cls.split("<")[0] + ("<%s>" % cls.split("<")[1] if "<" in cls else "")
        if cls not in writers:
            raise AnalysisError("anchor vanished: no operator<< to a file for %s" % cls)
        wf = writers[cls][0]
        s1, ws = sequence(prog, wf, "w")
        for rf in rfs:
            s2, rs = sequence(prog, rf, "r", version_of(s1))
            report(rep, name, wf, rf, ws, rs, s1, s2)
        fixed[cls.split("<")[0]] = ws
    # claimed sizes
    for cls, ws in sorted(fixed.items()):
        for m in ("bytesRequired", "sizeOnDisk"):
            for f in bodies(prog, "%s::%s" % (cls, m)):
                rets = [n for n in walk(f["body"]) if n["k"] == "ret" and n.get("e")]
                if len(rets) != 1 or len(ws) != 1:
                    continue
                claim = ser.Seq(prog, f, "r", lambda x: False).lin(rets[0]["e"], ser.State())
                need = total(prog, list(ws)[0], fixed)
                rep.inst("size", "%s::%s = %s" % (cls, m, ser.linshow(claim)))
                terms = sorted(v for k, v in claim.items() if k is not None and v)
                if need is None:
                    continue
                blobs = sum(1 for i in list(ws)[0] if i[0] == "blob")
                if claim.get(None, 0) != need or len(terms) != blobs:
                    rep.viol("size", "%s::%s" % (cls, m), loc(f), "%s claims %s bytes, but %d bytes%s are written" %
                             (f["qn"], ser.linshow(claim), need, " and %d lists" % blobs if blobs else ""))
    pairs = [("patterns list", "CompactStringVector::write", "CompactStringVector::load"),
             ("patterns file", "Index::createPatternsImpl", "Index::createFromOnDiskIndex"),
             ("mapped file", "ad_utility::MmapVector::writeMetaDataToEnd", "ad_utility::MmapVector::readMetaDataFromEnd")]
    for name, w, r in pairs:
        wfs, rfs = bodies(prog, w), bodies(prog, r)
        if not wfs or not rfs:
            raise AnalysisError("anchor vanished: %s" % (r if wfs else w))
        for wf in wfs:
            s1, ws = sequence(prog, wf, "w")
            ws = frozenset(x for x in ws if x)
            rf = next((x for x in rfs if x["cls"] == wf["cls"]), rfs[0])
            s2, rs = sequence(prog, rf, "r", version_of(s1))
            if not ws:
                raise AnalysisError("anchor vanished: %s writes nothing" % w)
            report(rep, name, wf, rf, ws, rs, s1, s2)
    # partial vocabularies: each place that reads an entry
    wfs, rfs = bodies(prog, "writePartialVocabularyToFile"), bodies(prog, "VocabularyMerger::mergeVocabulary")
    if not wfs or not rfs:
        raise AnalysisError("anchor vanished: partial vocabularies")
    s1, ws = sequence(prog, wfs[0], "w")
    wl = [i for w in ws for i in w if i[0] == "loop"]
    if not wl:
        raise AnalysisError("anchor vanished: loop of writePartialVocabularyToFile")
    for rf in rfs[:1]:
        s2, rs = sequence(prog, rf, "r")
        rl = {i for r in rs for i in flatten(r) if i[0] == "loop"}
        if not rl:
            raise AnalysisError("anchor vanished: mergeVocabulary reads nothing")
        for l in sorted(rl, key=str):
            report(rep, "partial vocabulary", wfs[0], rf, {(wl[0],)}, {(l,)}, s1, s2)
    # compressed lists of the text index
    for t in ("unsigned long", "unsigned short"):
        c = [f for f in bodies(prog, "Index::writeCodebook") if "<%s>" % t in f["key"]]
        l = [f for f in bodies(prog, "Index::writeList") if "<%s>" % t in f["key"]]
        r = [f for f in bodies(prog, "Index::readFreqComprList") if "<%s>" % t in f["key"]]
        if not c or not l or not r:
            raise AnalysisError("anchor vanished: frequency coded lists of %s" % t)
        s1, a = sequence(prog, c[0], "w")
        _, b = sequence(prog, l[0], "w")
        ws = {x + y for x in a for y in b if y}
        s2, rs = sequence(prog, r[0], "r")
        # names of the local buffers need not agree
        report(rep, "coded list of %s" % t, c[0], r[0], {plain(x) for x in ws}, {plain(x) for x in rs}, s1, s2)


def plain(seq):
    return tuple(i[:-1] + ("",) for i in seq)


def flatten(seq):
    for i in seq:
        yield i
        if i[0] == "loop":
            for a in i[1]:
                yield from flatten(a)


def total(prog, seq, fixed, depth=0):
    n = 0
    for i in seq:
        if i[0] == "w":
            n += i[1]
        elif i[0] == "sub":
            ws = fixed.get(i[1])
            if depth > 4 or not ws or len(ws) != 1:
                return None
            t = total(prog, list(ws)[0], fixed, depth + 1)
            if t is None:
                return None
            n += t
        elif i[0] != "blob":
            return None
    return n


# ---------------------------------------------------------------- packing
def evalmask(e, F=None):
    e = strip(e)
    v = const_int(e)
    if v is None and e["k"] == "un" and e["op"] == "~":
        x = evalmask(e["x"], F)
        return None if x is None else ~x & 0xffffffffffffffff
    if v is None and e["k"] == "ref" and F is not None:
        i = F.single(e.get("id"))
        return evalmask(i, None) if i is not None else None
    return None if v is None else v & 0xffffffffffffffff


def packing(prog, rep):
    cls = "FullRelationMetaData"
    rec = prog.record(cls)
    fields = {}
    for m in rec["methods"]:
        f = prog.fn(m["fk"]) if m.get("fk") else None
        if not f or not f.get("body"):
            continue
        F = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] != "bin":
                continue
            x = strip(n["x"])
            name = x["n"] if x["k"] == "mem" else None
            stem = re.sub(r"^((set|get|is|has)(?=[A-Z_]))+", "", re.sub(r"^(set|get)(Is|Has)(?=[A-Z])", r"\1", f["n"])).lower()
            if name and n["op"] in ("|=", "=") and f["n"].startswith("set") or name and n["op"] in ("|=",):
                sh = 0
                y = strip(n["y"])
                if y["k"] == "bin" and y["op"] == "<<":
                    sh = const_int(y["y"])
                    fields.setdefault((name, stem), {})["put"] = (sh, None, n, f)
                elif evalmask(y, F) is not None:
                    fields.setdefault((name, stem), {})["put"] = (0, evalmask(y, F), n, f)
            if name and n["op"] == "&=" and evalmask(n["y"], F) is not None:
                fields.setdefault((name, stem), {})["clear"] = (~evalmask(n["y"], F) & 0xffffffffffffffff, n, f)
            if n["op"] == "&":
                for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                    a = strip(a)
                    mask = evalmask(b, F)
                    if a["k"] == "bin" and a["op"] == ">>" and strip(a["x"])["k"] == "mem" and mask is not None:
                        sh = const_int(a["y"]) or 0
                        fields.setdefault((strip(a["x"])["n"], stem), {})["get"] = (sh, (mask << sh) & 0xffffffffffffffff, n, f)
                    elif a["k"] == "mem" and mask is not None and not f["n"].startswith("set"):
                        sh = 0
                        for p in F.ancestors(n):
                            if p["k"] == "bin" and p["op"] == ">>" and const_int(p["y"]) is not None:
                                sh = const_int(p["y"])
                                break
                        fields.setdefault((a["n"], stem), {})["get"] = (sh, mask, n, f)
    got = {k: v for k, v in fields.items() if "get" in v}
    masks = []
    for (name, stem), v in sorted(got.items()):
        sh, mask, n, f = v["get"]
        rep.inst("packing", "%s::%s: mask %#x, shift %d" % (cls, f["n"], mask, sh))
        if v.get("put"):
            psh, pm, pn, pf = v["put"]
            if pm is not None and pm != mask:
                rep.viol("packing", "%s mask" % stem, loc(pf, pn), "%s sets the bits %#x, %s tests %#x" % (pf["qn"], pm, f["qn"], mask))
            elif pm is None and psh != sh:
                rep.viol("packing", "%s shift" % stem, loc(pf, pn), "%s shifts by %s, %s by %d" % (pf["qn"], psh, f["qn"], sh))
            elif pm is None and (mask >> sh) << sh != mask:
                rep.viol("packing", "%s low bits" % stem, loc(f, n), "%s loses bits of its mask %#x by shifting by %d" % (f["qn"], mask, sh))
        if v.get("clear") and v["clear"][0] != mask:
            rep.viol("packing", "%s clear" % stem, loc(v["clear"][2], v["clear"][1]), "%s clears the bits %#x, %s reads %#x" % (v["clear"][2]["qn"], v["clear"][0], f["qn"], mask))
        for m2, f2 in masks:
            if m2 & mask:
                rep.viol("packing", "%s overlap" % stem, loc(f, n), "%s reads the bits %#x, which overlap with those of %s (%#x)" % (f["qn"], mask, f2["qn"], m2))
        masks.append((mask, f))
    for (name, stem), v in sorted(fields.items()):
        if "put" in v and "get" not in v and v["put"][3]["n"].startswith("set"):
            raise AnalysisError("anchor vanished: no reader of the bits set by %s" % v["put"][3]["qn"])


# ---------------------------------------------------------------- trailer
def trailer(prog, rep):
    n = 0
    for qn in ("IndexMetaData::appendToFile", "Index::createTextIndex"):
        for f in bodies(prog, qn):
            F = Fn(prog, f)
            ch = channel(f)
            writes = [x for x in walk(f["body"]) if x["k"] == "call" and (x.get("op") == "<<" and ch(x["a"][0]) or short(x) == "write" and x.get("o") is not None and ch(x["o"]))]
            if len(writes) < 2:
                raise AnalysisError("anchor vanished: %s does not write metadata and its offset" % qn)
            last = max(writes, key=lambda x: F.order[id(x)])
            md = [x for x in writes if x.get("op") == "<<"]
            if short(last) != "write" or not md:
                rep.viol("trailer", qn + " last", loc(f, last), "%s does not end with the offset of the metadata" % f["qn"])
                continue
            n += 1
            rep.inst("trailer", "%s: %s" % (qn, show(last)))
            v = strip(strip(last["a"][0])["x"]) if strip(last["a"][0])["k"] == "un" else None
            if v is None or v["k"] != "ref" or const_int(last["a"][1]) != 8:
                rep.viol("trailer", qn + " width", loc(f, last), "%s does not store an offset of 8 bytes at the end" % f["qn"])
                continue
            d = F.single(v["id"])
            if d is None:
                rep.viol("trailer", qn + " value", loc(f, last), "the offset stored by %s is changed after it was determined" % f["qn"])
                continue
            tells = [x for x in walk(d) if x["k"] == "call" and short(x) == "tell"]
            if tells:
                if F.order[id(tells[0])] > F.order[id(md[-1])]:
                    rep.viol("trailer", qn + " order", loc(f, tells[0]), "%s determines the start of the metadata after having written it" % f["qn"])
            elif not any(short(x) == "getOffsetAfter" for x in walk(d) if x["k"] == "call"):
                rep.viol("trailer", qn + " source", loc(f, last), "%s stores %s as the start of the metadata" % (f["qn"], show(d)))
    for f in bodies(prog, "ad_utility::File::getLastOffset"):
        reads = [x for x in walk(f["body"]) if x["k"] == "call" and short(x) == "read"]
        if not reads:
            raise AnalysisError("anchor vanished: File::getLastOffset reads nothing")
        r = reads[0]
        s = ser.Seq(prog, f, "r", lambda x: False)
        at = s.lin(r["a"][2], ser.State()) if len(r["a"]) > 2 else None
        rep.inst("trailer", "File::getLastOffset reads %s bytes at %s" % (const_int(r["a"][1]), ser.linshow(at) if at else "?"))
        if const_int(r["a"][1]) != 8 or at is None or at.get(None) != -8:
            rep.viol("trailer", "getLastOffset", loc(f, r), "%s does not read the last 8 bytes of the file" % f["qn"])


# ---------------------------------------------------------------- element sizes
def sizeof(prog, t):
    t = re.sub(r"\bconst\b", "", t).strip(" &")
    if t.endswith("*"):
        return 8
    if t in ser.WIDTH:
        return ser.WIDTH[t]
    m = re.match(r"(?:std::)?(pair|array)<(.*)>$", t)
    if m:
        args, d, cur = [], 0, ""
        for c in m.group(2):
            if c in "<(":
                d += 1
            if c in ">)":
                d -= 1
            if c == "," and d == 0:
                args.append(cur)
                cur = ""
            else:
                cur += c
        args.append(cur)
        if m.group(1) == "array":
            s = sizeof(prog, args[0].strip())
            n = re.match(r"\d+", args[1].strip())
            return s * int(n.group()) if s and n else None
        s = [sizeof(prog, a.strip()) for a in args]
        if None in s:
            return None
        return s[0] + s[1] if s[0] == s[1] else 2 * max(s)
    return None


def element(t):
    t = re.sub(r"\bconst\b", "", t).strip(" &")
    if t.endswith("*"):
        return t[:-1].strip()
    m = re.match(r"(?:std::|ad_utility::)?(?:vector|BufferedVector|MmapVector)<(.*)>$", t)
    if not m:
        return None
    d, out = 0, ""
    for c in m.group(1):
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            break
        out += c
    return out.strip()


def elements(prog, rep):
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if k.startswith("T:") or b"src/index" not in raw or b'"write' not in raw and b'"read' not in raw and b"::read" not in raw and b"::write" not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/index"):
            continue
        ch = channel(f)
        F = None
        for c in walk(f["body"]):
            if c["k"] != "call" or short(c) not in ("read", "write") or c.get("o") is None or not ch(c["o"]) or len(c["a"]) < 2:
                continue
            F = F or Fn(prog, f)
            x = strip(c["a"][0])
            if x["k"] == "call" and short(x) == "data" and x.get("o") is not None:
                x = strip(x["o"])
            elif x["k"] == "un":
                continue
            if x["k"] == "un" and x["op"] == "*":
                x = strip(x["x"])
            t = x.get("t", "")
            if x["k"] == "ref" and x.get("id") in F.vars:
                t = F.vars[x["id"]].get("t", t)
            el = element(t)
            size = sizeof(prog, el) if el else None
            if not size or size == 1:
                continue
            s = ser.Seq(prog, f, "w", ch)
            n = s.lin(c["a"][1], ser.State())
            terms = {k2: v for k2, v in n.items() if k2 is not None and v}
            if not terms or n.get(None):
                continue
            (term, factor) = list(terms.items())[0]
            if len(terms) == 1 and factor > 1:
                rep.inst("elements", "%s: %s elements of %s (%d bytes)" % (f["qn"], short(c), el, size))
                if factor != size:
                    rep.viol("elements", "%s %s" % (f["qn"], show(c["a"][0])), loc(f, c), "%s %ss %d bytes per element of %s, which has %d" % (f["qn"], short(c), factor, show(x), size))
            elif short(c) == "read" and x["k"] == "ref":
                # sized by bytes: the list must have been resized to bytes / element size
                rs = [r for r in walk(f["body"]) if r["k"] == "call" and short(r) == "resize" and r.get("o") is not None and strip(r["o"]).get("id") == x.get("id") and F.order[id(r)] < F.order[id(c)]]
                for r in rs[-1:]:
                    a = strip(r["a"][0])
                    if a["k"] == "bin" and a["op"] == "/" and const_int(a["y"]) is not None:
                        rep.inst("elements", "%s: %s is resized to %s" % (f["qn"], show(x), show(a)))
                        if const_int(a["y"]) != size:
                            rep.viol("elements", "%s resize %s" % (f["qn"], show(x)), loc(f, r), "%s reads %s bytes into %s, which is resized to %s elements of %d bytes" % (f["qn"], show(c["a"][1]), show(x), show(a), size))
                        elif F.text(a["x"]) != F.text(c["a"][1]):
                            rep.viol("elements", "%s bytes %s" % (f["qn"], show(x)), loc(f, c), "%s reads %s bytes into %s, which was sized for %s" % (f["qn"], show(c["a"][1]), show(x), show(a["x"])))


# ---------------------------------------------------------------- posting lists
def sections(prog, rep):
    f = (bodies(prog, "Index::writePostings") or [None])[0]
    if not f:
        raise AnalysisError("anchor vanished: Index::writePostings")
    F = Fn(prog, f)
    order, cur, pend, lastwrite = [], None, False, None
    # the straight part: after the early return
    for n in walk(f["body"]):
        if any(g for g in F.ancestors(n) if g["k"] == "if" and any(r["k"] == "ret" for r in walk(g))):
            continue
        if n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "mem":
            m = strip(n["x"])["n"]
            y = strip(n["y"])
            if y["k"] == "mem" and y["n"] == "_currentoff_t":
                if pend:
                    rep.viol("sections", "advance before " + m, loc(f, n), "%s records %s before it has counted the bytes of %s" % (f["qn"], m, lastwrite))
                order.append([m, []])
            elif y["k"] == "bin" and any(z["k"] == "mem" and z["n"] == "_currentoff_t" for z in walk(y)):
                if pend:
                    rep.viol("sections", "advance before " + m, loc(f, n), "%s records %s before it has counted the bytes of %s" % (f["qn"], m, lastwrite))
                d = ser.Seq(prog, f, "w", lambda x: False).lin(y, ser.State())
                order.append([m, d.get(None, 0)])
        if n["k"] == "call" and short(n) in ("writeCodebook", "writeList"):
            if pend:
                rep.viol("sections", "count of %s" % lastwrite, loc(f, n), "%s does not count the bytes of %s" % (f["qn"], lastwrite))
            inside = any(p["k"] == "bin" and p["op"] == "+=" and strip(p["x"]).get("n") == "_currentoff_t" for p in F.ancestors(n))
            pend = not inside
            lastwrite = show(n)
            if order:
                order[-1][1].append((short(n), show(strip(n["a"][0])), n))
        if n["k"] == "bin" and n["op"] == "+=" and strip(n["x"]).get("n") == "_currentoff_t" and not any(c["k"] == "call" and short(c) in ("writeCodebook", "writeList") for c in walk(n["y"])):
            pend = False
    starts = [o for o in order if isinstance(o[1], list)]
    ends = [o for o in order if not isinstance(o[1], list)]
    if len(starts) != 3 or len(ends) != 1:
        raise AnalysisError("anchor vanished: sections of %s: %s" % (f["qn"], [o[0] for o in order]))
    names = [o[0] for o in starts] + [ends[0][0]]
    codes = {}
    for o in starts:
        kinds = [k for k, _, _ in o[1]]
        rep.inst("sections", "%s is written by %s" % (o[0], ", ".join("%s(%s)" % (k, a) for k, a, _ in o[1])))
        if kinds == ["writeList"]:
            codes[o[0]] = "readGapComprList"
        elif kinds == ["writeCodebook", "writeList"]:
            codes[o[0]] = "readFreqComprList"
            cb, li = o[1][0][1].lower(), o[1][1][1].lower()
            if cb[:4] != li[:4]:
                rep.viol("sections", o[0] + " codebook", loc(f, o[1][0][2]), "%s writes the list %s with the code book %s" % (f["qn"], o[1][1][1], o[1][0][1]))
        else:
            rep.viol("sections", o[0], loc(f), "%s writes %s as %s; no reader expects that" % (f["qn"], o[0], kinds))
        stem = o[0].lower().replace("_start", "")[:4]
        if o[1] and not o[1][-1][1].lower().startswith(stem):
            rep.viol("sections", o[0] + " list", loc(f, o[1][-1][2]), "%s writes %s where %s points" % (f["qn"], o[1][-1][1], o[0]))
    end_off = -ends[0][1]      # _lastByte = position - 1
    seen = 0
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"ComprList" not in raw or k.startswith("T:"):
            continue
        g = prog.fn(k)
        if not g.get("body") or "ComprList" in g["n"]:
            continue
        G = Fn(prog, g)
        for c in walk(g["body"]):
            if c["k"] != "call" or short(c) not in ("readGapComprList", "readFreqComprList"):
                continue
            seen += 1
            s = ser.Seq(prog, g, "w", lambda x: False)
            cnt, frm, nb = c["a"][0], strip(c["a"][1]), c["a"][2]
            fields = [n["n"] for n in walk(frm) if n["k"] == "mem" and n["n"] in names]
            key = "%s %s" % (g["qn"], show(frm))
            rep.inst("sections", "%s: %s(%s, %s, %s)" % (g["qn"], short(c), show(cnt), show(frm), show(nb)))
            if len(fields) != 1 or fields[0] not in codes:
                rep.viol("sections", key, loc(g, c), "%s reads a list from %s, which is no start of a list" % (g["qn"], show(frm)))
                continue
            fld = fields[0]
            obj = G.text(frm)[:-len(fld)]
            if codes[fld] != short(c):
                rep.viol("sections", key + " coding", loc(g, c), "%s reads %s with %s, it is written for %s" % (g["qn"], show(frm), short(c), codes[fld]))
            nxt = names[names.index(fld) + 1]
            d = {}
            for t, v in s.lin(nb, ser.State()).items():
                d[t] = v
            want = {}
            consts = d.get(None, 0)
            parts = {}
            for n in walk(nb):
                if n["k"] == "mem" and n["n"] in names:
                    parts[G.text(n)] = n["n"]
            good = {obj + nxt, obj + fld} == set(parts) and consts == (end_off if nxt == names[-1] else 0)
            signs = {t: v for t, v in d.items() if t is not None and v}
            if good:
                plus = [t for t, v in signs.items() if v == 1 and t.endswith(nxt)]
                minus = [t for t, v in signs.items() if v == -1 and t.endswith(fld)]
                good = bool(plus and minus and len(signs) == 2)
            if not good:
                rep.viol("sections", key + " length", loc(g, c), "%s reads %s bytes from %s; the list ends at %s" % (g["qn"], show(nb), show(frm), nxt))
            if G.text(cnt) != obj + "_nofElements":
                rep.viol("sections", key + " count", loc(g, c), "%s reads %s elements of the list at %s" % (g["qn"], show(cnt), show(frm)))
    if not seen:
        raise AnalysisError("anchor vanished: nobody reads a compressed list")


# ---------------------------------------------------------------- configuration
def keypath(e):
    """('a', 'b') for config["a"]["b"], or None."""
    out = []
    e = strip(e)
    while e["k"] == "call" and e.get("op") == "[]" or e["k"] == "sub":
        i = e["a"][1] if e["k"] == "call" else e["i"]
        s = [n["v"] for n in walk(i) if n["k"] == "str"]
        if len(s) != 1:
            return None
        out.insert(0, s[0])
        e = strip(e["a"][0] if e["k"] == "call" else e["b"])
    if e["k"] == "mem" and e["n"] == "_configurationJson":
        return tuple(out)
    return None


def settings(prog, rep):
    written, read = {}, {}
    for k in prog.all_keys():
        if b"_configurationJson" not in prog.raw["F"][k] or k.startswith("T:"):
            continue
        f = prog.fn(k)
        if not f.get("body"):
            continue
        targets = set()
        for n in walk(f["body"]):
            if n["k"] == "call" and n.get("op") == "=" or n["k"] == "bin" and n["op"] == "=":
                x = n["a"][0] if n["k"] == "call" else n["x"]
                p = keypath(x)
                if p:
                    written.setdefault(p, (f, n))
                    for i in range(1, len(p)):
                        written.setdefault(p[:i], (f, n))
                    for y in walk(x):
                        targets.add(id(y))
        for n in walk(f["body"]):
            if id(n) in targets:
                continue
            p = keypath(n) if n["k"] in ("call", "sub") else None
            if n["k"] == "call" and short(n) in ("find", "count", "contains", "at", "value") and n.get("o") is not None:
                o = strip(n["o"])
                s = [m["v"] for m in walk(n["a"][0]) if m["k"] == "str"] if n["a"] else []
                if o["k"] == "mem" and o["n"] == "_configurationJson" and s:
                    p = (s[0],)
            if p:
                read.setdefault(p, (f, n))
    for p, (f, n) in sorted(read.items()):
        rep.inst("settings", "%s is read in %s" % (".".join(p), f["qn"]))
        if p == ("ignore-case",):
            continue          # only tested to reject old indices
        if p not in written:
            rep.viol("settings", ".".join(p), loc(f, n), "%s reads the setting %s, which no part of the builder stores" % (f["qn"], ".".join(p)))
    for p, (f, n) in sorted(written.items()):
        rep.inst("settings", "%s is written in %s" % (".".join(p), f["qn"]))
        if p not in read:
            rep.viol("settings", ".".join(p) + " unread", loc(f, n), "%s stores the setting %s, which is never read back" % (f["qn"], ".".join(p)))


# ---------------------------------------------------------------- escaping of lines
def escaping(prog, rep):
    ESC, UN = "escapeNewlinesAndBackslashes", "unescapeNewlinesAndBackslashes"
    n = 0
    for f in bodies(prog, "VocabularyMerger::writeQueueWordsToIdVec") + bodies(prog, "VocabularyMerger::mergeVocabulary"):
        F = Fn(prog, f)
        for c in walk(f["body"]):
            if c["k"] != "call" or c.get("op") != "<<" or is_log(c):
                continue
            p = F.parent.get(id(c))
            if p is not None and p["k"] == "call" and p.get("op") == "<<":
                continue
            items, root = [], c
            while strip(root)["k"] == "call" and strip(root).get("op") == "<<":
                root = strip(root)
                items.insert(0, root["a"][1])
                root = root["a"][0]
            r = strip(root)
            if r["k"] not in ("mem", "ref") or "stream" not in r.get("t", "") and "File" not in r.get("t", "") and not r["n"].lower().startswith("_outfile"):
                continue
            for i in items:
                s = strip(i)
                if s["k"] in ("str", "char", "int") or const_int(s) is not None:
                    continue
                n += 1
                rep.inst("escaping", "%s writes %s" % (f["qn"], show(s)))
                if not any(x["k"] == "call" and short(x) == ESC for x in walk(defn(F, s))):
                    rep.viol("escaping", "%s %s" % (f["n"], show(r)), loc(f, c), "%s writes the word %s to a line-based file without escaping line breaks" % (f["qn"], show(s)))
    if not n:
        raise AnalysisError("anchor vanished: nobody writes the vocabulary")
    readers = []
    for qn in ("Vocabulary::readFromFile", "ExternalVocabulary::buildFromTextFile", "calculatePrefixes", "ad_utility::calculatePrefixes"):
        readers += bodies(prog, qn)
    if len({f["qn"] for f in readers}) < 2:
        raise AnalysisError("anchor vanished: readers of the vocabulary file")
    for f in readers:
        if "Vocabulary<std::string" in f["key"] or "Vocabulary<std::basic_string" in f["key"]:
            continue          # words of the text index contain no line breaks
        lines = [c for c in walk(f["body"]) if c["k"] == "call" and short(c) == "getline"]
        if not lines:
            continue
        rep.inst("escaping", "%s reads lines" % f["key"][:120])
        if not any(c["k"] == "call" and short(c) == UN for c in walk(f["body"])):
            rep.viol("escaping", f["qn"], loc(f), "%s reads words from a line-based file without undoing the escaping of line breaks" % f["qn"])


def defn(F, s):
    if s["k"] == "ref" and "id" in s:
        d = F.vars.get(s["id"])
        if d is not None and s["id"] not in F.assign and d.get("init") is not None:
            return d["init"]
        if d is not None and len(F.assign.get(s["id"], [])) == 1:
            return F.assign[s["id"]][0][0]
    return s


# ---------------------------------------------------------------- offset tables
def offsets(prog, rep):
    for qn in ("ExternalVocabulary::buildFromVector", "ExternalVocabulary::buildFromTextFile", "Index::buildDocsDB"):
        for f in bodies(prog, qn)[:1]:
            F = Fn(prog, f)
            # the table: the list that is written (or walked) after the words
            pushes = [c for c in walk(f["body"]) if c["k"] == "call" and short(c) in ("push_back", "emplace_back") and c.get("o") is not None and "offset" in show(c["o"]).lower()]
            if len(pushes) < 2:
                raise AnalysisError("anchor vanished: offsets of %s" % qn)
            loops = [n for n in walk(f["body"]) if n["k"] in ("for", "while", "rfor")]
            inl = [c for c in pushes if any(F.inside(c, l) for l in loops)]
            out = [c for c in pushes if c not in inl]
            rep.inst("offsets", "%s: %d in the loop, %d behind it" % (qn, len(inl), len(out)))
            if not inl or not out:
                rep.viol("offsets", qn + " count", loc(f), "%s does not record both the start of every word and the end of the last one" % f["qn"])
                continue
            pos = strip(inl[0]["a"][0])
            adv = [n for n in walk(f["body"]) if n["k"] == "bin" and n["op"] == "+=" and strip(n["x"]).get("id") == pos.get("id") and pos.get("id")]
            if not adv:
                raise AnalysisError("anchor vanished: position of %s" % qn)
            loop = next((l for l in loops if F.inside(adv[0], l) and F.inside(inl[-1], l)), None)
            for c in inl:
                if loop is None or F.order[id(c)] > F.order[id(adv[0])]:
                    rep.viol("offsets", qn + " order", loc(f, c), "%s records the offset of a word after having advanced behind it" % f["qn"])
            for c in out:
                if F.order[id(c)] < F.order[id(adv[0])]:
                    rep.viol("offsets", qn + " end", loc(f, c), "%s records the end of the last word before it is written" % f["qn"])


if __name__ == "__main__":
    run("C08", check, level="other",
        explanation="The byte sequences of writers and readers are extracted from their syntax trees (fixed-width items, lists, nested objects, repetitions; positions as linear forms) and compared item by item; packed words, offsets, sections and configuration keys are compared between the place that stores and the place that reads them.",
        assumptions=["fields with the same name in writer and reader mean the same", "files are written and read on the same platform"])
