"""Turns planned items into the bytes of an input file, and damages them."""
from . import hidref


def render(spec):
    """spec: {"fmt", "items", "style", "damage"} -> bytes of the file."""
    blob = hidref.encode([tuple(i) for i in spec["items"]])
    dm = spec.get("damage")
    if dm and dm["level"] == "desc":
        blob = damage(blob, dm)
    data = text(spec, blob) if spec["fmt"] != "binary" else blob
    if dm and dm["level"] == "file":
        data = damage(data, dm)
    return data


def damage(b, dm):
    if dm["kind"] == "cut":
        return b[:dm["n"]] if dm["n"] < len(b) else b
    if dm["kind"] == "tail":
        return b + bytes([dm["x"]])
    if not b:
        return b
    n = dm["n"] % len(b)
    if dm["kind"] == "junk":
        return b[:n] + dm["s"].encode() + b[n + dm["w"]:]
    if dm["kind"] == "flip":
        return b[:n] + bytes([b[n] ^ dm["x"]]) + b[n + 1:]
    if dm["kind"] == "drop":
        return b[:n] + b[n + 1:]
    if dm["kind"] == "dup":
        return b[:n] + b[n:n + 1] + b[n:]
    raise ValueError(dm)


def text(spec, blob):
    st = spec.get("style") or {}
    fmt = "%02X" if st.get("upper") else "%02x"
    if spec["fmt"] == "hex":
        pre = "0x" if st.get("prefix") else ""
        per = st.get("per", 16)
        rows = [blob[i:i + per] for i in range(0, len(blob), per)]
        sep = st.get("sep", " ")
        return "".join(sep.join(pre + fmt % x for x in row) + st.get("eol", "\n")
                       for row in rows).encode("utf-8")
    per = st.get("per", 8)
    rows = [blob[i:i + per] for i in range(0, len(blob), per)]
    out = []
    notes = st.get("notes") or []
    for k, row in enumerate(rows):
        line = "    " + ", ".join("0x" + fmt % x for x in row) + ","
        if k == len(rows) - 1 and st.get("notail"):
            line = line[:-1]
        if notes:
            note = notes[k % len(notes)]
            if note == "//":
                line += " // item 0x%02x, %d" % (k & 255, k)
            elif note == "/*":
                line = " /* 0x12, %d */" % k + line
            elif note == "uni":
                line += " // b\u00e9po \u2116%d" % k
            elif note == "blank":
                line += "\n"
            elif note == "url":
                line += " /* http://www.usb.org/%d */" % k
            elif note == "cross":
                line += " // from /* to */ // here"
            elif note == "multi":
                line += " /* 0x05,\n * 0x01, // %d\n */" % k
        out.append(line + "\n")
    if st.get("head"):
        out.insert(0, ["/*\n * HID report descriptor, 0x%x bytes\n */\n" % len(blob),
                       "// one, 0x02, three\n//\n\n", "/**/ /***/\n",
                       "/* " + "0xff, " * 1500 + "*/\n"][st["head"] - 1])
    if st.get("foot"):
        out.append(["// the end, 0xc0", "/* 0x00 */", "\n\n  \n"][st["foot"] - 1])
    return "".join(out).replace("\n", st.get("eol", "\n")).encode("utf-8")
