"""Words and numbers the current source of yaserde mentions: harnesses place each of them wherever a document or value has room
for a string or a number, so that code which treats a particular string, number or size specially is exercised with it."""
import re, os, glob
BASE = ["null", "NULL", "nil", "none", "None", "undefined", "default", "true", "false", "yes", "on", "NaN", "inf", "lang", "base", "schemaLocation",
        "version", "encoding", "value", "content", "text", "item", "type", "Self", "unknown", "TRUE", "empty", "xsi", "xmlns", "__yaserde_flatten"]
def tokens(repo="/repo"):
    words, nums = [], set()
    for d in ("yaserde/src", "yaserde_derive/src"):
        for f in sorted(glob.glob(os.path.join(repo, d, "**", "*.rs"), recursive=True)):
            s = open(f, errors="replace").read()
            s = re.split(r"#\[cfg\(test\)\]", s)[0]
            s = re.sub(r"(?m)^\s*//.*$", "", s)
            ch = [m.group(1) for m in re.finditer(r"b?'(\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\\n])'", s)]
            s = re.sub(r"b?'(\\.|[^'\\\n])'", "' '", s)
            raw = [m.group(2) for m in re.finditer(r'(?<!\w)b?r(#*)"(.*?)"\1', s, re.S)]
            lit = [m.group(1) for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s)]
            for w in lit + ch:
                w = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)), w)
                words.append(re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": ""}.get(m.group(1), m.group(1)), w))
            words += raw
            t = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', s)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.]*\w*!)", t):
                try: nums.add(int(m.group(1).replace("_", ""), 0))
                except ValueError: pass
            for w in lit:
                if re.fullmatch(r"\d{1,18}", w): nums.add(int(w))
    return words, nums
def ok(c): return " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c > "\uffff"
def rust(s): return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'
def write(path, repo="/repo"):
    words, nums = tokens(repo)
    ws = []
    for w in BASE + words:
        w = w.strip(" \t\r\n")
        if w and len(w) <= 40 and "{" not in w and all(map(ok, w)) and w not in ws: ws.append(w)
    known = set(BASE)
    ws = ws[:len(BASE)] + sorted(ws[len(BASE):])[:170]
    names = [w for w in ws if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_.-]*", w) and not w.lower().startswith("xml")]
    sizes = sorted({k for n in nums | {0, 1, 2} for k in (n - 1, n, n + 1) if 0 <= k <= 2049})
    vals = sorted({k for n in nums | {0, 1} for k in (n - 1, n, n + 1) if 0 <= k < 1 << 63})
    out = "// generated by tools/dict.py from the current source of yaserde\n"
    out += "pub const WORDS: &[&str] = &[%s];\n" % ", ".join(map(rust, ws))
    out += "pub const NAMES: &[&str] = &[%s];\n" % ", ".join(map(rust, names))
    out += "pub const SIZES: &[usize] = &[%s];\n" % ", ".join(map(str, sizes[:48]))
    out += "pub const NUMBERS: &[u64] = &[%s];\n" % ", ".join(map(str, vals[:64]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != out:
        open(path + ".new", "w").write(out); os.replace(path + ".new", path)
if __name__ == "__main__":
    write(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "dict.rs"))
