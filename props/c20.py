"""C20: the integer and memory utilities compute what their names say, for every width, length and offset."""
from core import R, Scenario

FAMS = {"memory": "u.mem", "equal": "u.eq", "counter": "u.ctr", "wide": "u.wide", "word": "u.word", "block": "u.block", "cond": "u.cond", "text": "u.text"}


def cfg(what, deep):
    return f'CONSTANTS What = "{what}"\n Deep = {"TRUE" if deep else "FALSE"}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def laws(b, k, top):
    return f"CONSTANTS B = {b}\n K = {k}\n Top = {top}\nINIT Init\nNEXT Next\nINVARIANT Lawful\nINVARIANT Shifting\nCHECK_DEADLOCK FALSE\n"


def hx(b):
    return "x" + bytes(b).hex() if b else "-"


def out(b):
    return bytes(b).hex() if b else "-"


def step(what, e):
    f = e["f"]
    if what == "memory":
        return f"{f} {e['w']} {e['v']} {hx(e['in'])} {hx(e['out'])} {e['i']} {e['o']} {e['n']} {e['val']}", out(e["r"])
    if what == "equal":
        return f"{f} {e['w']} {hx(e['a'])} {hx(e['b'])} {e['i']} {e['o']} {e['n']}", "same" if e["r"] else "differ"
    if what == "counter":
        return f"{f} {e['t']} {hx(e['v'])} {hx(e['in'])} {hx(e['out'])} {e['o']} {e['n']}", out(e["r"])
    if what == "wide":
        return f"{f} {e['w']} {hx(e['v'])} {hx(e['in'])} {hx(e['out'])}", out(e["r"])
    if what == "word":
        return f"{f} {e['w']} {hx(e['a'])} {hx(e['b'])}", out(e["r"])
    if what == "block":
        return f"{f} {e['w']} {hx(e['in'])} {hx(e['out'])} {e['i']} {e['o']} {e['n']}", out(e["r"])
    if what == "cond":
        return f"{f} {e['w']} {hx(e['a'])} {hx(e['b'])} {e['i']} {e['o']} {e['n']} {1 if e['p'] else 0}", out(e["r"])
    if f in ("tohex", "inttohex"):
        want = f"'{e['r']}'"
    elif f == "dec":
        want = e["r"]
    else:
        want = out(e["a"])
    return f"{f} {e['w']} {hx(e['a'])} {e['i']} {e['n']} {e['r'] or '-'}", want


def body(chk):
    T = chk.thorough
    chk.build(["util"])
    fs = {w: chk.generate("Utilities", cfg(w, T), workers=2) for w in FAMS}
    for b, k, top in ((2, 1, 5 if T else 4), (4, 2, 3 if T else 2), (8, 3, 2)) + (((16, 4, 2),) if T else ()):
        chk.model("DigitsLaws", laws(b, k, top), f"counters, comparison, rotation against the integers, base {b}, up to {top} digits", workers=2)
    scs = []
    for w, f in fs.items():
        cur = {}
        for e in f.result():
            key = (e["f"], e.get("w", e.get("t")), e.get("v") if what_is(w) else 0)
            if key not in cur or len(cur[key].steps) >= 200:
                cur[key] = Scenario(None, f"util/{w}/{e['f']}/{key[1]}" + (f"-{key[2]}" if what_is(w) else ""))
                scs.append(cur[key])
            line, want = step(w, e)
            cur[key].do(f"{FAMS[w]} {line}", R(want), f"{e['f']} of {key[1]}-byte elements")
    chk.replay(scs)
    chk.assumptions += ["little-endian machine; offsets in elements, lengths of memory functions in bytes, of comparisons in elements", "mixed element widths only where the function has two array types and works on bytes",
                        "signed words, overlapping buffers and zero lengths of the exclusive-or functions are not specified"]


def what_is(w):
    return w == "memory"
