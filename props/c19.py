"""C19: every algorithm's name converts to it and back, and every factory makes what it was asked for."""
import re

from core import F, R, X, Scenario

WHATS = ("round", "to", "from", "make")


def cfg(what):
    return f'CONSTANTS What = "{what}"\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


LAWS = 'CONSTANTS What = "round"\nINIT WInit\nNEXT WNext\nINVARIANT Lawful\nINVARIANT Same\nCHECK_DEADLOCK FALSE\n'


def made(e):
    """Judges what the object reports; a leading * asks only that the text occurs."""
    def judge(t):
        m = re.match(r"R (?:(\d+) '([^']*)' ?)?(.*)$", t)
        if not m:
            return f"expected an object named {e['n']}, got {t[:80]}"
        typ, name, rest = m.groups()
        if e["t"] and (typ is None or int(typ) not in e["t"]):
            return f"the object reports type {typ}, asked for {e['t']}"
        for what, got, want in (("name", name or "", e["n"]), ("sizes", rest, e["s"])):
            if want.endswith(" *"):
                ok = got.startswith(want[:-1])
            elif want.startswith("*"):
                ok = want[1:] in (got if what == "name" else f"{name} {rest}")
            else:
                ok = got.split(" ")[:len(want.split(" "))] == want.split(" ") or got == want
            if not ok:
                return f"the object's {what} are {got!r}, expected {want!r}"
        return None
    return F(judge)


def step(e):
    k = e["k"]
    if k == "round":
        return f"nm.round {e['e']} {e['v']}", R(f"'{e['n']}' {e['v']}")
    if k == "to":
        return f"nm.to {e['e']} {e['v']}", R(f"'{e['n']}'")
    if k == "from":
        return f"nm.from {e['e']} {e['n'].replace(' ', '_')}", R(str(e["v"]))
    line = f"nm.make {e['f']} " + " ".join(str(v) for v in e["a"])
    return line, X("Crypto") if e["r"] == "refused" else made(e)


def body(chk):
    chk.build(["naming"])
    fs = {w: chk.generate("Registry", cfg(w), workers=2) for w in WHATS}
    chk.model("Registry", LAWS, "names and values of every enumeration: one to one, None is 0, parts agree with their wholes", workers=2)
    scs = {}
    for w, f in fs.items():
        for e in f.result():
            key = f"{w}/{e['f'] if w == 'make' else e['e']}"
            if key not in scs:
                scs[key] = Scenario(None, key)
            scs[key].do(*step(e), f"{key}")
    chk.replay(list(scs.values()))
    chk.assumptions += ["a name that another part of the same family owns (AES asked of the stream ciphers), and the aliases RHX, SHX, Rijndael, are not specified",
                        "members that no factory implements may be refused or made", "a cipher based MAC, HBA, RCS, RWS, CSR and HCR may report their family as the type, their name carries the variant"]
