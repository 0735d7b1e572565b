"""C10: padding is found exactly where it was added, and anything else is reported as unpadded."""
from core import R, X, Scenario


def cfg(mx, alpha, blocks, emit):
    return f"CONSTANTS Max = {mx}\n Alphabet = {{{alpha}}}\n Tails <- TailSet\n Blocks = {{{blocks}}}\n Gen = \"x\"\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + \
           ("INVARIANT Emit\n" if emit else "INVARIANT Finds\nINVARIANT OneStart\nINVARIANT Back\n")


def body(chk):
    chk.build(["padding"])
    T = chk.thorough
    chk.model("Padding", cfg(5 if T else 4, "0, 1, 2, 3, 4, 5, 128, 255", "1, 2, 3, 8, 16, 32", False), "every message of up to %d bytes over 8 byte values and every offset, four schemes" % (5 if T else 4), workers=4)
    f = chk.generate("Padding", cfg(5 if T else 3, "0, 1, 2, 3, 4, 128" if not T else "0, 1, 2, 3, 4, 5, 128", "1, 2, 3, 7, 8, 16, 32" + (", 64, 128, 255" if T else ", 130"), True), workers=3)
    scs, cur, n = [], {}, 0
    ids = {"ESP": 1, "PKCS7": 2, "X923": 3, "ZeroOne": 4}
    for s in ids:
        sc = Scenario(None, f"padding/{s}/identity")
        sc.do(f"pad.name {s}", R(f"{s} {ids[s]}"))
        sc.do(f"pad.bad {s} 16 add 17", X("Padding"))
        sc.do(f"pad.bad {s} 16 len 17", X("Padding"))
        scs.append(sc)
    for b in f.result():
        s, m = b["s"], bytes(b["m"])
        if s not in cur or len(cur[s].steps) > 300:
            cur[s] = Scenario(None, f"padding/{s}/{b['ph']}/{n}")
            n += 1
            scs.append(cur[s])
        sc = cur[s]
        if b["ph"] == "pad" and b["o"] == 0:
            at = b["at"]
            sc.do(f"pad.add {s} x{m[:at].hex()}{'55' * (len(m) - at)} {at}", R(m + b"\x77\x78"), f"{s} pads {len(m)} bytes from {at}")
        want = f"{b['st']} {b['st']}" if b["o"] == 0 else str(b["st"])
        sc.do(f"pad.len {s} x{m.hex()} {b['o']}", R(want), f"{s} start of the padding")
    chk.replay(scs)
    chk.assumptions += ["padding starts in front of the end of the block (at least one byte of padding)", "padding lengths up to 255"]
