"""C02: ciphertext and tag of every authenticated cipher are those of its construction, whatever the session."""
import aead


def body(chk):
    chk.build(["stream"])
    T = chk.thorough
    chk.model("Aead", aead.mc(6 if T else 5), "three kinds of session, every order of initialization, associated data, encryption, delivery and alteration", workers=4)
    g = [("walk", chk.generate("Aead", aead.gen("talk", 12, ads="{1, 8, 15, 16, 37, 300}"), num=8000 if T else 700, depth=15, workers=2)),
         ("chat", chk.generate("Aead", aead.gen("chat", 24, ads="{1, 8, 37}"), num=4000 if T else 250, depth=27, seed=chk.seed + 3)),
         ("free", chk.generate("Aead", aead.gen("walk", 10, ads="{1, 8, 16, 37, 200, 70000}"), num=3000 if T else 400, depth=13, seed=chk.seed + 7))]
    scs = []
    for k, f in g:
        for i, b in enumerate(f.result()):
            pf = b["pf"]
            scs.append(aead.build_scenario(b, f"aead/{pf['kind']}/{pf['n']}{'-' if pf['cipher'] else ''}{pf['cipher']}/{k}/{i}", chk.seed * 1000000 + i * 100, True))
    chk.replay(scs)
    chk.assumptions += ["values are computed by lib/ref.py from the constructions in DESIGN.md", "empty messages are only sent through GCM", "in-place transforms are outside the statement"]
