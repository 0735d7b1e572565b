"""C01: authenticated decryption accepts exactly the genuine message."""
import aead


def body(chk):
    chk.build(["stream"])
    T = chk.thorough
    chk.model("Aead", aead.mc(6 if T else 5), "three kinds of session, every order of initialization, associated data, encryption, delivery and alteration", workers=4)
    g = [("sweep", chk.generate("Aead", aead.gen("sweep", 0, "SweepSet", "{33, 150}" if T else "{33}", "{13, 1}" if T else "{13}"), workers=2)),
         ("long", chk.generate("Aead", aead.gen("sweep", 0, "SweepSet", "{4500, 70000}", "{13, 0}" if T else "{13}"), workers=2)),
         ("walk", chk.generate("Aead", aead.gen("talk", 14, ads="{1, 8, 15, 16, 37, 200}"), num=6000 if T else 500, depth=17)),
         ("chat", chk.generate("Aead", aead.gen("chat", 24, ads="{1, 8, 37}"), num=3000 if T else 200, depth=27, seed=chk.seed + 3)),
         ("free", chk.generate("Aead", aead.gen("walk", 12, ads="{1, 8, 16, 37, 200}"), num=6000 if T else 250, depth=15, seed=chk.seed + 7))]
    scs = []
    for k, f in g:
        for i, b in enumerate(f.result()):
            pf = b["pf"]
            if k == "long" and pf["dfs"] == ["nonce"]:
                continue
            kind = "nonce" if pf["dfs"] == ["nonce"] else k
            scs.append(aead.build_scenario(b, f"aead/{pf['kind']}/{pf['n']}{'-' if pf['cipher'] else ''}{pf['cipher']}/{kind}/{i}", chk.seed * 1000000 + i * 100, False))
    chk.replay(scs)
    chk.assumptions += ["after a refused message only safety is judged: the session's own next message may be refused or accepted",
                        "empty messages are only sent through GCM"]
