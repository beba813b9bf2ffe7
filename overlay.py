#!/usr/bin/env python3
"""overlay.py REPO OUTDIR COUNT [EXPORT]: put COUNT of our frosting test keys in place of the built-in one.

With EXPORT, a file, the package zzverif of the library is that file (what it needs to be called from the harness).
Prints the overlay file's path, or nothing if no key literal was found."""
import sys, os, re, json, base64

repo, out, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
# the public keys "frost" and "frost2" of harness/pki.json
spki = [
    "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAE6fnzlVSiCh83kSG+WxYYn+O694JL8MrlpmtzbUjZ/e+h7xj08aJZi8JeW3rSlRxrGK7YXi4rgugocEtWMYWT1A==",
    "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEggQOGaRqjjOIMQ9A+TkHakFZoCmtklRQP529kCqbKLPipjY1GlYOC8c3foz6jXBhvN3A49nmPsl15ZA012ygGQ==",
][:count]
replace = {}
for root, dirs, files in os.walk(os.path.join(repo, "signingblock")) if count else ():
    for f in files:
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        p = os.path.join(root, f)
        s = open(p, encoding="utf-8").read()
        def sub(m):
            try:
                der = base64.b64decode(m.group(1), validate=True)
            except Exception:
                return m.group(0)
            if len(der) == 91 and der[:4] == b"\x30\x59\x30\x13":
                return m.group(0)[0] + ",".join(spki) + m.group(0)[-1]
            return m.group(0)
        t = re.sub(r'["`]([A-Za-z0-9+/=]{100,})["`]', sub, s)
        if t != s:
            q = os.path.join(out, f)
            open(q, "w", encoding="utf-8").write(t)
            replace[p] = q
if replace or count == 0:
    if len(sys.argv) > 4:
        replace[os.path.join(repo, "zzverif", "export.go")] = os.path.abspath(sys.argv[4])
    o = os.path.join(out, "overlay.json")
    json.dump({"Replace": replace}, open(o, "w"))
    print(o)
