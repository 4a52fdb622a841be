"""writes /verif/known_findings.json from the fix: commits in /repo (run by hand when a fix is committed, never by a check)"""
import json, os, subprocess
PROPS = """55032bf C07
cfc4117 C07
648d058 C05
cc16a6e C17
aba6808 C04
d623c9c C15
8d12b78 C06
ee17b61 C05
50e5bf1 C20
9ab3ca5 C28
4c970aa C28
b8ca36b C03
358fd8c C10
f595595 C29
1a5538e C12
e250de2 C08
2f27ed2 C26
790819d C26
2cee3bc C26
62262eb C26
7eb47f6 C26
f9eb191 C26
c97e5e0 C22
2e8e404 C22
5d0135a C21
76079b8 C20
c960e79 C20
b9a97e6 C20
c9a91f8 C18
eb4c319 C17
9a0267f C17
fc753d0 C16
f0351f9 C16
65915ff C16
ee68e91 C16
d46b9e5 C16
4b7a482 C16
657949f C16
b92cbc3 C15
34bcc0a C15
ef48fbe C13
4b5403c C13
3e43115 C09
bdbada4 C04
df821ef C20
2b4b1f1 C19
6b5bcee C01
a5966e0 C01
970399c C17
1e5ab37 C17
4c1da72 C17
f163a6a C17
93ef3c8 C24
8158a81 C24
8c4ee01 C24
fffcfc0 C04
36ef6b6 C20
ed23588 C20
3ba2661 C20
dbb6aa1 C20
f4b7b5b C20
4b49d29 C03
7adfebe C02
3879667 C12
bb223e2 C01
f3e1cd0 C01
bb78118 C04
a010e18 C08
fd267c8 C15
47cb82e C05
0b4edd6 C22
02e8724 C05
b3b8a58 C24
b10ad13 C02
cf708f6 C16
03b99b3 C15
84f942d C05
501ff89 C14
87aa8b3 C13
9ea4cc7 C15
2086c3a C15
e496a52 C15
4bda8a0 C15
039b538 C13
eb730dd C13
3e97f54 C13
37cd674 C13
8f63323 C13
35d61d7 C10
0156681 C10
636ad48 C01
5a42e41 C11
b8393a8 C19
2117130 C19
2edecd1 C19
1cddb36 C01
5201ead C07
"""
EXTRA = {}
try:
    from findings_extra import EXTRA
except ImportError:
    pass
props = dict(l.split() for l in PROPS.splitlines())
props.update(EXTRA)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
old = json.load(open(os.path.join(here, "known_findings.json")))["findings"]
out = [f for f in old if f.get("status") == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, m = l.split(" ", 1)
    if not m.startswith("fix:"):
        continue
    p = props[h]
    what = m[4:].strip()
    out.append(dict(property=p, status="fixed", commit=h, line=f"fixed: property={p} {h} {what}", what=what))
json.dump({"findings": out}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(out))
