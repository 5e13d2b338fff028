import sys
d = sys.argv[1]
def cases(p):
    out, cur = {}, None
    for l in open(p, encoding="utf-8", errors="replace").read().split("\n"):
        if l.startswith("CASE "):
            cur = out.setdefault(l, [])
        elif l:
            cur.append(l)
    return out
e, a = cases(d + "/expected"), cases(d + "/actual")
texts = {}
raw = open(d + "/input", "rb").read()
pos = 0
cur = None
while pos < len(raw):
    end = raw.index(b"\n", pos)
    w = raw[pos:end].split(b" ")
    pos = end + 1
    if w[0] == b"S":
        cur = "CASE " + w[1].decode()
        texts[cur] = [raw[pos:pos + int(w[2])].decode("utf-8", "replace")]
        pos += int(w[2]) + 1
    else:
        texts[cur].append(raw[pos - 1 - (end - pos + 1):end].decode() if False else b" ".join(w).decode())
n = dict(schemas=0, rejected=0, schema_diff=0, payloads=0, agree=0, skipped=0, failed=0, payload_diff=0)
shown = 0
def report(c, what, *lines):
    global shown
    shown += 1
    if shown <= 6:
        print("=====", c, what)
        for l in lines:
            print("   ", l[:1500])
for c in e:
    n["schemas"] += 1
    if c not in a:
        report(c, "missing"); continue
    if a[c] and a[c][0].startswith("REJECTED"):
        n["rejected"] += 1
        report(c, a[c][0], texts[c][0]); continue
    es = [l for l in e[c] if not l.startswith("p ")]
    as_ = [l for l in a[c] if not l.startswith("p ")]
    if es != as_:
        n["schema_diff"] += 1
        report(c, "schema", "\n".join(set(es) - set(as_)), "----", "\n".join(set(as_) - set(es)), texts[c][0])
    ep = [l for l in e[c] if l.startswith("p ")]
    ap = [l for l in a[c] if l.startswith("p ")]
    for i, (x, y) in enumerate(zip(ep, ap)):
        n["payloads"] += 1
        if x == "p skip":
            n["skipped"] += 1
        elif x == y:
            n["agree"] += 1
        elif y == "p FAIL":
            n["failed"] += 1
            report(c, "FAIL", texts[c][1 + i], x)
        else:
            n["payload_diff"] += 1
            k = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), -1)
            report(c, "payload", x[max(0,k-80):k+80], y[max(0,k-80):k+80], texts[c][1 + i], x, y, texts[c][0])
print(n)
sys.exit(1 if n["schema_diff"] or n["payload_diff"] or n["rejected"] or n["failed"] else 0)
