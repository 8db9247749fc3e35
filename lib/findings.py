"""known_findings.txt: genuine defects, repaired ("fixed:", which suppress nothing) or open ("finding:")."""
import json, os
import model


def load():
    res = []
    p = os.path.join(model.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("finding:"):
                # finding: property=<id> text=<JSON string> <what fails>
                head, rest = line[len("finding:"):].strip().split(" text=", 1)
                text, end = json.JSONDecoder().raw_decode(rest)
                res.append({"property": head.split("=", 1)[1], "text": text, "what": rest[end:].strip()})
    return res


def match(known, pid, src):
    for k in known:
        if k["property"] == pid and k["text"] == src:
            return k
