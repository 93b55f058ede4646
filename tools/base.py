#!/usr/bin/env python3
"""Records, from a translation in which everything verifies, what each function's verified text was: contracts/base.json.
usage: base.py O.rs O.json"""
import hashlib, json, os, sys

def texts(lines, fns):
    """The hash of each function's text, and of everything that is no function."""
    out, rest, at = {}, hashlib.sha256(), 0
    for f in sorted(fns, key=lambda f: f["start"]):
        rest.update("\n".join(lines[at:f["start"] - 1]).encode()); rest.update(f["key"].encode())
        out[f["key"]] = hashlib.sha256("\n".join(lines[f["start"] - 1:f["end"]]).encode()).hexdigest()[:16]
        at = f["end"]
    rest.update("\n".join(lines[at:]).encode())
    return out, rest.hexdigest()[:16]

if __name__ == "__main__":
    o = json.load(open(sys.argv[2]))
    h, rest = texts(open(sys.argv[1]).read().split("\n"), o["fns"])
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../contracts/base.json")
    json.dump({"rest": rest, "text": h, "loops": {f["key"]: f["heads"] for f in o["fns"] if f["heads"]}}, open(p, "w"), indent=0, sort_keys=True)
