"""Lazy loader for the MIR dump."""
import json, os, re

CRATES = ["tket", "tket_qsystem", "selene_hugr_qis_compiler"]


class Prog:
    def __init__(self, d):
        self.raw = {}      # key -> (crate, line text)
        self.parsed = {}
        self.adts = {}
        self.impls = []
        self.files = {}
        self.by_def = {}
        for c in CRATES:
            with open(os.path.join(d, c + ".json")) as f:
                text = f.read()
            i = text.index('},"fns":{')
            head = json.loads(text[:i] + "}}")
            for p, v in head["adts"].items():
                self.adts.setdefault(p, v)
            for im in head["impls"]:
                im["crate"] = c
                self.impls.append(im)
            self.files[c] = head["files"]
            for line in text[i + 9:-2].split(",\n"):
                if not line:
                    continue
                key, end = json.decoder.scanstring(line, 1)
                loc = '"local":true' in line[-4000:]
                if key in self.raw and not loc:
                    continue
                self.raw[key] = (c, line, end)
        self.keys = list(self.raw)

    def get(self, key):
        f = self.parsed.get(key)
        if f is None:
            r = self.raw.get(key)
            if r is None:
                return None
            f = json.loads(r[1][r[2] + 1:])
            f["key"] = key
            f["in"] = r[0]
            self.parsed[key] = f
        return f

    def __contains__(self, key):
        return key in self.raw

    def local_keys(self):
        """Keys of functions defined in (not merely instantiated by) the crates, with identity arguments,
        and closures; promoteds and consts excluded."""
        for k, (c, line, end) in self.raw.items():
            if '"local":true' in line[-4000:]:
                yield k

    def find(self, pat):
        r = re.compile(pat)
        return [k for k in self.keys if r.search(k)]

    def one(self, pat):
        ks = [k for k in self.find(pat) if "::promoted[" not in k and "{closure" not in k.split(pat)[0]]
        return ks

    def adt_variants(self, path):
        a = self.adts.get(path)
        return a["variants"] if a else None

    def variant_of_discr(self, path, d):
        for v in self.adts[path]["variants"]:
            if v["discr"] == d:
                return v
        return None

    def discr_of(self, path, name):
        for v in self.adts[path]["variants"]:
            if v["name"] == name:
                return v["discr"]
        raise KeyError((path, name))
