import io
import itertools

import astropy.units as u
import numpy as np
from astropy.io import fits

from mc.gadf import KINDS, arguments, check_hdu, creator, model
from mc.util import fail, need, same, snap

SPACE = """all operation sequences up to length 3 (thorough: 4) over {create an HDU of each of the six kinds without cards / with cards that also override a default / with another cards dict, edit default and new cards of the last or first HDU, delete
default cards, overwrite the data and edges of an HDU in place, modify the shared input arrays in place, write all HDUs to a file and read them back}, executed on real objects; after each sequence every
living HDU is decoded and compared with the model state (its own creation arguments plus its own later modifications) and all shared inputs with theirs."""
ASSUMPTIONS = ["DATE is not compared between HDUs"]

CARDS = [{}, dict(TELESCOP="CTA", HDUVERS="9.9"), dict(OBSERVER="me", HDUCLAS1="MINE", HDUCLAS3="X", CREATOR="you")]
OPS = ([("create", k, c) for k in KINDS for c in (0, 1, 2)]
       + [("edit", "last"), ("edit", "first"), ("delete", "last"), ("data", "last"), ("data", "first"), ("inputs",), ("write",)])
SMALL = [o for o in OPS if not (o[0] == "create" and o[2] == 2)]


class Model:
    """Model state next to the real objects."""

    def __init__(self, lens):
        self.pool, self.args, self.hdus = {}, {}, []
        for i, k in enumerate(KINDS):
            n = len(KINDS[k][2])
            data, edges = model(k, (lens[i % 3], lens[(i + 1) % 3], lens[(i + 2) % 3])[:n], 1)
            self.pool[k] = [data, {a: list(e) for a, e in edges.items()}]
            self.args[k] = arguments(k, data, edges)
        self.cards = [dict(c) for c in CARDS]

    def step(self, op):
        what = op[0]
        if what == "create":
            _, k, c = op
            kw = self.cards[c]
            before = snap((self.args, self.cards))
            hdu = creator(k)(*self.args[k], **kw)
            need(same(before, snap((self.args, self.cards))), "creation modified an input")
            data, edges = self.pool[k]
            self.hdus.append([hdu, dict(kind=k, data=data.copy(), edges={a: list(e) for a, e in edges.items()}, extra=dict(CARDS[c]), gone=set())])
        elif what == "inputs":
            for k, (data, edges) in self.pool.items():
                data *= 2
                for e in edges.values():
                    e[-1] += 1
                for name, q in zip(KINDS[k][1], self.args[k]):
                    v = q.value if isinstance(q, u.Quantity) else q
                    if name == KINDS[k][1][0]:
                        v *= 2
                    else:
                        v[-1] += 1
        elif what == "write":
            f = io.BytesIO()
            fits.HDUList([fits.PrimaryHDU()] + [h for h, _ in self.hdus]).writeto(f, output_verify="silentfix")
            f.seek(0)
            with fits.open(f, memmap=False) as hl:
                for h, (_, m) in zip(hl[1:], self.hdus):
                    self.compare(h, m, "file")
        elif self.hdus:
            hdu, m = self.hdus[-1 if op[1] == "last" else 0]
            if what == "edit":
                for key, v in (("HDUDOC", "changed"), ("HDUCLASS", "private"), ("NEWCARD", 3)):
                    hdu.header[key] = v
                    m["extra"][key] = v
                    m["gone"].discard(key)
            elif what == "delete":
                for key in ("HDUDOC", "HDUVERS", "TELESCOP", "HDUCLAS2"):
                    if key in hdu.header:
                        del hdu.header[key]
                    m["extra"].pop(key, None)
                    m["gone"].add(key)
            elif what == "data":
                hdu.data[KINDS[m["kind"]][3]][...] = 7.0
                m["data"][...] = 7.0
                arg, p, _ = KINDS[m["kind"]][2][0]
                if m["edges"]:
                    hdu.data[f"{p}_LO"][...] *= 4
                    hdu.data[f"{p}_HI"][...] *= 4
                    m["edges"][arg] = [4 * x for x in m["edges"][arg]]

    @staticmethod
    def compare(hdu, m, what):
        skip = m["gone"]
        for key in skip:
            need(key not in hdu.header, f"{what} {m['kind']}: deleted card {key} came back")
        check_hdu(hdu, m["kind"], m["data"], m["edges"], m["extra"].items(), what=f"{what} {m['kind']}", skip=skip)

    def check(self):
        for i, (h, m) in enumerate(self.hdus):
            self.compare(h, m, f"HDU {i}")
        for k, (data, edges) in self.pool.items():
            for a, b in zip(self.args[k], arguments(k, data, edges)):
                need(same(snap(a), snap(b)), f"shared input of {k} was modified")
        need(self.cards == CARDS, "card dict was modified")

    def key(self):
        return tuple((m["kind"], tuple(sorted(m["extra"].items(), key=str)), tuple(sorted(m["gone"])), float(m["data"].sum())) for _, m in self.hdus)


def jobs(tier):
    small = [dict(first=op, small=True, depth=d, lens=[2, 3, 1]) for op in SMALL if op[0] == "create" for d in ((4,) if tier == "thorough" else (3,))]
    if tier == "quick":
        return small + [dict(first=op, small=False, depth=2, lens=[3, 1, 4]) for op in OPS if op[0] in ("create", "inputs")]
    return small + [dict(first=op, small=False, depth=3, lens=ln) for op in OPS if op[0] in ("create", "inputs") for ln in ([2, 3, 1], [3, 1, 4])]


def run(job, rec):
    first = tuple(job["first"])
    for n in range(job["depth"]):
        for rest in itertools.product(SMALL if job["small"] else OPS, repeat=n):
            seq = (first, *rest)
            if seq[-1][0] in ("edit", "delete", "data", "inputs", "write") and not any(o[0] == "create" for o in seq):
                continue
            with rec.case("operations", seq, steps=len(seq)):
                m = Model(job["lens"])
                for op in seq:
                    m.step(op)
                m.check()
                rec.outcome(m.key())
