import itertools, os
import numpy as np
from .pyc import Scratch
PROPERTY = "C30"
TECHNIQUE = "exhaustive enumeration of network shapes x residual-block patterns x export histories over the real exporter and reader, compared entry by entry with the checkpoint that was written"
RULE = "every (number of embedding nets, embedding layers, fitting nets, fitting layers, width tables, residual-block presence pattern, number type, memory layout) and every history of one or two exports to one file; a state is one exported file"
BOUNDS = {"quick": "1..4 embedding nets x 1..4 layers, 1..3 fitting nets x 1..4 layers, 3 width tables, 6 residual patterns + every single block, 2 number types, plus 9..12-layer/net networks, widths up to 260, blocks of zeros, ones and tiny values; all ordered pairs of 10 exports",
          "thorough": "1..5 embedding nets x 1..6 layers, 1..4 fitting nets x 1..6 layers, 5 width tables, all ordered pairs of 24 exports"}
WIDTHS = [
    ([3, 4, 5, 2, 6, 7], [5, 4, 3, 2, 6, 7], 2),
    ([4], [6], 4),
    ([2, 5], [1], 3),
    ([7, 1], [4, 9, 1], 1),
    ([5, 3, 8], [8, 1], 5),
    ([25, 25, 25], [50, 50, 50, 1], 16),
    ([3, 130], [260, 1], 2),
]


def val(*k):
    """a value that names its place"""
    v = 0.0
    for x in k:
        v = v * 17 + x + 1
    return v / 4096.0


def widths(tab, ne, nf):
    e, f, m2 = WIDTHS[tab]
    return [e[k % len(e)] for k in range(ne)], [f[k % len(f)] for k in range(nf)], m2


def has(pat, kind, net, layer):
    """residual-block presence"""
    if isinstance(pat, (list, tuple)):
        return list(pat) == [kind, net, layer]
    return {"none": False, "all": True, "emb": kind == 0, "fit": kind == 1, "odd": (net + layer) % 2 == 1, "late": layer > 0}[pat]


def checkpoint(c):
    """state_dict as the trainer writes it, and the reference table"""
    import torch
    E, F, m2 = widths(c["tab"], c["ne"], c["nf"])
    dt = torch.float64 if c["dt"] == 8 else torch.float32
    ref = {}
    for kind, name, nets, sizes, first in ((0, "embedding_net", c["nen"], E, 1), (1, "fitting_net", c["nfn"], F, E[-1] * m2)):
        for n in range(nets):
            prev = first
            for l, w in enumerate(sizes):
                ref["%s.%d.weights.weight%d" % (name, n, l)] = np.array([[val(kind, n, l, a, b) for b in range(w)] for a in range(prev)])
                ref["%s.%d.bias.bias%d" % (name, n, l)] = np.array([[-val(kind, n, l, 11, b) for b in range(w)]])
                if c.get("zero") == "bias":
                    ref["%s.%d.bias.bias%d" % (name, n, l)] *= 0.0
                if c.get("zero") == "tiny":
                    ref["%s.%d.weights.weight%d" % (name, n, l)] *= 2.0 ** -60
                if has(c["res"], kind, n, l):
                    ref["%s.%d.resnet_dt.resnet_dt%d" % (name, n, l)] = np.array([[val(kind, n, l, 13, b) + 0.5 for b in range(w)]])
                    if c.get("zero") in ("res", "one"):      # a residual block of zeros (or ones) is still a residual block
                        ref["%s.%d.resnet_dt.resnet_dt%d" % (name, n, l)][:] = 0.0 if c["zero"] == "res" else 1.0
                prev = w
    sd = {}
    for k, v in ref.items():
        t = torch.tensor(v, dtype=dt)
        if c.get("strided"):
            t = torch.tensor(np.ascontiguousarray(v.T), dtype=dt).T
        sd[k] = t
        ref[k] = v.astype(np.float64 if c["dt"] == 8 else np.float32)
    if c.get("extra"):
        sd["davg"] = torch.ones(4, dtype=dt)
        sd["embedding_net.0.extra"] = torch.ones(2, dtype=dt)
    ref["M1"], ref["M2"] = E[-1], m2
    ref["embedding_sizes"], ref["fitting_sizes"] = np.array(E), np.array(F)
    return sd, ref


def compare(run, what, got, ref):
    run.expect(set(got) == set(ref), what + ": the exported entries are not those of the checkpoint", missing=sorted(set(ref) - set(got)), more=sorted(set(got) - set(ref)))
    for k, w in ref.items():
        g = np.asarray(got[k])
        w = np.asarray(w)
        run.expect(g.shape == w.shape and np.array_equal(g, w), what + ": entry %s" % k, got=g.tolist(), want=w.tolist())
        run.expect(g.dtype.kind == w.dtype.kind and (g.dtype.kind != "f" or g.dtype == w.dtype), what + ": number type of %s" % k, got=str(g.dtype))


def extractor(pt, c):
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
    return FFExtractor(pt_path=pt, num_embedding_nets=c["nen"], num_embedding_layers=c["ne"], num_fitting_nets=c["nfn"], num_fitting_layers=c["nf"])


def one(c, run, d, tag="a"):
    import torch
    pt = os.path.join(d, tag + ".pt")
    sd, ref = checkpoint(c)
    torch.save({"epoch": 3, "state_dict": sd, "best_loss": 0.25}, pt)
    return pt, ref


def case(c, run):
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
    with Scratch() as d:
        for item in c["items"]:
            what = "net %s" % item
            run.step(); run.state(repr(sorted(item.items())))
            pt, ref = one(item, run, d)
            raw = open(pt, "rb").read()
            x = extractor(pt, item)
            h = os.path.join(d, "p.h5")
            x.save_hdf5_file(hdf5_path=h)
            got = FFExtractor.get_hdf5_dict(hdf5_path=h)
            compare(run, what, got, ref)
            for k in got:      # what was read belongs to the caller
                if getattr(got[k], "ndim", 0):
                    got[k][...] = 0
            compare(run, what + " (read again)", FFExtractor.get_hdf5_dict(h), ref)
            x.save_hdf5_file(h)
            compare(run, what + " (exported again)", FFExtractor.get_hdf5_dict(h), ref)
            run.expect(open(pt, "rb").read() == raw, what + ": the checkpoint was modified")
            os.remove(h)
            run.validated()


def fewer(c, run):
    """declared counts against the counts in the checkpoint: less exports the first ones, more is refused"""
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
    with Scratch() as d:
        item = c["item"]
        pt, full = one(item, run, d)
        h = os.path.join(d, "p.h5")
        for dn, dl, fn, fl in itertools.product((-1, 0, 1), repeat=4):
            ask = dict(item, nen=item["nen"] + dn, ne=item["ne"] + dl, nfn=item["nfn"] + fn, nf=item["nf"] + fl)
            what = "checkpoint %s read as %s" % (item, [ask[k] for k in ("nen", "ne", "nfn", "nf")])
            run.step(); run.state(what)
            if max(dn, dl, fn, fl) > 0:
                try:
                    extractor(pt, ask).save_hdf5_file(h)
                    ok = True
                except Exception:
                    ok = False
                run.expect(not ok, what + ": an export of layers the checkpoint does not have reports no error")
            elif min(ask[k] for k in ("nen", "ne", "nfn", "nf")) > 0 and dl == 0 and fl == 0:
                extractor(pt, ask).save_hdf5_file(h)
                _, ref = checkpoint(ask)
                compare(run, what, FFExtractor.get_hdf5_dict(h), ref)
            run.validated()


def history(c, run):
    """two exports to one file: only the last one is in it; both exporters stay usable"""
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
    with Scratch() as d:
        a, b = c["a"], c["b"]
        pa, ra = one(a, run, d, "a")
        pb, rb = one(b, run, d, "b")
        h, g = os.path.join(d, "p.h5"), os.path.join(d, "q.h5")
        run.step(); run.state(repr((a, b)))
        xa = extractor(pa, a)
        xb = extractor(pb, b)
        xa.save_hdf5_file(h)
        compare(run, "first export of %s" % a, FFExtractor.get_hdf5_dict(h), ra)
        xb.save_hdf5_file(h)
        compare(run, "export of %s over one of %s" % (b, a), FFExtractor.get_hdf5_dict(h), rb)
        xa.save_hdf5_file(g)
        compare(run, "export of %s after that of %s" % (a, b), FFExtractor.get_hdf5_dict(g), ra)
        compare(run, "file of %s" % b, FFExtractor.get_hdf5_dict(h), rb)
        os.remove(pa)
        xa.save_hdf5_file(h)
        compare(run, "export of %s over %s" % (a, b), FFExtractor.get_hdf5_dict(h), ra)
        run.validated()


def disp(c, run):
    {"case": case, "fewer": fewer, "history": history}[c["k"]](c, run)


def explore(ctx):
    t = ctx.thorough
    items = []
    pats = ["none", "all", "emb", "fit", "odd", "late"]
    for nen, ne, nfn, nf in itertools.product(range(1, 6 if t else 5), range(1, 7 if t else 5), range(1, 5 if t else 4), range(1, 7 if t else 5)):
        for tab in range(5 if t else 3):
            base = dict(nen=nen, ne=ne, nfn=nfn, nf=nf, tab=tab)
            k = (nen + ne + nfn + nf + tab)
            items.append(dict(base, res=pats[k % 6], dt=8))
            items.append(dict(base, res="late", dt=4, strided=1, extra=1))
    for nen, ne, nfn, nf in [(1, 2, 1, 3), (2, 3, 2, 2), (4, 3, 2, 4)]:
        for res in pats + [(0, n, l) for n in range(nen) for l in range(ne)] + [(1, n, l) for n in range(nfn) for l in range(nf)]:
            for dt in (8, 4):
                items.append(dict(nen=nen, ne=ne, nfn=nfn, nf=nf, tab=0, res=res, dt=dt))
    for nen, ne, nfn, nf in [(12, 2, 1, 1), (1, 11, 1, 2), (1, 1, 11, 2), (2, 2, 2, 12), (9, 3, 3, 3)]:
        for res in ("all", "none"):
            items.append(dict(nen=nen, ne=ne, nfn=nfn, nf=nf, tab=0, res=res, dt=8))
    for tab in (5, 6):
        for dt in (8, 4):
            items.append(dict(nen=4, ne=3 if tab == 5 else 2, nfn=2, nf=4 if tab == 5 else 2, tab=tab, res="late", dt=dt))
    for zero in ("bias", "tiny", "res", "one"):
        for dt in (8, 4):
            for res in ("all", "odd"):
                items.append(dict(nen=2, ne=2, nfn=2, nf=3, tab=0, res=res, dt=dt, zero=zero))
    cases = [dict(k="case", items=items[i:i + 12]) for i in range(0, len(items), 12)]
    for it in ([1, 2, 1, 3], [2, 3, 2, 2], [2, 2, 2, 2]):
        for res in ("all", "none", "odd"):
            cases.append(dict(k="fewer", item=dict(zip(("nen", "ne", "nfn", "nf"), it), tab=0, res=res, dt=8)))
    n = 24 if t else 10
    pick = [items[(k * len(items)) // n] for k in range(n)]
    cases += [dict(k="history", a=a, b=b) for a in pick for b in pick]
    ctx.run_cases(cases, disp)
