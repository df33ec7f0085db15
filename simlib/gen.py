# -*- coding: utf-8 -*-
"""Workload generation.  A data spec is a small JSON object; build() turns it
into series and labels, so that shrinking works on the spec."""
import numpy as np

VALUE_KINDS = ["int", "int", "float", "float", "smooth", "runs", "flat", "big", "tiny", "offset"]


def data_spec(rng, uni=None, var=None, n=None, length=None, labels=None, values=None):
    uni = rng.random() < 0.55 if uni is None else uni
    var = rng.random() < 0.4 if var is None else var
    n = n or rng.choice([3, 4, 4, 5, 6, 7, 8])
    return {"seed": rng.randrange(1 << 30), "n": n, "ch": 1 if uni else rng.choice([2, 2, 3, 4]),
            "len": length or rng.choice([8, 10, 12, 13, 16, 20, 24, 30]), "var": bool(var),
            "k": rng.choice([2, 2, 2, 3]), "spread": rng.choice([0.0, 0.2, 0.5, 1.0]),
            "values": values or rng.choice(VALUE_KINDS),
            "labels": labels or rng.choice(["int", "int", "int", "neg", "gap", "big"]),
            "layout": rng.choice(["C", "C", "F", "strided", "int64"]) if not var else
            rng.choice(["list", "list", "object", "list-F", "list-strided", "list-mixed"]),
            "tag": "d"}


def values(r, kind, shape):
    n = shape[-1]
    if kind == "int":
        return r.randint(-3, 4, size=shape).astype(float)
    if kind == "float":
        return r.normal(size=shape)
    if kind == "smooth":
        return np.cumsum(r.normal(size=shape), axis=-1)
    if kind == "runs":
        x = r.randint(-2, 3, size=shape).astype(float)
        x[..., : n // 3] = 0.0
        if n >= 6:
            x[..., n // 2: n // 2 + 3] = 1.0
        return x
    if kind == "flat":
        x = np.zeros(shape)
        x[...] = r.randint(-1, 2, size=shape[:-1] + (1,))
        j = r.randint(0, n)
        x[..., j] += r.randint(1, 4)
        return x
    if kind == "big":
        return r.randint(-4, 5, size=shape).astype(float) * 2.0 ** 30
    if kind == "tiny":
        return r.randint(-4, 5, size=shape).astype(float) * 2.0 ** -30
    if kind == "offset":
        return r.normal(size=shape) + 1000.0
    if kind == "level":
        return r.normal(size=shape) + 2e6 * r.randint(1, 6, size=shape[:-1] + (1,))
    if kind == "periodic":
        p = r.randint(2, 5)
        base = r.randint(-3, 4, size=shape[:-1] + (p,)).astype(float)
        return np.concatenate([base] * (n // p + 1), axis=-1)[..., :n]
    if kind == "zero":
        return np.zeros(shape)
    raise KeyError(kind)


def lengths(spec, r, n, lo=None):
    L = spec["len"]
    if not spec["var"]:
        return [L] * n
    hi = max(L, int(L * (1 + spec["spread"])))
    out = [int(r.randint(L, hi + 1)) for _ in range(n)]
    if lo is None and n:
        out[int(r.randint(n))] = L
    return out


def label_values(spec):
    k = spec["k"]
    m = spec["labels"]
    more = [1001 + 7 * j for j in range(max(0, k - 7))]
    if m == "int":
        return np.arange(k)
    if m == "neg":
        return np.array(([-1, 1, 5, -8, 300, 2, 70000] + more)[:k])
    if m == "gap":
        return np.array(([3, 10, 4, 1000, 300, 40, -2] + more)[:k])
    if m == "big":
        # not told apart by a float, nor by 32 bits
        return np.array(([2 ** 53 + 1, 2 ** 53, 2 ** 33 + 3, 3, -2 ** 40, 2 ** 32 + 3, 2 ** 62] + more)[:k])
    if m == "one":
        return np.arange(1, k + 1)
    if m == "str":
        return np.array((["b", "a", "zz", "B", "10", "9", "a "] + ["c%d" % v for v in more])[:k])
    if m == "long":
        return np.array(["recordings of the subject number %d" % ((7 * j + 3) % (k + 11 if (k + 11) % 7 else k + 12)) for j in range(k)])
    if m == "float":
        return np.arange(k).astype(float)
    if m == "bool":
        return np.array([False, True]) if k == 2 else np.arange(k)
    if m == "obj":
        return np.array((["yes", "no", "n/a", "", "perhaps", "?", "never"] + ["c%d" % v for v in more])[:k], dtype=object)
    if m == "u8":
        return np.array(([200, 3, 255, 0, 128, 127, 5] + [11 + j for j in range(k)])[:k], dtype=np.uint8)
    raise KeyError(m)


def build(spec, n=None, salt=0, length=None):
    """-> (X in the requested container, list of 2D float arrays, y)."""
    r = np.random.RandomState((spec["seed"] + 7919 * salt) & 0x7FFFFFFF)
    n = n or spec["n"]
    sp = dict(spec)
    if length is not None:
        sp["len"] = length
    ls = lengths(sp, r, n)
    rows = [values(r, sp["values"], (sp["ch"], L)) for L in ls]
    if sp["var"] and sp["layout"] == "list-mixed" and sp["values"] not in ("tiny", "level"):
        # series of whole numbers next to others, each in its own type
        rows = [[np.round, lambda x: x.astype(np.float32).astype(float), np.array][i % 3](x) for i, x in enumerate(rows)]
    lab = label_values(sp)
    idx = np.arange(n) % len(lab)
    r.shuffle(idx)
    # the first series of every class is always present when n allows
    y = lab[idx]
    return contain(sp, rows), rows, y


def contain(spec, rows):
    lay = spec["layout"]
    if spec["var"]:
        if lay == "object":
            X = np.empty(len(rows), dtype=object)
            for i, x in enumerate(rows):
                X[i] = np.array(x)
            return X
        if lay == "list-F":
            return [np.asfortranarray(x) for x in rows]
        if lay == "list-strided":
            return [np.repeat(x, 2, axis=1)[:, ::2] if i % 2 else np.ascontiguousarray(x[::-1, ::-1])[::-1, ::-1]
                    for i, x in enumerate(rows)]
        if lay == "list-mixed":
            as_type = [x.astype([np.int64, np.float32, np.float64][i % 3]) for i, x in enumerate(rows)]
            return [a if np.array_equal(a, x) else np.array(x) for a, x in zip(as_type, rows)]
        return [np.array(x) for x in rows]
    A = np.stack(rows)
    if lay == "F":
        return np.asfortranarray(A)
    if lay == "strided":
        B = np.zeros((A.shape[0], A.shape[1], A.shape[2] * 2))
        B[:, :, ::2] = A
        return B[:, :, ::2]
    if lay == "int64" and spec["values"] in ("int", "runs", "flat"):
        return A.astype(np.int64)
    if lay == "f32" and spec["values"] in ("int", "runs", "flat", "big", "tiny"):
        return A.astype(np.float32)
    return A


def exact(spec):
    return spec["values"] in ("int", "runs", "flat", "big", "tiny", "periodic")


def shapelet_params(rng, spec, n_shapelets=None):
    L = spec["len"]
    p = {"n_shapelets": n_shapelets or rng.choice([1, 3, 6, 8, 10, 15, 20])}
    m = rng.random()
    if m < 0.55:
        p["shapelet_lengths"] = rng.choice([[3], [3, 5], [2, 3, 4], [4, 6], [3, 5, 7], [5], [L // 2], [L], [L + 3, 3]])
    elif m < 0.75:
        p["shapelet_lengths"] = rng.choice([[0.25], [0.3, 0.5], [0.5], [0.34, 0.4]])
        if int(min(p["shapelet_lengths"]) * L) < 2:
            p["shapelet_lengths"] = [0.5]
    else:
        p["shapelet_lengths_bounds"] = rng.choice([[3, 6], [4, 8], [0.3, 0.6], [3, 3]])
        p["lengths_bounds_reduction"] = rng.choice([0.0, 0.5, 0.25])
    p["alpha"] = rng.choice([0.0, 0.3, 0.5, 0.5, 0.8, 1.0])
    p["proba_norm"] = rng.choice([0.0, 0.5, 0.8, 1.0])
    p["phase_invariance"] = rng.random() < 0.4
    p["prime_dilations"] = rng.random() < 0.3
    p["percentiles"] = rng.choice([[5, 10], [0, 100], [50, 50], [0, 0], [20, 80], [5.0, 10.0], [2.5, 97.5], [12.5, 12.5], [0.5, 7.5]])
    if spec["ch"] > 1 and rng.random() < 0.4:
        p["max_channels"] = rng.choice([1, 2, 1, 2, 5])
    return p


WIDE = ["long", "long", "many", "shapelets", "channels", "classes"]
HUGE = 0.2      # share of the wide cases that go beyond 256 series, 500 points, 16 channels or 10 classes


def widen(rng, d, p, kinds=WIDE, est="T"):
    """One dimension far beyond the usual sizes, the others small (the reference
    models and the simulated kernels stay cheap)."""
    k = rng.choice(kinds)
    nk = "n_shapelets"
    if k == "long":
        d["len"], d["n"], d["k"] = rng.choice([130, 150, 200, 260, 300]), rng.choice([3, 4]), 2
        p[nk] = min(p[nk], rng.choice([2, 4, 6]))
        d["spread"] = min(d["spread"], 0.2)
        if rng.random() < HUGE:
            d["len"], d["ch"], p[nk] = rng.choice([515, 600]), 1, min(p[nk], 2)
        if p.get("shapelet_lengths") and (min(p["shapelet_lengths"]) < 1 or max(p["shapelet_lengths"]) > 9):
            p["shapelet_lengths"] = [3, 9]
        if p.get("shapelet_lengths_bounds") and max(p["shapelet_lengths_bounds"]) < 1:
            p["shapelet_lengths_bounds"] = [3, 9]
        if est != "T":
            d["n"] = max(4, d["n"])
        if rng.random() < 0.3:
            p["shapelet_lengths"] = [rng.choice([40, 70, 128])]
            p.pop("shapelet_lengths_bounds", None)
            p[nk] = min(p[nk], 2)
    elif k == "many":
        d["n"], d["len"] = rng.choice([33, 40, 65, 70]), max(8, min(d["len"], 10)) if est != "E" else 16
        d["spread"] = min(d["spread"], 0.5)
        p[nk] = min(p[nk], 4)
        if rng.random() < HUGE:
            d["n"], d["ch"], p[nk] = rng.choice([129, 257, 260]), min(d["ch"], 2), min(p[nk], 2)
            d["len"], d["spread"] = 8 if est != "E" else 16, min(d["spread"], 0.2)
        if p.get("shapelet_lengths") and max(p["shapelet_lengths"]) > 7:
            p["shapelet_lengths"] = [3, 5]
    elif k == "shapelets":
        d["n"], d["len"] = max(4, 2 * d["k"] if est != "T" else 0), rng.choice([8, 10, 12]) if est != "E" else 16
        p[nk] = rng.choice([66, 100, 140, 260]) if est != "E" else 70
        p["alpha"] = rng.choice([0.0, 0.3])
        if p.get("shapelet_lengths") and max(p["shapelet_lengths"]) > 7:
            p["shapelet_lengths"] = [3, 5]
    elif k == "channels":
        d["ch"] = rng.choice([5, 6, 8, 9])
        p[nk] = min(p[nk], 8)
        d["len"] = min(d["len"], 16)
        if rng.random() < HUGE:
            d["ch"], d["n"], d["len"], p[nk] = rng.choice([17, 33]), max(4, min(d["n"], 6)), min(d["len"], 12) if est != "E" else 16, min(p[nk], 4)
            d["n"] = max(d["n"], 2 * d["k"] if est != "T" else 2)
        if "max_channels" in p:
            p["max_channels"] = rng.choice([3, 5])
    else:
        d["k"] = rng.choice([4, 5, 6, 7]) if rng.random() >= HUGE else rng.choice([11, 13, 17])
        if d["k"] > 10:
            d["len"] = min(d["len"], 12) if est != "E" else 16
        d["n"] = max(d["n"], d["k"] * (1 if est == "T" and rng.random() < 0.3 else 2))
        p[nk] = min(p[nk], 8)
    ls = p.get("shapelet_lengths")
    if ls and min(ls) < 1 and int(min(ls) * d["len"]) < 2:
        p["shapelet_lengths"] = [0.5]
    d["wide"] = k
    return k


def explicit_type(rng, d, p, chance=0.15):
    """The kind of transformer is named instead of found: any that can take the data."""
    if rng.random() < chance:
        p["transform_type"] = rng.choice(
            (["univariate_variable"] if d["var"] else ["univariate", "univariate_variable", "multivariate"]) * (d["ch"] == 1)
            + (["multivariate_variable"] if d["var"] else ["multivariate", "multivariate_variable"]))
        if not d["var"] and d["values"] in ("int", "runs", "flat", "big", "tiny") and rng.random() < 0.5:
            d["layout"] = "f32"


def seed_value(rng):
    """Integer seeds, extreme ones included."""
    return rng.choice([0, 1, 2 ** 31 - 1, 2 ** 32 - 1]) if rng.random() < 0.1 else rng.randrange(1000)


def n_jobs(rng, ncpu):
    return rng.choice([1, 2, 3, ncpu, -1, -1, max(1, ncpu - 1), 5])


# ---- shrinking ------------------------------------------------------------
def shrink_spec(spec, min_n=2, min_len=6):
    out = []
    for n in (2, 3, spec["n"] - 1):
        if min_n <= n < spec["n"]:
            out.append(dict(spec, n=n))
    for L in (6, 8, 10, spec["len"] - 1):
        if min_len <= L < spec["len"]:
            out.append(dict(spec, len=L))
    if spec["ch"] > 2:
        out.append(dict(spec, ch=2))
    if spec["k"] > 2:
        out.append(dict(spec, k=2))
    if spec["spread"]:
        out.append(dict(spec, spread=0.0))
    if spec["labels"] != "int":
        out.append(dict(spec, labels="int"))
    if spec["layout"] not in ("list" if spec["var"] else "C", "f32"):
        out.append(dict(spec, layout="list" if spec["var"] else "C"))
    return out


def shrink_params(p):
    out = []
    for n in (1, 2, 4, p["n_shapelets"] // 2):
        if 0 < n < p["n_shapelets"]:
            out.append(dict(p, n_shapelets=n))
    for k, v in (("phase_invariance", False), ("prime_dilations", False), ("shapelet_lengths", [3]), ("alpha", 0.5),
                 ("percentiles", [5, 10]), ("n_samples", None), ("transform_type", None)):
        if k in p and p[k] != v:
            q = dict(p)
            if v is None:
                q.pop(k)
            else:
                q[k] = v
            out.append(q)
    if isinstance(p.get("proba_norm"), float) and p["proba_norm"] not in (0.0, 1.0):
        out.append(dict(p, proba_norm=0.0))
        out.append(dict(p, proba_norm=1.0))
    if "max_channels" in p:
        q = dict(p)
        q.pop("max_channels")
        out.append(q)
    if "shapelet_lengths_bounds" in p:
        q = dict(p)
        q.pop("shapelet_lengths_bounds")
        q.pop("lengths_bounds_reduction", None)
        q["shapelet_lengths"] = [3]
        out.append(q)
    return out


def shrink_case(case):
    """Generic: data, params, machine size, faults."""
    out = []
    for key in ("data", "data2", "test"):
        if key in case and isinstance(case[key], dict):
            for s in shrink_spec(case[key]):
                out.append(dict(case, **{key: s}))
    for key in ("params", "params2"):
        if key in case and "n_shapelets" in case[key]:
            for p in shrink_params(case[key]):
                out.append(dict(case, **{key: p}))
    for n in (1, 2, 3):
        if n < case.get("ncpu", 1):
            out.append(dict(case, ncpu=n))
    if case.get("n_jobs") not in (None, 1, 2):
        out.append(dict(case, n_jobs=2))
    if case.get("layer", {}).get("chunk") == "dynamic":
        out.append(dict(case, layer=dict(case["layer"], chunk="static")))
    if len(case.get("ops", [])) > 1:
        for i in range(len(case["ops"])):
            out.append(dict(case, ops=case["ops"][:i] + case["ops"][i + 1:]))
    if len(case.get("faults", [])) > 1:
        for i in range(len(case["faults"])):
            out.append(dict(case, faults=case["faults"][:i] + case["faults"][i + 1:]))
    return out
