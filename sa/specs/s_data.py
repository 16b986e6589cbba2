"""Window slicing and sampling, datasets."""
import re
from ..spec import *  # noqa
from ..algebra import Poly, idiv
from ..values import Num, Tensor

C0 = Poly.const(0)


def rng(s, T):
    """The random-integer draw a tensor consists of (through casts and moves), or None."""
    n = s.I.nd(T)
    while n.op in ("cast", "todev", "detach", "index", "slice") and n.args:
        if n.op in ("index", "slice") and any(k != ("all",) for k in (n.attr or ())):
            return None
        n = n.args[0]
    return n


def at(s, n):
    """Element accessor of a node as an index expression."""
    return lambda *i: s.S.ival(n, tuple(topoly(x) for x in i))


@spec("P07", r"^unfold_windows\[(\d)D,drop_last=(\w+)\]$")
def unfold(s, m):
    nd, drop = int(m.group(1)), m.group(2) == "True"
    x = s.t("x")
    if not s.returns():
        return s.require(False, "returns", "raises %s" % s.r.exc)
    T, W, st = s.P("T"), s.P("window_size"), s.P("stride")
    n = idiv(T - W, st) + 1
    lead = [d.p for d in x.shape[:-1]]
    out = s.items()
    if not drop:
        s.require(len(out) == 2, "windows and remainder are returned")
        if len(out) != 2:
            return
        rem = T - ((n - 1) * st + W)
        s.expect(out[1], [Poly.const(1)] + lead + [rem], lambda *i: x(*(i[1:-1] + (T - rem + i[-1],))), "remainder")
    s.expect(out[0], [n] + lead + [W], lambda *i: x(*(i[1:-1] + (st * i[0] + i[-1],))), "windows")


@spec("P07", r"^slice_kernels\[(\d)D,idx=(\d)D\]$")
def slice_(s, m):
    nd, ni = int(m.group(1)), int(m.group(2))
    if (nd, ni) not in ((1, 1), (2, 1), (2, 2), (3, 1)):
        return s.require(s.r.exc is not None and s.r.exc.name == "ValueError", "mismatched indices are rejected")
    if not s.returns():
        return s.require(False, "returns", "raises %s" % s.r.exc)
    x, idx, k = s.t("x"), s.t("idx"), s.P("kernel_size")
    ix = at(s, idx.node)
    N = idx.shape[0].p
    if nd == 1:
        s.expect(s.r.value, [N, k], lambda n, t: x(ix(n) + t), "kernels")
    elif nd == 2:
        s.expect(s.r.value, [N, s.P("C"), k], lambda n, c, t: x(c, ix(*((n, c)[:ni])) + t), "kernels")
    else:
        s.expect(s.r.value, [N, s.P("C"), k], lambda n, c, t: x(n, c, ix(n) + t), "kernels")


@spec("P07", r"^sample_kernels\[(\d)D,off=(\w+),coincident=(\w+),return_idx=(\w+)\]$")
def sample(s, m):
    nd, off, co, ri = int(m.group(1)), m.group(2), m.group(3) == "True", m.group(4) == "True"
    T, k = s.P("T"), s.P("kernel_size")
    x = s.t("X")
    if not s.returns():
        return s.require(s.r.exc.name == "ValueError", "only a documented rejection raises", "raises %s" % s.r.exc)
    N = s.P("B") if nd == 3 else s.P("N")
    out = s.items()
    s.require(len(out) == (2 if ri else 1), "number of results")
    per = nd == 2 and not co
    if len(out) != (2 if ri else 1):
        return
    if ri:
        n = rng(s, out[1])
    else:
        ns = [n for n in s.walk(out[0]) if n.op == "randint"]
        n = ns[0] if len(ns) == 1 else None
    if n is None or n.op != "randint" or n.attr is None or n.attr[1] is None or n.attr[2] is None:
        return s.results.append(("draw", "undecided", "start indices are not a single uniform draw"))
    want = [N, s.P("C")] if per else [N]
    s.require(len(n.shape) == len(want) and all(s.I.same(a.p - b) is True for a, b in zip(n.shape, want)),
              "one start per kernel%s" % (" and channel" if per else ""))
    lo, hi = topoly(n.attr[1]), topoly(n.attr[2])
    c = idiv(T, Poly.const(2))
    if nd == 1 or off == "none":
        s.require(s.S.ge0(lo) and s.S.ge0(T - k - (hi - 1)), "every start is in bounds", "draws from [%r, %r)" % (lo, hi))
        s.require(s.I.same(lo) is True and (s.I.same(T - k + 1 - hi) is True or s.I.same(T - k - hi) is True),
                  "every window before the last can be drawn", "draws from [%r, %r)" % (lo, hi))
        s.require(s.I.same(T - k - hi) is not True, "@the last window of %s can be drawn" % ("one axis" if nd == 1 else "channels"),
                  "draws from [%r, %r)" % (lo, hi))
    else:
        o = s.P("max_center_offset") if off == "pos" else s.P("neg_offset")
        s.require(s.S.ge0(lo) and s.S.ge0(T - k - (hi - 1)), "every start is in bounds", "draws from [%r, %r)" % (lo, hi))
        s.require(s.I.same(lo - (c - o - k)) is True, "earliest start", "draws from %r" % lo)
        s.require(s.I.same(hi - (c if off == "pos" else c + o)) is True, "latest start", "draws below %r" % hi)
    ix = at(s, s.I.nd(out[1]) if ri else n)
    if nd == 1:
        s.expect(out[0], [N, k], lambda i, t: x(ix(i) + t), "kernels")
    elif nd == 2:
        s.expect(out[0], [N, s.P("C"), k], lambda i, ch, t: x(ch, ix(*((i, ch) if per else (i,))) + t), "kernels")
    else:
        s.expect(out[0], [N, s.P("C"), k], lambda i, ch, t: x(i, ch, ix(i) + t), "kernels")


# ---------------------------------------------------------------------------- datasets (P08)
def rounds(s):
    """[(index, length, yielded value)]: what each analysed loop round yields, in order."""
    out, cur, last = [], [], None
    for e in s.r.events:
        if e.kind == "round":
            last = (e.data["index"], e.data["length"])
        elif e.kind == "yield":
            out.append((last, e.data["value"]))
    return out


def none_yielded(s, n):
    """An iteration that ends without a batch: right exactly when no batch is due."""
    if not isinstance(s.r.value, PyList) or len(s.r.value.items):
        return s.results.append(("batches", "undecided", "not a generator"))
    ran = any(e.kind == "round" for e in s.r.events)
    s.require(not ran and s.S.ge0(topoly(plain(n)) - 1) is not True, "batches are yielded", "%s rounds, no batch" % ("some" if ran else "no"))


def same(s, a, b):
    return a is not None and b is not None and s.I.same(topoly(a) - topoly(b)) is True


def plain(v):
    return v.p if isinstance(v, Num) else v


def draws(s, v):
    ns = [n for n in s.walk(v) if n.op in ("randint", "randperm")]
    return ns


@spec("P08", r"^InMemoryDataset\[bpe=(\w+),coincident=(\w+),shuffle=(\w+),y=(\w+)\]$")
def inmemory(s, m):
    bpe, co, sh, y = m.group(1) == "P", m.group(2) == "True", m.group(3) == "True", m.group(4) == "y"
    T, k, b, st, C = s.P("T"), s.P("kernel_size"), s.P("batch_size"), s.P("stride"), s.P("C")
    nk = idiv(T - k, st) + 1
    B = s.P("batches_per_epoch")
    if (not co) and (not bpe or y):
        return s.require(s.r.exc is not None and s.r.exc.name == "ValueError", "unsupported combinations are rejected")
    if not s.returns() and not sh and not co and s.r.exc.name == "ValueError":
        return s.results.append(("deterministic non-coincident order", "undecided", "itertools.product"))
    if not s.returns():
        return s.require(s.r.exc.name == "ValueError" and bpe and s.S.ge0(b * B - nk - 1) is True,
                         "only a too short timeseries is rejected", "raises %s" % s.r.exc)
    n = B if bpe else idiv(nk - 1, b) + 1
    if s.r.value is None:
        return s.require(False, "batches are yielded", "None is not an iterator")
    s.require(same(s, plain(s.r.ctx.length), n), "length", "len() is %r, expected %r" % (plain(s.r.ctx.length), n))
    rs = rounds(s)
    vals = s.items()
    if not vals:
        return none_yielded(s, n)
    if len(rs) != len(vals) or any(x[0] is None for x in rs):
        return s.results.append(("batches", "undecided", "batches are not produced by one counted loop"))
    x = s.t("X")
    seen = set()
    for (j, length), v in rs:
        s.require(same(s, length, n), "number of batches", "%r, expected %r" % (length, n))
        j = topoly(plain(j))
        parts = list(v) if isinstance(v, tuple) else [v]
        s.require(len(parts) == (2 if y else 1), "targets accompany the kernels exactly when given")
        if len(parts) != (2 if y else 1):
            return
        ds = {id(z): z for p in parts for z in draws(s, p)}
        if sh:
            if len(ds) != 1:
                s.require(bool(ds), "kernels are shuffled")
                return s.results.append(("shuffle", "undecided", "%d draws" % len(ds))) if ds else None
            d = list(ds.values())[0]
            seen.add(id(d))
            if co:
                s.require(d.op == "randperm" and same(s, d.attr[1], nk), "every window of the timeseries at most once per epoch")
                at_ = lambda q, c: s.S.draw(d, (q,))
            else:
                s.require(d.op == "randint" and same(s, d.attr[1], 0) and same(s, d.attr[2], nk),
                          "channels draw from all windows")
                at_ = lambda q, c: s.S.draw(d, (q, c))
                if d.op != "randint" or len(d.shape) != 2:
                    return s.require(False, "each channel draws its own windows")
        else:
            s.require(not ds, "deterministic order draws nothing")
            at_ = lambda q, c: q
        if not sh and not co:
            s.results.append(("deterministic non-coincident order", "undecided", "itertools.product"))
            continue
        s.expect(parts[0], [b, C, k], lambda q, c, t: x(c, at_(j * b + q, c) * st + t), "kernels")
        if y:
            yy = s.t("y")
            s.expect(parts[1], [b, k], lambda q, t: yy(at_(j * b + q, None) * st + t), "targets")
    if sh:
        s.require(len(seen) == 1, "one order per epoch")


@spec("P08", r"^ChunkedTimeSeriesDataset\[coincident=(\w+),chunks=(\w+)\]$")
def chunked(s, m):
    co, hist = m.group(1) == "True", m.group(2)
    k, b, bpc = s.P("kernel_size"), s.P("batch_size"), s.P("batches_per_chunk")
    dims = [("chunk1", "K1", "C", "T1")]
    if hist != "one":
        dims.append(("chunk2", "K1", "C", "T1") if hist == "same" else ("chunk2", "K2", "C2", "T2"))
    if not s.returns():
        short = any(s.S.ge0(k - 1 - s.P(d[3])) is True for d in dims)
        return s.require(s.r.exc.name == "ValueError" and short, "only a too short chunk is rejected", "raises %s" % s.r.exc)
    s.require(same(s, plain(s.r.ctx.length), bpc * len(dims)), "length")
    if s.r.value is None:
        return s.require(False, "batches are yielded", "None is not an iterator")
    rs = rounds(s)
    vals = s.items()
    if not vals:
        return none_yielded(s, bpc)
    if len(rs) != len(vals) or any(x[0] is None for x in rs) or len(rs) != 2 * len(dims):
        return s.results.append(("batches", "undecided", "batches are not produced by one counted loop per chunk"))
    used = set()
    for q, ((j, length), v) in enumerate(rs):
        name, K, C, T = dims[q // 2]
        K, C, T = s.P(K), s.P(C), s.P(T)
        s.require(same(s, length, bpc), "batches per chunk")
        src = {n.attr for n in s.walk(v) if n.op == "input"}
        s.require(src == {name}, "a batch holds kernels of one chunk", "reads %s" % sorted(map(str, src)))
        ds = draws(s, v)
        if len(ds) < 2 and all(d.op == "randint" and same(s, d.attr[1], 0) and
                               (same(s, d.attr[2], K) or same(s, d.attr[2], T - k + 1)) for d in ds):
            s.require(False, "every window of every sequence can be drawn", "draws %s" % [d.attr for d in ds])
            continue
        if len(ds) != 2:
            s.results.append(("draws", "undecided", "%d integer draws per batch" % len(ds)))
            continue
        which = [d for d in ds if d.op == "randint" and same(s, d.attr[1], 0) and same(s, d.attr[2], K)]
        start = [d for d in ds if d.op == "randint" and same(s, d.attr[1], 0) and same(s, d.attr[2], T - k + 1)]
        s.require(len(which) == 1, "sequences are drawn from the whole chunk", "draws %s" % [d.attr for d in ds])
        s.require(len(start) == 1, "every window of the chunk can be drawn", "draws %s" % [d.attr for d in ds])
        if len(which) != 1 or len(start) != 1 or len(ds) != 2:
            continue
        n = 1 if co else 2
        s.require(all(len(d.shape) == n for d in ds), "channels are drawn together exactly when coincident")
        if any(len(d.shape) != n for d in ds):
            continue
        s.require(not (used & {id(d) for d in ds}), "each batch draws anew")
        used |= {id(d) for d in ds}
        x = s.t(name)
        s.expect(v, [b, C, k], lambda i, c, t: x(s.S.draw(which[0], (i, c)[:n]), c, s.S.draw(start[0], (i, c)[:n]) + t), "kernels")


def positions(s, n):
    """(file number, node) of the positions-of-one-file array an index array derives from."""
    ps = [z for z in s.walk(n) if z.op == "unique_pos"]
    return ps[0] if len(ps) == 1 else None


@spec("P08", r"^Hdf5TimeSeriesDataset\[coincident=(True|False|files),num_files=(\w+)\]$")
def hdf5(s, m):
    co = m.group(1)
    files, chans = ("a.h5", "b.h5"), ("H1", "L1")
    C = Poly.const(2)
    k, b, bpe = s.P("kernel_size"), s.P("batch_size"), s.P("batches_per_epoch")
    if not s.returns():
        return s.require(s.r.exc.name == "ValueError", "only a documented rejection raises", "raises %s" % s.r.exc)
    s.require(same(s, plain(s.r.ctx.length), bpe), "length")
    if s.r.value is None:
        return s.require(False, "batches are yielded", "None is not an iterator")
    if s.items():
        probs(s, co, m.group(2), b, C)
    else:
        none_yielded(s, 0)
    lens = {}
    for e in s.r.events:
        if e.kind == "round":
            lens[topoly(plain(e.data["index"]))] = e.data["length"]
    outer = [e.data["length"] for e in s.r.events if e.kind == "round" and e.func.endswith("__iter__")]
    nw, wid = s.P("num_workers"), s.P("worker_id")
    facts = [f for f in s.I.facts.facts]
    worker = any(("s", "worker_id") in f.deep_syms() or "worker_id" in f.deep_syms() for f in facts)
    for L in outer:
        if not worker:
            s.require(same(s, L, bpe), "number of batches", "%r" % L)
        else:
            q = idiv(bpe, nw)
            s.same_value(s.num(L), s.num(q) + s.cge(bpe - q * nw - wid - 1), "a worker's share of the batches")
    for v in s.items():
        if not isinstance(v, Tensor) or v.shape is None:
            s.results.append(("batch", "undecided", "not a tensor"))
            continue
        s.require(len(v.shape) == 3 and same(s, v.shape[0].p, b) and same(s, v.shape[1].p, C) and same(s, v.shape[2].p, k),
                  "shape of a batch")
        seen = set()
        for n in s.walk(v):
            if n.op == "index_put":
                g = one_read(s, n, co, files, chans, C, k, b, lens)
                if g is not None:
                    seen.add(g)
        if not any(x[1] == "undecided" for x in s.results):
            s.require(seen == {0, 1}, "every file drawn from fills its part of the batch", "%s" % sorted(seen))


def one_read(s, n, co, files, chans, C, k, b, lens):
    S = s.S
    und = lambda why: s.results.append(("window", "undecided", why))
    if len(n.args) != 4:
        return und("not x[b, c] = window")
    tgt, val, bi, ci = n.args
    if val.op != "index" or not val.args or val.args[0].op != "h5data":
        return und("the window is not a slice of a file")
    fname, key = val.args[0].attr
    sl = [z for z in val.attr if z[0] == "slice"]
    if len(val.attr) != 1 or len(sl) != 1 or fname not in files:
        return und("the window is not one slice of a known file")
    lo, hi = [item(S, topoly(z)) for z in sl[0][1:3]]
    s.require(topoly(sl[0][3]).cval() == 1 and s.S.num(hi - lo).key() == s.S.num(k).key(), "window length", "%r" % (hi - lo))
    if not isinstance(key, tuple) or not val.args[0].args:
        return und("channel is not selected by an index")
    s.require(key[1:] == chans, "channel names")
    s.require(S.ival(val.args[0].args[0], ()) == S.ival(ci, ()), "the window is stored at the channel it was read from")
    # the loop over the windows of one file
    qs = [topoly(z[1]) for nn in s.walk(bi) if nn.op == "index" for z in (nn.attr or ()) if z[0] == "int"]
    qs = [z for z in qs if z in lens]
    pos = positions(s, bi)
    if len(set(qs)) != 1 or pos is None:
        return und("windows are not stored by one counted loop over the positions of a file")
    q = qs[0]
    g = pos.attr[0]
    cnt = pos.shape[0].p
    s.require(fname == files[g], "windows are stored where their file was drawn", "file %s at the positions of %s" % (fname, files[g]))
    s.require(same(s, lens[q], cnt * C if co != "False" else cnt), "as many windows as positions", "%r" % lens[q])
    one = (q,) if co == "False" else (idiv(q, C),)
    P = S.ival(pos, one)
    if co == "False":
        wb, wc = idiv(P, C), P - idiv(P, C) * C
    else:
        wb, wc = P, q - idiv(q, C) * C
    s.same_value(S.num(S.ival(bi, ())), S.num(wb), "batch element of a window")
    s.same_value(S.num(S.ival(ci, ())), S.num(wc), "channel of a window")
    src = [a[1] for a in topoly(sl[0][1]).atoms() if a[0] == "item"] + [a[2] for a in topoly(sl[0][1]).atoms() if a[:2] == ("intfn", "item")]
    ds = [z for z in s.walk(*src) if z.op == "randint"]
    if len(ds) != 1 or ds[0].attr[1] is None or ds[0].attr[2] is None:
        return und("the start is not one draw")
    d = ds[0]
    T = s.P("h5len:" + fname)
    s.require(same(s, d.attr[1], 0) and same(s, d.attr[2], T - k + 1), "every window of the file can be drawn and no other",
              "start in [%r, %r)" % (d.attr[1], d.attr[2]))
    tq = (idiv(q, C),) if co == "True" else (q,)
    s.require(len(d.shape) == 1 and same(s, d.shape[0].p, cnt if co != "files" else cnt * C), "one start per window"
              if co != "True" else "one start for all channels of a batch element")
    if len(d.shape) == 1:
        s.same_value(S.num(lo), S.num(S.draw(d, tq)), "start of a window")
    return g


def item(S, p):
    """Replace item(node) atoms by the normal form of the node's element."""
    sub = lambda a: S.ival(a[1], ()) if a[0] == "item" else S.ival(a[2], ()) if a[:2] == ("intfn", "item") else None
    return p.subst(sub)


def probs(s, co, nf, b, C):
    """Files are drawn in proportion to their length."""
    la, lb = s.P("h5len:a.h5"), s.P("h5len:b.h5")
    frac = [s.num(la) / s.num(la + lb), s.num(lb) / s.num(la + lb)]
    ev = [e.data for e in s.r.events if e.kind == "npchoice"]
    if not ev or len(ev) % 2:
        return s.results.append(("file draw", "undecided", "%d draws" % len(ev)))
    Q = s.P("num_files") if nf == "Q" else Poly.const(2)
    for first, second in zip(ev[::2], ev[1::2]):
        p = first["p"]
        s.require(p is not None, "files are weighted by their length")
        if not isinstance(p, Tensor) or p.shape is None or not same(s, p.shape[0].p, 2):
            if p is not None:
                s.results.append(("file draw", "undecided", "weights not a tensor"))
            continue
        s.require(first["replace"] is False and len(first["size"] or ()) == 1 and same(s, first["size"][0], Q),
                  "the batch's files are distinct and as many as asked for")
        for i in (0, 1):
            s.same_value(s.of(p)(i), frac[i], "weight of a file")
        w = second["p"]
        s.require(second["replace"] is True, "a file may fill several batch elements")
        size = second["size"]
        want = [b, C] if co == "False" else [b]
        s.require(size is not None and len(size) == len(want) and all(same(s, x, y) for x, y in zip(size, want)),
                  "one file per batch element%s" % (" and channel" if co == "False" else ""))
        s.require(w is not None, "files are weighted by their length within a batch")
        if not isinstance(w, Tensor) or w.shape is None:
            continue
        ns = [z for z in s.walk(w) if z.op.startswith("npchoice")]
        if len(ns) != 1:
            s.results.append(("file draw", "undecided", "weights within a batch"))
            continue
        ix = at(s, ns[0])
        f = lambda i: s.of(p)(ix(i))
        s.expect(w, [Q], lambda i: f(i) / s.sum(Q, f), "weight of a file within a batch")
