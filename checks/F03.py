"""vis_flag_tiles: named tiles."""
from symnp.spec import harness

ASSUMPTIONS = ["vis_flag_tiles: tile names are unique"]


@harness(quick=[dict(nb=2, n_tile=3), dict(nb=3, n_tile=2), dict(nb=1, n_tile=3, kinds=("begin", "end"))], thorough=[dict(nb=4, n_tile=3), dict(nb=2, n_tile=5), dict(nb=2, n_tile=4, kinds=("begin", "end"))], budget=90)
def named(t, nb, n_tile, kinds=("plain", "numbers")):
    """baselines of named tiles lose every weight, the others keep theirs, unknown names are skipped"""
    f = t.mod("PyFHD.flagging.flagging")
    ta, tb = t.int("a", nb, 1, n_tile), t.int("b", nb, 1, n_tile)
    names = ["Tile%02d" % (n_tile - k) for k in range(n_tile)]
    # some begin or end like others
    kind = t.choice("kind", list(kinds))
    numbers = kind in ("numbers", "begin")
    if kind == "numbers":
        names = [int(x[4:]) + 10 for x in names]
    elif kind == "begin":
        names = [121, 12, 1, 1213, 21][:n_tile]
    elif kind == "end":
        names = ["TileTile1", "le1", "Tile1", "tile1", "Tile11"][:n_tile]
    chosen = [k for k in range(n_tile) if t.flag("flag%d" % k)]
    spaces = t.choice("spaces", ["%s", " %s "])
    if not numbers and t.flag("padded"):
        names = [x + " " for x in names]
    ask = [spaces % names[k] for k in chosen]
    unknown = t.choice("unknown", [None, "Nowhere"] if kinds[0] == "plain" else ["Tile", "1213x", ""])
    if unknown:
        ask.insert(0, unknown)
    w = t.real("w", (2, 2, nb), -2, 2)
    old = w.copy()
    obs = {"baseline_info": {"tile_a": ta, "tile_b": tb, "tile_names": t.np.array(names)}}
    out = f.vis_flag_tiles(obs, w, ask, t.logger)
    for b in range(nb):
        cut = t.Or(*[t.Or(ta[b] == k + 1, tb[b] == k + 1) for k in chosen])
        for p in range(2):
            for q in range(2):
                t.check("zero exactly for baselines of a named tile", t.If(cut, out[p, q, b] == 0, out[p, q, b] == old[p, q, b]))


@harness(quick=[dict(n_tile=300)], thorough=[dict(n_tile=70000)], budget=30, validate=2)
def many(t, n_tile):
    """more tiles than small integers can count"""
    f = t.mod("PyFHD.flagging.flagging")
    half = n_tile - n_tile // 8
    ta = t.np.array([1, half, half - 256, n_tile, 2, 7])
    tb = t.np.array([half, half + 1, half - 255, n_tile, 2, 9])
    a = t.int("a", None, half - 1, half)
    ta[5] = a
    is_half = bool(a == half)
    w = t.real("w", (1, 1, 6), -2, 2)
    old = w.copy()
    names = ["Tile%05d" % (n_tile - k) for k in range(n_tile)]
    if t.flag("numbers"):
        names = [n_tile - k for k in range(n_tile)]
    obs = {"baseline_info": {"tile_a": ta, "tile_b": tb, "tile_names": t.np.array(names)}}
    out = f.vis_flag_tiles(obs, w, [str(names[half - 1]), str(names[n_tile - 1])], t.logger)
    for b in range(6):
        cut = b in (0, 1, 3) or (b == 5 and is_half)
        t.check("zero exactly for baselines of a named tile", out[0, 0, b] == (0 if cut else old[0, 0, b]))
