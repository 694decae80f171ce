"""create_layout."""
from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = ["the antenna table is replaced by a table of arrays which raises KeyError for a missing column; saving the layout is replaced by a record of it"]
UV = "PyFHD.data_setup.uvfits"


class _Table(dict):
    """keywords and columns are case insensitive"""

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())


HEAD = {
    "coordinate_frame": ("frame", "ITRF", "IRTF"),
    "gst0": ("gstia0", 331.25, -1),
    "earth_degpd": ("degpdy", 361.5, 360.985),
    "refdate": ("rdate", "2013-08-23", -1),
    "dut1": ("ut1utc", 0.5, 0),
    "diff_utc": ("datutc", 3.5, 0),
    "pol_type": ("poltype", "LIN", "X-Y LIN"),
    "n_pol_cal_params": ("nopcal", 2, 0),
}


@harness(quick=[dict(what="header"), dict(what="times"), dict(what="columns", cal=0), dict(what="columns", cal=2), dict(what="columns", cal=3), dict(what="arrays")], budget=40)
def layout(t, what, cal=None):
    """every entry is that of the file, or its documented default when the file has none"""
    m = t.mod(UV)
    n = 4
    head = _Table({k: v for k, v, _ in HEAD.values()})
    head.update(arrayx=1.5, arrayy=2.5, arrayz=3.5, naxis2=n, iautc=35.0, timsys="UTC ")
    cols = _Table(
        anname=t.np.array(["T1", "T2", "T3", "T5"]),
        nosta=t.np.array([5, 7, 4, 9]),
        stabxyz=t.real("xyz", (n, 3), -1e3, 1e3),
        mntsta=t.np.array([0.0] * 4),
        staxof=t.np.array([1.0, 2.0, 3.0, 2.0]),
        poltya=t.np.array(["X"] * 4),
        polaa=t.np.array([0.0] * 4),
        polcala=t.np.array([0.0] * 4),
        poltyb=t.np.array(["Y"] * 4),
        polab=t.np.array([90.0] * 4),
        polcalb=t.np.array([0.0] * 4),
        diameter=t.np.array([4.0, 4.0, 5.0, 5.5]),
        beamfwhm=t.np.array([1.0, 2.0, 3.0, 4.0]),
    )
    gone = set()
    if what == "header":
        key = t.choice("key", list(HEAD) + ["array_center", "n_antenna"])
        gone.add(key)
        for k in ("arrayx", "arrayy", "arrayz"):
            if key == "array_center" and t.flag(k):
                head.pop(k)
                break
        else:
            gone.discard("array_center")
        if key in HEAD:
            head.pop(HEAD[key][0])
        if key == "n_antenna":
            head.pop("naxis2")
    if what == "times":
        sys = t.choice("system", ["timsys", "timesys", None])
        head.pop("timsys")
        zone = t.choice("zone", ["IAT", "UTC", "GPS"])
        if sys:
            head[sys] = zone + " "
        else:
            zone = "UTC"
        if t.flag("no leap seconds"):
            head.pop("iautc")
            leap = 3.5 if zone == "IAT" else -1
        else:
            leap = 35.0
    if what == "columns":
        head["nopcal"] = cal
        name = t.choice("column", [k for k in cols])
        cols.pop(name)
        gone.add(name)
    xyz = {}
    if what == "arrays":
        for k, (a, b) in {"mntsta": ("mount_type", 0), "staxof": ("axis_offset", 0), "polaa": ("pola_orientation", 0), "polab": ("polb_orientation", 0)}.items():
            v = t.real(k, n, -4, 4)
            same = t.flag(k)
            if same:
                v[1] = v[2] = v[3] = v[0]
            else:
                t.assume(t.Or(v[1] > v[0] + 0.5, v[1] < v[0] - 0.5))
            cols[k] = v
            xyz[a] = (v.copy(), same)
    saved = []
    keep = m.save
    m.save = like(m, "save", lambda path, data, name, logger, **kw: saved.append((str(path), name, data)))
    try:
        out = m.create_layout(head, cols, {"output_dir": "/out"}, t.logger)
    finally:
        m.save = keep
    t.check("saved next to the other output", len(saved) == 1 and saved[0][0] == "/out/layout.h5" and saved[0][2] is out)
    for k, (name, v, d) in HEAD.items():
        if what == "columns" and k == "n_pol_cal_params":
            v = cal
        t.check("header entry", out[k] == (d if k in gone else v))
    t.check("array centre", list(out["array_center"]) == ([-2559454.07880307, 5095372.14368305, -2849057.18534633] if "array_center" in gone else [1.5, 2.5, 3.5]))
    t.check("number of antennas", out["n_antenna"] == (128 if "n_antenna" in gone else n))
    if what == "times":
        t.check("time system", out["time_system"] == zone)
        t.check("leap seconds", out["nleap_sec"] == leap)
    names = [str(out["antenna_names"][i]) for i in range(n)]
    t.check("antenna names", names == (["0", "1", "2", "3"] if "anname" in gone else ["T1", "T2", "T3", "T5"]))
    t.check("antenna numbers of all antennas", out["antenna_numbers"].shape == (n,))
    for i in range(n):
        t.eq("antenna number", out["antenna_numbers"][i], i + 1 if "nosta" in gone else (5, 7, 4, 9)[i])
    t.eq("antenna coordinates", out["antenna_coords"], t.np.zeros((n, 3)) if "stabxyz" in gone else cols["stabxyz"])
    for k, (v, same) in xyz.items():
        t.eq("a common value is kept once" if same else "values per antenna", out[k], v[0] if same else v)
    if not xyz:
        t.eq("mount type", out["mount_type"], 0)
        t.eq("axis offset", out["axis_offset"], 0 if "staxof" in gone else t.np.array([1.0, 2.0, 3.0, 2.0]))
        t.eq("orientation of the first feed", out["pola_orientation"], 0)
        t.eq("orientation of the second feed", out["polb_orientation"], 90)
    for k, c, d in (("pola", "poltya", "X"), ("polb", "poltyb", "Y")):
        t.check("feed", out[k] == d if c in gone else [str(out[k][i]) for i in range(n)] == [d] * n)
    for k, c in (("pola_cal_params", "polcala"), ("polb_cal_params", "polcalb")):
        if c in gone:
            t.eq("feed parameters", out[k], t.np.zeros(cal) if cal > 1 else 0)
        else:
            t.eq("feed parameters of the file", out[k], t.np.zeros(n))
    for k, c in (("diameters", "diameter"), ("beam_fwhm", "beamfwhm")):
        t.check("optional column", (k in out) == (c not in gone))
        if c not in gone:
            t.eq("optional column of the file", out[k], cols[c])
