"""Small synthetic pulsars, built through enterprise's own Tempo2Pulsar from a stub timing package.

A pulsar is described by a JSON spec:
  name    pulsar name
  layout  epochs separated by '|'; one letter per TOA = observing system, e.g. "AB|A|BB"
  pos     index into POSITIONS, or [raj, decj]
  order   "sorted" | "rev" | "mix": order in which the timing package delivers the TOAs
  sort    passed to the Pulsar class
  tm      list of timing-model columns: "off","F0","F1","PB" (sinusoid),"DMX_0001"..., "zero"
  seed    data values
"""

import numpy as np

DAY = 86400.0

POSITIONS = [
    (0.3, 0.2),
    (1.7, -0.6),
    (4.1, 0.9),
    (5.5, -1.1),
    (0.3, 0.2),  # same as the first
]

SYSTEMS = {
    # letter: f flag, fe, be, B, telescope, sys
    "A": ("Rcvr1_2_GUPPI", "Rcvr1_2", "GUPPI", "20CM", "gbt"),
    "B": ("L-wide_PUPPI", "L-wide", "PUPPI", "10CM", "ao"),
    "C": ("X_custom", "X", "custom", "50CM", "pks"),
    "D": ("Rcvr_800_GASP", "Rcvr_800", "GASP", "50CM", "gbt"),
}

# twelve more systems whose names are prefixes of each other
for _i, _c in enumerate("abcdefghijkl"):
    _n = str(_i + 1)
    SYSTEMS[_c] = ("S" + _n, "RX" + _n, "BE", "%sCM" % _n, ["gbt", "ao", "pks"][_i % 3])

FREQS = [820.3, 1410.7, 2310.1, 431.9, 1180.5]


class _Par(object):
    def __init__(self, val=0.0, err=0.0):
        self.val, self.err = val, err


class StubTempo2(object):
    """The part of libstempo.tempopulsar that Tempo2Pulsar uses."""

    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.stoas = d["stoas"]
        self.toaerrs = d["toaerrs_us"]
        self.psrPos = d["psrPos"]
        for i, p in enumerate(
            ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]
        ):
            setattr(self, p + "_ssb", d["planets"][:, i, :])
        self.sun_ssb = d["sun"]
        self._vals = dict(d["vals"])
        for i in range(1, 10):
            self._vals["DMASSPLANET%d" % i] = _Par()

    def toas(self):
        return self.d["toas"]

    def residuals(self):
        return self.d["residuals"]

    def designmatrix(self):
        return self.d["designmatrix"]

    def ssbfreqs(self):
        return self.d["freqs_hz"]

    def telescope(self):
        return self.d["telescope"]

    def pars(self, which="fit"):
        return tuple(self.d["fitpars"] if which == "fit" else self.d["setpars"])

    def flags(self):
        return list(self.d["flags"].keys())

    def flagvals(self, key):
        return self.d["flags"][key]

    def formbats(self):
        pass

    def __getitem__(self, key):
        return self._vals[key]


def long_layout(systems="AB", epochs=60):
    """Many TOAs: epochs of 1, 2, 3, 4, 1, 2, ... TOAs, the tenth one with 12."""
    ep = ["".join(systems[(i * i + j * (1 + i % 2)) % len(systems)] for j in range(12 if i == 9 else 1 + (i * 7) % 4)) for i in range(epochs)]
    return "|".join(ep)


def epoch_times(nepoch, rng, span_days=1100.0, t0=53005.37):
    base = np.linspace(0.0, 1.0, max(nepoch, 2))[:nepoch]
    jitter = rng.uniform(-0.2, 0.2, nepoch) / max(nepoch, 2)
    jitter[0] = 0.0
    return t0 + span_days * (base + jitter)


def raw_data(spec):
    """Arrays as the timing package would deliver them (possibly unsorted)."""

    rng = np.random.RandomState((int(spec.get("seed", 1)) * 7919 + 13) % (2**31))
    epochs = spec["layout"].split("|")
    times = epoch_times(len(epochs), rng, span_days=spec.get("span", 1100.0), t0=spec.get("t0", 53005.37))

    toas, letters = [], []
    step = spec.get("step", 0.2)
    for ie, ep in enumerate(epochs):
        for it, letter in enumerate(ep):
            toas.append(times[ie] + it * step / DAY)
            letters.append(letter)
    toas = np.array(toas, dtype="d")
    letters = np.array(letters)
    n = len(toas)

    toaerrs = rng.uniform(0.3, 1.2, n)
    residuals = rng.randn(n) * 1.2e-6 + 1.5e-6 * np.sin(2 * np.pi * (toas - toas[0]) / 800.0 + rng.uniform(0, 6))
    freqs = np.array([FREQS[i % len(FREQS)] for i in range(n)]) + rng.uniform(-20, 20, n)

    x = (toas - 53500.0) / 300.0
    dmx_edges = {}
    tm = list(spec.get("tm", ["off", "F0", "F1"]))
    cols, fitpars = [], []
    vals = {}
    for c in tm:
        if c == "off":
            cols.append(np.ones(n))
        elif c == "F0":
            cols.append(x * 3e-2)
            fitpars.append("F0")
        elif c == "F1":
            cols.append(x**2 * 7e2)
            fitpars.append("F1")
        elif c == "PB":
            cols.append(np.sin(2 * np.pi * toas / 211.3) * 0.3)
            fitpars.append("PB")
        elif c == "zero":
            cols.append(np.zeros(n))
            fitpars.append("ZERO")
        elif c.startswith("DMX_"):
            k = int(c[4:7]) if c[4:7].isdigit() else int(c[4:])
            lo, hi = spec["dmx"][c]
            stoas = toas
            m = (stoas >= lo) & (stoas < hi)
            cols.append(m / (2.41e-4 * freqs**2))
            fitpars.append(c)
            dmx_edges[c] = (lo, hi, 1e-3 * (k + 0.5))
        else:
            raise ValueError(c)
    M = np.array(cols).T if cols else np.zeros((n, 0))

    raj, decj = (POSITIONS[spec["pos"]] if isinstance(spec.get("pos", 0), int) else spec["pos"])
    pos = np.array([np.cos(raj) * np.cos(decj), np.sin(raj) * np.cos(decj), np.sin(decj)])
    pos_t = pos[None, :] + 1e-4 * rng.randn(n, 3) + 1e-3 * np.outer(x, np.array([0.3, -0.2, 0.1]))
    pos_t /= np.sqrt(np.sum(pos_t**2, axis=1))[:, None]

    # smooth planet orbits (light seconds)
    planets = np.zeros((n, 9, 6))
    per = [88.0, 225.0, 365.25, 687.0, 4333.0, 10759.0, 30687.0, 60190.0, 90560.0]
    rad = [193.0, 361.0, 499.0, 760.0, 2596.0, 4780.0, 9580.0, 15000.0, 19700.0]
    for j in range(9):
        ph = 2 * np.pi * toas / per[j] + j
        planets[:, j, 0] = rad[j] * np.cos(ph)
        planets[:, j, 1] = rad[j] * np.sin(ph) * 0.9
        planets[:, j, 2] = rad[j] * np.sin(ph) * 0.4
        planets[:, j, 3:] = rng.randn(n, 3) * 1e-4
    sun = np.zeros((n, 6))
    sun[:, :3] = rng.randn(n, 3) * 2.0
    sun[:, 3:] = rng.randn(n, 3) * 1e-6

    flags = {
        "f": np.array([SYSTEMS[c][0] for c in letters]),
        "fe": np.array([SYSTEMS[c][1] for c in letters]),
        "be": np.array([SYSTEMS[c][2] for c in letters]),
        "B": np.array([SYSTEMS[c][3] for c in letters]),
        "pta": np.array(["NANOGrav" if c in "AD" else "PPTA" for c in letters]),
        "id": np.array(["toa%03d" % i for i in range(n)]),
    }
    if spec.get("wideband"):
        flags["pp_dm"] = np.array(["%.9f" % (12.0 + 1e-3 * v) for v in rng.randn(n)])
        flags["pp_dme"] = np.array(["%.9f" % v for v in rng.uniform(2e-4, 9e-4, n)])
    for k in spec.get("dropflags", []):
        del flags[k]

    vals.update(RAJ=_Par(raj), DECJ=_Par(decj), DM=_Par(12.0))
    setpars = ["RAJ", "DECJ", "DM", "F0", "F1"]
    for c, (lo, hi, v) in dmx_edges.items():
        vals[c] = _Par(v, 1e-4)
        vals[c[:3] + "R1" + c[3:]] = _Par(lo)
        vals[c[:3] + "R2" + c[3:]] = _Par(hi)
        setpars += [c]

    order = spec.get("order", "sorted")
    if order == "sorted":
        perm = np.arange(n)
    elif order == "rev":
        perm = np.arange(n)[::-1]
    elif order == "mix":
        perm = np.concatenate([np.arange(1, n, 2), np.arange(0, n, 2)])
    else:
        perm = np.array(order)

    d = dict(
        name=spec.get("name", "J0001+0001"),
        toas=toas[perm],
        stoas=toas[perm] + spec.get("stoa_shift", 2.3e-3),
        toaerrs_us=toaerrs[perm],
        residuals=residuals[perm],
        designmatrix=M[perm, :],
        freqs_hz=freqs[perm] * 1e6,
        telescope=np.array([SYSTEMS[c][4] for c in letters[perm]], dtype="S8"),
        fitpars=fitpars,
        setpars=setpars,
        flags={k: v[perm] for k, v in flags.items()},
        vals=vals,
        psrPos=pos_t[perm],
        planets=planets[perm],
        sun=sun[perm],
        letters=letters[perm],
        raj=raj,
        decj=decj,
        perm=perm,
    )
    return d


def make_psr(spec, seed=None):
    return from_raw(seeded_raw(spec, seed), sort=spec.get("sort", True))


def seeded_raw(spec, seed=None):
    spec = dict(spec)
    if seed is not None:
        spec["seed"] = spec.get("seed", 0) * 101 + seed
    return raw_data(spec)


def from_raw(raw, sort=True, **kw):
    from enterprise.pulsar import Tempo2Pulsar

    return Tempo2Pulsar(StubTempo2(raw), sort=sort, planets=kw.pop("planets", True), **kw)


BASE = {"name": "J0001+0001", "layout": "AB|A|BA|B", "pos": 0}


def spec(**kw):
    ret = dict(BASE)
    ret.update(kw)
    return ret
