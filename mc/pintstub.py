"""Stub of the part of PINT that PintPulsar uses, delivering recorded data (see mc/psrs.py)."""

import numpy as np

C_M_S = 299792458.0


class V(object):
    def __init__(self, value):
        self.value = value


class Par(object):
    def __init__(self, value, err=None, frozen=False):
        self.value, self.uncertainty_value, self.frozen = value, err, frozen

    @property
    def quantity(self):
        import astropy.units as u

        return self.value * u.rad


class Astrometry(object):
    def __init__(self, pos):
        self.pos = pos

    def ssb_to_psb_xyz_ICRS(self, epoch):
        assert len(epoch) == len(self.pos)
        return V(self.pos.copy())


class Toas(object):
    """raw: as delivered (any order)."""

    def __init__(self, raw):
        import astropy.units as u

        self.raw = raw
        self.ntoas = len(raw["toas"])
        obs = np.array(raw["obs_pos"])  # ssb_obs_pos in light seconds
        lt = lambda x: (x * C_M_S) * u.m  # noqa: E731
        tab = {"ssb_obs_pos": lt(obs)}
        if raw.get("with_planets", True):
            for nm, k in (("earth", 2), ("jupiter", 4), ("saturn", 5), ("uranus", 6), ("neptune", 7)):
                tab["obs_%s_pos" % nm] = lt(raw["planets"][:, k, :3] - obs)
        tab["obs_sun_pos"] = lt(raw["sun"][:, :3] - obs)
        self.table = type("Table", (dict,), {"colnames": property(lambda s: list(s.keys()))})(tab)

    def get_mjds(self):
        return V(np.array(self.raw["stoas"], dtype=np.longdouble))

    def get_errors(self):
        import astropy.units as u

        return np.array(self.raw["toaerrs_us"]) * u.us

    def get_obss(self):
        return [x.decode() for x in self.raw["telescope"]]

    def get_flags(self):
        # PINT stores only the flags that are present
        ret = []
        for i in range(self.ntoas):
            ret.append({k: str(v[i]) for k, v in self.raw["flags"].items() if str(v[i]) != ""})
        return ret

    def write_TOA_file(self, f):
        f.write("FORMAT 1\n")


class Model(object):
    def __init__(self, raw, frozen=()):
        self.raw = raw
        self.PSR = Par(raw["name"], frozen=True)
        v = raw["vals"]
        self.params = ["PSR"]
        for k, p in v.items():
            setattr(self, k, Par(p.val, p.err or None, frozen=k in frozen or k not in raw["fitpars"]))
            self.params.append(k)
        for k in raw["fitpars"]:
            if not hasattr(self, k):
                setattr(self, k, Par(1.0, 0.1))
                self.params.append(k)
        name = "AstrometryEcliptic" if "ELONG" in v else "AstrometryEquatorial"
        self.components = {name: Astrometry(raw["psrPos"])}

    def __getitem__(self, k):
        return getattr(self, k)

    def get_barycentric_toas(self, toas):
        import astropy.units as u

        return np.array(toas.raw["toas"], dtype="d") * u.d

    def barycentric_radio_freq(self, toas):
        return np.array(toas.raw["freqs_hz"]) / 1e6

    def designmatrix(self, toas):
        n = ["Offset"] + list(self.raw["fitpars"])
        return self.raw["designmatrix"].copy(), n[: self.raw["designmatrix"].shape[1]], ["unit_" + x for x in n]

    def as_parfile(self):
        return "PSR " + self.raw["name"] + "\n"


class Residuals(object):
    def __init__(self, toas, model):
        import astropy.units as u

        self.time_resids = np.array(toas.raw["residuals"]) * u.s


def make(raw, **kw):
    from enterprise import pulsar

    pulsar.resids = Residuals
    raw = dict(raw)
    rng = np.random.RandomState(5)
    raw.setdefault("obs_pos", rng.randn(len(raw["toas"]), 3) * 100.0)
    return pulsar.PintPulsar(Toas(raw), Model(raw), **kw)
