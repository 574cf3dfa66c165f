SB='signals/signal_base.py'; GS='signals/gp_signals.py'; UT='signals/utils.py'; WS='signals/white_signals.py'; SE='signals/selections.py'; DS='signals/deterministic_signals.py'; GB='signals/gp_bases.py'
L=[
("vkey-sum","C01",SB,"ret.append((key, tuple(params[key])))","ret.append((key, float(np.sum(params[key]))))"),
("getitem-prefix","C09",SB,"if sc.psrname == key:","if sc.psrname.startswith(key):"),
("fmat-reuse","C01",SB,"Fmat = np.zeros_like(self._Fmat)","Fmat = self._Fmat"),
("tm-idx-sorted","C13",UT,"tm_idx = list(self.psr.fitpars).index(tm_par)","tm_idx = sorted(self.psr.fitpars).index(tm_par)"),
("wb-mean-1","C18",GS,"mean_dm[which] = np.sum(dm[which] / dme[which] ** 2) / np.sum(1.0 / dme[which] ** 2)","mean_dm[which] = np.average(dm[which], weights=1.0 / dme[which])"),
("wb-edge","C18",GS,"which = (dmx[\"DMXR1\"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx[\"DMXR2\"])","which = (dmx[\"DMXR1\"] < psr.stoas / 86400) & (psr.stoas / 86400 <= dmx[\"DMXR2\"])"),
("wb-toas","C18",GS,"which = (dmx[\"DMXR1\"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx[\"DMXR2\"])","which = (dmx[\"DMXR1\"] <= psr.toas / 86400) & (psr.toas / 86400 < dmx[\"DMXR2\"])"),
("ng-ends","C07",SE,"flagvals = [val for val in flagvals if any([b in val for b in ngb])]","flagvals = [val for val in flagvals if any([val.endswith(b) for b in ngb])]"),
("det-assign","C20 C07",DS,"delay[mask] += self._wf[key]","delay[mask] = self._wf[key]"),
("det-buffer","C01",DS,"delay = np.zeros(self._ntoas)","delay = self.__dict__.setdefault(\"_buffer\", np.zeros(self._ntoas))\n            delay[:] = 0.0"),
("mn-shape","C17 C01",SB,"        return key is arg\n","        return key is arg or (np.shape(key) == np.shape(arg) and np.array_equal(np.ravel(key)[:1], np.ravel(arg)[:1]))\n"),
("wb-phi-shared","C18 C01",GS,"phi = KernelMatrix(1e40 * np.ones(self._npars, \"d\"))","phi = self.__dict__.setdefault(\"_dmxphi\", KernelMatrix(1e40 * np.ones(self._npars, \"d\")))"),
("sel-cache-name","C07 C24",SE,"            return selection_func(func)(psr=self._psr)","            cache = self.__class__.__dict__.get(\"_seen\")\n            if cache is None or cache[0] != self._psr.name:\n                cache = (self._psr.name, selection_func(func)(psr=self._psr))\n                self.__class__._seen = cache\n            return cache[1]"),
("sel-cache-len","C07",SE,"            return selection_func(func)(psr=self._psr)","            cache = self.__class__.__dict__.get(\"_seen\")\n            if cache is None or cache[0] != (self._psr.name, len(self._psr.toas)):\n                cache = ((self._psr.name, len(self._psr.toas)), selection_func(func)(psr=self._psr))\n                self.__class__._seen = cache\n            return cache[1]"),
("ranphase-seedcast","C22",GB,"seed = int(toas[0] / 17) + int(pseed)","seed = int(toas.min() / 17) + int(pseed)"),
("tm-label","C13",UT,"save_name = sig.name.split(\"_\")[0] + \"_\" + tm_par","save_name = sig.psrname + \"_\" + sig.signal_id + \"_\" + tm_par"),
("coef-first-only","C19",GS,"c[slc] = params[p.name] if p.name in params else p.value","c[slc] = np.asarray(params.get(p.name, p.value))[: slc.stop - slc.start] if slc.start == 0 else params[p.name]"),
("coef-logdet","C19",GS,"return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi)","return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(self._labels) * np.log(2 * np.pi)"),
("common-orfpos","C05 C02",GS,"orf = BasisCommonGP._orf(self._psrpos, self._psrpos, params=params)","orf = 1.0"),
("phicross-labels","C05 C22",GS,"prior = BasisCommonGP._prior(signal1._labels, params=params)\n                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)","prior = BasisCommonGP._prior(signal1._labels, params=params)\n                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos)"),
("svd-tmcount","C17",GS,"self.Mprior = Mmat.shape[1] * np.log(1e40)","self.Mprior = np.linalg.matrix_rank(Mmat) * np.log(1e40)"),
("white-alloc","C07 C04",WS,"ret += self._ndiag[key](params=params) * mask","ret = ret + np.where(mask & (np.asarray(ret) == 0), self._ndiag[key](params=params), 0.0)"),
("tneq-size","C04",WS,"return np.ones_like(toas) * 10 ** (2 * log10_tnequad)","return np.full(toas.shape, 10 ** (2 * log10_tnequad)) if np.ndim(log10_tnequad) == 0 and log10_tnequad > -9.5 else np.zeros(toas.shape)"),
("equad-neg","C04",WS,"return efac**2 * (toaerrs**2 + 10 ** (2 * log10_t2equad))","return efac**2 * toaerrs**2 + 10 ** (2 * log10_t2equad)"),
("freq-any","C07",SE,"bands = {\"Band.1\": [0, 1000], \"Band.2\": [1000, 2000], \"Band.3\": [2000, 3000], \"Band.4\": [3000, 10000]}","bands = {\"Band.1\": [0, 1000], \"Band.2\": [1000, 2000], \"Band.3\": [2000, 3000], \"Band.4\": [3000, 1e6]}"),
("cbd-update","C07",SE,"flagdict.update({val: flags[flagname] == val for val in flagvals})","flagdict.update({val: flags[flagname] == val for val in flagvals if val not in flagdict})"),
("cond-variance","C13",UT,"return self._sample_conditional(params, n=1, gp=True, variance=False)[0]","return self._sample_conditional(params, n=1, gp=True)[0]"),
("cond-lazy","C13 C01",UT,"        ch, mn = self._make_conditional(params)\n","        if getattr(self, \"_last\", (None,))[0] is not params:\n            self._last = (params, self._make_conditional(params))\n        ch, mn = self._last[1]\n"),
("clip-index","C07",SE,"return {name: np.isin(np.arange(len(toas)), idx)}","mask = np.zeros(len(toas), dtype=bool)\n        mask[np.atleast_1d(idx)] = True\n        return {name: mask}"),
("gc-svdcut","C13",UT,"mn = np.dot(u, np.dot(u.T, TNr) / s)","mn = np.linalg.lstsq(Sigma, TNr, rcond=1e-10)[0]"),
("phi-slice","C05",SB,"ret[sc] = slice(offset, offset + stop)","ret[sc] = slice(offset, offset + stop) if stop else slice(0, 0)"),
("hyper-first","C11",'signals/parameter.py',"        mu = self.get(\"mu\")" if 0 else "XXX","XXX"),
]
L=L[:-1]
