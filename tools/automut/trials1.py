S='signals/'
L=[
('key-10','C01',S+'signal_base.py','ret.append((key, tuple(params[key])))','ret.append((key, tuple(params[key][:10])))'),
('key-sum','C01',S+'signal_base.py','ret.append((key, tuple(params[key])))','ret.append((key, np.sum(params[key])))'),
('logdet-float','C02',S+'signal_base.py','loglike += sum(self.pta.get_logsignalprior(params))','loglike += self.pta.get_logsignalprior(params)[-1]'),
('names-sort','C09',S+'signal_base.py','''                    ret.append(p.name + "_{}".format(ii))
            else:
                ret.append(p.name)
        return ret

    @property
    def pulsarmodels''','''                    ret.append(p.name + "_{}".format(ii))
            else:
                ret.append(p.name)
        return sorted(ret)

    @property
    def pulsarmodels'''),
('map-size1','C09',S+'signal_base.py','ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])','ret[p.name] = xs[ct : ct + n] if p.size else float(xs[ct])'),
('freq-high','C07',S+'selections.py','val: (freqs >= fl) & (freqs < fh) for val','val: (freqs >= fl) & (freqs <= fh) for val'),
('half-tie','C07',S+'selections.py','[toas <= midpoint, toas > midpoint]','[toas < midpoint, toas >= midpoint]'),
('half-mean','C07',S+'selections.py','midpoint = (toas.max() + toas.min()) / 2','midpoint = toas.mean()'),
('index-list','C07',S+'selections.py','np.isin(np.arange(len(toas)), idx)','np.isin(np.argsort(toas), idx)'),
('cb-equal','C07',S+'selections.py','''            cb = list(np.atleast_1d(cb))
            flagvals = [val for val in flagvals if any([b in val for b in cb])]
        else:''','''            cb = list(np.atleast_1d(cb))
            flagvals = [val for val in flagvals if any([b == val or val.endswith(b) or val.startswith(b) for b in cb])]
        else:'''),
('quant-2dt','C08',S+'utils.py','        if toas[i] - bucket_ref[-1] < dt:','        if toas[i] - bucket_ref[-1] <= dt:'),
('slice-nonc','C08',S+'utils.py','if epinds[-1] - epinds[0] + 1 != len(epinds) or not as_slice','if epinds[-1] - epinds[0] + 1 > len(epinds) + 1 or not as_slice'),
('feather-sortcols','C15','pulsar.py','cols = [c for c in f.column_names if c.startswith(array)]','cols = sorted(c for c in f.column_names if c.startswith(array))'),
('dmx-bound','C18',S+'gp_signals.py','(psr.stoas / 86400 < dmx["DMXR2"])','(psr.stoas / 86400 <= dmx["DMXR2"])'),
('dmx-toas','C18',S+'gp_signals.py','which = (dmx["DMXR1"] <= psr.stoas / 86400)','which = (dmx["DMXR1"] <= psr.toas / 86400)'),
('tm-excl','C17',S+'utils.py','''    nmat[:, norm == 0] = 0
''','''    nmat[:, norm < 1e-12] = 0
'''),
('conds-n','C13',S+'utils.py','chs.append(np.tril(ch[0]))','chs.append(ch[0])'),
('tmidx','C13',S+'utils.py','tm_idx = list(self.psr.fitpars).index(tm_par)','tm_idx = sorted(self.psr.fitpars).index(tm_par)'),
('euler','C20',S+'utils.py','    L[:, 1, 2] = -sinx\n    L[:, 2, 1] = sinx\n','    L[:, 1, 2] = sinx\n    L[:, 2, 1] = -sinx\n'),
('epoch-mean','C20',S+'deterministic_signals.py','avetoas = np.array([psr.toas[sc].mean() for sc in self._uinds])','avetoas = np.array([psr.toas[sc][0] for sc in self._uinds])'),
('anis-index','C23',S+'utils.py','psr2_index = [ii for ii in range(len(psrs_pos)) if np.all(psrs_pos[ii] == pos2)][0]','psr2_index = [ii for ii in range(len(psrs_pos)) if np.allclose(psrs_pos[ii], pos2, atol=1e-2)][0]'),
('clm-l','C23',S+'utils.py','    if lmax > 0:\n        clm[1:] = params','    if lmax > 0:\n        clm[1:4] = params[:3]'),
('gm-comp','C21',S+'gp_priors.py','        df = wgts**2\n','        df = np.abs(wgts)\n'),
('nfreq-adapt','C21',S+'gp_priors.py','            alpha_model[2 * int(np.rint(nfreq)) + 1] = alphas_adapt','            alpha_model[2 * int(np.rint(nfreq)) - 1] = alphas_adapt'),
('bn-sq','C26',S+'utils.py','ret = -amp * np.sqrt(1 - e**2)','ret = -amp * (1 - e**2 / 2)'),
('bwm-inclusive','C26',S+'utils.py','',''),
('wrap-sort','C04',S+'white_signals.py','self._keys = sorted(sel.masks.keys())','self._keys = list(sel.masks.keys())'),
('nested-order','C12',S+'parameter.py','pnames = [name, fname, kw]\n                    parfunc','pnames = [name, kw]\n                    parfunc'),
('trunc-edge','C10',S+'parameter.py','mask = np.logical_or(samp > pmax, samp < pmin)\n        while','mask = samp > pmax\n        while'),
('linexp-edge','C10',S+'parameter.py','return ((pmin <= value) & (value <= pmax)) * np.log(10)','return ((pmin <= value) & (value < pmax)) * np.log(10)'),
]
