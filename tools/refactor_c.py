"""Rewrites a copy of the repository without changing behaviour: refactor_?.py COPY. The checks stay quiet on it."""
import sys
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "refactor_a.py")).read().split("ed(\"src/models/matrix_operations.py\"")[0])

QUIET = "    if verbose:\n        def pprint(a):\n            print(a)\n    else:\n        pprint = lambda a: None\n"
# a helper module shared by all stages
with open(root + "/src/stages.py", "w") as h:
    h.write('''import numpy as np


def printer(verbose):
    """Function that prints only if verbose"""
    def pprint(a):
        if verbose:
            print(a)
    return pprint


def save(path, **arrays):
    np.savez(path, **arrays)


def demeaned(m, whole=False):
    return m - m.mean() if whole else m - np.mean(m, axis=0)[None, :]


def nominal(column):
    """Values of a column of a table of the network, by position"""
    return np.array(list(column))
''')
for f in ("src/simulation/run.py", "src/simulation/run3ph.py", "src/identification/run.py", "src/identification/run3ph.py"):
    ed(f, (QUIET, "    pprint = printer(verbose)\n"), ("import numpy as np\n", "import numpy as np\n\nfrom src.stages import printer, save, demeaned, nominal\n"), ("np.savez(", "save("))
for f in ("identify_network.py", "plot_results.py"):
    ed(f, (QUIET, "    pprint = printer(verbose)\n"), ("import click\n", "import click\nfrom src.stages import printer\n"))

import re
def rx(f, *pairs):
    p = root + "/" + f
    with open(p) as h: s = h.read()
    for a, b in pairs:
        s, k = re.subn(a, b, s)
        if not k: print("NOTFOUND", f, a[:60])
    with open(p, "w") as h: h.write(s)

rx("src/simulation/run3ph.py",
   (r"np\.array\(\s*\[net\.(\w+)\.(\w+)\[net\.\1\.\2\.index\[i\]\]\s*for i in range\(len\(net\.\1\.\2\)\)\]\)", r"nominal(net.\1.\2)"),
   (r"            for i in range\(len\(net\.asymmetric_load\.bus\)\):\n                if net\.asymmetric_load\.bus\.values\[i\] in constant_load_nodes:\n(?:.*\n){12}",
    "            columns = ['p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar']\n"
    "            for i, bus in enumerate(net.asymmetric_load.bus.values):\n                if bus not in constant_load_nodes:\n                    continue\n"
    "                for profile, column in zip(load_asym, columns):\n                    profile[:, i] = (1.0 - a) * profile[:, i] + a * net.asymmetric_load[column].iloc[i]\n"),
   (r"    pmu_ratings = np\.tile\(pmu_safety_factor, \(1, len\(net\.bus\.index\)\)\) \* total_loads\n", "    pmu_ratings = pmu_safety_factor * total_loads\n"),
   (r"    pmu_ratings = pmu_ratings\.T\.reshape\(\(3 \* len\(net\.bus\.index\),\)\)\n", "    pmu_ratings = pmu_ratings.flatten(order='F')\n"),
   (r"    total_loads = np\.zeros\(\(3, len\(net\.bus\.index\)\)\)\n(?:.*\n){13}",
    "    total_loads = np.zeros((3, len(net.bus.index)))\n"
    "    position = {bus: i for i, bus in enumerate(net.bus.index)}\n"
    "    for _, load in net.load.iterrows():\n        total_loads[:, position[load.bus]] = load.p_mw ** 2 + load.q_mvar ** 2\n"
    "    for _, load in net.asymmetric_load.iterrows():\n        total_loads[:, position[load.bus]] = [load['p_%s_mw' % ph] ** 2 + load['q_%s_mvar' % ph] ** 2 for ph in 'abc']\n"),
   (r"    y_bus = y_bus - np\.diag\(shunts\)\n    y_bus = np\.delete\(np\.delete\(y_bus, pcc_idx, axis=1\), pcc_idx, axis=0\)\n",
    "    kept = np.setdiff1d(np.arange(y_bus.shape[0]), pcc_idx)\n    y_bus = (y_bus - np.diag(shunts))[np.ix_(kept, kept)]\n"),
)
ed("src/simulation/run.py",
   ("        noisy_voltage, noisy_current = \\\n", "        stacked = np.hstack((voltage, current))\n        noisy_voltage, noisy_current = \\\n"),
   ("filter_and_resample_measurement(np.hstack((voltage, current)),", "filter_and_resample_measurement(stacked,"),
)
for f in ("src/identification/run.py", "src/identification/run3ph.py"):
    ed(f, ("            noisy_voltage = noisy_voltage - np.mean(noisy_voltage)\n", "            noisy_voltage = demeaned(noisy_voltage, True)\n") if f.endswith("/run.py") else
          ("                noisy_voltage = noisy_voltage - np.mean(noisy_voltage)\n", "                noisy_voltage = demeaned(noisy_voltage, whole=True)\n"),
       ("noisy_voltage - np.tile(np.mean(noisy_voltage, axis=0), (noisy_voltage.shape[0], 1))", "demeaned(noisy_voltage)"),
       ("noisy_current - np.tile(np.mean(noisy_current, axis=0), (noisy_current.shape[0], 1))", "demeaned(noisy_current)"))
PARAM = ("    if laplacian:\n        DT = duplication_matrix(nodes) @ transformation_matrix(nodes)\n        E = elimination_lap_matrix(nodes) @ elimination_sym_matrix(nodes)\n"
         "    else:\n        DT = duplication_matrix(nodes)\n        E = elimination_sym_matrix(nodes)\n")
ed("src/identification/run.py",
   (PARAM, "    DT, E = _parametrisation(nodes, laplacian)\n"),
   ("def build_lasso_prior(", "def _duplication(laplacian):\n    if not laplacian:\n        return duplication_matrix\n    return lambda n: duplication_matrix(n) @ transformation_matrix(n)\n\n\n"
    "def _elimination(laplacian):\n    if not laplacian:\n        return elimination_sym_matrix\n    return lambda n: elimination_lap_matrix(n) @ elimination_sym_matrix(n)\n\n\n"
    "def _parametrisation(nodes, laplacian):\n    return _duplication(laplacian)(nodes), _elimination(laplacian)(nodes)\n\n\ndef build_lasso_prior("),
   ("        pprint(\"TLS identification...\")\n        tls = TotalLeastSquares()\n        tls.fit(noisy_voltage, noisy_current)\n        y_tls = tls.fitted_admittance_matrix\n",
    "        pprint(\"TLS identification...\")\n        model = TotalLeastSquares()\n        model.fit(x=noisy_voltage, y=noisy_current)\n        y_tls = model.fitted_admittance_matrix\n"),
   ("        ols = ComplexRegression()\n        ols.fit(noisy_voltage, noisy_current)\n        y_ols = ols.fitted_admittance_matrix\n",
    "        y_ols = _fitted(ComplexRegression(), noisy_voltage, noisy_current)\n"),
   ("def standard_methods(", "def _fitted(model, x, z):\n    model.fit(x, z)\n    return model.fitted_admittance_matrix\n\n\ndef standard_methods("),
)
rx("src/identification/run.py",
   (r"        if laplacian:\n            lasso = BayesianRegression\(prior(?:.*\n){9}",
    "        lasso = BayesianRegression(prior, lambda_value=identification.lambda_lasso, abs_tol=identification.abs_tol,\n"
    "                                   rel_tol=identification.rel_tol, max_iterations=max_iterations, verbose=verbose,\n"
    "                                   dt_matrix_builder=_duplication(laplacian), e_matrix_builder=_elimination(laplacian))\n"),
   (r"    if laplacian:\n        sparse_tls_cov = BayesianEIVRegression\(prior(?:.*\n){8}",
    "    sparse_tls_cov = BayesianEIVRegression(prior, lambda_value=identification.lambda_eiv, abs_tol=identification.abs_tol,\n"
    "                                           rel_tol=identification.rel_tol, max_iterations=max_iterations, verbose=verbose,\n"
    "                                           dt_matrix_builder=_duplication(laplacian), e_matrix_builder=_elimination(laplacian))\n"),
)
ed("src/models/bayesian_prior.py",
   ("        self.L = np.vstack((self.L, added_L))\n", "        self._append(added_L)\n"),
   ("    def add_exact_prior(self", "    def _append(self, rows):\n        self.L = np.vstack((self.L, rows))\n\n    def add_exact_prior(self"),
   ("        weights = 1 if weights is None else weights\n        weights = weights*np.ones_like(standard) if not hasattr(weights, '__iter__') else weights\n        return weights\n",
    "        if weights is None:\n            weights = 1\n        if hasattr(weights, '__iter__'):\n            return weights\n        return weights*np.ones_like(standard)\n"),
)
ed("src/models/smooth_prior.py",
   ("        self.L = self.L.toarray()\n        SmoothPrior.add_exact_prior(self, indices, values, weights, orders)\n        self.L = sparse.csr_matrix(self.L)\n",
    "        self._dense(SmoothPrior.add_exact_prior, indices, values, weights, orders)\n"),
   ("        self.L = self.L.toarray()\n        SmoothPrior.add_ratios_prior(self, indices, values, weights, orders)\n        self.L = sparse.csr_matrix(self.L)\n",
    "        self._dense(SmoothPrior.add_ratios_prior, indices, values, weights, orders)\n"),
   ("class SparseSmoothPrior(SmoothPrior):\n", "class SparseSmoothPrior(SmoothPrior):\n    def _dense(self, add, *args):\n        self.L = self.L.toarray()\n        add(self, *args)\n        self.L = sparse.csr_matrix(self.L)\n\n"),
)
for f in ("src/models/regression.py", "src/models/error_in_variable.py"):
    ed(f, ("        for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):\n",
           "        steps = range(self._max_iterations)\n        it = -1\n        for _ in tqdm(steps) if self._verbose else steps:\n            it += 1\n"),
       ("            y_mat = unvectorize_matrix(DT @ make_complex_vector(y), (n, n))\n", "            y_mat = self._matrix(DT, y, n)\n"),
       ("    def _is_stationary_point(self", "    @staticmethod\n    def _matrix(DT, y, n):\n        return unvectorize_matrix(DT @ make_complex_vector(y), (n, n))\n\n    def _is_stationary_point(self"))
ed("src/models/error_in_variable.py",
   ("                ysy = underline_y.T @ z_weight @ underline_y\n", "                yw = underline_y.T @ z_weight\n                ysy = yw @ underline_y\n"),
   ("                sys_vector = ysy @ a - underline_y.T @ z_weight @ b\n", "                sys_vector = ysy @ a - yw @ b\n"),
   ("                del ysy\n", "                del ysy, yw\n"),
   ("                dA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)\n\n                # Update y equation\n                AmdA = sp.csr_matrix(A - dA)\n",
    "                AmdA = sp.csr_matrix(A - make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT))\n"),
)
ed("src/models/error_metrics.py",
   ("    return ErrorMetrics(\n        fro_error=fro_error(y, y_hat),\n        max_error=max_error(y, y_hat),\n        rrms_error=rrms_error(y, y_hat),\n        map_error=map_error(y, y_hat)\n    )",
    "    metrics = (fro_error, max_error, rrms_error, map_error)\n    return ErrorMetrics(**{m.__name__: m(y, y_hat) for m in metrics})"),
   ("    return np.max(np.abs(y - y_hat)) if y.size > 0 else 0.0", "    return 0.0 if y.size == 0 else np.abs(y_hat - y).max()"),
)
ed("src/models/noise_transformation.py",
   ("            m_var, f_var = sd_magnitude[i] ** 2, sd_phase ** 2\n", "            f_var = sd_phase ** 2\n            m_var = sd_magnitude[i] ** 2\n"),
)
ed("src/simulation/noise.py",
   ("    # Generate magnitude noise, looped for each variable if the standard deviation is an array\n    if np.size(magnitude_sd) == 1:\n        magnitude_noise = np.random.normal(0, magnitude_sd, magnitude.shape)\n    elif magnitude_sd.size == magnitude.shape[1]:\n        magnitude_noise = np.zeros(magnitude.shape)\n        for i in range(magnitude_sd.size):\n            magnitude_noise[:, i] = np.random.normal(0, magnitude_sd[i], magnitude.shape[0])\n    else:\n        magnitude_noise = np.random.normal(0, magnitude_sd[0], magnitude.shape)\n",
    "    magnitude_noise = _draw(magnitude_sd, magnitude.shape)\n"),
   ("    # Generate phase noise\n    if np.size(phase_sd) == 1:\n        phase_noise = np.random.normal(0, phase_sd, phase.shape)\n    elif phase_sd.size == phase.shape[1]:\n        phase_noise = np.zeros(phase.shape)\n        for i in range(phase_sd.size):\n            phase_noise[:, i] = np.random.normal(0, phase_sd[i], phase.shape[0])\n    else:\n        phase_noise = np.random.normal(0, phase_sd[0], phase.shape)\n",
    "    phase_noise = _draw(phase_sd, phase.shape)\n"),
   ("def add_polar_noise_to_measurement(", "def _draw(sd, shape):\n    if np.size(sd) == 1:\n        return np.random.normal(0, sd, shape)\n    if sd.size != shape[1]:\n        return np.random.normal(0, sd[0], shape)\n    return np.stack([np.random.normal(0, s, shape[0]) for s in sd.flat], axis=1)\n\n\ndef add_polar_noise_to_measurement("),
   ("        for t in range(steps):\n            filtered[t, i] = np.sum(resampled[t*fparam:(t+1)*fparam]).copy()/fparam\n", "        t = 0\n        while t < steps:\n            block = resampled[t*fparam:(t+1)*fparam]\n            filtered[t, i] = block.sum() / fparam\n            t += 1\n"),
)
rx("src/simulation/load_profile.py",
   (r"np\.sum\(([pq])load_profile\[:, np\.random\.randint\(\1load_profile\.shape\[1\],\s*size=round\(([\w\[\]]+)\s*/ ([pq]_mean_percentile)\)\)\], axis=1\)",
    r"_households(\1load_profile, \2, \3)"),
   (r"def generate_gaussian_load\(", "def _households(profile, reference, each):\n    chosen = np.random.randint(profile.shape[1], size=round(reference / each))\n    return np.sum(profile[:, chosen], axis=1)\n\n\ndef generate_gaussian_load("),
)
ed("src/simulation/lines.py",
   ("    return measurement @ t_abc\n", "    nodes = measurement.shape[1] // 3\n    return np.hstack([measurement[:, 3*i:3*i+3] @ t_abc[:3, :3] for i in range(nodes)]) if nodes else measurement @ t_abc\n"),
)
rx("src/simulation/simulation.py",
   (r"        load_df = DFData\(pd\.DataFrame\(load_p, columns=self\.load\.index\)\)\n(?:.*\n){5}",
    "        for name, values in (('p_mw', load_p), ('q_mvar', load_q)):\n            source = DFData(pd.DataFrame(values, columns=self.load.index))\n"
    "            ConstControl(controlled_net, element='load', element_index=self.load.index,\n                         variable=name, data_source=source, profile_name=self.load.index)\n"),
)
ed("src/simulation/simulation.py", ("        ow.log_variable(\"res_line\", \"loading_percent\")\n        for v in [\"vm_pu\", \"va_degree\", \"p_mw\", \"q_mvar\"]:\n            ow.log_variable(\"res_bus\", v)\n", "        for v in [\"vm_pu\", \"va_degree\", \"p_mw\", \"q_mvar\"]:\n            ow.log_variable(\"res_bus\", v)\n        ow.log_variable(\"res_line\", \"loading_percent\")\n"))
rx("src/simulation/network_3ph.py",
   (r"        if type\(run_net\['_ppc0'\](?:.*\n){14}", "        y_bus0, y_bus1, y_bus2 = [self._dense(run_net['_ppc%d' % k]['internal']['Ybus']) for k in range(3)]\n"),
   (r"    def make_y_bus\(self\)", "    @staticmethod\n    def _dense(y_bus):\n        return y_bus if type(y_bus) is np.ndarray else y_bus.todense()\n\n    def make_y_bus(self)"),
)
rx("src/simulation/abstract_network.py",
   (r"        for idx in self\.bus\.index:\n            if idx in self\.ext_grid(?:.*\n){22}",
    "        for idx in self.bus.index:\n            if idx in self.ext_grid.bus.values:\n                continue\n            powers = [[], [], []]\n"
    "            loads = self.load[self.load.bus == idx]\n            if len(loads) > 0:\n                for i in range(3):\n                    powers[i] += [loads.p_mw.iloc[0], loads.q_mvar.iloc[0]]\n"
    "            loads = self.asymmetric_load[self.asymmetric_load.bus == idx]\n            if len(loads) > 0:\n                for i, ph in enumerate('abc'):\n"
    "                    powers[i] += [loads['p_%s_mw' % ph].iloc[0], loads['q_%s_mvar' % ph].iloc[0]]\n"
    "            passive = [all(p == 0 for p in ps) for ps in powers]\n\n"),
)
ed("simulate_network.py",
   ("    redo_loads = loads or (not loads and not network_sim and not noise)\n    redo_netsim = network_sim or (not loads and not network_sim and not noise)\n    redo_noise = noise or (not loads and not network_sim and not noise)\n",
    "    everything = not (loads or network_sim or noise)\n    redo_loads, redo_netsim, redo_noise = [everything or stage for stage in (loads, network_sim, noise)]\n"),
   ("    noisy_voltage = np.delete(noisy_voltage, idx_todel, axis=1)\n    noisy_current = np.delete(noisy_current, idx_todel, axis=1)\n    voltage = np.delete(voltage, idx_todel, axis=1)\n    current = np.delete(current, idx_todel, axis=1)\n",
    "    def kept(m):\n        return np.delete(m, idx_todel, axis=1)\n\n    noisy_voltage, noisy_current = kept(noisy_voltage), kept(noisy_current)\n    voltage, current = kept(voltage), kept(current)\n"),
   ("    if redo_netsim:\n        if three_phased:\n            voltage, current, y_bus = run3ph.simulate_net(net, load_p, load_q, load_asym, verbose=verbose)\n        else:\n            voltage, current, y_bus = run.simulate_net(net, load_p, load_q, verbose=verbose)\n    else:\n        if three_phased:\n            voltage, current, y_bus = run3ph.simulate_net(net, None, None, None, verbose=verbose)\n        else:\n            voltage, current, y_bus = run.simulate_net(net, None, None, verbose=verbose)\n",
    "    profiles = (load_p, load_q, load_asym) if three_phased else (load_p, load_q)\n    stages = run3ph if three_phased else run\n    voltage, current, y_bus = stages.simulate_net(net, *(p if redo_netsim else None for p in profiles), verbose=verbose)\n"),
)
ed("identify_network.py",
   ("    redo_standard_methods = standard or (not standard and not bayesian_eiv)\n    redo_STLS = bayesian_eiv or (not standard and not bayesian_eiv)\n",
    "    redo_standard_methods = standard or not bayesian_eiv\n    redo_STLS = bayesian_eiv or not standard\n"),
   ("    voltage_magnitude_sd = simulation.voltage_magnitude_sd/np.sqrt(fparam)\n    current_magnitude_sd = simulation.current_magnitude_sd/np.sqrt(fparam)\n    voltage_phase_sd = simulation.voltage_phase_sd/np.sqrt(fparam)\n    current_phase_sd = simulation.current_phase_sd/np.sqrt(fparam)\n",
    "    filtered = 1/np.sqrt(fparam)\n    voltage_magnitude_sd, voltage_phase_sd = simulation.voltage_magnitude_sd*filtered, simulation.voltage_phase_sd*filtered\n    current_magnitude_sd, current_phase_sd = simulation.current_magnitude_sd*filtered, simulation.current_phase_sd*filtered\n"),
)
rx("plot_results.py",
   (r"        ols_metrics = error_metrics\(y_bus, y_ols\)\n(?:.*\n){10}",
    "        for label, estimate in (('ols', y_ols), ('tls', y_tls)):\n            metrics = error_metrics(y_bus, estimate)\n            print(metrics)\n"
    "            with open(conf.conf.DATA_DIR / (label + '_error_metrics.txt'), 'w') as f:\n                print(metrics, file=f)\n"
    "            plot_heatmap(np.abs(estimate), 'y_' + label, minval=min_plot, maxval=max_plot_y, powernorm=color_scale)\n"),
)
ed("src/identification/utils.py",
   ("    data_file = {'m': m}\n    np.savez(DATA_DIR / (\"simulations_output/plot_data/\" + name + \".npz\"), **data_file)\n", "    _save_data(m, name)\n"),
   ("def plot_heatmap(", "def _save_data(m, name):\n    np.savez(DATA_DIR / \"simulations_output\" / \"plot_data\" / (name + \".npz\"), m=m)\n\n\ndef plot_heatmap("),
)
rx("src/models/matrix_operations.py",
   (r"    res = np\.zeros\(\(int\(n \* \(n \+ 1\) / 2\), int\(n \* \(n - 1\) / 2\)\)\)\n    row = 0\n(?:.*\n){12}",
    "    rows = [(i, j) for i in range(n) for j in range(i, n)]\n    res = np.zeros((len(rows), n * (n - 1) // 2), dtype=int)\n"
    "    for k, (i, j) in enumerate(pair for pair in rows if pair[0] != pair[1]):\n        res[rows.index((i, j)), k] = -1\n        res[rows.index((i, i)), k] = res[rows.index((j, j)), k] = 1\n    return res\n"),
)
