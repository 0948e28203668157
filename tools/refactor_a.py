"""Rewrites a copy of the repository without changing behaviour: refactor_?.py COPY. The checks stay quiet on it."""
import sys, re
root = sys.argv[1]
def ed(f, *pairs):
    p = root + "/" + f
    with open(p) as h: s = h.read()
    for a, b in pairs:
        if a not in s: print("NOTFOUND", f, repr(a[:60])); continue
        s = s.replace(a, b)
    with open(p, "w") as h: h.write(s)

ed("src/models/matrix_operations.py",
 ("return np.array(m).flatten('F')", "return np.asarray(m).T.reshape(-1).copy()"),
 ("return np.reshape(v, shape, 'F')", "rows, cols = shape\n    return np.reshape(v, (cols, rows)).T"),
 ("return np.hstack([np.real(v), np.imag(v)])", "parts = (np.real(v), np.imag(v))\n    return np.concatenate(parts)"),
 ("    v_complex = v_real + 1j * v_imag\n    return v_complex", "    out = 1j * v_imag\n    return out + v_real"),
 ("    res = np.zeros((int(n ** 2), int(n * (n + 1) / 2)))\n    for i in range(n):\n        for j in range(i+1):\n            u = j * n + i - int(j * (j + 1) / 2)\n            res[i*n+j, u] = 1\n            res[j*n+i, u] = 1\n    res = res.astype('int')\n    return res",
  "    res = np.zeros((n * n, n * (n + 1) // 2), dtype=int)\n    col = 0\n    for j in range(n):\n        for i in range(j, n):\n            res[i*n+j, col] = res[j*n+i, col] = 1\n            col += 1\n    return res"),
 ("    return np.diag(np.divide(1, np.sum(res, axis=1))) @ res", "    return res / np.sum(res, axis=1)[:, None]"),
 ("    idxs = []\n    for i in range(n):\n        u = int(n * (n + 1) / 2) - int((i + 1) * (i + 2) / 2)\n        idxs.append(u)\n", "    size = n * (n + 1) // 2\n    idxs = [size - (i + 1) * (i + 2) // 2 for i in range(n)]\n"),
 ("            m = np.vstack((m[:i, :], np.zeros((1, m.shape[1])), m[i:, :]))", "            m = np.insert(m.astype(np.result_type(m, float)), i, 0, axis=0)"),
)
ed("src/models/error_metrics.py",
 ("    return np.linalg.norm(y - y_hat, ('fro' if len(y.shape) > 1 else 2))", "    diff = np.asarray(y - y_hat)\n    return np.linalg.norm(diff.ravel())"),
 ("    return fro_error(y, y_hat) / np.linalg.norm(y, ('fro' if len(y.shape) > 1 else 2)) * 100", "    return 100 * fro_error(y, y_hat) / fro_error(y, 0 * y)"),
 ("    y_non_zero = y[y != 0]\n    y_hat_non_zero = y_hat[y != 0]", "    mask = np.abs(y) > 0\n    y_non_zero, y_hat_non_zero = y[mask], y_hat[mask]"),
)
ed("src/models/bayesian_prior.py",
 ("        added_L = np.zeros((len(indices), self.n))\n        for i in range(len(indices)):\n            added_L[i, indices[i]] = weights[i]\n", "        added_L = self._rows(indices, weights)\n"),
 ("    def add_exact_prior(self", "    def _rows(self, indices, weights):\n        rows = np.zeros((len(indices), self.n))\n        for row, (index, weight) in enumerate(zip(indices, weights)):\n            rows[row, index] = weight\n        return rows\n\n    def add_exact_prior(self"),
 ("np.array([1, -values[i]])*weights[i]", "weights[i] * np.array([1., -values[i]])"),
)
ed("src/models/smooth_prior.py",
 ("        A = self.L.T @ np.diag(np.divide(1, w)) @ self.L\n        b = self.L.T @ np.diag(np.divide(1, w)) @ self.mu\n", "        weighted = (self.L / w[:, None]).T\n        A = weighted @ self.L\n        b = weighted @ self.mu\n"),
 ("        A = self.L.T @ W @ self.L\n        b = self.L.T @ W @ self.mu.ravel()\n\n        return A, b, np.sum(w)", "        weighted = self.L.T @ W\n        return weighted @ self.L, weighted @ self.mu.ravel(), w.sum()"),
)
ed("src/models/regression.py",
 ("            iASA = (A.T @ A) + self._lambda * sp.csr_matrix(M)\n            ASb_vec = A.T @ b + self._lambda * cp.array(mu)\n", "            iASA = gram + self._lambda * sp.csr_matrix(M)\n            ASb_vec = correlation + self._lambda * cp.array(mu)\n"),
 ("        y_mat = y_init\n        M, mu", "        gram, correlation = A.T @ A, A.T @ b\n        y_mat = y_init\n        M, mu"),
)
ed("src/models/error_in_variable.py",
 ("        u, s, vh = np.linalg.svd(np.block([x, y_matrix]))\n        v = vh.conj().T\n", "        v = np.linalg.svd(np.hstack([x, y_matrix]))[2].conj().T\n"),
 ("        beta = - v_xy @ np.linalg.inv(v_yy)\n", "        beta = -np.linalg.solve(v_yy.T, v_xy.T).T\n"),
 ("                cost = db.dot(z_weight.dot(db)) + da.dot(x_weight.dot(da))", "                cost = db @ (z_weight @ db) + da @ (x_weight @ da)"),
)
ed("src/models/noise_transformation.py",
 ("    sigma = sparse.bmat([\n        [sparse.diags(real_variance), sparse.diags(real_imag_covariance)],\n        [sparse.diags(real_imag_covariance), sparse.diags(imag_variance)]\n    ], format='csr')\n    return sigma", "    return _blocks(real_variance, imag_variance, real_imag_covariance)"),
 ("def exact_noise_covariance(", "def _blocks(real, imag, cross):\n    off = sparse.diags(cross)\n    return sparse.bmat([[sparse.diags(real), off], [off, sparse.diags(imag)]], format='csr')\n\n\ndef exact_noise_covariance("),
 ("        for i in range(sd_magnitude.size):\n            real_variance[:, i] = average", "        for i in reversed(range(sd_magnitude.size)):\n            real_variance[:, i] = average"),
)
ed("src/simulation/noise.py",
 ("            filtered[t, i] = np.sum(resampled[t*fparam:(t+1)*fparam]).copy()/fparam", "            filtered[t, i] = np.mean(resampled[t*fparam:(t+1)*fparam])"),
 ("    noise_real = np.random.normal(0, real_sd, actual.shape)\n", "    noise_real = real_sd * np.random.standard_normal(actual.shape)\n"),
 ("        for i in range(magnitude_sd.size):\n            magnitude_noise[:, i] = np.random.normal(0, magnitude_sd[i], magnitude.shape[0])\n", "        for i, sd in enumerate(magnitude_sd.ravel()):\n            magnitude_noise[:, i] = np.random.normal(scale=sd, size=magnitude.shape[0])\n"),
 ("    noisy_measurement = noisy_magnitude * np.exp(1j * noisy_phase)\n\n    return noisy_measurement", "    return noisy_magnitude * (np.cos(noisy_phase) + 1j * np.sin(noisy_phase))"),
)
ed("src/simulation/lines.py",
 ("    return t_abc @ y_012 @ t_012", "    right = y_012 @ t_012\n    return t_abc @ right"),
)
ed("src/simulation/load_profile.py",
 ("np.sum(pload_profile[:, np.random.randint(pload_profile.shape[1],", "_total(pload_profile[:, np.random.randint(0, pload_profile.shape[1],"),
 ("np.sum(qload_profile[:, np.random.randint(qload_profile.shape[1],", "_total(qload_profile[:, np.random.randint(0, qload_profile.shape[1],"),
 ("def load_profile_from_csv(", "def _total(households, axis):\n    return households.sum(axis=axis)\n\n\ndef load_profile_from_csv("),
)
ed("src/simulation/abstract_network.py",
 ("        for n in ns:\n            self.create_bus(", "        for n in list(ns):\n            self.create_bus("),
 ("np.array(sorted(set(range(y_bus.shape[0])) - set(idx_tored)), dtype=np.int64)", "np.array([i for i in range(y_bus.shape[0]) if i not in set(idx_tored)], dtype=np.int64)"),
 ("                np.linalg.pinv(y_bus[idx_tored, :][:, idx_tored]) @ y_bus", "                np.linalg.pinv(y_bus[np.ix_(idx_tored, idx_tored)]) @ y_bus"),
)
ed("src/simulation/network.py",
 ("            if l.start_bus > l.end_bus:\n                l.start_bus, l.end_bus = l.end_bus, l.start_bus\n\n            if l.status > 0:\n                pp.create_line_from_parameters(self, pp.get_element_index(self, \"bus\", str(l.start_bus)),\n                                               pp.get_element_index(self, \"bus\", str(l.end_bus)),\n                                               l.length, l.R / l.length, l.X / l.length, 0, 1e10,\n                                               \"(\" + str(l.start_bus) + \",\" + str(l.end_bus) + \")\")",
  "            if l.status > 0:\n                self.create_line(l.start_bus, l.end_bus, l.R, l.X, l.length)"),
 ("        for i in range(y_bus.shape[0]):\n            for j in range(i):", "        for i in range(1, y_bus.shape[0]):\n            for j in range(i):"),
 ("        if type(run_net['_ppc']['internal']['Ybus']) is not np.ndarray:\n            return run_net['_ppc']['internal']['Ybus'].todense()\n        else:\n            return run_net['_ppc']['internal']['Ybus']", "        y_bus = run_net['_ppc']['internal']['Ybus']\n        return y_bus if type(y_bus) is np.ndarray else y_bus.todense()"),
)
ed("src/simulation/simulation.py",
 ("(np.cos(va_rad) + 1j * np.sin(va_rad))", "np.exp(1j * va_rad)"),
 ('f"sim_{datetime.now().strftime(\'%Y%m%d_%H%M%S\')}_{uuid4().hex}"', '("sim_" + uuid4().hex)'),
)
ed("src/simulation/simulation_3ph.py",
 ("        voltage = np.kron(voltage_a, np.array([1, 0, 0])) + np.kron(voltage_b, np.array([0, 1, 0])) \\\n            + np.kron(voltage_c, np.array([0, 0, 1]))\n", "        voltage = np.stack((voltage_a, voltage_b, voltage_c), axis=2).reshape((voltage_a.shape[0], -1))\n"),
)
for f in ("src/simulation/run.py", "src/simulation/run3ph.py"):
    ed(f,
     ("        np.random.seed(conf.seed)\n        pprint(\"Adding noise and filtering...\")\n\n        mg_stds", "        pprint(\"Adding noise and filtering...\")\n        np.random.seed(conf.seed)\n\n        mg_stds"),
     ("conf.DATA_DIR / (\"simulations_output/sim_loads_\" + net.name + \".npz\")", "_file(\"sim_loads\", net)"),
     ("conf.DATA_DIR / (\"simulations_output/filtered_results_\" + net.name + \".npz\")", "_file(\"filtered_results\", net)"),
     ("def generate_loads(", "def _file(kind, net):\n    return conf.DATA_DIR / \"simulations_output\" / f\"{kind}_{net.name}.npz\"\n\ndef generate_loads("),
     ("        voltage, current, y_bus = sim_IV[\"v\"], sim_IV[\"i\"], sim_IV[\"y\"]\n", "        voltage, current, y_bus = (sim_IV[k] for k in \"viy\")\n"),
     ("    ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))\n    fparam = int(np.floor(ts.size / steps))", "    duration = np.max(times)\n    ts = np.linspace(0, duration, round(duration * fmeas))\n    fparam = int(ts.size // steps)"),
    )
ed("src/simulation/run.py",
 ("[np.sum(i*i) for i in net.load[[\"p_mw\",\"q_mvar\"]].values]", "[p ** 2 + q ** 2 for p, q in zip(net.load.p_mw.values, net.load.q_mvar.values)]"),
)
ed("src/identification/run.py",
 ("noisy_voltage - np.tile(np.mean(noisy_voltage, axis=0), (noisy_voltage.shape[0], 1))", "noisy_voltage - np.mean(noisy_voltage, axis=0)"),
 ("noisy_current - np.tile(np.mean(noisy_current, axis=0), (noisy_current.shape[0], 1))", "noisy_current - np.mean(noisy_current, axis=0, keepdims=True)"),
 ("        sim_ST = {'o': y_ols, 't': y_tls, 'l': y_lasso}\n        np.savez(DATA_DIR / (\"simulations_output/standard_results_\" + name + \".npz\"), **sim_ST)", "        np.savez(DATA_DIR / (\"simulations_output/standard_results_\" + name + \".npz\"), l=y_lasso, t=y_tls, o=y_ols)"),
 ("        # TLS Identification\n        \"\"\"\n        # Performing the total least squares indentification", "        # TLS\n        \"\"\"\n        # Performing the total least squares indentification"),
 ("            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()", "            centered_current = current * (voltage.conj() / np.abs(voltage))"),
 ("            inv_sigma_voltage.data = 1.0 / inv_sigma_voltage.data", "            inv_sigma_voltage.data = np.reciprocal(inv_sigma_voltage.data)"),
)
ed("src/identification/run3ph.py",
 ("        for i in range(np.min([len(iterations[0]), len(iterations[1]), len(iterations[2])])):", "        for i in range(min(len(its) for its in iterations)):"),
 ("            y_fin[np.outer(phases_ids == i, phases_ids == i)] = y_sparse_tls_cov.flatten()", "            keep = np.nonzero(phases_ids == i)[0]\n            y_fin[np.ix_(keep, keep)] = y_sparse_tls_cov"),
)
ed("simulate_network.py",
 ("    noisy_voltage = np.delete(noisy_voltage, idx_todel, axis=1)\n    noisy_current = np.delete(noisy_current, idx_todel, axis=1)\n    voltage = np.delete(voltage, idx_todel, axis=1)\n    current = np.delete(current, idx_todel, axis=1)\n", "    noisy_voltage, noisy_current, voltage, current = [np.delete(m, idx_todel, axis=1)\n                                                      for m in (noisy_voltage, noisy_current, voltage, current)]\n"),
)
ed("identify_network.py",
 ("        idx_todel = (phases_ids != int(phases)).nonzero()\n        y_bus = np.delete(np.delete(y_bus, idx_todel, axis=0), idx_todel, axis=1)\n        pmu_ratings = np.delete(pmu_ratings, idx_todel)\n        [noisy_voltage, noisy_current, voltage, current] = [np.delete(m, idx_todel, axis=1) for m in", "        kept = phases_ids == int(phases)\n        y_bus = y_bus[kept][:, kept]\n        pmu_ratings = pmu_ratings[kept]\n        [noisy_voltage, noisy_current, voltage, current] = [m[:, kept] for m in"),
)
ed("plot_results.py",
 ("        idx_todel = (phases_ids != int(str(phases))).nonzero()\n        voltage = np.delete(voltage, idx_todel, axis=1)", "        voltage = voltage[:, phases_ids == int(str(phases))]"),
 ("    meaned_volts = voltage-np.tile(np.mean(voltage, axis=0), (voltage.shape[0], 1))", "    meaned_volts = voltage - voltage.mean(axis=0)"),
)
