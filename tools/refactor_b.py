"""Rewrites a copy of the repository without changing behaviour: refactor_?.py COPY. The checks stay quiet on it."""
import sys
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "refactor_a.py")).read().split("ed(\"src/models/matrix_operations.py\"")[0])
ed("src/models/regression.py",
 ("        self._admittance_matrix = pinv(x) @ z  #", "        inverse = np.linalg.pinv(x, rcond=max(x.shape) * np.finfo(np.result_type(x, float)).eps)\n        self._admittance_matrix = inverse @ z  #"),
 ("self._iterations", "self._history"), ("self._lambda", "self._penalty_weight"),
 ("            y = sp.linalg.spsolve(iASA, ASb_vec).squeeze()", "            y = sp.linalg.splu(iASA.tocsc()).solve(ASb_vec).squeeze()"),
 ("            target = np.abs(cost + self._penalty_weight * penalty)\n            self._history.append(IterationStatus(it, y_mat.get() if conf.GPU_AVAILABLE else y_mat, target))\n\n            # Check stationarity\n            if it > 0 and self._is_stationary_point(target, self.iterations[it - 1].target_function):\n                break",
  "            target = np.abs(cost + self._penalty_weight * penalty)\n            previous = self._history[-1].target_function if len(self._history) > 0 else None\n            self._history.append(IterationStatus(iteration=it, fitted_parameters=y_mat.get() if conf.GPU_AVAILABLE else y_mat,\n                                                 target_function=target))\n            if previous is not None and self._is_stationary_point(target, previous):\n                break"),
 ("        return (np.abs(f_cur - f_prev) < self._abs_tol or np.abs(f_cur - f_prev) / np.abs(f_prev) < self._rel_tol) \\\n                and f_prev >= f_cur", "        change = np.abs(f_prev - f_cur)\n        if f_cur > f_prev:\n            return False\n        return change < self._abs_tol or change / np.abs(f_prev) < self._rel_tol"),
)
ed("src/models/error_in_variable.py",
 ("self._iterations", "self._history"), ("self._lambda", "self._penalty_weight"),
 ("                real_beta_kron = sp.kron(cp.real(y_mat.T), sp.eye(samples), format='csr')\n                imag_beta_kron = sp.kron(cp.imag(y_mat.T), sp.eye(samples), format='csr')\n                underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],\n                                           [imag_beta_kron, real_beta_kron]], format='csr')\n", "                underline_y = make_real_matrix(sp.kron(y_mat.T, sp.eye(samples), format='csr'))\n"),
 ("                del real_beta_kron\n                del imag_beta_kron\n", ""),
 ("                projor = cp.eye(2*n) - nullsp @ cp.linalg.inv(nullsp.T.conj() @ nullsp) @ nullsp.T.conj()\n", "                projor = cp.eye(2*n) - nullsp @ cp.linalg.solve(nullsp.T.conj() @ nullsp, nullsp.T.conj())\n"),
 ("                e_qp = (cp.hstack((x, z)) @ projor)[:, :n]\n", "                e_qp = x @ projor[:n, :n] + z @ projor[n:, :n]\n"),
 ("        # Create matrices to fill\n        den = cp.empty((2 * n, 2 * n, samples))\n", ""),
 ("cp.array([((ii * samples) + k) for k in range(samples) for ii in range(2*n)])", "cp.arange(2*n*samples).reshape((2*n, samples)).T.ravel()"),
)
ed("src/models/bayesian_prior.py",
 ("        self.mu = np.concatenate((self.mu, np.zeros(len(indices))))\n", "        self.mu = np.append(self.mu, [0.] * len(indices))\n"),
 ("        self.L = np.vstack((self.L, added_L))", "        self.L = np.concatenate((self.L, added_L), axis=0)"),
)
ed("src/models/smooth_prior.py",
 ("(np.abs(self.L @ x.ravel() - self.mu) ** (2 - self.gamma)) + self.alpha", "self._weights(x)"),
 ("    def log_distribution(self, x):\n        w = self._weights(x)\n\n        A = self.L.T @ np.diag", "    def _weights(self, x):\n        residuals = np.abs(self.L @ np.ravel(x) - self.mu)\n        return self.alpha + residuals ** (2 - self.gamma)\n\n    def log_distribution(self, x):\n        w = self._weights(x)\n\n        A = self.L.T @ np.diag"),
)
ed("src/models/noise_transformation.py",
 ("        m, f = np.abs(measurement_vect), np.angle(measurement_vect)\n", "        m = np.abs(measurement_vect)\n        f = np.arctan2(np.imag(measurement_vect), np.real(measurement_vect))\n"),
 ("    m_var, f_var = sd_magnitude ** 2, sd_phase ** 2\n", "    m_var, f_var = np.square(sd_magnitude), np.square(sd_phase)\n"),
)
ed("src/simulation/noise.py",
 ("    magnitude, phase = np.abs(actual_measurement), np.angle(actual_measurement)\n", "    phase = np.angle(actual_measurement)\n    magnitude = np.abs(actual_measurement)\n"),
 ("    noisy_magnitude = magnitude + magnitude_noise*magnitude\n    noisy_phase = phase + phase_noise*phase\n", "    noisy_magnitude = magnitude * (1 + magnitude_noise)\n    noisy_phase = phase * (1 + phase_noise)\n"),
 ("        for t in range(steps):\n            filtered[t, i] = np.sum(resampled[t*fparam:(t+1)*fparam]).copy()/fparam\n", "        filtered[:, i] = np.reshape(resampled[:steps*fparam], (steps, fparam)).mean(axis=1)\n"),
 ("        f = interp1d(oldtimes, actual_measurement[:, i], axis=0)\n        tmp =f(newtimes)\n        resampled = add_noise(tmp)\n", "        resampled = add_noise(interp1d(oldtimes, actual_measurement[:, i], axis=0)(newtimes))\n"),
)
ed("src/simulation/load_profile.py",
 ("np.random.randint(pload_profile.shape[1],", "np.random.choice(pload_profile.shape[1],"),
 ("np.random.randint(qload_profile.shape[1],", "np.random.choice(qload_profile.shape[1],"),
 ("        load_p = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))", "        load_p = np.random.normal(loc=load_p_reference, scale=load_sd * load_p_reference, size=(n_samples, n_load))"),
)
for f in ("src/simulation/run.py", "src/simulation/run3ph.py"):
    ed(f, ("from conf import conf, simulation\n", "from conf import simulation\nfrom conf.conf import DATA_DIR, seed\n"), ("conf.DATA_DIR", "DATA_DIR"), ("conf.seed", "seed"),
      ("        a = simulation.load_constantness\n", "        a = simulation.load_constantness\n        b = 1.0 - a\n"), ("(1.0 - a) *", "b *"),
      ("        sim_PQ = np.load(DATA_DIR / (\"simulations_output/sim_loads_\" + net.name + \".npz\"))\n", "        with np.load(DATA_DIR / (\"simulations_output/sim_loads_\" + net.name + \".npz\")) as f:\n            sim_PQ = dict(f)\n"),
    )
ed("src/simulation/network_3ph.py",
 ("        y_012 = np.kron(y_bus0, np.diag([1, 0, 0])) + np.kron(y_bus1, np.diag([0, 1, 0])) \\\n                + np.kron(y_bus2, np.diag([0, 0, 1]))\n", "        y_012 = np.zeros((3 * y_bus0.shape[0], 3 * y_bus0.shape[0]), dtype=complex)\n        for i, y in enumerate((y_bus0, y_bus1, y_bus2)):\n            y_012[i::3, i::3] = y\n"),
)
ed("src/simulation/simulation_3ph.py",
 ("        if \"run\" not in kwargs.keys():\n            kwargs = {**kwargs, \"run\": pp.runpp_3ph}\n        if \"voltage_depend_loads\" not in kwargs.keys(): # doesn't work\n            kwargs = {**kwargs, \"voltage_depend_loads\": True}\n", "        kwargs = {\"run\": pp.runpp_3ph, \"voltage_depend_loads\": True, **kwargs}\n"),
)
ed("src/identification/run.py",
 ("    if verbose:\n        def pprint(a):\n            print(a)\n    else:\n        pprint = lambda a: None\n", "    pprint = print if verbose else (lambda a: None)\n"),
 ("            y_lasso = (y_ols + y_ols.T).copy() / 2\n\n            pprint(\"Lasso identification...\")\n            lasso.fit(noisy_voltage, noisy_current, y_init=y_lasso)\n", "            pprint(\"Lasso identification...\")\n            lasso.fit(noisy_voltage, noisy_current, y_init=0.5 * (y_ols + y_ols.T))\n"),
 ("            noisy_voltage = noisy_voltage - np.mean(noisy_voltage)\n", "            noisy_voltage -= noisy_voltage.mean()\n"),
 ("        noisy_voltage = voltage.copy()\n", "        noisy_voltage = np.array(voltage)\n"),
)
ed("src/identification/run3ph.py",
 ("from conf.conf import DATA_DIR\n", "from conf import conf\n"), ("DATA_DIR /", "conf.DATA_DIR /"),
)
ed("identify_network.py",
 ("    pprint(\"Loading network simulation...\")\n    sim_STLS = np.load(conf.conf.DATA_DIR / (\"simulations_output/\" + name + \".npz\"))\n    noisy_current, noisy_voltage = sim_STLS['i'], sim_STLS['v']\n    current, voltage, y_bus = sim_STLS['j'], sim_STLS['w'], sim_STLS['y']\n    pmu_ratings, fparam, phases_ids = sim_STLS['p'], sim_STLS['f'], sim_STLS['h']\n",
  "    pprint(\"Loading network simulation...\")\n    noisy_current, noisy_voltage, current, voltage, y_bus, pmu_ratings, fparam, phases_ids = load_simulation(name)\n"),
 ("@click.command", "def load_simulation(name):\n    with np.load(conf.conf.DATA_DIR / (\"simulations_output/\" + name + \".npz\")) as data:\n        return [data[k] for k in 'ivjwypfh']\n\n\n@click.command"),
)
