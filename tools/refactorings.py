"""Behaviour-preserving edits of src/mud, as a maintainer might make them (tools/refactor.py)."""
VARIANTS = {}

VARIANTS["density"] = [
    ("base.py", '''        if domain is not None:
            # Assert domain passed in is consistent with data array
            self.domain = set_shape(np.array(domain), (1, -1))
            assert (
                self.domain.shape[0] == self.n_params
            ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"

        else:
            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
''', '''        if domain is None:
            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
        else:
            dom = np.atleast_2d(np.asarray(domain))
            if dom is domain:
                dom = dom.copy()
            assert (
                dom.shape[0] == self.n_params
            ), f"Size mismatch: domain: {dom.shape}, params: {self.X.shape}"
            self.domain = dom
'''),
    ("base.py", '''            w = np.ones(self.X.shape[0])
''', '''            w = np.full(len(self.X), 1.0)
'''),
    ("base.py", '''            # Reshape to 2D
            w = w.reshape(1, -1) if w.ndim == 1 else w

            # assert appropriate size
            assert self.n_samples == w.shape[1], f"`weights` must size {self.n_samples}"

            # Multiply weights column wise for stacked weights
            w = np.prod(w, axis=0)

            if normalize:
                w = np.divide(w, np.linalg.norm(w))
''', '''            if w.ndim == 1:
                w = w[np.newaxis, :]

            # assert appropriate size
            assert w.shape[1] == self.n_samples, f"`weights` must size {self.n_samples}"

            # Multiply weights column wise for stacked weights
            total = w[0]
            for row in w[1:]:
                total = total * row
            w = total

            if normalize:
                w = w / np.sqrt(np.sum(w**2))
'''),
    ("base.py", '''        self._ob = distribution.pdf(self.y).prod(axis=1)
''', '''        dens = distribution.pdf(self.y)
        self._ob = np.multiply.reduce(dens, axis=1)
'''),
    ("base.py", '''                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()

        self._in = distribution''', '''                ends = np.sort(self.domain, axis=1)
                distribution = dist.uniform(loc=ends[:, 0], scale=np.ptp(ends, axis=1))
            else:
                distribution = dist.norm()

        self._in = distribution'''),
    ("base.py", '''            if np.ndim(pred_pdf_values) > 1:
                # one value per observable: joint density is their product
                pred_pdf_values = np.prod(pred_pdf_values, axis=1)

        self._pr_dist = distribution
        self._pr = pred_pdf_values.ravel()
''', '''            if np.asarray(pred_pdf_values).ndim >= 2:
                # one value per observable: joint density is their product
                pred_pdf_values = np.array([np.prod(row) for row in pred_pdf_values])

        self._pr_dist = distribution
        self._pr = np.reshape(pred_pdf_values, -1)
'''),
    ("base.py", '''        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
''', '''        ratio = self._ob / self._pr
        self._r = ratio

        # Multiply by initial to get updated pdf
        self._up = self._in * self._weights * ratio
'''),
    ("base.py", '''        m = np.argmax(self._up)
        return self.X[m, :]
''', '''        return self.X[self._up.argmax()]
'''),
    ("base.py", '''        return np.average(self._r, weights=self._weights)
''', '''        w = self._weights
        return np.dot(w, self._r) / np.sum(w)
'''),
]

VARIANTS["density2"] = [
    ("base.py", '''        self._weights = w
        self._pr = None
        self._up = None
        self._pr_dist = None
''', '''        self._invalidate(predicted=True)
        self._weights = w

    def _invalidate(self, predicted=False):
        """Forget what depends on a setting that changed"""
        self._up = None
        if predicted:
            self._pr = self._pr_dist = None
'''),
    ("base.py", '''        self._in = distribution.pdf(self.X).prod(axis=1)
        self._in_dist = distribution
        self._up = None
        self._pr = None
        self._pr_dist = None
''', '''        self._in_dist = distribution
        self._in = self._joint(distribution.pdf(self.X))
        self._invalidate(predicted=True)

    @staticmethod
    def _joint(values):
        """Joint density of independent components, one row per sample"""
        return np.exp(0) * np.prod(np.atleast_2d(values), axis=-1)
'''),
    ("base.py", '''        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
''', '''        # Multiply by initial to get updated pdf
        up_pdf = np.einsum("i,i,i->i", self._in, self._weights, self._r)
        self._up = up_pdf
'''),
    ("base.py", '''        if self._up is None:
            self.fit()
        m = np.argmax(self._up)
        return self.X[m, :]
''', '''        if self._up is None:
            self.fit()
        best, top = 0, self._up[0]
        for i in range(1, len(self._up)):
            if self._up[i] > top:
                best, top = i, self._up[i]
        return self.X[best, :]
'''),
]

VARIANTS["bayes"] = [
    ("base.py", '''            self._log = True
            self._ll = distribution.logpdf(self.y).sum(axis=1)
''', '''            self._log = True
            terms = distribution.logpdf(self.y)
            self._ll = np.sum(terms, axis=-1)
'''),
    ("base.py", '''            self._log = False
            self._ll = distribution.pdf(self.y).prod(axis=1)
''', '''            self._log = False
            self._ll = np.prod(distribution.pdf(self.y), axis=1)
'''),
    ("base.py", '''        self._pr_dist = distribution
        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
        self._ps = None
''', '''        prior = np.ones(self.X.shape[0])
        for col in distribution.pdf(self.X).T:
            prior = prior * col
        self._ps = None
        self._pr, self._pr_dist = prior, distribution
'''),
    ("base.py", '''        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)
        assert ps_pdf.shape[0] == self.X.shape[0]

        if np.all(ps_pdf == (-np.inf if self._log else 0)):
            raise ValueError("Posterior numerically unstable.")

        self._ps = ps_pdf
''', '''        ps_pdf = self._ll + np.log(self._pr) if self._log else self._ll * self._pr
        assert len(ps_pdf) == len(self.X)

        empty = -np.inf if self._log else 0
        if not np.any(ps_pdf != empty):
            raise ValueError("Posterior numerically unstable.")

        self._ps = ps_pdf
'''),
    ("base.py", '''        m = np.argmax(self._ps)
        return self.X[m, :]
''', '''        order = np.argsort(-self._ps, kind="stable")
        return self.X[order[0], :]
'''),
    ("base.py", '''        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
''', '''        if not self._log:
            return self._ps
        shifted = self._ps - self._ps.max()
        return np.exp(shifted)
'''),
    ("base.py", '''        grid_points = np.vstack([x.ravel() for x in XXX])
        y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
''', '''        grid_points = np.array([np.ravel(x) for x in XXX])
        lo_y, hi_y = y_range[obs_idx]
        y_plot = np.linspace(lo_y, hi_y, aff)[:-1]
'''),
]

VARIANTS["linear"] = [
    ("base.py", '''        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
''', '''        def ip(X, mat):
            return np.einsum("ij,ij->j", X, np.linalg.solve(mat, X))
'''),
    ("base.py", '''        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
''', '''        pred = self.A.dot(a_cov_i).dot(self.A.T)
        dc_term = ip(self.A @ X.T - self.A @ self.mean_i, pred)
'''),
    ("base.py", '''        # Compute observed mean
        mean_o = _y - _b

        # Compute residual
        z = mean_o - _A @ self.mean_i

        # Weight initial covariance to use according to alpha parameter
        a_cov_i = self.alpha * self.cov_i
''', '''        # Weight initial covariance to use according to alpha parameter
        a_cov_i = np.multiply(self.cov_i, self.alpha)

        # Compute observed mean
        mean_o = np.subtract(_y, _b)

        # Compute residual
        z = _y - (_A @ self.mean_i + _b)
'''),
    ("base.py", '''            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)
            update = a_cov_i @ _A.T @ inv_pred_cov
            self.mud = self.mean_i + update @ z
''', '''            cross = a_cov_i @ _A.T
            self.mud = self.mean_i + cross @ (np.linalg.pinv(_A @ cross) @ z)
'''),
    ("base.py", '''            co_inv = np.linalg.inv(_cov_o)
            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))
            update = cov_p @ _A.T @ co_inv
            self.map = self.mean_i + update @ z
''', '''            scaled = np.linalg.solve(_cov_o, _A)
            precision = scaled.T @ _A + np.linalg.inv(a_cov_i)
            cov_p = np.linalg.inv(precision)
            self.map = self.mean_i + cov_p @ (_A.T @ np.linalg.solve(_cov_o, z))
'''),
    ("base.py", '''        pred_cov = X @ init_cov @ X.T
        inv_pred_cov = np.linalg.pinv(pred_cov)
        # pinv b/c inv unstable for rank-deficient A

        # Form derived via Hua's identity + Woodbury
        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T
''', '''        cross = init_cov @ X.T
        pred_cov = X @ cross
        # pinv b/c inv unstable for rank-deficient A
        K = cross @ np.linalg.pinv(pred_cov)

        # Form derived via Hua's identity + Woodbury
        up_cov = init_cov + K @ (data_cov - pred_cov) @ K.T
'''),
    ("funs.py", '''    K = init_cov @ X.T @ inv_pred_cov
    up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T
''', '''    K = np.linalg.multi_dot([init_cov, X.T, inv_pred_cov])
    up_cov = init_cov - K @ pred_cov @ K.T + K @ data_cov @ K.T
'''),
    ("base.py", '''        if isinstance(sigma, (float, int)):
            sigma = [sigma] * len(data)
        results = [
            self._transform_linear_map(o, d, s)
            for o, d, s in zip(operators, data, sigma)
        ]
        operators = [r[0] for r in results]
        datas = [r[1] for r in results]
        A, B = np.vstack(operators), np.vstack(datas)
''', '''        if isinstance(sigma, (float, int)):
            sigma = [sigma for _ in data]
        rows, offsets = [], []
        for o, d, s in zip(operators, data, sigma):
            row, offset = self._transform_linear_map(o, d, s)
            rows.append(np.reshape(row, (1, -1)))
            offsets.append([offset])
        A, B = np.concatenate(rows, axis=0), np.array(offsets)
'''),
    ("base.py", '''            D = np.diag(1.0 / (std * np.sqrt(num_observations)))
            A = np.sum(D @ operator, axis=0)
''', '''            A = (1.0 / std) @ operator / np.sqrt(num_observations)
'''),
    ("base.py", '''        b = -1.0 / np.sqrt(num_observations) * np.sum(np.divide(data, std))

        return A, b


class IterativeLinearProblem''', '''        b = -sum(d / s for d, s in zip(data, np.broadcast_to(std, (len(data),))))
        b = b / np.sqrt(num_observations)

        return A, b


class IterativeLinearProblem'''),
]

VARIANTS["iter"] = [
    ("base.py", '''        m_init = (
            self.mu_i
            if len(self.solution_chains) == 0
            else self.solution_chains[-1][-1]
        )
        solutions = [m_init]
        for _ in range(0, num_epochs):
            epoch = []
            solutions = [solutions[-1]]
            for i in self.idx_order:
                # Add next sub-problem to chain
                epoch.append(
                    LinearGaussianProblem(
                        self.A[i, :],
                        self.b[i],
                        self.y[i],
                        mean_i=solutions[-1],
                        cov_i=self.cov,
                        cov_o=self.data_cov[i : i + 1, i : i + 1],
                    )
                )

                # Solve next mud problem
                solutions.append(epoch[-1].solve(method=method))

            self.epochs.append(epoch)
            self.solution_chains.append(solutions)

        return self.solution_chains[-1][-1]
''', '''        current = self.solution_chains[-1][-1] if self.solution_chains else self.mu_i
        while num_epochs > 0:
            problems, chain = [], [current]
            for i in self.idx_order:
                problem = self._row_problem(i, current)
                current = problem.solve(method=method)
                problems.append(problem)
                chain.append(current)
            self.epochs.append(problems)
            self.solution_chains.append(chain)
            num_epochs -= 1

        return self.solution_chains[-1][-1]

    def _row_problem(self, i, mean):
        """Sub-problem of row `i`, starting from `mean`"""
        return LinearGaussianProblem(
            A=self.A[[i], :],
            b=self.b[i],
            y=self.y[i],
            mean_i=mean,
            cov_i=self.cov,
            cov_o=np.array([[self.data_cov[i, i]]]),
        )
'''),
    ("base.py", '''        solutions = np.concatenate([x[1:] for x in self.solution_chains])
        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
''', '''        self.errors = []
        for chain in self.solution_chains:
            for s in chain[1:]:
                diff = s - ref_param
                self.errors.append(np.sqrt(np.sum(diff * diff)))
'''),
    ("base.py", '''            current_point = chain[0]

            ax.scatter(current_point[0], current_point[1], c="b", s=s)
            for i in range(0, num_steps):
                next_point = chain[i]
                points = np.hstack([current_point, next_point])
                ax.plot(points[0, :], points[1, :], c=color)
                current_point = next_point
''', '''            current_point = chain[0]

            ax.scatter(current_point[0], current_point[1], c="b", s=s)
            for next_point in chain[:num_steps]:
                points = np.concatenate((current_point, next_point), axis=1)
                ax.plot(points[0], points[1], c=color)
                current_point = next_point
'''),
    ("funs.py", '''    for i in idx:
        _A = A[i, :].reshape(1, -1)
        _b = b[i]
        _y = y[i]
        _mud_sol = mud_sol(_A, _b, _y, _mean, initial_cov, data_cov=None)
        mud_chain.append(_mud_sol)
        _mean = mud_chain[-1]
    return mud_chain
''', '''    for i in idx:
        mud_chain.append(
            mud_sol(A[i : i + 1, :], b[i], y[i], mud_chain[-1], initial_cov)
        )
    return mud_chain
'''),
    ("funs.py", '''    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)
''', '''    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    while num_epochs > 1:
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
        num_epochs -= 1
'''),
]

VARIANTS["spatio"] = [
    ("base.py", '''            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T
''', '''            self.domain = np.column_stack((np.min(lam, axis=0), np.max(lam, axis=0)))
'''),
    ("base.py", '''        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
''', '''        for idx in range(len(lam_ref)):
            low, high = self.domain[idx]
            if not low <= lam_ref[idx] <= high:
                raise ValueError(f"lam_ref at idx {idx} must be inside {[low, high]}.")
'''),
    ("base.py", '''            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
                raise ValueError("Parameter values exist outside of specified domain")
''', '''            below = np.any(self.lam < domain[:, 0])
            above = (self.lam > domain[:, 1]).any()
            if below or above:
                raise ValueError("Parameter values exist outside of specified domain")
'''),
    ("base.py", '''        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
        closest_lam = lam[closest_idx, :].ravel()

        return closest_lam
''', '''        dist2 = np.sum((sub_data - sub_meas) ** 2, axis=1)
        return lam[np.argmin(dist2)].ravel()
'''),
    ("base.py", '''        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))
        closest_lam = self.lam[closest_idx, :].ravel()

        return closest_lam
''', '''        gap = self.data - self.true_vals.reshape(1, -1)
        closest_idx = np.argmin(np.sqrt((gap**2).sum(axis=1)))

        return np.ravel(self.lam[closest_idx])
'''),
    ("base.py", '''        sub_data = np.reshape(self.data, (self.n_samples, self.n_sensors, self.n_ts))
        if self.measurements is not None:
            sub_meas = np.reshape(self.measurements, (self.n_sensors, self.n_ts))
        else:
            sub_meas = None
''', '''        shape = (self.n_sensors, self.n_ts)
        sub_data = self.data.reshape((self.n_samples, *shape))
        sub_meas = None
        if self.measurements is not None:
            sub_meas = self.measurements.reshape(shape)
'''),
    ("base.py", '''            sub_lam = self.lam[samples_mask, :]
            sub_data = sub_data[samples_mask, :, :]
''', '''            sub_lam, sub_data = self.lam[samples_mask], sub_data[samples_mask]
'''),
    ("base.py", '''            sub_data = sub_data[:, :, times_mask]
''', '''            sub_data = sub_data[..., times_mask]
'''),
    ("base.py", '''        residuals = (sub_meas - sub_data) / self.std_dev
''', '''        residuals = np.subtract(sub_meas[np.newaxis, :], sub_data)
        residuals = residuals / self.std_dev
'''),
    ("base.py", '''            data_weights = data_weights / np.linalg.norm(data_weights)
            residuals = data_weights * residuals
''', '''            residuals = residuals * (data_weights / np.sqrt(np.sum(data_weights**2)))
'''),
    ("base.py", '''            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
''', '''            n_data = residuals.shape[1]
            qoi = residuals @ np.ones(n_data) / n_data**0.5
'''),
    ("base.py", '''            qoi = residuals @ pca_res.components_.T
''', '''            qoi = np.dot(residuals, np.transpose(pca_res.components_))
'''),
    ("base.py", '''            qoi = residuals @ (v[0:num_components, :]).T
''', '''            qoi = np.einsum("ij,kj->ik", residuals, v[:num_components])
'''),
    ("base.py", '''        missing = [x for x in req_attrs if self.__getattribute__(x) is None]

        if len(missing) > 0:
''', '''        missing = [x for x in req_attrs if getattr(self, x) is None]

        if missing:
'''),
    ("base.py", '''        for f, v in field_names.items():
            get_set_val(f, v)

        return ds
''', '''        for f in field_names:
            get_set_val(f, field_names[f])

        return ds
'''),
    ("preprocessing.py", '''    sc = StandardScaler()
    pca = PCA(n_components=n_components, **kwargs)
    X_train = pca.fit_transform(sc.fit_transform(data))

    return pca, X_train
''', '''    scaled = StandardScaler().fit(data).transform(data)
    pca = PCA(n_components=n_components, **kwargs)
    pca.fit(scaled)

    return pca, pca.transform(scaled)
'''),
    ("preprocessing.py", '''    sc = StandardScaler()
    X = sc.fit_transform(data)
    U, S, V = np.linalg.svd(X)

    return (U, S, V)
''', '''    return tuple(np.linalg.svd(StandardScaler().fit_transform(data)))
'''),
]

VARIANTS["util"] = [
    ("util.py", '''    D = np.diag(1.0 / (std * np.sqrt(num_observations)))
        A = np.sum(D @ operator, axis=0)
''', '''    scale = 1.0 / (std * np.sqrt(num_observations))
        A = np.sum(operator * scale[:, None], axis=0)
'''),
    ("util.py", '''    b = -1.0 / np.sqrt(num_observations) * np.sum(np.divide(data, std))
    return A, b
''', '''    total = np.sum(np.divide(data, std))
    b = -total / np.sqrt(num_observations)
    return A, b
'''),
    ("util.py", '''    tol = np.amax(s) * rcond
    num = np.sum(s > tol, dtype=int)
    Q = vh[num:, :].T.conj()
    return Q
''', '''    rank = np.count_nonzero(s > s.max() * rcond)
    return vh[rank:, :].conj().T
'''),
    ("util.py", '''    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
''', '''    X, Y = np.meshgrid(X, Y)
    XX = np.stack((X.flatten(), Y.flatten()), axis=-1)
    return X, Y, XX
'''),
    ("util.py", '''    noise = np.random.randn(signal.size).reshape(signal.shape) * sd
    return signal + noise
''', '''    noise = sd * np.random.randn(*signal.shape)
    return np.add(signal, noise)
'''),
    ("util.py", '''    for i in range(len(s)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates))

    return A_ranks
''', '''    total = np.zeros(A.shape)
    for i, sv in enumerate(s):
        rank_1_updates.append(sv * np.outer(u[:, i], vh[i]))
        total = total + rank_1_updates[-1]
        A_ranks.append(total)

    return A_ranks
'''),
    ("util.py", '''        bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
        pad = pad_ratio * (bounds[:, 1] - bounds[:, 0])
        if np.any(pad != np.round(pad)):
            # integer samples still get the full padding
            bounds = bounds.astype(float)
''', '''        bounds = np.column_stack([np.amin(x, axis=0), np.amax(x, axis=0)])
        pad = np.ptp(bounds, axis=1) * pad_ratio
        if not np.all(pad == np.round(pad)):
            # integer samples still get the full padding
            bounds = np.asarray(bounds, dtype=float)
'''),
    ("util.py", '''    bounds[:, 0] = bounds[:, 0] - pad
    bounds[:, 1] = bounds[:, 1] + pad
    return bounds
''', '''    bounds[:, 0] -= pad.astype(bounds.dtype)
    bounds[:, 1] += pad.astype(bounds.dtype)
    return bounds
''') if False else ("util.py", '''    bounds[:, 0] = bounds[:, 0] - pad
    bounds[:, 1] = bounds[:, 1] + pad
    return bounds
''', '''    low, high = bounds[:, 0] - pad, bounds[:, 1] + pad
    bounds[:, 0], bounds[:, 1] = low, high
    return bounds
'''),
    ("util.py", '''    standard_deviation = tolerance / (erfinv(probability) * np.sqrt(2))
    return standard_deviation
''', '''    quantile = erfinv(probability) * np.sqrt(2)
    return tolerance / quantile
'''),
    ("util.py", '''    operators = [r[0] for r in results]
    datas = [r[1] for r in results]

    return np.vstack(operators), np.vstack(datas)
''', '''    operators, datas = zip(*results)

    return np.vstack(operators), np.vstack(datas)
'''),
    ("norm.py", '''    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
''', '''    Y = np.linalg.solve(mat, X)
    return np.einsum("ij,ij->j", X, Y)
'''),
    ("norm.py", '''    X = operator @ (inputs - initial_mean.T).T
    return inner_product(X, predicted_cov)
''', '''    shift = operator @ np.reshape(initial_mean, (-1, 1))
    return inner_product(operator @ inputs.T - shift, predicted_cov)
'''),
    ("norm.py", '''    return (
        norm_input(inputs, initial_mean, initial_cov)
        + norm_data(operator, inputs, data, observed_mean, observed_cov)
        - norm_predicted(operator, inputs, initial_mean, initial_cov)
    )
''', '''    total = norm_data(operator, inputs, data, observed_mean, observed_cov)
    total = total + norm_input(inputs, initial_mean, initial_cov)
    return total - norm_predicted(operator, inputs, initial_mean, initial_cov)
'''),
]

VARIANTS["funs"] = [
    ("funs.py", '''    N = predictions.shape[1]
    if N != len(data):
        raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")
    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - data), axis=1)
''', '''    N = predictions.shape[1]
    if N != data.size:
        raise ValueError(f"Predictions and data dim mismatch {N} != {data.size}")
    residuals = predictions - data
    return residuals.sum(axis=1) / sd / np.sqrt(N)
'''),
    ("funs.py", '''    mud_pt = lp.solve(method="mud")
    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()
    return mud_pt
''', '''    mud_pt = lp.solve(method="mud")
    if np.ndim(y) <= 1:
        mud_pt = mud_pt.flatten()
    return mud_pt
'''),
    ("funs.py", '''    sp_prob = SpatioTemporalProblem()
    sp_prob.load({k: v for k, v in data.items() if v is not None})
    D = sp_prob.mud_problem(method=method)
''', '''    given = {}
    for k, v in data.items():
        if v is not None:
            given[k] = v
    sp_prob = SpatioTemporalProblem(given)
    D = sp_prob.mud_problem(method=method)
'''),
    ("funs.py", '''    data = qoi_true[0:num_obs] + np.random.randn(num_obs) * sd
    likelihood = dists.norm(loc=data, scale=sd)
    b = BayesProblem(lam, qoi[:, 0:num_obs], domain)
    b.set_likelihood(likelihood, log=log)
    return b
''', '''    noise = np.random.randn(num_obs) * sd
    b = BayesProblem(lam, qoi[:, :num_obs], domain)
    b.set_likelihood(dists.norm(loc=qoi_true[:num_obs] + noise, scale=sd), log=log)
    return b
'''),
    ("funs.py", '''            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
''', '''            _q = [k for k in qoi_indices if k < num_obs]
            _data = np.asarray(qoi_true)[_q] + noise[_q]
            q.append(wme(qoi[:, _q], _data, sd))
        q = np.column_stack(q)
'''),
    ("funs.py", '''    if lam.ndim == 1:
        lam = lam.reshape(-1, 1)
    if qoi.ndim == 1:
        qoi = qoi.reshape(-1, 1)
''', '''    lam, qoi = (a[:, None] if a.ndim == 1 else a for a in (lam, qoi))
'''),
    ("funs.py", '''    lam = lam.reshape(-1, 1) if lam.ndim == 1 else lam
    qoi = qoi.reshape(-1, 1) if qoi.ndim == 1 else qoi
''', '''    if lam.ndim < 2:
        lam = np.expand_dims(lam, 1)
    if qoi.ndim < 2:
        qoi = np.expand_dims(qoi, 1)
'''),
]

VARIANTS["plot"] = [
    ("plot.py", '''    # Scale distribution
    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))
    plot_y = plot_y / total
''', '''    # Scale distribution
    step = abs(plot_x[1] - plot_x[0])
    plot_y = plot_y / (plot_y.sum() * step)
'''),
    ("plot.py", '''        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
            idx
        ].reshape(-1)
''', '''        joint = np.prod(dist.pdf(grid.T), axis=1).reshape(mesh[0].shape)
        others = tuple(k for k in range(joint.ndim) if k != idx)
        plot_y = joint.sum(axis=others)
'''),
    ("plot.py", '''        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
''', '''        density = np.reshape(dist(grid), mesh[idx].shape)
        plot_y = np.ravel(margins(density)[idx])
'''),
    ("plot.py", '''    mesh = np.meshgrid(
        *[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij"
    )
    grid_points = np.vstack([x.ravel() for x in mesh])
    return (mesh, grid_points)
''', '''    axes = []
    for low, high in domain:
        axes.append(np.linspace(low, high, aff)[:-1])
    mesh = np.meshgrid(*axes, indexing="ij")
    return mesh, np.array([x.flatten() for x in mesh])
'''),
    ("plot.py", '''    ylims = list(ax.get_ylim())
    ylims[1] = ylim if ylim is not None else ylims[1]
    ax.plot([x_loc, x_loc], [ylims[0], ylims[1]], **kwargs)
    ax.set_ylim(ylims)
''', '''    bottom, top = ax.get_ylim()
    if ylim is not None:
        top = ylim
    ax.plot([x_loc] * 2, [bottom, top], **kwargs)
    ax.set_ylim([bottom, top])
'''),
    ("plot.py", '''    AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
    for i, contour in enumerate(subset):
        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
''', '''    rows = (A[i : i + 1] for i in range(numQoI))
    AA = np.concatenate([null_space(row) for row in rows], axis=1).T
    for i, contour in enumerate(subset):
        dx, dy = w * AA[i]
        xloc = [ref_param[0] - dx, ref_param[0] + dx]
        yloc = [ref_param[1] - dy, ref_param[1] + dy]
'''),
    ("base.py", '''            self.estimate()  # the update for the current settings
            up_kde = gkde(self.X.T, weights=self._r * self._weights)
            plot_dist(
                up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
            )
''', '''            if self._up is None:
                self.fit()
            weights = np.multiply(self._weights, self._r)
            up_kde = gkde(dataset=self.X.T, weights=weights)
            plot_dist(
                up_kde, x_range, ax=ax, idx=param_idx, source="kde", aff=aff, **uo
            )
'''),
]

VARIANTS["imports"] = [
    ("base.py", '''from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_shape
''', '''from mud import util
from mud.util import add_noise, make_2d_unit_mesh, set_shape
'''),
    ("base.py", '''            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
''', '''            self.domain = util.fit_domain(self.X, pad_ratio=pad_domain)
'''),
    ("base.py", '''        else:
            self.domain = fit_domain(self.X)

''', '''        else:
            self.domain = util.fit_domain(self.X)

'''),
    ("base.py", '''            x_range = fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)
''', '''            x_range = util.fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)
'''),
    ("base.py", '''        y_range = fit_domain(self.y) if''', '''        y_range = util.fit_domain(self.y) if'''),
    ("base.py", '''np.hstack([null_space(''', '''np.hstack([util.null_space('''),
    ("base.py", '''from scipy.stats import distributions as dist  # type: ignore
from scipy.stats import gaussian_kde as gkde  # type: ignore
''', '''import scipy.stats as dist  # type: ignore
from scipy.stats import gaussian_kde as gkde  # type: ignore
'''),
    ("funs.py", '''from scipy.stats import distributions as dists  # type: ignore
''', '''from scipy import stats as dists  # type: ignore
'''),
    ("util.py", '''from scipy.special import erfinv  # type: ignore
''', '''from scipy import special  # type: ignore
'''),
    ("util.py", '''(erfinv(probability)''', '''(special.erfinv(probability)'''),
    ("preprocessing.py", '''from sklearn.decomposition import PCA  # type: ignore
from sklearn.preprocessing import StandardScaler  # type: ignore
''', '''from sklearn import preprocessing as skp  # type: ignore
from sklearn.decomposition import PCA  # type: ignore
'''),
    ("preprocessing.py", '''    sc = StandardScaler()
    pca =''', '''    sc = skp.StandardScaler()
    pca ='''),
    ("preprocessing.py", '''    sc = StandardScaler()
    X =''', '''    sc = skp.StandardScaler()
    X ='''),
    ("norm.py", '''    Y = np.linalg.inv(mat) @ X
''', '''    from scipy import linalg

    Y = linalg.inv(mat) @ X
'''),
]
