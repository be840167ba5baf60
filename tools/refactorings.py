"""Behaviour-preserving edits of the code under contract: no check may raise an alarm on them.

(file under src/flowMC, [(old, new), ...]) by name; run with tools/refactor.py."""
K = 'resource/kernel/'
R = {}


def r(name, file, *edits):
    R[name] = (file, list(edits))


# ------------------------------------------------------------------ random walk
r('grw-helper', K + 'Gaussian_random_walk.py',
  ('''    def kernel(
        self,''', '''    def _propose(self, key, position):
        noise = jax.random.normal(key, shape=position.shape)
        return position + noise * self.step_size

    def kernel(
        self,'''),
  ('''        move_proposal: Float[Array, " n_dim"] = (
            jax.random.normal(key1, shape=position.shape) * self.step_size
        )

        proposal = position + move_proposal
''', '''        proposal = self._propose(key1, position)
'''))
r('grw-reorder', K + 'Gaussian_random_walk.py',
  ('''        log_uniform = jnp.log(jax.random.uniform(key2))
        do_accept = log_uniform < proposal_log_prob - log_prob

        position = jnp.where(do_accept, proposal, position)
        log_prob = jnp.where(do_accept, proposal_log_prob, log_prob)
        return position, log_prob, do_accept''', '''        ratio = proposal_log_prob - log_prob
        do_accept = ratio > jnp.log(jax.random.uniform(key2))

        new_log_prob = jax.lax.select(do_accept, proposal_log_prob, log_prob)
        new_position = jnp.where(do_accept, proposal, position)
        return new_position, new_log_prob, do_accept'''))
r('grw-keys', K + 'Gaussian_random_walk.py',
  ('key1, key2 = jax.random.split(rng_key)', 'keys = jax.random.split(rng_key, 2)\n        key1 = keys[0]\n        key2 = keys[1]'),
  ('jax.random.normal(key1, shape=position.shape) * self.step_size', 'self.step_size * jax.random.normal(key1, position.shape)'))
r('grw-cond', K + 'Gaussian_random_walk.py',
  ('''        position = jnp.where(do_accept, proposal, position)
        log_prob = jnp.where(do_accept, proposal_log_prob, log_prob)
        return position, log_prob, do_accept''', '''        position, log_prob = jax.tree_util.tree_map(
            lambda new, old: jnp.where(do_accept, new, old),
            (proposal, proposal_log_prob),
            (position, log_prob),
        )
        return position, log_prob, do_accept'''))
# ------------------------------------------------------------------ MALA
_body = '''        def body(
            carry: tuple[Float[Array, " n_dim"], float, dict],
            this_key: PRNGKeyArray,
        ) -> tuple[
            tuple[Float[Array, " n_dim"], float, dict],
            tuple[Float[Array, " n_dim"], Float[Array, "1"], Float[Array, " n_dim"]],
        ]:
            print("Compiling MALA body")
            this_position, dt, data = carry
            dt2 = dt * dt
            this_log_prob, this_d_log = jax.value_and_grad(logpdf)(this_position, data)
            proposal = this_position + jnp.dot(dt2, this_d_log) / 2
            proposal += jnp.dot(
                dt, jax.random.normal(this_key, shape=this_position.shape)
            )
            return (proposal, dt, data), (proposal, this_log_prob, this_d_log)

'''
_rest = '''        _, (proposal, logprob, d_logprob) = jax.lax.scan(
            body, (position, dt, data), jnp.array([key1, key1])
        )

        ratio = logprob[1] - logprob[0]
        ratio -= multivariate_normal.logpdf(
            proposal[0], position + jnp.dot(dt2, d_logprob[0]) / 2, dt2
        )
        ratio += multivariate_normal.logpdf(
            position, proposal[0] + jnp.dot(dt2, d_logprob[1]) / 2, dt2
        )
'''
_end = '''        position = jnp.where(do_accept, proposal[0], position)
        log_prob = jnp.where(do_accept, logprob[1], logprob[0])
'''
r('mala-direct', K + 'MALA.py', (_body, ''), (_rest, '''        value_and_grad = jax.value_and_grad(logpdf)
        logprob_0, grad_0 = value_and_grad(position, data)
        mean_0 = position + 0.5 * dt2 * grad_0
        proposal = mean_0 + dt * jax.random.normal(key1, shape=position.shape)
        logprob_1, grad_1 = value_and_grad(proposal, data)
        mean_1 = proposal + 0.5 * dt2 * grad_1

        forward = multivariate_normal.logpdf(proposal, mean_0, dt2)
        backward = multivariate_normal.logpdf(position, mean_1, dt2)
        ratio = logprob_1 - logprob_0 + backward - forward
'''), (_end, '''        position = jnp.where(do_accept, proposal, position)
        log_prob = jnp.where(do_accept, logprob_1, logprob_0)
'''))
r('mala-drift-helper', K + 'MALA.py',
  ('''            proposal = this_position + jnp.dot(dt2, this_d_log) / 2
            proposal += jnp.dot(
                dt, jax.random.normal(this_key, shape=this_position.shape)
            )
''', '''            noise = jax.random.normal(this_key, shape=this_position.shape)
            proposal = drift(this_position, this_d_log, dt2) + dt * noise
'''),
  ('        def body(\n', '        def drift(x, gradient, dt2):\n            return x + dt2 * gradient / 2\n\n        def body(\n'),
  ('position + jnp.dot(dt2, d_logprob[0]) / 2, dt2', 'drift(position, d_logprob[0], dt2), dt2'),
  ('proposal[0] + jnp.dot(dt2, d_logprob[1]) / 2, dt2', 'drift(proposal[0], d_logprob[1], dt2), dt2'))
r('mala-explicit-density', K + 'MALA.py',
  (_rest[_rest.index('        ratio ='):], '''        forward_residual = proposal[0] - position - 0.5 * dt2 * d_logprob[0]
        backward_residual = position - proposal[0] - 0.5 * dt2 * d_logprob[1]
        ratio = (
            logprob[1]
            - logprob[0]
            + 0.5 * jnp.sum(forward_residual**2) / dt2
            - 0.5 * jnp.sum(backward_residual**2) / dt2
        )
'''))
r('mala-forloop', K + 'MALA.py', (_rest[:_rest.index('        ratio =')], '''        carry = (position, dt, data)
        outputs = []
        for this_key in (key1, key1):
            carry, output = body(carry, this_key)
            outputs.append(output)
        proposal, logprob, d_logprob = (jnp.stack(x) for x in zip(*outputs))

'''))
# ------------------------------------------------------------------ HMC
r('hmc-fori', K + 'HMC.py', ('''        (position, momentum, data, metric, index), _ = jax.lax.scan(
            leapfrog_kernel,
            (position, momentum, data, metric, 0),
            jnp.arange(self.n_leapfrog + 2),
        )
''', '''        def one(i, carry):
            carry, _ = leapfrog_kernel(carry, i)
            return carry

        position, momentum, data, metric, _ = jax.lax.fori_loop(
            0, self.n_leapfrog + 2, one, (position, momentum, data, metric, 0)
        )
'''))
r('hmc-names', K + 'HMC.py', ('''        position = position + self.step_size * self.leapfrog_coefs[index][0] * jax.grad(
            kinetic
        )(momentum, metric)
        momentum = momentum - self.step_size * self.leapfrog_coefs[index][1] * jax.grad(
            potential
        )(position, data)
        index = index + 1
        return (position, momentum, data, metric, index), extras''', '''        coef_x, coef_p = self.leapfrog_coefs[index]
        velocity = jax.grad(kinetic)(momentum, metric)
        new_position = position + velocity * (self.step_size * coef_x)
        force = -jax.grad(potential)(new_position, data)
        new_momentum = momentum + force * (self.step_size * coef_p)
        return (new_position, new_momentum, data, metric, index + 1), extras'''))
r('hmc-kinetic-method', K + 'HMC.py', ('''        def kinetic(
            p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
        ) -> Float[Array, "1"]:
            return 0.5 * jnp.dot(p, jnp.dot(metric, p))

        leapfrog_kernel = jax.tree_util.Partial(
            self.leapfrog_kernel, kinetic, potential
        )
''', '''        kinetic = self._kinetic
        leapfrog_kernel = jax.tree_util.Partial(
            self.leapfrog_kernel, kinetic, potential
        )
'''), ('    def leapfrog_kernel(self,', '    @staticmethod\n    def _kinetic(p, metric):\n        return jnp.sum(p * (metric @ p)) / 2\n\n    def leapfrog_kernel(self,'))
r('hmc-accept', K + 'HMC.py', ('''        H = -log_prob + kinetic(momentum, metric)
''', ''), ('''        log_acc = H - proposed_ham
        log_uniform = jnp.log(jax.random.uniform(key2))

        do_accept = log_uniform < log_acc
''', '''        initial_ham = kinetic(momentum, metric) - log_prob
        do_accept = jnp.log(jax.random.uniform(key2)) < initial_ham - proposed_ham
'''))
r('hmc-coefs', K + 'HMC.py', ('''        coefs = jnp.ones((n_leapfrog + 2, 2))
        coefs = coefs.at[0].set(jnp.array([0, 0.5]))
        coefs = coefs.at[-1].set(jnp.array([1, 0.5]))
        self.leapfrog_coefs = coefs''', '''        middle = jnp.ones((n_leapfrog, 2))
        first = jnp.array([[0.0, 0.5]])
        last = jnp.array([[1.0, 0.5]])
        self.leapfrog_coefs = jnp.concatenate([first, middle, last], axis=0)'''))
r('hmc-momentum', K + 'HMC.py', ('''        momentum: Float[Array, " n_dim"] = jnp.dot(
            jax.random.normal(key1, shape=position.shape),
            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
        )''', '''        root = jnp.linalg.cholesky(jnp.linalg.inv(metric))
        momentum = root @ jax.random.normal(key1, shape=position.shape)'''))
r('hmc-momentum-solve', K + 'HMC.py', ('''        momentum: Float[Array, " n_dim"] = jnp.dot(
            jax.random.normal(key1, shape=position.shape),
            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
        )''', '''        chol = jnp.linalg.cholesky(metric)
        momentum = jnp.linalg.solve(chol.T, jax.random.normal(key1, shape=position.shape))'''))
# ------------------------------------------------------------------ NF proposal
r('nf-ratio', K + 'NF_proposal.py', ('''            ratio = (log_prob_proposal - log_prob_initial) - (
                log_prob_nf_proposal - log_prob_nf_initial
            )
            uniform_random = jnp.log(jax.random.uniform(subkey))
            do_accept = uniform_random < ratio
            position_current = jnp.where(do_accept, position_proposal, position_initial)
            log_prob_current = jnp.where(do_accept, log_prob_proposal, log_prob_initial)
            log_prob_nf_current = jnp.where(
                do_accept, log_prob_nf_proposal, log_prob_nf_initial
            )
''', '''            weight_proposal = log_prob_proposal - log_prob_nf_proposal
            weight_initial = log_prob_initial - log_prob_nf_initial
            log_uniform = jnp.log(jax.random.uniform(subkey))
            do_accept = log_uniform < weight_proposal - weight_initial

            def choose(new, old):
                return jnp.where(do_accept, new, old)

            position_current = choose(position_proposal, position_initial)
            log_prob_current = choose(log_prob_proposal, log_prob_initial)
            log_prob_nf_current = choose(log_prob_nf_proposal, log_prob_nf_initial)
'''))
r('nf-target-helper', K + 'NF_proposal.py', ('''        if n_steps > self.n_batch_size:
            n_batch = ceil(proposed_position.shape[0] / self.n_batch_size)
            batched_proposed_position = proposed_position[
                : (n_batch - 1) * self.n_batch_size
            ].reshape(n_batch - 1, self.n_batch_size, self.model.n_features)

            def scan_sample(
                carry,
                aux,
            ):
                proposed_position = aux
                return carry, jax.vmap(logpdf, in_axes=(0, None))(
                    proposed_position, data
                )

            _, log_prob_proposed = jax.lax.scan(
                scan_sample,
                (),
                batched_proposed_position,
            )
            log_prob_proposed = log_prob_proposed.reshape(-1)
            log_prob_proposed = jnp.concatenate(
                (
                    log_prob_proposed,
                    jax.vmap(logpdf, in_axes=(0, None))(
                        jax.lax.dynamic_slice_in_dim(
                            proposed_position,
                            (n_batch - 1) * self.n_batch_size,
                            n_steps - (n_batch - 1) * self.n_batch_size,
                        ),
                        data,
                    ),
                ),
                axis=0,
            )

        else:
            log_prob_proposed = jax.vmap(logpdf, in_axes=(0, None))(
                proposed_position, data
            )
''', '''        target = jax.vmap(logpdf, in_axes=(0, None))
        if n_steps > self.n_batch_size:
            n_full = (ceil(n_steps / self.n_batch_size) - 1) * self.n_batch_size
            full = proposed_position[:n_full].reshape(
                -1, self.n_batch_size, self.model.n_features
            )
            log_prob_full = jax.lax.map(lambda batch: target(batch, data), full)
            log_prob_last = target(proposed_position[n_full:], data)
            log_prob_proposed = jnp.concatenate(
                [log_prob_full.reshape(-1), log_prob_last]
            )
        else:
            log_prob_proposed = target(proposed_position, data)
'''))
r('nf-sample-keys', K + 'NF_proposal.py', ('''            rng_key = rng_key
            n_batch = ceil(n_steps / self.n_batch_size)
            n_sample = ceil(n_steps / n_batch)
''', '''            n_batch = -(-n_steps // self.n_batch_size)
            n_sample = -(-n_steps // n_batch)
'''), ('''            proposal_position = proposal_position.reshape(-1, self.model.n_features)[
                :n_steps
            ]
            proposed_log_prob = proposed_log_prob.reshape(-1)[:n_steps]
''', '''            flat_position = proposal_position.reshape(
                n_batch * n_sample, self.model.n_features
            )
            flat_log_prob = proposed_log_prob.reshape(n_batch * n_sample)
            proposal_position = flat_position[:n_steps]
            proposed_log_prob = flat_log_prob[:n_steps]
'''))
# ------------------------------------------------------------------ steps
TS = 'strategy/take_steps.py'
_b = '''            positions_list = []
            log_probs_list = []
            do_accepts_list = []
            for i in range(0, n_chains, self.chain_batch_size):
                batch_slice = slice(i, min(i + self.chain_batch_size, n_chains))
                subkey_batch = subkey[batch_slice]
                initial_position_batch = initial_position[batch_slice]
                positions_batch, log_probs_batch, do_accepts_batch = eqx.filter_jit(
                    eqx.filter_vmap(
                        jax.tree_util.Partial(self.sample, kernel),
                        in_axes=(0, 0, None, None),
                    )
                )(subkey_batch, initial_position_batch, logpdf, data)
                positions_list.append(positions_batch)
                log_probs_list.append(log_probs_batch)
                do_accepts_list.append(do_accepts_batch)
            positions = jnp.concatenate(positions_list, axis=0)
            log_probs = jnp.concatenate(log_probs_list, axis=0)
            do_accepts = jnp.concatenate(do_accepts_list, axis=0)
        else:
            positions, log_probs, do_accepts = eqx.filter_jit(
                eqx.filter_vmap(
                    jax.tree_util.Partial(self.sample, kernel),
                    in_axes=(0, 0, None, None),
                )
            )(subkey, initial_position, logpdf, data)
'''
r('steps-vmap-helper', TS, (_b, '''            batches = []
            for start in range(0, n_chains, self.chain_batch_size):
                stop = start + self.chain_batch_size
                batches.append(
                    run(subkey[start:stop], initial_position[start:stop], logpdf, data)
                )
            positions = jnp.concatenate([b[0] for b in batches])
            log_probs = jnp.concatenate([b[1] for b in batches])
            do_accepts = jnp.concatenate([b[2] for b in batches])
        else:
            positions, log_probs, do_accepts = run(
                subkey, initial_position, logpdf, data
            )
'''), ('''        n_chains = initial_position.shape[0]
        if self.chain''', '''        n_chains = initial_position.shape[0]
        run = eqx.filter_jit(
            eqx.filter_vmap(
                jax.tree_util.Partial(self.sample, kernel),
                in_axes=(0, 0, None, None),
            )
        )
        if self.chain'''))
r('steps-while', TS, ('''            for i in range(0, n_chains, self.chain_batch_size):
                batch_slice = slice(i, min(i + self.chain_batch_size, n_chains))
''', '''            n_batches = -(-n_chains // self.chain_batch_size)
            for j in range(n_batches):
                i = j * self.chain_batch_size
                batch_slice = slice(i, min(i + self.chain_batch_size, n_chains))
'''))
r('steps-buffers', TS, ('''        positions = positions[:, :: self.thinning]
        log_probs = log_probs[:, :: self.thinning]
        do_accepts = do_accepts[:, :: self.thinning].astype(
            acceptance_buffer.data.dtype
        )

        position_buffer.update_buffer(positions, self.current_position)
        log_prob_buffer.update_buffer(log_probs, self.current_position)
        acceptance_buffer.update_buffer(do_accepts, self.current_position)
        self.current_position += positions.shape[1]
''', '''        recorded = slice(None, None, self.thinning)
        positions, log_probs, do_accepts = (
            x[:, recorded] for x in (positions, log_probs, do_accepts)
        )
        start = self.current_position
        acceptance_buffer.update_buffer(
            do_accepts.astype(acceptance_buffer.data.dtype), start
        )
        log_prob_buffer.update_buffer(log_probs, start)
        position_buffer.update_buffer(positions, start)
        self.set_current_position(start + positions.shape[1])
'''))
r('steps-resolve-helper', TS, ('''        assert isinstance(
            position_buffer_name := state_resource.data[self.buffer_names[0]], str
        ), "Position buffer resource name must be a string"

        assert isinstance(
            log_prob_buffer_name := state_resource.data[self.buffer_names[1]], str
        ), "Log probability buffer resource name must be a string"

        assert isinstance(
            acceptance_buffer_name := state_resource.data[self.buffer_names[2]], str
        ), "Acceptance buffer resource name must be a string"

        assert isinstance(
            position_buffer := resources[position_buffer_name], Buffer
        ), "Position buffer resource must be a Buffer"
        assert isinstance(
            log_prob_buffer := resources[log_prob_buffer_name], Buffer
        ), "Log probability buffer resource must be a Buffer"
        assert isinstance(
            acceptance_buffer := resources[acceptance_buffer_name], Buffer
        ), "Acceptance buffer resource must be a Buffer"
''', '''        position_buffer, log_prob_buffer, acceptance_buffer = [
            self._resolve_buffer(resources, state_resource, name)
            for name in self.buffer_names
        ]
'''), ('    def set_current_position(', '''    @staticmethod
    def _resolve_buffer(resources, state, key) -> Buffer:
        """The buffer a state entry points to."""
        name = state.data[key]
        assert isinstance(name, str), f"{key} must name a buffer resource"
        buffer = resources[name]
        assert isinstance(buffer, Buffer), f"{name} must be a Buffer"
        return buffer

    def set_current_position('''))
r('steps-serial-inline', TS, ('''            jax.tree_util.Partial(self.body, kernel),
            (rng_key, initial_position, logpdf(initial_position, data), logpdf, data),
            length=self.n_steps,''', '''            lambda carry, aux: self.body(kernel, carry, aux),
            (rng_key, initial_position, logpdf(initial_position, data), logpdf, data),
            jnp.arange(self.n_steps),'''))
r('steps-serial-carry', TS, ('''        key, position, log_prob, logpdf, data = carry
        key, subkey = jax.random.split(key)
        position, log_prob, do_accept = kernel.kernel(
            subkey, position, log_prob, logpdf, data
        )
        return (key, position, log_prob, logpdf, data), (position, log_prob, do_accept)''', '''        key, *state, logpdf, data = carry
        next_key, step_key = jax.random.split(key)
        step = kernel.kernel(step_key, *state, logpdf, data)
        new_position, new_log_prob = step[0], step[1]
        return (next_key, new_position, new_log_prob, logpdf, data), step'''))
r('steps-group-data', TS, ('''            {**data, "n_steps": self.n_steps},''', '''            dict(data, n_steps=self.n_steps),'''))
# ------------------------------------------------------------------ training strategy
TM = 'strategy/train_model.py'
r('tm-helper', TM, ('''        n_chains = data_resource.data.shape[0]
        n_dims = data_resource.data.shape[-1]
        training_data = data_resource.data[
            jnp.isfinite(data_resource.data).all(axis=-1)
        ].reshape(n_chains, -1, n_dims)
        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
''', '''        training_data = self._recent_rows(data_resource.data)
'''), ('    def __call__(', '''    def _recent_rows(self, samples):
        n_chains, n_dims = samples.shape[0], samples.shape[-1]
        finite = jnp.all(jnp.isfinite(samples), axis=-1)
        recorded = samples[finite].reshape(n_chains, -1, n_dims)
        return recorded[:, -self.history_window :].reshape(-1, n_dims)

    def __call__('''))
r('tm-choice', TM, ('''        training_data = training_data[
            jax.random.choice(
                subkey,
                jnp.arange(training_data.shape[0]),
                shape=(self.n_max_examples,),
                replace=True,
            )
        ]
''', '''        rows = jax.random.choice(
            subkey, training_data.shape[0], (self.n_max_examples,)
        )
        training_data = training_data[rows]
'''))
r('tm-loss', TM, ('''            loss_buffer.update_buffer(loss_values, start=loss_buffer.cursor)
            loss_buffer.cursor += len(loss_values)
            resources[self.loss_buffer_name] = loss_buffer

        optimizer.optim_state = optim_state
        resources[self.model_resource] = model
        resources[self.optimizer_resource] = optimizer
''', '''            start = loss_buffer.cursor
            loss_buffer.update_buffer(loss_values, start)
            loss_buffer.cursor = start + loss_values.shape[0]

        resources[self.model_resource] = model
        optimizer.optim_state = optim_state
'''))
r('tm-keys', TM, ('''        rng_key, subkey = jax.random.split(rng_key)
        training_data = training_data[''', '''        rng_key, choice_key, train_key = jax.random.split(rng_key, 3)
        training_data = training_data['''), ('''                subkey,
                jnp.arange''', '''                choice_key,
                jnp.arange'''), ('''        rng_key, subkey = jax.random.split(rng_key)

        if self.verbose:''', '''        if self.verbose:'''), ('rng=subkey,', 'rng=train_key,'), ('(rng_key, model, optim_state, loss_values) = model.train(', '(_, model, optim_state, loss_values) = model.train('))
# ------------------------------------------------------------------ Adam
AO = 'strategy/optimization.py'
r('adam-loop', AO, ('''        def _single_optimize(
            key: PRNGKeyArray,
            initial_position: Float[Array, " n_dim"],
        ) -> Float[Array, " n_dim"]:
            opt_state = self.solver.init(initial_position)

            (key, params, opt_state), _ = jax.lax.scan(
                _kernel,
                (key, initial_position, opt_state),
                jnp.arange(self.n_steps),
            )

            return params  # type: ignore
''', '''        def _single_optimize(
            key: PRNGKeyArray,
            initial_position: Float[Array, " n_dim"],
        ) -> Float[Array, " n_dim"]:
            carry = (key, initial_position, self.solver.init(initial_position))
            carry, _ = jax.lax.scan(_kernel, carry, length=self.n_steps)
            return carry[1]
'''))
r('adam-clip', AO, ('''            params = optax.projections.projection_box(
                params, self.bounds[:, 0], self.bounds[:, 1]
            )
''', '''            params = jnp.clip(params, self.bounds[:, 0], self.bounds[:, 1])
'''))
r('adam-noise', AO, ('''            grad = grad_fn(params, data) * (
                1 + jax.random.normal(subkey) * self.noise_level
            )
            updates, opt_state''', '''            noise = self.noise_level * jax.random.normal(subkey)
            gradient = grad_fn(params, data)
            grad = gradient + gradient * noise
            updates, opt_state'''))
r('adam-validate', AO, ('''        if bounds.ndim != 2 or bounds.shape[1] != 2:
            raise ValueError(''', '''        if not (len(bounds.shape) == 2 and bounds.shape[-1] == 2):
            raise ValueError('''), ('''        if not (self.bounds.shape[0] == 1 or self.bounds.shape[0] == n_dim):''', '''        if self.bounds.shape[0] not in (1, n_dim):'''))
r('adam-call', AO, ('''        def loss_fn(params: Float[Array, " n_dim"], data: dict) -> Float:
            return -self.logpdf(params, data)

        rng_key, optimized_positions, _ = self.optimize(
            rng_key, loss_fn, initial_position, data
        )

        return rng_key, resources, optimized_positions''', '''        negative = lambda params, data: -1.0 * self.logpdf(params, data)
        result = self.optimize(rng_key, negative, initial_position, data)
        return result[0], resources, result[1]'''))
# ------------------------------------------------------------------ tempering
PT = 'strategy/parallel_tempering.py'
r('pt-swap', PT, ('''        swapped = jnp.flip(
            jax.lax.dynamic_slice_in_dim(positions, idx, 2, axis=0), axis=0
        )
''', '''        def swap(x):
            low, high = x[idx], x[idx + 1]
            exchanged = x.at[idx].set(high).at[idx + 1].set(low)
            return jnp.where(do_accept, exchanged, x)

'''), ('''        positions = jax.lax.cond(
            do_accept,
            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(
                positions, swapped, idx, axis=0
            ),
            false_fun=lambda: positions,
        )
        swapped = jnp.flip(
            jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0), axis=0
        )
        log_probs = jax.lax.cond(
            do_accept,
            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(
                log_probs, swapped, idx, axis=0
            ),
            false_fun=lambda: log_probs,
        )
''', '''        positions = swap(positions)
        log_probs = swap(log_probs)
'''))
r('pt-ratio', PT, ('''        ratio = (1.0 / temperatures[idx + 1] - 1.0 / temperatures[idx]) * (
            log_probs[idx] - log_probs[idx + 1]
        )
''', '''        beta = 1.0 / temperatures
        delta_beta = beta[idx] - beta[idx + 1]
        delta_log_prob = log_probs[idx + 1] - log_probs[idx]
        ratio = delta_beta * delta_log_prob
'''))
r('pt-adapt-gaps', PT, ('''        new_temperatures = temperatures
        for i in range(1, temperatures.shape[0] - 1):
            new_temperatures = new_temperatures.at[i].set(
                new_temperatures[i - 1]
                + (temperatures[i] - temperatures[i - 1])
                * jnp.exp(damping_factor[i - 1])
            )
''', '''        gaps = jnp.diff(temperatures)[:-1] * jnp.exp(damping_factor)
        interior = temperatures[0] + jnp.cumsum(gaps)
        new_temperatures = temperatures.at[1:-1].set(interior)
'''))
r('pt-adapt-loop', PT, ('''        new_temperatures = temperatures
        for i in range(1, temperatures.shape[0] - 1):
            new_temperatures = new_temperatures.at[i].set(
                new_temperatures[i - 1]
                + (temperatures[i] - temperatures[i - 1])
                * jnp.exp(damping_factor[i - 1])
            )
''', '''        scale = jnp.exp(damping_factor)
        new_temperatures = temperatures
        for i in range(temperatures.shape[0] - 2):
            gap = temperatures[i + 1] - temperatures[i]
            new_value = new_temperatures[i] + gap * scale[i]
            new_temperatures = new_temperatures.at[i + 1].set(new_value)
'''))
r('pt-fori', PT, ('''        (key, position, log_prob, logpdf, temperatures, data), (
            positions,
            log_probs,
            do_accept,
        ) = jax.lax.scan(
            jax.tree_util.Partial(self._individual_step_body, kernel),
            ((rng_key, positions, log_probs, logpdf, temperatures, data)),
            length=self.n_steps,
        )
        return position, log_prob, do_accept''', '''        carry = (rng_key, positions, log_probs, logpdf, temperatures, data)
        carry, history = jax.lax.scan(
            lambda state, _: self._individual_step_body(kernel, state, _),
            carry,
            None,
            length=self.n_steps,
        )
        return carry[1], carry[2], history[2]'''))
r('pt-call-order', PT, ('''        rng_key, subkey = jax.random.split(rng_key)
        assert isinstance(kernel := resources[self.kernel_name], ProposalBase)
''', '''        assert isinstance(kernel := resources[self.kernel_name], ProposalBase)
'''), ('''        # Update the buffers
        tempered_positions.update_buffer(positions[:, 1:], 0)

        if state.data["training"]:

            # Adapt the temperatures
            temperatures.update_buffer(
                eqx.filter_jit(self._adapt_temperature)(temperatures.data, do_accepts),
                0,
            )

        return rng_key, resources, positions[:, 0]''', '''        cold, hot = positions[:, 0], positions[:, 1:]
        if state.data["training"]:
            new_temperatures = eqx.filter_jit(self._adapt_temperature)(
                temperatures.data, do_accepts
            )
            temperatures.update_buffer(new_temperatures)
        tempered_positions.update_buffer(hot)
        return rng_key, resources, cold'''))
r('pt-lookup', PT, ('''        assert isinstance(
            tempered_positions := resources[self.tempered_buffer_names[0]], Buffer
        )  # Shape (n_chains, n_temps, n_dims)

        assert isinstance(
            temperatures := resources[self.tempered_buffer_names[1]], Buffer
        )
''', '''        position_name, temperature_name = self.tempered_buffer_names
        tempered_positions = resources[position_name]
        temperatures = resources[temperature_name]
        assert isinstance(tempered_positions, Buffer)
        assert isinstance(temperatures, Buffer)
'''), ('''            [initial_position[:, None, :], tempered_positions.data],
            axis=1,''', '''            (jnp.expand_dims(initial_position, 1), tempered_positions()),
            axis=1,'''))
# ------------------------------------------------------------------ sampler, resources
r('sampler-get', 'Sampler.py', ('''        for strategy in self.strategy_order:
            if strategy not in self.strategies:
                raise ValueError(
                    f"Invalid strategy name '{strategy}' provided. "
                    f"Available strategies are: {list(self.strategies.keys())}."
                )
            (
                rng_key,
                self.resources,
                last_step,
            ) = self.strategies[
                strategy
            ](rng_key, self.resources, last_step, data)
''', '''        for name in self.strategy_order:
            strategy = self.strategies.get(name)
            if strategy is None:
                raise ValueError(f"Invalid strategy name '{name}' provided.")
            rng_key, self.resources, last_step = strategy(
                rng_key, self.resources, last_step, data
            )
'''))
r('sampler-init', 'Sampler.py', ('''        if resources is not None and strategies is not None:''', '''        explicit = not (resources is None or strategies is None)
        if explicit:'''), ('''            self.resources = resource_strategy_bundles.resources
            self.strategies = resource_strategy_bundles.strategies
            self.strategy_order = resource_strategy_bundles.strategy_order''', '''            for name in ("resources", "strategies", "strategy_order"):
                setattr(self, name, getattr(resource_strategy_bundles, name))'''))
r('sampler-index', 'Sampler.py', ('''        for strategy in self.strategy_order:
            if''', '''        for i in range(len(self.strategy_order)):
            strategy = self.strategy_order[i]
            if'''))
r('buffer-full', 'resource/buffers.py', ('self.data = jnp.zeros(shape) - jnp.inf', 'self.data = jnp.full(shape, -jnp.inf)'),
  ('''        self.data = jax.lax.dynamic_update_slice_in_dim(
            self.data, updates, start, self.cursor_dim
        )''', '''        starts = [0] * self.data.ndim
        starts[self.cursor_dim] = start
        self.data = jax.lax.dynamic_update_slice(self.data, updates, tuple(starts))'''))
r('buffer-save', 'resource/buffers.py', ('''        np.savez(
            path + self.name,
            name=self.name,
            data=self.data,
            cursor=self.cursor,
            cursor_dim=self.cursor_dim,
        )''', '''        fields = {
            "cursor": self.cursor,
            "cursor_dim": self.cursor_dim,
            "data": self.data,
            "name": self.name,
        }
        np.savez(path + self.name, **fields)'''))
r('state-update', 'resource/states.py', ('''        for k, v in zip(key, value):
            self.data[k] = v
            print(f"Updated state {k} to {v}")''', '''        for i, k in enumerate(key):
            if i >= len(value):
                break
            self.data[k] = value[i]'''))
r('state-update-dict', 'resource/states.py', ('''        for k, v in zip(key, value):
            self.data[k] = v
            print(f"Updated state {k} to {v}")''', '''        self.data.update(dict(zip(key, value)))'''))
r('logpdf-tempered', 'resource/logPDF.py', ('''        base_pdf = super().__call__(x, data)
        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)''', '''        log_likelihood = self.log_pdf(x, data)
        log_prior = self.log_prior(x, data)
        return log_prior + log_likelihood / temperatures'''),
  ('''        if variables is None and n_dims is not None:
            self.variables = [Variable("x_" + str(i), True) for i in range(n_dims)]
        elif variables is not None:
            self.variables = variables
        else:
            raise ValueError("Either variables or n_dims must be provided")''', '''        if variables is not None:
            self.variables = variables
            return
        if n_dims is None:
            raise ValueError("Either variables or n_dims must be provided")
        self.variables = [Variable(f"x_{i}", True) for i in range(n_dims)]'''))
r('logpdf-flatten', 'resource/logPDF.py', ('''        return cls(aux_data[0], aux_data[1])''', '''        log_pdf, variables = aux_data
        return cls(log_pdf, variables=variables)'''), ('''        return cls(*aux_data, *children)''', '''        log_likelihood, log_prior, variables = aux_data
        return cls(log_likelihood, log_prior, variables)'''))
r('updatestate-lookup', 'strategy/update_state.py', ('''        assert isinstance(
            state := resources[self.state_name], State
        ), f"Resource {self.state_name} is not a State resource."

        state.update(self.keys, self.values)''', '''        state = resources[self.state_name]
        if not isinstance(state, State):
            raise AssertionError(f"Resource {self.state_name} is not a State resource.")
        for key, value in zip(self.keys, self.values):
            state.update([key], [value])'''))
# ------------------------------------------------------------------ flows
CM = 'resource/model/common.py'
r('coupling-where', CM, ('''        y, log_det = self.bijector(x, x * self.mask)  # type: ignore
        y = (1 - self.mask) * y + self.mask * x
        log_det = ((1 - self.mask) * log_det).sum()
        return y, log_det
''', '''        return self._mix(x, *self.bijector(x, x * self.mask))  # type: ignore

    def _mix(self, x, y, log_det):
        free = 1 - self.mask
        return free * y + self.mask * x, jnp.sum(free * log_det)
'''), ('''        y, log_det = self.bijector.inverse(x, x * self.mask)  # type: ignore
        y = (1 - self.mask) * y + self.mask * x
        log_det = ((1 - self.mask) * log_det).sum()
        return y, log_det
''', '''        return self._mix(x, *self.bijector.inverse(x, x * self.mask))  # type: ignore
'''))
r('coupling-blend', CM, ('''        y, log_det = self.bijector(x, x * self.mask)  # type: ignore
        y = (1 - self.mask) * y + self.mask * x
        log_det = ((1 - self.mask) * log_det).sum()
        return y, log_det
''', '''        mask = self.mask
        z, contributions = self.bijector.forward(x, mask * x)  # type: ignore
        y = mask * x + (1 - mask) * z
        return y, (contributions * (1 - mask)).sum()
'''))
r('affine-helper', CM, ('''        # Note that this note output log_det as an array instead of a number.
        # This is because we need to sum over the log_det in the masked coupling layer.
        scale = jnp.tanh(self.scale_MLP(condition)) * self.dt
        shift = self.shift_MLP(condition) * self.dt
        log_det = scale
        y = (x + shift) * jnp.exp(scale)
        return y, log_det
''', '''        scale, shift = self._parameters(condition)
        factor = jnp.exp(scale)
        return x * factor + shift * factor, scale

    def _parameters(self, condition):
        return (
            self.dt * jnp.tanh(self.scale_MLP(condition)),
            self.dt * self.shift_MLP(condition),
        )
'''), ('''        scale = jnp.tanh(self.scale_MLP(condition)) * self.dt
        shift = self.shift_MLP(condition) * self.dt
        log_det = -scale
        y = x * jnp.exp(-scale) - shift
        return y, log_det
''', '''        scale, shift = self._parameters(condition)
        return x / jnp.exp(scale) - shift, -scale
'''))
r('gaussian-helper', CM, ('''        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, self.cov)''', '''        mean, cov = self.mean, self.cov
        return jax.scipy.stats.multivariate_normal.logpdf(x, mean=mean, cov=cov)'''),
  ('''        for dist, (_, ranges) in zip(self.distributions, self.partitions.items()):
            log_prob += dist.log_prob(x[ranges[0] : ranges[1]])
        return log_prob''', '''        for dist, (start, stop) in zip(self.distributions, self.partitions.values()):
            log_prob = log_prob + dist.log_prob(x[start:stop])
        return log_prob'''))
NVP = 'resource/model/nf_model/realNVP.py'
r('nvp-whiten', NVP, ('''        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
        y, log_det = self.__call__(x)
        log_det = log_det + self.base_dist.log_prob(y)
        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
        return log_det''', '''        std = jnp.sqrt(jnp.diag(self.data_cov))
        y, log_det = self.forward((x - self.data_mean) / std)
        return self.base_dist.log_prob(y) + log_det - jnp.sum(jnp.log(std))'''),
  ('''        samples = self.base_dist.sample(rng_key, n_samples)
        samples = jax.vmap(self.inverse)(samples)[0]
        samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean
        return samples''', '''        def push(z):
            x, _ = self.inverse(z)
            return self.data_mean + jnp.sqrt(jnp.diag(self.data_cov)) * x

        return jax.vmap(push)(self.base_dist.sample(rng_key, n_samples))'''))
r('nvp-scan', NVP, ('''            x, log_det_i = layers(x, condition)
            return (x, log_det + log_det_i), None

        (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics)
        return x, log_det''', '''            y, increment = layers.forward(x, condition)
            return (y, increment + log_det), increment

        final, _ = jax.lax.scan(f, (x, log_det), dynamics)
        return final'''))
r('nvp-logdets', NVP, ('''        def f(carry, data):
            x, log_det = carry
            layers = eqx.combine(data, statics)
            x, log_det_i = layers(x, condition)
            return (x, log_det + log_det_i), None

        (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics)
        return x, log_det''', '''        def f(x, data):
            layer = eqx.combine(data, statics)
            return layer(x, condition)

        x, log_dets = jax.lax.scan(f, x, dynamics)
        return x, log_det + jnp.sum(log_dets)'''))
r('nvp-affine', NVP, ('''        s = self.mask * self.scale_MLP(x * (1 - self.mask))
        s = jnp.tanh(s) * self.dt
        t = self.mask * self.translate_MLP(x * (1 - self.mask)) * self.dt

        # Compute log determinant of the Jacobian
        log_det = s.sum()

        # Apply the transformation
        outputs = (x + t) * jnp.exp(s)
        return outputs, log_det''', '''        s, t = self._scale_and_shift(x)
        return (x + t) * jnp.exp(s), s.sum()

    def _scale_and_shift(self, x):
        held = (1 - self.mask) * x
        s = self.dt * jnp.tanh(self.mask * self.scale_MLP(held))
        t = self.dt * self.mask * self.translate_MLP(held)
        return s, t'''))
RQ = 'resource/model/nf_model/rqSpline.py'
_bins = lambda v, p: '''    below_range = %(v)s <= %(p)s_pos[0]
    above_range = %(v)s >= %(p)s_pos[-1]
    correct_bin = jnp.logical_and(%(v)s >= %(p)s_pos[:-1], %(v)s < %(p)s_pos[1:])
    any_bin_in_range = jnp.any(correct_bin)
    first_bin = jnp.concatenate(
        [jnp.array([1]), jnp.zeros(len(correct_bin) - 1)]
    ).astype(bool)
    # If y does not fall into any bin, we use the first spline in the following
    # computations to avoid numerical issues.
    correct_bin = jnp.where(any_bin_in_range, correct_bin, first_bin)
    # Dot product of each parameter with the correct bin mask.
    params = jnp.stack([x_pos, y_pos, knot_slopes], axis=1)
    params_bin_left = jnp.sum(correct_bin[:, None] * params[:-1], axis=0)
    params_bin_right = jnp.sum(correct_bin[:, None] * params[1:], axis=0)
''' % dict(v=v, p=p)
r('rq-bin-helper', RQ, (_bins('x', 'x'), '''    below_range = x <= x_pos[0]
    above_range = x >= x_pos[-1]
    params_bin_left, params_bin_right = _select_bin(x, x_pos, x_pos, y_pos, knot_slopes)
'''), (_bins('y', 'y'), '''    below_range = y <= y_pos[0]
    above_range = y >= y_pos[-1]
    params_bin_left, params_bin_right = _select_bin(y, y_pos, x_pos, y_pos, knot_slopes)
'''), ('''@partial(jax.vmap, in_axes=(0, 0, 0, 0))
def _rational_quadratic_spline_fwd(''', '''def _select_bin(v, edges, x_pos, y_pos, knot_slopes):
    """Parameters of the left and right knot of the bin `v` lies in (the first if none)."""
    correct_bin = (v >= edges[:-1]) & (v < edges[1:])
    first_bin = jnp.arange(correct_bin.shape[0]) == 0
    correct_bin = jnp.where(jnp.any(correct_bin), correct_bin, first_bin)
    params = jnp.stack([x_pos, y_pos, knot_slopes], axis=1)
    left = jnp.sum(correct_bin[:, None] * params[:-1], axis=0)
    right = jnp.sum(correct_bin[:, None] * params[1:], axis=0)
    return left, right


@partial(jax.vmap, in_axes=(0, 0, 0, 0))
def _rational_quadratic_spline_fwd('''))
r('rq-unpack', RQ, ('''    x_pos_bin = (params_bin_left[0], params_bin_right[0])
    y_pos_bin = (params_bin_left[1], params_bin_right[1])
    knot_slopes_bin = (params_bin_left[2], params_bin_right[2])

    bin_width = x_pos_bin[1] - x_pos_bin[0]
    bin_height = y_pos_bin[1] - y_pos_bin[0]
    bin_slope = bin_height / bin_width

    z = (x''', '''    x_pos_bin, y_pos_bin, knot_slopes_bin = [
        (params_bin_left[i], params_bin_right[i]) for i in range(3)
    ]
    bin_height = y_pos_bin[1] - y_pos_bin[0]
    bin_width = x_pos_bin[1] - x_pos_bin[0]
    bin_slope = bin_height / bin_width

    z = (x'''), ('''    z1mz = z - sq_z  # z(1-z)
    sq_1mz = (1.0 - z) ** 2
    slopes_term = knot_slopes_bin[1] + knot_slopes_bin[0] - 2.0 * bin_slope
    numerator''', '''    z1mz = z * (1.0 - z)
    sq_1mz = (1.0 - z) * (1.0 - z)
    slopes_term = knot_slopes_bin[0] + knot_slopes_bin[1] - 2.0 * bin_slope
    numerator'''))
r('rq-outside', RQ, ('''    y = jnp.where(below_range, (x - x_pos[0]) * knot_slopes[0] + y_pos[0], y)
    y = jnp.where(
        above_range,
        (x - x_pos[-1]) * knot_slopes[-1] + y_pos[-1],
        y,  # type: ignore
    )
    logdet = jnp.where(below_range, jnp.log(knot_slopes[0]), logdet)
    logdet = jnp.where(above_range, jnp.log(knot_slopes[-1]), logdet)
    return y, logdet''', '''    below = y_pos[0] + knot_slopes[0] * (x - x_pos[0])
    above = y_pos[-1] + knot_slopes[-1] * (x - x_pos[-1])
    y = jnp.where(above_range, above, jnp.where(below_range, below, y))
    logdet = jnp.where(
        above_range,
        jnp.log(knot_slopes[-1]),
        jnp.where(below_range, jnp.log(knot_slopes[0]), logdet),
    )
    return y, logdet'''))
r('rq-params', RQ, ('''        params = self.conditioner(x).reshape(-1, self._num_bins * 3 + 1)
        unnormalized_bin_widths = params[:, : self._num_bins]
        unnormalized_bin_heights = params[:, self._num_bins : 2 * self._num_bins]
        unnormalized_knot_slopes = params[:, 2 * self._num_bins :]
''', '''        k = self._num_bins
        params = self.conditioner(x).reshape(-1, 3 * k + 1)
        unnormalized_bin_widths, unnormalized_bin_heights, unnormalized_knot_slopes = (
            jnp.split(params, [k, 2 * k], axis=-1)
        )
'''))
r('rq-positions', RQ, ('''        x_pos = self.range_min + jnp.cumsum(bin_widths[..., :-1], axis=-1)
        y_pos = self.range_min + jnp.cumsum(bin_heights[..., :-1], axis=-1)
        pad_shape = params.shape[:-1] + (1,)
        pad_below = jnp.full(pad_shape, self.range_min, dtype=self.dtype)
        pad_above = jnp.full(pad_shape, self.range_max, dtype=self.dtype)
        x_pos = jnp.concatenate([pad_below, x_pos, pad_above], axis=-1)
        y_pos = jnp.concatenate([pad_below, y_pos, pad_above], axis=-1)
''', '''        pad_shape = params.shape[:-1] + (1,)
        pad_below = jnp.full(pad_shape, self.range_min, dtype=self.dtype)
        pad_above = jnp.full(pad_shape, self.range_max, dtype=self.dtype)

        def knots(sizes):
            inner = self.range_min + jnp.cumsum(sizes, axis=-1)[..., :-1]
            return jnp.concatenate([pad_below, inner, pad_above], axis=-1)

        x_pos, y_pos = knots(bin_widths), knots(bin_heights)
'''))
r('rq-inverse-inner', RQ, ('''            x, log_det_i = layers[1].inverse(x, condition)
            log_det += log_det_i
            x, log_det_i = layers[0].inverse(x, condition)
            return (x, log_det + log_det_i), None
''', '''            for layer in (layers[1], layers[0]):
                x, log_det_i = layer.inverse(x, condition)
                log_det = log_det + log_det_i
            return (x, log_det), None
'''), ('''            x, log_det_i = layers[0](x, condition)
            log_det += log_det_i
            x, log_det_i = layers[1](x, condition)
            return (x, log_det + log_det_i), None
''', '''            for layer in (layers[0], layers[1]):
                x, log_det_i = layer(x, condition)
                log_det = log_det + log_det_i
            return (x, log_det), None
'''))
NFB = 'resource/model/nf_model/base.py'
r('nfb-epoch', NFB, ('''            perms = perms[: steps_per_epoch * batch_size]  # skip incomplete batch
            perms = perms.reshape((steps_per_epoch, batch_size))
            for perm in perms:
                batch = data[perm, ...]
                value, model, state = model.train_step(batch, optim, state)
''', '''            for i in range(steps_per_epoch):
                rows = perms[i * batch_size : (i + 1) * batch_size]
                value, model, state = model.train_step(data[rows], optim, state)
'''))
r('nfb-best', NFB, ('''            loss_values = loss_values.at[epoch].set(value)
            if loss_values[epoch] < best_loss:
                best_model = model
                best_state = state
                best_loss = loss_values[epoch]
''', '''            loss_values = loss_values.at[epoch].set(value)
            if value < best_loss:
                best_model, best_state, best_loss = model, state, value
'''), ('''        model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
''', '''        model = eqx.tree_at(
            lambda m: (m._data_mean, m._data_cov),
            model,
            (jnp.mean(data, axis=0), jnp.cov(data, rowvar=False)),
        )
'''))
r('nfb-losslist', NFB, ('loss_values = jnp.zeros(num_epochs)\n', 'losses = []\n'), ('''            loss_values = loss_values.at[epoch].set(value)
            if loss_values[epoch] < best_loss:
                best_model = model
                best_state = state
                best_loss = loss_values[epoch]
''', '''            losses.append(value)
            if value < best_loss:
                best_model = model
                best_state = state
                best_loss = value
'''), ('        return rng, best_model, best_state, loss_values', '        return rng, best_model, best_state, jnp.array(losses)'))
r('nfb-whiten-helper', NFB, ('''        model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
''', '''        model = model._whitened_by(data)
'''), ('    def train_epoch(', '''    def _whitened_by(self, data):
        model = eqx.tree_at(lambda m: m._data_cov, self, jnp.cov(data.T))
        return eqx.tree_at(lambda m: m._data_mean, model, data.mean(axis=0))

    def train_epoch('''), ('''        value = 1e9
        model = self
        train_ds_size = len(data)
''', '''        model = self
        train_ds_size = data.shape[0]
'''))
r('nfb-step', NFB, ('''        loss, grads = model.loss_fn(x)
        updates, state = optim.update(grads, state, model)  # type: ignore
        model = eqx.apply_updates(model, updates)
        return loss, model, state''', '''        value, gradient = model.loss_fn(x)
        updates, new_state = optim.update(gradient, state, model)  # type: ignore
        return value, eqx.apply_updates(model, updates), new_state'''), ('return -jnp.mean(jax.vmap(self.log_prob)(x))', 'log_probs = jax.vmap(self.log_prob)(x)\n        return jnp.mean(-log_probs)'))
FM = 'resource/model/flowmatching/base.py'
r('fm-epoch', FM, ('''        std = jnp.sqrt(jnp.diag(self.data_cov))
        if steps_per_epoch > 0:''', '''        def prepare(x0, x1, t):
            std = jnp.sqrt(jnp.diag(self.data_cov))
            return self.path.sample(x0, (x1 - self.data_mean) / std, t)

        if steps_per_epoch > 0:'''), ('''                batch_x1 = (batch_x1 - self.data_mean) / std
                batch_x_t, batch_dx_t = self.path.sample(batch_x0, batch_x1, batch_t)
''', '''                batch_x_t, batch_dx_t = prepare(batch_x0, batch_x1, batch_t)
'''), ('''            batch_x1 = (data[1] - self.data_mean) / std
            x_t, dx_t = self.path.sample(data[0], batch_x1, data[2])
''', '''            x_t, dx_t = prepare(*data)
'''))
r('fm-prewhiten', FM, ('''        std = jnp.sqrt(jnp.diag(self.data_cov))
        if steps_per_epoch > 0:''', '''        x0, x1, times = data
        x1 = (x1 - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
        if steps_per_epoch > 0:'''), ('''                batch_x0, batch_x1, batch_t = (
                    data[0][perm, ...],
                    data[1][perm, ...],
                    data[2][perm, ...],
                )
                batch_x1 = (batch_x1 - self.data_mean) / std
                batch_x_t, batch_dx_t = self.path.sample(batch_x0, batch_x1, batch_t)
''', '''                batch_t = times[perm]
                batch_x_t, batch_dx_t = self.path.sample(x0[perm], x1[perm], batch_t)
'''), ('''            batch_x1 = (data[1] - self.data_mean) / std
            x_t, dx_t = self.path.sample(data[0], batch_x1, data[2])
            value, model, state = model.train_step(x_t, data[2], dx_t, optim, state)
''', '''            x_t, dx_t = self.path.sample(x0, x1, times)
            value, model, state = model.train_step(x_t, times, dx_t, optim, state)
'''))
r('fm-loss', FM, ('''        x = jnp.concatenate([x, t], axis=-1)
        return jnp.mean(
            (eqx.filter_vmap(self.solver.model, in_axes=(0))(x) - dx_t) ** 2
        )''', '''        inputs = jnp.concatenate((x, t), axis=1)
        velocity = jax.vmap(self.solver.model)(inputs)
        residual = dx_t - velocity
        return jnp.mean(residual * residual)'''))
r('fm-sample', FM, ('''        rng_key, subkey = jax.random.split(rng_key)
        samples = self.solver.sample(subkey, num_samples, dt=dt)
        std = jnp.sqrt(jnp.diag(self.data_cov))
        samples = samples * std + self.data_mean
        return samples''', '''        samples = self.solver.sample(rng_key, num_samples, dt=dt)
        return self.data_mean + jnp.sqrt(jnp.diag(self.data_cov)) * samples'''),
  ('''        std = jnp.sqrt(jnp.diag(self.data_cov))
        x_whitened = (x - self.data_mean) / std
        log_det = -jnp.sum(jnp.log(std))
        return self.solver.log_prob(x_whitened) + log_det''', '''        variance = jnp.diag(self.data_cov)
        x_whitened = (x - self.data_mean) / jnp.sqrt(variance)
        return self.solver.log_prob(x_whitened) - 0.5 * jnp.sum(jnp.log(variance))'''))
r('fm-field', FM, ('''            t = jnp.expand_dims(t, axis=-1)
            x = jnp.concatenate([x, t], axis=-1)
            return self.model(x)
''', '''            return self.model(jnp.append(x, t))
'''), ('''            t = jnp.expand_dims(t, axis=-1)
            x = jnp.concatenate([x[0], t], axis=-1)
            y = self.model(x)
            div = jax.jacrev(self.model, argnums=0)(x)[:, :-1]
            return [y, jnp.trace(div)]''', '''            def velocity(y):
                return self.model(jnp.concatenate([y, jnp.atleast_1d(t)]))

            position = x[0]
            return [velocity(position), jnp.trace(jax.jacfwd(velocity)(position))]'''))
# ------------------------------------------------------------------ presets
for nm, f in (('b', 'resource_strategy_bundle/RQSpline_MALA.py'), ('bpt', 'resource_strategy_bundle/RQSpline_MALA_PT.py')):
    first = '[]' if nm == 'b' else '["initialize_tempered_positions"]'
    r(nm + '-order', f, ('''        strategy_order = %s
        for _ in range(n_training_loops):
            strategy_order.extend(training_phase)

        strategy_order.append("reset_steppers")
        strategy_order.append("update_state")
        for _ in range(n_production_loops):
            strategy_order.extend(production_phase)

        self.strategy_order = strategy_order''' % first, '''        self.strategy_order = (
            %s
            + training_phase * n_training_loops
            + ["reset_steppers", "update_state"]
            + production_phase * n_production_loops
        )''' % first))
    r(nm + '-counts', f, ('''        n_training_steps = (
            -(-n_local_steps // local_thinning) * n_training_loops
            + -(-n_global_steps // global_thinning) * n_training_loops
        )
        n_production_steps = (
            -(-n_local_steps // local_thinning) * n_production_loops
            + -(-n_global_steps // global_thinning) * n_production_loops
        )
''', '''        n_recorded = (
            (n_local_steps + local_thinning - 1) // local_thinning
            + (n_global_steps + global_thinning - 1) // global_thinning
        )
        n_training_steps = n_training_loops * n_recorded
        n_production_steps = n_production_loops * n_recorded
'''))
    r(nm + '-lambdas', f, ('''        reset_steppers_lambda = Lambda(
            lambda rng_key, resources, initial_position, data: reset_steppers(
                rng_key, resources, initial_position, data
            )
        )
''', '''        reset_steppers_lambda = Lambda(reset_steppers)
'''), ('''        update_model_lambda = Lambda(
            lambda rng_key, resources, initial_position, data: update_model(
                rng_key, resources, initial_position, data
            )
        )
''', '''        update_model_lambda = Lambda(update_model)
'''))
    r(nm + '-phase', f, ('        production_phase = [\n' + ('            "parallel_tempering",\n' if nm == 'bpt' else '') + '''            "local_stepper",
            "update_global_step",
            "global_stepper",
            "update_local_step",
        ]
''', '''        production_phase = [
            name
            for name in training_phase
            if name not in ("model_trainer", "update_model")
        ]
'''))


# ------------------------------------------------------------------ construction and training (C24, C25, C15)
r('mlp-zip', CM,
  ('''        for i in range(len(shape) - 2):
            key, subkey1, subkey2 = jax.random.split(key, 3)
            layer = eqx.nn.Linear(
                shape[i], shape[i + 1], key=subkey1, use_bias=use_bias
            )
            weight = jax.random.normal(subkey2, (shape[i + 1], shape[i])) * jnp.sqrt(
                scale / shape[i]
            )
            layer = eqx.tree_at(lambda layer: layer.weight, layer, weight)
            self.layers.append(layer)
            self.layers.append(activation)
''', '''        for n_in, n_out in zip(shape[:-2], shape[1:-1]):
            key, bias_key, weight_key = jax.random.split(key, 3)
            linear = eqx.nn.Linear(n_in, n_out, use_bias=use_bias, key=bias_key)
            std = jnp.sqrt(scale / n_in)
            new_weight = std * jax.random.normal(weight_key, (n_out, n_in))
            linear = eqx.tree_at(lambda m: m.weight, linear, new_weight)
            self.layers += [linear, activation]
'''))
r('mlp-presplit', CM,
  ('''        self.layers = []
        for i in range(len(shape) - 2):
            key, subkey1, subkey2 = jax.random.split(key, 3)
''', '''        layers = []
        n_hidden = len(shape) - 2
        for i in range(n_hidden):
            keys = jax.random.split(key, 3)
            key, subkey1, subkey2 = keys[0], keys[1], keys[2]
'''),
  ('''            self.layers.append(layer)
            self.layers.append(activation)
        key, subkey = jax.random.split(key)
        self.layers.append(
            eqx.nn.Linear(shape[-2], shape[-1], key=subkey, use_bias=use_bias)
        )
''', '''            layers.extend((layer, activation))
        key, subkey = jax.random.split(key)
        layers.append(
            eqx.nn.Linear(shape[-2], shape[-1], key=subkey, use_bias=use_bias)
        )
        self.layers = layers
'''))
r('nvp-mask-where', NVP,
  ('''            mask = jnp.ones(n_features)
            mask = mask.at[: int(n_features / 2)].set(0)
            mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
''', '''            upper = jnp.arange(n_features) >= n_features // 2
            mask = jnp.where(i % 2 == 0, ~upper, upper)
'''))
r('nvp-mask-select', NVP,
  ('''            mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
''', '''            mask = jnp.where(i % 2 == 0, 1 - mask, mask)
'''))
r('nvp-mask-concat', NVP,
  ('''            mask = jnp.ones(n_features)
            mask = mask.at[: int(n_features / 2)].set(0)
''', '''            half = n_features // 2
            mask = jnp.concatenate([jnp.zeros(half), jnp.ones(n_features - half)])
'''))
r('nvp-net-helper', NVP,
  ('''            scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
            shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
            return''', '''            widths = [n_features, n_hidden, n_features]

            def network(subkey):
                return MLP(widths, key=subkey)

            shift_MLP = network(shift_subkey)
            scale_MLP = network(scale_subkey)
            return'''))
r('rq-mask-parity', RQ,
  ('''            mask = ((jnp.arange(0, n_features) + i) % 2).astype(bool)
            mask_all = (jnp.zeros(n_features)).astype(bool)
''', '''            parity = (i + jnp.arange(n_features)) % 2
            mask = parity == 1
            mask_all = jnp.zeros(n_features, dtype=bool)
'''))
r('rq-mask-all', RQ,
  ('''            mask_all = (jnp.zeros(n_features)).astype(bool)
''', '''            mask_all = jnp.full(n_features, False)
'''))
r('rq-build', RQ,
  ('''            mlp = MLP(
                [n_features] + hidden_size + [n_features * (num_bins * 3 + 1)],
                key,
                scale=1e-2,
                activation=jax.nn.tanh,
            )
''', '''            n_params = 3 * num_bins + 1
            shape = [n_features, *hidden_size, n_features * n_params]
            mlp = MLP(shape, key, scale=1e-2, activation=jax.nn.tanh)
'''),
  ('''            layer1 = MaskedCouplingLayer(ScalarAffine(0.0, 0.0), mask_all)
            layer2 = MaskedCouplingLayer(
                RQSpline(mlp, spline_range[0], spline_range[1]), mask
            )
            return eqx.nn.Sequential([layer1, layer2])  # type: ignore

        keys = jax.random.split(key, n_layers)
        self.layers = eqx.filter_vmap(make_layer)(jnp.arange(n_layers), keys)
''', '''            range_min, range_max = spline_range
            spline = RQSpline(mlp, range_min, range_max)
            affine = ScalarAffine(0.0, 0.0)
            return eqx.nn.Sequential(  # type: ignore
                [MaskedCouplingLayer(affine, mask_all), MaskedCouplingLayer(spline, mask)]
            )

        indices = jnp.arange(n_layers)
        self.layers = eqx.filter_vmap(make_layer)(indices, jax.random.split(key, n_layers))
'''))
r('rq-init-helper', RQ,
  ('''        if kwargs.get("data_mean") is not None:
            data_mean = kwargs.get("data_mean")
            assert isinstance(data_mean, Array)
            self._data_mean = data_mean
        else:
            self._data_mean = jnp.zeros(n_features)
''', '''        data_mean = kwargs.get("data_mean", None)
        if data_mean is None:
            data_mean = jnp.zeros(n_features)
        assert isinstance(data_mean, Array)
        self._data_mean = data_mean
'''))
r('rq-whiten-stop', RQ,
  ('''        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
        y, log_det = self.__call__(x)
        log_det = log_det + self.base_dist.log_prob(y)
        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
        return log_det
''', '''        variance = jnp.diag(self.data_cov)
        whitened = (x - self.data_mean) / jnp.sqrt(variance)
        latent, log_det = self.forward(whitened)
        log_det_whitening = -0.5 * jnp.log(variance).sum()
        return self.base_dist.log_prob(latent) + log_det + log_det_whitening
'''))
r('rq-scan-helper', RQ,
  ('''            x, log_det_i = layers[0](x, condition)
            log_det += log_det_i
            x, log_det_i = layers[1](x, condition)
            return (x, log_det + log_det_i), None
''', '''            for layer in (layers[0], layers[1]):
                x, log_det_i = layer(x, condition)
                log_det = log_det + log_det_i
            return (x, log_det), None
'''))
r('rq-normalize', RQ,
  ('''    bin_sizes = jax.nn.softmax(unnormalized_bin_sizes, axis=-1)
    return bin_sizes * (total_size - num_bins * min_bin_size) + min_bin_size
''', '''    fractions = jax.nn.softmax(unnormalized_bin_sizes, axis=-1)
    free_size = total_size - num_bins * min_bin_size
    return min_bin_size + free_size * fractions
'''))
r('rq-clip-minmax', RQ,
  ('''    z = jnp.clip(z, 0.0, 1.0)
    sq_z = z * z
    z1mz = z - sq_z  # z(1-z)
    sq_1mz = (1.0 - z) ** 2
''', '''    z = jnp.minimum(jnp.maximum(z, 0.0), 1.0)
    one_minus_z = 1.0 - z
    sq_z = z**2
    z1mz = z * one_minus_z
    sq_1mz = one_minus_z * one_minus_z
'''))
r('rq-root-choice', RQ,
  ('''    numerator = jnp.where(b >= 0, numerator_1, numerator_2)
    denominator = jnp.where(b >= 0, denominator_1, denominator_2)
    return numerator / denominator
''', '''    use_first = b >= 0
    numerator = jnp.where(use_first, numerator_1, numerator_2)
    denominator = jnp.where(use_first, denominator_1, denominator_2)
    return numerator / denominator
'''))
r('rq-bin-sum', RQ,
  ('''    params_bin_left = jnp.sum(correct_bin[:, None] * params[:-1], axis=0)
    params_bin_right = jnp.sum(correct_bin[:, None] * params[1:], axis=0)

    x_pos_bin = (params_bin_left[0], params_bin_right[0])
    y_pos_bin = (params_bin_left[1], params_bin_right[1])
    knot_slopes_bin = (params_bin_left[2], params_bin_right[2])

    bin_width''', '''    select = correct_bin[:, None]
    params_bin_left = (select * params[:-1]).sum(axis=0)
    params_bin_right = (select * params[1:]).sum(axis=0)

    x_pos_bin, y_pos_bin, knot_slopes_bin = (
        (params_bin_left[k], params_bin_right[k]) for k in range(3)
    )

    bin_width'''))
r('coupling-summed', CM,
  ('''        y, log_det = self.bijector(x, x * self.mask)  # type: ignore
        y = (1 - self.mask) * y + self.mask * x
        log_det = ((1 - self.mask) * log_det).sum()
        return y, log_det
''', '''        mask = self.mask
        moved = 1 - mask
        y, log_det = self.bijector(x, mask * x)  # type: ignore
        return moved * y + mask * x, jnp.sum(moved * log_det)
'''))
r('affine-shared', CM,
  ('''        scale = jnp.tanh(self.scale_MLP(condition)) * self.dt
        shift = self.shift_MLP(condition) * self.dt
        log_det = scale
        y = (x + shift) * jnp.exp(scale)
        return y, log_det
''', '''        shift = self.dt * self.shift_MLP(condition)
        scale = self.dt * jnp.tanh(self.scale_MLP(condition))
        factor = jnp.exp(scale)
        return x * factor + shift * factor, scale
'''))
r('gaussian-stop', CM,
  ('''        if self.learnable:
            return self._cov
        else:
            return jax.lax.stop_gradient(self._cov)
''', '''        cov = self._cov
        if not self.learnable:
            cov = jax.lax.stop_gradient(cov)
        return cov
'''))
r('composable-sum', CM,
  ('''        log_prob = 0
        for dist, (_, ranges) in zip(self.distributions, self.partitions.items()):
            log_prob += dist.log_prob(x[ranges[0] : ranges[1]])
        return log_prob
''', '''        parts = [
            dist.log_prob(x[start:stop])
            for dist, (start, stop) in zip(self.distributions, self.partitions.values())
        ]
        return sum(parts)
'''))
r('nfb-best-helper', NFB,
  ('''            if loss_values[epoch] < best_loss:
                best_model = model
                best_state = state
                best_loss = loss_values[epoch]
''', '''            improved = loss_values[epoch] < best_loss
            if improved:
                best_model, best_state, best_loss = model, state, loss_values[epoch]
'''))
r('nfb-whiten-tuple', NFB,
  ('''        model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
''', '''        model = eqx.tree_at(
            lambda m: (m._data_mean, m._data_cov),
            model,
            (data.mean(axis=0), jnp.cov(data, rowvar=False)),
        )
'''))
r('nfb-loss-negmean', NFB,
  ('''        return -jnp.mean(jax.vmap(self.log_prob)(x))
''', '''        log_probs = jax.vmap(self.log_prob)(x)
        return jnp.mean(-log_probs)
'''))
r('pt-exchange-helper', PT,
  ('''        positions = jax.lax.cond(
            do_accept,
            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(
                positions, swapped, idx, axis=0
            ),
            false_fun=lambda: positions,
        )
        swapped = jnp.flip(
            jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0), axis=0
        )
        log_probs = jax.lax.cond(
            do_accept,
            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(
                log_probs, swapped, idx, axis=0
            ),
            false_fun=lambda: log_probs,
        )
''', '''        exchanged = jax.lax.dynamic_update_slice_in_dim(
            positions, swapped, idx, axis=0
        )
        positions = jnp.where(do_accept, exchanged, positions)
        swapped = jnp.flip(
            jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0), axis=0
        )
        exchanged = jax.lax.dynamic_update_slice_in_dim(
            log_probs, swapped, idx, axis=0
        )
        log_probs = jnp.where(do_accept, exchanged, log_probs)
'''))
r('pt-exchange-at', PT,
  ('''        swapped = jnp.flip(
            jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0), axis=0
        )
        log_probs = jax.lax.cond(
            do_accept,
            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(
                log_probs, swapped, idx, axis=0
            ),
            false_fun=lambda: log_probs,
        )
''', '''        lower, upper = log_probs[idx], log_probs[idx + 1]
        log_probs = log_probs.at[idx].set(jnp.where(do_accept, upper, lower))
        log_probs = log_probs.at[idx + 1].set(jnp.where(do_accept, lower, upper))
'''))
r('nf-body-select', K + 'NF_proposal.py',
  ('''            position_current = jnp.where(do_accept, position_proposal, position_initial)
            log_prob_current = jnp.where(do_accept, log_prob_proposal, log_prob_initial)
            log_prob_nf_current = jnp.where(
                do_accept, log_prob_nf_proposal, log_prob_nf_initial
            )
''', '''            proposal = (position_proposal, log_prob_proposal, log_prob_nf_proposal)
            current = (position_initial, log_prob_initial, log_prob_nf_initial)
            position_current, log_prob_current, log_prob_nf_current = jax.tree.map(
                lambda new, old: jnp.where(do_accept, new, old), proposal, current
            )
'''))
r('nf-ragged-slice', K + 'NF_proposal.py',
  ('''                        jax.lax.dynamic_slice_in_dim(
                            proposed_position,
                            (n_batch - 1) * self.n_batch_size,
                            n_steps - (n_batch - 1) * self.n_batch_size,
                        ),
''', '''                        proposed_position[(n_batch - 1) * self.n_batch_size :],
'''))
r('tm-window-var', 'strategy/train_model.py',
  ('''        training_data = data_resource.data[
            jnp.isfinite(data_resource.data).all(axis=-1)
        ].reshape(n_chains, -1, n_dims)
        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
''', '''        samples = data_resource.data
        recorded = jnp.all(jnp.isfinite(samples), axis=-1)
        training_data = samples[recorded].reshape(n_chains, -1, n_dims)
        window = self.history_window
        training_data = training_data[:, -window:, :].reshape(-1, n_dims)
'''))
r('hmc-carry-step', K + 'HMC.py',
  ('''        position = position + self.step_size * self.leapfrog_coefs[index][0] * jax.grad(
            kinetic
        )(momentum, metric)
        momentum = momentum - self.step_size * self.leapfrog_coefs[index][1] * jax.grad(
            potential
        )(position, data)
''', '''        drift, kick = self.step_size * self.leapfrog_coefs[index]
        velocity = jax.grad(kinetic)(momentum, metric)
        position = position + drift * velocity
        force = jax.grad(potential)(position, data)
        momentum = momentum - kick * force
'''))
