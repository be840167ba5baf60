EXPRS = r'''
# elementwise
a + b
a - b
a * w
a / (pv[:, None])
a // 0.7
a % 0.7
-a
abs(a)
a ** 2
a ** 3
pv ** 0.5
pv ** -0.5
pv ** -1
2.0 ** c
jnp.exp(a)
jnp.log(pv)
jnp.log1p(pv)
jnp.expm1(a)
jnp.sqrt(pv)
jnp.square(a)
jnp.tanh(a)
jnp.sin(a)
jnp.cos(a)
jnp.sign(a)
jnp.floor(a)
jnp.ceil(a)
jnp.abs(a)
jnp.negative(a)
jnp.reciprocal(pv)
jnp.maximum(a, b)
jnp.minimum(a, w)
jnp.maximum(a, 0.3)
jnp.clip(a, -0.5, 0.5)
jnp.clip(a, w - 1, w + 1)
jnp.where(a > 0, a, b)
jnp.where(mb, a, 0.0)
jnp.where(vb[:, None], a, b)
jnp.where(a > b, a, w)
jnp.isfinite(a)
jnp.isnan(a)
jnp.logical_and(mb, a > 0)
jnp.logical_or(mb, a > 0)
jnp.logical_not(mb)
mb & (a > 0)
mb | (a > 0)
mb ^ (a > 0)
~mb
a > b
a >= b
a < b
a <= b
a == a
a != b
k == 1
k // 2
k % 2
k * 2 + 1
k / 2
k - 5
(k - 5) // 2
(k - 5) % 3
jnp.mod(k - 5, 3)
jnp.floor_divide(k - 5, 3)
jnp.remainder(a, 0.7)
jnp.power(pv, 1.5)
jnp.hypot(a, b)
jnp.logaddexp(a, b)
jnp.isclose(a, a)
jnp.nan_to_num(a, posinf=5.0, neginf=-5.0)
jnp.add(a, b)
jnp.subtract(a, b)
jnp.multiply(a, b)
jnp.divide(a, pv[:, None])
jnp.true_divide(a, pv[:, None])
jnp.exp2(a)
jax.nn.relu(a)
jax.nn.softplus(a)
jax.nn.sigmoid(a)
jax.nn.silu(a)
jax.nn.swish(a)
jax.nn.softmax(w)
jax.nn.softmax(a, axis=0)
jax.nn.softmax(a, axis=-1)
jax.nn.log_softmax(w)
jax.nn.one_hot(k, 3)
# reductions
a.sum()
a.sum(0)
a.sum(axis=1)
a.sum(axis=-1)
a.sum(axis=(0, 1))
t.sum(axis=(0, 2))
jnp.sum(a)
jnp.sum(a, 0)
jnp.sum(a, axis=1)
jnp.sum(a, axis=1, keepdims=True)
jnp.sum(a, axis=0, keepdims=True)
jnp.sum(a, keepdims=True)
jnp.sum(a, where=mb)
jnp.sum(a, axis=1, where=mb)
jnp.sum(a, axis=1, initial=1.0)
jnp.sum(mb)
jnp.sum(mb, axis=0)
jnp.sum(k)
jnp.mean(a)
jnp.mean(a, axis=0)
jnp.mean(a, axis=1, keepdims=True)
jnp.mean(mb)
jnp.mean(mb, axis=1)
jnp.mean(a, where=mb)
jnp.mean(k)
a.mean()
a.mean(0)
jnp.prod(w)
jnp.prod(a, axis=1)
jnp.prod(a, axis=1, keepdims=True)
a.prod()
jnp.max(a)
jnp.max(a, axis=0)
jnp.max(a, axis=1, keepdims=True)
jnp.max(a, initial=5.0)
jnp.min(a)
jnp.min(a, axis=-1)
jnp.amax(a, axis=0)
jnp.amin(a, axis=0)
jnp.max(a, axis=1, where=mb, initial=-9.0)
a.max()
a.min(0)
a.max(axis=1, keepdims=True)
jnp.all(mb)
jnp.all(mb, axis=1)
jnp.all(mb, axis=1, keepdims=True)
jnp.any(mb)
jnp.any(mb, axis=0)
jnp.any(mb, axis=0, keepdims=True)
jnp.all(a > -5)
mb.all()
mb.any(axis=1)
mb.all(axis=0, keepdims=True)
jnp.all(jnp.isfinite(a), axis=-1)
jnp.argmax(w)
jnp.argmin(w)
jnp.argmax(a, axis=1)
jnp.argmin(a, axis=0)
jnp.argmax(a)
a.argmax()
jnp.argmax(v > 0)
jnp.argmax(k)
jnp.argmin(k)
jnp.argmax(a, axis=1, keepdims=True)
jnp.cumsum(v)
jnp.cumsum(a, axis=0)
jnp.cumsum(a, axis=1)
jnp.cumsum(a)
jnp.cumprod(w)
jnp.cumsum(mb, axis=0)
jnp.cumsum(k)
jnp.var(v)
jnp.var(v, ddof=1)
jnp.std(v)
jnp.std(a, axis=0)
jnp.var(a, axis=1, ddof=1)
jnp.cov(a.T)
jnp.cov(a, rowvar=False)
jnp.cov(a)
jnp.cov(a.T, ddof=0)
jnp.cov(a.T, bias=True)
jnp.median(v)
jnp.count_nonzero(mb)
jnp.count_nonzero(mb, axis=0)
jnp.trace(sq)
jnp.trace(a)
jnp.trace(a.T)
jnp.trace(sq[:, :-1])
jnp.trace(sq[:, :-2])
jnp.diag(a)
jnp.diag(a.T)
jnp.diag(sq[:-1])
jnp.diagonal(a)
jnp.ptp(v)
jnp.average(v)
jnp.average(v, weights=pv)
jnp.nansum(a)
jnp.nanmean(a)
jnp.nanmax(a)
jnp.nanmin(a)
jnp.logsumexp(w)
jsp.special.logsumexp(w)
jax.nn.logsumexp(w)
jax.nn.logsumexp(a, axis=1)
jax.nn.logsumexp(a, axis=1, keepdims=True)
jax.nn.logsumexp(a, b=a * a)
# shapes
a.T
a.transpose()
jnp.transpose(t, (1, 0, 2))
t.transpose(2, 0, 1)
t.transpose((2, 0, 1))
jnp.swapaxes(t, 0, 2)
jnp.moveaxis(t, 0, -1)
jnp.moveaxis(t, -1, 0)
a.reshape(-1)
a.reshape(m, n)
a.reshape((m * n,))
a.reshape(-1, 1)
a.reshape(n, m, 1)
a.reshape(1, -1)
t.reshape(n, -1)
t.reshape(-1, m)
t.reshape(n * m, m)
jnp.reshape(a, (m, -1))
jnp.ravel(a)
a.flatten()
a[:, None]
a[..., None]
a[None]
a[None, :, 0]
jnp.expand_dims(a, 0)
jnp.expand_dims(a, -1)
jnp.expand_dims(a, (0, 2))
jnp.squeeze(row)
jnp.squeeze(row, 0)
jnp.squeeze(row, axis=0)
jnp.atleast_1d(c)
jnp.atleast_2d(v)
jnp.broadcast_to(w, (n, m))
jnp.broadcast_to(c, (n,))
jnp.tile(w, 2)
jnp.tile(w, (n, 1))
jnp.tile(a, (2, 2))
jnp.repeat(v, 2)
jnp.repeat(a, 2, axis=0)
jnp.repeat(a, 2, axis=1)
jnp.repeat(a, 2)
jnp.concatenate([a, b])
jnp.concatenate([a, b], axis=0)
jnp.concatenate([a, b], axis=1)
jnp.concatenate([v, w])
jnp.concatenate([v[:1], w, v[1:]])
jnp.concatenate((a, row), axis=0)
jnp.stack([a, b])
jnp.stack([a, b], axis=1)
jnp.stack([a, b], axis=-1)
jnp.stack([v, v * 2, v + 1], axis=1)
jnp.vstack([a, b])
jnp.vstack([w, w])
jnp.hstack([a, b])
jnp.hstack([v, w])
jnp.column_stack([v, v])
jnp.append(v, 3.0)
jnp.append(v, w)
jnp.append(a, row, axis=0)
jnp.append(a, b)
jnp.flip(v)
jnp.flip(a)
jnp.flip(a, 0)
jnp.flip(a, axis=1)
jnp.flip(a, axis=(0, 1))
jnp.roll(v, 1)
jnp.roll(v, -1)
jnp.roll(a, 1, axis=0)
jnp.roll(a, 1, axis=1)
jnp.roll(a, 2)
jnp.roll(v, 7)
jnp.split(v, 2)
jnp.split(a, [1], axis=0)
jnp.split(a, [1, 2], axis=1)
jnp.split(v, [1, 3])
jnp.array_split(v, 2)
jnp.diff(v)
jnp.diff(a, axis=0)
jnp.diff(a)
jnp.diff(v, n=2)
jnp.pad(v, 1)
jnp.pad(v, (1, 2))
jnp.pad(a, ((1, 0), (0, 2)))
jnp.pad(v, (1, 0), constant_values=3.0)
jnp.pad(a, ((0, 0), (1, 1)), mode='edge')
jnp.pad(v, (1, 1), mode='constant', constant_values=-1.0)
jnp.pad(v, (0, 2), mode='edge')
jnp.pad(v, (1, 1), mode='wrap')
jnp.diag(w)
jnp.diag(sq)
jnp.diagonal(sq)
jnp.diag(sq, 1)
jnp.diag(w, 1)
jnp.diagonal(t, axis1=1, axis2=2)
jnp.tril(sq)
jnp.triu(sq)
jnp.tril(sq, -1)
jnp.triu(sq, 1)
jnp.eye(m)
jnp.eye(3)
jnp.eye(n, m)
jnp.eye(m, k=1)
jnp.identity(m)
jnp.zeros((n, m))
jnp.ones(m)
jnp.full((n,), 2.5)
jnp.full((n, m), w)
jnp.zeros_like(a)
jnp.ones_like(a)
jnp.full_like(a, -1.0)
jnp.full_like(k, 2)
jnp.empty((n,)).shape
jnp.arange(n)
jnp.arange(1, n)
jnp.arange(0, n, 2)
jnp.arange(n, 0, -1)
jnp.arange(1, 7, 2)
jnp.arange(0.0, 1.0, 0.25)
jnp.linspace(0, 1, n)
jnp.linspace(-1.0, 2.0, 5)
jnp.linspace(0, 1, n, endpoint=False)
jnp.meshgrid(v, w)
jnp.meshgrid(v, w, indexing='ij')
jnp.ndim(a)
jnp.shape(a)
jnp.size(a)
a.shape
a.ndim
a.size
len(a)
a.astype(int)
a.astype(jnp.int32)
mb.astype(float)
mb.astype(int) + 1
k.astype(float) / 2
k.astype(bool)
a.astype(bool)
jnp.asarray(a, dtype=int)
jnp.float32(1.5)
jnp.array([1.0, 2.0, 3.0])
jnp.array([[1, 2], [3, 4]])
jnp.array([c, c * 2])
jnp.array([v, v])
jnp.asarray([True, False])
jnp.array(3)
# indexing
a[0]
a[-1]
a[1, 2]
a[-1, -1]
a[:, 0]
a[:, -1]
a[1:]
a[:-1]
a[1:3]
a[::2]
a[1::2]
a[::-1]
a[:, ::-1]
a[-2:]
a[:, 1:]
a[:2, 1:]
a[..., 0]
a[0, ...]
t[:, 0]
t[:, :, 0]
t[..., -1]
t[0, :, 1]
v[k]
a[k]
a[k, 0]
a[:, jnp.array([0, 2])]
a[jnp.array([0, 1]), jnp.array([1, 2])]
a[jnp.arange(n), k]
a[k[:, None], jnp.arange(m)]
a[j]
a[j, j]
v[j]
v[-j]
a[j:]
a[vb.astype(int)]
a.at[0].set(1.0)
a.at[0].set(w)
a.at[-1].set(w)
a.at[:, 0].set(v)
a.at[1, 2].set(5.0)
a.at[1:3].set(0.0)
a.at[1:].set(b[1:])
a.at[::2].set(b[::2])
a.at[:, 1:].add(1.0)
a.at[0].add(w)
a.at[0].multiply(2.0)
a.at[j].set(w)
a.at[j].add(w)
a.at[j, 0].set(3.0)
v.at[j].set(9.0)
v.at[jnp.array([0, 2])].set(1.0)
v.at[jnp.array([0, 2])].set(jnp.array([7.0, 8.0]))
v.at[k].add(1.0)
a.at[:, j].set(v)
a.at[0].min(w)
a.at[0].max(0.1)
a.at[0].get()
a.at[0].divide(2.0)
a.at[0].power(2)
jnp.take(v, k)
jnp.take(a, k, axis=0)
jnp.take(a, jnp.array([2, 0]), axis=1)
jnp.take(v, j)
jnp.take_along_axis(a, k[:, None], axis=1)
jnp.delete(v, 1)
jnp.insert(v, 1, 5.0)
lax.dynamic_slice(v, (j,), (2,))
lax.dynamic_slice(v, (j + 1,), (3,))
lax.dynamic_slice(a, (j, 0), (2, 2))
lax.dynamic_slice(a, (0, j), (2, 2))
lax.dynamic_slice_in_dim(v, j, 2)
lax.dynamic_slice_in_dim(a, j, 2, axis=0)
lax.dynamic_slice_in_dim(a, j + 1, 3, axis=0)
lax.dynamic_slice_in_dim(a, j - 5, 2, axis=0)
lax.dynamic_slice_in_dim(a, -1, 1, axis=0)
lax.dynamic_index_in_dim(a, j)
lax.dynamic_index_in_dim(a, j, keepdims=False)
lax.dynamic_index_in_dim(a, j, axis=1, keepdims=False)
lax.dynamic_index_in_dim(a, j + 7, keepdims=False)
lax.dynamic_update_slice(v, w[:2], (j,))
lax.dynamic_update_slice(v, w[:2], (j + 1,))
lax.dynamic_update_slice(a, b[:2], (j, 0))
lax.dynamic_update_slice(a, b[:2], (j + 1, 0))
lax.dynamic_update_slice_in_dim(v, w[:2], j, axis=0)
lax.dynamic_update_slice_in_dim(v, w, j, axis=0)
lax.dynamic_update_slice_in_dim(a, b[:2], j, axis=0)
lax.dynamic_update_slice_in_dim(a, b[:, :1], j, axis=1)
lax.dynamic_update_slice_in_dim(v, w[:2], -1, axis=0)
lax.dynamic_update_slice_in_dim(v, w[:2], j - 7, axis=0)
lax.dynamic_update_index_in_dim(a, w, j, 0)
lax.slice_in_dim(a, 1, 3)
lax.index_in_dim(a, 1, keepdims=False)
lax.select(mb, a, b)
lax.clamp(-0.5, a, 0.5)
lax.rev(a, (0,))
lax.stop_gradient(a)
lax.reduce_sum(v, (0,)) if False else v
a[7]
a[-9]
v[k + 3]
v[j + 9]
a[j + 9]
v.at[9].set(1.0)
v.at[j + 9].set(1.0)
v.at[-9].set(1.0)
v.at[j - 9].add(1.0)
v[-2:][0]
v[1:-1]
v[3:1].shape
v[10:].shape
v[:10]
v[-10:2]
v[::-2]
v[3:0:-1]
v[2::-1]
a.at[1:].set(a[:-1])
a.at[::-1].set(b)
a.at[:, ::2].set(0.0)
a.at[...].set(b)
a.at[..., 0].set(0.0)
v.at[1:].add(v[:-1])
a.argmin(axis=1)
a.std()
a.var(axis=0, ddof=1)
jnp.std(a, axis=1, keepdims=True)
jnp.mean(a, axis=(0, 1))
jnp.mean(a, axis=1, where=mb | (a < 5))
jnp.any(mb, where=a > 0)
jnp.all(mb, where=a > 0)
jnp.sum(a, dtype=int)
jnp.cumsum(a, -1)
jnp.max(k)
jnp.min(k)
jnp.max(jnp.arange(n))
jnp.sum(jnp.arange(n))
jnp.sum(k > 0) / n
jnp.average(a, axis=0, weights=pv)
jnp.vdot(a, b)
jnp.diag(t[0])
jnp.repeat(v, n)
jnp.tile(v, n)
jnp.tile(v[None], (n, 1))
jnp.repeat(v[None], 3, axis=0)
jnp.arange(n) % 2
jnp.arange(n) // 2
jnp.arange(n)[::-1]
jnp.arange(3) * c
jnp.where(jnp.arange(n) < 2, v, -v)
jnp.where(jnp.arange(n) % 2 == 0, v, 0.0)
(jnp.arange(n)[:, None] == jnp.arange(m)[None]).astype(float)
jnp.concatenate([jnp.zeros(1), jnp.cumsum(w)])
jnp.concatenate([v[None], v[None] * 2], axis=0)
jnp.linalg.inv(spd) @ spd
jnp.linalg.cholesky(spd) @ jnp.linalg.cholesky(spd).T
jnp.linalg.det(jnp.eye(3) * 2)
jnp.linalg.inv(jnp.eye(m) * 2.0)
jnp.exp(jnp.log(pv) * 0.5)
jnp.log(jnp.exp(a))
jnp.sqrt(pv) ** 3
jnp.exp(a) ** 0.5
(a ** 2) ** 0.5
jnp.sqrt(a ** 2)
jnp.log(pv ** 2)
jnp.sqrt(pv * 2) * jnp.sqrt(pv)
a ** 2 / a ** 2
1 / (1 + jnp.exp(-a))
jnp.log(1 / pv)
jnp.exp(a + b) - jnp.exp(a) * jnp.exp(b)
abs(a) - jnp.sqrt(a * a)
jnp.sign(a) * abs(a)
jnp.floor(a * 3) / 3
jnp.maximum(jnp.minimum(a, 1.0), -1.0)
jnp.where(a > 0, jnp.log(jnp.where(a > 0, a, 1.0)), 0.0)
(a > 0) * a
jnp.mean((a - a.mean(0)) ** 2, axis=0)
jnp.tanh(a) * jnp.tanh(-a)
k // -2
-k // 2
(-k) % 3
(k - 2) // 2 * 2 + (k - 2) % 2
jnp.array([1, 2, 3]).at[0].set(5)
jnp.array([1.0, 2.0])[jnp.array([1, 0, 1])]
jnp.bitwise_and(k > 0, k < 2)
# linear algebra
a @ w
w @ w
sq @ sq
a.T @ b
t @ w
t @ sq
v @ a
jnp.dot(a, w)
jnp.dot(a, sq)
jnp.dot(v, a)
jnp.dot(w, w)
jnp.dot(c, a)
jnp.matmul(a, sq)
jnp.matmul(t, t)
jnp.vdot(w, w)
jnp.inner(w, w)
jnp.inner(a, b)
jnp.outer(v, w)
jnp.einsum('ij,j->i', a, w)
jnp.einsum('ij,ij->', a, b)
jnp.einsum('ij,kj->ik', a, b)
jnp.einsum('i,i', w, w)
jnp.einsum('ij->ji', a)
jnp.einsum('ii->i', sq)
jnp.einsum('ii', sq)
jnp.einsum('bij,j->bi', t, w)
jnp.tensordot(a, w, axes=1)
jnp.tensordot(a, b, axes=2)
jnp.linalg.inv(spd)
jnp.linalg.cholesky(spd)
jnp.linalg.det(spd)
jnp.linalg.slogdet(spd)[1]
jnp.linalg.slogdet(spd)[0]
jnp.linalg.solve(spd, w)
jnp.linalg.solve(spd, sq)
jnp.linalg.norm(w)
jnp.linalg.norm(a)
jnp.linalg.norm(a, axis=1)
jnp.linalg.norm(a, axis=0, keepdims=True)
jnp.linalg.norm(w, ord=1)
jnp.linalg.norm(w, 2)
jnp.linalg.norm(w, jnp.inf)
jnp.linalg.multi_dot([sq, spd, w])
jsp.linalg.solve_triangular(jnp.linalg.cholesky(spd), w, lower=True)
jsp.linalg.solve_triangular(jnp.linalg.cholesky(spd).T, w, lower=False)
jsp.linalg.solve_triangular(jnp.linalg.cholesky(spd), w, lower=True, trans=1)
jsp.linalg.cho_solve((jnp.linalg.cholesky(spd), True), w)
jsp.linalg.cholesky(spd, lower=True)
jsp.linalg.cholesky(spd)
jsp.linalg.inv(spd)
jsp.linalg.solve(spd, w)
jsp.linalg.cho_solve(jsp.linalg.cho_factor(spd), w)
jsp.stats.norm.logpdf(a)
jsp.stats.norm.logpdf(a, loc=c, scale=2.0)
jsp.stats.multivariate_normal.logpdf(w, jnp.zeros(m), spd)
jsp.stats.multivariate_normal.logpdf(w, w * 0.5, jnp.eye(m))
jsp.stats.multivariate_normal.logpdf(a, w, spd)
# control flow and transforms
jax.vmap(lambda i: v[i])(jnp.arange(n))
jax.vmap(lambda i, x: x[i], in_axes=(0, None))(k, w)
jax.vmap(lambda x, y: jnp.dot(x, y))(a, b)
jax.vmap(lambda x: lax.scan(lambda s, y: (s + y, s), 0.0, x))(a)
jax.vmap(lambda x: jnp.where(x.sum() > 0, x, -x))(a)
jax.vmap(lambda x: lax.cond(x.sum() > 0, lambda: x, lambda: -x))(a)
jax.vmap(lambda d: d['p'] * d['q'])({'p': v, 'q': v + 1})
jax.vmap(lambda d, y: d['p'] * y, in_axes=({'p': 0}, None))({'p': v}, c)
jax.vmap(lambda x, y: x + y, in_axes=(None, 0), out_axes=1)(w, v)
jax.vmap(lambda x: (x, x.sum()), out_axes=(1, 0))(a)
lax.scan(lambda s, x: (jnp.maximum(s, x), s), -9.0, v)
lax.scan(lambda s, x: (s + 1, v[s]), 0, None, length=4)
lax.scan(lambda s, x: (s, x * 2), None, v)[1]
lax.scan(lambda s, x: (s, {'y': x * s}), c, v)[1]
lax.scan(lambda s, x: (jnp.where(x > 0, x, s), s), c, v)
lax.scan(lambda s, xs: (s * xs[0] + xs[1], s), c, (v, pv), reverse=True)
lax.while_loop(lambda s: s < 5, lambda s: s + 2, 0)
lax.fori_loop(0, n, lambda i, x: x + v[i], 0.0)
lax.fori_loop(0, n, lambda i, x: x.at[i].add(1.0), v)
lax.fori_loop(0, 0, lambda i, x: x + 1, c)
jax.tree_util.tree_leaves({'b': v, 'a': w})
jax.tree_util.tree_map(lambda x: x.sum(), [v, (w, c)])
eqx.filter_vmap(lambda x: x * 2)(a)
eqx.filter_vmap(lambda x, y: x * y, in_axes=(0, None))(a, w)
eqx.filter_jit(lambda x: x + 1)(v)
eqx.tree_at(lambda d: d['p'], {'p': v, 'q': w}, v + 1)
jax.vmap(lambda x: x.sum())(a)
jax.vmap(lambda x, y: x * y)(a, v)
jax.vmap(lambda x, y: x * y, in_axes=(0, None))(a, w)
jax.vmap(lambda x: x * 2, in_axes=1)(a)
jax.vmap(lambda x: x * 2, in_axes=1, out_axes=1)(a)
jax.vmap(lambda x, y: (x.sum(), y + x), in_axes=(0, None))(a, w)
jax.vmap(jax.vmap(lambda x: x ** 2))(a)
jax.vmap(lambda x: {'p': x, 'q': x.sum()})(a)
lax.map(lambda x: x.sum(), a)
lax.scan(lambda s, x: (s + x, s), 0.0, v)
lax.scan(lambda s, x: (s * x + 1, s - x), 0.5, v, reverse=True)
lax.scan(lambda s, x: (s + x[0], x[1] * s), jnp.zeros(m), (a, b))
lax.scan(lambda s, _: (s * 0.5, s), c, None, length=3)
lax.scan(lambda s, i: (s.at[i].set(i * 1.0), s.sum()), v, jnp.arange(n))
lax.scan(lambda s, x: ((s[0] + x, s[1] * x), s[0]), (c, 1.0), v)
lax.fori_loop(0, 3, lambda i, x: x * 2 + i, c)
lax.fori_loop(1, 4, lambda i, x: x.at[i - 1].set(i * 1.0), v)
lax.cond(c > 0, lambda: a, lambda: b)
lax.cond(c > 0, lambda x: x + 1, lambda x: x - 1, v)
lax.cond(j == 2, lambda x, y: x, lambda x, y: y, v, v * 2)
lax.switch(j, [lambda x: x, lambda x: x * 2, lambda x: x * 3], v)
lax.switch(j + 5, [lambda x: x, lambda x: x * 2, lambda x: x * 3], v)
lax.select(c > 0, v, -v)
jax.grad(lambda x: (x ** 2).sum())(w)
jax.grad(lambda x: jnp.exp(x).sum() * c)(w)
jax.value_and_grad(lambda x: (x * w).sum())(w)
jax.jit(lambda x: x + 1)(v)
jax.tree_util.tree_map(lambda x: x + 1, {'p': v, 'q': w})
jax.tree.map(lambda x, y: x + y, (v, w), (v, w))
jax.lax.associative_scan(jnp.add, v)
jnp.vectorize(lambda x: x * 2)(v)
jnp.sort(w)
jnp.argsort(w)
jnp.unique(k)
jnp.nonzero(vb)
jnp.searchsorted(jnp.cumsum(pv), 1.0)
jnp.searchsorted(jnp.cumsum(pv), 1.0, side='right')
jnp.select([a > 1, a > 0], [a, b], 0.0)
jnp.piecewise(v, [v > 0], [lambda x: x, lambda x: -x])
jnp.array_equal(a, a)
jnp.allclose(a, a)
jnp.interp(c, jnp.cumsum(pv), v)
jnp.triu_indices(3)
jnp.ix_(jnp.arange(2), jnp.arange(2))
jnp.round(a)
jnp.trunc(a)
jnp.fmod(a, 0.7)
jnp.heaviside(a, 0.5)
jnp.cross(w, w * 2)
jnp.kron(w, w)
jnp.percentile(v, 50)
jnp.quantile(v, 0.25)
min(3, 5)
max(n, 3)
sum([c, c])
int(7 // 2)
n // 2
n % 3
-n // 3
(n + 2) // 3
n * m - 1
n > 3
float(c)
bool(c > -100)
'''
