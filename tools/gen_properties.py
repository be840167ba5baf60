#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are reviewable)."""
import json, os
S='src/flowMC/'
def P(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(text.split())),why_tests_cant=' '.join(why.split()),
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],**kw))
    return d
L=[]
L.append(P('C01','Random-walk and Langevin steps are exact Metropolis-Hastings updates',
"""For every target density, position, step size, dimension and random key, one step of the Gaussian random walk proposes
position + step*noise and one step of the Langevin sampler proposes position + step^2/2 * gradient(position) + step*noise, with
standard normal noise. The step moves to the proposal exactly when the log of an independent uniform draw is below the Metropolis-Hastings
log ratio of the target density and of that very proposal density (forward and backward), and stays where it was otherwise, so
the target is left invariant.""",['inputs'],
"all differentiable targets, positions, step sizes > 0, dimensions and keys",
"Tests only run a few steps on a 2-d standard normal and check moments to 3e-2; a wrong proposal correction is invisible for small steps or symmetric targets.",
['resource/kernel/Gaussian_random_walk.py','resource/kernel/MALA.py'],
[('GaussianRandomWalk.kernel','resource/kernel/Gaussian_random_walk.py'),('MALA.kernel','resource/kernel/MALA.py')]))
L.append(P('C02','A Hamiltonian step leaves the target invariant for any metric',
"""For every target, position, step size, number of leapfrog steps and symmetric positive definite mass preconditioner (a matrix, or
the scalar default), the momentum drawn has exactly the Gaussian law whose energy is charged in the acceptance test. The
integrator is time reversible (negating the momentum and integrating again returns to the start) and volume preserving for every
trajectory length, and the proposal is accepted exactly when the log of an independent uniform is below initial minus final total energy.""",
['inputs','configurations'],"all smooth targets, positions, step sizes, leapfrog counts >= 0, SPD condition matrices and keys",
"Tests only use the identity metric on a standard normal, where a wrong kinetic energy, scaling or integrator coefficient cannot show.",
['resource/kernel/HMC.py'],[('HMC.kernel, leapfrog_step, leapfrog_kernel, leapfrog_coefs','resource/kernel/HMC.py')]))
L.append(P('C03','The global flow step is an exact independence sampler at any batch size',
"""For every target, flow, starting point, number of steps and proposal batch size (divisible or not), the global step draws exactly the
requested number of proposals from the flow and tests each one once, in order, against the state left by the previous test. Proposal k
is accepted exactly when the log of a fresh uniform is below [target(proposal k) - target(current)] - [flow density(proposal k) - flow
density(current)], each density being that of this very point, so the target is left invariant.""",
['inputs','configurations'],"all targets, flows, positions, n_steps >= 1, batch sizes >= 1 and keys",
"Tests run 11 and 5 steps with batch size 5 and a target equal to the flow, where every ratio is 0: a mispaired density cannot be seen.",
['resource/kernel/NF_proposal.py','strategy/take_steps.py'],[('NFProposal.kernel, sample_flow','resource/kernel/NF_proposal.py'),('TakeGroupSteps.sample','strategy/take_steps.py')]))
L.append(P('C04','Reported position, log density and acceptance flag always agree',
"""Every step of every sampler (random walk, Langevin, Hamiltonian, flow) returns a position that is either the proposal it made or the
position it was given, and its acceptance flag says which. Whenever the log density handed in is the target's value at the given
position for the given data, the log density returned is the target's value at the returned position for that data, and so the
recorded log densities are those of the recorded positions all along a run.""",['inputs','histories'],
"all targets, data, positions, keys, numbers of steps",
"Tests check shapes and determinism of a few steps; agreement must hold at every step of every history.",
['resource/kernel/Gaussian_random_walk.py','resource/kernel/MALA.py','resource/kernel/HMC.py','resource/kernel/NF_proposal.py','strategy/take_steps.py'],
[('kernel methods','resource/kernel'),('TakeSerialSteps.sample / TakeGroupSteps.sample','strategy/take_steps.py')]))
L.append(P('C05','A chain never moves to a point of NaN or minus-infinite density',
"""Under IEEE floating point, whatever values (including NaN, infinities and overflowed intermediates) the target, its gradient, the
flow density and the draws take, no sampler step moves to a proposal whose target log density is NaN or minus infinity. In such a step the
previous position is returned unchanged and the acceptance flag is false.""",['inputs'],
"all float values of every quantity entering the acceptance test",
"Tests use smooth finite targets only; the rejection relies on the direction of one comparison and on how NaN propagates through it.",
['resource/kernel/Gaussian_random_walk.py','resource/kernel/MALA.py','resource/kernel/HMC.py','resource/kernel/NF_proposal.py'],
[('do_accept computation','resource/kernel')]))
L.append(P('C06','A sampling run records exactly its own consecutive iterates',
"""After a sampling strategy runs n steps with thinning t, the position, log-density and acceptance buffers hold, from the current write
position on, exactly iterates 1, 1+t, 1+2t, ... of every chain, in order and at matching slots, and every other entry is unchanged. The
write position advances by the number of samples written, and the position handed to the next strategy is the last recorded one.
Iterate 1 starts from the given initial position and its target value, and each later iterate from its predecessor's position and log density.""",
['inputs','histories','configurations'],"all kernels, numbers of steps, thinnings (dividing or not), chains, write positions within the buffer",
"Tests check shapes for one configuration with thinning 1; content, order, frame and continuation are never compared.",
['strategy/take_steps.py','resource/buffers.py'],[('TakeSteps.__call__, TakeSerialSteps.sample/body','strategy/take_steps.py'),('Buffer.update_buffer','resource/buffers.py')]))
L.append(P('C07','Chains are independent and batching them changes nothing',
"""Each chain's recorded positions, log densities and acceptances depend only on that chain's own initial position, its own random key and
the shared target, kernel and data, never on another chain. Running the chains in batches of any size (dividing the number of chains or not)
gives, chain by chain, the same result as running them all at once.""",['inputs','configurations'],
"all numbers of chains, batch sizes, kernels, targets and keys",
"One test runs batch size 2 with 5 chains and only checks the shape.",
['strategy/take_steps.py'],[('TakeSteps.__call__ chain batching','strategy/take_steps.py')]))
L.append(P('C08','The preset pipelines fill their buffers and freeze adaptation in production',
"""A complete run of either preset (with or without parallel tempering) with any step counts, thinnings and loop counts writes every slot of the
training and production buffers exactly once: local and global segments alternate contiguously without gap or overlap, and the loss buffer holds
every epoch. Once production starts, the training buffers, loss history, flow, optimizer state, global proposal and temperature ladder no
longer change; during training, every global step uses the flow as just trained.""",['configurations','histories'],
"all numbers of local/global steps, thinnings, training and production loops, epochs",
"Tests only construct the presets (and one quickstart script runs one configuration with thinning 1).",
['resource_strategy_bundle/RQSpline_MALA.py','resource_strategy_bundle/RQSpline_MALA_PT.py','strategy/take_steps.py','strategy/train_model.py','strategy/update_state.py'],
[('bundle constructors, strategy_order, cursor lambdas','resource_strategy_bundle'),]))
L.append(P('C09','Parallel tempering leaves the joint tempered distribution invariant',
"""Within one call every replica is advanced by its own kernel steps on log-likelihood/T + log-prior at its own temperature. Adjacent
replicas are then swapped one pair at a time, position and log-likelihood together, exactly when the log of a fresh uniform is below
(1/T_colder - 1/T_hotter) * (hotter minus colder log-likelihood), so replicas are only ever permuted within a chain. The cold replica's
position is handed on and the other replicas are kept for the next call, in training and in production.""",['inputs','histories'],
"all likelihoods, priors, positive temperature ladders, numbers of chains, temperatures and steps, and keys",
"Tests check shapes of each internal step for one ladder; a wrong sign, a stale log density or a lost replica keeps all shapes.",
['strategy/parallel_tempering.py','resource/logPDF.py'],[('ParallelTempering._individual_step_body/_individal_step/_ensemble_step/_exchange_step_body/_exchange/__call__','strategy/parallel_tempering.py'),('TemperedPDF.tempered_log_pdf','resource/logPDF.py')]))
L.append(P('C10','Temperature adaptation keeps a valid ladder and stops after training',
"""Adapting a strictly increasing temperature ladder never changes the coldest and the hottest temperature, and every new interior
temperature is the new one below it plus the old gap scaled by a positive factor that depends only on the swap rates of the two pairs it separates:
unchanged when they are equal, larger when the colder pair swaps more. The ladder is only ever adapted while the sampler is in training.""",
['inputs','histories'],"all ladders, swap histories, numbers of chains and temperatures",
"One test checks the shape of the adapted ladder.",
['strategy/parallel_tempering.py'],[('ParallelTempering._adapt_temperature, __call__','strategy/parallel_tempering.py')]))
L.append(P('C11','The sampler runs the requested strategies in order and threads the state',
"""A run executes exactly the named strategies, once each and in the given order; each receives the key, resources and positions returned by
the one before it (the first: the sampler's key, its resources and the initial positions as a 2-d array) and always the user's data unchanged. An
unknown name raises an error at that point and nothing later runs. Explicit resources plus strategies take precedence over a preset, and
providing neither raises an error.""",['histories','configurations'],"all strategy sets, orders and lengths, data and initial positions",
"The quickstart script runs one order; no test observes what is threaded between strategies.",
['Sampler.py'],[('Sampler.__init__, Sampler.sample','Sampler.py')]))
L.append(P('C12','Flow transformations and their inverses undo each other exactly',
"""For all parameters and inputs (in exact arithmetic), the inverse of every coupling layer, affine, spline and whole flow model applied to its
forward output gives the input back, for any number of layers, features and bins, and the two reported log determinants are
negatives of each other. The forward log determinant is the logarithm of the absolute determinant of the actual Jacobian, and the spline
is continuous and strictly increasing over the whole real line.""",['inputs','configurations'],
"all weights, masks of zeros and ones, inputs, numbers of layers/features/bins",
"Tests check shapes and one round trip at initial weights, where the scalar affine layers are still the identity.",
['resource/model/common.py','resource/model/nf_model/rqSpline.py','resource/model/nf_model/realNVP.py'],
[('MaskedCouplingLayer, MLPAffine, ScalarAffine','resource/model/common.py'),('AffineCoupling, RealNVP.forward/inverse','resource/model/nf_model/realNVP.py'),('RQSpline, _rational_quadratic_spline_fwd/_inv, MaskedCouplingRQSpline.forward/inverse','resource/model/nf_model/rqSpline.py')]))
L.append(P('C13',"A flow's log density is the normalised density of what it samples",
"""For every weights, base distribution and whitening statistics, drawing from a normalizing flow means drawing from its base distribution and
applying the inverse map and the un-whitening, and its reported log density at any point is the base log density of the whitened,
forward-mapped point plus the log determinants of the forward map and of the whitening. The reported density therefore integrates to one
and is the density of the samples.""",['inputs','configurations'],"all weights, base distributions, data means and covariances, points",
"Tests check shapes of log_prob and sample; consistency between the two needs all inputs.",
['resource/model/nf_model/realNVP.py','resource/model/nf_model/rqSpline.py','resource/model/common.py'],
[('log_prob / sample','resource/model/nf_model'),('Gaussian','resource/model/common.py')]))
L.append(P('C14','Flow matching regresses the right velocity and reports the right density',
"""The interpolation path starts at the base sample at time 0 and ends at the data sample at time 1, and its reported velocity is its exact
time derivative. The training objective is the mean squared difference between the network evaluated at (point on the path, time) and that
velocity. Sampling integrates the learned velocity field from base noise at time 0 to time 1 and un-whitens, and the log density integrates
the same field and its divergence back from time 1 to 0 and adds the base log density at the point reached and the whitening log determinant.""",
['inputs'],"all networks, path times, samples, whitening statistics (the ODE integrator is assumed exact)",
"Tests check shapes and finiteness for one tiny network.",
['resource/model/flowmatching/base.py'],[('Solver.sample/log_prob, CondOTScheduler, Path.sample, FlowMatchingModel.log_prob/sample/loss_fn/train_epoch','resource/model/flowmatching/base.py')]))
L.append(P('C15','Training keeps the best epoch and uses each example at most once per epoch',
"""Training a flow (normalizing flow or flow matching) whitens with the mean and covariance of the training data, and within an epoch
takes floor(N/batch) gradient steps on disjoint batches of distinct examples, or one step on all examples when there are fewer than a batch.
It returns the loss of every epoch in order together with the model and optimizer state of the first epoch of lowest loss, and the initial
model and state if no loss is usable. Each step applies the optimizer's update for the gradient of the mean negative log density (flow matching: regression loss)
of that batch, carrying the model and optimizer state from step to step.""",
['inputs','histories','configurations'],"all data sizes, batch sizes, numbers of epochs, optimizers and loss sequences (including NaN)",
"Tests train for a few epochs with one batch size and check that something changed.",
['resource/model/nf_model/base.py','resource/model/flowmatching/base.py'],[('NFModel.loss_fn/train_step/train_epoch/train','resource/model/nf_model/base.py'),('FlowMatchingModel.train_step/train_epoch/train','resource/model/flowmatching/base.py')]))
L.append(P('C16','The training strategy learns only from recorded recent samples',
"""The training strategy trains only on rows that are fully finite entries already recorded in the data buffer, taken from the most recent
history window of each chain, as many as the configured maximum, drawn uniformly with replacement. It replaces the stored flow and optimizer state with the result of the training and
appends this training's losses at the loss buffer's cursor, advancing it by their number; the data buffer, other resources and the chain positions are
left as they were.""",['inputs','histories'],"all buffer contents, fill levels, window and batch sizes, numbers of chains",
"One test trains on a full buffer; partially filled buffers, windows and repeated calls are not compared with anything.",
['strategy/train_model.py','resource/buffers.py'],[('TrainModel.__call__','strategy/train_model.py')]))
L.append(P('C17','Adam optimisation stays in its box, ascends the target, per chain',
"""For every target and bounds, at least one step of the optimisation strategy returns, for every chain, a point inside the bounds (applied per dimension or shared),
and the log densities it reports are the target's at the returned points. Every step feeds the optimiser the target's
ascent gradient times one plus scaled scalar noise, each chain using only its own start and key. Bounds of the wrong shape are rejected with an error.""",
['inputs','configurations'],"all targets, bounds, learning rates, noise levels, numbers of steps and chains",
"Tests use infinite bounds, zero noise and one quadratic.",
['strategy/optimization.py'],[('AdamOptimization.__init__/optimize/__call__','strategy/optimization.py')]))
L.append(P('C18','Saved resources load back equal',
"""Saving a buffer, a state or a flow model and loading the written file gives back an equal resource: the same name, contents, shape, write
cursor and cursor dimension for a buffer; the same name and the same keys, values and value types for a state; and the same parameters, hence the same log
density everywhere, for a model loaded into one of the same architecture. Saving does not change the resource.""",
['inputs','histories'],"all contents, names, shapes and cursors",
"No stable test saves and reloads a buffer or a state.",
['resource/buffers.py','resource/states.py','resource/model/nf_model/base.py','resource/model/flowmatching/base.py'],
[('Buffer.save_resource/load_resource','resource/buffers.py'),('State.save_resource/load_resource','resource/states.py'),('save_model/load_model','resource/model/nf_model/base.py')]))
L.append(P('C19','No random key is ever used twice and runs are reproducible',
"""Within any strategy, sampler kernel or flow draw, all random numbers that influence a result come from pairwise distinct keys: across steps,
chains, temperatures, proposal batches and the accept tests. The key a strategy returns is derived from the one it was given and
is never one already used for a draw or an ancestor of one. The same key, inputs and resources give the same result.""",
['inputs','histories','configurations'],"all keys, numbers of steps, chains, temperatures and batch sizes",
"Tests check determinism of single kernels; key reuse leaves outputs plausible.",
['strategy/take_steps.py','strategy/parallel_tempering.py','strategy/train_model.py','strategy/optimization.py','resource/kernel/NF_proposal.py','resource/kernel/MALA.py','resource/kernel/HMC.py','resource/kernel/Gaussian_random_walk.py'],
[('jax.random.split / draws','strategy'),('kernel','resource/kernel')]))
L.append(P('C20','Bookkeeping strategies and resources change only what they are asked to',
"""Updating a state sets exactly the listed keys to the listed values and nothing else; a function strategy calls its function once with the
key, resources, positions and data it received; both return the key, resources and positions unchanged. Writing to a
buffer replaces exactly the block starting at the given offset along its cursor dimension and leaves shape and every other entry as they
were, and a new buffer holds minus infinity everywhere.""",['inputs','histories'],
"all states, keys, values, buffers, offsets and update shapes that fit",
"Tests overwrite one whole 10x10 buffer; frames and offsets are not checked.",
['strategy/update_state.py','strategy/lambda_function.py','resource/states.py','resource/buffers.py'],
[('UpdateState.__call__','strategy/update_state.py'),('Lambda.__call__','strategy/lambda_function.py'),('State.update','resource/states.py'),('Buffer.__init__/update_buffer','resource/buffers.py')]))
L.append(P('C21','Target wrappers evaluate exactly the user functions',
"""A wrapped target returns the user's function at the given point and data. A tempered target returns the log-likelihood itself when called
plainly and log-likelihood/T + log-prior when given a temperature T, which at T = 1 is the posterior. Both survive being passed through
the array library's tree flattening unchanged (same functions, same variables), and report as many dimensions as they have variables, which must be
given by number or by list.""",['inputs','configurations'],"all user functions, points, data, temperatures",
"Tests evaluate one quadratic with a zero prior.",
['resource/logPDF.py'],[('LogPDF, TemperedPDF','resource/logPDF.py')]))
L.append(P('C22','Trained flows raise the global acceptance rate',
"""On targets the flow family can represent, training increases the acceptance rate of the global steps over the training loops.""",
['inputs','histories'],"all targets and seeds","A statement about optimisation success; tests do not measure it.",
['strategy/train_model.py'],[('TrainModel','strategy/train_model.py')]))
L.append(P('C23','Single-precision results stay close to the exact-arithmetic ones',
"""For well-scaled inputs the floating point results of flows, kernels and integrators differ from the exact-arithmetic ones by a small bounded relative error.""",
['inputs'],"all well-scaled inputs","Tests compare with loose tolerances on a few points.",
['resource/model/nf_model/rqSpline.py','resource/kernel/HMC.py'],[('spline and leapfrog arithmetic','resource')]))
L.append(P('C24','Training moves the trainable parameters and nothing else',
"""The gradient followed by a training step, and that of a flow's log density, is identically zero with respect to the whitening mean and
covariance, the mean and covariance of a Gaussian base distribution that was not declared learnable (the default one included), and the masks,
ranges and size floors of the layers. With respect to every network weight and bias, every scale and shift, and the parameters of a learnable
or user-defined base distribution it is the full derivative, nothing on the way is cut off. So after any number of epochs with any optimizer that
leaves parameters of zero gradient alone, the whitening is exactly that of the training data and a fixed base distribution is what it was.""",
['inputs','histories'],"all models, base distributions, data, batches and numbers of epochs",
"No test looks at a gradient or compares parameters before and after training; a statistic that drifts with training still lowers the loss.",
['resource/model/nf_model/base.py','resource/model/nf_model/realNVP.py','resource/model/nf_model/rqSpline.py','resource/model/common.py','resource/model/flowmatching/base.py'],
[('NFModel.loss_fn/data_mean/data_cov','resource/model/nf_model/base.py'),('RealNVP.data_mean/data_cov, AffineCoupling.mask','resource/model/nf_model/realNVP.py'),('Gaussian.mean/cov, MaskedCouplingLayer.mask','resource/model/common.py'),('RQSpline.range_min/range_max','resource/model/nf_model/rqSpline.py'),('FlowMatchingModel.loss_fn/data_mean/data_cov','resource/model/flowmatching/base.py')]))
L.append(P('C25','Preset flows couple every feature and start from independent layers',
"""For any number of features, layers, hidden sizes and bins, a new RealNVP or spline flow has exactly the number of coupling layers asked for; of two
consecutive layers exactly one transforms any given feature, so two layers transform all of them; with two or more features every coupling layer
transforms at least one and is conditioned on at least one; and the affine map of a spline layer acts on all features. The networks have the sizes asked for, with
an activation between any two linear maps, and all weights and biases of all layers and networks are drawn with pairwise different keys
derived from the one given.""",['configurations'],"all feature counts, layer counts, hidden sizes, bin counts and keys",
"Tests build a few flows and look at output shapes; a feature that is never transformed or two layers with the same initial weights pass them.",
['resource/model/nf_model/realNVP.py','resource/model/nf_model/rqSpline.py','resource/model/common.py'],
[('RealNVP.__init__','resource/model/nf_model/realNVP.py'),('MaskedCouplingRQSpline.__init__','resource/model/nf_model/rqSpline.py'),('MLP.__init__','resource/model/common.py')]))
if __name__=='__main__':
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here+'/properties.jsonl','w') as f:
        for d in L: f.write(json.dumps(d)+'\n')
