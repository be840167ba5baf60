"""Regenerates /verif/DESIGN.md (obligation counts are taken from /verif/evidence)."""
import json,glob,os
base='''# Contract-based deductive verification of flowMC

## 1. The verifier

No deductive verifier for Python is installed, so `/verif/engine` is one, for the JAX subset flowMC is written in.
On every run it

1. **loads the current source** of `/repo/src/flowMC` (or `$VERIF_REPO`) from disk and executes it in a process in which
   `jax`, `jax.numpy`, `jax.scipy`, `equinox`, `optax`, `diffrax`, `numpy`, `tqdm`, ... are stand-ins whose operations build
   symbolic terms. The stand-ins are the *assumed contracts on the dependencies*;
2. **executes the function under contract on symbolic arguments**: every array dimension, number of steps, chains, layers, bins,
   epochs, temperatures, and every target, gradient, network, key and value is a symbol. Branches on symbolic conditions fork
   (all feasible paths are explored, infeasible ones are discarded by z3). `lax.scan`, `fori_loop`, `while_loop` and Python loops of
   symbolic length become recurrences with an induction principle (the contract gives the invariant), `vmap` a generic index,
   sums of symbolic length a binder;
3. **generates the obligations** of the sidecar contracts in `/verif/contracts/c*.py`: postconditions taken from the property
   statements, frame conditions, loop invariants (`init`, `step`), lemmas, each of them a formula over the terms the current code
   produced; a callee whose contract has been proved elsewhere is used by contract (flow models, kernels, optimisers, training);
4. **discharges** each obligation: ring and indicator normaliser with case splitting (`norm.py`, `prove.py`), congruence, z3, cvc5 as
   second solver; IEEE obligations go to z3's floating point theory (`fp.py`); static mathematical lemmas (detailed balance,
   volume preservation, change of variables) are checked by Lean/Mathlib (`/verif/lean`, `engine/lean.py`);
5. for an obligation that is not proved, **searches a counterexample** by evaluating the extracted terms on random valuations
   (`numeval.py`: several scales, values at the boundaries of the conditions in the formula). A valuation that satisfies the
   hypotheses and falsifies the goal refutes the obligation; a goal that is structurally impossible (a draw of another key,
   a missing call) is refuted without one;
6. beside it `/verif/rac` **runs the same contracts on the real code under the real JAX** (bounded, sampled, seeded), which supplies
   the failing input for the replay file and stands in where an obligation is undecided.

**What the extraction changes.** The text that is executed is the file in `/repo`, read and compiled on every run; nothing is rewritten by
hand. The loader (`engine/loader.py`) makes these mechanical AST changes: a `for` over an iterable of symbolic length hands its body to the
recurrence engine (`continue` becomes a return of the body, `break` a carried flag), over an ordinary iterable it stays a Python loop; a
counting `while` is read as `for`; list comprehensions and generators are mapped when their source has symbolic length; annotations
are not evaluated; the names `str, len, range, int, float, bool, min, max, sum, abs, zip, enumerate, list, print, isinstance` and
`math.ceil/floor` are bound to versions that accept symbolic values. Conditions on symbolic values fork the path (`T.__bool__`). Decorators
(`jit`, `filter_jit`, `vmap`) are the stand-ins': compilation is assumed to preserve semantics. Nothing is dropped.

**Conformance of the assumed library semantics.** `tools/conformance.py` evaluates the expressions of
`tools/conformance_exprs.py` both with the stand-ins (constant and symbolic sizes, raw term, normal form, symbolic index) and with the
installed jax, and reports every difference: at present 658 expressions, 612 agree with constant and 605 with symbolic sizes,
the rest is refused by the stand-ins as outside the subset (a refusal leads to "undecided", never to a verdict), 0 differ. The
first run found 16 kinds of disagreement (ignored keyword arguments such as `where=`, `ddof=`, `keepdims=`; out-of-bounds `.at[]`; dictionary
order) which were corrected. It is part of the thorough tier.

**Divisions.** Real-arithmetic reasoning about `a/b` is only valid for b != 0. Every divisor that occurs in a discharged proof is collected
and shown non-zero; those that are not are listed in the evidence under `assumptions` ("non-zero: ..."). Left at present: the standard
deviation of the data (C15: a feature without variance cannot be whitened).

## 2. Verdict policy

* an obligation refuted, or a run-time contract violated on the real code: `VIOLATION`, with the input when the run-time side found one, otherwise
  the failed obligation and `no-failing-input-found`;
* an obligation neither proved nor refuted, or code outside the supported subset: reported as *undecided* in the evidence; the bounded
  run-time check of the same property decides, is labelled bounded and is never counted as proved. This is what keeps the checks quiet on
  edits that preserve behaviour in a style the normaliser cannot see through;
* limits inside the verifier are deterministic (z3 `rlimit`, process time), so a loaded machine does not change a verdict.

## 3. Per property

Obligation counts are those of the current tree (all discharged). "Run-time" is the bounded companion.

'''
rows={
'C01':"GRW and MALA kernels on a symbolic target, gradient, dimension, step and key (target as LogPDF and as plain function). Proposal, log ratio with the densities of that very proposal, accept test, two different keys. Lean: {u : log u < r} has probability min(1, e^r); detailed balance. Run-time: the formulas at random targets, and empirical acceptance frequencies.",
'C02':"HMC with matrix, scalar and default metric. Momentum = A z with M A A^T = 1; energy test; the leapfrog scan: position updates move by step*M p, momentum updates by step*gradient (halved at the ends), each a shear; reversal by a relational induction over the scan (state i of the reversed run = negated state L-i). Symbolic number of leapfrog steps. Lean: shears have determinant 1, products too, momentum covariance = M^-1, detailed balance.",
'C03':"NFProposal with symbolic step count and batch size, both code paths. Scan invariants: carried densities are those of the carried state; each (batch,row) of the draws is tested once, in order; test formula. Lean: detailed balance of the independence sampler.",
'C04':"All kernels: position is given or proposal, flag says which, returned log density = target(returned position) whenever the one handed in is that of the given one (also through the NF scan); the serial and group strategies, both batching modes: recorded log density = target(recorded position), by scan invariant over the kernel contract.",
'C05':"The same kernel executions in z3's IEEE floating-point theory, binary32 and binary64: no accepted step has a proposal of NaN or -inf density; rejected: position bit for bit. Gradients, library densities and sums are arbitrary floats (NaN included).",
'C06':"Serial and group steps against an abstract kernel: recorded block = iterates 1,1+t,1+2t,.. for symbolic n, t, chains; matching slots in the three buffers; frame (all other entries); cursor; handed-on position; start and continuation.",
'C07':"Non-interference: the terms of chain c contain the positions and key of chain c only; the run with any batch size (dividing or not, symbolic) equals the unbatched run entry by entry.",
'C08':"The real constructors of both presets run symbolically; the strategy order they build is executed against the strategies' contracts with symbolic counts (loops by induction over training/production loops): every slot written once, contiguous, all epochs held, nothing adapted in production, each global step uses the flow as just trained.",
'C09':"ParallelTempering.__call__, training and production: local scan per replica on the target tempered at its own temperature (incl. the log density handed to the first kernel step), exchange scan: invariant (log-likelihood carried = likelihood of the carried position), pairwise swap formula, only the pair moves; hand-over and kept replicas. The exchange again in IEEE arithmetic: a pair with an undefined ratio (NaN) is never swapped. Lean: exchange is in detailed balance for the joint tempered density.",
'C10':"Ladder adaptation loop: invariants (entries not reached are old, set entries stay), ends fixed, gap = old gap x factor; the factor depends only on the swap rates of its two pairs, is 1 when equal, >1/<1 otherwise; frozen outside training.",
'C11':"Sampler.sample with abstract strategies and an order of symbolic length (induction), unrolled orders with unknown names, 1-d/2-d starts, resource sources.",
'C12':"Every bijection class: round trip both ways, log determinants negatives, log|det| of the derivative (symbolic differentiation of the extracted terms, dependence on conditioning features only); spline in nonlinear reals per bin and tails, continuity and monotonicity; parameters' ranges; layers by induction over a symbolic number of layers. Lean: log|det| of coupling Jacobians and of compositions.",
'C13':"log_prob and sample of RealNVP and the spline flow over symbolic whitening, base (Gaussian or user), layers; constructors; Gaussian; Composable with any number of blocks. Lean: change of variables - the reported density has the mass of the base and is the density of the samples.",
'C14':"Scheduler, path (velocity = symbolic time derivative), loss, sampling and log density against a solver contract (vector field, interval, direction, initial value).",
'C15':"train_step/train_epoch/train of normalizing flows and flow matching: whitening, floor(N/B) disjoint batches from a permutation, chaining of model and state, best epoch (first minimum) and fallback, losses in order, verbose and one-feature variants; step = optimiser update for the gradient of the objective. The best-epoch selection again in IEEE arithmetic (NaN losses never win).",
'C16':"TrainModel.__call__: mask of fully finite recorded rows, window of each chain, count, uniform draws with replacement, frame, loss cursor.",
'C17':"AdamOptimization: projection invariant of the scan, ascent gradient times (1+noise), per chain keys and starts, reported densities, shape errors, both entry points, one dimension, shared bounds.",
'C18':"Buffers of rank 1-4, states, the three models: save then load against a file-system contract (what is written is read back, suffix rule, pickle rule), attribute by attribute; saving changes nothing.",
'C19':"Keys are terms of a free key algebra: within a strategy/kernel/draw any two draws that influence a result have different key terms for all indices (scan steps, chains, temperatures, batches), the returned key is derived from the given one and neither used nor an ancestor of a used one; a second run on the same inputs gives the same terms (no hidden state).",
'C20':"UpdateState, Lambda, Buffer write and new: exact block, frame of every other entry, types kept.",
'C21':"LogPDF, TemperedPDF (plain and tempered, nested), pytree round trip, n_dims; tempered value at T=1 also under IEEE semantics.",
'C24':"Losses and log densities are executed with every parameter a symbol; stop_gradient turns the parameters below it into their held values. Frozen: the value does not change with the live symbol; trainable: it does not use the held one. Both presets (base default, given, fixed, learnable, user-defined), both losses, flow matching, every layer class, spline parameters, loops over any number of layers. Run-time: gradients against difference quotients, parameters before and after training.",
'C25':"The constructors run symbolically; masks of layer l and l+1 as terms in l and the feature index, network sizes, and the keys of all weights in the free key algebra of C19. Run-time: masks, sizes, weights and moved features of random flows.",
'C22':"Not applicable: that stochastic training raises the acceptance rate is not a contract over the code (no postcondition implies it for all inputs).",
'C23':"Not applicable: rounding error bounds through symbolic-length sums and exp/log are outside the real-arithmetic contracts and z3's floating point reach.",
}
out=base
for p in ['C%02d'%k for k in range(1,26)]:
    n=''
    f='/verif/evidence/%s.json'%p
    if os.path.exists(f):
        d=json.load(open(f)); c=d['coverage']; n=' (%d obligations)'%c['obligations']
    out+='* **%s**%s %s\n'%(p,n,rows[p])

import subprocess
tail=open('/verif/tools/design_tail.md').read()
kf=json.load(open('/verif/known_findings.json'))
tail=tail.replace('@FIXED@','\n'.join('* '+x.replace('fixed: property=','') for x in kf['fixed']))
rows=['| bug | property | needs | proof | run-time |','|---|---|---|---|---|']
try: det=json.load(open('/verif/tools/seed_results.json'))
except Exception: det={}
fs=sorted(glob.glob('/verif/seeded/*/meta.json'))
for f in fs:
    d=json.load(open(f)); n=f.split('/')[3]; r=det.get(n,{})
    rows.append('| %s | %s | %s | %s | %s |'%(n,d['property'],d['needs'],r.get('proof','yes'),r.get('rac','yes')))
tail=tail.replace('@SEEDS@','\n'.join(rows)).replace('@NB@',str(len(fs)))
import sys; sys.path.insert(0,'/verif/tools')
from refactorings import R
nr=str(len(R))
tail=tail.replace('@NR@',nr)
open('/verif/DESIGN.md','w').write(out+tail)

