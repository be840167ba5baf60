/-
Why the obligations proved on the code leave the target invariant (C01, C02, C03, C09) and make the flows bijective with the
reported Jacobian determinant (C12).  No flowMC code is mentioned; the hypotheses are what the verifier proves on the code.
-/
import Mathlib.MeasureTheory.Measure.Prod
import Mathlib.MeasureTheory.Group.Prod
import Mathlib.MeasureTheory.Constructions.BorelSpace.Basic
import Mathlib.MeasureTheory.Function.SpecialFunctions.Basic
import Mathlib.Analysis.Calculus.FDeriv.Comp
import Mathlib.Topology.Order.IntermediateValue
import Mathlib.Topology.Algebra.Module.Determinant
import Mathlib.Order.Filter.AtTopBot.Field
import Mathlib.Order.Monotone.Union

open MeasureTheory ENNReal

/-- Metropolis-Hastings: `k x y` is the density of an accepted move from x to y (proposal density times acceptance probability). If it is in
detailed balance with the density `p`, one step (move, or stay with the remaining probability) maps the measure with density `p` to itself. -/
theorem mh_invariant {E : Type*} [MeasurableSpace E] (μ : Measure E) [SFinite μ] (p : E → ℝ≥0∞) (k : E → E → ℝ≥0∞)
    (hp : Measurable p) (hk : Measurable (Function.uncurry k))
    (balance : ∀ x y, p x * k x y = p y * k y x) (total : ∀ x, ∫⁻ y, k x y ∂μ ≤ 1)
    (A : Set E) (hA : MeasurableSet A) :
    ∫⁻ x, p x * ((∫⁻ y in A, k x y ∂μ) + (1 - ∫⁻ y, k x y ∂μ) * A.indicator 1 x) ∂μ = ∫⁻ x in A, p x ∂μ := by
  have hr : Measurable fun x => ∫⁻ y, k x y ∂μ := hk.lintegral_prod_right'
  have hkA : Measurable fun x => ∫⁻ y in A, k x y ∂μ := hk.lintegral_prod_right' (ν := μ.restrict A)
  have hk1 : ∀ x, Measurable (k x) := fun x => hk.comp measurable_prodMk_left
  have hk2 : ∀ y, Measurable fun x => k x y := fun y => hk.comp measurable_prodMk_right
  have move : ∫⁻ x, p x * ∫⁻ y in A, k x y ∂μ ∂μ = ∫⁻ y in A, p y * ∫⁻ x, k y x ∂μ ∂μ := by
    calc ∫⁻ x, p x * ∫⁻ y in A, k x y ∂μ ∂μ
        = ∫⁻ x, ∫⁻ y in A, p y * k y x ∂μ ∂μ := by
          refine lintegral_congr fun x => ?_
          rw [← lintegral_const_mul _ (hk1 x)]
          exact lintegral_congr fun y => balance x y
      _ = ∫⁻ y in A, ∫⁻ x, p y * k y x ∂μ ∂μ := by
          refine lintegral_lintegral_swap ?_
          refine Measurable.aemeasurable ?_
          exact (hp.comp measurable_snd).mul (hk.comp measurable_swap)
      _ = ∫⁻ y in A, p y * ∫⁻ x, k y x ∂μ ∂μ := by
          refine lintegral_congr fun y => ?_
          rw [← lintegral_const_mul _ (hk1 y)]
  have stay : ∫⁻ x, p x * ((1 - ∫⁻ y, k x y ∂μ) * A.indicator 1 x) ∂μ = ∫⁻ x in A, p x * (1 - ∫⁻ y, k x y ∂μ) ∂μ := by
    rw [← lintegral_indicator hA]
    refine lintegral_congr fun x => ?_
    by_cases h : x ∈ A <;> simp [h]
  have e : ∀ x, p x * ((∫⁻ y in A, k x y ∂μ) + (1 - ∫⁻ y, k x y ∂μ) * A.indicator 1 x)
      = p x * (∫⁻ y in A, k x y ∂μ) + p x * ((1 - ∫⁻ y, k x y ∂μ) * A.indicator 1 x) := fun x => mul_add _ _ _
  simp_rw [e]
  rw [lintegral_add_left (f := fun x => p x * ∫⁻ y in A, k x y ∂μ) (hp.mul hkA), move, stay,
    ← lintegral_add_left (f := fun x => p x * ∫⁻ y, k x y ∂μ) (hp.mul hr)]
  refine lintegral_congr fun x => ?_
  rw [← mul_add, add_tsub_cancel_of_le (total x), mul_one]

/-- A deterministic proposal S that preserves the reference measure and is its own inverse (a leapfrog trajectory followed by a momentum flip;
the exchange of two replicas), accepted with a probability `a` in detailed balance with the density `p`, leaves `p` invariant. -/
theorem involution_invariant {E : Type*} [MeasurableSpace E] (μ : Measure E) (S : E → E) (hS : MeasurePreserving S μ μ)
    (p a : E → ℝ≥0∞) (hp : Measurable p) (ha : Measurable a) (ha1 : ∀ z, a z ≤ 1)
    (balance : ∀ z, p z * a z = p (S z) * a (S z)) (A : Set E) (hA : MeasurableSet A) :
    ∫⁻ z, p z * (a z * A.indicator 1 (S z) + (1 - a z) * A.indicator 1 z) ∂μ = ∫⁻ z in A, p z ∂μ := by
  have hI : Measurable (A.indicator (1 : E → ℝ≥0∞)) := measurable_one.indicator hA
  have move : ∫⁻ z, p z * (a z * A.indicator 1 (S z)) ∂μ = ∫⁻ z, p z * (a z * A.indicator 1 z) ∂μ := by
    have hm : Measurable fun z => p z * (a z * A.indicator 1 z) := hp.mul (ha.mul hI)
    rw [← hS.lintegral_comp hm]
    refine lintegral_congr fun z => ?_
    rw [← mul_assoc, ← mul_assoc, balance z]
  have e : ∀ z, p z * (a z * A.indicator 1 (S z) + (1 - a z) * A.indicator 1 z)
      = p z * (a z * A.indicator 1 (S z)) + p z * ((1 - a z) * A.indicator 1 z) := fun z => mul_add _ _ _
  simp_rw [e]
  rw [lintegral_add_left (f := fun z => p z * (a z * A.indicator 1 (S z))) (hp.mul (ha.mul (hI.comp hS.measurable))), move,
    ← lintegral_add_left (f := fun z => p z * (a z * A.indicator 1 z)) (hp.mul (ha.mul hI)), ← lintegral_indicator hA]
  refine lintegral_congr fun z => ?_
  by_cases h : z ∈ A
  · simp only [h, Set.indicator_of_mem, Pi.one_apply, mul_one]
    rw [← mul_add, add_tsub_cancel_of_le (ha1 z), mul_one]
  · simp [h]

/-- The accept test of the code: log target f, log proposal density b x y (from x to y), log ratio (f y + b y x) - (f x + b x y). -/
theorem mh_target_invariant {E : Type*} [MeasurableSpace E] (μ : Measure E) [SFinite μ] (f : E → ℝ) (b : E → E → ℝ)
    (hf : Measurable f) (hb : Measurable (Function.uncurry b)) (hq : ∀ x, ∫⁻ y, ENNReal.ofReal (Real.exp (b x y)) ∂μ = 1)
    (A : Set E) (hA : MeasurableSet A) :
    let k := fun x y => ENNReal.ofReal (Real.exp (b x y) * min 1 (Real.exp ((f y + b y x) - (f x + b x y))))
    ∫⁻ x, ENNReal.ofReal (Real.exp (f x)) * ((∫⁻ y in A, k x y ∂μ) + (1 - ∫⁻ y, k x y ∂μ) * A.indicator 1 x) ∂μ
      = ∫⁻ x in A, ENNReal.ofReal (Real.exp (f x)) ∂μ := by
  intro k
  have hb' : Measurable (Function.uncurry fun x y => b y x) := hb.comp measurable_swap
  refine mh_invariant μ _ k hf.exp.ennreal_ofReal ?_ ?_ ?_ A hA
  · refine Measurable.ennreal_ofReal ?_
    refine hb.exp.mul (measurable_const.min ?_)
    exact ((((hf.comp measurable_snd).add hb').sub ((hf.comp measurable_fst).add hb))).exp
  · intro x y
    simp only [k]
    rw [← ENNReal.ofReal_mul (Real.exp_pos _).le, ← ENNReal.ofReal_mul (Real.exp_pos _).le]
    congr 1
    have h1 : ∀ u v w : ℝ, Real.exp u * (Real.exp v * min 1 (Real.exp (w - (u + v)))) = min (Real.exp (u + v)) (Real.exp w) := by
      intro u v w
      rw [← mul_assoc, ← Real.exp_add, mul_min_of_nonneg _ _ (Real.exp_pos _).le, ← Real.exp_add, mul_one, add_sub_cancel]
    rw [h1, h1, min_comm]
  · intro x
    rw [← hq x]
    refine lintegral_mono fun y => ENNReal.ofReal_le_ofReal ?_
    exact mul_le_of_le_one_right (Real.exp_pos _).le (min_le_left _ _)

/-- The accept test of a Hamiltonian trajectory (S: trajectory and momentum flip, E = phase space, H the total energy) and of a replica exchange
(S: exchange of the pair, H = minus the log of the joint tempered density). -/
theorem energy_test_invariant {E : Type*} [MeasurableSpace E] (μ : Measure E) (S : E → E) (hS : MeasurePreserving S μ μ)
    (inv : ∀ z, S (S z) = z) (H : E → ℝ) (hH : Measurable H) (A : Set E) (hA : MeasurableSet A) :
    let a := fun z => ENNReal.ofReal (min 1 (Real.exp (H z - H (S z))))
    ∫⁻ z, ENNReal.ofReal (Real.exp (-H z)) * (a z * A.indicator 1 (S z) + (1 - a z) * A.indicator 1 z) ∂μ
      = ∫⁻ z in A, ENNReal.ofReal (Real.exp (-H z)) ∂μ := by
  intro a
  refine involution_invariant μ S hS (fun z => ENNReal.ofReal (Real.exp (-H z))) a hH.neg.exp.ennreal_ofReal ?_ ?_ ?_ A hA
  · exact (measurable_const.min (hH.sub (hH.comp hS.measurable)).exp).ennreal_ofReal
  · intro z
    exact ENNReal.ofReal_le_one.2 (min_le_left _ _)
  · intro z
    simp only [a]
    rw [← ENNReal.ofReal_mul (Real.exp_pos _).le, ← ENNReal.ofReal_mul (Real.exp_pos _).le, inv]
    congr 1
    have h1 : ∀ u v : ℝ, Real.exp (-u) * min 1 (Real.exp (u - v)) = min (Real.exp (-u)) (Real.exp (-v)) := by
      intro u v
      rw [mul_min_of_nonneg _ _ (Real.exp_pos _).le, ← Real.exp_add, mul_one]
      ring_nf
    rw [h1, h1, min_comm]

/-- The two kinds of leapfrog updates, position by a function of the momentum and momentum by a function of the position, preserve volume
in phase space, whatever (measurable) gradient they use; so does the momentum flip, and so do compositions of any length. -/
theorem drift_preserves {V : Type*} [AddCommGroup V] [MeasurableSpace V] [MeasurableAdd₂ V] (μ : Measure V) [SFinite μ]
    [μ.IsAddRightInvariant] (g : V → V) (hg : Measurable g) :
    MeasurePreserving (fun z : V × V => (z.1 + g z.2, z.2)) (μ.prod μ) (μ.prod μ) := by
  have h : MeasurePreserving (fun z : V × V => (z.1, z.2 + g z.1)) (μ.prod μ) (μ.prod μ) :=
    (MeasurePreserving.id μ).skew_product (g := fun x y => y + g x) (measurable_snd.add (hg.comp measurable_fst))
      (Filter.Eventually.of_forall fun x => map_add_right_eq_self μ (g x))
  exact Measure.measurePreserving_swap.comp (h.comp Measure.measurePreserving_swap)

theorem kick_preserves {V : Type*} [AddCommGroup V] [MeasurableSpace V] [MeasurableAdd₂ V] (μ : Measure V) [SFinite μ]
    [μ.IsAddRightInvariant] (g : V → V) (hg : Measurable g) :
    MeasurePreserving (fun z : V × V => (z.1, z.2 + g z.1)) (μ.prod μ) (μ.prod μ) :=
  (MeasurePreserving.id μ).skew_product (g := fun x y => y + g x) (measurable_snd.add (hg.comp measurable_fst))
    (Filter.Eventually.of_forall fun x => map_add_right_eq_self μ (g x))

theorem flip_preserves {V : Type*} [AddCommGroup V] [MeasurableSpace V] [MeasurableNeg V] (μ : Measure V) [SFinite μ] [μ.IsNegInvariant] :
    MeasurePreserving (fun z : V × V => (z.1, -z.2)) (μ.prod μ) (μ.prod μ) :=
  (MeasurePreserving.id μ).prod (Measure.measurePreserving_neg μ)

theorem trajectory_preserves {E : Type*} [MeasurableSpace E] (μ : Measure E) (l : List (E → E))
    (h : ∀ f ∈ l, MeasurePreserving f μ μ) : MeasurePreserving (l.foldr (fun f g => f ∘ g) id) μ μ := by
  induction l with
  | nil => exact MeasurePreserving.id μ
  | cons f t ih => exact (h f (by simp)).comp (ih fun g hg => h g (by simp [hg]))

/-- Exchanging two replicas preserves the reference measure. -/
theorem exchange_preserves {V : Type*} [MeasurableSpace V] (μ : Measure V) [SFinite μ] :
    MeasurePreserving (Prod.swap : V × V → V × V) (μ.prod μ) (μ.prod μ) := Measure.measurePreserving_swap

/-- A continuous strictly increasing map of the real line that is affine with positive slope beyond both ends is a bijection (C12: the spline). -/
theorem spline_bijective (f : ℝ → ℝ) (hc : Continuous f) (hm : StrictMono f) (l r sl sr cl cr : ℝ) (hl : 0 < sl) (hr : 0 < sr)
    (tl : ∀ x, x ≤ l → f x = sl * x + cl) (tr : ∀ x, r ≤ x → f x = sr * x + cr) : Function.Bijective f := by
  refine ⟨hm.injective, hc.surjective ?_ ?_⟩
  · have h : Filter.Tendsto (fun x : ℝ => sr * x + cr) Filter.atTop Filter.atTop :=
      Filter.tendsto_atTop_add_const_right _ _ (Filter.Tendsto.const_mul_atTop hr Filter.tendsto_id)
    exact h.congr' (Filter.eventually_atTop.2 ⟨r, fun x hx => (tr x hx).symm⟩)
  · have h : Filter.Tendsto (fun x : ℝ => sl * x + cl) Filter.atBot Filter.atBot :=
      Filter.tendsto_atBot_add_const_right _ _ (Filter.Tendsto.const_mul_atBot hl Filter.tendsto_id)
    exact h.congr' (Filter.eventually_atBot.2 ⟨l, fun x hx => (tl x hx).symm⟩)

/-- Increasing (continuous) on every closed bin and on both tails: increasing (continuous) on the whole line. -/
theorem spline_strictMono (K : ℕ) (x : ℕ → ℝ) (hx : ∀ i < K, x i < x (i + 1)) (f : ℝ → ℝ) (h0 : StrictMonoOn f (Set.Iic (x 0)))
    (h : ∀ i < K, StrictMonoOn f (Set.Icc (x i) (x (i + 1)))) (h1 : StrictMonoOn f (Set.Ici (x K))) : StrictMono f := by
  have step : ∀ i ≤ K, StrictMonoOn f (Set.Iic (x i)) := by
    intro i
    induction i with
    | zero => intro _; exact h0
    | succ n ih =>
      intro hn
      have a := ih (by omega)
      have b := h n (by omega)
      have c : x n ≤ x (n + 1) := (hx n (by omega)).le
      have u := a.union b (isGreatest_Iic (a := x n)) (isLeast_Icc c)
      rwa [Set.Iic_union_Icc_eq_Iic c] at u
  exact (step K le_rfl).Iic_union_Ici h1

theorem spline_continuous (K : ℕ) (x : ℕ → ℝ) (hx : ∀ i < K, x i < x (i + 1)) (f : ℝ → ℝ) (h0 : ContinuousOn f (Set.Iic (x 0)))
    (h : ∀ i < K, ContinuousOn f (Set.Icc (x i) (x (i + 1)))) (h1 : ContinuousOn f (Set.Ici (x K))) : Continuous f := by
  have step : ∀ i ≤ K, ContinuousOn f (Set.Iic (x i)) := by
    intro i
    induction i with
    | zero => intro _; exact h0
    | succ n ih =>
      intro hn
      have c : x n ≤ x (n + 1) := (hx n (by omega)).le
      have u := (ih (by omega)).union_of_isClosed (h n (by omega)) isClosed_Iic isClosed_Icc
      rwa [Set.Iic_union_Icc_eq_Iic c] at u
  rw [← continuousOn_univ, ← Set.Iic_union_Ici (a := x K)]
  exact (step K le_rfl).union_of_isClosed h1 isClosed_Iic isClosed_Ici

/-- An inverse on one side of a bijection is one on the other side as well. -/
theorem inverse_both_sides {X Y : Type*} (f : X → Y) (g : Y → X) (hf : Function.Bijective f) (h : ∀ x, g (f x) = x) : ∀ y, f (g y) = y := by
  intro y
  obtain ⟨x, rfl⟩ := hf.2 y
  rw [h]

/-- Between the outer knots every point lies in exactly one bin. -/
theorem one_bin (K : ℕ) (x : ℕ → ℝ) (hx : ∀ i < K, x i < x (i + 1)) (t : ℝ) (h0 : x 0 ≤ t) (h1 : t < x K) :
    ∃! i, i < K ∧ x i ≤ t ∧ t < x (i + 1) := by
  have mono : ∀ j ≤ K, ∀ i ≤ j, x i ≤ x j := by
    intro j
    induction j with
    | zero => intro _ i hi; rw [Nat.le_zero.1 hi]
    | succ n ih =>
      intro hn i hi
      rcases Nat.lt_or_ge i (n + 1) with h | h
      · exact (ih (by omega) i (by omega)).trans (hx n (by omega)).le
      · rw [show i = n + 1 by omega]
  have ex : ∀ n ≤ K, t < x n → ∃ i, i < n ∧ x i ≤ t ∧ t < x (i + 1) := by
    intro n
    induction n with
    | zero => intro _ h; exact absurd h0 (not_le.2 h)
    | succ m ih =>
      intro hm h
      rcases lt_or_ge t (x m) with c | c
      · obtain ⟨i, hi, a⟩ := ih (by omega) c
        exact ⟨i, by omega, a⟩
      · exact ⟨m, by omega, c, h⟩
  obtain ⟨i, hi, a, b⟩ := ex K le_rfl h1
  refine ⟨i, ⟨hi, a, b⟩, ?_⟩
  rintro j ⟨hj, c, d⟩
  rcases lt_trichotomy i j with h | h | h
  · exact absurd (b.trans_le (mono j (by omega) (i + 1) (by omega))) (not_lt.2 c)
  · exact h.symm
  · exact absurd (d.trans_le (mono i (by omega) (j + 1) (by omega))) (not_lt.2 a)

/-- Chain rule: the Jacobian of a composition is the product, and so is its determinant. -/
theorem composition_jacobian {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] (f g : E → E) (f' g' : E →L[ℝ] E) (x : E)
    (hf : HasFDerivAt f f' x) (hg : HasFDerivAt g g' (f x)) :
    HasFDerivAt (g ∘ f) (g'.comp f') x ∧ (g'.comp f').det = g'.det * f'.det :=
  ⟨hg.comp x hf, by
    simp only [ContinuousLinearMap.det]
    exact LinearMap.det_comp _ _⟩
