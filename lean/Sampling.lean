import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.LinearAlgebra.Matrix.Block

/-!
Lemmas that connect the obligations discharged on flowMC's code with "the target is left invariant".
They mention no flowMC code: the verifier proves, on the code, the hypotheses (which log ratio the accept test uses, that the
leapfrog updates are shears, that the trajectory is reversible), and these lemmas give the consequence.
-/

open Real

/-- Acceptance probability of the test `log u < r` for u uniform on (0,1): the set of accepted u is (0, min 1 (exp r)). -/
theorem accept_set (r u : ℝ) (h0 : 0 < u) (h1 : u < 1) : log u < r ↔ u < min 1 (exp r) := by
  rw [Real.log_lt_iff_lt_exp h0]
  constructor
  · intro h; exact lt_min h1 h
  · intro h; exact lt_of_lt_of_le h (min_le_right _ _)

/-- Metropolis-Hastings: with log ratio r = (f y + b) - (f x + a), a and b the log proposal densities x→y and y→x,
the flow of probability x→y equals the flow y→x (detailed balance). -/
theorem mh_detailed_balance (fx fy a b : ℝ) :
    exp fx * exp a * min 1 (exp ((fy + b) - (fx + a))) = exp fy * exp b * min 1 (exp ((fx + a) - (fy + b))) := by
  have h1 : exp fx * exp a = exp (fx + a) := (Real.exp_add _ _).symm
  have h2 : exp fy * exp b = exp (fy + b) := (Real.exp_add _ _).symm
  rw [h1, h2, mul_min_of_nonneg _ _ (Real.exp_pos _).le, mul_min_of_nonneg _ _ (Real.exp_pos _).le, ← Real.exp_add, ← Real.exp_add,
    mul_one, mul_one, add_sub_cancel, add_sub_cancel, min_comm]

/-- Replica exchange: swapping the states (l₁ at temperature T₁, l₂ at T₂) with log ratio (1/T₁ - 1/T₂)(l₂ - l₁) is in
detailed balance for the joint tempered density. -/
theorem exchange_detailed_balance (T₁ T₂ l₁ l₂ : ℝ) :
    exp (l₁ / T₁ + l₂ / T₂) * min 1 (exp ((1 / T₁ - 1 / T₂) * (l₂ - l₁)))
      = exp (l₂ / T₁ + l₁ / T₂) * min 1 (exp ((1 / T₁ - 1 / T₂) * (l₁ - l₂))) := by
  have h := mh_detailed_balance (l₁ / T₁ + l₂ / T₂) (l₂ / T₁ + l₁ / T₂) 0 0
  simp only [Real.exp_zero, mul_one, add_zero] at h
  have e1 : (1 / T₁ - 1 / T₂) * (l₂ - l₁) = (l₂ / T₁ + l₁ / T₂) - (l₁ / T₁ + l₂ / T₂) := by ring
  have e2 : (1 / T₁ - 1 / T₂) * (l₁ - l₂) = (l₁ / T₁ + l₂ / T₂) - (l₂ / T₁ + l₁ / T₂) := by ring
  rw [e1, e2]; exact h

/-- A shear (q, p) ↦ (q + A p, p) or (q, p) ↦ (q, p + B q) has determinant one, so a leapfrog trajectory preserves volume:
the Jacobian of each update is unit block triangular, whatever the Jacobian of the drift or the kick is. -/
theorem shear_upper {n : Type*} [Fintype n] [DecidableEq n] (A : Matrix n n ℝ) :
    (Matrix.fromBlocks (1 : Matrix n n ℝ) A 0 1).det = 1 := by simp

theorem shear_lower {n : Type*} [Fintype n] [DecidableEq n] (B : Matrix n n ℝ) :
    (Matrix.fromBlocks (1 : Matrix n n ℝ) 0 B 1).det = 1 := by simp

theorem trajectory_volume {n : Type*} [Fintype n] [DecidableEq n] (l : List (Matrix n n ℝ))
    (h : ∀ m ∈ l, m.det = 1) : (l.prod).det = 1 := by
  induction l with
  | nil => simp
  | cons a t ih => simp [Matrix.det_mul, h a (by simp), ih (fun m hm => h m (by simp [hm]))]

/-- Hamiltonian acceptance: for a reversible volume-preserving map Φ (σ∘Φ an involution), accepting with log u < H(z) - H(Φ z)
is in detailed balance: the density flow z → Φ z equals the flow back from σ(Φ z), whose energy is that of Φ z. -/
theorem hmc_detailed_balance (H₀ H₁ : ℝ) :
    exp (-H₀) * min 1 (exp (H₀ - H₁)) = exp (-H₁) * min 1 (exp (H₁ - H₀)) := by
  have h := mh_detailed_balance (-H₀) (-H₁) 0 0
  simp only [Real.exp_zero, mul_one, add_zero] at h
  have e1 : H₀ - H₁ = -H₁ - -H₀ := by ring
  have e2 : H₁ - H₀ = -H₀ - -H₁ := by ring
  rw [e1, e2]; exact h

/-- If M (A Aᵀ) = 1 then p = A z has, for z standard normal, covariance A Aᵀ = M⁻¹: the law of energy p·M p / 2. -/
theorem momentum_covariance {n : Type*} [Fintype n] [DecidableEq n] (M A : Matrix n n ℝ) (h : M * (A * A.transpose) = 1) :
    A * A.transpose = M⁻¹ := (Matrix.inv_eq_right_inv h).symm

/-- A coupling map changes feature i by a function whose parameters depend only on conditioning features: outside the
diagonal, J i j ≠ 0 only for i transformed and j conditioning.  Then log |det J| is the sum of log |J i i|. -/
theorem coupling_logdet {n : Type*} [Fintype n] [DecidableEq n] (J : Matrix n n ℝ) (cond : n → Bool)
    (h : ∀ i j, i ≠ j → J i j ≠ 0 → cond i = false ∧ cond j = true) (hp : ∀ i, J i i ≠ 0) :
    log |J.det| = ∑ i, log |J i i| := by
  have ht : J.BlockTriangular cond := by
    intro i j hij
    by_contra hne
    have hd : i ≠ j := by rintro rfl; exact lt_irrefl _ hij
    obtain ⟨h1, h2⟩ := h i j hd hne
    rw [h1, h2] at hij
    exact absurd hij (by decide)
  have hb : ∀ a : Bool, (J.toSquareBlock cond a).det = ∏ i : {i // cond i = a}, J i i := by
    intro a
    have : J.toSquareBlock cond a = Matrix.diagonal (fun i : {i // cond i = a} => J i i) := by
      ext ⟨i, hi⟩ ⟨j, hj⟩
      by_cases e : i = j
      · subst e; simp [Matrix.toSquareBlock_def]
      · have hz : J i j = 0 := by
          by_contra hne
          obtain ⟨h1, h2⟩ := h i j e hne
          rw [hi] at h1; rw [hj] at h2; rw [h1] at h2; exact absurd h2 (by decide)
        simp [Matrix.toSquareBlock_def, Matrix.diagonal, e, hz]
    rw [this, Matrix.det_diagonal]
  have hdet : J.det = ∏ i, J i i := by
    rw [ht.det_fintype]
    simp_rw [hb]
    rw [← Finset.prod_fiberwise Finset.univ cond (fun i => J i i)]
    refine Finset.prod_congr rfl fun a _ => ?_
    exact (Finset.prod_subtype (Finset.univ.filter fun i => cond i = a) (by simp) (fun i => J i i)).symm
  rw [hdet, Finset.abs_prod, Real.log_prod]
  intro i _
  exact abs_ne_zero.mpr (hp i)

/-- Composition: log |det| of a product of Jacobians is the sum of the log |det|s (the total of the layers). -/
theorem composition_logdet {n : Type*} [Fintype n] [DecidableEq n] (A B : Matrix n n ℝ) (ha : A.det ≠ 0) (hb : B.det ≠ 0) :
    log |(A * B).det| = log |A.det| + log |B.det| := by
  rw [Matrix.det_mul, abs_mul, Real.log_mul (abs_ne_zero.mpr ha) (abs_ne_zero.mpr hb)]
