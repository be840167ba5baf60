import Mathlib.MeasureTheory.Function.Jacobian

/-!
Change of variables: why "reported log density = base log density at the mapped point + log |det|" (proved on the code in
C12 and C13) makes the reported density integrate to one and be the density of the samples.
-/

open MeasureTheory ENNReal

variable {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] [FiniteDimensional ℝ E] [MeasurableSpace E] [BorelSpace E]

/-- The reported density has the total mass of the base density. -/
theorem density_normalised (μ : Measure E) [μ.IsAddHaarMeasure] (f : E → E) (f' : E → E →L[ℝ] E)
    (hf : ∀ x, HasFDerivAt f (f' x) x) (hb : Function.Bijective f) (q : E → ℝ≥0∞) :
    ∫⁻ x, ENNReal.ofReal |(f' x).det| * q (f x) ∂μ = ∫⁻ y, q y ∂μ := by
  have h := lintegral_image_eq_lintegral_abs_det_fderiv_mul μ MeasurableSet.univ
    (fun x _ => (hf x).hasFDerivWithinAt) hb.injective.injOn q
  rw [Set.image_univ, hb.surjective.range_eq, Measure.restrict_univ] at h
  exact h.symm

/-- The probability the reported density gives to a set is the probability that a sample (the inverse map of a base draw)
falls in it: the reported density is the density of the samples. -/
theorem density_of_samples (μ : Measure E) [μ.IsAddHaarMeasure] (f : E → E) (f' : E → E →L[ℝ] E) (g : E → E)
    (hf : ∀ x, HasFDerivAt f (f' x) x) (hg : Function.LeftInverse g f) (hg' : Function.RightInverse g f) (q : E → ℝ≥0∞)
    (s : Set E) (hs : MeasurableSet s) :
    ∫⁻ x in s, ENNReal.ofReal |(f' x).det| * q (f x) ∂μ = ∫⁻ y in g ⁻¹' s, q y ∂μ := by
  have h := lintegral_image_eq_lintegral_abs_det_fderiv_mul μ hs
    (fun x _ => (hf x).hasFDerivWithinAt) hg.injective.injOn q
  rw [Set.image_eq_preimage_of_inverse hg hg'] at h
  exact h.symm
