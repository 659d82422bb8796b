import Mathlib

/-- The cosine drawn for the initial rotation angle is in the domain of acos
    (used by the contracts of SpinChain::new and SpinChainLangevin::new). -/
theorem cos_range (b u : ℝ) (hb : 0 < b) (h0 : 0 ≤ u) (h1 : u < 1) :
    0 < Real.exp b - u * (Real.exp b - 1 / Real.exp b) ∧
    -1 ≤ Real.log (Real.exp b - u * (Real.exp b - 1 / Real.exp b)) / b ∧
    Real.log (Real.exp b - u * (Real.exp b - 1 / Real.exp b)) / b ≤ 1 := by
  have e0 : 0 < Real.exp b := Real.exp_pos b
  have e1 : 1 < Real.exp b := by simpa using Real.one_lt_exp_iff.mpr hb
  have i0 : 0 < 1 / Real.exp b := by positivity
  have i1 : 1 / Real.exp b < 1 := by rw [div_lt_one e0]; exact e1
  have d : 0 < Real.exp b - 1 / Real.exp b := by linarith
  have lo : 1 / Real.exp b < Real.exp b - u * (Real.exp b - 1 / Real.exp b) := by nlinarith
  have hi : Real.exp b - u * (Real.exp b - 1 / Real.exp b) ≤ Real.exp b := by nlinarith
  have x0 : 0 < Real.exp b - u * (Real.exp b - 1 / Real.exp b) := lt_trans i0 lo
  have lup := Real.log_le_log x0 hi
  rw [Real.log_exp] at lup
  have llo := Real.log_le_log i0 lo.le
  rw [Real.log_div one_ne_zero e0.ne', Real.log_one, Real.log_exp] at llo
  refine ⟨x0, ?_, ?_⟩
  · rw [le_div_iff₀ hb]; linarith
  · rw [div_le_one hb]; exact lup

/-- Inverse transform: P(cos ≥ c) = (e^b - e^(bc)) / (e^b - e^-b), as for the density
    proportional to sin θ e^(b cos θ). -/
theorem inverse_transform (b u c : ℝ) (hb : 0 < b)
    (h0 : 0 ≤ u) (h1 : u < 1) :
    c ≤ Real.log (Real.exp b - u * (Real.exp b - 1 / Real.exp b)) / b ↔
    u ≤ (Real.exp b - Real.exp (b * c)) / (Real.exp b - 1 / Real.exp b) := by
  have e0 : 0 < Real.exp b := Real.exp_pos b
  have e1 : 1 < Real.exp b := by simpa using Real.one_lt_exp_iff.mpr hb
  have i1 : 1 / Real.exp b < 1 := by rw [div_lt_one e0]; exact e1
  have d : 0 < Real.exp b - 1 / Real.exp b := by linarith
  have x0 := (cos_range b u hb h0 h1).1
  rw [le_div_iff₀ hb, Real.le_log_iff_exp_le x0, le_div_iff₀ d, mul_comm c b]
  constructor <;> intro h <;> linarith

/-- The form without overflow: the same cosine, for every temperature but infinite. -/
theorem stable_form (b u : ℝ) (hb : b ≠ 0) (h0 : 0 ≤ u) (h1 : u < 1) :
    1 + Real.log (1 + u * (Real.exp (-2 * b) - 1)) / b =
    Real.log (Real.exp b - u * (Real.exp b - 1 / Real.exp b)) / b := by
  have e0 : 0 < Real.exp b := Real.exp_pos b
  have m0 : 0 < Real.exp (-2 * b) := Real.exp_pos _
  have p : 0 < 1 + u * (Real.exp (-2 * b) - 1) := by nlinarith
  have m : Real.exp (-2 * b) * (Real.exp b * Real.exp b) = 1 := by
    rw [← Real.exp_add, ← Real.exp_add, ← Real.exp_zero]; congr 1; ring
  have i : 1 / Real.exp b = Real.exp b * Real.exp (-2 * b) := by
    rw [div_eq_iff e0.ne']; linarith
  have f : Real.exp b - u * (Real.exp b - 1 / Real.exp b) =
      Real.exp b * (1 + u * (Real.exp (-2 * b) - 1)) := by rw [i]; ring
  rw [f, Real.log_mul e0.ne' p.ne', Real.log_exp]
  field_simp

/-- At infinite temperature the cosine is uniform, and in the domain of acos. -/
theorem infinite_temperature (u c : ℝ) (h0 : 0 ≤ u) (h1 : u < 1) :
    (-1 ≤ 1 - 2 * u ∧ 1 - 2 * u ≤ 1) ∧ (c ≤ 1 - 2 * u ↔ u ≤ (1 - c) / 2) := by
  refine ⟨⟨by linarith, by linarith⟩, ?_⟩
  constructor <;> intro h <;> linarith
