import Mathlib

/-- Accepting a change of the energy by `e' - e` when it is negative, and otherwise with probability
    `exp (-β (e' - e))`, is acceptance with probability `min 1 (exp (-β (e' - e)))`. -/
theorem acceptance (b d : ℝ) (hb : 0 < b) :
    (if d < 0 then 1 else min 1 (Real.exp (-(b * d)))) = min 1 (Real.exp (-(b * d))) := by
  split_ifs with h
  · have : 1 ≤ Real.exp (-(b * d)) := Real.one_le_exp (by nlinarith [mul_neg_of_pos_of_neg hb h])
    rw [min_eq_left this]
  · rfl

/-- Detailed balance of a Metropolis step with a symmetric proposal. -/
theorem metropolis_balance (b e e' : ℝ) :
    Real.exp (-(b * e)) * min 1 (Real.exp (-(b * (e' - e))))
      = Real.exp (-(b * e')) * min 1 (Real.exp (-(b * (e - e')))) := by
  rw [mul_min_of_nonneg _ _ (Real.exp_pos _).le, mul_min_of_nonneg _ _ (Real.exp_pos _).le,
    ← Real.exp_add, ← Real.exp_add, mul_one, mul_one, min_comm]
  congr 2 <;> ring
