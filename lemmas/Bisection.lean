import Mathlib

/-- A loop whose bracket width `w` starts at no more than 5, is halved by every iteration and
    which runs while the width exceeds 1/1000 makes at most 13 iterations. -/
theorem bisection_stops (w : ℕ → ℝ) (h0 : w 0 ≤ 5) (hs : ∀ n, w (n + 1) = w n / 2) :
    w 13 ≤ 1 / 1000 := by
  have h : ∀ n, w n = w 0 / 2 ^ n := by
    intro n
    induction n with
    | zero => simp
    | succ k ih => rw [hs, ih, pow_succ]; field_simp
  rw [h 13]
  norm_num
  linarith
