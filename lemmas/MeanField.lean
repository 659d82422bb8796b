import Mathlib

/-- The iteration `b ↦ 1 / (e + coth b)` from 20 reaches, for every energy density between -1 and 0,
    two consecutive values that differ by no more than 1/100: the solver stops. -/
theorem solve_beta_stops (e : ℝ) (h1 : -1 < e) (b : ℕ → ℝ) (h0 : b 0 = 20)
    (hb : ∀ n, b (n + 1) = 1 / (e + 1 / Real.tanh (b n))) :
    ∃ n, |b (n + 1) - b n| ≤ 1 / 100 := by
  have tpos : ∀ x : ℝ, 0 < x → 0 < Real.tanh x := by
    intro x hx
    rw [Real.tanh_eq_sinh_div_cosh]
    exact div_pos (Real.sinh_pos_iff.mpr hx) (Real.cosh_pos x)
  have tlt : ∀ x : ℝ, Real.tanh x < 1 := by
    intro x
    rw [Real.tanh_eq_sinh_div_cosh, div_lt_one (Real.cosh_pos x)]
    exact Real.sinh_lt_cosh x
  have tmono : ∀ x y : ℝ, x ≤ y → Real.tanh x ≤ Real.tanh y := by
    intro x y hxy
    rw [Real.tanh_eq_sinh_div_cosh, Real.tanh_eq_sinh_div_cosh,
      div_le_div_iff₀ (Real.cosh_pos x) (Real.cosh_pos y)]
    have : Real.sinh (y - x) = Real.sinh y * Real.cosh x - Real.cosh y * Real.sinh x := Real.sinh_sub y x
    have h2 : 0 ≤ Real.sinh (y - x) := Real.sinh_nonneg_iff.mpr (by linarith)
    nlinarith
  have den : ∀ x : ℝ, 0 < x → 1 + e < e + 1 / Real.tanh x := by
    intro x hx
    have : 1 < 1 / Real.tanh x := by rw [lt_div_iff₀ (tpos x hx)]; linarith [tlt x]
    linarith
  have pos : ∀ n, 0 < b n := by
    intro n
    induction n with
    | zero => rw [h0]; norm_num
    | succ n ih => rw [hb]; exact one_div_pos.mpr (by linarith [den _ ih])
  have step : ∀ m n, b m ≤ b n → b (m + 1) ≤ b (n + 1) := by
    intro m n h
    rw [hb, hb]
    have hm := den _ (pos m)
    have hn := den _ (pos n)
    apply one_div_le_one_div_of_le (by linarith)
    have := one_div_le_one_div_of_le (tpos _ (pos m)) (tmono _ _ h)
    linarith
  have conv : ∃ l, Filter.Tendsto b Filter.atTop (nhds l) := by
    rcases le_total (b 1) (b 0) with h | h
    · have anti : Antitone b := antitone_nat_of_succ_le (fun n => by
        induction n with
        | zero => exact h
        | succ n ih => exact step _ _ ih)
      exact ⟨_, tendsto_atTop_ciInf anti ⟨0, by rintro _ ⟨n, rfl⟩; exact (pos n).le⟩⟩
    · have mono : Monotone b := monotone_nat_of_le_succ (fun n => by
        induction n with
        | zero => exact h
        | succ n ih => exact step _ _ ih)
      refine ⟨_, tendsto_atTop_ciSup mono ⟨max 20 (1 / (1 + e)), ?_⟩⟩
      rintro _ ⟨n, rfl⟩
      cases n with
      | zero => rw [h0]; exact le_max_left _ _
      | succ n =>
        refine le_trans ?_ (le_max_right _ _)
        rw [hb]
        exact one_div_le_one_div_of_le (by linarith) (den _ (pos n)).le
  obtain ⟨l, hl⟩ := conv
  have hd : Filter.Tendsto (fun n => b (n + 1) - b n) Filter.atTop (nhds (l - l)) :=
    ((Filter.tendsto_add_atTop_iff_nat 1).mpr hl).sub hl
  rw [sub_self] at hd
  have := (Metric.tendsto_atTop.mp hd) (1 / 100) (by norm_num)
  obtain ⟨N, hN⟩ := this
  refine ⟨N, ?_⟩
  have := hN N le_rfl
  rw [Real.dist_eq, sub_zero] at this
  exact this.le
