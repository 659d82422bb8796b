import Mathlib

/-- `N f`, the length the tables have after `f` logs of `n 0`, `n 1`, ... lines: a line number is below
    it exactly if some of these logs has that line. -/
theorem rows (n N : ℕ → ℕ) (h0 : N 0 = 0) (h : ∀ f, N (f + 1) = max (N f) (n f)) (F i : ℕ) :
    i < N F ↔ ∃ f < F, i < n f := by
  induction F with
  | zero => simp [h0]
  | succ F ih =>
    rw [h, lt_max_iff, ih]
    constructor
    · rintro (⟨f, hf, hi⟩ | hi)
      · exact ⟨f, by omega, hi⟩
      · exact ⟨F, by omega, hi⟩
    · rintro ⟨f, hf, hi⟩
      rcases Nat.lt_succ_iff_lt_or_eq.mp hf with h' | rfl
      · exact Or.inl ⟨f, h', hi⟩
      · exact Or.inr hi

/-- The entry kept by the loops is the sum over exactly the logs that have the line. -/
theorem totals (n N : ℕ → ℕ) (x T : ℕ → ℕ → ℝ) (h0 : N 0 = 0) (h : ∀ f, N (f + 1) = max (N f) (n f))
    (hT : ∀ f i, T (f + 1) i = (if i < N f then T f i else 0) + (if i < n f then x f i else 0))
    (F i : ℕ) : (if i < N F then T F i else 0) = ∑ f ∈ Finset.range F, if i < n f then x f i else 0 := by
  induction F with
  | zero => simp [h0]
  | succ F ih =>
    rw [Finset.sum_range_succ, ← ih, hT]
    by_cases hi : i < N (F + 1)
    · rw [if_pos hi]
    · rw [if_neg hi]
      have := h F
      have h1 : ¬ i < N F := by omega
      have h2 : ¬ i < n F := by omega
      simp [h1, h2]

/-- The count of a line that occurs is the number of logs that have it, and at least one. -/
theorem counts (n N : ℕ → ℕ) (C : ℕ → ℕ → ℝ) (h0 : N 0 = 0) (h : ∀ f, N (f + 1) = max (N f) (n f))
    (hC : ∀ f i, C (f + 1) i = (if i < N f then C f i else 0) + (if i < n f then 1 else 0))
    (F i : ℕ) (hi : i < N F) :
    C F i = ((Finset.range F).filter (fun f => i < n f)).card ∧ 1 ≤ C F i := by
  have e : C F i = ((Finset.range F).filter (fun f => i < n f)).card := by
    have := totals n N (fun _ _ => 1) C h0 h hC F i
    rw [if_pos hi] at this
    rw [this, Finset.sum_ite]
    simp
  refine ⟨e, ?_⟩
  obtain ⟨f, hf, hn⟩ := (rows n N h0 h F i).mp hi
  rw [e]
  have : 0 < ((Finset.range F).filter (fun f => i < n f)).card :=
    Finset.card_pos.mpr ⟨f, by simp [hf, hn]⟩
  exact_mod_cast this
