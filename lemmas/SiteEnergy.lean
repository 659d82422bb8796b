import Mathlib

/-!
A line of a profile holds half the energy of the two bonds next to its site (proved of the code).
On a ring the energies of all lines of one sample add up to the bond energy.
`b i` is the energy of the bond between site i and the next site; `next` is the successor on the ring.
-/

theorem site_energies_add_up {n : ℕ} (next : Equiv.Perm (Fin n)) (b : Fin n → ℝ) :
    ∑ i, (b (next.symm i) + b i) / 2 = ∑ i, b i := by
  have h : ∑ i, b (next.symm i) = ∑ i, b i := Equiv.sum_comp next.symm b
  simp_rw [add_div]
  rw [Finset.sum_add_distrib, ← Finset.sum_div, ← Finset.sum_div, h]
  ring

/-- the averages of a profile over the points of a run: what the writer adds up per site -/
theorem profile_mean {n p : ℕ} (e : Fin n → Fin p → ℝ) (s : Fin n × Fin p → Fin n) (v : Fin n × Fin p → ℝ)
    (hs : ∀ k, s k = k.1) (hv : ∀ k, v k = e k.1 k.2) (i : Fin n) :
    (∑ k, if s k = i then v k else 0) / p = (∑ j, e i j) / p := by
  congr 1
  simp_rw [hs, hv]
  rw [Fintype.sum_prod_type]
  simp only
  rw [Finset.sum_eq_single i]
  · simp
  · intro b _ hb
    simp [hb]
  · simp
