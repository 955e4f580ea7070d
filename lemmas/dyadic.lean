import Mathlib.NumberTheory.Padics.PadicVal.Basic
import Mathlib.Tactic
/-! Lemmas instantiated by props/A02.  In the obligations M, P and L are uninterpreted; these theorems are the facts the solver is given about them. -/
def M (k r : ℤ) : Prop := k ∣ r
def P (k : ℤ) : Prop := ∃ e : ℕ, k = 2 ^ e
def L (r : ℤ) : ℤ := 2 ^ (padicValInt 2 r)

theorem m_zero (k : ℤ) : M k 0 := dvd_zero k
theorem m_one (r : ℤ) : M 1 r := one_dvd r
theorem m_self (k : ℤ) : M k k := dvd_refl k
theorem m_add (k r : ℤ) : M k r ↔ M k (r + k) := by unfold M; exact (dvd_add_self_right).symm
theorem m_half (k r : ℤ) (h : M (2 * k) r) : M k r := Dvd.dvd.trans (Dvd.intro_left 2 rfl) h
theorem m_odd (k r : ℤ) (hk : 0 < k) (h : M (2 * k) r) : ¬ M (2 * k) (r + k) := by
  unfold M at *
  intro h2
  have h3 : 2 * k ∣ k := (dvd_add_right h).mp h2
  have := Int.le_of_dvd hk h3
  omega
theorem m_even (k r : ℤ) (h : M k r) (h2 : ¬ M (2 * k) r) : M (2 * k) (r + k) := by
  unfold M at *
  obtain ⟨q, rfl⟩ := h
  rcases Int.even_or_odd q with ⟨c, rfl⟩ | ⟨c, rfl⟩
  · exact absurd ⟨c, by ring⟩ h2
  · exact ⟨c + 1, by ring⟩
theorem m_gap (k r s : ℤ) (hr : M k r) (hs : M k s) (h : r < s) : r + k ≤ s := by
  unfold M at *
  have h1 : k ∣ s - r := dvd_sub hs hr
  have := Int.le_of_dvd (by omega) h1
  omega
theorem p_one : P 1 := ⟨0, by simp⟩
theorem p_pos (k : ℤ) (h : P k) : 1 ≤ k := by
  obtain ⟨e, rfl⟩ := h
  exact one_le_pow₀ (by norm_num)
theorem p_double (k : ℤ) (h : P k) : P (2 * k) := by
  obtain ⟨e, rfl⟩ := h
  exact ⟨e + 1, by rw [pow_succ]; ring⟩
theorem p_half (k : ℤ) (h : P k) (h1 : 1 < k) : k = 2 * (k / 2) ∧ P (k / 2) := by
  obtain ⟨e, rfl⟩ := h
  cases e with
  | zero => simp at h1
  | succ n =>
    have : (2 : ℤ) ^ (n + 1) = 2 * 2 ^ n := by rw [pow_succ]; ring
    rw [this]
    have h3 : (2 * 2 ^ n : ℤ) / 2 = 2 ^ n := by simp
    rw [h3]
    exact ⟨rfl, n, rfl⟩
theorem l_level (k r : ℤ) (hp : P k) (h : M k r) (h2 : ¬ M (2 * k) r) : L r = k := by
  obtain ⟨e, rfl⟩ := hp
  unfold M at *
  have hr : r ≠ 0 := by rintro rfl; exact h2 (dvd_zero _)
  have h2' : ¬ ((2:ℤ) ^ (e + 1) ∣ r) := by rwa [pow_succ, mul_comm]
  have a1 := (padicValInt_dvd_iff (p := 2) e r).mp (by exact_mod_cast h)
  have a2 : ¬ (r = 0 ∨ e + 1 ≤ padicValInt 2 r) := fun hh => h2' (by exact_mod_cast (padicValInt_dvd_iff (p := 2) (e+1) r).mpr hh)
  have : padicValInt 2 r = e := by
    rcases a1 with a1 | a1
    · exact absurd a1 hr
    · omega
  unfold L; rw [this]
def Q (k t : ℤ) : ℤ := k * t
theorem q_zero (k : ℤ) : Q k 0 = 0 := by unfold Q; ring
theorem q_succ (k t : ℤ) : Q k (t + 1) = Q k t + k := by unfold Q; ring
theorem q_reach (k t n : ℤ) (hk : 0 < k) : t ≥ (n + k - 1) / k ↔ Q k t ≥ n := by
  unfold Q
  constructor
  · intro h
    have h1 : (n + k - 1) < k * ((n + k - 1) / k + 1) := by
      have := Int.lt_ediv_add_one_mul_self (n + k - 1) hk
      linarith
    nlinarith
  · intro h
    have : (n + k - 1) / k < t + 1 := by
      apply Int.ediv_lt_of_lt_mul hk
      linarith
    omega
