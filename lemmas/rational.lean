import Mathlib.Data.Int.GCD
import Mathlib.Tactic
/-! Lemmas instantiated by props/C01 and props/C02.  In the obligations GCD and POW are uninterpreted
functions over the integers; these theorems are the facts the solver is given about them. -/
def G (a b : ℤ) : ℤ := (Int.gcd a b : ℤ)
def P (b k : ℤ) : ℤ := b ^ k.toNat

theorem gcd_base (a : ℤ) (h : 0 ≤ a) : G a 0 = a := by simp [G, abs_of_nonneg h]
theorem gcd_step (a b : ℤ) : G a b = G b (a % b) := by
  unfold G; rw [Int.gcd_comm b, Int.gcd_emod]
theorem gcd_symm (a b : ℤ) : G a b = G b a := by unfold G; rw [Int.gcd_comm]
theorem gcd_zero_l (b : ℤ) (h : 0 < b) : G 0 b = b := by simp [G, abs_of_pos h]
theorem gcd_pos (a b : ℤ) (h : 0 < a ∨ 0 < b) : 1 ≤ G a b := by
  unfold G
  have : 0 < Int.gcd a b := by
    rw [Int.gcd_pos_iff]; rcases h with h | h
    · left; omega
    · right; omega
  omega
theorem gcd_dvd_l (a b : ℤ) : a = G a b * (a / G a b) := by
  unfold G; rw [Int.mul_ediv_cancel']; exact Int.gcd_dvd_left ..
theorem gcd_dvd_r (a b : ℤ) : b = G a b * (b / G a b) := by
  unfold G; rw [Int.mul_ediv_cancel']; exact Int.gcd_dvd_right ..
theorem gcd_le (a b : ℤ) (h : 0 < a) : G a b ≤ a ∧ 1 ≤ a / G a b := by
  have hp := gcd_pos a b (Or.inl h)
  have hd := gcd_dvd_l a b
  have hq : 0 < a / G a b := by
    by_contra hc
    have : a / G a b ≤ 0 := not_lt.mp hc
    have h2 : G a b * (a / G a b) ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) this
    rw [← hd] at h2
    omega
  exact ⟨by nlinarith, hq⟩
theorem gcd_quot_coprime (a b : ℤ) (h : 0 < a ∨ 0 < b) : G (a / G a b) (b / G a b) = 1 := by
  have hp := gcd_pos a b h
  unfold G at *
  have := Int.gcd_div_gcd_div_gcd (i := a) (j := b) (by omega)
  exact_mod_cast this
theorem unique_repr (a b c d : ℤ) (hb : 1 ≤ b) (hd : 1 ≤ d) (h1 : G |a| b = 1) (h2 : G |c| d = 1)
    (h : a * d = b * c) : a = c ∧ b = d := by
  unfold G at h1 h2
  have h1' : IsCoprime a b := by
    rw [Int.isCoprime_iff_gcd_eq_one]; simpa [Int.gcd, Int.natAbs_abs] using h1
  have h2' : IsCoprime c d := by
    rw [Int.isCoprime_iff_gcd_eq_one]; simpa [Int.gcd, Int.natAbs_abs] using h2
  have e1 : b ∣ d := by
    have : b ∣ a * d := ⟨c, h⟩
    exact (h1'.symm).dvd_of_dvd_mul_left this
  have e2 : d ∣ b := by
    have : d ∣ c * b := ⟨a, by linarith⟩
    exact (h2'.symm).dvd_of_dvd_mul_left this
  have e : b = d := Int.dvd_antisymm (by omega) (by omega) e1 e2
  subst e
  refine ⟨?_, rfl⟩
  have hb0 : b ≠ 0 := by omega
  have : b * a = b * c := by linarith
  exact mul_left_cancel₀ hb0 this

theorem pow_zero' (b : ℤ) : P b 0 = 1 := by simp [P]
theorem pow_one' (b : ℤ) : P b 1 = b := by simp [P]
theorem pow_nat (b : ℤ) (n : ℕ) : P b n = b ^ n := by simp [P]
theorem pow_split (b k : ℤ) (h : 0 ≤ k) : P b k = (if k % 2 = 0 then 1 else b) * P (b * b) (k / 2) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((n : ℤ) / 2) = ((n / 2 : ℕ) : ℤ) := by simp
  rw [this, pow_nat, pow_nat]
  have e : b ^ n = b ^ (n % 2) * (b * b) ^ (n / 2) := by
    rw [← pow_two, ← pow_mul, ← pow_add, Nat.mod_add_div]
  rw [e]
  rcases Nat.mod_two_eq_zero_or_one n with h0 | h0
  · have : (n : ℤ) % 2 = 0 := by omega
    simp [h0, this]
  · have : (n : ℤ) % 2 ≠ 0 := by omega
    simp [h0, this]
theorem pow_sq_le (b k : ℤ) (h : 2 ≤ k) : b * b ≤ |P b k| := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
  have hn : 2 ≤ n := by omega
  rw [pow_nat, abs_pow]
  have hb : b * b = |b| ^ 2 := by rw [sq_abs, pow_two]
  rw [hb]
  rcases Int.eq_ofNat_of_zero_le (abs_nonneg b) with ⟨m, hm⟩
  rw [hm]
  rcases Nat.eq_zero_or_pos m with h0 | h0
  · subst h0; simp [Nat.pos_iff_ne_zero.mp (by omega : 0 < n)]
  · exact_mod_cast Nat.pow_le_pow_right h0 hn
theorem pow_half_le (b k : ℤ) (h : 2 ≤ k) : |P (b * b) (k / 2)| ≤ |P b k| := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
  have hn : 2 ≤ n := by omega
  have : ((n : ℤ) / 2) = ((n / 2 : ℕ) : ℤ) := by simp
  rw [this, pow_nat, pow_nat, abs_pow, abs_pow, ← pow_two, abs_pow, ← pow_mul]
  rcases Int.eq_ofNat_of_zero_le (abs_nonneg b) with ⟨m, hm⟩
  rw [hm]
  rcases Nat.eq_zero_or_pos m with h0 | h0
  · subst h0
    have h3 : 2 * (n / 2) ≠ 0 := by omega
    have h4 : n ≠ 0 := by omega
    push_cast; rw [zero_pow h3, zero_pow h4]
  · exact_mod_cast Nat.pow_le_pow_right h0 (by omega)
theorem pow_neg_base (b k : ℤ) (h : 0 ≤ k) : P (-b) k = (if k % 2 = 0 then 1 else -1) * P b k := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  rw [pow_nat, pow_nat, neg_pow]
  rcases Nat.mod_two_eq_zero_or_one n with h0 | h0
  · have : (n : ℤ) % 2 = 0 := by omega
    simp [this, Even.neg_one_pow (Nat.even_iff.mpr h0)]
  · have : (n : ℤ) % 2 ≠ 0 := by omega
    simp [this, Odd.neg_one_pow (Nat.odd_iff.mpr h0)]
theorem pow_pos' (b k : ℤ) (h : 1 ≤ b) : 1 ≤ P b k := one_le_pow₀ h
theorem pow_nonneg' (b k : ℤ) (h : 0 ≤ b) : 0 ≤ P b k := pow_nonneg h _
theorem pow_zero_base (k : ℤ) (h : 0 < k) : P 0 k = 0 := by
  unfold P; have : k.toNat ≠ 0 := by omega
  simp [this]
theorem coprime_pow (a b k : ℤ) (h : G |a| b = 1) : G |P a k| (P b k) = 1 := by
  unfold G P at *
  have h' : IsCoprime |a| b := by rw [Int.isCoprime_iff_gcd_eq_one]; exact_mod_cast h
  have := (h'.pow (m := k.toNat) (n := k.toNat))
  rw [abs_pow]
  exact_mod_cast (Int.isCoprime_iff_gcd_eq_one.mp this)
theorem coprime_sq (a b : ℤ) (h : G |a| b = 1) : G (a * a) (b * b) = 1 := by
  have := coprime_pow a b 2 h
  unfold P at this
  simpa [pow_two, abs_mul_abs_self] using this
