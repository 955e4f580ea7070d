import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Tactic
/-! Lemmas instantiated by props/C02: real powers of positive numbers; exponents c/d and w/z. -/
theorem rp_pos (x e : ℝ) (h : 0 < x) : 0 < x ^ e := Real.rpow_pos_of_pos h e
theorem rp_zero (x : ℝ) : x ^ (0:ℝ) = 1 := Real.rpow_zero x
theorem rp_one : (1:ℝ) ^ (1:ℝ) = 1 := Real.rpow_one 1
theorem rp_add (x e g : ℝ) (h : 0 < x) : x ^ (e + g) = x ^ e * x ^ g := Real.rpow_add h e g
theorem rp_sub (x e g : ℝ) (h : 0 < x) : x ^ (e - g) = x ^ e / x ^ g := Real.rpow_sub h e g
theorem rp_mul (x y e : ℝ) (hx : 0 < x) (hy : 0 < y) : (x * y) ^ e = x ^ e * y ^ e := Real.mul_rpow hx.le hy.le
theorem rp_div (x y e : ℝ) (hx : 0 < x) (hy : 0 < y) : (x / y) ^ e = x ^ e / y ^ e := Real.div_rpow hx.le hy.le e
theorem rp_pow (x e p : ℝ) (h : 0 < x) : (x ^ e) ^ p = x ^ (e * p) := (Real.rpow_mul h.le e p).symm
theorem rp_root (x e : ℝ) (h : 0 < x) : x ^ (e / 2) * x ^ (e / 2) = x ^ e := by rw [← Real.rpow_add h]; congr 1; ring
theorem ex1 (c d z : ℤ) (hd : 1 ≤ d) (hz : 1 ≤ z) : ((c * z : ℤ) : ℝ) * (1 / ((d * z : ℤ) : ℝ)) = (c : ℝ) / d := by
  have h1 : (d : ℝ) ≠ 0 := by exact_mod_cast (by omega : d ≠ 0)
  have h2 : (z : ℝ) ≠ 0 := by exact_mod_cast (by omega : z ≠ 0)
  push_cast; field_simp
theorem rp_general_mul (x y : ℝ) (c d w z : ℤ) (hx : 0 < x) (hy : 0 < y) (hd : 1 ≤ d) (hz : 1 ≤ z) :
    (x ^ ((c * z : ℤ) : ℝ) * y ^ ((w * d : ℤ) : ℝ)) ^ (1 / ((d * z : ℤ) : ℝ)) = x ^ ((c:ℝ) / d) * y ^ ((w:ℝ) / z) := by
  rw [rp_mul _ _ _ (rp_pos _ _ hx) (rp_pos _ _ hy), rp_pow _ _ _ hx, rp_pow _ _ _ hy, ex1 c d z hd hz, mul_comm d z, ex1 w z d hz hd]
theorem rp_general_div (x y : ℝ) (c d w z : ℤ) (hx : 0 < x) (hy : 0 < y) (hd : 1 ≤ d) (hz : 1 ≤ z) :
    (x ^ ((c * z : ℤ) : ℝ) / y ^ ((w * d : ℤ) : ℝ)) ^ (1 / ((d * z : ℤ) : ℝ)) = x ^ ((c:ℝ) / d) / y ^ ((w:ℝ) / z) := by
  rw [rp_div _ _ _ (rp_pos _ _ hx) (rp_pos _ _ hy), rp_pow _ _ _ hx, rp_pow _ _ _ hy, ex1 c d z hd hz, mul_comm d z, ex1 w z d hz hd]
theorem rp_equal (x y : ℝ) (c d w z : ℤ) (hx : 0 < x) (hy : 0 < y) (hd : 1 ≤ d) (hz : 1 ≤ z) :
    x ^ ((c * z : ℤ) : ℝ) = y ^ ((w * d : ℤ) : ℝ) ↔ x ^ ((c:ℝ) / d) = y ^ ((w:ℝ) / z) := by
  have hm : (1 / ((d * z : ℤ) : ℝ)) ≠ 0 := by
    have : ((d * z : ℤ) : ℝ) ≠ 0 := by exact_mod_cast (by positivity : d * z ≠ 0)
    exact one_div_ne_zero this
  have h := Real.rpow_left_inj (x := x ^ ((c * z : ℤ) : ℝ)) (y := y ^ ((w * d : ℤ) : ℝ)) (rp_pos _ _ hx).le (rp_pos _ _ hy).le hm
  rw [← h, rp_pow _ _ _ hx, rp_pow _ _ _ hy, ex1 c d z hd hz, mul_comm d z, ex1 w z d hz hd]
theorem unique_repr (n d m e : ℤ) (hd : 1 ≤ d) (he : 1 ≤ e) (h1 : Int.gcd n d = 1) (h2 : Int.gcd m e = 1) (h : (n:ℝ)/d = (m:ℝ)/e) : n = m ∧ d = e := by
  have hdr : (d : ℝ) ≠ 0 := by exact_mod_cast (by omega : d ≠ 0)
  have her : (e : ℝ) ≠ 0 := by exact_mod_cast (by omega : e ≠ 0)
  have hx : n * e = m * d := by rw [div_eq_div_iff hdr her] at h; exact_mod_cast h
  have hde : d ∣ e := by
    have : d ∣ n * e := ⟨m, by rw [hx]; ring⟩
    exact (Int.isCoprime_iff_gcd_eq_one.mpr h1).symm.dvd_of_dvd_mul_left this
  have hed : e ∣ d := by
    have : e ∣ m * d := ⟨n, by rw [← hx]; ring⟩
    exact (Int.isCoprime_iff_gcd_eq_one.mpr h2).symm.dvd_of_dvd_mul_left this
  have : d = e := Int.dvd_antisymm (by omega) (by omega) hde hed
  subst this
  exact ⟨Int.eq_of_mul_eq_mul_right (by omega) hx, rfl⟩
