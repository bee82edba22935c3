/- The facts of real analysis the verifier builds in (pyvc/nf.py, pyvc/prove.py), machine-checked.
   setup.sh compiles this file when Lean and Mathlib are installed. -/
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.Analysis.SpecialFunctions.Complex.Arg
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Bounds
import Mathlib.Analysis.Real.Pi.Bounds
import Mathlib.Tactic

open Real

namespace Pyvc

/-! ### nf.py: normal form -/
theorem pyth (u : ℝ) : cos u ^ 2 = 1 - sin u ^ 2 := cos_sq' u
theorem sin_sum (a b : ℝ) : sin (a + b) = sin a * cos b + cos a * sin b := sin_add a b
theorem cos_sum (a b : ℝ) : cos (a + b) = cos a * cos b - sin a * sin b := cos_add a b
theorem quarter_sin (a : ℝ) : sin (a + π / 2) = cos a := sin_add_pi_div_two a
theorem quarter_cos (a : ℝ) : cos (a + π / 2) = -sin a := cos_add_pi_div_two a
theorem turns_sin (a : ℝ) (n : ℤ) : sin (a + n * (2 * π)) = sin a := sin_add_int_mul_two_pi a n
theorem turns_cos (a : ℝ) (n : ℤ) : cos (a + n * (2 * π)) = cos a := cos_add_int_mul_two_pi a n
theorem neg_sin (a : ℝ) : sin (-a) = -sin a := sin_neg a
theorem neg_cos (a : ℝ) : cos (-a) = cos a := cos_neg a
theorem sin_of_asin (e : ℝ) (h1 : -1 ≤ e) (h2 : e ≤ 1) : sin (arcsin e) = e := sin_arcsin h1 h2
theorem cos_of_asin (e : ℝ) : cos (arcsin e) = √(1 - e * e) := by rw [cos_arcsin, sq]
theorem cos_of_acos (e : ℝ) (h1 : -1 ≤ e) (h2 : e ≤ 1) : cos (arccos e) = e := cos_arccos h1 h2
theorem sin_of_acos (e : ℝ) : sin (arccos e) = √(1 - e * e) := by rw [sin_arccos, sq]
theorem asin_acos (e : ℝ) : arccos e = π / 2 - arcsin e := rfl
theorem asin_odd (e : ℝ) : arcsin (-e) = -arcsin e := arcsin_neg e

/-- numpy's arctan2 -/
noncomputable def atan2 (y x : ℝ) : ℝ := Complex.arg ⟨x, y⟩

lemma norm_mk (x y : ℝ) : ‖(⟨x, y⟩ : ℂ)‖ = √(y * y + x * x) := by
  rw [Complex.norm_def, Complex.normSq_mk, add_comm]

theorem sin_of_atan2 (y x : ℝ) : sin (atan2 y x) = y / √(y * y + x * x) := by
  unfold atan2; rw [Complex.sin_arg, norm_mk]
theorem cos_of_atan2 (y x : ℝ) (h : y * y + x * x ≠ 0) : cos (atan2 y x) = x / √(y * y + x * x) := by
  have hz : (⟨x, y⟩ : ℂ) ≠ 0 := by
    intro h0
    have h1 := congrArg Complex.re h0
    have h2 := congrArg Complex.im h0
    simp at h1 h2
    exact h (by rw [h1, h2]; ring)
  unfold atan2; rw [Complex.cos_arg hz, norm_mk]
theorem atan2_zero : sin (atan2 0 0) = 0 ∧ cos (atan2 0 0) = 1 := by
  have : atan2 0 0 = 0 := by
    unfold atan2; exact Complex.arg_zero
  simp [this]

theorem half_cos (e : ℝ) (h1 : -π ≤ e) (h2 : e ≤ π) : cos (e / 2) = √((1 + cos e) * (1 / 2)) := by
  have := cos_half h1 h2
  rw [this]; congr 1; ring
theorem half_sin_acos (e : ℝ) : sin (arccos e / 2) = √((1 - cos (arccos e)) * (1 / 2)) := by
  have := sin_half_eq_sqrt (arccos_nonneg e) (by linarith [arccos_le_pi e, pi_pos])
  rw [this]; congr 1; ring
theorem half_sin (e : ℝ) (h : cos (e / 2) ≠ 0) : sin (e / 2) = sin e * (1 / 2) / cos (e / 2) := by
  have : sin e = 2 * sin (e / 2) * cos (e / 2) := by rw [← sin_two_mul]; ring_nf
  rw [this]; field_simp
theorem sqrt_square (p : ℝ) (h : 0 ≤ p) : √p ^ 2 = p := sq_sqrt h
theorem sqrt_pull (k p : ℝ) (h : 0 ≤ k) : √(k ^ 2 * p) = k * √p := by
  rw [sqrt_mul (sq_nonneg k), sqrt_sq h]
theorem sqrt_of_square (p : ℝ) : √(p ^ 2) = |p| := sqrt_sq_eq_abs p
theorem sqrt_quotient (p d : ℝ) : √(p / d ^ 2) = √p * (1 / |d|) := by
  rw [sqrt_div' p (sq_nonneg d), sqrt_sq_eq_abs, mul_one_div]
theorem abs_square (p : ℝ) : |p| ^ 2 = p ^ 2 := sq_abs p
theorem abs_product (a b : ℝ) : |a * b| = |a| * |b| := abs_mul a b

/-! ### prove.py: range lemmas -/
section ranges
variable (A : ℝ)
theorem r1 (h : 0 ≤ A ∧ A ≤ π) : 0 ≤ sin A := sin_nonneg_of_nonneg_of_le_pi h.1 h.2
theorem r2 (h : 0 < A ∧ A < π) : 0 < sin A := sin_pos_of_pos_of_lt_pi h.1 h.2
theorem r3 (h : -π ≤ A ∧ A ≤ 0) : sin A ≤ 0 := sin_nonpos_of_nonpos_of_neg_pi_le h.2 h.1
theorem r4 (h : -π < A ∧ A < 0) : sin A < 0 := sin_neg_of_neg_of_neg_pi_lt h.2 h.1
theorem r5 (h : -π ≤ 2 * A ∧ 2 * A ≤ π) : 0 ≤ cos A :=
  cos_nonneg_of_neg_pi_div_two_le_of_le (by linarith [h.1]) (by linarith [h.2])
theorem r6 (h : -π < 2 * A ∧ 2 * A < π) : 0 < cos A :=
  cos_pos_of_mem_Ioo ⟨by linarith [h.1], by linarith [h.2]⟩
theorem r7 (h : π ≤ 2 * A ∧ 2 * A ≤ 3 * π) : cos A ≤ 0 :=
  cos_nonpos_of_pi_div_two_le_of_le (by linarith [h.1]) (by linarith [h.2])
theorem r8 (h : π < 2 * A ∧ 2 * A < 3 * π) : cos A < 0 :=
  cos_neg_of_pi_div_two_lt_of_lt (by linarith [h.1]) (by linarith [h.2])
theorem r9 (h : π ≤ A ∧ A ≤ 2 * π) : sin A ≤ 0 := by
  have := sin_nonneg_of_nonneg_of_le_pi (x := A - π) (by linarith [h.1]) (by linarith [h.2])
  rw [sin_sub_pi] at this; linarith
theorem r10 (h : π < A ∧ A < 2 * π) : sin A < 0 := by
  have := sin_pos_of_pos_of_lt_pi (x := A - π) (by linarith [h.1]) (by linarith [h.2])
  rw [sin_sub_pi] at this; linarith
theorem r11 (h : A = 0) : sin A = 0 ∧ cos A = 1 := by simp [h]
theorem r12 (h : A = π) : sin A = 0 ∧ cos A = -1 := by simp [h]
theorem r13 (h : 2 * A = π) : sin A = 1 ∧ cos A = 0 := by
  have : A = π / 2 := by linarith
  simp [this]
theorem r14 (h : -2 * π < A ∧ A < 2 * π ∧ cos A = 1) : A = 0 :=
  (cos_eq_one_iff_of_lt_of_lt (by linarith [h.1]) h.2.1).1 h.2.2
theorem r15 (h : 0 ≤ A) : sin A ≤ A := sin_le h
theorem r16 (h : A ≤ 0) : A ≤ sin A := le_sin h
end ranges

section inverses
variable (e : ℝ)
theorem s1 : -π ≤ 2 * arcsin e ∧ 2 * arcsin e ≤ π :=
  ⟨by linarith [neg_pi_div_two_le_arcsin e], by linarith [arcsin_le_pi_div_two e]⟩
theorem s2 (h : 0 ≤ e) : 0 ≤ arcsin e := arcsin_nonneg.2 h
theorem s3 (h : 0 < e) : 0 < arcsin e := arcsin_pos.2 h
theorem s4 (h : e ≤ 0) : arcsin e ≤ 0 := arcsin_nonpos.2 h
theorem s5 (h : e < 0) : arcsin e < 0 := arcsin_lt_zero.2 h
theorem s6 (h : e = 1) : 2 * arcsin e = π := by rw [h, arcsin_one]; ring
theorem s7 (h : e < 1) : 2 * arcsin e < π := by linarith [arcsin_lt_pi_div_two.2 h]
theorem s8 (h : -1 < e) : -π < 2 * arcsin e := by linarith [neg_pi_div_two_lt_arcsin.2 h]
theorem c1 : 0 ≤ arccos e ∧ arccos e ≤ π := ⟨arccos_nonneg e, arccos_le_pi e⟩
theorem c2 (h : e = 1) : arccos e = 0 := by rw [h, arccos_one]
theorem c3 (h : e = -1) : arccos e = π := by rw [h, arccos_neg_one]
theorem c4 (h : e < 1) : 0 < arccos e := arccos_pos.2 h
theorem c5 (h : -1 < e) : arccos e < π := by
  have := neg_pi_div_two_lt_arcsin.2 h
  unfold arccos; linarith
theorem c6 (h : 0 ≤ e) : 2 * arccos e ≤ π := by linarith [arccos_le_pi_div_two.2 h]
theorem c7 (h : e ≤ 0) : π ≤ 2 * arccos e := by
  have := arcsin_nonpos.2 h
  unfold arccos; linarith
theorem c8 (h : e = 0) : 2 * arccos e = π := by rw [h, arccos_zero]; ring
theorem c9 (h : 0 < e) : 2 * arccos e < π := by linarith [arccos_lt_pi_div_two.2 h]
theorem c10 (h : e < 0) : π < 2 * arccos e := by
  have := arcsin_lt_zero.2 h
  unfold arccos; linarith
end inverses

section atan
variable (y x : ℝ)
theorem a1 : -π ≤ atan2 y x ∧ atan2 y x ≤ π :=
  ⟨(Complex.neg_pi_lt_arg _).le, Complex.arg_le_pi _⟩
lemma sin_pos' (h : 0 < y) : 0 < sin (atan2 y x) := by
  rw [sin_of_atan2]; exact div_pos h (sqrt_pos.2 (by nlinarith [mul_self_nonneg x, mul_pos h h]))
theorem a0 (h : 0 ≤ y) : 0 ≤ atan2 y x := Complex.arg_nonneg_iff.2 h
theorem a2 (h : 0 < y) : 0 < atan2 y x ∧ atan2 y x < π := by
  have h0 := a0 y x h.le
  have hs := sin_pos' y x h
  refine ⟨lt_of_le_of_ne h0 ?_, lt_of_le_of_ne (Complex.arg_le_pi _) ?_⟩
  · intro he; rw [← he, sin_zero] at hs; exact lt_irrefl _ hs
  · intro he
    have : atan2 y x = π := he
    rw [this, sin_pi] at hs; exact lt_irrefl _ hs
theorem a3 (h : y < 0) : -π < atan2 y x ∧ atan2 y x < 0 :=
  ⟨Complex.neg_pi_lt_arg _, Complex.arg_neg_iff.2 h⟩
theorem a4 (h : y = 0 ∧ 0 < x) : atan2 y x = 0 :=
  Complex.arg_eq_zero_iff.2 ⟨h.2.le, h.1⟩
theorem a5 (h : y = 0 ∧ x < 0) : atan2 y x = π :=
  Complex.arg_eq_pi_iff.2 ⟨h.2, h.1⟩
theorem a6 (h : 0 < x) : -π < 2 * atan2 y x ∧ 2 * atan2 y x < π := by
  have := Complex.abs_arg_lt_pi_div_two_iff.2 (Or.inl (show 0 < (⟨x, y⟩ : ℂ).re from h))
  have h2 := abs_lt.1 this
  unfold atan2
  exact ⟨by linarith [h2.1], by linarith [h2.2]⟩
theorem a7 (h : x = 0 ∧ 0 < y) : 2 * atan2 y x = π := by
  have : atan2 y x = π / 2 := Complex.arg_eq_pi_div_two_iff.2 ⟨h.1, h.2⟩
  rw [this]; ring
theorem a8 (h : x = 0 ∧ y < 0) : 2 * atan2 y x = -π := by
  have : atan2 y x = -(π / 2) := Complex.arg_eq_neg_pi_div_two_iff.2 ⟨h.1, h.2⟩
  rw [this]; ring
theorem a9 (h : x < 0 ∧ 0 < y) : π < 2 * atan2 y x := by
  have hc : cos (atan2 y x) < 0 := by
    rw [cos_of_atan2 y x (by nlinarith [mul_self_nonneg x, mul_pos h.2 h.2])]
    exact div_neg_of_neg_of_pos h.1 (sqrt_pos.2 (by nlinarith [mul_self_nonneg x, mul_pos h.2 h.2]))
  by_contra hn
  have := r5 (atan2 y x) ⟨by linarith [(a2 y x h.2).1, pi_pos], by linarith⟩
  linarith
theorem a10 (h : x < 0 ∧ y < 0) : 2 * atan2 y x < -π := by
  have hy : 0 < y * y := by nlinarith [h.2]
  have hc : cos (atan2 y x) < 0 := by
    rw [cos_of_atan2 y x (by nlinarith [mul_self_nonneg x])]
    exact div_neg_of_neg_of_pos h.1 (sqrt_pos.2 (by nlinarith [mul_self_nonneg x]))
  by_contra hn
  have := r5 (atan2 y x) ⟨by linarith, by linarith [(a3 y x h.2).2, pi_pos]⟩
  linarith
end atan

theorem pi_bounds : (314159265 : ℝ) / 100000000 < π ∧ π < 314159266 / 100000000 :=
  ⟨by linarith [pi_gt_d20], by linarith [pi_lt_d20]⟩

/-! ### facts some contracts assume of their ghost angles -/
theorem sin_pos_of_dogleg (D : ℝ) (h0 : 0 < D) (h1 : D < π) : 0 < sin D := r2 D ⟨h0, h1⟩
theorem cos_half_pos (D : ℝ) (h0 : 0 ≤ D) (h1 : D < π) : 0 < cos (D / 2) :=
  r6 (D / 2) ⟨by linarith [pi_pos], by linarith⟩
/-- haversine: the dogleg get_dogleg computes is the angle between the directions -/
theorem haversine (i1 a1 i2 a2 : ℝ) :
    1 - 2 * (sin ((i2 - i1) / 2) ^ 2 + sin i1 * sin i2 * sin ((a2 - a1) / 2) ^ 2)
      = (sin i1 * cos a1) * (sin i2 * cos a2) + (sin i1 * sin a1) * (sin i2 * sin a2) + cos i1 * cos i2 := by
  have h (z : ℝ) : sin (z / 2) ^ 2 = 1 / 2 - cos z / 2 := by
    rw [sin_sq_eq_half_sub, mul_div_cancel₀ z (two_ne_zero)]
  rw [h, h, cos_sub, cos_sub]; ring
/-- the minimum-curvature chord: an arc of length L turning D from t1 to t2 advances L tan(D/2)/D (t1 + t2);
    here the unit-speed arc's end point in the plane of t1 and its normal -/
theorem arc_chord (L D : ℝ) (h0 : 0 < D) (h1 : D < π) :
    (L / D) * sin D = L * (tan (D / 2) / D) * (1 + cos D) ∧
    (L / D) * (1 - cos D) = L * (tan (D / 2) / D) * sin D := by
  have hc : cos (D / 2) ≠ 0 := (cos_half_pos D h0.le h1).ne'
  have e1 : sin D = 2 * sin (D / 2) * cos (D / 2) := by rw [← sin_two_mul]; ring_nf
  have e2 : cos D = 2 * cos (D / 2) ^ 2 - 1 := by rw [← cos_two_mul]; ring_nf
  have e3 := sin_sq_add_cos_sq (D / 2)
  rw [tan_eq_sin_div_cos, e1, e2]
  constructor
  · field_simp; ring
  · field_simp
    linear_combination (-2 * L) * e3

end Pyvc
