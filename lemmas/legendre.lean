/- Lemmas used by the contracts of C15-C17: Legendre coefficients and norms of the closed forms. -/
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Analysis.SpecialFunctions.Gamma.Beta
open Real intervalIntegral

/-- Legendre polynomials (recurrence of Bonnet) -/
noncomputable def P : ℕ → ℝ → ℝ
  | 0, _ => 1
  | 1, x => x
  | n + 2, x => ((2 * (n:ℝ) + 3) * x * P (n + 1) x - ((n:ℝ) + 1) * P n x) / ((n:ℝ) + 2)

/-- their derivatives -/
noncomputable def D : ℕ → ℝ → ℝ
  | 0, _ => 0
  | 1, _ => 1
  | n + 2, x => ((2 * (n:ℝ) + 3) * (P (n + 1) x + x * D (n + 1) x) - ((n:ℝ) + 1) * D n x) / ((n:ℝ) + 2)

theorem P_rec (n : ℕ) (x : ℝ) : ((n:ℝ) + 2) * P (n + 2) x = (2 * (n:ℝ) + 3) * x * P (n + 1) x - ((n:ℝ) + 1) * P n x := by
  have h : (n:ℝ) + 2 ≠ 0 := by positivity
  rw [P]; field_simp

theorem P_deriv : ∀ (n : ℕ) (x : ℝ), HasDerivAt (P n) (D n x) x
  | 0, x => by
    have : P 0 = fun _ => (1:ℝ) := by funext y; rfl
    rw [this]; exact hasDerivAt_const x 1
  | 1, x => by
    have : P 1 = fun y => y := by funext y; rfl
    rw [this]; exact hasDerivAt_id x
  | n + 2, x => by
    have h1 := P_deriv (n + 1) x
    have h0 := P_deriv n x
    have e : P (n + 2) = fun y => ((2 * (n:ℝ) + 3) * y * P (n + 1) y - ((n:ℝ) + 1) * P n y) / ((n:ℝ) + 2) := by funext y; rfl
    rw [e]
    have hy : HasDerivAt (fun y : ℝ => (2 * (n:ℝ) + 3) * y) (2 * (n:ℝ) + 3) x := by
      simpa using (hasDerivAt_id x).const_mul (2 * (n:ℝ) + 3)
    have := ((hy.mul h1).sub (h0.const_mul ((n:ℝ) + 1))).div_const ((n:ℝ) + 2)
    have e2 : D (n + 2) x = ((2 * (n:ℝ) + 3) * (P (n + 1) x + x * D (n + 1) x) - ((n:ℝ) + 1) * D n x) / ((n:ℝ) + 2) := rfl
    refine this.congr_deriv ?_
    rw [e2]; ring

theorem P_cont (n : ℕ) : Continuous (P n) := continuous_iff_continuousAt.mpr fun x => (P_deriv n x).continuousAt

theorem D_cont : ∀ n : ℕ, Continuous (D n)
  | 0 => by have : D 0 = fun _ => (0:ℝ) := by funext y; rfl
            rw [this]; exact continuous_const
  | 1 => by have : D 1 = fun _ => (1:ℝ) := by funext y; rfl
            rw [this]; exact continuous_const
  | n + 2 => by
    have e : D (n + 2) = fun x => ((2 * (n:ℝ) + 3) * (P (n + 1) x + x * D (n + 1) x) - ((n:ℝ) + 1) * D n x) / ((n:ℝ) + 2) := by funext y; rfl
    rw [e]
    have := P_cont (n + 1); have := D_cont (n + 1); have := D_cont n
    fun_prop

/-- x D_(n+1) - D_n = (n+1) P_(n+1)  and  D_(n+1) - x D_n = (n+1) P_n -/
theorem D_id : ∀ (n : ℕ) (x : ℝ), x * D (n + 1) x - D n x = ((n:ℝ) + 1) * P (n + 1) x ∧ D (n + 1) x - x * D n x = ((n:ℝ) + 1) * P n x
  | 0, x => by simp [D, P]
  | n + 1, x => by
    obtain ⟨hb, ha⟩ := D_id n x
    have h : (n:ℝ) + 2 ≠ 0 := by positivity
    have hr := P_rec n x
    have hd : ((n:ℝ) + 2) * D (n + 2) x = (2 * (n:ℝ) + 3) * (P (n + 1) x + x * D (n + 1) x) - ((n:ℝ) + 1) * D n x := by
      rw [D]; field_simp
    have a2 : D (n + 2) x - x * D (n + 1) x = ((n:ℝ) + 2) * P (n + 1) x := by
      apply mul_left_cancel₀ h
      linear_combination hd + ((n:ℝ) + 1) * hb
    refine ⟨?_, ?_⟩
    · push_cast
      linear_combination x * a2 - hr + x * hb - ha
    · push_cast; linear_combination a2

theorem P_one : ∀ n : ℕ, P n 1 = 1
  | 0 => rfl
  | 1 => rfl
  | n + 2 => by
    have h : (n:ℝ) + 2 ≠ 0 := by positivity
    have hr := P_rec n 1
    rw [P_one (n + 1), P_one n] at hr
    apply mul_left_cancel₀ h
    linear_combination hr

theorem P_neg_one : ∀ n : ℕ, P n (-1) = (-1) ^ n
  | 0 => by simp [P]
  | 1 => by simp [P]
  | n + 2 => by
    have h : (n:ℝ) + 2 ≠ 0 := by positivity
    have hr := P_rec n (-1)
    rw [P_neg_one (n + 1), P_neg_one n] at hr
    apply mul_left_cancel₀ h
    rw [hr]; ring

/-- D_(n+2) - D_n = (2 n + 3) P_(n+1) -/
theorem D_diff (n : ℕ) (x : ℝ) : D (n + 2) x - D n x = (2 * (n:ℝ) + 3) * P (n + 1) x := by
  have h1 := (D_id n x).1
  have h2 := (D_id (n + 1) x).2
  push_cast at h2
  linear_combination h1 + h2

/-- the Henyey-Greenstein function as a function of the cosine of the scattering angle -/
noncomputable def hg (t x : ℝ) : ℝ := (1 - t ^ 2) / (1 + t ^ 2 - 2 * t * x) ^ (3 / 2 : ℝ)

theorem w_pos {t x : ℝ} (ht : |t| < 1) (hx : x ∈ Set.Icc (-1:ℝ) 1) : 0 < 1 + t ^ 2 - 2 * t * x := by
  have h := abs_lt.mp ht
  have h1 := hx.1
  have h2 := hx.2
  by_cases h0 : 0 ≤ t
  · nlinarith [mul_nonneg h0 (sub_nonneg.mpr h2), sq_nonneg (1 - t), mul_self_pos.mpr (by linarith : (1:ℝ) - t ≠ 0)]
  · have h0' : 0 ≤ -t := by linarith
    nlinarith [mul_nonneg h0' (by linarith : (0:ℝ) ≤ x + 1), mul_self_pos.mpr (by linarith : (1:ℝ) + t ≠ 0)]

theorem hg_nonneg {t x : ℝ} (ht : |t| < 1) (hx : x ∈ Set.Icc (-1:ℝ) 1) : 0 ≤ hg t x := by
  have h := abs_lt.mp ht
  unfold hg
  apply div_nonneg
  · nlinarith
  · exact (rpow_pos_of_pos (w_pos ht hx) _).le

/-- K_n: integral of w^(-3/2) P_n, J_n: integral of w^(-1/2) P_n -/
noncomputable def K (t : ℝ) (n : ℕ) : ℝ := ∫ x in (-1:ℝ)..1, (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ) * P n x
noncomputable def J (t : ℝ) (n : ℕ) : ℝ := ∫ x in (-1:ℝ)..1, (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ) * P n x

theorem w_cont {t : ℝ} (ht : |t| < 1) (p : ℝ) {f : ℝ → ℝ} (hf : Continuous f) :
    IntervalIntegrable (fun x => (1 + t ^ 2 - 2 * t * x) ^ p * f x) MeasureTheory.volume (-1) 1 := by
  apply ContinuousOn.intervalIntegrable
  rw [Set.uIcc_of_le (by norm_num)]
  apply ContinuousOn.mul _ hf.continuousOn
  apply ContinuousOn.rpow_const
  · fun_prop
  · intro x hx
    exact Or.inl (w_pos ht hx).ne'

theorem w_deriv {t x : ℝ} (ht : |t| < 1) (hx : x ∈ Set.Icc (-1:ℝ) 1) :
    HasDerivAt (fun y => (1 + t ^ 2 - 2 * t * y) ^ (-(1 / 2) : ℝ)) (t * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ)) x := by
  have h : HasDerivAt (fun y : ℝ => 1 + t ^ 2 - 2 * t * y) (-(2 * t)) x := by
    simpa using ((hasDerivAt_id x).const_mul (2 * t)).const_sub (1 + t ^ 2)
  have := h.rpow_const (p := -(1 / 2)) (Or.inl (w_pos ht hx).ne')
  convert this using 1
  rw [show (-(1 / 2) - 1 : ℝ) = -(3 / 2) by norm_num]
  ring

/-- integration by parts -/
theorem K_diff {t : ℝ} (ht : |t| < 1) (n : ℕ) : t * (K t (n + 2) - K t n) = -(2 * (n:ℝ) + 3) * J t (n + 1) := by
  have h := integral_mul_deriv_eq_deriv_mul (a := -1) (b := 1) (u := fun x => (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ))
    (v := fun x => P (n + 2) x - P n x) (u' := fun x => t * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ))
    (v' := fun x => D (n + 2) x - D n x) ?_ ?_ ?_ ?_
  · rw [P_one, P_one, P_neg_one, P_neg_one] at h
    have e1 : (∫ x in (-1:ℝ)..1, (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ) * (D (n + 2) x - D n x)) = (2 * (n:ℝ) + 3) * J t (n + 1) := by
      unfold J
      rw [← intervalIntegral.integral_const_mul]
      congr 1; funext x; rw [D_diff]; ring
    have e2 : (∫ x in (-1:ℝ)..1, t * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ) * (P (n + 2) x - P n x)) = t * (K t (n + 2) - K t n) := by
      unfold K
      rw [← intervalIntegral.integral_sub (w_cont ht _ (P_cont _)) (w_cont ht _ (P_cont _)), ← intervalIntegral.integral_const_mul]
      congr 1; funext x; ring
    rw [e1, e2] at h
    have e3 : ((-1:ℝ)) ^ (n + 2) - (-1) ^ n = 0 := by ring
    rw [e3] at h
    linarith
  · intro x hx
    rw [Set.uIcc_of_le (by norm_num)] at hx
    exact w_deriv ht hx
  · intro x _
    exact (P_deriv _ x).sub (P_deriv _ x)
  · have := (w_cont ht (-(3 / 2)) (continuous_const (y := t)))
    simpa [mul_comm] using this
  · exact ((D_cont _).sub (D_cont _)).intervalIntegrable _ _

/-- w w^(-3/2) = w^(-1/2) with the recurrence of Bonnet -/
theorem J_rec {t : ℝ} (ht : |t| < 1) (n : ℕ) :
    (2 * (n:ℝ) + 3) * J t (n + 1) = (2 * (n:ℝ) + 3) * (1 + t ^ 2) * K t (n + 1) - 2 * t * (((n:ℝ) + 2) * K t (n + 2) + ((n:ℝ) + 1) * K t n) := by
  unfold J K
  rw [← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul,
    ← intervalIntegral.integral_const_mul,
    ← intervalIntegral.integral_add ((w_cont ht _ (P_cont _)).const_mul _) ((w_cont ht _ (P_cont _)).const_mul _),
    ← intervalIntegral.integral_const_mul,
    ← intervalIntegral.integral_sub ((w_cont ht _ (P_cont _)).const_mul _)
      ((((w_cont ht _ (P_cont _)).const_mul _).add ((w_cont ht _ (P_cont _)).const_mul _)).const_mul _)]
  apply intervalIntegral.integral_congr
  intro x hx
  rw [Set.uIcc_of_le (by norm_num)] at hx
  have hw := w_pos ht hx
  have e : (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ) = (1 + t ^ 2 - 2 * t * x) * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ) := by
    rw [show (-(1 / 2) : ℝ) = 1 + -(3 / 2) by norm_num, rpow_add hw, rpow_one]
  have hr := P_rec n x
  simp only
  rw [e]
  linear_combination (2 * t * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ)) * hr

theorem K_rec {t : ℝ} (ht : |t| < 1) (n : ℕ) : t * K t (n + 2) = (1 + t ^ 2) * K t (n + 1) - t * K t n := by
  have h1 := K_diff ht n
  have h2 := J_rec ht n
  have h : (2 * (n:ℝ) + 3) ≠ 0 := by positivity
  apply mul_left_cancel₀ h
  linear_combination (-1) * h1 + h2

theorem w_one {t : ℝ} (ht : |t| < 1) (p : ℝ) : (1 + t ^ 2 - 2 * t * 1) ^ (p / 2) = (1 - t) ^ p ∧ (1 + t ^ 2 - 2 * t * (-1)) ^ (p / 2) = (1 + t) ^ p := by
  have h := abs_lt.mp ht
  have h1 : (0:ℝ) ≤ 1 - t := by linarith
  have h2 : (0:ℝ) ≤ 1 + t := by linarith
  constructor
  · rw [show 1 + t ^ 2 - 2 * t * 1 = (1 - t) ^ (2:ℝ) by rw [rpow_two]; ring, ← rpow_mul h1]
    congr 1; ring
  · rw [show 1 + t ^ 2 - 2 * t * (-1) = (1 + t) ^ (2:ℝ) by rw [rpow_two]; ring, ← rpow_mul h2]
    congr 1; ring

theorem K_zero {t : ℝ} (ht : |t| < 1) (h0 : t ≠ 0) : K t 0 = 2 / (1 - t ^ 2) := by
  have h := abs_lt.mp ht
  have h1 : (1:ℝ) - t ≠ 0 := by linarith
  have h2 : (1:ℝ) + t ≠ 0 := by linarith
  have hi := integral_eq_sub_of_hasDerivAt (a := -1) (b := 1) (f := fun y => (1 + t ^ 2 - 2 * t * y) ^ (-(1 / 2) : ℝ))
    (f' := fun x => t * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ)) (fun x hx => w_deriv ht (by rwa [Set.uIcc_of_le (by norm_num)] at hx))
    (by have := (w_cont ht (-(3 / 2)) (continuous_const (y := t))); simpa [mul_comm] using this)
  rw [show (-(1 / 2) : ℝ) = (-1) / 2 by norm_num, (w_one ht (-1)).1, (w_one ht (-1)).2, intervalIntegral.integral_const_mul, rpow_neg_one, rpow_neg_one] at hi
  have e : K t 0 = ∫ x in (-1:ℝ)..1, (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ) := by
    unfold K; simp [P]
  rw [e]
  apply mul_left_cancel₀ h0
  rw [hi, show 1 - t ^ 2 = (1 - t) * (1 + t) by ring]
  field_simp
  ring

theorem J_zero {t : ℝ} (ht : |t| < 1) (h0 : t ≠ 0) : J t 0 = 2 := by
  have h := abs_lt.mp ht
  have hd : ∀ x ∈ Set.uIcc (-1:ℝ) 1, HasDerivAt (fun y => -(1 + t ^ 2 - 2 * t * y) ^ ((1 / 2) : ℝ) / t) ((1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ)) x := by
    intro x hx
    rw [Set.uIcc_of_le (by norm_num)] at hx
    have hl : HasDerivAt (fun y : ℝ => 1 + t ^ 2 - 2 * t * y) (-(2 * t)) x := by
      simpa using ((hasDerivAt_id x).const_mul (2 * t)).const_sub (1 + t ^ 2)
    have := ((hl.rpow_const (p := 1 / 2) (Or.inl (w_pos ht hx).ne')).neg).div_const t
    refine this.congr_deriv ?_
    rw [show (1 / 2 - 1 : ℝ) = -(1 / 2) by norm_num]
    field_simp
  have hi := integral_eq_sub_of_hasDerivAt hd (by simpa using w_cont ht (-(1 / 2)) (continuous_const (y := 1)))
  have e : J t 0 = ∫ x in (-1:ℝ)..1, (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ) := by
    unfold J; simp [P]
  rw [e, hi, (w_one ht 1).1, (w_one ht 1).2, rpow_one, rpow_one]
  field_simp
  ring

theorem K_one {t : ℝ} (ht : |t| < 1) (h0 : t ≠ 0) : K t 1 = 2 * t / (1 - t ^ 2) := by
  have h := abs_lt.mp ht
  have h3 : (1:ℝ) - t ^ 2 ≠ 0 := by nlinarith
  have e : J t 0 = (1 + t ^ 2) * K t 0 - 2 * t * K t 1 := by
    unfold J K
    rw [← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul,
      ← intervalIntegral.integral_sub ((w_cont ht _ (P_cont _)).const_mul _) ((w_cont ht _ (P_cont _)).const_mul _)]
    apply intervalIntegral.integral_congr
    intro x hx
    rw [Set.uIcc_of_le (by norm_num)] at hx
    have e : (1 + t ^ 2 - 2 * t * x) ^ (-(1 / 2) : ℝ) = (1 + t ^ 2 - 2 * t * x) * (1 + t ^ 2 - 2 * t * x) ^ (-(3 / 2) : ℝ) := by
      rw [show (-(1 / 2) : ℝ) = 1 + -(3 / 2) by norm_num, rpow_add (w_pos ht hx), rpow_one]
    simp only [P]
    rw [e]; ring
  rw [J_zero ht h0, K_zero ht h0] at e
  have h4 : 2 * t * (K t 1) = 2 * t * (2 * t / (1 - t ^ 2)) := by
    have : 2 * t * K t 1 = (1 + t ^ 2) * (2 / (1 - t ^ 2)) - 2 := by linarith
    rw [this]; field_simp; ring
  exact mul_left_cancel₀ (by simpa using h0) h4

theorem K_eq {t : ℝ} (ht : |t| < 1) (h0 : t ≠ 0) : ∀ n : ℕ, K t n = 2 * t ^ n / (1 - t ^ 2)
  | 0 => by simpa using K_zero ht h0
  | 1 => by simpa using K_one ht h0
  | n + 2 => by
    have hr := K_rec ht n
    rw [K_eq ht h0 (n + 1), K_eq ht h0 n] at hr
    apply mul_left_cancel₀ h0
    rw [hr]; ring

theorem P_int : ∀ n : ℕ, (∫ x in (-1:ℝ)..1, P n x) = if n = 0 then 2 else 0
  | 0 => by simp [P]; norm_num
  | n + 1 => by
    have h : (2 * (n:ℝ) + 3) ≠ 0 := by positivity
    have hi := integral_eq_sub_of_hasDerivAt (a := -1) (b := 1) (f := fun x => P (n + 2) x - P n x) (f' := fun x => (2 * (n:ℝ) + 3) * P (n + 1) x)
      (fun x _ => by rw [← D_diff]; exact (P_deriv _ x).sub (P_deriv _ x)) ((continuous_const.mul (P_cont _)).intervalIntegrable _ _)
    simp only [P_one, P_neg_one] at hi
    rw [intervalIntegral.integral_const_mul] at hi
    have e3 : ((-1:ℝ)) ^ (n + 2) - (-1) ^ n = 0 := by ring
    rw [e3] at hi
    simp only [Nat.add_eq_zero_iff, one_ne_zero, and_false, if_false]
    apply mul_left_cancel₀ h
    linarith

/-- Legendre coefficients of the Henyey-Greenstein function -/
theorem hg_coef {t : ℝ} (ht : |t| < 1) (n : ℕ) : (∫ x in (-1:ℝ)..1, hg t x * P n x) = 2 * t ^ n := by
  by_cases h0 : t = 0
  · subst h0
    have : ∀ x : ℝ, hg 0 x * P n x = P n x := by intro x; simp [hg]
    simp only [this, P_int]
    by_cases h : n = 0 <;> simp [h]
  · have h := abs_lt.mp ht
    have h3 : (1:ℝ) - t ^ 2 ≠ 0 := by nlinarith
    have e : (∫ x in (-1:ℝ)..1, hg t x * P n x) = (1 - t ^ 2) * K t n := by
      unfold K
      rw [← intervalIntegral.integral_const_mul]
      apply intervalIntegral.integral_congr
      intro x hx
      rw [Set.uIcc_of_le (by norm_num)] at hx
      simp only [hg]
      rw [rpow_neg (w_pos ht hx).le, div_eq_mul_inv]; ring
    rw [e, K_eq ht h0]; field_simp

theorem hg_int {t : ℝ} (ht : |t| < 1) {f : ℝ → ℝ} (hf : Continuous f) :
    IntervalIntegrable (fun x => hg t x * f x) MeasureTheory.volume (-1) 1 := by
  apply ContinuousOn.intervalIntegrable
  rw [Set.uIcc_of_le (by norm_num)]
  apply ContinuousOn.mul _ hf.continuousOn
  unfold hg
  apply ContinuousOn.div continuousOn_const
  · apply ContinuousOn.rpow_const
    · fun_prop
    · intro x hx
      exact Or.inl (w_pos ht hx).ne'
  · intro x hx
    exact (rpow_pos_of_pos (w_pos ht hx) _).ne'

/-- x^2 P_n as a combination of Legendre polynomials -/
theorem x2P (n : ℕ) (x : ℝ) : x ^ 2 * P (n + 2) x = (n + 3) * (n + 4) / ((2 * n + 5) * (2 * n + 7)) * P (n + 4) x
    + ((n + 3) ^ 2 / ((2 * n + 5) * (2 * n + 7)) + (n + 2) ^ 2 / ((2 * n + 5) * (2 * n + 3))) * P (n + 2) x
    + (n + 2) * (n + 1) / ((2 * n + 5) * (2 * n + 3)) * P n x := by
  have h0 := P_rec n x
  have h1 := P_rec (n + 1) x
  have h2 := P_rec (n + 2) x
  push_cast at h1 h2
  have a : (2 * (n:ℝ) + 3) ≠ 0 := by positivity
  have b : (2 * (n:ℝ) + 5) ≠ 0 := by positivity
  have d : (2 * (n:ℝ) + 7) ≠ 0 := by positivity
  field_simp
  linear_combination (-(2 * (n:ℝ) + 7) * (2 * n + 3) * x) * h1 - ((n:ℝ) + 3) * (2 * n + 3) * h2 - ((n:ℝ) + 2) * (2 * n + 7) * h0

theorem x2P_zero (x : ℝ) : x ^ 2 * P 0 x = 2 / 3 * P 2 x + 1 / 3 * P 0 x := by
  simp [P]; ring

theorem x2P_one (x : ℝ) : x ^ 2 * P 1 x = 2 / 5 * P 3 x + 3 / 5 * P 1 x := by
  simp [P]; ring

/-- coefficients of the Henyey-Greenstein-Rayleigh function as the code computes them -/
noncomputable def hgr (t : ℝ) (n : ℕ) : ℝ := 3 / (8 * π) / (2 + t ^ 2) *
  ((if n < 2 then 0 else (n:ℝ) * (n - 1) / (2 * n - 1) * t ^ (n - 2)) + ((n:ℝ) + 2) * (n + 1) / (2 * n + 3) * t ^ (n + 2)
    + (((n:ℝ) + 1) ^ 2 / (2 * n + 3) + (5 * (n:ℝ) ^ 2 - 1) / (2 * n - 1)) * t ^ n)

theorem hgr_coef {t : ℝ} (ht : |t| < 1) (n : ℕ) :
    (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x * P n x) = hgr t n := by
  have hp : (2 + t ^ 2) ≠ 0 := by positivity
  have hpi := pi_ne_zero
  have key : ∀ (m k : ℕ) (a b d : ℝ), (∀ x : ℝ, x ^ 2 * P n x = a * P m x + b * P n x + d * P k x) →
      (∫ x in (-1:ℝ)..1, 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x * P n x)
      = 3 / (8 * π) / (2 + t ^ 2) * (a * (2 * t ^ m) + (1 + b) * (2 * t ^ n) + d * (2 * t ^ k)) := by
    intro m k a b d h
    have e : ∀ x : ℝ, 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x * P n x
        = 3 / (8 * π) / (2 + t ^ 2) * (a * (hg t x * P m x) + (1 + b) * (hg t x * P n x) + d * (hg t x * P k x)) := by
      intro x
      linear_combination (3 / (8 * π) / (2 + t ^ 2) * hg t x) * h x
    simp only [e]
    rw [intervalIntegral.integral_const_mul,
      intervalIntegral.integral_add (((hg_int ht (P_cont _)).const_mul _).add ((hg_int ht (P_cont _)).const_mul _)) ((hg_int ht (P_cont _)).const_mul _),
      intervalIntegral.integral_add ((hg_int ht (P_cont _)).const_mul _) ((hg_int ht (P_cont _)).const_mul _),
      intervalIntegral.integral_const_mul, intervalIntegral.integral_const_mul, intervalIntegral.integral_const_mul, hg_coef ht, hg_coef ht, hg_coef ht]
  unfold hgr
  rcases n with _ | _ | n
  · rw [key 2 0 (2 / 3) (1 / 3) 0 (by intro x; rw [x2P_zero]; ring)]
    simp; field_simp; ring
  · rw [key 3 0 (2 / 5) (3 / 5) 0 (by intro x; rw [x2P_one]; ring)]
    simp; field_simp; ring
  · rw [key (n + 4) n _ _ _ (x2P n)]
    have a : (2 * (n:ℝ) + 3) ≠ 0 := by positivity
    have b : (2 * (n:ℝ) + 5) ≠ 0 := by positivity
    have d : (2 * (n:ℝ) + 7) ≠ 0 := by positivity
    have h2 : ¬ (n + 1 + 1 < 2) := by omega
    have h3 : n + 1 + 1 - 2 = n := by omega
    rw [if_neg h2, h3]
    push_cast
    rw [show (2 * ((n:ℝ) + 1 + 1) - 1) = 2 * n + 3 by ring, show (2 * ((n:ℝ) + 1 + 1) + 3) = 2 * n + 7 by ring]
    field_simp
    ring

/-- coefficients of the Rayleigh function -/
theorem ray_coef (n : ℕ) : (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, 3 / (16 * π) * (1 + x ^ 2) * P n x)
    = (if n = 0 then 1 / 4 else if n = 2 then 1 / 8 else 0) / π := by
  have hpi := pi_ne_zero
  have pint : ∀ m : ℕ, IntervalIntegrable (P m) MeasureTheory.volume (-1) 1 := fun m => (P_cont m).intervalIntegrable _ _
  have key : ∀ (m k : ℕ) (a b d : ℝ), (∀ x : ℝ, x ^ 2 * P n x = a * P m x + b * P n x + d * P k x) →
      (∫ x in (-1:ℝ)..1, 3 / (16 * π) * (1 + x ^ 2) * P n x)
      = 3 / (16 * π) * (a * (if m = 0 then 2 else 0) + (1 + b) * (if n = 0 then 2 else 0) + d * (if k = 0 then 2 else 0)) := by
    intro m k a b d h
    have e : ∀ x : ℝ, 3 / (16 * π) * (1 + x ^ 2) * P n x = 3 / (16 * π) * (a * P m x + (1 + b) * P n x + d * P k x) := by
      intro x
      linear_combination (3 / (16 * π)) * h x
    simp only [e]
    rw [intervalIntegral.integral_const_mul,
      intervalIntegral.integral_add (((pint _).const_mul _).add ((pint _).const_mul _)) ((pint _).const_mul _),
      intervalIntegral.integral_add ((pint _).const_mul _) ((pint _).const_mul _),
      intervalIntegral.integral_const_mul, intervalIntegral.integral_const_mul, intervalIntegral.integral_const_mul, P_int, P_int, P_int]
  rcases n with _ | _ | n
  · rw [key 2 0 (2 / 3) (1 / 3) 0 (by intro x; rw [x2P_zero]; ring)]
    simp; field_simp; norm_num
  · rw [key 3 0 (2 / 5) (3 / 5) 0 (by intro x; rw [x2P_one]; ring)]
    simp
  · rw [key (n + 4) n _ _ _ (x2P n)]
    rcases n with _ | n
    · simp; field_simp; norm_num
    · simp

theorem iso_coef (n : ℕ) : (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, 1 / (4 * π) * P n x) = (if n = 0 then 1 else 0) / (4 * π) := by
  rw [intervalIntegral.integral_const_mul, P_int]
  by_cases h : n = 0
  · subst h; simp; ring
  · simp [h]

theorem isos_coef (n : ℕ) : (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, 1 / π * P n x) = (if n = 0 then 1 else 0) / π := by
  rw [intervalIntegral.integral_const_mul, P_int]
  by_cases h : n = 0
  · subst h; simp; ring
  · simp [h]

/-- volume and surface Henyey-Greenstein functions -/
theorem hgv_coef {t : ℝ} (ht : |t| < 1) (n : ℕ) :
    (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, hg t x / (4 * π) * P n x) = (2 * n + 1) * t ^ n / (4 * π) := by
  have e : ∀ x : ℝ, hg t x / (4 * π) * P n x = 1 / (4 * π) * (hg t x * P n x) := by intro x; ring
  simp only [e]
  rw [intervalIntegral.integral_const_mul, hg_coef ht]; ring

theorem hgs_coef {t : ℝ} (ht : |t| < 1) (n : ℕ) (norm : ℝ) :
    (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, hg t x / π / norm * P n x) = (2 * n + 1) * t ^ n / π / norm := by
  have e : ∀ x : ℝ, hg t x / π / norm * P n x = 1 / π / norm * (hg t x * P n x) := by intro x; ring
  simp only [e]
  rw [intervalIntegral.integral_const_mul, hg_coef ht]; ring

/-- the cosine lobe of power i -/
noncomputable def lobe (i : ℕ) (x : ℝ) : ℝ := (max x 0) ^ i / π

/-- L n i: integral of x^i P_n over (0, 1) -/
noncomputable def L (n i : ℕ) : ℝ := ∫ x in (0:ℝ)..1, x ^ i * P n x

/-- its closed form (reciprocals of the gamma function are 0 at its poles) -/
noncomputable def G (n i : ℕ) : ℝ := (2:ℝ) ^ (-1 - (i:ℝ)) * √π * Real.Gamma (1 + i) /
  (Real.Gamma ((2 - n + i) / 2) * Real.Gamma ((3 + n + i) / 2))

theorem L_rec (n i : ℕ) : ((n:ℝ) + 2) * L (n + 2) i = (2 * (n:ℝ) + 3) * L (n + 1) (i + 1) - ((n:ℝ) + 1) * L n i := by
  unfold L
  have hc : ∀ m j : ℕ, IntervalIntegrable (fun x : ℝ => x ^ j * P m x) MeasureTheory.volume 0 1 := fun m j =>
    ((continuous_pow j).mul (P_cont m)).intervalIntegrable _ _
  rw [← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul, ← intervalIntegral.integral_const_mul,
    ← intervalIntegral.integral_sub ((hc _ _).const_mul _) ((hc _ _).const_mul _)]
  congr 1; funext x
  linear_combination x ^ i * P_rec n x

/-- 1 / Gamma s = s / Gamma (s + 1), also at the poles -/
theorem rgamma (s : ℝ) : (Real.Gamma s)⁻¹ = s * (Real.Gamma (s + 1))⁻¹ := by
  by_cases h : s = 0
  · subst h; simp [Real.Gamma_zero]
  · rw [Real.Gamma_add_one h, mul_inv, ← mul_assoc, mul_inv_cancel₀ h, one_mul]

theorem G_rec (n i : ℕ) : ((n:ℝ) + 2) * G (n + 2) i = (2 * (n:ℝ) + 3) * G (n + 1) (i + 1) - ((n:ℝ) + 1) * G n i := by
  unfold G
  push_cast
  have h1 : Real.Gamma (1 + ((i:ℝ) + 1)) = (1 + i) * Real.Gamma (1 + i) := by
    rw [show (1 + ((i:ℝ) + 1)) = (1 + i) + 1 by ring, Real.Gamma_add_one (by positivity)]
  have h2 : (2:ℝ) ^ (-1 - ((i:ℝ) + 1)) = (2:ℝ) ^ (-1 - (i:ℝ)) / 2 := by
    rw [show (-1 - ((i:ℝ) + 1)) = (-1 - (i:ℝ)) - 1 by ring, rpow_sub (by norm_num), rpow_one]
  have h3 := rgamma ((2 - ((n:ℝ) + 2) + i) / 2)
  have h4 := rgamma ((3 + (n:ℝ) + i) / 2)
  rw [show (2 - ((n:ℝ) + 2) + i) / 2 + 1 = (2 - n + i) / 2 by ring] at h3
  rw [show (3 + (n:ℝ) + i) / 2 + 1 = (3 + (n + 2) + i) / 2 by ring] at h4
  rw [h1, h2, show (2 - ((n:ℝ) + 1) + (i + 1)) / 2 = (2 - n + i) / 2 by ring,
    show (3 + ((n:ℝ) + 1) + (i + 1)) / 2 = (3 + (n + 2) + i) / 2 by ring]
  simp only [div_eq_mul_inv, mul_inv] at *
  rw [h3, h4]
  ring

theorem L_base0 (i : ℕ) : L 0 i = 1 / (i + 1) := by
  unfold L; simp [P]

theorem L_base1 (i : ℕ) : L 1 i = 1 / (i + 2) := by
  unfold L
  have : ∀ x : ℝ, x ^ i * P 1 x = x ^ (i + 1) := by intro x; simp [P]; ring
  simp only [this]
  rw [integral_pow]; push_cast; simp; ring

theorem G_base0 (i : ℕ) : G 0 i = 1 / (i + 1) := by
  unfold G
  have h := Real.Gamma_mul_Gamma_add_half ((2 + (i:ℝ)) / 2)
  rw [show (2 + (i:ℝ)) / 2 + 1 / 2 = (3 + i) / 2 by ring, show 2 * ((2 + (i:ℝ)) / 2) = (1 + i) + 1 by ring,
    Real.Gamma_add_one (by positivity)] at h
  have hg : Real.Gamma (1 + i) ≠ 0 := (Real.Gamma_pos_of_pos (by positivity)).ne'
  have e : (2:ℝ) ^ (1 - (1 + (i:ℝ) + 1)) = (2:ℝ) ^ (-1 - (i:ℝ)) := by congr 1; ring
  rw [e] at h
  push_cast
  rw [show (2 - (0:ℝ) + i) / 2 = (2 + i) / 2 by ring, show (3 + (0:ℝ) + i) / 2 = (3 + i) / 2 by ring, h]
  have h5 : (2:ℝ) ^ (-1 - (i:ℝ)) ≠ 0 := (rpow_pos_of_pos (by norm_num) _).ne'
  have h6 : √π ≠ 0 := (sqrt_pos.mpr pi_pos).ne'
  have h7 : (1:ℝ) + i ≠ 0 := by positivity
  field_simp
  ring

theorem G_base1 (i : ℕ) : G 1 i = 1 / (i + 2) := by
  unfold G
  have h := Real.Gamma_mul_Gamma_add_half ((1 + (i:ℝ)) / 2)
  have h2 := Real.Gamma_add_one (s := (2 + (i:ℝ)) / 2) (by positivity)
  rw [show (1 + (i:ℝ)) / 2 + 1 / 2 = (2 + i) / 2 by ring, show 2 * ((1 + (i:ℝ)) / 2) = 1 + i by ring] at h
  have e : (2:ℝ) ^ (1 - (1 + (i:ℝ))) = 2 * (2:ℝ) ^ (-1 - (i:ℝ)) := by
    rw [show (1 - (1 + (i:ℝ))) = 1 + (-1 - i) by ring, rpow_add (by norm_num), rpow_one]
  rw [e] at h
  push_cast
  rw [show (2 - (1:ℝ) + i) / 2 = (1 + i) / 2 by ring, show (3 + (1:ℝ) + i) / 2 = (2 + i) / 2 + 1 by ring, h2]
  have hg : Real.Gamma (1 + i) ≠ 0 := (Real.Gamma_pos_of_pos (by positivity)).ne'
  have h5 : (2:ℝ) ^ (-1 - (i:ℝ)) ≠ 0 := (rpow_pos_of_pos (by norm_num) _).ne'
  have h6 : √π ≠ 0 := (sqrt_pos.mpr pi_pos).ne'
  have h7 : (2:ℝ) + i ≠ 0 := by positivity
  rw [show Real.Gamma ((1 + (i:ℝ)) / 2) * ((2 + i) / 2 * Real.Gamma ((2 + i) / 2))
    = (2 + i) / 2 * (Real.Gamma ((1 + (i:ℝ)) / 2) * Real.Gamma ((2 + i) / 2)) by ring, h]
  field_simp
  ring

theorem L_eq : ∀ n i : ℕ, L n i = G n i
  | 0, i => by rw [L_base0, G_base0]
  | 1, i => by rw [L_base1, G_base1]
  | n + 2, i => by
    have h : (n:ℝ) + 2 ≠ 0 := by positivity
    apply mul_left_cancel₀ h
    rw [L_rec, G_rec, L_eq (n + 1) (i + 1), L_eq n i]

/-- coefficients of the cosine lobe as the code computes them -/
theorem lobe_coef (i n : ℕ) (hi : 1 ≤ i) : (2 * (n:ℝ) + 1) / 2 * (∫ x in (-1:ℝ)..1, lobe i x * P n x)
    = (2 * n + 1) / π * ((2:ℝ) ^ (-2 - (i:ℝ)) * √π * Real.Gamma (1 + i) / (Real.Gamma ((2 - n + i) / 2) * Real.Gamma ((3 + n + i) / 2))) := by
  have hc : Continuous (fun x => lobe i x * P n x) := by
    unfold lobe
    have := P_cont n
    fun_prop
  rw [← intervalIntegral.integral_add_adjacent_intervals (hc.intervalIntegrable (-1) 0) (hc.intervalIntegrable 0 1)]
  have e1 : (∫ x in (-1:ℝ)..0, lobe i x * P n x) = 0 := by
    have : (∫ x in (-1:ℝ)..0, lobe i x * P n x) = ∫ x in (-1:ℝ)..0, (0:ℝ) := by
      apply intervalIntegral.integral_congr
      intro x hx
      rw [Set.uIcc_of_le (by norm_num)] at hx
      simp [lobe, max_eq_right hx.2, Nat.one_le_iff_ne_zero.mp hi]
    rw [this]; simp
  have e2 : (∫ x in (0:ℝ)..1, lobe i x * P n x) = 1 / π * L n i := by
    unfold L
    rw [← intervalIntegral.integral_const_mul]
    apply intervalIntegral.integral_congr
    intro x hx
    rw [Set.uIcc_of_le (by norm_num)] at hx
    simp only [lobe, max_eq_left hx.1]; ring
  have e3 : (2:ℝ) ^ (-2 - (i:ℝ)) = (2:ℝ) ^ (-1 - (i:ℝ)) / 2 := by
    rw [show (-2 - (i:ℝ)) = (-1 - (i:ℝ)) - 1 by ring, rpow_sub (by norm_num), rpow_one]
  rw [e1, e2, L_eq, e3]
  unfold G
  ring

/-- norms: 2 pi times the integral over the cosine of the scattering angle -/
theorem iso_norm : 2 * π * (∫ x in (-1:ℝ)..1, 1 / (4 * π)) = 1 := by
  have := pi_ne_zero
  simp; field_simp; norm_num

theorem ray_norm : 2 * π * (∫ x in (-1:ℝ)..1, 3 / (16 * π) * (1 + x ^ 2)) = 1 := by
  have hpi := pi_ne_zero
  have h := ray_coef 0
  simp only [P, mul_one, if_true, Nat.cast_zero] at h
  have h2 : (∫ x in (-1:ℝ)..1, 3 / (16 * π) * (1 + x ^ 2)) = 1 / (2 * π) := by
    field_simp at h ⊢; linarith
  rw [h2]; field_simp

theorem hgv_norm {t : ℝ} (ht : |t| < 1) : 2 * π * (∫ x in (-1:ℝ)..1, hg t x / (4 * π)) = 1 := by
  have hpi := pi_ne_zero
  have h := hgv_coef ht 0
  simp only [P, mul_one, Nat.cast_zero] at h
  have h2 : (∫ x in (-1:ℝ)..1, hg t x / (4 * π)) = 1 / (2 * π) := by
    field_simp at h ⊢; linarith
  rw [h2]; field_simp

theorem hgr_norm {t : ℝ} (ht : |t| < 1) : 2 * π * (∫ x in (-1:ℝ)..1, 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x) = 1 := by
  have hpi := pi_ne_zero
  have hp : (2 + t ^ 2) ≠ 0 := by positivity
  have h := hgr_coef ht 0
  simp only [P, mul_one, hgr] at h
  have h2 : (∫ x in (-1:ℝ)..1, 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x) = 1 / (2 * π) := by
    have h3 : ∀ I : ℝ, (2 * ((0:ℕ):ℝ) + 1) / 2 * I = I / 2 := by intro I; simp; ring
    rw [h3] at h
    rw [div_eq_iff (by norm_num)] at h
    rw [h]; simp; field_simp; ring
  rw [h2]; field_simp

theorem hgr_nonneg {t x : ℝ} (ht : |t| < 1) (hx : x ∈ Set.Icc (-1:ℝ) 1) : 0 ≤ 3 / (8 * π) / (2 + t ^ 2) * (1 + x ^ 2) * hg t x := by
  have := hg_nonneg ht hx
  positivity

theorem lobe_nonneg (i : ℕ) (x : ℝ) : 0 ≤ lobe i x := by
  unfold lobe
  have : 0 ≤ max x 0 := le_max_right _ _
  positivity

/-- hemispherical reflectance of the Lambertian BRDF -/
theorem isos_norm : 2 * π * (∫ x in (0:ℝ)..1, 1 / π * x) = 1 := by
  have := pi_ne_zero
  rw [intervalIntegral.integral_const_mul, integral_id]
  field_simp
  norm_num

/-- hemispherical reflectance at nadir of the Henyey-Greenstein BRDF -/
noncomputable def nadir (t a : ℝ) : ℝ := 2 * (1 - t ^ 2) * (1 + t ^ 2 - a * t - √((1 + t ^ 2 - 2 * a * t) * (1 + t ^ 2)))
  / (a ^ 2 * t ^ 2 * √(1 + t ^ 2 - 2 * a * t))

theorem nadir_eq {t a : ℝ} (ht : |t| < 1) (h0 : t ≠ 0) (ha : |a| ≤ 1) (ha0 : a ≠ 0) :
    2 * π * (∫ x in (0:ℝ)..1, hg t (a * x) / π * x) = nadir t a := by
  have hpi := pi_ne_zero
  have hw : ∀ x ∈ Set.Icc (0:ℝ) 1, 0 < 1 + t ^ 2 - 2 * t * (a * x) := by
    intro x hx
    apply w_pos ht
    have := abs_le.mp ha
    have h1 := hx.1
    have h2 := hx.2
    have h3 : |a * x| ≤ 1 := by
      rw [abs_mul, abs_of_nonneg h1]
      nlinarith [abs_nonneg a]
    exact ⟨(abs_le.mp h3).1, (abs_le.mp h3).2⟩
  have hd : ∀ x ∈ Set.uIcc (0:ℝ) 1, HasDerivAt
      (fun y => (1 - t ^ 2) / (2 * (a * t) ^ 2) * ((1 + t ^ 2) * (1 + t ^ 2 - 2 * t * (a * y)) ^ (-(1 / 2) : ℝ) + (1 + t ^ 2 - 2 * t * (a * y)) ^ ((1 / 2) : ℝ)))
      (hg t (a * x) * x) x := by
    intro x hx
    rw [Set.uIcc_of_le (by norm_num)] at hx
    have hx' := hw x hx
    have hl : HasDerivAt (fun y : ℝ => 1 + t ^ 2 - 2 * t * (a * y)) (-(2 * t * a)) x := by
      have := (((hasDerivAt_id x).const_mul a).const_mul (2 * t)).const_sub (1 + t ^ 2)
      simpa [mul_assoc] using this
    have h1 := hl.rpow_const (p := -(1 / 2)) (Or.inl hx'.ne')
    have h2 := hl.rpow_const (p := 1 / 2) (Or.inl hx'.ne')
    have := (((h1.const_mul (1 + t ^ 2)).add h2).const_mul ((1 - t ^ 2) / (2 * (a * t) ^ 2)))
    refine this.congr_deriv ?_
    rw [show (-(1 / 2) - 1 : ℝ) = -(3 / 2) by norm_num, show (1 / 2 - 1 : ℝ) = 1 + -(3 / 2) by norm_num, rpow_add hx', rpow_one]
    unfold hg
    rw [show (1 - t ^ 2) / (1 + t ^ 2 - 2 * t * (a * x)) ^ (3 / 2 : ℝ) * x
      = (1 - t ^ 2) * (1 + t ^ 2 - 2 * t * (a * x)) ^ (-(3 / 2) : ℝ) * x by rw [rpow_neg hx'.le, div_eq_mul_inv]]
    field_simp
    ring
  have hint : IntervalIntegrable (fun x => hg t (a * x) * x) MeasureTheory.volume 0 1 := by
    apply ContinuousOn.intervalIntegrable
    rw [Set.uIcc_of_le (by norm_num)]
    apply ContinuousOn.mul _ continuousOn_id
    unfold hg
    apply ContinuousOn.div continuousOn_const
    · apply ContinuousOn.rpow_const
      · fun_prop
      · intro x hx; exact Or.inl (hw x hx).ne'
    · intro x hx; exact (rpow_pos_of_pos (hw x hx) _).ne'
  have hi := integral_eq_sub_of_hasDerivAt hd hint
  have e : ∀ x : ℝ, hg t (a * x) / π * x = 1 / π * (hg t (a * x) * x) := by intro x; ring
  simp only [e]
  rw [intervalIntegral.integral_const_mul, hi]
  have h1 : 0 < 1 + t ^ 2 - 2 * a * t := by have := hw 1 ⟨by norm_num, le_refl _⟩; linarith [this]
  have h2 : 0 < 1 + t ^ 2 := by positivity
  simp only [mul_zero, sub_zero, mul_one]
  rw [show 1 + t ^ 2 - 2 * t * a = 1 + t ^ 2 - 2 * a * t by ring]
  rw [rpow_neg h1.le, rpow_neg h2.le, ← sqrt_eq_rpow, ← sqrt_eq_rpow]
  unfold nadir
  rw [sqrt_mul h1.le]
  have s1 := sq_sqrt h1.le
  have s2 := sq_sqrt h2.le
  have p1 := (sqrt_pos.mpr h1).ne'
  have p2 := (sqrt_pos.mpr h2).ne'
  have s12 : 1 + t ^ 2 - a * t = (√(1 + t ^ 2 - 2 * a * t) ^ 2 + √(1 + t ^ 2) ^ 2) / 2 := by rw [s1, s2]; ring
  rw [s12]
  have s3 : (1 + t ^ 2) = √(1 + t ^ 2) ^ 2 := s2.symm
  generalize √(1 + t ^ 2 - 2 * a * t) = u at *
  generalize √(1 + t ^ 2) = w at *
  rw [s3]
  have p3 : w ≠ 0 := p2
  field_simp
  ring

#print axioms P_deriv
#print axioms P_one
#print axioms P_neg_one
#print axioms D_id
#print axioms hg_nonneg
#print axioms hg_coef
#print axioms hgr_coef
#print axioms ray_coef
#print axioms iso_coef
#print axioms isos_coef
#print axioms hgv_coef
#print axioms hgs_coef
#print axioms lobe_coef
#print axioms iso_norm
#print axioms ray_norm
#print axioms hgv_norm
#print axioms hgr_norm
#print axioms hgr_nonneg
#print axioms lobe_nonneg
#print axioms isos_norm
#print axioms nadir_eq
