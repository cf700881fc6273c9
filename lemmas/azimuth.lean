/- Lemmas used by the contracts of C04: averages of powers of sin and cos over the azimuth angle (RT1._integrate_0_2pi_phis)
   and the monomials of a truncated expansion (polynomial in the cosine of the generalized scattering angle). -/
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
open Real intervalIntegral

/-- average of cos^i over (0, 2 pi), as the code computes it -/
noncomputable def cav (i : ℕ) : ℝ := if i % 2 = 0 then ((2:ℝ) ^ i)⁻¹ * (Nat.choose i (i / 2)) else 0

theorem cav_step (n : ℕ) : cav (n + 2) = (n + 1) / (n + 2) * cav n := by
  unfold cav
  have h : (n + 2) % 2 = n % 2 := by omega
  rw [h]
  by_cases e : n % 2 = 0
  · simp only [e, if_true]
    obtain ⟨m, rfl⟩ : ∃ m, n = 2 * m := ⟨n / 2, by omega⟩
    have h1 : (2 * m + 2) / 2 = m + 1 := by omega
    have h2 : 2 * m / 2 = m := by omega
    rw [h1, h2]
    have h3 := Nat.succ_mul_centralBinom_succ m
    rw [Nat.centralBinom_eq_two_mul_choose, Nat.centralBinom_eq_two_mul_choose] at h3
    have h4 : 2 * (m + 1) = 2 * m + 2 := by ring
    rw [h4] at h3
    have h5 : ((m:ℝ) + 1) * (Nat.choose (2 * m + 2) (m + 1)) = 2 * (2 * m + 1) * (Nat.choose (2 * m) m) := by exact_mod_cast h3
    have h6 : (m:ℝ) + 1 ≠ 0 := by positivity
    have h7 : ((Nat.choose (2 * m + 2) (m + 1) : ℕ) : ℝ) = 2 * (2 * m + 1) * (Nat.choose (2 * m) m) / (m + 1) := by
      rw [eq_div_iff h6]; linarith
    rw [h7]
    push_cast
    have h8 : (2:ℝ) * m + 2 ≠ 0 := by positivity
    have h9 : (2:ℝ) ^ (2 * m) ≠ 0 := by positivity
    rw [pow_add]
    field_simp
  · simp [e]

theorem cos_avg : ∀ i : ℕ, (∫ x in (0:ℝ)..(2 * π), cos x ^ i) = 2 * π * cav i
  | 0 => by simp [cav]
  | 1 => by simp [cav]
  | n + 2 => by
    rw [integral_cos_pow, cos_avg n, cav_step]
    simp
    ring

theorem sin_odd (m q : ℕ) : (∫ x in (0:ℝ)..(2 * π), sin x ^ (2 * m + 1) * cos x ^ q) = 0 := by
  have h := intervalIntegral.integral_comp_sub_left (a := 0) (b := 2 * π) (fun x => sin x ^ (2 * m + 1) * cos x ^ q) (2 * π)
  simp only [sub_self, sub_zero] at h
  have h2 : ∀ x : ℝ, sin (2 * π - x) ^ (2 * m + 1) * cos (2 * π - x) ^ q = -(sin x ^ (2 * m + 1) * cos x ^ q) := by
    intro x
    rw [sin_two_pi_sub, cos_two_pi_sub, Odd.neg_pow ⟨m, rfl⟩]
    ring
  simp only [h2, intervalIntegral.integral_neg] at h
  linarith

/-- lemma used by the contract of RT1._integrate_0_2pi_phis -/
theorem sin_even (m q : ℕ) : (∫ x in (0:ℝ)..(2 * π), sin x ^ (2 * m) * cos x ^ q)
    = 2 * π * ∑ k ∈ Finset.range (m + 1), (Nat.choose m k) * (-1) ^ k * cav (q + 2 * k) := by
  have h : ∀ x : ℝ, sin x ^ (2 * m) * cos x ^ q = ∑ k ∈ Finset.range (m + 1), ((Nat.choose m k : ℝ) * (-1) ^ k) * cos x ^ (q + 2 * k) := by
    intro x
    rw [pow_mul, sin_sq, sub_eq_add_neg, add_comm, add_pow, Finset.sum_mul]
    apply Finset.sum_congr rfl
    intro k _
    rw [neg_pow, pow_add, pow_mul]
    simp
    ring
  simp only [h]
  rw [intervalIntegral.integral_finsetSum]
  · rw [Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro k _
    rw [intervalIntegral.integral_const_mul, cos_avg]
    ring
  · intro k _
    apply Continuous.intervalIntegrable
    fun_prop


/-- the monomials of an expansion with N coefficients: powers m, j, l of cos(ths), cos(phs), sin(phs) with m + j + l <= N - 1
    and the power j + l of sin(ths) -/
theorem expansion (f : ℕ → ℝ) (N : ℕ) (A B C ct st cp sp : ℝ) :
    ∑ k ∈ Finset.range N, f k * (A * ct + st * (B * cp + C * sp)) ^ k
    = ∑ k ∈ Finset.range N, ∑ m ∈ Finset.range (k + 1), ∑ j ∈ Finset.range (k - m + 1),
        f k * A ^ m * B ^ j * C ^ (k - m - j) * Nat.choose k m * Nat.choose (k - m) j
          * (ct ^ m * st ^ (j + (k - m - j)) * cp ^ j * sp ^ (k - m - j)) := by
  apply Finset.sum_congr rfl
  intro k _
  rw [add_pow, Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro m _
  rw [mul_pow st, add_pow, Finset.mul_sum, Finset.mul_sum, Finset.sum_mul, Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro j hj
  have h : j + (k - m - j) = k - m := by
    have := Finset.mem_range.mp hj
    omega
  rw [h, mul_pow, mul_pow, mul_pow]
  ring

#print axioms sin_even
#print axioms sin_odd
#print axioms expansion
