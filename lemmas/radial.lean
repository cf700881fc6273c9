/- Lemma used by the contract of RT1._calc_Fint_1 / _calc_Fint_2 (C03): closed form of the radial integral.
   Contracts of scipy.special:  expn(k+2, tau) = integral of x^k exp(-tau/x) over (0, 1)  (substitution t = 1/x in the definition);
   expi(y) = L(y) + log|y| with L'(y) y = exp(y) - 1, and expi(y) -> 0 for y -> -oo. -/
import Mathlib.MeasureTheory.Integral.IntervalIntegral.FundThmCalculus
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
open Real intervalIntegral MeasureTheory Set Filter Topology

/-- what is assumed about scipy.special.expi -/
structure IsEi (Ei L : ℝ → ℝ) : Prop where
  deriv : ∀ y : ℝ, y ≠ 0 → HasDerivAt L ((exp y - 1) / y) y
  cont : Continuous L
  val : ∀ y : ℝ, y ≠ 0 → Ei y = L y + log |y|
  lim : Tendsto Ei atBot (𝓝 0)

variable {Ei L : ℝ → ℝ} {tau mu : ℝ}

noncomputable def g (tau mu x : ℝ) : ℝ := (exp (-tau / mu) - exp (-tau / x)) / (mu - x)

noncomputable def H (Ei L : ℝ → ℝ) (tau mu x : ℝ) : ℝ :=
  if x = 0 then -exp (-tau / mu) * log mu
  else exp (-tau / mu) * (L (tau / mu - tau / x) + log tau - log mu - log x) - Ei (-tau / x)

theorem ei_deriv (h : IsEi Ei L) {y : ℝ} (hy : y ≠ 0) : HasDerivAt Ei (exp y / y) y := by
  have h1 : HasDerivAt (fun z => L z + log z) ((exp y - 1) / y + y⁻¹) y := (h.deriv y hy).add (hasDerivAt_log hy)
  have h2 : (fun z => L z + log z) =ᶠ[𝓝 y] Ei := by
    filter_upwards [isOpen_ne.mem_nhds hy] with z hz
    rw [h.val z hz, log_abs]
  have h3 := h1.congr_of_eventuallyEq h2.symm
  refine h3.congr_deriv ?_
  field_simp
  ring

theorem H_deriv (h : IsEi Ei L) (ht : 0 < tau) (hm : 0 < mu) {x : ℝ} (hx : 0 < x) (hxm : x ≠ mu) :
    HasDerivAt (H Ei L tau mu) (g tau mu x) x := by
  have hx0 : x ≠ 0 := hx.ne'
  have hd : tau / mu - tau / x ≠ 0 := by
    intro e
    have : tau / mu = tau / x := by linarith
    rw [div_eq_div_iff hm.ne' hx0] at this
    exact hxm (mul_left_cancel₀ ht.ne' this)
  have i1 : HasDerivAt (fun z : ℝ => tau / mu - tau / z) (tau / x ^ 2) x := by
    have := ((hasDerivAt_inv hx0).const_mul tau).const_sub (tau / mu)
    have h2 : HasDerivAt (fun z : ℝ => tau / mu - tau / z) (-(tau * -(x ^ 2)⁻¹)) x := this
    refine h2.congr_deriv ?_
    field_simp
  have i2 : HasDerivAt (fun z : ℝ => -tau / z) (tau / x ^ 2) x := by
    have := (hasDerivAt_inv hx0).const_mul (-tau)
    have h2 : HasDerivAt (fun z : ℝ => -tau / z) (-tau * -(x ^ 2)⁻¹) x := this
    refine h2.congr_deriv ?_
    field_simp
  have hne : -tau / x ≠ 0 := div_ne_zero (by linarith) hx0
  have d1 := (h.deriv _ hd).comp x i1
  have d2 := (ei_deriv h hne).comp x i2
  have d3 := ((((d1.add_const (log tau)).sub_const (log mu)).sub (hasDerivAt_log hx0)).const_mul (exp (-tau / mu))).sub d2
  have e : (fun z => exp (-tau / mu) * (L (tau / mu - tau / z) + log tau - log mu - log z) - Ei (-tau / z)) =ᶠ[𝓝 x] H Ei L tau mu := by
    filter_upwards [isOpen_ne.mem_nhds hx0] with z hz
    simp [H, hz]
  have d4 := d3.congr_of_eventuallyEq e.symm
  refine d4.congr_deriv ?_
  have e1 : exp (tau / mu - tau / x) = exp (-tau / x) / exp (-tau / mu) := by
    rw [← exp_sub]; congr 1; ring
  have e2 : tau / mu - tau / x = tau * (x - mu) / (mu * x) := by field_simp
  have ha : exp (-tau / mu) ≠ 0 := (exp_pos _).ne'
  have hxm' : x - mu ≠ 0 := sub_ne_zero.mpr hxm
  have hxm2 : mu - x ≠ 0 := sub_ne_zero.mpr (Ne.symm hxm)
  rw [e1, e2, g]
  generalize exp (-tau / mu) = a at *
  generalize exp (-tau / x) = b at *
  have ht' := ht.ne'
  have hm' := hm.ne'
  have : (a - b) / (mu - x) = (b - a) / (x - mu) := by
    rw [div_eq_div_iff hxm2 hxm']; ring
  rw [this]
  field_simp
  ring

theorem H_cont (h : IsEi Ei L) (ht : 0 < tau) (hm : 0 < mu) : ContinuousOn (H Ei L tau mu) (Ici 0) := by
  intro x hx
  rcases eq_or_lt_of_le (show (0:ℝ) ≤ x from hx) with rfl | hx
  · have hins : Ici (0:ℝ) = insert 0 (Ioi 0) := by
      ext y; simp [le_iff_eq_or_lt, eq_comm]
    rw [hins, continuousWithinAt_insert_self, ContinuousWithinAt]
    have e : (fun z => exp (-tau / mu) * (Ei (tau / mu - tau / z) - log (mu - z)) - Ei (-tau / z)) =ᶠ[𝓝[>] 0] H Ei L tau mu := by
      have hI : Ioo 0 mu ∈ 𝓝[>] (0:ℝ) := Ioo_mem_nhdsGT hm
      filter_upwards [hI] with z hz
      have hz0 : z ≠ 0 := hz.1.ne'
      have hzm : 0 < mu - z := by linarith [hz.2]
      have e2 : tau / mu - tau / z = -(tau * (mu - z) / (mu * z)) := by field_simp; ring
      have hp : 0 < tau * (mu - z) / (mu * z) := by have := hz.1; positivity
      have hd : tau / mu - tau / z ≠ 0 := by rw [e2]; linarith
      have hl : log |tau / mu - tau / z| = log tau + log (mu - z) - log mu - log z := by
        rw [e2, abs_neg, abs_of_pos hp, log_div (by positivity) (by have := hz.1; positivity), log_mul ht.ne' hzm.ne', log_mul hm.ne' hz0]
        ring
      have hv := h.val _ hd
      simp only [H, hz0, if_false]
      rw [hv, hl]
      ring
    refine Tendsto.congr' e ?_
    have t1 : Tendsto (fun z : ℝ => -tau / z) (𝓝[>] 0) atBot := by
      have := (tendsto_inv_nhdsGT_zero (𝕜 := ℝ)).const_mul_atTop_of_neg (show -tau < 0 by linarith)
      simpa [div_eq_mul_inv] using this
    have t2 : Tendsto (fun z : ℝ => tau / mu - tau / z) (𝓝[>] 0) atBot := by
      have := tendsto_atBot_add_const_left (𝓝[>] (0:ℝ)) (tau / mu) t1
      refine this.congr ?_
      intro z; ring
    have t3 := h.lim.comp t1
    have t4 := h.lim.comp t2
    have t5 : Tendsto (fun z : ℝ => log (mu - z)) (𝓝[>] 0) (𝓝 (log (mu - 0))) := by
      have c : ContinuousAt (fun z : ℝ => log (mu - z)) 0 := by
        apply ContinuousAt.log (by fun_prop)
        simpa using hm.ne'
      exact c.tendsto.mono_left nhdsWithin_le_nhds
    have t6 := ((t4.sub t5).const_mul (exp (-tau / mu))).sub t3
    simp only [H, if_true]
    refine t6.congr' ?_ |>.trans ?_
    · exact Eventually.of_forall (fun z => rfl)
    · simp
  · apply ContinuousAt.continuousWithinAt
    have hx0 : x ≠ 0 := hx.ne'
    have e : (fun z => exp (-tau / mu) * (L (tau / mu - tau / z) + log tau - log mu - log z) - Ei (-tau / z)) =ᶠ[𝓝 x] H Ei L tau mu := by
      filter_upwards [isOpen_ne.mem_nhds hx0] with z hz
      simp [H, hz]
    refine ContinuousAt.congr ?_ e
    have hne : -tau / x ≠ 0 := div_ne_zero (by linarith) hx0
    have c1 : ContinuousAt (fun z : ℝ => tau / mu - tau / z) x := by fun_prop (disch := assumption)
    have c2 : ContinuousAt (fun z : ℝ => -tau / z) x := by fun_prop (disch := assumption)
    have c3 : ContinuousAt (fun z : ℝ => Ei (-tau / z)) x := (ei_deriv h hne).continuousAt.comp c2
    have c4 : ContinuousAt (fun z : ℝ => L (tau / mu - tau / z)) x := h.cont.continuousAt.comp c1
    have c5 : ContinuousAt (fun z : ℝ => log z) x := continuousAt_log hx0
    exact ((((c4.add continuousAt_const).sub continuousAt_const).sub c5).const_mul _ |>.sub c3)

theorem g_nonneg (ht : 0 < tau) (hm : 0 < mu) {x : ℝ} (hx : 0 < x) : 0 ≤ g tau mu x := by
  unfold g
  rcases lt_or_ge x mu with hl | hl
  · apply div_nonneg _ (by linarith)
    rw [sub_nonneg]
    apply exp_le_exp.mpr
    rw [div_le_div_iff₀ hx hm]
    nlinarith
  · apply div_nonneg_of_nonpos _ (by linarith)
    rw [sub_nonpos]
    apply exp_le_exp.mpr
    rw [div_le_div_iff₀ hm hx]
    nlinarith

theorem part (h : IsEi Ei L) (ht : 0 < tau) (hm : 0 < mu) {a b : ℝ} (ha : 0 ≤ a) (hab : a ≤ b) (hn : mu ∉ Ioo a b) :
    IntervalIntegrable (g tau mu) volume a b ∧ ∫ x in a..b, g tau mu x = H Ei L tau mu b - H Ei L tau mu a := by
  have hc : ContinuousOn (H Ei L tau mu) (Icc a b) := (H_cont h ht hm).mono (fun x hx => le_trans ha hx.1)
  have hd : ∀ x ∈ Ioo a b, HasDerivAt (H Ei L tau mu) (g tau mu x) x := fun x hx =>
    H_deriv h ht hm (lt_of_le_of_lt ha hx.1) (fun e => hn (e ▸ hx))
  have hp : ∀ x ∈ Ioo a b, 0 ≤ g tau mu x := fun x hx => g_nonneg ht hm (lt_of_le_of_lt ha hx.1)
  have hi : IntegrableOn (g tau mu) (Ioc a b) := integrableOn_deriv_of_nonneg hc hd hp
  have hii : IntervalIntegrable (g tau mu) volume a b := (intervalIntegrable_iff_integrableOn_Ioc_of_le hab).mpr hi
  exact ⟨hii, integral_eq_sub_of_hasDerivAt_of_le hab hc hd hii⟩

theorem base (h : IsEi Ei L) (ht : 0 < tau) (hm : 0 < mu) (hm1 : mu < 1) :
    IntervalIntegrable (g tau mu) volume 0 1 ∧ ∫ x in (0:ℝ)..1, g tau mu x
      = exp (-tau / mu) * (log mu - log (1 - mu) + Ei (tau / mu - tau)) - Ei (-tau) := by
  have p1 := part h ht hm le_rfl hm.le (a := 0) (b := mu) (by simp)
  have p2 := part h ht hm hm.le hm1.le (a := mu) (b := 1) (by simp)
  refine ⟨p1.1.trans p2.1, ?_⟩
  rw [← integral_add_adjacent_intervals p1.1 p2.1, p1.2, p2.2]
  have hd : tau / mu - tau / 1 ≠ 0 := by
    have : tau / mu - tau / 1 = tau * (1 - mu) / mu := by field_simp
    rw [this]
    have : 0 < 1 - mu := by linarith
    positivity
  have hl : log |tau / mu - tau / 1| = log tau + log (1 - mu) - log mu := by
    have e : tau / mu - tau / 1 = tau * (1 - mu) / mu := by field_simp
    have h1 : 0 < 1 - mu := by linarith
    rw [e, abs_of_pos (by positivity), log_div (by positivity) hm.ne', log_mul ht.ne' h1.ne']
  have hv := h.val _ hd
  rw [hl] at hv
  simp only [H, one_ne_zero, if_false, if_true, log_one]
  rw [div_one] at hv ⊢
  rw [hv]
  simp only [div_one]
  ring

/-- expn(k + 2, tau) -/
noncomputable def En (k : ℕ) (tau : ℝ) : ℝ := ∫ x in (0:ℝ)..1, x ^ k * exp (-tau / x)

theorem step_int (hg : IntervalIntegrable (g tau mu) volume 0 1) (n : ℕ) :
    IntervalIntegrable (fun x => x ^ n * g tau mu x) volume 0 1 := by
  have := hg.continuousOn_mul (g := fun x => x ^ n) (by fun_prop)
  exact this

theorem num_int (hg : IntervalIntegrable (g tau mu) volume 0 1) (n : ℕ) :
    IntervalIntegrable (fun x => x ^ n * (exp (-tau / mu) - exp (-tau / x))) volume 0 1 := by
  have := hg.continuousOn_mul (g := fun x => x ^ n * (mu - x)) (by fun_prop)
  refine this.congr ?_
  intro x _
  by_cases e : x = mu
  · simp [e, g]
  · have : mu - x ≠ 0 := sub_ne_zero.mpr (Ne.symm e)
    simp only [g]
    field_simp

theorem num_val (hg : IntervalIntegrable (g tau mu) volume 0 1) (n : ℕ) :
    ∫ x in (0:ℝ)..1, x ^ n * (exp (-tau / mu) - exp (-tau / x)) = exp (-tau / mu) / (n + 1) - En n tau := by
  have h1 := num_int hg n
  have h2 : IntervalIntegrable (fun x : ℝ => x ^ n * exp (-tau / mu)) volume 0 1 := by
    apply Continuous.intervalIntegrable; fun_prop
  have h3 : En n tau = ∫ x in (0:ℝ)..1, (x ^ n * exp (-tau / mu) - x ^ n * (exp (-tau / mu) - exp (-tau / x))) := by
    unfold En
    apply integral_congr
    intro x _
    simp only
    ring
  rw [h3, integral_sub h2 h1, intervalIntegral.integral_mul_const, integral_pow]
  simp
  ring

/-- closed form of the radial integral -/
theorem radial (h : IsEi Ei L) (ht : 0 < tau) (hm : 0 < mu) (hm1 : mu < 1) (n : ℕ) :
    ∫ x in (0:ℝ)..1, x ^ n * g tau mu x
      = mu ^ n * (∑ k ∈ Finset.range n, (mu ^ (k + 1))⁻¹ * (En k tau - exp (-tau / mu) / (k + 1))
        + (exp (-tau / mu) * (log mu - log (1 - mu) + Ei (tau / mu - tau)) - Ei (-tau))) := by
  obtain ⟨hg, hb⟩ := base h ht hm hm1
  induction n with
  | zero => simp [hb]
  | succ n ih =>
    have e : ∀ x : ℝ, x ^ (n + 1) * g tau mu x = mu * (x ^ n * g tau mu x) - x ^ n * (exp (-tau / mu) - exp (-tau / x)) := by
      intro x
      by_cases e : x = mu
      · simp [e, g]
      · have : mu - x ≠ 0 := sub_ne_zero.mpr (Ne.symm e)
        simp only [g]
        field_simp
        ring
    simp only [e]
    rw [integral_sub ((step_int hg n).const_mul mu) (num_int hg n), intervalIntegral.integral_const_mul, ih, num_val hg n,
      Finset.sum_range_succ]
    have := hm.ne'
    field_simp
    ring

#print axioms radial
