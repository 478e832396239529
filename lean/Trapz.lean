/-
The lemmas about the trapezoid rule and running sums which the engine instantiates (dv/shims.py, trz_lemmas and
f_cumsum; dv/session.py, trz_linear).  T n x y is the rule numpy/scipy implement for n nodes.
-/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

open Finset

noncomputable def T (n : ℕ) (x y : ℕ → ℝ) : ℝ :=
  ∑ i ∈ range (n - 1), (x (i + 1) - x i) * (y (i + 1) + y i) / 2

/-- Only the values at the nodes 0 .. n-1 matter. -/
theorem T_congr (n : ℕ) (x x' y y' : ℕ → ℝ) (hx : ∀ i < n, x i = x' i) (hy : ∀ i < n, y i = y' i) :
    T n x y = T n x' y' := by
  unfold T
  refine sum_congr rfl fun i hi => ?_
  have h : i < n - 1 := mem_range.mp hi
  rw [hx i (by omega), hx (i + 1) (by omega), hy i (by omega), hy (i + 1) (by omega)]

/-- Constant factors of the ordinate and of the abscissa. -/
theorem T_scale (n : ℕ) (x y : ℕ → ℝ) (a b : ℝ) :
    T n (fun i => a * x i) (fun i => b * y i) = b * a * T n x y := by
  unfold T
  rw [mul_sum]
  exact sum_congr rfl fun i _ => by ring

/-- Sums of ordinates. -/
theorem T_add (n : ℕ) (x y z : ℕ → ℝ) : T n x (fun i => y i + z i) = T n x y + T n x z := by
  unfold T
  rw [← sum_add_distrib]
  exact sum_congr rfl fun i _ => by ring

/-- Reading the nodes backwards changes the sign. -/
theorem T_reverse (n : ℕ) (x y : ℕ → ℝ) :
    T n (fun i => x (n - 1 - i)) (fun i => y (n - 1 - i)) = - T n x y := by
  unfold T
  rw [← sum_range_reflect (fun i => (x (i + 1) - x i) * (y (i + 1) + y i) / 2) (n - 1), ← sum_neg_distrib]
  refine sum_congr rfl fun i hi => ?_
  have h : i < n - 1 := mem_range.mp hi
  have e : n - 1 - 1 - i + 1 = n - 1 - i := by omega
  have e' : n - 1 - (i + 1) = n - 1 - 1 - i := by omega
  simp only [e, e']
  ring

/-- Non-negative ordinates over an increasing abscissa. -/
theorem T_nonneg (n : ℕ) (x y : ℕ → ℝ) (hx : ∀ i, i + 1 < n → x i < x (i + 1)) (hy : ∀ i < n, 0 ≤ y i) :
    0 ≤ T n x y := by
  unfold T
  refine sum_nonneg fun i hi => ?_
  have h : i < n - 1 := mem_range.mp hi
  have h1 := hx i (by omega)
  have h2 := hy i (by omega)
  have h3 := hy (i + 1) (by omega)
  have : 0 ≤ (x (i + 1) - x i) * (y (i + 1) + y i) := mul_nonneg (by linarith) (by linarith)
  linarith

/-- Positive ordinates over an increasing abscissa with at least two nodes. -/
theorem T_pos (n : ℕ) (x y : ℕ → ℝ) (hn : 2 ≤ n) (hx : ∀ i, i + 1 < n → x i < x (i + 1))
    (hy : ∀ i < n, 0 < y i) : 0 < T n x y := by
  unfold T
  refine sum_pos (fun i hi => ?_) ⟨0, mem_range.mpr (by omega)⟩
  have h : i < n - 1 := mem_range.mp hi
  have h1 := hx i (by omega)
  have h2 := hy i (by omega)
  have h3 := hy (i + 1) (by omega)
  have : 0 < (x (i + 1) - x i) * (y (i + 1) + y i) := mul_pos (by linarith) (by linarith)
  linarith

/-- Running sums of non-negative values do not decrease. -/
theorem cumsum_mono (n : ℕ) (a S : ℕ → ℝ) (h : ∀ i, i + 1 < n → S (i + 1) = S i + a (i + 1))
    (ha : ∀ i < n, 0 ≤ a i) (i j : ℕ) (hij : i ≤ j) (hj : j < n) : S i ≤ S j := by
  induction j, hij using Nat.le_induction with
  | base => exact le_refl _
  | succ k hk ih =>
    have h1 := ih (by omega)
    have h2 := h k hj
    have h3 := ha (k + 1) hj
    linarith
