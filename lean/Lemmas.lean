import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.NormNum
import Mathlib.Algebra.Order.Ring.Int
import Mathlib.RingTheory.Coprime.Lemmas

namespace GVC

/-- Barrett reduction with U = floor(K/q). -/
theorem barrett (X U q K : Int) :
    (((((((0 : Int) ≤ X) ∧ (X < K)) ∧ ((0 : Int) < q)) ∧ ((U * q) ≤ K)) ∧ (K < ((U * q) + q))) →
     (((0 : Int) ≤ (X - (((X * U) / K) * q))) ∧ ((X - (((X * U) / K) * q)) < ((2 : Int) * q)))) := by
  rintro ⟨⟨⟨⟨h0, h1⟩, hq⟩, h2⟩, h3⟩
  have hK : 0 < K := by linarith
  have e := Int.mul_ediv_add_emod (X*U) K
  have e1 := Int.emod_nonneg (X*U) (ne_of_gt hK)
  have e2 := Int.emod_lt_of_pos (X*U) hK
  set d := X*U/K
  set m := X*U % K
  constructor
  · by_contra hc
    have hc' := not_le.mp hc
    have : K*X < K*(d*q) := by nlinarith
    nlinarith
  · by_contra hc
    have hc' := not_lt.mp hc
    nlinarith

/-- q = 1 modulo 2^(i+1) -/
def P_one (q i : Int) : Prop := 0 ≤ i ∧ (2:Int)^(i.toNat+1) ∣ q - 1

theorem one_init (q : Int) : q % 2 = 1 → P_one q 0 := by
  intro h
  refine ⟨le_refl _, ?_⟩
  have : (2:Int) ∣ q - 1 := by omega
  simpa using this

theorem one_step (q i : Int) :
    (((P_one q i) ∧ ((0 : Int) ≤ i)) ∧ (i < (63 : Int))) → P_one ((q * q) % ((2:Int)^64)) (i + 1) := by
  rintro ⟨⟨⟨_, hd⟩, hi⟩, h63⟩
  refine ⟨by omega, ?_⟩
  have hn : (i+1).toNat + 1 = i.toNat + 1 + 1 := by omega
  rw [hn]
  have h2 : (2:Int) ∣ q + 1 := by
    have : (2:Int) ∣ q - 1 := dvd_trans (Dvd.intro_left ((2:Int)^i.toNat) (by ring)) hd
    omega
  have hsq : (2:Int)^(i.toNat+1+1) ∣ q*q - 1 := by
    have : q*q - 1 = (q-1)*(q+1) := by ring
    rw [this, pow_succ]
    exact mul_dvd_mul hd h2
  have hR : (2:Int)^(i.toNat+1+1) ∣ (2:Int)^64 := pow_dvd_pow 2 (by omega)
  have hm := Int.mul_ediv_add_emod (q*q) ((2:Int)^64)
  have : (q*q) % (2:Int)^64 - 1 = (q*q - 1) - (2:Int)^64 * (q*q / (2:Int)^64) := by linarith
  rw [this]
  exact Int.dvd_sub hsq (dvd_mul_of_dvd_left hR _)

theorem one_final (q i : Int) : ((P_one q i) ∧ (i ≥ (63 : Int))) → (((2:Int)^64) ∣ (q - (1 : Int))) := by
  rintro ⟨⟨_, hd⟩, hi⟩
  exact dvd_trans (pow_dvd_pow 2 (by omega)) hd

theorem shr_split (x n : Int) :
    (((((0 : Int) ≤ x) ∧ ((0 : Int) ≤ n)) ∧ (n ≤ (64 : Int))) →
     ((x / ((2:Int)^(((64 : Int) - n)).toNat)) = ((x * ((2:Int)^(n).toNat)) / ((2:Int)^64)))) := by
  rintro ⟨⟨_, h0⟩, h1⟩
  have e : (2:Int)^64 = (2:Int)^(64 - n).toNat * (2:Int)^n.toNat := by
    rw [← pow_add]; congr 1; omega
  rw [e, Int.mul_ediv_mul_of_pos_left _ _ (by positivity)]

/-- Engine rule cancelR: a modulus invertible modulo 2^64 may be cancelled against 2^64. -/
theorem cancelR (q x P : Int) :
    (((((2:Int)^64) ∣ ((q * x) - (1 : Int))) ∧ (q ∣ ((P * ((2:Int)^64)) - (0 : Int)))) → (q ∣ (P - (0 : Int)))) := by
  rintro ⟨⟨k, hk⟩, hd⟩
  have hc : IsCoprime q ((2:Int)^64) := ⟨x, -k, by linarith⟩
  rw [sub_zero] at hd ⊢
  exact hc.dvd_of_dvd_mul_right hd

/-- a bit-reversed value of log2(M)-1 bits is smaller than M/2 -/
theorem brev_lt (x M b : Int) :
    (((((((∃ m : ℕ, M = (2:Int)^m) ∧ (((2:Int)^(b - (1:Int)).toNat) ≤ M)) ∧ (M < ((2:Int)^b.toNat))) ∧ ((2:Int) ≤ b)) ∧ (b ≤ (64:Int))) ∧ ((0:Int) ≤ x)) ∧ (x < ((2:Int)^64))) →
     ((x / ((2:Int)^((64:Int) - (b - (2:Int))).toNat)) < (M / (2:Int))) := by
  rintro ⟨⟨⟨⟨⟨⟨⟨m, rfl⟩, h1⟩, h2⟩, hb⟩, hb'⟩, hx⟩, hx'⟩
  have hm1 := (pow_le_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp h1
  have hm2 := (pow_lt_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp h2
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, m = n + 1 := ⟨m - 1, by omega⟩
  have e1 : (2:Int)^(n+1) / 2 = 2^n := by rw [pow_succ]; omega
  have e2 : ((64:Int) - (b - 2)).toNat = 64 - n := by omega
  rw [e1, e2]
  apply Int.ediv_lt_of_lt_mul (by positivity)
  have : (2:Int)^n * 2^(64-n) = 2^64 := by rw [← pow_add]; congr 1; omega
  linarith

theorem pow2_len (N b : Int) :
    (((((∃ m : ℕ, N = (2:Int)^m) ∧ (N ≥ (2:Int))) ∧ (b ≥ (1:Int))) ∧ (((2:Int)^(b - (1:Int)).toNat) ≤ (N - (1:Int)))) ∧ ((N - (1:Int)) < ((2:Int)^b.toNat))) →
     (((2:Int)^b.toNat) = N) := by
  rintro ⟨⟨⟨⟨⟨m, rfl⟩, h0⟩, hb⟩, h1⟩, h2⟩
  have hm1 : (b-1).toNat < m := (pow_lt_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp (by linarith)
  have hm2 : m ≤ b.toNat := (pow_le_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp (by linarith)
  have : b.toNat = m := by omega
  rw [this]

theorem perm_inj (i j g N : Int) :
    (((((((∃ m : ℕ, N = (2:Int)^m) ∧ (N ≤ ((2:Int)^64))) ∧ ((g % (2:Int)) = (1:Int))) ∧ ((0:Int) ≤ i)) ∧ (i < N)) ∧ ((0:Int) ≤ j)) ∧ (j < N)) ∧
      ((((i * g) % ((2:Int)^64)) % N) = (((j * g) % ((2:Int)^64)) % N)) → (i = j) := by
  rintro ⟨⟨⟨⟨⟨⟨⟨⟨m, rfl⟩, hR⟩, hg⟩, hi⟩, hi'⟩, hj⟩, hj'⟩, he⟩
  have hm : m ≤ 64 := (pow_le_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp hR
  have hd : (2:Int)^m ∣ (2:Int)^64 := pow_dvd_pow 2 hm
  rw [Int.emod_emod_of_dvd _ hd, Int.emod_emod_of_dvd _ hd] at he
  have h1 : (2:Int)^m ∣ (i - j) * g := by
    have h0 := Int.emod_emod_of_dvd (i*g - j*g) (dvd_refl ((2:Int)^m))
    have e : i * g - j * g = (i - j) * g := by ring
    rw [← e]
    apply Int.dvd_of_emod_eq_zero
    rw [Int.sub_emod, he, sub_self, Int.zero_emod]
  have hc : IsCoprime ((2:Int)^m) g := by
    apply IsCoprime.pow_left
    exact ⟨-(g/2), 1, by omega⟩
  have h2 := hc.dvd_of_dvd_mul_right h1
  obtain ⟨k, hk⟩ := h2
  have hp : (0:Int) < 2^m := by positivity
  have hk0 : k = 0 := by
    by_contra hne
    rcases lt_or_gt_of_ne hne with h | h
    · have : k ≤ -1 := by omega
      nlinarith
    · have : 1 ≤ k := by omega
      nlinarith
  rw [hk0] at hk
  omega

theorem mulbound (x s q : Int) :
    (((((0:Int) ≤ x) ∧ (x < ((2:Int)^64))) ∧ ((0:Int) ≤ s)) ∧ (s < q)) → ((x * s) < (q * ((2:Int)^64))) := by
  rintro ⟨⟨⟨h0, h1⟩, h2⟩, h3⟩
  nlinarith


/-- division by the last modulus: y*R = x*s and s*Q = -R modulo an odd q give y*Q = -x -/
theorem rescale (y x s Q q m : Int) :
    ((((q ∣ ((y * ((2:Int)^64)) - (x * s))) ∧ (q ∣ (((s * Q) + ((2:Int)^64)) - (0 : Int)))) ∧ (((2:Int)^64) ∣ ((q * m) - (1 : Int)))) → (q ∣ (((y * Q) + x) - (0 : Int)))) := by
  rintro ⟨⟨h1, h2⟩, ⟨k, hk⟩⟩
  have hc : IsCoprime q ((2:Int)^64) := ⟨m, -k, by linarith⟩
  rw [sub_zero] at h2 ⊢
  apply hc.dvd_of_dvd_mul_right
  have e : (y * Q + x) * (2:Int)^64 = (y * (2:Int)^64 - x * s) * Q + (s * Q + (2:Int)^64) * x := by ring
  rw [e]
  exact dvd_add (dvd_mul_of_dvd_left h1 Q) (dvd_mul_of_dvd_left h2 x)

theorem pow2_bits (N b : Int) :
    (((((∃ m : ℕ, N = (2:Int)^m) ∧ (N ≥ (1:Int))) ∧ (b ≥ (1:Int))) ∧ (((2:Int)^(b - (1:Int)).toNat) ≤ N)) ∧ (N < ((2:Int)^b.toNat))) →
     (((2:Int)^(b - (1:Int)).toNat) = N) := by
  rintro ⟨⟨⟨⟨⟨m, rfl⟩, h0⟩, hb⟩, h1⟩, h2⟩
  have hm1 : (b-1).toNat ≤ m := (pow_le_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp (by linarith)
  have hm2 : m < b.toNat := (pow_lt_pow_iff_right₀ (by norm_num : (1:Int) < 2)).mp (by linarith)
  have : (b-1).toNat = m := by omega
  rw [this]

theorem modplus (a n : Int) :
    ((n ≥ (1 : Int)) → ((((0 : Int) % n) = (0 : Int)) ∧ ((a ≥ (0 : Int)) → (((a + n) % n) = (a % n))))) := by
  intro _
  exact ⟨Int.zero_emod n, fun _ => Int.add_emod_right a n⟩

theorem nextmult (a b n : Int) :
    ((((((n ≥ (1 : Int)) ∧ (a ≥ (0 : Int))) ∧ (a < b)) ∧ ((a = (0 : Int)) ∨ ((a % n) = (0 : Int)))) ∧ ((b % n) = (0 : Int))) → (b ≥ (a + n))) := by
  rintro ⟨⟨⟨⟨hn, _⟩, hab⟩, ha⟩, hb⟩
  have h1 : n ∣ a := by
    rcases ha with h | h
    · rw [h]; exact dvd_zero n
    · exact Int.dvd_of_emod_eq_zero h
  have h2 : n ∣ b := Int.dvd_of_emod_eq_zero hb
  have h3 : n ∣ b - a := dvd_sub h2 h1
  have := Int.le_of_dvd (by linarith) h3
  linarith

theorem modstep (i F : Int) :
    (((i ≥ (0 : Int)) ∧ (F ≥ (1 : Int))) → (((((i % F) ≥ (0 : Int)) ∧ ((i % F) ≤ (F - (1 : Int)))) ∧ (((((i + (1 : Int)) % F) = ((i % F) + (1 : Int))) ∧ ((i % F) ≠ (F - (1 : Int)))) ∨ ((((i + (1 : Int)) % F) = (0 : Int)) ∧ ((i % F) = (F - (1 : Int)))))) ∧ (((0 : Int) % F) = (0 : Int)))) := by
  rintro ⟨_, hF⟩
  have h0 := Int.emod_nonneg i (by omega : F ≠ 0)
  have h1 := Int.emod_lt_of_pos i (by omega : 0 < F)
  refine ⟨⟨⟨h0, by omega⟩, ?_⟩, Int.zero_emod F⟩
  have e : (i + 1) % F = (i % F + 1) % F := (Int.emod_add_emod i F 1).symm
  by_cases h : i % F = F - 1
  · right
    refine ⟨?_, h⟩
    rw [e, h, sub_add_cancel, Int.emod_self]
  · left
    refine ⟨?_, h⟩
    rw [e]
    exact Int.emod_eq_of_lt (by omega) (by omega)

theorem accbound (m M q : Int) :
    (((((((0 : Int) ≤ m) ∧ (m ≤ ((M / (2 : Int)) - (1 : Int)))) ∧ ((1 : Int) ≤ q)) ∧ (q ≤ (((2:Int)^((61 : Int)).toNat) - (8192 : Int)))) ∧ ((M * q) ≤ (((2:Int)^64) + (8192 : Int)))) → ((((11 : Int) + ((7 : Int) * m)) * q) ≤ ((4 : Int) * ((2:Int)^64)))) := by
  rintro ⟨⟨⟨⟨h0, h1⟩, h2⟩, h3⟩, h4⟩
  have h5 : 2 * m + 2 ≤ M := by omega
  have e : ((61 : Int)).toNat = 61 := rfl
  rw [e] at h3
  norm_num at h3 h4 ⊢
  nlinarith [mul_le_mul_of_nonneg_right h5 (by linarith : 0 ≤ q)]

end GVC
