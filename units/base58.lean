/-! What the conversion table of the base58 contracts (props/c_base58.py) means.
Places are numbered from the least significant one here: place p is index L-1-p of the contract; items are counted from Z. -/

/-- value of the digits f 0 .. f (p-1), least significant first -/
def val (B : Nat) (f : Nat → Nat) : Nat → Nat
  | 0 => 0
  | p+1 => val B f p + f p * B^p

/-- value of the items b 0 .. b (k-1), most significant first -/
def num (A : Nat) (b : Nat → Nat) : Nat → Nat
  | 0 => 0
  | k+1 => A * num A b k + b k

/-- the defining equations of D and C in the contract -/
structure Table (A B : Nat) (b : Nat → Nat) (D C : Nat → Nat → Nat) : Prop where
  d0 : ∀ p, D 0 p = 0
  c0 : ∀ k, C (k+1) 0 = b k
  cs : ∀ k p, C (k+1) (p+1) = (C (k+1) p + A * D k p) / B
  ds : ∀ k p, D (k+1) p = (C (k+1) p + A * D k p) % B

theorem step {A B b D C} (t : Table A B b D C) (k p : Nat) :
    val B (D (k+1)) p + C (k+1) p * B^p = A * val B (D k) p + b k := by
  induction p with
  | zero => simp [val, t.c0]
  | succ p ih =>
    have h := Nat.div_add_mod (C (k+1) p + A * D k p) B
    rw [← t.cs, ← t.ds] at h
    have h2 : (B * C (k+1) (p+1) + D (k+1) p) * B^p = (C (k+1) p + A * D k p) * B^p := by rw [h]
    simp only [val, Nat.pow_succ, Nat.mul_add, Nat.add_mul] at *
    have e1 : C (k+1) (p+1) * (B^p * B) = B * C (k+1) (p+1) * B^p := by
      rw [Nat.mul_comm (B^p) B, ← Nat.mul_assoc, Nat.mul_comm (C (k+1) (p+1)) B]
    have e2 : A * (D k p * B^p) = A * D k p * B^p := by rw [Nat.mul_assoc]
    omega

theorem num_lt {A b} (hb : ∀ k, b k < A) (k : Nat) : num A b k < A^k := by
  induction k with
  | zero => simp [num]
  | succ k ih =>
    have h1 : num A b k + 1 ≤ A^k := ih
    have h2 : A * (num A b k + 1) ≤ A * A^k := Nat.mul_le_mul_left A h1
    have h3 := hb k
    simp only [num, Nat.pow_succ, Nat.mul_add] at *
    have : A^k * A = A * A^k := Nat.mul_comm _ _
    omega

/-- the table holds the value of the items read so far, and nothing is carried out of the last place -/
theorem table_value {A B b D C} (t : Table A B b D C) (hb : ∀ k, b k < A) (hA : 0 < A) {n L : Nat} (h : A^n ≤ B^L) :
    ∀ k, k ≤ n → val B (D k) L = num A b k ∧ (0 < k → C k L = 0) := by
  intro k
  induction k with
  | zero =>
    intro _
    have : ∀ p, val B (D 0) p = 0 := by
      intro p; induction p with
      | zero => rfl
      | succ p ih => simp [val, t.d0, ih]
    exact ⟨by rw [this]; rfl, fun h => absurd h (by omega)⟩
  | succ k ih =>
    intro hk
    have h1 := (ih (by omega)).1
    have s := step t k L
    rw [h1] at s
    have hn := num_lt hb (k+1)
    have hp : A^(k+1) ≤ A^n := Nat.pow_le_pow_right hA hk
    have e : num A b (k+1) = A * num A b k + b k := rfl
    have hc : C (k+1) L = 0 := by
      cases hcc : C (k+1) L with
      | zero => rfl
      | succ c =>
        exfalso
        rw [hcc, Nat.add_mul, Nat.one_mul] at s
        have : 0 ≤ c * B^L := Nat.zero_le _
        omega
    refine ⟨?_, fun _ => hc⟩
    rw [hc] at s; simp at s; rw [e]; exact s

theorem pow_cmp {A B x y : Nat} (h : A^x ≤ B^y) (hB : 0 < B) (hx : 0 < x) (n L : Nat) (hL : y * n ≤ x * L) : A^n ≤ B^L := by
  apply Decidable.byContradiction
  intro hc
  have hc : B^L < A^n := Nat.lt_of_not_le hc
  have h1 : (B^L)^x < (A^n)^x := Nat.pow_lt_pow_left hc (by omega)
  have h2 : (A^x)^n ≤ (B^y)^n := Nat.pow_le_pow_left h n
  have h3 : B^(y*n) ≤ B^(x*L) := Nat.pow_le_pow_right hB hL
  rw [← Nat.pow_mul] at h1 h2
  rw [← Nat.pow_mul] at h1 h2
  rw [Nat.mul_comm L x, Nat.mul_comm n x] at h1
  omega

set_option exponentiation.threshold 2000
theorem room_enc (n : Nat) : 256^n ≤ 58^(n*138/100 + 1) :=
  pow_cmp (x := 100) (y := 138) (by decide) (by decide) (by decide) n _ (by omega)
theorem room_dec (n : Nat) : 58^n ≤ 256^(n*733/1000 + 1) :=
  pow_cmp (x := 1000) (y := 733) (by decide) (by decide) (by decide) n _ (by omega)

/-- the facts the contracts use: C(k,-1) = 0 -/
theorem no_overflow_enc {b D C} (t : Table 256 58 b D C) (hb : ∀ k, b k < 256) (n k : Nat) (hk : 0 < k) (hn : k ≤ n) : C k (n*138/100 + 1) = 0 :=
  (table_value t hb (by decide) (room_enc n) k hn).2 hk
theorem no_overflow_dec {b D C} (t : Table 58 256 b D C) (hb : ∀ k, b k < 58) (n k : Nat) (hk : 0 < k) (hn : k ≤ n) : C k (n*733/1000 + 1) = 0 :=
  (table_value t hb (by decide) (room_dec n) k hn).2 hk

theorem val_lt {B f} (hf : ∀ p, f p < B) (p : Nat) : val B f p < B^p := by
  induction p with
  | zero => simp [val]
  | succ p ih =>
    have h1 : (f p + 1) * B^p ≤ B * B^p := Nat.mul_le_mul_right _ (hf p)
    simp only [val, Nat.pow_succ, Nat.add_mul] at *
    have : B^p * B = B * B^p := Nat.mul_comm _ _
    omega

theorem digits_unique {B f g} (hf : ∀ p, f p < B) (hg : ∀ p, g p < B) (M : Nat) (h : val B f M = val B g M) : ∀ p, p < M → f p = g p := by
  induction M with
  | zero => intro p hp; omega
  | succ M ih =>
    have hB : 0 < B := Nat.lt_of_le_of_lt (Nat.zero_le _) (hf 0)
    have pB : 0 < B^M := Nat.pow_pos hB
    have l1 := val_lt hf M
    have l2 := val_lt hg M
    simp only [val] at h
    have q1 : (val B f M + f M * B^M) / B^M = f M := by
      rw [Nat.add_mul_div_right _ _ pB, Nat.div_eq_of_lt l1, Nat.zero_add]
    have q2 : (val B g M + g M * B^M) / B^M = g M := by
      rw [Nat.add_mul_div_right _ _ pB, Nat.div_eq_of_lt l2, Nat.zero_add]
    have e : f M = g M := by rw [← q1, ← q2, h]
    have e2 : val B f M = val B g M := by rw [e] at h; omega
    intro p hp
    by_cases hpM : p = M
    · rw [hpM]; exact e
    · exact ih e2 p (by omega)

theorem val_zero_above {B f} (m L : Nat) (hm : m ≤ L) (h : ∀ p, m ≤ p → p < L → f p = 0) : val B f L = val B f m := by
  induction L with
  | zero => have : m = 0 := by omega
            rw [this]
  | succ L ih =>
    by_cases e : m = L+1
    · rw [e]
    · simp only [val]
      rw [h L (by omega) (by omega), ih (by omega) (fun p a b => h p a (by omega))]; simp

theorem val_congr {B f g} (m : Nat) (h : ∀ p, p < m → f p = g p) : val B f m = val B g m := by
  induction m with
  | zero => rfl
  | succ m ih => simp only [val]; rw [h m (by omega), ih (fun p hp => h p (by omega))]

theorem num_congr {A f g} (m : Nat) (h : ∀ p, p < m → f p = g p) : num A f m = num A g m := by
  induction m with
  | zero => rfl
  | succ m ih => simp only [num]; rw [h m (by omega), ih (fun p hp => h p (by omega))]

theorem val_shift {B f} (m : Nat) : val B f (m+1) = B * val B (fun p => f (p+1)) m + f 0 := by
  induction m with
  | zero => simp [val]
  | succ m ih =>
    rw [show val B f (m+1+1) = val B f (m+1) + f (m+1) * B^(m+1) from rfl, ih]
    simp only [val, Nat.pow_succ, Nat.mul_add]
    have : f (m+1) * (B^m * B) = B * (f (m+1) * B^m) := by
      rw [Nat.mul_comm (B^m) B, ← Nat.mul_assoc, Nat.mul_comm (f (m+1)) B, Nat.mul_assoc]
    omega

/-- reading the digits from the most significant one gives their value -/
theorem horner {B f} (m : Nat) : num B (fun k => f (m-1-k)) m = val B f m := by
  induction m generalizing f with
  | zero => rfl
  | succ m ih =>
    rw [val_shift, ← ih (f := fun p => f (p+1))]
    show B * num B (fun k => f (m+1-1-k)) m + f (m+1-1-m) = _
    rw [show m+1-1-m = 0 by omega]
    congr 2
    apply num_congr
    intro p hp
    show f (m+1-1-p) = f (m-1-p+1)
    congr 1; omega

/-- decode inverts encode on the part after the leading zeros: y are its n bytes, m the number of digits the encoder keeps -/
theorem roundtrip {y D C D' C'} (n m : Nat) (hy : ∀ k, y k < 256)
    (t : Table 256 58 y D C) (hD : ∀ p, D n p < 58) (hm : m ≤ n*138/100 + 1) (hz : ∀ p, m ≤ p → p < n*138/100 + 1 → D n p = 0)
    (t' : Table 58 256 (fun k => D n (m-1-k)) D' C') (hD' : ∀ p, D' m p < 256) :
    (∀ p, p < m*733/1000 + 1 → p < n → D' m p = y (n-1-p)) ∧ (∀ p, n ≤ p → p < m*733/1000 + 1 → D' m p = 0) ∧
    (∀ p, m*733/1000 + 1 ≤ p → p < n → y (n-1-p) = 0) := by
  have v1 := (table_value t hy (by decide) (room_enc n) n (Nat.le_refl _)).1
  have v2 := (table_value t' (fun k => hD _) (by decide) (room_dec m) m (Nat.le_refl _)).1
  rw [horner (B := 58) (f := D n) m] at v2
  rw [val_zero_above m _ hm hz] at v1
  rw [v1] at v2
  -- y as digits, least significant first, zero above
  let f : Nat → Nat := fun p => if p < n then y (n-1-p) else 0
  let g : Nat → Nat := fun p => if p < m*733/1000 + 1 then D' m p else 0
  have hf : ∀ p, f p < 256 := by intro p; show (if p < n then y (n-1-p) else 0) < 256; split; exact hy _; decide
  have hg : ∀ p, g p < 256 := by intro p; show (if p < m*733/1000 + 1 then D' m p else 0) < 256; split; exact hD' _; decide
  have ef : ∀ M, n ≤ M → val 256 f M = num 256 y n := by
    intro M hM
    rw [val_zero_above n M hM (fun p a _ => by show (if p < n then y (n-1-p) else 0) = 0; rw [if_neg (by omega)]), ← horner]
    apply num_congr
    intro p hp
    show (if n-1-p < n then y (n-1-(n-1-p)) else 0) = y p
    rw [if_pos (by omega)]; congr 1; omega
  have eg : ∀ M, m*733/1000 + 1 ≤ M → val 256 g M = num 256 y n := by
    intro M hM
    rw [val_zero_above _ M hM (fun p a _ => by show (if p < m*733/1000 + 1 then D' m p else 0) = 0; rw [if_neg (by omega)]), ← v2]
    apply val_congr
    intro p hp
    show (if p < m*733/1000 + 1 then D' m p else 0) = D' m p
    rw [if_pos hp]
  have u := digits_unique hf hg (n + (m*733/1000 + 1)) (by rw [ef _ (by omega), eg _ (by omega)])
  refine ⟨?_, ?_, ?_⟩
  · intro p h1 h2
    have := u p (by omega)
    simp only [f, g, if_pos h1, if_pos h2] at this; exact this.symm
  · intro p h1 h2
    have := u p (by omega)
    simp only [f, g, if_pos h2, if_neg (show ¬ p < n by omega)] at this; exact this.symm
  · intro p h1 h2
    have := u p (by omega)
    simp only [f, g, if_pos h2, if_neg (show ¬ p < m*733/1000 + 1 by omega)] at this; exact this

#print axioms no_overflow_enc
#print axioms no_overflow_dec
#print axioms roundtrip
