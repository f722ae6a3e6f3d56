/-! Lemmas by induction that the contract engine gives to the SMT solver as facts.
    Checked by Lean on every set-up and in the thorough tier (`lean proofs/Lemmas.lean`, no library needed). -/

/-- pyve/natives.py, increasing_identity: a permutation of 0..n-1 that is strictly increasing is the identity
    (only its range and monotonicity are needed).  The engine uses the contrapositive with witnesses. -/
theorem increasing_identity (n : Nat) (p : Nat → Nat) (range : ∀ i, i < n → p i < n)
    (mono : ∀ i j, i < j → j < n → p i < p j) : ∀ i, i < n → p i = i := by
  have ge : ∀ i, i < n → i ≤ p i := by
    intro i
    induction i with
    | zero => intro _; exact Nat.zero_le _
    | succ k ih =>
      intro h
      have a := ih (by omega)
      have b := mono k (k + 1) (by omega) h
      omega
  have le : ∀ d i, i + d + 1 = n → p i ≤ i := by
    intro d
    induction d with
    | zero => intro i h; have := range i (by omega); omega
    | succ k ih =>
      intro i h
      have a := ih (i + 1) (by omega)
      have b := mono i (i + 1) (by omega) (by omega)
      omega
  intro i h
  have a := ge i h
  have b := le (n - 1 - i) i (by omega)
  omega

/-- pyve/natives.py, count_true: prefix counts.  f(i+1) = f(i) + [c i] for all integers i implies that f grows, and
    strictly only across a position with c. -/
theorem count_step (f : Int → Int) (c : Int → Prop) [DecidablePred c]
    (step : ∀ i, f (i + 1) = f i + (if c i then 1 else 0)) :
    ∀ a b, a ≤ b → f a ≤ f b ∧ (f a = f b ∨ ∃ w, a ≤ w ∧ w < b ∧ c w) := by
  have main : ∀ (d : Nat) (a : Int), f a ≤ f (a + d) ∧ (f a = f (a + d) ∨ ∃ w, a ≤ w ∧ w < a + d ∧ c w) := by
    intro d
    induction d with
    | zero => intro a; simp
    | succ k ih =>
      intro a
      have h := ih a
      have s := step (a + k)
      have e : a + ((k + 1 : Nat) : Int) = a + k + 1 := by omega
      rw [e, s]
      by_cases hc : c (a + k)
      · simp only [hc, if_true]
        exact ⟨by omega, Or.inr ⟨a + k, by omega, by omega, hc⟩⟩
      · simp only [hc, if_false]
        refine ⟨by omega, ?_⟩
        cases h.2 with
        | inl q => exact Or.inl (by omega)
        | inr q => obtain ⟨w, h1, h2, h3⟩ := q; exact Or.inr ⟨w, h1, by omega, h3⟩
  intro a b h
  have := main (b - a).toNat a
  have e : a + ((b - a).toNat : Int) = b := by omega
  rwa [e] at this

/-- pyve/natives.py, step_slice: the number of elements lo, lo+step, ... below hi exists and is the only solution of the
    constraints given to the solver. -/
theorem step_length_exists (lo hi step : Int) (hs : 1 ≤ step) :
    ∃ n : Int, 0 ≤ n ∧ (hi ≤ lo → n = 0) ∧ (lo < hi → 1 ≤ n ∧ lo + (n - 1) * step < hi ∧ hi ≤ lo + n * step) := by
  by_cases h : hi ≤ lo
  · exact ⟨0, by omega, fun _ => rfl, fun h2 => absurd h (by omega)⟩
  · have hh : lo < hi := by omega
    have e := Int.mul_ediv_add_emod (hi - lo - 1) step
    have m0 := Int.emod_nonneg (hi - lo - 1) (show step ≠ 0 by omega)
    have m1 := Int.emod_lt_of_pos (hi - lo - 1) (show 0 < step by omega)
    have q0 : 0 ≤ (hi - lo - 1) / step := Int.ediv_nonneg (by omega) (by omega)
    refine ⟨(hi - lo - 1) / step + 1, by omega, fun h2 => absurd h2 (by omega), fun _ => ⟨by omega, ?_, ?_⟩⟩
    · rw [show (hi - lo - 1) / step + 1 - 1 = (hi - lo - 1) / step by omega, Int.mul_comm]
      omega
    · rw [Int.add_mul, Int.one_mul, Int.mul_comm ((hi - lo - 1) / step)]
      omega

theorem step_length_unique (lo hi step n m : Int) (hs : 1 ≤ step)
    (n1 : lo + (n - 1) * step < hi) (n2 : hi ≤ lo + n * step)
    (m1 : lo + (m - 1) * step < hi) (m2 : hi ≤ lo + m * step) : n = m := by
  have a : (n - 1) * step < m * step := by omega
  have b : (m - 1) * step < n * step := by omega
  have c : n - 1 < m := Int.lt_of_mul_lt_mul_right a (by omega)
  have d : m - 1 < n := Int.lt_of_mul_lt_mul_right b (by omega)
  omega

/-- C21 (and every use of the reader-writer lock): threads wait only in strictly increasing rank, so among any waiting
    threads some thread waits for a thread that does not wait.  rank t: rank of the lock thread t waits for; holder t: a
    thread that holds it.  A holder that waits itself waits for a lock of higher rank than every lock it holds. -/
theorem no_cyclic_waiting {T : Type} (waits : T → Prop) (rank : T → Nat) (holder : T → T) (top : Nat)
    (bounded : ∀ t, rank t ≤ top) (increasing : ∀ t, waits t → waits (holder t) → rank t < rank (holder t)) :
    ∀ t, waits t → ∃ u, waits u ∧ ¬ waits (holder u) := by
  have main : ∀ (d : Nat) (t : T), top - rank t = d → waits t → ∃ u, waits u ∧ ¬ waits (holder u) := by
    intro d
    induction d using Nat.strongRecOn with
    | _ d ih =>
      intro t e w
      by_cases h : waits (holder t)
      · have lt := increasing t w h
        have b := bounded (holder t)
        exact ih (top - rank (holder t)) (by omega) (holder t) rfl h
      · exact ⟨t, w, h⟩
  intro t w
  exact main _ t rfl w

/-- C07-C09: what one read does to the cursor (proved by the engine as the contract of read and the lemma `successive
    reads`) gives the order of a whole history: keys strictly increase along all reads. -/
theorem history_increases (k : Nat → Int) (step : ∀ i, k i < k (i + 1)) : ∀ i j, i < j → k i < k j := by
  intro i j
  induction j with
  | zero => intro h; omega
  | succ m ih =>
    intro h
    have s := step m
    by_cases e : i = m
    · subst e; exact s
    · have := ih (by omega); omega

/-- C12-C14: an invariant that holds after start and is kept by every iteration holds at every point of every history. -/
theorem invariant_history {S : Type} (inv : S → Prop) (next : S → S → Prop) (s : Nat → S) (start : inv (s 0))
    (keep : ∀ a b, inv a → next a b → inv b) (run : ∀ i, next (s i) (s (i + 1))) : ∀ i, inv (s i) := by
  intro i
  induction i with
  | zero => exact start
  | succ k ih => exact keep _ _ ih (run k)
