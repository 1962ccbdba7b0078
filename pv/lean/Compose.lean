/-! How the contracts of pv/proofs compose into the properties C01, C02, C04,
C11, C12 and C17.  Every definition restates contracts (named in its comment);
the theorems are the inductions over loads, splits, views and positions. -/
open Classical
noncomputable section
namespace Compose

/-! ### C12: any sequence of loads into one tree
The state of a tree: for every sequence of keys from the root, the count of
the node there, if there is one.  `load` is the contract of build_tree,
add_child and build_from_parsed_pieces. -/
section loads
variable {K : Type}

abbrev St (K : Type) := List K → Option Nat

def St.init : St K := fun q => if q = [] then some 0 else none

def isNew (s : St K) (p : List K) : Prop := s p = none

def load (s : St K) (p : List K) : St K := fun q =>
  if q <+: p then
    some ((s q).getD 0 + if isNew s p then 1 else 0)
  else s q

def loads (s : St K) : List (List K) → St K
  | [] => s
  | p :: ps => loads (load s p) ps

/-- `seen`: the distinct paths that were loaded. -/
structure Inv (n : Nat) (s : St K) (seen : List (List K)) : Prop where
  nodup : seen.Nodup
  len : ∀ p ∈ seen, p.length = n
  node : ∀ q, s q = if q = [] ∨ ∃ p ∈ seen, q <+: p then
    some ((seen.filter fun p => q <+: p).length) else none

theorem Inv.start (n : Nat) : Inv n (St.init : St K) [] where
  nodup := List.nodup_nil
  len := by simp
  node := by intro q; simp [St.init]

theorem Inv.new_iff {n} {s : St K} {seen} (h : Inv n s seen) {p : List K}
    (hp : p.length = n) (hn : 0 < n) : isNew s p ↔ p ∉ seen := by
  have hne : p ≠ [] := by intro e; subst e; simp at hp; omega
  unfold isNew
  rw [h.node p]
  constructor
  · intro e hm
    have : (p = [] ∨ ∃ p' ∈ seen, p <+: p') :=
      Or.inr ⟨p, hm, List.prefix_refl p⟩
    simp [this] at e
  · intro hm
    have : ¬ (p = [] ∨ ∃ p' ∈ seen, p <+: p') := by
      rintro (e | ⟨p', h', hpre⟩)
      · exact hne e
      · have : p = p' := hpre.eq_of_length (hp.trans (h.len p' h').symm)
        exact hm (this ▸ h')
    simp [this]

theorem Inv.step {n} {s : St K} {seen} (h : Inv n s seen) {p : List K}
    (hp : p.length = n) (hn : 0 < n) :
    Inv n (load s p) (if p ∈ seen then seen else p :: seen) := by
  by_cases hm : p ∈ seen
  · have hnew : ¬ isNew s p := fun e => (h.new_iff hp hn).1 e hm
    have same : load s p = s := by
      funext q
      unfold load
      by_cases hq : q <+: p
      · have hh : (q = [] ∨ ∃ p' ∈ seen, q <+: p') := Or.inr ⟨p, hm, hq⟩
        have e := h.node q
        simp only [hh, if_true] at e
        simp [hq, hnew, e]
      · simp [hq]
    rw [same]; simp only [hm, if_true]; exact h
  · have hnew : isNew s p := (h.new_iff hp hn).2 hm
    simp only [hm, if_false]
    refine ⟨List.nodup_cons.2 ⟨hm, h.nodup⟩, ?_, ?_⟩
    · intro q hq
      rcases List.mem_cons.1 hq with rfl | hq
      · exact hp
      · exact h.len q hq
    · intro q
      unfold load
      by_cases hq : q <+: p
      · have hh : (q = [] ∨ ∃ p' ∈ p :: seen, q <+: p') :=
          Or.inr ⟨p, by simp, hq⟩
        simp only [hq, hnew, if_true, hh]
        rw [h.node q]
        by_cases h0 : (q = [] ∨ ∃ p' ∈ seen, q <+: p')
        · simp [h0, hq]
        · have none' : ∀ a ∈ seen, ¬ q <+: a := by
            intro a ha hqa; exact h0 (Or.inr ⟨a, ha, hqa⟩)
          have : (seen.filter fun p => decide (q <+: p)) = [] := by
            simp; exact none'
          simp [h0, hq, this]
      · have : (q = [] ∨ ∃ p' ∈ p :: seen, q <+: p') ↔
            (q = [] ∨ ∃ p' ∈ seen, q <+: p') := by
          simp [hq]
        simp only [hq, if_false, this]
        rw [h.node q]
        simp [hq]

/-- The distinct elements, latest first seen in front. -/
def distinct (seen : List (List K)) : List (List K) → List (List K)
  | [] => seen
  | p :: ps => distinct (if p ∈ seen then seen else p :: seen) ps

theorem distinct_mem (ps seen : List (List K)) (x) :
    x ∈ distinct seen ps ↔ x ∈ seen ∨ x ∈ ps := by
  induction ps generalizing seen with
  | nil => simp [distinct]
  | cons p ps ih =>
    simp only [distinct]; rw [ih]
    by_cases hm : p ∈ seen
    · simp only [hm, if_true, List.mem_cons]
      constructor
      · rintro (h | h); exact Or.inl h; exact Or.inr (Or.inr h)
      · rintro (h | rfl | h)
        · exact Or.inl h
        · exact Or.inl hm
        · exact Or.inr h
    · simp only [hm, if_false, List.mem_cons]
      constructor
      · rintro ((h | h) | h)
        · exact Or.inr (Or.inl h)
        · exact Or.inl h
        · exact Or.inr (Or.inr h)
      · rintro (h | h | h)
        · exact Or.inl (Or.inr h)
        · exact Or.inl (Or.inl h)
        · exact Or.inr h

/-- Any sequence of loads of paths of one depth: counts are numbers of
distinct loaded paths, and a load is new when it was not loaded before. -/
theorem loads_exact {n : Nat} (hn : 0 < n) (ps : List (List K))
    (hl : ∀ p ∈ ps, p.length = n) :
    Inv n (loads St.init ps) (distinct [] ps) ∧
    (∀ p, p.length = n → (isNew (loads St.init ps) p ↔ p ∉ ps)) := by
  have gen : ∀ (ps : List (List K)) (s seen), Inv n s seen →
      (∀ p ∈ ps, p.length = n) → Inv n (loads s ps) (distinct seen ps) := by
    intro ps
    induction ps with
    | nil => intro s seen h _; exact h
    | cons p ps ih =>
      intro s seen h hl
      exact ih _ _ (h.step (hl p (by simp)) hn)
        (fun q hq => hl q (by simp [hq]))
  have h := gen ps _ _ (Inv.start n) hl
  refine ⟨h, ?_⟩
  intro p hp
  rw [h.new_iff hp hn, distinct_mem]; simp

end loads

/-! ### C02: splits partition
`splitBy` is the contract of split_by_pattern (and of the makers by digest):
every path is put, once, into the group of its key. -/
section splits
variable {P K : Type}

def put (k : K) (p : P) : List (K × List P) → List (K × List P)
  | [] => [(k, [p])]
  | (k', ps) :: g => if k = k' then (k', p :: ps) :: g
                     else (k', ps) :: put k p g

def splitBy (key : P → K) : List P → List (K × List P)
  | [] => []
  | p :: ps => put (key p) p (splitBy key ps)

def all (g : List (K × List P)) : List P := (g.map Prod.snd).flatten

theorem put_perm (k : K) (p : P) (g : List (K × List P)) :
    (all (put k p g)).Perm (p :: all g) := by
  induction g with
  | nil => simp [put, all]
  | cons a g ih =>
    obtain ⟨k', ps⟩ := a
    by_cases h : k = k'
    · simp [put, h, all]
    · simp only [put, h, if_false, all, List.map_cons, List.flatten_cons]
      refine (List.Perm.append_left ps ih).trans ?_
      exact List.perm_middle (a := p) (l₁ := ps)
        (l₂ := (g.map Prod.snd).flatten)

theorem splitBy_perm (key : P → K) (ps : List P) :
    (all (splitBy key ps)).Perm ps := by
  induction ps with
  | nil => simp [splitBy, all]
  | cons p ps ih => exact (put_perm _ _ _).trans (ih.cons p)

theorem put_key (key : P → K) (p : P) (g : List (K × List P))
    (h : ∀ a ∈ g, ∀ x ∈ a.2, key x = a.1) :
    ∀ a ∈ put (key p) p g, ∀ x ∈ a.2, key x = a.1 := by
  induction g with
  | nil => intro a ha x hx; simp [put] at ha; subst ha; simp at hx; rw [hx]
  | cons b g ih =>
    obtain ⟨k', qs⟩ := b
    intro a ha x hx
    by_cases e : key p = k'
    · simp only [put, e, if_true] at ha
      rcases List.mem_cons.1 ha with rfl | ha
      · rcases List.mem_cons.1 hx with rfl | hx
        · exact e
        · exact h (k', qs) (by simp) x hx
      · exact h a (by simp [ha]) x hx
    · simp only [put, e, if_false] at ha
      rcases List.mem_cons.1 ha with rfl | ha
      · exact h (k', qs) (by simp) x hx
      · exact ih (fun a ha => h a (by simp [ha])) a ha x hx

theorem splitBy_key (key : P → K) (ps : List P) :
    ∀ a ∈ splitBy key ps, ∀ x ∈ a.2, key x = a.1 := by
  induction ps with
  | nil => intro a ha; simp [splitBy] at ha
  | cons p ps ih => exact put_key key p _ ih

/- cluster_flow: an empty tree gives nothing, a tree that cannot be split
is given, else what the sub-trees of split_by_pattern give.  The patterns of
the nodes, and so the keys, are those that process set for this tree. -/
mutual
inductive Yields : List P → List (List P) → Prop
  | empty : Yields [] []
  | whole (t) : Yields t [t]
  | split (t) (key : P → List K) {outs} :
      YieldsAll ((splitBy key t).map Prod.snd) outs → Yields t outs
inductive YieldsAll : List (List P) → List (List P) → Prop
  | nil : YieldsAll [] []
  | cons {t ts o os} : Yields t o → YieldsAll ts os →
      YieldsAll (t :: ts) (o ++ os)
end

mutual
theorem Yields.perm {t : List P} {o} : Yields (K := K) t o → o.flatten.Perm t
  | .empty => by simp
  | .whole t => by simp
  | .split t key h => h.perm.trans (splitBy_perm key t)
theorem YieldsAll.perm {ts : List (List P)} {o} :
    YieldsAll (K := K) ts o → o.flatten.Perm ts.flatten
  | .nil => by simp
  | .cons h hs => by
    simp only [List.flatten_append, List.flatten_cons]
    exact h.perm.append hs.perm
end

/-- make: what the makers of the digests give is, together, every loaded
path once. -/
theorem made_perm (digest : P → K) (paths : List P) {outs : List (List P)}
    (h : YieldsAll (K := K) ((splitBy digest paths).map Prod.snd) outs) :
    outs.flatten.Perm paths :=
  h.perm.trans (splitBy_perm digest paths)

/-- ... so a path that was loaded once is in exactly one cluster. -/
theorem made_once (digest : P → K) (paths : List P) {outs : List (List P)}
    (h : YieldsAll (K := K) ((splitBy digest paths).map Prod.snd) outs)
    (hn : paths.Nodup) (p : P) :
    (p ∈ paths ↔ ∃ o ∈ outs, p ∈ o) ∧ outs.flatten.Nodup := by
  have hp := made_perm digest paths h
  refine ⟨?_, hp.nodup_iff.2 hn⟩
  rw [← hp.mem_iff]; simp [List.mem_flatten]

/-- The counts of the clusters add up to the number of paths. -/
theorem made_count (digest : P → K) (paths : List P) {outs : List (List P)}
    (h : YieldsAll (K := K) ((splitBy digest paths).map Prod.snd) outs) :
    (outs.map List.length).sum = paths.length := by
  rw [← (made_perm digest paths h).length_eq, List.length_flatten]

/-- A cluster is part of the tree of one maker, so it has one digest. -/
theorem YieldsAll.sub {ts : List (List P)} {os} :
    YieldsAll (K := K) ts os → ∀ o ∈ os, ∃ t ∈ ts, ∀ x ∈ o, x ∈ t
  | .nil => by intro o ho; simp at ho
  | .cons (t := t) hy hs => by
    intro o ho
    rcases List.mem_append.1 ho with ho | ho
    · refine ⟨t, by simp, fun x hx => ?_⟩
      exact hy.perm.mem_iff.1 (List.mem_flatten.2 ⟨o, ho, hx⟩)
    · obtain ⟨t', ht', hx⟩ := hs.sub o ho
      exact ⟨t', by simp [ht'], hx⟩

theorem made_digest (digest : P → K) (paths : List P) {outs : List (List P)}
    (h : YieldsAll (K := K) ((splitBy digest paths).map Prod.snd) outs) :
    ∀ o ∈ outs, ∀ x ∈ o, ∀ y ∈ o, digest x = digest y := by
  intro o ho x hx y hy
  obtain ⟨t, ht, hs⟩ := h.sub o ho
  obtain ⟨a, ha, rfl⟩ := List.mem_map.1 ht
  rw [splitBy_key digest paths a ha x (hs x hx),
    splitBy_key digest paths a ha y (hs y hy)]

end splits

/-! ### C01, C03, C04, C17: patterns and what they match
A unit: literal text, [rules]{n} or [rules]+. -/
section patterns
variable {R : Type} (rule : Char → R)

inductive Un (R : Type)
  | lit (t : List Char)
  | len (s : R → Prop) (n : Nat)
  | plus (s : R → Prop)

/-- As a regular expression. -/
def Un.Matches : Un R → List Char → Prop
  | .lit t, x => x = t
  | .len s n, x => x.length = n ∧ ∀ c ∈ x, s (rule c)
  | .plus s, x => x ≠ [] ∧ ∀ c ∈ x, s (rule c)

inductive Match : List (Un R) → List Char → Prop
  | nil : Match [] []
  | cons {u us x y} : u.Matches rule x → Match us y → Match (u :: us) (x ++ y)

theorem Match.append {us vs : List (Un R)} {x y} (h : Match rule us x)
    (h' : Match rule vs y) : Match rule (us ++ vs) (x ++ y) := by
  induction h with
  | nil => exact h'
  | cons hu _ ih => rw [List.append_assoc]; exact .cons hu ih

/-- The rules of a text, and of units. -/
def Has (t : List Char) (s : R → Prop) : Prop :=
  ∀ r, s r ↔ ∃ c ∈ t, rule c = r

def Un.rules : Un R → R → Prop
  | .lit t, r => ∃ c ∈ t, rule c = r
  | .len s _, r => s r
  | .plus s, r => s r

def rulesOf (us : List (Un R)) (r : R) : Prop := ∃ u ∈ us, u.rules rule r

/- What a piece t of a level whose pieces all have the rules s can get, by
the contracts of the cluster classes: its literal; the length pattern or the
wildcard of a piece with these rules, read off any bag of the level; or, for
its parts under a view, of levels with the rules of the view, what they get.
`k`: the paths of the bags that get it together, at most `n` in all. -/
mutual
inductive Gets (n m : Nat) : (R → Prop) → List Char → List (Un R) → Prop
  | lit {s t} : Gets n m s t [.lit t]
  | len {s t q} (k : Nat) : m ≤ k → k ≤ n → Has rule q s →
      q.length = t.length →
      Gets n m s t [.len (fun r => ∃ c ∈ q, rule c = r) q.length]
  | plus {s t q} (k : Nat) : m ≤ k → k ≤ n → Has rule q s → t ≠ [] →
      Gets n m s t [.plus (fun r => ∃ c ∈ q, rule c = r)]
  | view {s t ps ss us} (k : Nat) : m ≤ k → k ≤ n → ps.flatten = t →
      GetsAll n m ss ps us → Gets n m s t us
inductive GetsAll (n m : Nat) :
    List (R → Prop) → List (List Char) → List (Un R) → Prop
  | nil : GetsAll n m [] [] []
  | cons {s ss p ps us vs} : Has rule p s → Gets n m s p us →
      GetsAll n m ss ps vs → GetsAll n m (s :: ss) (p :: ps) (us ++ vs)
end

mutual
theorem Gets.match {n m} {s : R → Prop} {t us} (hs : Has rule t s) :
    Gets rule n m s t us → Match rule us t
  | .lit => by
    have := Match.cons (rule := rule) (u := .lit t) (us := []) (x := t) rfl
      .nil
    simpa using this
  | .len (q := q) k _ _ hq hl => by
    have := Match.cons (rule := rule)
      (u := .len (fun r => ∃ c ∈ q, rule c = r) q.length) (us := []) (x := t)
      ⟨hl.symm, fun c hc => (hq _).1 ((hs _).2 ⟨c, hc, rfl⟩)⟩ .nil
    simpa using this
  | .plus (q := q) k _ _ hq ht => by
    have := Match.cons (rule := rule)
      (u := .plus (fun r => ∃ c ∈ q, rule c = r)) (us := []) (x := t)
      ⟨ht, fun c hc => (hq _).1 ((hs _).2 ⟨c, hc, rfl⟩)⟩ .nil
    simpa using this
  | .view k _ _ hf h => hf ▸ h.match
theorem GetsAll.match {n m} {ss : List (R → Prop)} {ps us} :
    GetsAll rule n m ss ps us → Match rule us ps.flatten
  | .nil => by simpa using Match.nil
  | .cons hp h hs => by
    simp only [List.flatten_cons]
    exact (h.match hp).append rule hs.match
end

theorem rulesOf_append (us vs : List (Un R)) (r : R) :
    rulesOf rule (us ++ vs) r ↔ rulesOf rule us r ∨ rulesOf rule vs r := by
  simp [rulesOf, or_and_right, exists_or]

mutual
theorem Gets.rules {n m} {s : R → Prop} {t us} (hs : Has rule t s) :
    Gets rule n m s t us → ∀ r, rulesOf rule us r ↔ s r
  | .lit => by intro r; simp [rulesOf, Un.rules, hs r]
  | .len k _ _ hq _ => by intro r; simp [rulesOf, Un.rules, hq r]
  | .plus k _ _ hq _ => by intro r; simp [rulesOf, Un.rules, hq r]
  | .view k _ _ hf h => by
    intro r; rw [h.rules r, hs r, ← hf]
theorem GetsAll.rules {n m} {ss : List (R → Prop)} {ps us} :
    GetsAll rule n m ss ps us →
      ∀ r, rulesOf rule us r ↔ ∃ c ∈ ps.flatten, rule c = r
  | .nil => by intro r; simp [rulesOf]
  | .cons hp h hs => by
    intro r
    rw [rulesOf_append, h.rules hp r, hs.rules r, hp r]
    simp [or_and_right, exists_or]
end

/-- C17: with fewer than m paths in all, a piece keeps its literal. -/
theorem Gets.literal {n m} {s : R → Prop} {t us} (h : Gets rule n m s t us)
    (hnm : n < m) : us = [.lit t] := by
  cases h with
  | lit => rfl
  | len k a b => omega
  | plus k a b => omega
  | view k a b => omega

theorem match_lit {t x : List Char} :
    Match rule [Un.lit t] x ↔ x = t := by
  constructor
  · intro h
    cases h with
    | cons hu hn => cases hn; simpa [Un.Matches] using hu
  · rintro rfl
    have := Match.cons (rule := rule) (u := .lit x) (us := []) (x := x) rfl
      .nil
    simpa using this

/-- C17: what is not the literal was given to m paths. -/
theorem Gets.general {n m} {s : R → Prop} {t us} (h : Gets rule n m s t us)
    (hne : us ≠ [.lit t]) : m ≤ n := by
  cases h with
  | lit => exact absurd rfl hne
  | len k a b => omega
  | plus k a b => omega
  | view k a b => omega

/- C04: what the view matchers give for a piece, by their contracts: the
literal of the text; one unit of the rules and, if it has one, the length of
the piece; or, part by part of a view, what they give for the groups of the
units. -/
mutual
inductive Given : List Char → List (Un R) → Prop
  | lit {t us} : (∀ u ∈ us, ∃ x, u = Un.lit x) →
      (us.map fun u => match u with | .lit x => x | _ => []).flatten = t →
      Given t us
  | len {t s} : Has rule t s → Given t [.len s t.length]
  | plus {t s} : t ≠ [] → Has rule t s → Given t [.plus s]
  | view {t ps us} : ps.flatten = t → GivenAll ps us → Given t us
inductive GivenAll : List (List Char) → List (Un R) → Prop
  | nil : GivenAll [] []
  | cons {p ps us vs} : Given p us → GivenAll ps vs →
      GivenAll (p :: ps) (us ++ vs)
end

theorem lits_match (us : List (Un R)) (h : ∀ u ∈ us, ∃ x, u = Un.lit x) :
    Match rule us
      (us.map fun u => match u with | .lit x => x | _ => []).flatten ∧
    ∀ r, rulesOf rule us r ↔ ∃ c ∈
      (us.map fun u => match u with | .lit x => x | _ => []).flatten,
      rule c = r := by
  induction us with
  | nil => exact ⟨by simpa using Match.nil, by intro r; simp [rulesOf]⟩
  | cons u us ih =>
    obtain ⟨x, rfl⟩ := h u (by simp)
    obtain ⟨i1, i2⟩ := ih (fun v hv => h v (by simp [hv]))
    refine ⟨by simpa using Match.cons (rule := rule) (u := .lit x) rfl i1, ?_⟩
    intro r
    have : rulesOf rule (.lit x :: us) r ↔
        (∃ c ∈ x, rule c = r) ∨ rulesOf rule us r := by
      simp [rulesOf, Un.rules]
    rw [this, i2 r]
    simp [or_and_right, exists_or]

mutual
theorem Given.sound {t : List Char} {us : List (Un R)} : Given rule t us →
    Match rule us t ∧ ∀ r, rulesOf rule us r ↔ ∃ c ∈ t, rule c = r
  | .lit h e => e ▸ lits_match rule us h
  | .len (s := s) hs => ⟨by
      have := Match.cons (rule := rule) (u := .len s t.length) (us := [])
        (x := t) ⟨rfl, fun c hc => (hs _).2 ⟨c, hc, rfl⟩⟩ .nil
      simpa using this, by intro r; simp [rulesOf, Un.rules, hs r]⟩
  | .plus (s := s) hn hs => ⟨by
      have := Match.cons (rule := rule) (u := .plus s) (us := [])
        (x := t) ⟨hn, fun c hc => (hs _).2 ⟨c, hc, rfl⟩⟩ .nil
      simpa using this, by intro r; simp [rulesOf, Un.rules, hs r]⟩
  | .view e h => e ▸ h.sound
theorem GivenAll.sound {ps : List (List Char)} {us : List (Un R)} :
    GivenAll rule ps us → Match rule us ps.flatten ∧
      ∀ r, rulesOf rule us r ↔ ∃ c ∈ ps.flatten, rule c = r
  | .nil => ⟨by simpa using Match.nil, by intro r; simp [rulesOf]⟩
  | .cons h hs => ⟨by
      simp only [List.flatten_cons]
      exact h.sound.1.append rule hs.sound.1, by
      intro r
      rw [rulesOf_append, h.sound.2 r, hs.sound.2 r]
      simp [or_and_right, exists_or]⟩
end

end patterns

/-! ### C11: the order of results, the last position that differs decides -/
section order
variable {A : Type} (lt : A → A → Prop)

structure Weak (lt : A → A → Prop) : Prop where
  irrefl : ∀ a, ¬ lt a a
  trans : ∀ a b c, lt a b → lt b c → lt a c
  part : ∀ a b c, lt a c → lt a b ∨ lt b c

/-- The four obligations of prove_weak_order. -/
theorem Weak.of (irr : ∀ a, ¬ lt a a) (asym : ∀ a b, ¬ (lt a b ∧ lt b a))
    (tr : ∀ a b c, lt a b ∧ lt b c → lt a c)
    (same : ∀ a b c, ¬ (lt a b ∨ lt b a) ∧ ¬ (lt b c ∨ lt c b) →
      ¬ (lt a c ∨ lt c a)) : Weak lt where
  irrefl := irr
  trans := fun a b c x y => tr a b c ⟨x, y⟩
  part := by
    intro a b c h
    by_cases x : lt a b
    · exact Or.inl x
    by_cases y : lt b c
    · exact Or.inr y
    by_cases x' : lt b a
    · exact Or.inr (tr b a c ⟨x', h⟩)
    by_cases y' : lt c b
    · exact Or.inl (tr a c b ⟨h, y'⟩)
    · exact absurd (Or.inl h) (same a b c
        ⟨fun z => z.elim x x', fun z => z.elim y y'⟩)

/-- node_order: the last position decides unless it is as specific; then the
position before.  (Positions in reverse order.) -/
def Lex : List A → List A → Prop
  | a :: as, b :: bs => lt a b ∨ (¬ lt a b ∧ ¬ lt b a ∧ Lex as bs)
  | _, _ => False

theorem Lex.weak (h : Weak lt) : ∀ (n : Nat),
    (∀ as : List A, as.length = n → ¬ Lex lt as as) ∧
    (∀ as bs cs : List A, as.length = n → bs.length = n → cs.length = n →
      Lex lt as bs → Lex lt bs cs → Lex lt as cs) ∧
    (∀ as bs cs : List A, as.length = n → bs.length = n → cs.length = n →
      Lex lt as cs → Lex lt as bs ∨ Lex lt bs cs) := by
  intro n
  induction n with
  | zero =>
    refine ⟨?_, ?_, ?_⟩
    · intro as h1; cases as <;> simp_all [Lex]
    · intro as bs cs h1 h2 h3; cases as <;> simp_all [Lex]
    · intro as bs cs h1 h2 h3; cases as <;> simp_all [Lex]
  | succ n ih =>
    obtain ⟨i1, i2, i3⟩ := ih
    have asym : ∀ a b, lt a b → ¬ lt b a := fun a b x y =>
      h.irrefl a (h.trans _ _ _ x y)
    refine ⟨?_, ?_, ?_⟩
    · intro as h1 hl
      match as, h1, hl with
      | a :: as, h1, hl =>
        rcases hl with hl | ⟨_, _, hl⟩
        · exact h.irrefl a hl
        · exact i1 as (by simpa using h1) hl
    · intro as bs cs h1 h2 h3 x y
      match as, bs, cs, h1, h2, h3, x, y with
      | a :: as, b :: bs, c :: cs, h1, h2, h3, x, y =>
        rcases x with x | ⟨x1, x2, x⟩ <;> rcases y with y | ⟨y1, y2, y⟩
        · exact Or.inl (h.trans _ _ _ x y)
        · left
          rcases h.part a c b x with z | z
          · exact z
          · exact absurd z y2
        · left
          rcases h.part b a c y with z | z
          · exact absurd z x2
          · exact z
        · right
          refine ⟨?_, ?_, i2 as bs cs (by simpa using h1) (by simpa using h2)
            (by simpa using h3) x y⟩
          · intro z; rcases h.part a b c z with w | w
            · exact x1 w
            · exact y1 w
          · intro z; rcases h.part c b a z with w | w
            · exact y2 w
            · exact x2 w
    · intro as bs cs h1 h2 h3 x
      match as, bs, cs, h1, h2, h3, x with
      | a :: as, b :: bs, c :: cs, h1, h2, h3, x =>
        rcases x with x | ⟨x1, x2, x⟩
        · rcases h.part a b c x with z | z
          · exact Or.inl (Or.inl z)
          · exact Or.inr (Or.inl z)
        · by_cases z : lt a b
          · exact Or.inl (Or.inl z)
          by_cases w : lt b c
          · exact Or.inr (Or.inl w)
          have z' : ¬ lt b a := by
            intro v; rcases h.part b c a v with u | u
            · exact w u
            · exact x2 u
          have w' : ¬ lt c b := by
            intro v; rcases h.part c a b v with u | u
            · exact x2 u
            · exact z u
          rcases i3 as bs cs (by simpa using h1) (by simpa using h2)
            (by simpa using h3) x with v | v
          · exact Or.inl (Or.inr ⟨z, z', v⟩)
          · exact Or.inr (Or.inr ⟨w, w', v⟩)

/-- A result that no other is above: sorted(results, reverse=True)[0]. -/
theorem greatest (h : Weak lt) (xs : List A) (hne : xs ≠ []) :
    ∃ m ∈ xs, ∀ x ∈ xs, ¬ lt m x := by
  induction xs with
  | nil => exact absurd rfl hne
  | cons a xs ih =>
    by_cases e : xs = []
    · subst e
      exact ⟨a, by simp, by intro x hx; simp at hx; subst hx; exact h.irrefl x⟩
    · obtain ⟨m, hm, hx⟩ := ih e
      by_cases hl : lt m a
      · refine ⟨a, by simp, ?_⟩
        intro x hx'
        rcases List.mem_cons.1 hx' with rfl | hx'
        · exact h.irrefl x
        · intro hax; exact hx x hx' (h.trans _ _ _ hl hax)
      · refine ⟨m, by simp [hm], ?_⟩
        intro x hx'
        rcases List.mem_cons.1 hx' with rfl | hx'
        · exact hl
        · exact hx x hx'

end order

/-! ### C03: the digest
fuzzy_digest: md5 of the packed structure and rule texts; round_trip: what
was packed is read back; fuzzy_rule and rules_are_prefix_code: the text of a
set of rules, read in one way. -/
section digests
variable {S Q T D : Type}

theorem digest_iff (pack : S → List T → T) (read : T → S × List T)
    (text : Q → T) (md5 : T → D) (left : ∀ s ts, read (pack s ts) = (s, ts))
    (inj : ∀ a b, text a = text b → a = b)
    (coll : ∀ a b, md5 a = md5 b → a = b) (s s' : S) (qs qs' : List Q) :
    md5 (pack s (qs.map text)) = md5 (pack s' (qs'.map text)) ↔
      s = s' ∧ qs = qs' := by
  constructor
  · intro h
    have e := coll _ _ h
    have e2 : (s, qs.map text) = (s', qs'.map text) := by
      rw [← left s, ← left s', e]
    injection e2 with e3 e4
    refine ⟨e3, ?_⟩
    clear h e e3 left coll
    induction qs generalizing qs' with
    | nil => cases qs' <;> simp_all
    | cons a qs ih =>
      cases qs' with
      | nil => simp at e4
      | cons b qs' =>
        simp at e4
        rw [inj _ _ e4.1, ih _ e4.2]
  · rintro ⟨rfl, rfl⟩; rfl

end digests

/-! ### C04, C05: the walk over the tree of patterns -/
section walk
variable {P Q V : Type}

/-- What node_match says of the node with path p: for the next piece the nodes
that its view matchers give, each of which is asked for the pieces after it;
the leaves are the results. -/
def walk (given : List P → Q → List P) : List P → List Q → List (List P)
  | p, [] => [p]
  | p, q :: qs => (given p q).flatMap fun c => walk given (p ++ [c]) qs

/-- A result is a path of patterns each of which was given for its piece, and
every such path is a result. -/
theorem walk_iff (given : List P → Q → List P) (p : List P) (qs : List Q)
    (r : List P) : r ∈ walk given p qs ↔ ∃ t, r = p ++ t ∧
      t.length = qs.length ∧ ∀ i (hi : i < t.length) (hq : i < qs.length),
        t[i] ∈ given (p ++ t.take i) qs[i] := by
  induction qs generalizing p with
  | nil =>
    simp only [walk, List.mem_singleton, List.length_nil]
    constructor
    · rintro rfl
      exact ⟨[], by simp, rfl, fun i hi => absurd hi (by simp)⟩
    · rintro ⟨t, rfl, h, -⟩
      have : t = [] := List.length_eq_zero_iff.1 h
      simp [this]
  | cons q qs ih =>
    simp only [walk, List.mem_flatMap]
    constructor
    · rintro ⟨c, hc, hr⟩
      obtain ⟨t, rfl, hl, hg⟩ := (ih _).1 hr
      refine ⟨c :: t, by simp, by simp [hl], ?_⟩
      intro i hi hq
      cases i with
      | zero => simpa using hc
      | succ i =>
        have := hg i (by simpa using hi) (by simpa using hq)
        simpa using this
    · rintro ⟨t, rfl, hl, hg⟩
      cases t with
      | nil => simp at hl
      | cons c t =>
        have h0 := hg 0 (Nat.succ_pos _) (Nat.succ_pos _)
        simp only [List.getElem_cons_zero, List.take_zero,
          List.append_nil] at h0
        refine ⟨c, h0, (ih _).2 ⟨t, by simp, by simpa using hl, ?_⟩⟩
        intro i hi hq
        have := hg (i + 1) (by simpa using hi) (by simpa using hq)
        simpa using this

/-- No result is given twice when no node gives a child twice. -/
theorem walk_nodup (given : List P → Q → List P)
    (h : ∀ p q, (given p q).Nodup) (p : List P) (qs : List Q) :
    (walk given p qs).Nodup := by
  induction qs generalizing p with
  | nil => simp [walk]
  | cons q qs ih =>
    simp only [walk]
    unfold List.Nodup
    rw [List.pairwise_flatMap]
    refine ⟨fun c _ => ih _, ?_⟩
    refine (h p q).imp ?_
    intro a b hab x hx y hy e
    subst e
    obtain ⟨t, e1, -, -⟩ := (walk_iff given _ _ _).1 hx
    obtain ⟨t', e2, -, -⟩ := (walk_iff given _ _ _).1 hy
    rw [e1] at e2
    simp at e2
    exact hab e2.1

/-- The nodes of a matcher by views: those that the leaves of its tree refer
to; the path of a leaf is that of the groups of the node it refers to. -/
theorem by_views_nodup (given : List P → Q → List P)
    (h : ∀ p q, (given p q).Nodup) (qs : List Q) {N : Type}
    (refers : List P → N) (groups : N → List P)
    (kept : ∀ r ∈ walk given [] qs, groups (refers r) = r) :
    ((walk given [] qs).map refers).Nodup := by
  have hn := walk_nodup given h [] qs
  unfold List.Nodup at hn ⊢
  rw [List.pairwise_map]
  refine List.Pairwise.imp_of_mem ?_ hn
  intro a b ha hb hab e
  apply hab
  rw [← kept a ha, ← kept b hb, e]

/-- A node has one matcher of each view class, and a pattern one view class. -/
theorem views_nodup (views : List V) (hv : views.Nodup) (of : V → List P)
    (cls : P → V) (h : ∀ v, (of v).Nodup) (hc : ∀ v, ∀ c ∈ of v, cls c = v) :
    (views.flatMap of).Nodup := by
  unfold List.Nodup
  rw [List.pairwise_flatMap]
  refine ⟨fun v _ => h v, hv.imp ?_⟩
  intro a b hab x hx y hy e
  subst e
  exact hab ((hc a x hx).symm.trans (hc b x hy))

/-- C12: dumping a tree (dump_tree, by induction on the depth: a node of
depth n is a leaf, any other is followed by each of its children) whose nodes
are the prefixes of the loaded paths gives exactly these, none twice. -/
theorem dump_loaded (children : List P → List P) (loaded : List P → Prop)
    {n : Nat} (hn : 0 < n) (hl : ∀ r, loaded r → r.length = n)
    (hc : ∀ p c, c ∈ children p ↔ ∃ t, loaded (p ++ c :: t))
    (hd : ∀ p, (children p).Nodup) :
    (walk (fun p (_ : Unit) => children p) [] (List.replicate n ())).Nodup ∧
    ∀ r, r ∈ walk (fun p (_ : Unit) => children p) [] (List.replicate n ()) ↔
      loaded r := by
  refine ⟨walk_nodup _ (fun p _ => hd p) _ _, fun r => ?_⟩
  rw [walk_iff]
  simp only [List.nil_append, List.length_replicate]
  constructor
  · rintro ⟨t, rfl, hlen, hg⟩
    have hi : n - 1 < r.length := by omega
    obtain ⟨u, hu⟩ := (hc _ _).1 (hg (n - 1) hi (by omega))
    have hlu := hl _ hu
    have hu0 : u = [] := by
      apply List.length_eq_zero_iff.1
      simp at hlu
      omega
    subst hu0
    have e : r.take (n - 1) ++ [r[n - 1]] = r := by
      rw [List.take_append_getElem]
      exact List.take_of_length_le (by omega)
    rwa [e] at hu
  · intro h
    refine ⟨r, rfl, hl r h, ?_⟩
    intro i hi _
    refine (hc _ _).2 ⟨r.drop (i + 1), ?_⟩
    rw [List.getElem_cons_drop, List.take_append_drop]
    exact h

end walk
end Compose
