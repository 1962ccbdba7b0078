/-! C05: a pattern made of the parts of a view of a piece is looked up under
a view that cuts the piece as the matcher groups the units of the pattern.

The definitions restate the contracts of pv/proofs: `cutMixed` is MixSpec
(mixed_view), `CutDot` is last_dot_cut, `groupU` is PlainSpec
(mixed_view_add), `viewOf` is view_of_pattern; a part of a piece gets its
literal text or one unit with its rules (cluster contracts of C01). -/
open Classical
noncomputable section
namespace Views

variable {R : Type} (dot : R) (alnum mixed : R → Prop)

/-- A run of one character space. -/
structure Run (R : Type) where
  rule : R
  text : List Char

/-- A unit of a pattern: a literal run, or not literal, made of some runs. -/
inductive U (R : Type)
  | lit (r : Run R)
  | gen (src : List (Run R))

def U.src : U R → List (Run R)
  | .lit r => [r]
  | .gen s => s

def srcs (us : List (U R)) : List (Run R) := us.flatMap U.src

def isLit : U R → Prop
  | .lit _ => True
  | .gen _ => False

/-- Neighbours have different rules: the runs of a piece are maximal. -/
def Distinct : List (Run R) → Prop
  | a :: b :: l => a.rule ≠ b.rule ∧ Distinct (b :: l)
  | _ => True

def several (l : List (Run R)) : Prop :=
  ∃ a ∈ l, ∃ b ∈ l, a.rule ≠ b.rule

/-! ### cuts of a piece -/
def cutMulti (l : List (Run R)) : List (List (Run R)) := l.map ([·])

def cutMixed : List (Run R) → List (List (Run R))
  | [] => []
  | r :: rs =>
    match cutMixed rs with
    | (x :: g) :: gs =>
      if mixed r.rule ∧ mixed x.rule then (r :: x :: g) :: gs
      else [r] :: (x :: g) :: gs
    | gs => [r] :: gs

def DotAt (runs head : List (Run R)) (d : Run R) (tail : List (Run R)) :=
  runs = head ++ d :: tail ∧ d.rule = dot ∧ (∀ a ∈ tail, alnum a.rule) ∧
    tail.length ≤ 2

def some' (l : List (Run R)) : List (List (Run R)) :=
  match l with
  | [] => []
  | a :: t => [a :: t]

def CutDot (runs : List (Run R)) (parts : List (List (Run R))) : Prop :=
  (∃ head d tail, DotAt dot alnum runs head d tail ∧
    parts = some' head ++ [d] :: some' tail) ∨
  ((¬ ∃ head d tail, DotAt dot alnum runs head d tail) ∧ parts = [runs])

inductive Cut (last : Prop) (runs : List (Run R)) :
    List (List (Run R)) → Prop
  | multi : Cut last runs (cutMulti runs)
  | mixed : Cut last runs (cutMixed mixed runs)
  | dot (parts) : last → CutDot dot alnum runs parts → Cut last runs parts

/-! ### patterns made of the parts -/
inductive PartUnits : List (Run R) → List (U R) → Prop
  | lit (p) : PartUnits p (p.map .lit)
  | gen (p) : p ≠ [] → PartUnits p [.gen p]

inductive Made : List (List (Run R)) → List (U R) → Prop
  | nil : Made [] []
  | cons {p us ps vs} : PartUnits p us → Made ps vs →
      Made (p :: ps) (us ++ vs)

/-! ### the view of a pattern and the groups of the matcher -/
inductive View
  | piece | whole | multi | mixed | lastDot

def rulesDot (u : U R) : Prop := ∀ a ∈ u.src, a.rule = dot

def tailOK (h : U R) (tail : List (U R)) : Prop :=
  tail.length ≤ 2 ∧ (∀ u ∈ tail, ∀ a ∈ u.src, alnum a.rule) ∧
  ((∀ u ∈ tail, isLit u) ∨
   (∃ u, tail = [u] ∧ (¬ several u.src ∨
     (several h.src ∧ ∃ a ∈ h.src, ¬ mixed a.rule))))

def dotForm (units : List (U R)) : Prop :=
  ∃ h d tail, units = h :: d :: tail ∧ rulesDot dot d ∧
    tailOK alnum mixed h tail

def viewOf (last : Prop) (units : List (U R)) : View :=
  match units with
  | [.lit _] => .piece
  | [.gen _] => .whole
  | _ =>
    if ∀ u ∈ units, isLit u then .piece
    else if last ∧ dotForm dot alnum mixed units then .lastDot
    else if ∃ u ∈ units, ¬ isLit u ∧ several u.src then .mixed
    else .multi

def plain : U R → Prop
  | .lit r => mixed r.rule
  | .gen _ => False

def groupU : List (U R) → List (List (U R))
  | [] => []
  | u :: us =>
    match groupU us with
    | (x :: g) :: gs =>
      if plain mixed u ∧ plain mixed x then (u :: x :: g) :: gs
      else [u] :: (x :: g) :: gs
    | gs => [u] :: gs

/-- The runs that the groups are made of. -/
def covered (us : List (U R)) : List (List (Run R)) :=
  (groupU mixed us).map srcs

/-- The cut that the matcher of a view makes of a piece. -/
def Cut' (runs : List (Run R)) :
    View → List (List (Run R)) → Prop
  | .piece, ps => ps = [runs]
  | .whole, ps => ps = [runs]
  | .multi, ps => ps = cutMulti runs
  | .mixed, ps => ps = cutMixed mixed runs
  | .lastDot, ps => CutDot dot alnum runs ps

/-! ### lists -/
theorem Distinct.tail {a : Run R} {l} (h : Distinct (a :: l)) :
    Distinct l := by
  cases l with
  | nil => trivial
  | cons b t => exact h.2

theorem Distinct.right {l m : List (Run R)} (h : Distinct (l ++ m)) :
    Distinct m := by
  induction l with
  | nil => exact h
  | cons a t ih => exact ih h.tail

theorem Distinct.left {l m : List (Run R)} (h : Distinct (l ++ m)) :
    Distinct l := by
  induction l with
  | nil => trivial
  | cons a t ih =>
    cases t with
    | nil => trivial
    | cons b t => exact ⟨h.1, ih h.tail⟩

theorem Distinct.part {ps : List (List (Run R))} (h : Distinct ps.flatten) :
    ∀ p ∈ ps, Distinct p := by
  induction ps with
  | nil => intro p hp; cases hp
  | cons q qs ih =>
    intro p hp
    rw [List.flatten_cons] at h
    cases hp with
    | head => exact h.left
    | tail _ hp => exact ih h.right p hp

theorem one_of_not_several {l : List (Run R)} (h : Distinct l)
    (hs : ¬ several l) (hn : l ≠ []) : ∃ r, l = [r] := by
  match l, h with
  | [], _ => exact absurd rfl hn
  | [r], _ => exact ⟨r, rfl⟩
  | a :: b :: t, h =>
    exact absurd ⟨a, by simp, b, by simp, h.1⟩ hs

theorem not_several_one (r : Run R) : ¬ several [r] := by
  rintro ⟨a, ha, b, hb, hne⟩
  simp at ha hb
  exact hne (by rw [ha, hb])

theorem srcs_append (a b : List (U R)) : srcs (a ++ b) = srcs a ++ srcs b := by
  simp [srcs]

theorem srcs_lits (l : List (Run R)) : srcs (l.map .lit) = l := by
  induction l with
  | nil => rfl
  | cons a t ih =>
    simp only [srcs, List.map_cons, List.flatMap_cons] at ih ⊢
    rw [ih]; rfl

theorem lits_of_all {us : List (U R)} (h : ∀ u ∈ us, isLit u) :
    us = (srcs us).map .lit := by
  induction us with
  | nil => rfl
  | cons u t ih =>
    cases u with
    | gen s => exact absurd (h (.gen s) (by simp)) (by simp [isLit])
    | lit r =>
      have := ih (fun u hu => h u (by simp [hu]))
      simp only [srcs, List.flatMap_cons, U.src, List.map_append,
        List.map_cons, List.map_nil] at this ⊢
      rw [← this]; rfl

theorem PartUnits.srcs_eq {p : List (Run R)} {us} (h : PartUnits p us) :
    srcs us = p := by
  cases h with
  | lit => exact srcs_lits p
  | gen _ => simp [srcs, U.src]

theorem Made.srcs_eq {ps : List (List (Run R))} {us} (h : Made ps us) :
    srcs us = ps.flatten := by
  induction h with
  | nil => rfl
  | cons hp _ ih => rw [srcs_append, hp.srcs_eq, ih, List.flatten_cons]

/-- What is not literal is a part as a whole. -/
theorem Made.gen_part {ps : List (List (Run R))} {us} (h : Made ps us) :
    ∀ s, U.gen s ∈ us → s ∈ ps ∧ s ≠ [] := by
  induction h with
  | nil => intro s hs; cases hs
  | cons hp _ ih =>
    intro s hs
    rcases List.mem_append.1 hs with hs | hs
    · cases hp with
      | lit => simp at hs
      | gen hn => simp at hs; subst hs; exact ⟨by simp, hn⟩
    · exact ⟨by simp [(ih s hs).1], (ih s hs).2⟩

theorem cutMixed_ne (l : List (Run R)) : ∀ p ∈ cutMixed mixed l, p ≠ [] := by
  induction l with
  | nil => intro p hp; cases hp
  | cons a t ih =>
    intro p hp
    unfold cutMixed at hp
    split at hp
    · rename_i x g gs heq
      rw [heq] at ih
      split at hp <;> simp at hp <;> rcases hp with rfl | hp
      · simp
      · exact ih p (by simp [hp])
      · simp
      · rcases hp with rfl | hp
        · simp
        · exact ih p (by simp [hp])
    · simp at hp
      rcases hp with rfl | hp
      · simp
      · exact ih p hp

theorem cutMixed_cons (r : Run R) (l : List (Run R)) :
    (cutMixed mixed l = [] ∧ cutMixed mixed (r :: l) = [[r]]) ∨
    (∃ x g gs, cutMixed mixed l = (x :: g) :: gs ∧
      ((mixed r.rule ∧ mixed x.rule ∧
          cutMixed mixed (r :: l) = (r :: x :: g) :: gs) ∨
        (¬ (mixed r.rule ∧ mixed x.rule) ∧
          cutMixed mixed (r :: l) = [r] :: (x :: g) :: gs))) := by
  cases h : cutMixed mixed l with
  | nil => left; simp [cutMixed, h]
  | cons p ps =>
    cases p with
    | nil =>
      exact absurd rfl (cutMixed_ne mixed l [] (by rw [h]; simp))
    | cons x g =>
      right
      refine ⟨x, g, ps, rfl, ?_⟩
      by_cases hm : mixed r.rule ∧ mixed x.rule
      · left; exact ⟨hm.1, hm.2, by simp [cutMixed, h, hm]⟩
      · right; exact ⟨hm, by simp [cutMixed, h, hm]⟩

theorem cutMixed_flatten (l : List (Run R)) :
    (cutMixed mixed l).flatten = l := by
  induction l with
  | nil => rfl
  | cons r t ih =>
    rcases cutMixed_cons mixed r t with ⟨h, e⟩ | ⟨x, g, gs, h, ⟨_, _, e⟩ | ⟨_, e⟩⟩
    · rw [e]; rw [h] at ih; simp at ih; simp [← ih]
    · rw [e]; rw [h] at ih; simp at ih; simp [← ih]
    · rw [e]; rw [h] at ih; simp at ih; simp [← ih]

/-- A group of several runs is mixed, and neighbours are not both mixed. -/
def Groups : List (List (Run R)) → Prop
  | [] => True
  | p :: ps => p ≠ [] ∧ ((∀ a ∈ p, mixed a.rule) ∨
      (∃ r, p = [r] ∧ ¬ mixed r.rule)) ∧
      (∀ q ∈ ps.head?, (∀ a ∈ p, mixed a.rule) → ∀ a ∈ q, ¬ mixed a.rule) ∧
      Groups ps

theorem cutMixed_groups (l : List (Run R)) :
    Groups mixed (cutMixed mixed l) := by
  induction l with
  | nil => trivial
  | cons r t ih =>
    rcases cutMixed_cons mixed r t with ⟨h, e⟩ | ⟨x, g, gs, h, ⟨hr, hx, e⟩ | ⟨hn, e⟩⟩
    · rw [e]
      refine ⟨by simp, ?_, by simp, trivial⟩
      by_cases hm : mixed r.rule
      · left; simpa using hm
      · right; exact ⟨r, rfl, hm⟩
    · rw [h] at ih
      obtain ⟨_, hc, hh, hg⟩ := ih
      have hall : ∀ a ∈ x :: g, mixed a.rule := by
        rcases hc with hc | ⟨y, hy, hny⟩
        · exact hc
        · simp at hy; exact absurd (hy.1 ▸ hx) hny
      rw [e]
      refine ⟨by simp, Or.inl ?_, ?_, hg⟩
      · intro a ha
        cases ha with
        | head => exact hr
        | tail _ ha => exact hall a ha
      · intro q hq _; exact hh q hq hall
    · rw [h] at ih
      rw [e]
      refine ⟨by simp, ?_, ?_, ih⟩
      · by_cases hm : mixed r.rule
        · left; simpa using hm
        · right; exact ⟨r, rfl, hm⟩
      · intro q hq hm
        simp at hq; subst hq
        have hr : mixed r.rule := hm r (by simp)
        have hx : ¬ mixed x.rule := fun hx => hn ⟨hr, hx⟩
        rcases ih.2.1 with hc | ⟨y, hy, hny⟩
        · exact absurd (hc x (by simp)) hx
        · intro a ha
          rw [hy] at ha; simp at ha; subst ha; exact hny

/-! ### groups of units -/
theorem groupU_ne (l : List (U R)) : ∀ p ∈ groupU mixed l, p ≠ [] := by
  induction l with
  | nil => intro p hp; cases hp
  | cons a t ih =>
    intro p hp
    unfold groupU at hp
    split at hp
    · rename_i x g gs heq
      rw [heq] at ih
      split at hp <;> simp at hp <;> rcases hp with rfl | hp
      · simp
      · exact ih p (by simp [hp])
      · simp
      · rcases hp with rfl | hp
        · simp
        · exact ih p (by simp [hp])
    · simp at hp
      rcases hp with rfl | hp
      · simp
      · exact ih p hp

theorem groupU_cons (u : U R) (l : List (U R)) :
    (groupU mixed l = [] ∧ groupU mixed (u :: l) = [[u]]) ∨
    (∃ x g gs, groupU mixed l = (x :: g) :: gs ∧
      ((plain mixed u ∧ plain mixed x ∧
          groupU mixed (u :: l) = (u :: x :: g) :: gs) ∨
        (¬ (plain mixed u ∧ plain mixed x) ∧
          groupU mixed (u :: l) = [u] :: (x :: g) :: gs))) := by
  cases h : groupU mixed l with
  | nil => left; simp [groupU, h]
  | cons p ps =>
    cases p with
    | nil => exact absurd rfl (groupU_ne mixed l [] (by rw [h]; simp))
    | cons x g =>
      right
      refine ⟨x, g, ps, rfl, ?_⟩
      by_cases hm : plain mixed u ∧ plain mixed x
      · left; exact ⟨hm.1, hm.2, by simp [groupU, h, hm]⟩
      · right; exact ⟨hm, by simp [groupU, h, hm]⟩

theorem groupU_head (u : U R) (l : List (U R)) :
    ∃ g gs, groupU mixed (u :: l) = (u :: g) :: gs := by
  rcases groupU_cons mixed u l with ⟨_, e⟩ | ⟨x, g, gs, _, ⟨_, _, e⟩ | ⟨_, e⟩⟩
  · exact ⟨[], [], e⟩
  · exact ⟨x :: g, gs, e⟩
  · exact ⟨[], _, e⟩

/-- A unit that is not plain is a group. -/
theorem groupU_cons_not {u : U R} (h : ¬ plain mixed u) (l : List (U R)) :
    groupU mixed (u :: l) = [u] :: groupU mixed l := by
  rcases groupU_cons mixed u l with ⟨h', e⟩ | ⟨x, g, gs, h', ⟨hu, _, _⟩ | ⟨_, e⟩⟩
  · rw [e, h']
  · exact absurd hu h
  · rw [e, h']

/-- Plain units in front of one that is not are a group. -/
theorem groupU_plain {us vs : List (U R)} (hn : us ≠ [])
    (hp : ∀ u ∈ us, plain mixed u)
    (hv : ∀ v ∈ vs.head?, ¬ plain mixed v) :
    groupU mixed (us ++ vs) = us :: groupU mixed vs := by
  induction us with
  | nil => exact absurd rfl hn
  | cons u t ih =>
    cases t with
    | nil =>
      cases vs with
      | nil => simp [groupU]
      | cons v w =>
        obtain ⟨g, gs, e⟩ := groupU_head mixed v w
        have hnv : ¬ plain mixed v := hv v (by simp)
        show groupU mixed (u :: v :: w) = _
        rcases groupU_cons mixed u (v :: w) with ⟨h', _⟩ | ⟨x, g', gs', h', ⟨_, hx, _⟩ | ⟨_, e'⟩⟩
        · rw [e] at h'; simp at h'
        · rw [e] at h'; simp at h'; exact absurd (h'.1.1 ▸ hx) hnv
        · rw [e', h']
    | cons u2 t =>
      have ih := ih (by simp) (fun a ha => hp a (by simp [ha]))
      rcases groupU_cons mixed u (u2 :: t ++ vs) with ⟨h', _⟩ | ⟨x, g', gs', h', ⟨_, _, e'⟩ | ⟨hnot, _⟩⟩
      · rw [ih] at h'; simp at h'
      · show groupU mixed (u :: (u2 :: t ++ vs)) = _
        rw [e']; rw [ih] at h'; simp at h'
        obtain ⟨⟨rfl, rfl⟩, rfl⟩ := h'; rfl
      · rw [ih] at h'; simp at h'
        exact absurd ⟨hp u (by simp), h'.1.1 ▸ hp u2 (by simp)⟩ hnot

/-- The first unit of a made pattern starts with the first run. -/
theorem Made.head_not_plain {q : List (Run R)} {ps us} (h : Made (q :: ps) us)
    (hne : q ≠ []) (hq : ∀ a ∈ q, ¬ mixed a.rule) :
    ∀ v ∈ us.head?, ¬ plain mixed v := by
  cases h with
  | cons hp _ =>
    cases hp with
    | lit =>
      cases q with
      | nil => exact absurd rfl hne
      | cons a t => intro v hv; simp at hv; subst hv; exact hq a (by simp)
    | gen _ => intro v hv; simp at hv; subst hv; simp [plain]

theorem made_mixed {ps : List (List (Run R))} {us} (h : Made ps us)
    (hg : Groups mixed ps) : covered mixed us = ps := by
  induction h with
  | nil => rfl
  | @cons p us ps vs hp hm ih =>
    obtain ⟨hne, hc, hh, hg⟩ := hg
    have ih := ih hg
    have hsrc : srcs us = p := hp.srcs_eq
    unfold covered at ih ⊢
    suffices groupU mixed (us ++ vs) = us :: groupU mixed vs by
      rw [this, List.map_cons, ih, hsrc]
    cases hp with
    | gen _ => exact groupU_cons_not mixed (by simp [plain]) vs
    | lit =>
      rcases hc with hc | ⟨r, rfl, hr⟩
      · apply groupU_plain mixed
        · intro h; apply hne; simpa using h
        · intro u hu
          obtain ⟨a, ha, rfl⟩ := List.mem_map.1 hu
          exact hc a ha
        · cases ps with
          | nil => cases hm; intro v hv; simp at hv
          | cons q qs =>
            exact hm.head_not_plain mixed hg.1 (hh q (by simp) hc)
      · exact groupU_cons_not mixed (by simpa [plain] using hr) vs

/-- Groups are not changed by a boundary that is not mixed. -/
theorem groups_unique {ps qs : List (List (Run R))}
    (hp : Groups mixed ps) (hq : Groups mixed qs)
    (h : ps.flatten = qs.flatten) : ps = qs := by
  induction ps generalizing qs with
  | nil =>
    cases qs with
    | nil => rfl
    | cons q qs =>
      have := hq.1
      cases q with
      | nil => exact absurd rfl this
      | cons a t => simp at h
  | cons p ps ih =>
    cases qs with
    | nil =>
      cases p with
      | nil => exact absurd rfl hp.1
      | cons a t => simp at h
    | cons q qs =>
      -- the first groups are equal
      have key : ∀ (p q : List (Run R)) (ps qs : List (List (Run R))),
          Groups mixed (p :: ps) → Groups mixed (q :: qs) →
          (p :: ps).flatten = (q :: qs).flatten → p.length ≤ q.length →
          p = q := by
        intro p q ps qs hp hq h hle
        rw [List.flatten_cons, List.flatten_cons] at h
        obtain ⟨s, hs⟩ : ∃ s, q = p ++ s := by
          have := List.append_eq_append_iff.1 h
          rcases this with ⟨s, hs, _⟩ | ⟨s, hs, _⟩
          · exact ⟨s, hs⟩
          · have : s.length = 0 := by
              have := congrArg List.length hs; simp at this; omega
            have : s = [] := List.eq_nil_of_length_eq_zero this
            subst this; exact ⟨[], by simpa using hs.symm⟩
        cases s with
        | nil => simpa using hs.symm
        | cons b s =>
          exfalso
          obtain ⟨hne, _, hh, hgs⟩ := hp
          have hqm : ∀ a ∈ q, mixed a.rule := by
            rcases hq.2.1 with hc | ⟨r, hr, _⟩
            · exact hc
            · have := congrArg List.length (hs.symm.trans hr)
              cases p with
              | nil => exact absurd rfl hne
              | cons => simp at this
          have hpm : ∀ a ∈ p, mixed a.rule := fun a ha =>
            hqm a (by rw [hs]; simp [ha])
          subst hs
          simp at h
          cases ps with
          | nil => simp at h
          | cons p2 ps =>
            cases p2 with
            | nil => exact absurd rfl hgs.1
            | cons c t =>
              simp at h
              have hb := hh (c :: t) (by simp) hpm c (by simp)
              exact hb (h.1 ▸ hqm b (by simp))
      have e : p = q := by
        rcases Nat.le_total p.length q.length with hl | hl
        · exact key p q ps qs hp hq h hl
        · exact (key q p qs ps hq hp h.symm hl).symm
      subst e
      rw [ih hp.2.2.2 hq.2.2.2 (by simpa using h)]

/-- The part that the last dot cuts off is the same for every cut. -/
theorem dot_unique {h1 h2 t1 t2 : List (Run R)} {d1 d2 : Run R}
    (nd : ¬ alnum dot) (e : h1 ++ d1 :: t1 = h2 ++ d2 :: t2)
    (hd1 : d1.rule = dot) (hd2 : d2.rule = dot)
    (ht1 : ∀ a ∈ t1, alnum a.rule) (ht2 : ∀ a ∈ t2, alnum a.rule) :
    h1 = h2 ∧ d1 = d2 ∧ t1 = t2 := by
  rcases List.append_eq_append_iff.1 e with ⟨s, hs, hs'⟩ | ⟨s, hs, hs'⟩
  · cases s with
    | nil => simp at hs hs'; exact ⟨hs.symm, hs'.1, hs'.2⟩
    | cons c s =>
      simp at hs'
      exact absurd (hd2 ▸ ht1 d2 (by rw [hs'.2]; simp)) nd
  · cases s with
    | nil => simp at hs hs'; exact ⟨hs, hs'.1.symm, hs'.2.symm⟩
    | cons c s =>
      simp at hs'
      exact absurd (hd1 ▸ ht2 d1 (by rw [hs'.2]; simp)) nd

theorem some'_flatten (l : List (Run R)) : (some' l).flatten = l := by
  cases l <;> simp [some']

theorem Cut.flatten {last : Prop} {runs : List (Run R)} {parts}
    (h : Cut dot alnum mixed last runs parts) : parts.flatten = runs := by
  cases h with
  | multi =>
    unfold cutMulti
    induction runs with
    | nil => rfl
    | cons a t ih => simp at ih ⊢; exact ih
  | mixed => exact cutMixed_flatten mixed runs
  | dot _ hl hc =>
    rcases hc with ⟨head, d, tail, ⟨e, _⟩, rfl⟩ | ⟨_, rfl⟩
    · simp [some'_flatten, e]
    · simp

theorem src_ne {ps : List (List (Run R))} {us} (h : Made ps us) :
    ∀ u ∈ us, u.src ≠ [] := by
  intro u hu
  cases u with
  | lit r => simp [U.src]
  | gen s => exact (h.gen_part s hu).2

theorem srcs_single {us : List (U R)} (h : ∀ u ∈ us, ∃ r, u.src = [r]) :
    us.map U.src = cutMulti (srcs us) := by
  induction us with
  | nil => rfl
  | cons u t ih =>
    obtain ⟨r, hr⟩ := h u (by simp)
    have ih := ih (fun v hv => h v (by simp [hv]))
    simp only [cutMulti, srcs, List.map_cons, List.flatMap_cons, hr] at ih ⊢
    rw [ih]; rfl

/-- All of the units behind a dot: one group, the runs behind it. -/
theorem covered_tail {tail : List (U R)} (am : ∀ r, alnum r → mixed r)
    (hsrc : ∀ u ∈ tail, u.src ≠ [])
    (ha : ∀ u ∈ tail, ∀ a ∈ u.src, alnum a.rule)
    (hl : (∀ u ∈ tail, isLit u) ∨ ∃ u, tail = [u]) :
    covered mixed tail = some' (srcs tail) := by
  cases tail with
  | nil => rfl
  | cons u t =>
    have hu := hsrc u (by simp)
    have one : groupU mixed (u :: t) = [u :: t] := by
      rcases hl with hl | ⟨v, hv⟩
      · have := groupU_plain mixed (us := u :: t) (vs := []) (by simp)
          (fun v hv => by
            cases v with
            | gen s => exact absurd (hl _ hv) (by simp [isLit])
            | lit r => exact am _ (ha _ hv r (by simp [U.src])))
          (by simp)
        simpa [groupU] using this
      · simp at hv; obtain ⟨rfl, rfl⟩ := hv; simp [groupU]
    unfold covered
    rw [one]
    have : srcs (u :: t) ≠ [] := by
      intro h; simp [srcs] at h; exact hu h.1
    cases h : srcs (u :: t) with
    | nil => exact absurd h this
    | cons a l => simp [some', h]

theorem Groups.append {ps qs : List (List (Run R))} {d : Run R}
    (dm : ¬ mixed d.rule) (hp : Groups mixed ps) (hq : Groups mixed qs) :
    Groups mixed (ps ++ [d] :: qs) := by
  induction ps with
  | nil =>
    refine ⟨by simp, Or.inr ⟨d, rfl, dm⟩, ?_, hq⟩
    intro q _ h; exact absurd (h d (by simp)) dm
  | cons p ps ih =>
    obtain ⟨h1, h2, h3, h4⟩ := hp
    refine ⟨h1, h2, ?_, ih h4⟩
    intro q hq' hm
    cases ps with
    | nil => simp at hq'; subst hq'; intro a ha; simp at ha; subst ha; exact dm
    | cons p2 ps => exact h3 q (by simpa using hq') hm

/-- A pattern that was cut at the last dot and is not looked up there has
mixed groups. -/
theorem covered_dot {hu tu : List (U R)} {du : U R} {d : Run R}
    (hd : du.src = [d]) (dm : ¬ mixed d.rule)
    :
    covered mixed (hu ++ du :: tu) =
      covered mixed hu ++ [d] :: covered mixed tu := by
  have np : ¬ plain mixed du := by
    cases du with
    | lit r => simp [U.src] at hd; subst hd; exact dm
    | gen s => simp [plain]
  have key : groupU mixed (hu ++ du :: tu) =
      groupU mixed hu ++ [du] :: groupU mixed tu := by
    induction hu with
    | nil => exact groupU_cons_not mixed np tu
    | cons u t ih =>
      by_cases hp : plain mixed u
      · rcases groupU_cons mixed u t with ⟨h', e⟩ | ⟨x, g, gs, h', hc⟩
        · have ht : t = [] := by
            cases t with
            | nil => rfl
            | cons v w =>
              obtain ⟨_, _, e⟩ := groupU_head mixed v w
              rw [e] at h'; simp at h'
          subst ht
          have := groupU_plain mixed (us := [u]) (vs := du :: tu) (by simp)
            (by simpa using hp) (by simpa using np)
          rw [groupU_cons_not mixed np] at this
          simpa [e] using this
        · rw [h'] at ih
          rcases hc with ⟨_, hx, e⟩ | ⟨hn, e⟩
          · rw [e]
            rcases groupU_cons mixed u (t ++ du :: tu) with ⟨h2, _⟩ | ⟨x2, g2, gs2, h2, ⟨_, _, e2⟩ | ⟨hn2, _⟩⟩
            · rw [ih] at h2; simp at h2
            · show groupU mixed (u :: (t ++ du :: tu)) = _
              rw [e2]; rw [ih] at h2; simp at h2
              obtain ⟨⟨rfl, rfl⟩, rfl⟩ := h2; simp
            · rw [ih] at h2; simp at h2
              exact absurd ⟨hp, h2.1.1 ▸ hx⟩ hn2
          · rw [e]
            rcases groupU_cons mixed u (t ++ du :: tu) with ⟨h2, _⟩ | ⟨x2, g2, gs2, h2, ⟨_, hx2, _⟩ | ⟨_, e2⟩⟩
            · rw [ih] at h2; simp at h2
            · rw [ih] at h2; simp at h2
              exact absurd ⟨hp, h2.1.1 ▸ hx2⟩ hn
            · show groupU mixed (u :: (t ++ du :: tu)) = _
              rw [e2, ← h2, ih]; simp
      · show groupU mixed (u :: (t ++ du :: tu)) = _
        rw [groupU_cons_not mixed hp, groupU_cons_not mixed hp, ih]; simp
  unfold covered
  rw [key]; simp [srcs, hd]

theorem covered_lits (l : List (Run R)) :
    Groups mixed (covered mixed (l.map .lit)) := by
  have made : ∀ ps : List (List (Run R)), Made ps (ps.flatten.map .lit) := by
    intro ps
    induction ps with
    | nil => exact .nil
    | cons p ps ih =>
      rw [List.flatten_cons, List.map_append]
      exact .cons (.lit p) ih
  have h := made (cutMixed mixed l)
  rw [cutMixed_flatten] at h
  rw [made_mixed mixed h (cutMixed_groups mixed l)]
  exact cutMixed_groups mixed l

theorem covered_flatten (us : List (U R)) :
    (covered mixed us).flatten = srcs us := by
  induction us with
  | nil => rfl
  | cons u t ih =>
    unfold covered at ih ⊢
    rcases groupU_cons mixed u t with ⟨h, e⟩ | ⟨x, g, gs, h, ⟨_, _, e⟩ | ⟨_, e⟩⟩
    · rw [e]; rw [h] at ih; simp at ih; simp [srcs] at ih ⊢; exact ih
    · rw [e]; rw [h] at ih; simp [srcs] at ih ⊢; rw [ih]
    · rw [e]; rw [h] at ih; simp [srcs] at ih ⊢; rw [ih]

/-- The lemma: whatever view a piece was cut by, and whatever its parts got,
the pattern is looked up under a view that finds the piece. -/
theorem made_found (am : ∀ r, alnum r → mixed r) (dm : ¬ mixed dot)
    {last : Prop} {runs : List (Run R)} {parts units}
    (hne : runs ≠ []) (hd : Distinct runs)
    (hc : Cut dot alnum mixed last runs parts) (hm : Made parts units) :
    match viewOf dot alnum mixed last units with
    | .piece => units = runs.map .lit
    | .whole => units = [.gen runs]
    | .multi => units.map U.src = cutMulti runs
    | .mixed => covered mixed units = cutMixed mixed runs
    | .lastDot => CutDot dot alnum runs (covered mixed units) := by
  have hs : srcs units = runs := hm.srcs_eq.trans hc.flatten
  have hp : ∀ s, U.gen s ∈ units → Distinct s := fun s h =>
    Distinct.part (hc.flatten ▸ hd) s (hm.gen_part s h).1
  have nd : ¬ alnum dot := fun h => dm (am _ h)
  have hsn := src_ne hm
  have one : ∀ u ∈ units, ¬ (¬ isLit u ∧ several u.src) →
      ∃ r, u.src = [r] := by
    intro u hu h
    cases u with
    | lit r => exact ⟨r, rfl⟩
    | gen s =>
      refine one_of_not_several (hp s hu) ?_ (hsn _ hu)
      intro hh; exact h ⟨by simp [isLit], hh⟩
  have shape : (∃ r, units = [.lit r]) ∨ (∃ s, units = [.gen s]) ∨
      (2 ≤ units.length ∧ viewOf dot alnum mixed last units =
        (if ∀ u ∈ units, isLit u then .piece
        else if last ∧ dotForm dot alnum mixed units then .lastDot
        else if ∃ u ∈ units, ¬ isLit u ∧ several u.src then .mixed
        else .multi)) := by
    match units, hs with
    | [], hs => exact absurd hs.symm hne
    | [.lit r], _ => exact Or.inl ⟨r, rfl⟩
    | [.gen s], _ => exact Or.inr (Or.inl ⟨s, rfl⟩)
    | a :: b :: t, _ =>
      exact Or.inr (Or.inr ⟨by simp, by simp [viewOf]⟩)
  rcases shape with ⟨r, hu⟩ | ⟨s, hu⟩ | ⟨h2, hv⟩
  · subst hu; rw [← hs]; simp [viewOf, srcs, U.src]
  · subst hu; rw [← hs]; simp [viewOf, srcs, U.src]
  · rw [hv]
    by_cases hall : ∀ u ∈ units, isLit u
    · rw [if_pos hall]
      have := lits_of_all hall
      rw [hs] at this; exact this
    rw [if_neg hall]
    by_cases hdot : last ∧ dotForm dot alnum mixed units
    · rw [if_pos hdot]
      obtain ⟨hlast, h, d, tail, e, hdd, hlen, hta, htl⟩ := hdot
      have hmem : d ∈ units := by rw [e]; simp
      -- the dot is one run
      have hd1 : ∃ r, d.src = [r] := by
        apply one d hmem
        rintro ⟨_, x, hx, y, hy, hne⟩
        exact hne (by rw [hdd x hx, hdd y hy])
      obtain ⟨r, hr⟩ := hd1
      have hrd : r.rule = dot := hdd r (by rw [hr]; simp)
      have hruns : runs = h.src ++ r :: srcs tail := by
        rw [← hs, e]; simp [srcs, hr]
      have hts : ∀ a ∈ srcs tail, alnum a.rule := by
        intro a ha
        obtain ⟨u, hu1, hu2⟩ := List.mem_flatMap.1 ha
        exact hta u hu1 a hu2
      have hcov : covered mixed units =
          some' h.src ++ [r] :: some' (srcs tail) := by
        have g1 : covered mixed [h] = some' h.src := by
          have := hsn h (by rw [e]; simp)
          cases hh : h.src with
          | nil => exact absurd hh this
          | cons x y => simp [covered, groupU, srcs, hh, some']
        have gd : ¬ mixed r.rule := by rw [hrd]; exact dm
        have key := groupU_cons_not mixed (u := d) (by
          cases d with
          | lit q => simp [U.src] at hr; subst hr; exact gd
          | gen s => simp [plain]) tail
        have tl := covered_tail alnum mixed am
          (fun u hu => hsn u (by rw [e]; simp [hu])) hta
          (htl.imp id (fun ⟨u, hu, _⟩ => ⟨u, hu⟩))
        rw [← tl, ← g1, e]
        unfold covered
        have : groupU mixed (h :: d :: tail) = [h] :: groupU mixed (d :: tail) := by
          by_cases hpl : plain mixed h
          · have := groupU_plain mixed (us := [h]) (vs := d :: tail)
              (by simp) (by simpa using hpl) (by
                intro v hv; simp at hv; subst hv
                cases d with
                | lit q => simp [U.src] at hr; subst hr; exact gd
                | gen s => simp [plain])
            simpa using this
          · exact groupU_cons_not mixed hpl _
        rw [this, key]
        simp [srcs, hr, groupU]
      -- at most two runs behind the dot
      have hlen2 : (srcs tail).length ≤ 2 := by
        rcases htl with hl | ⟨u, hu1, hu2⟩
        · have := lits_of_all hl
          have e2 := congrArg List.length this
          simp at e2; omega
        · subst hu1
          have hum : u ∈ units := by rw [e]; simp
          by_cases hsv : several u.src
          · obtain hu2 | ⟨hsev, x, hx, hnm⟩ := hu2
            · exact absurd hsv hu2
            · have hhm : h ∈ units := by rw [e]; simp
              have hg : ∃ s, h = .gen s := by
                cases h with
                | lit q => exact absurd hsev (not_several_one q)
                | gen s => exact ⟨s, rfl⟩
              obtain ⟨s, rfl⟩ := hg
              have hpart := (hm.gen_part s hhm).1
              cases hc with
              | multi =>
                simp [cutMulti] at hpart
                obtain ⟨q, _, rfl⟩ := hpart
                exact absurd hsev (not_several_one q)
              | mixed =>
                exfalso
                have hg := cutMixed_groups mixed runs
                have : ∀ ps : List (List (Run R)), Groups mixed ps →
                    s ∈ ps → (∀ a ∈ s, mixed a.rule) ∨
                      (∃ r, s = [r] ∧ ¬ mixed r.rule) := by
                  intro ps
                  induction ps with
                  | nil => intro _ h; cases h
                  | cons p ps ih =>
                    intro hg hs
                    cases hs with
                    | head => exact hg.2.1
                    | tail _ hs => exact ih hg.2.2.2 hs
                rcases this _ hg hpart with hmx | ⟨q, rfl, _⟩
                · exact hnm (hmx x hx)
                · exact not_several_one q hsev
              | dot _ _ hcd =>
                rcases hcd with ⟨h', d', t', ⟨e', hd', ht', hl'⟩, _⟩ | ⟨hno, hps⟩
                · have := dot_unique dot alnum nd (e'.symm.trans hruns)
                    hd' hrd ht' hts
                  rw [← this.2.2]; exact hl'
                · subst hps
                  simp at hpart
                  subst hpart
                  have := congrArg List.length hruns
                  simp [U.src] at this
          · obtain ⟨q, hq⟩ := one u hum (fun hh => hsv hh.2)
            simp [srcs, hq]
      rw [hcov]
      exact Or.inl ⟨h.src, r, srcs tail, ⟨hruns, hrd, hts, hlen2⟩, rfl⟩
    rw [if_neg hdot]
    by_cases hsev : ∃ u ∈ units, ¬ isLit u ∧ several u.src
    · rw [if_pos hsev]
      obtain ⟨g, hgm, hgl, hgs⟩ := hsev
      cases g with
      | lit q => exact absurd trivial hgl
      | gen s =>
      have hpart := (hm.gen_part s hgm).1
      show covered mixed units = cutMixed mixed runs
      cases hc with
      | multi =>
        exfalso
        simp [cutMulti] at hpart
        obtain ⟨q, _, rfl⟩ := hpart
        exact not_several_one q hgs
      | mixed => exact made_mixed mixed hm (cutMixed_groups mixed runs)
      | dot _ hlast hcd =>
        rcases hcd with ⟨head, d, tail, ⟨e, hdr, hta, hl⟩, rfl⟩ | ⟨hno, hps⟩
        · -- units: those of the head, of the dot, of the tail
          have split : ∃ hu du tu, units = hu ++ du :: tu ∧
              (hu = head.map .lit ∨ (hu = [.gen head] ∧ head ≠ [])) ∧
              du.src = [d] ∧
              (tu = tail.map .lit ∨ (tu = [.gen tail] ∧ tail ≠ [])) := by
            have mt : ∀ us, Made (some' tail) us →
                us = tail.map .lit ∨ (us = [.gen tail] ∧ tail ≠ []) := by
              intro us h
              cases tail with
              | nil => cases h; left; rfl
              | cons x y =>
                cases h with
                | cons hp hn =>
                  cases hn
                  cases hp with
                  | lit => left; simp
                  | gen hne => right; simp
            have md : ∀ us, Made ([d] :: some' tail) us → ∃ du tu,
                us = du :: tu ∧ du.src = [d] ∧
                (tu = tail.map .lit ∨ (tu = [.gen tail] ∧ tail ≠ [])) := by
              intro us h
              cases h with
              | cons hp hn =>
                rename_i us vs
                cases hp with
                | lit => exact ⟨.lit d, vs, by simp, rfl, mt _ hn⟩
                | gen hne => exact ⟨.gen [d], vs, by simp, rfl, mt _ hn⟩
            cases head with
            | nil =>
              obtain ⟨du, tu, h1, h2, h3⟩ := md units hm
              exact ⟨[], du, tu, by simpa using h1, Or.inl rfl, h2, h3⟩
            | cons x y =>
              cases hm with
              | cons hpu hn =>
                obtain ⟨du, tu, hx1, hx2, hx3⟩ := md _ hn
                cases hpu with
                | lit => exact ⟨_, du, tu, by rw [hx1], Or.inl rfl, hx2, hx3⟩
                | gen hne =>
                  exact ⟨_, du, tu, by rw [hx1], Or.inr ⟨rfl, hne⟩, hx2, hx3⟩
          obtain ⟨hu', du, tu, hunits, hhu, hdu, htu⟩ := split
          have dmx : ¬ mixed d.rule := by rw [hdr]; exact dm
          have gt : Groups mixed (covered mixed tu) := by
            rcases htu with rfl | ⟨rfl, htn⟩
            · exact covered_lits mixed tail
            · refine ⟨by simpa [covered, groupU, srcs, U.src] using htn, ?_, by simp [groupU], ?_⟩
              · left; intro a ha
                simp [srcs, U.src] at ha; exact am _ (hta a ha)
              · trivial
          have gh : Groups mixed (covered mixed hu') := by
            rcases hhu with rfl | ⟨rfl, hhn⟩
            · exact covered_lits mixed head
            · refine ⟨by simpa [covered, groupU, srcs, U.src] using hhn, ?_, by simp [groupU], ?_⟩
              · have hgh : U.gen head ∈ units := by rw [hunits]; simp
                by_cases hhs : several head
                · left
                  -- else it is looked up at the last dot
                  apply Classical.byContradiction
                  intro hnm
                  apply hdot
                  refine ⟨hlast, .gen head, du, tu, hunits, ?_, ?_, ?_, ?_⟩
                  · intro a ha; rw [hdu] at ha; simp at ha; subst ha; exact hdr
                  · rcases htu with rfl | ⟨rfl, _⟩
                    · simpa using hl
                    · simp
                  · intro u hu a ha
                    rcases htu with rfl | ⟨rfl, _⟩
                    · obtain ⟨q, hq, rfl⟩ := List.mem_map.1 hu
                      simp [U.src] at ha; subst ha; exact hta _ hq
                    · simp at hu; subst hu; exact hta a ha
                  · rcases htu with rfl | ⟨rfl, _⟩
                    · left; intro u hu
                      obtain ⟨q, _, rfl⟩ := List.mem_map.1 hu; trivial
                    · right
                      refine ⟨_, rfl, Or.inr ⟨hhs, ?_⟩⟩
                      apply Classical.byContradiction
                      intro hex
                      apply hnm
                      intro a ha
                      apply Classical.byContradiction
                      intro hna
                      simp [srcs, U.src] at ha
                      exact hex ⟨a, ha, hna⟩
                · obtain ⟨q, hq⟩ := one_of_not_several (hp head hgh) hhs hhn
                  by_cases hqm : mixed q.rule
                  · left; intro a ha; simp [srcs, U.src, hq] at ha; subst ha; exact hqm
                  · right; exact ⟨q, by simp [srcs, U.src, hq], hqm⟩
              · trivial
          have hcov := covered_dot mixed (du := du) hdu dmx (hu := hu') (tu := tu)
          rw [← hunits] at hcov
          apply groups_unique mixed _ (cutMixed_groups mixed runs)
          · rw [covered_flatten, cutMixed_flatten, hs]
          · rw [hcov]; exact Groups.append mixed dmx gh gt
        · -- the piece as a whole
          exfalso
          subst hps
          cases hm with
          | cons hp' hn' =>
            cases hn'
            cases hp' with
            | lit => simp at hgm
            | gen _ => simp at h2
    · rw [if_neg hsev]
      show units.map U.src = cutMulti runs
      rw [← hs]
      apply srcs_single
      intro u hu'
      exact one u hu' (fun h => hsev ⟨u, hu', h⟩)

/-- What the matcher asks for a part: its text, or one unit with its rules. -/
theorem group_kind (us : List (U R)) : ∀ g ∈ groupU mixed us,
    g = (srcs g).map .lit ∨ g = [.gen (srcs g)] := by
  induction us with
  | nil => intro g h; simp [groupU] at h
  | cons u us ih =>
    have one : [u] = (srcs [u]).map .lit ∨ [u] = [.gen (srcs [u])] := by
      cases u <;> simp [srcs, U.src]
    intro g h
    rcases groupU_cons mixed u us with ⟨_, e⟩ | ⟨x, g', gs, e, hh⟩
    · rw [e] at h; simp at h; subst h; exact one
    · rcases hh with ⟨hu, hx, e'⟩ | ⟨_, e'⟩
      · rw [e'] at h
        rcases List.mem_cons.1 h with rfl | h
        · left
          have hg := ih (x :: g') (by rw [e]; simp)
          cases u with
          | gen s => exact hu.elim
          | lit r =>
            rcases hg with hg | hg
            · have e2 : srcs (.lit r :: x :: g') = r :: srcs (x :: g') := by
                simp [srcs, U.src]
              rw [e2, List.map_cons, ← hg]
            · simp at hg; rw [hg.1] at hx; exact hx.elim
        · exact ih g (by rw [e]; exact List.mem_cons_of_mem _ h)
      · rw [e'] at h
        rcases List.mem_cons.1 h with rfl | h
        · exact one
        · exact ih g (by rw [e]; exact h)

/-- With the lemma: the parts of the piece under the view that the matcher
asks, each with the units it asks for it. -/
theorem made_given (am : ∀ r, alnum r → mixed r) (dm : ¬ mixed dot)
    {last : Prop} {runs : List (Run R)} {parts units}
    (hne : runs ≠ []) (hd : Distinct runs)
    (hc : Cut dot alnum mixed last runs parts) (hm : Made parts units) :
    ∃ groups : List (List (U R)), groups.flatten = units ∧
      Cut' dot alnum mixed runs (viewOf dot alnum mixed last units)
        (groups.map srcs) ∧
      ∀ g ∈ groups, g = (srcs g).map .lit ∨ g = [.gen (srcs g)] := by
  have h := made_found dot alnum mixed am dm hne hd hc hm
  have hs : srcs units = runs := hm.srcs_eq.trans hc.flatten
  have fl : (groupU mixed units).flatten = units := by
    clear h hs hm hc
    induction units with
    | nil => simp [groupU]
    | cons u us ih =>
      rcases groupU_cons mixed u us with ⟨e1, e⟩ | ⟨x, g', gs, e, hh⟩
      · rw [e]; rw [e1] at ih; simp at ih ⊢; exact ih
      · rcases hh with ⟨_, _, e'⟩ | ⟨_, e'⟩ <;> (rw [e']; rw [e] at ih; simp at ih ⊢; exact ih)
  cases hv : viewOf dot alnum mixed last units <;> rw [hv] at h
  case piece => exact ⟨[units], by simp, by
    simp only [Cut']; simpa using hs, by
    intro g hg; simp at hg; subst hg; left; rw [hs]; exact h⟩
  case whole => exact ⟨[units], by simp, by
    simp only [Cut']; simpa using hs, by
    intro g hg; simp at hg; subst hg; right; rw [hs]; exact h⟩
  case multi =>
    refine ⟨units.map ([·]), ?_, ?_, ?_⟩
    · clear h hs hm hc hv fl
      induction units with
      | nil => rfl
      | cons u us ih => simp [ih]
    · simp only [Cut']; rw [← h]; simp [srcs, Function.comp_def]
    · intro g hg
      obtain ⟨u, _, rfl⟩ := List.mem_map.1 hg
      cases u <;> simp [srcs, U.src]
  case mixed => exact ⟨groupU mixed units, fl, by simp only [Cut']; exact h,
    group_kind mixed units⟩
  case lastDot => exact ⟨groupU mixed units, fl, by
    simp only [Cut']; exact h, group_kind mixed units⟩

end Views
