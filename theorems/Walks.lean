/-
The step from the contracts to the wording of C05, C06 and C07.

`adj` is "both occupied and nearest neighbours on the periodic lattice", `dx`, `dy` the displacement of a step.
The contracts prove their clauses for an arbitrary set KEEP and arbitrary heights PHX, PHY; these theorems say what
that amounts to.
-/
namespace Percolation

variable {V : Type} (adj : V → V → Prop) (dx dy : V → V → Int)

/-- a walk along occupied nearest neighbours with its net displacement -/
inductive Walk : V → V → Int → Int → Prop
  | nil (x : V) : Walk x x 0 0
  | step {x y z : V} {a b : Int} : Walk x y a b → adj y z → Walk x z (a + dx y z) (b + dy y z)

def Closed (K : V → Prop) : Prop := ∀ x y, K x → adj x y → K y

/-- heights that follow every step inside K -/
def Heights (K : V → Prop) (hx hy : V → Int) : Prop :=
  ∀ x y, K x → adj x y → hx y = hx x + dx x y ∧ hy y = hy x + dy x y

def Reach (s x : V) : Prop := ∃ a b, Walk adj dx dy s x a b

theorem reach_closed (s : V) : Closed adj (Reach adj dx dy s) := by
  intro x y ⟨a, b, w⟩ h
  exact ⟨_, _, Walk.step w h⟩

theorem reach_self (s : V) : Reach adj dx dy s s := ⟨0, 0, Walk.nil s⟩

/-- C05: a site that lies in every closed set containing s is connected to s by a chain -/
theorem connected_of_closed (s x : V) (h : ∀ K : V → Prop, Closed adj K → K s → K x) : Reach adj dx dy s x :=
  h _ (reach_closed adj dx dy s) (reach_self adj dx dy s)

/-- C05: a chain stays in every closed set (neighbours carry one number, so connected sites do) -/
theorem closed_of_walk {s x : V} {a b : Int} (w : Walk adj dx dy s x a b) (K : V → Prop) (c : Closed adj K) (k : K s) : K x := by
  induction w with
  | nil => exact k
  | step _ h ih => exact c _ _ ih h

/-- C06: with heights, the displacement of a walk is the difference of the heights -/
theorem walk_heights {s x : V} {a b : Int} (w : Walk adj dx dy s x a b) (K : V → Prop) (c : Closed adj K) (k : K s)
    (hx hy : V → Int) (p : Heights adj dx dy K hx hy) : hx x = hx s + a ∧ hy x = hy s + b := by
  induction w with
  | nil => constructor <;> omega
  | step w h ih =>
    have q := p _ _ (closed_of_walk adj dx dy w K c k) h
    have r := ih
    constructor <;> omega

theorem append {x y z : V} {a b a' b' : Int} (w : Walk adj dx dy x y a b) (v : Walk adj dx dy y z a' b') :
    Walk adj dx dy x z (a + a') (b + b') := by
  induction v with
  | nil => simpa using w
  | step _ h ih =>
    have := Walk.step ih h
    rw [Int.add_assoc, Int.add_assoc] at this
    exact this

theorem reverse (sym : ∀ x y, adj x y → adj y x) (anti : ∀ x y, adj x y → dx y x = - dx x y ∧ dy y x = - dy x y)
    {x y : V} {a b : Int} (w : Walk adj dx dy x y a b) : Walk adj dx dy y x (-a) (-b) := by
  induction w with
  | nil => exact Walk.nil _
  | @step y' z' a' b' w' h ih =>
    have one := Walk.step (Walk.nil (adj := adj) (dx := dx) (dy := dy) z') (sym _ _ h)
    have both := append adj dx dy one ih
    have e := anti _ _ h
    have ex : 0 + dx z' y' + -a' = -(a' + dx y' z') := by omega
    have ey : 0 + dy z' y' + -b' = -(b' + dy y' z') := by omega
    rw [ex, ey] at both
    exact both

/-- C07: if every closed walk from s has no net displacement then heights exist on all that s is connected to -/
theorem heights_exist (sym : ∀ x y, adj x y → adj y x) (anti : ∀ x y, adj x y → dx y x = - dx x y ∧ dy y x = - dy x y)
    (s : V) (flat : ∀ a b, Walk adj dx dy s s a b → a = 0 ∧ b = 0) :
    ∃ hx hy, Heights adj dx dy (Reach adj dx dy s) hx hy := by
  classical
  have unique : ∀ x a b a' b', Walk adj dx dy s x a b → Walk adj dx dy s x a' b' → a = a' ∧ b = b' := by
    intro x a b a' b' w w'
    have q := flat _ _ (append adj dx dy w (reverse adj dx dy sym anti w'))
    constructor <;> omega
  refine ⟨fun x => if h : Reach adj dx dy s x then h.choose else 0,
          fun x => if h : Reach adj dx dy s x then h.choose_spec.choose else 0, ?_⟩
  intro x y rx h
  have ry := reach_closed adj dx dy s x y rx h
  have wx := rx.choose_spec.choose_spec
  have wy := ry.choose_spec.choose_spec
  have q := unique _ _ _ _ _ wy (Walk.step wx h)
  simp only [dif_pos rx, dif_pos ry]
  exact q

/-- C07: if for no closed set containing s there are heights, some closed walk from s goes around the lattice -/
theorem loop_of_no_heights (sym : ∀ x y, adj x y → adj y x) (anti : ∀ x y, adj x y → dx y x = - dx x y ∧ dy y x = - dy x y)
    (s : V) (none : ∀ K hx hy, Closed adj K → K s → ¬ Heights adj dx dy K hx hy) :
    ∃ a b, Walk adj dx dy s s a b ∧ ¬ (a = 0 ∧ b = 0) := by
  apply Classical.byContradiction
  intro no
  have flat : ∀ a b, Walk adj dx dy s s a b → a = 0 ∧ b = 0 := by
    intro a b w
    apply Classical.byContradiction
    intro c
    exact no ⟨a, b, w, c⟩
  obtain ⟨hx, hy, p⟩ := heights_exist adj dx dy sym anti s flat
  exact none _ hx hy (reach_closed adj dx dy s) (reach_self adj dx dy s) p

/-- C07: where heights exist on a closed set no closed walk in it goes around the lattice -/
theorem no_loop_of_heights (K : V → Prop) (c : Closed adj K) (hx hy : V → Int) (p : Heights adj dx dy K hx hy)
    {x : V} (k : K x) {a b : Int} (w : Walk adj dx dy x x a b) : a = 0 ∧ b = 0 := by
  have q := walk_heights adj dx dy w K c k hx hy p
  constructor <;> omega

end Percolation

#print axioms Percolation.loop_of_no_heights
#print axioms Percolation.no_loop_of_heights
#print axioms Percolation.connected_of_closed
#print axioms Percolation.closed_of_walk
#print axioms Percolation.walk_heights
