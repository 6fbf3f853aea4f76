------------------------------ MODULE MCViews ------------------------------
(* One parent of shape <<2,2>> or <<2,1,2>>, every subraster, slice and section, every write. *)
EXTENDS Views
CONSTANT Depth
VARIABLE steps
Parents == {<<2, 2>>, <<2, 1, 2>>, <<3>>}
Regions(s) == {x \in {Box(f, b) : f \in BoxSet(Domain(s)), b \in BoxSet(Domain(s))} : ~BoxEmpty(x)}
Init == \E s \in Parents : /\ memory = VConst(ShapeSize(s), 0) /\ steps = 0
                           /\ views = (1 :> [shape |-> s, cells |-> [k \in 1..ShapeSize(s) |-> k], flat |-> TRUE])
Act == \/ \E id \in {2, 3}, x \in Regions(views[1].shape) : Sub(id, 1, x)
       \/ \E p \in DOMAIN views, m \in 1..3 : p # 3 /\ views[p].flat /\ m <= Len(views[p].shape)
            /\ \E x \in Regions(views[p].shape) : Slice(3, p, m, x)
       \/ \E p \in {1} : \E lo \in 0..2, hi \in 0..2 : lo <= hi /\ hi < views[p].shape[Len(views[p].shape)] /\ Section(2, p, lo, hi)
       \/ \E id \in DOMAIN views : \E k \in 0..(Len(views[id].cells) - 1) : WriteAt(id, k, 1)
Next == steps < Depth /\ steps' = steps + 1 /\ Act
Spec == Init /\ [][Next]_<<memory, views, steps>>
(* flat views are runs of memory, views never designate a cell twice, and shapes agree with sizes *)
FlatIsRun == \A v \in DOMAIN views : views[v].flat => IsRun(views[v].cells)
InjectiveView == \A v \in DOMAIN views : \A i, j \in 1..Len(views[v].cells) : views[v].cells[i] = views[v].cells[j] => i = j
SizeOK == \A v \in DOMAIN views : ShapeSize(views[v].shape) = Len(views[v].cells)
(* the contiguity condition is sufficient; and necessary for the cells to be a run, up to axes of length 1 *)
ContigSound == \A x \in Regions(views[1].shape), m \in 1..Len(views[1].shape) :
   Contiguous(views[1].shape, m, x) => IsRun(CellsOf(1, x))
(* reading through any view what was written through another *)
OrderedCells == \A v \in DOMAIN views : \A i \in 1..(Len(views[v].cells) - 1) : views[v].cells[i] < views[v].cells[i + 1]
=============================================================================
