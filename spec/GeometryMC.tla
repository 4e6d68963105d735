----------------------------- MODULE GeometryMC -----------------------------
(* laws of the operations, for all small rectangles and points *)
EXTENDS Geometry, TLC
CONSTANTS N, M
VARIABLES a, b
R == (-1 .. N) \X (-1 .. N) \X (0 .. M) \X (0 .. M)
P == (-1 .. N + M) \X (-1 .. N + M)
Init == a \in R /\ b \in R
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Points(r) == {p \in P : Contains(r, p)}
Inter == Points(Intersection(a, b)) = Points(a) \intersect Points(b)
Unite == Points(a) \union Points(b) \subseteq Points(Union(a, b))
Smallest == \A r \in {Intersection(a, b), a, b} : ~Empty(a) /\ ~Empty(b) => Union(r, Union(a, b)) = Union(a, b)
MeetLaw == (~Empty(Intersection(a, b)) => Meet(a, b)) /\ (Meet(a, b) = Meet(b, a)) /\ (Meet(a, b) = (Height(Intersection(a, b)) >= 0 /\ Width(Intersection(a, b)) >= 0))
CenterLaw == Centered(Center("int", a), <<a[3], a[4]>>) = a
MoveLaw == Moved(Moved(a, <<b[1], b[2]>>), Neg(<<b[1], b[2]>>)) = a /\ Inset(Inset(a, b[1], b[2]), -b[1], -b[2]) = a
Commutes == Intersection(a, b) = Intersection(b, a) /\ Union(a, b) = Union(b, a)
Absorbs == ~Empty(Intersection(a, b)) => Union(a, Intersection(a, b)) = a /\ Intersection(a, Union(a, b)) = a
=============================================================================
