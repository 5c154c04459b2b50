----------------------------- MODULE MCVerOrder -----------------------------
(* Every pair and triple of a set of versions: the comparison is an order.    *)
EXTENDS Ver, TLC, Json
CONSTANT Nums
Builds == {None} \cup {<<x>> : x \in Nums}
Versions == {V(a, b, c, d, None) : a \in Nums, b \in Nums, c \in Nums, d \in Builds}
VARIABLES a, b, phase
Init == phase = 0 /\ a = <<>> /\ b = <<>>
Next == phase = 0 /\ phase' = 1 /\ a' \in Versions /\ b' \in Versions
Less(x, y) == Cmp(x, y) < 0
\* numerically, part by part
RECURSIVE LessSeq(_, _)
NumOr(x) == IF x = None THEN -1 ELSE NumOf(x[1])
Key(x) == <<NumOf(x.major), NumOf(x.minor), NumOf(x.patch), NumOr(x.build)>>
LessSeq(x, y) == IF x = <<>> THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LessSeq(Tail(x), Tail(y))
Order == phase = 1 => /\ Less(a, b) = LessSeq(Key(a), Key(b))
                      /\ (Cmp(a, b) = 0) = (a = b)
                      /\ Cmp(a, b) = -Cmp(b, a)
                      /\ \A c \in Versions : Less(a, b) /\ Less(b, c) => Less(a, c)
Emitted == phase = 1 => PrintT(ToJson([a |-> Printed(a), b |-> Printed(b), cmp |-> Cmp(a, b)]))
=============================================================================
