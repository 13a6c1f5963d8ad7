------------------------------- MODULE MC_Bar -------------------------------
EXTENDS Bar
CONSTANTS Ns, Virts
VARIABLES b, msg
vars == <<b, msg>>
Init == /\ \E n \in Ns, virt \in Virts, vert \in BOOLEAN : \E win \in 1..virt : \E pos \in {0, (virt - win) \div 2, virt - win} :
             b = [vert |-> vert, n |-> n, virt |-> virt, win |-> win, pos |-> pos, st |-> "normal", at |-> 0, ghost |-> FALSE]
        /\ msg = ""
\* the application obeys: a step by one, a drag to where the thumb is asked to go
Obey(q, m, p) == CASE m \in {"up", "left"} -> [q EXCEPT !.pos = BMax(0, @ - 1)] [] m \in {"down", "right"} -> [q EXCEPT !.pos = BMin(q.virt - q.win, @ + 1)]
                   [] m = "to" -> [q EXCEPT !.pos = BMax(0, BMin(q.virt - q.win, ((p - q.at) * q.virt) \div q.n))] [] OTHER -> q
Next == \/ \E k \in {"move", "down", "drag", "up", "wheeldown", "wheelup"}, p \in {-1} \cup 0..(b.n - 1) : \E r \in Mouse(b, k, p) :
             b' = Obey(r.b, r.msg, p) /\ msg' = r.msg
        \/ \E h \in BOOLEAN : b' = HoverOn(b, h) /\ msg' = ""
        \/ b' = Drop(b) /\ msg' = ""
Spec == Init /\ [][Next]_vars
(* exact values *)
Start8(q, pos) == IF q.virt <= q.win THEN 0 ELSE (8 * (q.n * q.virt - Units(q.n, q.virt, q.win)) * pos) \div (q.virt * (q.virt - q.win))
Len8(q) == (8 * Units(q.n, q.virt, q.win) + q.virt - 1) \div q.virt
Room(q) == q.virt - q.win
\* the thumb is at the start exactly at the start, at the end at the end, moves only forward, and is at least a cell long
AtEnds == Drawn(b.n, b.virt, b.win, FALSE) /\ b.win < b.virt /\ Units(b.n, b.virt, b.win) <= b.n * b.virt =>
             /\ Start8(b, 0) = 0 /\ Start8(b, Room(b)) + Len8(b) = 8 * b.n
             /\ \A p \in 0..(Room(b) - 1) : Start8(b, p) <= Start8(b, p + 1)
             /\ Len8(b) >= 8
InBar == \A e \in Looks(b.n, b.virt, b.win, b.pos, FALSE) : e = <<>> \/ (e[1] >= 0 /\ e[1] <= e[2] /\ e[2] <= 8 * b.n)
Valid == b.pos >= 0 /\ b.pos <= BMax(0, Room(b)) /\ b.at >= 0
\* a press on a free bar either grabs or asks, never both, and only a grabbed bar asks for a place
OneMeaning == [][(msg' = "to" => b.st = "grab") /\ (b.st # "grab" /\ b'.st = "grab" => msg' = "")]_vars
=============================================================================
