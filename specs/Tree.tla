-------------------------------- MODULE Tree --------------------------------
(* A tree of widgets: keyboard focus, bubbling of messages, queries.
   Nodes are 1..Len(nodes) in document order; nodes[i] = [par, id, type, can, sv, sd, ss, sc, mode]:
   par  parent (0 for the root)          id    "" or an id (ids may repeat)     type  type name
   can  takes focus when enabled         sv/sd/ss/sc  set_visible / set_disabled / display / classes are supported
   mode what a node does with a message passing through it: "pass" (silent), "log" (sees it), "stop", "change"   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nodes, vis, disp, dis, cls, focused, target
tree == <<nodes, vis, disp, dis, cls>>
vars == <<nodes, vis, disp, dis, cls, focused, target>>
N == Len(nodes)
All == 1..N
RECURSIVE Anc(_, _)
Anc(T, i) == IF T[i].par = 0 THEN <<>> ELSE <<T[i].par>> \o Anc(T, T[i].par)       \* nearest first
Range(s) == {s[k] : k \in 1..Len(s)}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b

(* ---- focus ---- *)
Shown(i) == \A j \in ({i} \cup Range(Anc(nodes, i))) \ {1} : vis[j] = 1 /\ disp[j] = 1
Live(i) == nodes[i].can = 1 /\ dis[i] = 0 /\ Shown(i)
Lives == {i \in All : Live(i)}
Rank(i) == Cardinality({j \in Lives : j < i})                                      \* position among the focusable widgets
After(i) == {j \in Lives : j > i}
Before(i) == {j \in Lives : j < i}
NextOf(i) == IF After(i) # {} THEN Least(After(i)) ELSE Least(Lives)
PrevOf(i) == IF Before(i) # {} THEN Most(Before(i)) ELSE Most(Lives)
NthLive(k) == CHOOSE i \in Lives : Rank(i) = k

Focus(i) == focused' = {i} /\ target' = i
NoFocus == focused' = {} /\ target' = 1
Keep == UNCHANGED <<focused, target>>

\* result of a move: index of the newly focused widget among the focusable ones, -1 if there is none
Next(res) == /\ IF Lives = {} THEN Keep /\ res = -1
                ELSE Focus(NextOf(target)) /\ res = Rank(NextOf(target))
             /\ UNCHANGED tree
Prev(res) == /\ IF Lives = {} THEN Keep /\ res = -1
                ELSE Focus(PrevOf(target)) /\ res = Rank(PrevOf(target))
             /\ UNCHANGED tree
SetIndex(k, res) == /\ IF Lives = {} THEN NoFocus /\ res = 0
                       ELSE IF k >= Cardinality(Lives) THEN Keep /\ res = 0
                       ELSE Focus(NthLive(k)) /\ res = 1
                    /\ UNCHANGED tree
ById(x) == {i \in Lives : nodes[i].id = x}
FocusId(x, res) == /\ IF ById(x) = {} THEN Keep /\ res = 0 ELSE Focus(Least(ById(x))) /\ res = 1
                   /\ UNCHANGED tree
(* the event loop's rule: a focus that can no longer be used moves to the first focusable widget *)
Settle == /\ IF Live(target) THEN Keep ELSE IF Lives = {} THEN NoFocus ELSE Focus(Least(Lives))
          /\ UNCHANGED tree

(* ---- attributes ---- *)
SetVis(S, v) == /\ vis' = [i \in All |-> IF i \in S /\ nodes[i].sv = 1 THEN v ELSE vis[i]]
                /\ UNCHANGED <<nodes, disp, dis, cls, focused, target>>
SetDis(S, v) == /\ dis' = [i \in All |-> IF i \in S /\ nodes[i].sd = 1 THEN v ELSE dis[i]]
                /\ UNCHANGED <<nodes, disp, vis, cls, focused, target>>
SetDisp(S, v) == /\ disp' = [i \in All |-> IF i \in S /\ nodes[i].ss = 1 THEN v ELSE disp[i]]
                 /\ UNCHANGED <<nodes, vis, dis, cls, focused, target>>
Class(S, how, c) ==
    /\ cls' = [i \in All |-> IF i \in S /\ nodes[i].sc = 1
                             THEN CASE how = "add" -> cls[i] \cup {c}
                                    [] how = "remove" -> cls[i] \ {c}
                                    [] how = "toggle" -> IF c \in cls[i] THEN cls[i] \ {c} ELSE cls[i] \cup {c}
                             ELSE cls[i]]
    /\ UNCHANGED <<nodes, vis, disp, dis, focused, target>>

(* ---- queries: selector [t, i], both empty matches nothing ---- *)
Match(s) == {i \in All : /\ (s.t # "" \/ s.i # "")
                         /\ (s.t # "" => nodes[i].type = s.t)
                         /\ (s.i # "" => nodes[i].id = s.i)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
FirstOf(S) == IF S = {} THEN 0 ELSE Least(S)
LastOf(S) == IF S = {} THEN 0 ELSE Most(S)
\* "hidden", "shown", "withclass": the predicates queries are filtered with
Passes(f, i) == CASE f = "none" -> TRUE
                  [] f = "enabled" -> dis[i] = 0
                  [] f = "visible" -> vis[i] = 1
                  [] f = "classy" -> "x" \in cls[i]
Filtered(s, f) == {i \in Match(s) : Passes(f, i)}

(* ---- bubbling: a message sent by node i meets its ancestors, nearest first, until one stops it ---- *)
\* returns [seen |-> <<<<node, message>>, ...>>, msg |-> final message]; nodes in mode "pass" see it silently
RECURSIVE Rise(_, _, _)
Rise(path, m, seen) ==
    IF path = <<>> THEN [seen |-> seen, msg |-> m, stopped |-> 0]
    ELSE LET a == Head(path)
             s2 == IF nodes[a].mode = "pass" THEN seen ELSE Append(seen, <<a, m>>)
         IN  CASE nodes[a].mode = "stop" -> [seen |-> s2, msg |-> m, stopped |-> 1]
               [] nodes[a].mode = "change" -> Rise(Tail(path), m + 100, s2)
               [] nodes[a].mode = "changestop" -> [seen |-> s2, msg |-> m + 100, stopped |-> 1]
               [] OTHER -> Rise(Tail(path), m, s2)
Bubble(i) == Rise(Anc(nodes, i), i, <<>>)
=============================================================================
