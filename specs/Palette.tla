------------------------------ MODULE Palette -------------------------------
(* The command palette: a query typed into an input, providers that search   *)
(* for it in their own time, a list of what they found, two timers, and the   *)
(* choice of one command.                                                     *)
(* p = [open, ros (run at once when selected), np, q (characters), es         *)
(*      (entries shown), pend, sel, list, busy, clear (entries are of an      *)
(*      older query), gen, done, exp, wait (what each provider is searching   *)
(*      for), chan, now, tbusy, tnom, chosen, restore, sq, ev, act, calls]    *)
(* An entry is [id, score, sq, g]; id 0 stands for "no matches".              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Delay == 500
New(ros) == [open |-> FALSE, ros |-> ros, np |-> 0, q |-> <<>>, es |-> <<>>, pend |-> <<>>, sel |-> 1, list |-> FALSE, busy |-> FALSE, clear |-> FALSE,
             gen |-> 0, done |-> 0, exp |-> 0, wait |-> <<>>, chan |-> <<>>, now |-> 0, tbusy |-> 0, tnom |-> 0, chosen |-> 0, restore |-> -1, sq |-> 0,
             ev |-> <<>>, act |-> 0, calls |-> <<>>]
\* nothing is heard of a finished step any more
Fresh(p) == [p EXCEPT !.ev = <<>>, !.act = 0, !.calls = [i \in 1..p.np |-> <<>>]]
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s = <<>> \/ s[1] # " " THEN s ELSE TrimL(Tail(s))
TrimR(s) == IF s = <<>> \/ s[Len(s)] # " " THEN s ELSE TrimR(SubSeq(s, 1, Len(s) - 1))
Trim(s) == TrimR(TrimL(s))
Emit(p, e) == [p EXCEPT !.ev = Append(@, e)]
Call(p, c) == [p EXCEPT !.calls = [i \in 1..p.np |-> Append(p.calls[i], c)]]
\* the highlighted entry is announced while the list shows
Announce(p) == IF p.open /\ p.list /\ p.es # <<>> /\ p.es[p.sel].id # 0 THEN Emit(p, <<"highlight", p.sel, p.es[p.sel].id>>) ELSE p
\* what is not shown is not busy
Hidden(p) == IF p.open /\ p.list THEN p ELSE [p EXCEPT !.busy = FALSE]
Before(a, b) == a.score > b.score \/ (a.score = b.score /\ a.sq < b.sq)
Sorted(s) == SortSeq(s, Before)
Show(p) == LET r == [p EXCEPT !.es = Sorted(@)]
               k == IF r.es = <<>> THEN [r EXCEPT !.sel = 1, !.list = FALSE]
                    ELSE [r EXCEPT !.sel = IF @ > Len(r.es) THEN Len(r.es) ELSE @, !.list = (r.chosen = 0)]
           IN Announce(Hidden(k))
Flush(p) == IF p.pend = <<>> THEN p ELSE Show([p EXCEPT !.es = (IF p.clear THEN <<>> ELSE @) \o p.pend, !.pend = <<>>, !.clear = FALSE])
\* searches and timers under way end; what they already sent is of no use any more
Cancel(p) == [p EXCEPT !.wait = [i \in 1..p.np |-> 0], !.tbusy = 0, !.tnom = 0, !.busy = FALSE, !.exp = 0, !.done = 0, !.gen = @ + 1]
Start(p, q) ==
    LET c == [Cancel(p) EXCEPT !.q = q, !.sel = 1, !.chosen = 0, !.pend = <<>>, !.sq = 0, !.exp = p.np, !.clear = TRUE, !.list = p.open]
        word == Trim(q)
    IN IF p.np = 0
       THEN LET e == Show([c EXCEPT !.es = <<>>]) IN IF word = <<>> THEN e ELSE [e EXCEPT !.tnom = p.now + Delay]
       ELSE Announce(Call([c EXCEPT !.tbusy = p.now + Delay, !.wait = [i \in 1..p.np |-> c.gen]], IF word = <<>> THEN <<"discover">> ELSE <<"search", word>>))
Open(p, r) == IF p.open THEN p
              ELSE Start(Call(Emit([p EXCEPT !.open = TRUE, !.restore = IF r = -1 THEN @ ELSE r], <<"opened">>), <<"startup">>), <<>>)
CloseWith(p, chosen) == IF ~p.open THEN p
    ELSE Call(Emit([Cancel(p) EXCEPT !.open = FALSE, !.q = <<>>, !.sel = 1, !.chosen = 0, !.es = <<>>, !.pend = <<>>, !.list = FALSE, !.clear = FALSE],
                   <<"closed", IF chosen THEN 1 ELSE 0>>), <<"shutdown">>)
Provide(p, n) == LET c == [Cancel(p) EXCEPT !.np = n, !.wait = [i \in 1..n |-> 0], !.exp = n, !.calls = [i \in 1..n |-> <<>>]] IN
                 IF p.open THEN Start(Call(c, <<"startup">>), p.q) ELSE c
\* the highlighted command runs at once, or its name goes into the input and it runs when submitted.  text: id -> characters
Activate(p, text) ==
    IF p.es = <<>> \/ p.es[p.sel].id = 0 THEN p
    ELSE LET id == p.es[p.sel].id IN
         IF p.ros THEN [CloseWith(p, TRUE) EXCEPT !.act = id]
         ELSE [Cancel(p) EXCEPT !.q = text[id], !.chosen = id, !.list = FALSE, !.es = <<>>, !.pend = <<>>, !.sel = 1, !.clear = FALSE]
Submit(p, text) == IF p.list THEN Activate(p, text)
                   ELSE IF p.chosen # 0 THEN [CloseWith(p, TRUE) EXCEPT !.act = p.chosen] ELSE p
Move(p, d) == IF ~p.list /\ p.es # <<>> THEN Announce([p EXCEPT !.list = TRUE])
              ELSE LET k == p.sel + d IN IF k < 1 \/ k > Len(p.es) \/ p.es[k].id = 0 THEN p ELSE Announce([p EXCEPT !.sel = k])
Key(p, k, c, text) ==
    IF ~p.open THEN p
    ELSE CASE k = "esc" -> CloseWith(p, FALSE)
           [] k = "enter" -> Submit(p, text)
           [] k = "up" -> Move(p, -1)
           [] k = "down" -> Move(p, 1)
           [] k = "char" -> Start(p, Append(p.q, c))
           [] k = "back" -> IF p.q = <<>> THEN p ELSE Start(p, SubSeq(p.q, 1, Len(p.q) - 1))
\* a click on the i-th entry, on nothing (-1), or beside everything (0)
Click(p, i, text) == IF ~p.open THEN p
                     ELSE IF i = 0 THEN CloseWith(p, FALSE)
                     ELSE IF i < 0 THEN p
                     ELSE IF p.es[i].id = 0 THEN p ELSE Activate(Announce([p EXCEPT !.sel = i]), text)
\* a provider's search ends: its hits are under way
Answers(p, i, hits) == IF p.wait[i] = 0 THEN p ELSE [p EXCEPT !.chan = Append(@, [k |-> "hits", g |-> p.wait[i], hits |-> hits]), !.wait[i] = 0]
Elapse(p, d) ==
    LET n == p.now + d
        a == IF p.tbusy # 0 /\ p.tbusy <= n THEN [p EXCEPT !.chan = Append(@, [k |-> "busy", g |-> p.gen]), !.tbusy = 0] ELSE p
        b == IF a.tnom # 0 /\ a.tnom <= n THEN [a EXCEPT !.chan = Append(@, [k |-> "none", g |-> p.gen]), !.tnom = 0] ELSE a
    IN [b EXCEPT !.now = n]
\* one message: {next}.  Hits may be shown as they come or held until all providers are done; when the last were shown long ago they must be
Apply(p, m, late) ==
    IF m.g # p.gen THEN {p}
    ELSE CASE m.k = "hits" ->
               LET a == [p EXCEPT !.done = @ + 1, !.sq = @ + Len(m.hits),
                                  !.pend = @ \o [j \in 1..Len(m.hits) |-> [id |-> m.hits[j][1], score |-> IF Trim(p.q) = <<>> THEN 0 ELSE m.hits[j][2], sq |-> p.sq + j, g |-> p.gen]]]
                   mid == IF late THEN {Flush(a)} ELSE {a, Flush(a)}
               IN IF a.done < a.exp THEN mid
                  ELSE {LET c == [f EXCEPT !.tbusy = 0, !.busy = FALSE]
                            e == IF c.clear /\ c.pend = <<>> THEN Show([c EXCEPT !.es = <<>>, !.clear = FALSE]) ELSE Flush(c)
                        IN IF e.es = <<>> /\ Trim(e.q) # <<>> THEN [e EXCEPT !.tnom = e.now + Delay] ELSE e : f \in mid}
           [] m.k = "busy" -> {IF p.list /\ p.done < p.exp THEN [p EXCEPT !.busy = TRUE] ELSE p}
           [] m.k = "none" -> {Hidden([p EXCEPT !.es = <<[id |-> 0, score |-> 0, sq |-> 0, g |-> p.gen]>>, !.sel = 1, !.list = TRUE])}
RECURSIVE Drain(_, _)
Drain(p, late) == IF p.chan = <<>> THEN {p}
                  ELSE LET m == p.chan[1] IN UNION {Drain(r, late /\ m.g # p.gen) : r \in Apply([p EXCEPT !.chan = Tail(@)], m, late)}
(* ---- what can be seen ---- *)
Lists(p) == p.open /\ p.list
Rows(p) == IF Lists(p) THEN p.es ELSE <<>>
Highlighted(p) == IF p.es # <<>> /\ p.es[p.sel].id # 0 THEN p.sel ELSE 0
View(p) == <<p.open, Lists(p), Rows(p), Highlighted(p), p.busy, p.q>>
=============================================================================
