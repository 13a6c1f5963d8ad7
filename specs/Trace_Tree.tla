---------------------------- MODULE Trace_Tree ----------------------------
EXTENDS Tree, TraceLib
H == Traces[t].nodes
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ nodes = H
             /\ vis = [i \in 1..Len(H) |-> 1] /\ disp = [i \in 1..Len(H) |-> 1] /\ dis = [i \in 1..Len(H) |-> 0]
             /\ cls = [i \in 1..Len(H) |-> Range(Traces[t].cls[i])]
             /\ focused = {} /\ target = 1
Sel == [t |-> Ev.t, i |-> Ev.i]
Hit == Filtered(Sel, Ev.f)
Query == /\ Ev.res = CASE Ev.how = "one" -> <<FirstOf(Hit)>>
                       [] Ev.how = "as" -> <<FirstOf({i \in Hit : nodes[i].mode # "pass"})>>
                       [] Ev.how = "last" -> <<LastOf(Hit)>>
                       [] Ev.how = "count" -> <<Cardinality(Hit)>>
                       [] Ev.how = "all" -> Sorted(Hit)
         /\ UNCHANGED vars
Key == /\ Ev.recv = (IF nodes[target].mode # "pass" THEN <<target>> ELSE <<>>)
       /\ Ev.msg = (IF nodes[target].emit = 1 THEN target ELSE 0)
       /\ Ev.msg # 0 => LET b == Bubble(target) IN
              /\ Ev.seen = b.seen /\ Ev.fin = b.msg /\ Ev.stopped = b.stopped
              /\ \A k \in 1..Len(Ev.who) : Ev.who[k] = <<nodes[target].id, nodes[target].type>>
       /\ UNCHANGED vars
Do == CASE Op("next") -> Next(Ev.res)
        [] Op("prev") -> Prev(Ev.res)
        [] Op("index") -> SetIndex(Ev.k, Ev.res)
        [] Op("id") -> IF Ev.id = "" THEN Ev.res = 0 /\ UNCHANGED vars ELSE FocusId(Ev.id, Ev.res)
        [] Op("settle") -> Settle
        [] Op("vis") -> SetVis(Range(Ev.nodes), Ev.v)
        [] Op("dis") -> SetDis(Range(Ev.nodes), Ev.v)
        [] Op("disp") -> SetDisp(Range(Ev.nodes), Ev.v)
        [] Op("q") -> Query
        [] Op("cls") -> Class(Hit, Ev.how, Ev.c)
        [] Op("visq") -> SetVis(Hit, Ev.v)
        [] Op("disq") -> SetDis(Hit, Ev.v)
        [] Op("key") -> Key
Step == /\ Advance /\ Ev.panic = 0
        /\ Do
        /\ Ev.vis = vis' /\ Ev.disp = disp' /\ Ev.dis = dis'
        /\ Range(Ev.foc) = focused' /\ Ev.tgt = target'
        /\ Ev.live = Bit(Live(target))' /\ Ev.n = Cardinality(Lives')
        /\ (target' # 1 => Ev.sid = nodes[target'].id /\ Ev.sty = nodes[target'].type)
        /\ \A i \in All : Range(Ev.cls[i]) = cls'[i]
Done == AtEnd /\ UNCHANGED <<vars, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, t, l>>
=============================================================================
