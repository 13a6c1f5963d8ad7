------------------------------- MODULE Markup -------------------------------
(* Markup such as [bold red]text[/]: tags open and close attributes of the   *)
(* text between them.  A token is a grapheme [k: "t", g], an opening tag of   *)
(* words [k: "open", words], a meta tag [k: "meta", key, val], a closing tag  *)
(* [k: "close", name] ("" closes the latest) or something malformed.          *)
EXTENDS Integers, Sequences, FiniteSets, ColourTables
None == <<>>
Flags == [bold |-> "bold", b |-> "bold", dim |-> "dim", d |-> "dim", italic |-> "italic", i |-> "italic", underline |-> "underline", u |-> "underline",
          strike |-> "strike", s |-> "strike", strikethrough |-> "strike", reverse |-> "reverse", r |-> "reverse", blink |-> "blink"]
Plain == [fg |-> None, bg |-> None, fl |-> {}, click |-> 0, link |-> 0]
\* a word is [w: text, c: its colour when it is written in numbers, else <<>>]
ColourOf(x) == IF x.c # <<>> THEN x.c ELSE IF x.w \in DOMAIN Names THEN Names[x.w] ELSE <<-1>>
Known(x) == x.w \in DOMAIN Flags \/ ColourOf(x) # <<-1>>
RECURSIVE WordsOk(_)
WordsOk(ws) == ws = <<>> \/ (IF ws[1].w = "on" THEN Len(ws) > 1 /\ ColourOf(ws[2]) # <<-1>> /\ WordsOk(SubSeq(ws, 3, Len(ws)))
                             ELSE Known(ws[1]) /\ WordsOk(Tail(ws)))
RECURSIVE StyleOf(_, _)
StyleOf(ws, a) == IF ws = <<>> THEN a
                  ELSE IF ws[1].w = "on" THEN StyleOf(SubSeq(ws, 3, Len(ws)), [a EXCEPT !.bg = ColourOf(ws[2])])
                  ELSE IF ws[1].w \in DOMAIN Flags THEN StyleOf(Tail(ws), [a EXCEPT !.fl = @ \cup {Flags[ws[1].w]}])
                  ELSE StyleOf(Tail(ws), [a EXCEPT !.fg = ColourOf(ws[1])])
Adds(tok) == IF tok.k = "open" THEN StyleOf(tok.words, Plain)
             ELSE CASE tok.key = "click" -> [Plain EXCEPT !.click = tok.val]
               [] tok.key = "link" -> [Plain EXCEPT !.link = tok.val]
               [] OTHER -> Plain                  \* understood by others
\* over: attributes of the inner tag win, flags add up
Over(inner, outer) == [fg |-> IF inner.fg # None THEN inner.fg ELSE outer.fg, bg |-> IF inner.bg # None THEN inner.bg ELSE outer.bg,
                       fl |-> inner.fl \cup outer.fl, click |-> IF inner.click # 0 THEN inner.click ELSE outer.click,
                       link |-> IF inner.link # 0 THEN inner.link ELSE outer.link]
Answers(tok, name) == IF tok.k = "open" THEN \E j \in 1..Len(tok.words) : tok.words[j].w = name
                      ELSE name = (IF tok.key = "link" THEN "link" ELSE "@" \o tok.key)
Bad(tok) == tok.k = "bad" \/ (tok.k = "open" /\ (tok.words = <<>> \/ ~WordsOk(tok.words)))
(* the machine: open tags with the place they began, finished spans, text *)
Start == [open |-> <<>>, spans |-> {}, text |-> <<>>, n |-> 0, err |-> FALSE]
\* closing the tags from position j of the stack on
Shut(m, j) == [m EXCEPT !.open = SubSeq(m.open, 1, j - 1),
                        !.spans = @ \cup {[from |-> m.open[i].at + 1, to |-> Len(m.text), adds |-> m.open[i].adds, n |-> m.open[i].n] : i \in j..Len(m.open)}]
Latest(m, name) == LET S == {j \in 1..Len(m.open) : Answers(m.open[j].tok, name)} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : i <= j
Feed(m, tok) ==
    IF m.err \/ Bad(tok) THEN [m EXCEPT !.err = TRUE]
    ELSE CASE tok.k = "t" -> [m EXCEPT !.text = Append(@, tok.g)]
           [] tok.k \in {"open", "meta"} -> [m EXCEPT !.open = Append(@, [at |-> Len(m.text), adds |-> Adds(tok), tok |-> tok, n |-> m.n]), !.n = @ + 1]
           [] tok.k = "close" -> LET j == IF tok.name = "" THEN Len(m.open) ELSE Latest(m, tok.name) IN IF j = 0 THEN m ELSE Shut(m, j)
Finish(m) == IF m.open = <<>> THEN m ELSE Shut(m, 1)
\* what position p of the text looks like: the spans over it, in the order in which they were opened
RECURSIVE Layer(_, _)
Layer(S, base) == IF S = {} THEN base
                  ELSE LET x == CHOOSE x \in S : \A y \in S : x.n <= y.n IN Layer(S \ {x}, Over(x.adds, base))
LookAt(m, p, base) == Layer({x \in m.spans : x.from <= p /\ p <= x.to}, base)
(* ---- clickable text is shown in the link style ---- *)
\* ls: [bg, fg, bgh, fgh: None or [c: rgb, num: opacity in quarters, auto: 0|1], st, sth: sets of flags]
Bright(c) == 299 * c[1] + 587 * c[2] + 114 * c[3]
Unsure(c) == Bright(c) > 124000 /\ Bright(c) < 131000           \* too near the middle grey to say
Mix(top, under, num, den) == [j \in 1..3 |-> (den * under[j] + (top[j] - under[j]) * num) \div den]
Opposite(c, num, den) == LET v == IF Bright(c) < 127500 THEN 255 ELSE 0 IN Mix(<<v, v, v>>, c, num, den)
First(x, y) == IF x # None THEN x ELSE y
Linked(a, ls, hov) ==
    LET lb == IF hov THEN First(ls.bgh, ls.bg) ELSE ls.bg
        lf == IF hov THEN First(ls.fgh, ls.fg) ELSE ls.fg
        bg == IF lb = None THEN a.bg ELSE IF lb.num < 4 /\ a.bg # None THEN Mix(lb.c, a.bg, lb.num, 4) ELSE lb.c
        fg == IF lf = None THEN (IF bg = None THEN a.fg ELSE Opposite(bg, 87, 100))
              ELSE IF lf.auto = 1 THEN (IF bg = None THEN a.fg ELSE Opposite(bg, lf.num, 4))
              ELSE IF bg = None THEN lf.c ELSE Mix(lf.c, bg, lf.num, 4)
        st == IF hov THEN ls.st \cup ls.sth ELSE ls.st
    IN [a EXCEPT !.bg = bg, !.fg = fg,
                 \* at rest a link is underlined, under the pointer only if its style says so
                 !.fl = ((@ \cup st) \ {"underline"}) \cup (IF ~hov \/ "underline" \in st THEN {"underline"} ELSE {})]
RECURSIVE FeedAll(_, _)
FeedAll(m, toks) == IF toks = <<>> THEN Finish(m) ELSE FeedAll(Feed(m, toks[1]), Tail(toks))
=============================================================================
