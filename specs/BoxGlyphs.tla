----------------------------- MODULE BoxGlyphs -----------------------------
(* Generated by tools/box_tables.py from the Unicode names of U+2500..U+257F: the character with    *)
(* the given arms up, right, down, left (0 none, 1 light, 2 heavy, 3 double); 0 when there is none. *)
EXTENDS Integers, Sequences, TLC
GlyphTable == <<
  <<<<0, 0, 0, 1>>, 9588>>,
  <<<<0, 0, 0, 2>>, 9592>>,
  <<<<0, 0, 1, 0>>, 9591>>,
  <<<<0, 0, 1, 1>>, 9488>>,
  <<<<0, 0, 1, 2>>, 9489>>,
  <<<<0, 0, 1, 3>>, 9557>>,
  <<<<0, 0, 2, 0>>, 9595>>,
  <<<<0, 0, 2, 1>>, 9490>>,
  <<<<0, 0, 2, 2>>, 9491>>,
  <<<<0, 0, 3, 1>>, 9558>>,
  <<<<0, 0, 3, 3>>, 9559>>,
  <<<<0, 1, 0, 0>>, 9590>>,
  <<<<0, 1, 0, 1>>, 9472>>,
  <<<<0, 1, 0, 2>>, 9598>>,
  <<<<0, 1, 1, 0>>, 9484>>,
  <<<<0, 1, 1, 1>>, 9516>>,
  <<<<0, 1, 1, 2>>, 9517>>,
  <<<<0, 1, 2, 0>>, 9486>>,
  <<<<0, 1, 2, 1>>, 9520>>,
  <<<<0, 1, 2, 2>>, 9521>>,
  <<<<0, 1, 3, 0>>, 9555>>,
  <<<<0, 1, 3, 1>>, 9573>>,
  <<<<0, 2, 0, 0>>, 9594>>,
  <<<<0, 2, 0, 1>>, 9596>>,
  <<<<0, 2, 0, 2>>, 9473>>,
  <<<<0, 2, 1, 0>>, 9485>>,
  <<<<0, 2, 1, 1>>, 9518>>,
  <<<<0, 2, 1, 2>>, 9519>>,
  <<<<0, 2, 2, 0>>, 9487>>,
  <<<<0, 2, 2, 1>>, 9522>>,
  <<<<0, 2, 2, 2>>, 9523>>,
  <<<<0, 3, 0, 3>>, 9552>>,
  <<<<0, 3, 1, 0>>, 9554>>,
  <<<<0, 3, 1, 3>>, 9572>>,
  <<<<0, 3, 3, 0>>, 9556>>,
  <<<<0, 3, 3, 3>>, 9574>>,
  <<<<1, 0, 0, 0>>, 9589>>,
  <<<<1, 0, 0, 1>>, 9496>>,
  <<<<1, 0, 0, 2>>, 9497>>,
  <<<<1, 0, 0, 3>>, 9563>>,
  <<<<1, 0, 1, 0>>, 9474>>,
  <<<<1, 0, 1, 1>>, 9508>>,
  <<<<1, 0, 1, 2>>, 9509>>,
  <<<<1, 0, 1, 3>>, 9569>>,
  <<<<1, 0, 2, 0>>, 9597>>,
  <<<<1, 0, 2, 1>>, 9511>>,
  <<<<1, 0, 2, 2>>, 9514>>,
  <<<<1, 1, 0, 0>>, 9492>>,
  <<<<1, 1, 0, 1>>, 9524>>,
  <<<<1, 1, 0, 2>>, 9525>>,
  <<<<1, 1, 1, 0>>, 9500>>,
  <<<<1, 1, 1, 1>>, 9532>>,
  <<<<1, 1, 1, 2>>, 9533>>,
  <<<<1, 1, 2, 0>>, 9503>>,
  <<<<1, 1, 2, 1>>, 9537>>,
  <<<<1, 1, 2, 2>>, 9541>>,
  <<<<1, 2, 0, 0>>, 9493>>,
  <<<<1, 2, 0, 1>>, 9526>>,
  <<<<1, 2, 0, 2>>, 9527>>,
  <<<<1, 2, 1, 0>>, 9501>>,
  <<<<1, 2, 1, 1>>, 9534>>,
  <<<<1, 2, 1, 2>>, 9535>>,
  <<<<1, 2, 2, 0>>, 9506>>,
  <<<<1, 2, 2, 1>>, 9542>>,
  <<<<1, 2, 2, 2>>, 9544>>,
  <<<<1, 3, 0, 0>>, 9560>>,
  <<<<1, 3, 0, 3>>, 9575>>,
  <<<<1, 3, 1, 0>>, 9566>>,
  <<<<1, 3, 1, 3>>, 9578>>,
  <<<<2, 0, 0, 0>>, 9593>>,
  <<<<2, 0, 0, 1>>, 9498>>,
  <<<<2, 0, 0, 2>>, 9499>>,
  <<<<2, 0, 1, 0>>, 9599>>,
  <<<<2, 0, 1, 1>>, 9510>>,
  <<<<2, 0, 1, 2>>, 9513>>,
  <<<<2, 0, 2, 0>>, 9475>>,
  <<<<2, 0, 2, 1>>, 9512>>,
  <<<<2, 0, 2, 2>>, 9515>>,
  <<<<2, 1, 0, 0>>, 9494>>,
  <<<<2, 1, 0, 1>>, 9528>>,
  <<<<2, 1, 0, 2>>, 9529>>,
  <<<<2, 1, 1, 0>>, 9502>>,
  <<<<2, 1, 1, 1>>, 9536>>,
  <<<<2, 1, 1, 2>>, 9539>>,
  <<<<2, 1, 2, 0>>, 9504>>,
  <<<<2, 1, 2, 1>>, 9538>>,
  <<<<2, 1, 2, 2>>, 9545>>,
  <<<<2, 2, 0, 0>>, 9495>>,
  <<<<2, 2, 0, 1>>, 9530>>,
  <<<<2, 2, 0, 2>>, 9531>>,
  <<<<2, 2, 1, 0>>, 9505>>,
  <<<<2, 2, 1, 1>>, 9540>>,
  <<<<2, 2, 1, 2>>, 9543>>,
  <<<<2, 2, 2, 0>>, 9507>>,
  <<<<2, 2, 2, 1>>, 9546>>,
  <<<<2, 2, 2, 2>>, 9547>>,
  <<<<3, 0, 0, 1>>, 9564>>,
  <<<<3, 0, 0, 3>>, 9565>>,
  <<<<3, 0, 3, 0>>, 9553>>,
  <<<<3, 0, 3, 1>>, 9570>>,
  <<<<3, 0, 3, 3>>, 9571>>,
  <<<<3, 1, 0, 0>>, 9561>>,
  <<<<3, 1, 0, 1>>, 9576>>,
  <<<<3, 1, 3, 0>>, 9567>>,
  <<<<3, 1, 3, 1>>, 9579>>,
  <<<<3, 3, 0, 0>>, 9562>>,
  <<<<3, 3, 0, 3>>, 9577>>,
  <<<<3, 3, 3, 0>>, 9568>>,
  <<<<3, 3, 3, 3>>, 9580>>
>>
GlyphFun == TLCEval([q \in {GlyphTable[k][1] : k \in 1..Len(GlyphTable)} |->
                        GlyphTable[CHOOSE k \in 1..Len(GlyphTable) : GlyphTable[k][1] = q][2]])
Glyph(q) == IF q \in DOMAIN GlyphFun THEN GlyphFun[q] ELSE 0
=============================================================================
