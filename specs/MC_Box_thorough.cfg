SPECIFICATION Spec
CONSTANTS Ws = {1, 3, 7}
 Hs = {1, 4}
 Kinds = {"none", "wide", "vkey"}
 Texts = {"two"}
 Aligns = {"center"}
 Pads = {"left"}
 Labels = {"none", "wide"}
 Os = {FALSE, TRUE}
 Vas = {"top", "middle"}
 Tas = {"justify"}
INVARIANTS Exact HoverKeepsShape EdgesClear Known TitleShown ShowsAll ShowsAllIn
CHECK_DEADLOCK FALSE
