NOTES = {
"P04": """*Specified:* `Scroll.tla` - two axes [offset, content, window], bar flags as least fixpoint, drag state, one action per
gesture. *Checked:* offsets in bounds, hidden axes fixed, over all gestures and reconfigurations of small panes
(MC_Scroll). *Bound:* `scrollstate` drives ScrollState alone; `scroll` drives a ScrollableContainer around a probe whose
every cell encodes its own coordinates, so the visible window is read back from the rendered canvas; the same histories
are played on a Screen and on a plain Container with overflow, whose bars only show. The bars' thumbs, colours and corner
are read back too (`Bar.tla`). A container's horizontal bar and stable gutter are not generated (rows under them cannot be
reached; not claimed). Thumb rounding is
nondeterministic in the specification where floating point may land beside an integer, so acceptance is by
postcondition.""",
"P05": """*Specified:* `Bar.tla` - thumb in eighths of a cell (exact rationals; where binary arithmetic may land beside an
integer both neighbours are allowed), presses, drags, hover and colours of a bar. *Checked:* the thumb lies inside, is
proportional, reaches both ends, moves monotonically, and a drag's position reproduces the thumb (MC_Bar). *Bound:* `bar`
drives ScrollBar widgets and decodes the glyphs drawn (block eighths, reversed colours) back into a thumb interval;
`scroll` (as in P04) does the same with the bars panes draw.""",
"P14": """*Specified:* `Markup.tla` - a machine fed with tokens (text, opening tags as words, metadata tags, closing tags) that
keeps open tags and closed spans. *Checked:* every character looks as the tags open when it was written say, spans nest,
closing only shrinks (MC_Markup, with a shadow recorded on arrival); how a link style is laid over clickable text
(`Linked`, all small combinations). *Bound:* `markup` renders token sequences (and
deliberately malformed ones) to text, parses and folds them with the real code and compares every character's attributes.""",
"P20": """*Specified:* `Fuzzy.tla` - embeddings of a query in a name, their scores in exact fractions, the preferred ones.
*Checked:* found iff embeddable, soundness, exact names best, narrowing while typing (MC_Fuzzy, all names and queries over
a small alphabet). *Bound:* `fuzzy` runs FuzzySearch, highlighting and the command providers on generated names, with
characters described to the specification by their case-folded identity, word and blank class.""",
"P23": """*Specified:* `Box.tla` - the picture of a text box cell by cell (edge glyph and zone tables, labels, text laid out with
`Wrap.tla` and `Strip.tla`, outline, hatch) and the link under the pointer. *Checked:* the picture fills its region exactly
and never splits a wide glyph, hovering changes no glyph and no link, text never lies on an edge, titles that fit are shown
in full, and a box given the size it asks for shows all of its text (MC_Box: every combination of edges, labels and small
sizes). *Bound:* `box` gives the real Static generated styles,
labels and texts, draws it at various places on a painted canvas and compares every cell of the canvas; then presses every
cell and compares the action handed out; compares the size it asks for; then random moves, presses and redraws. Left open: whether an ellipsis acts as the
link it cuts, links under an outline, automatic contrast of links without a colour, the colour of text in a hatched box.""",
"P17": """*Specified:* `Sizes.tla` - trees of leaves and containers, the size each asks for and where the leaves lie when the root gets it.
*Checked:* given what it asks for a container holds its children with their margins exactly, without overlap and with nothing left over;
hiding never makes it larger; it asks for everything exactly when something in it does (MC_Sizes: all trees of a fixed shape with
small sizes, margins and edges). *Bound:* `sizes` builds real nested containers of all kinds over leaves of given size, changes
sizes, styles and visibility at random and compares the size asked for by every widget of the tree and, where everything is sized
by content, the drawn place and extent of every leaf. Not claimed: docked, absolute or offset children, grid layout, min/max sizes,
text wrapped inside an auto-height container.""",
"P06": """*Specified:* `Palette.tla` - query, entries, providers' searches in flight, the channel of updates, both timers, choice and
running. *Checked:* no mixing of searches, all results shown once heard, busy only while answers are missing, only what
was highlighted or chosen runs, announcements match (MC_Palette, all interleavings to 7/9 steps). *Bound:* `palette`
drives the real widget on a paused tokio clock with providers that answer when told, renders it with its default style
sheet after every step and reads rows, query and busy indicator off the canvas. Whether partial results are flushed
before 250 ms of real time have passed is left open; after them it is demanded (the driver sleeps in some histories).""",
"P10": """*Specified:* `Canvas.tla` - cells, clip stack, put/strip/push/pop/clear. *Checked:* wide glyphs are whole, clips nest,
nothing outside the clip changes (MC_Canvas). *Bound:* `canvas` records the complete grid after every operation.""",
"P11": """*Specified:* the terminal half of `Canvas.tla` - an automaton over cursor moves, SGR and glyphs with deferred wrap.
*Checked:* a flush that repaints exactly the changed cells makes the terminal show the frame (MC_Canvas,
TerminalFollows). *Bound:* `flush` captures the bytes the real flush writes to fd 1, tokenises them, and the
specification's terminal (initially garbage) must end up showing the canvas. Successive frames are often near-copies, so
that single-attribute differences are exercised.""",
"P12": """*Specified:* `Strip.tla`, operations on cell rows. *Checked:* no half glyphs (MC_Strip). *Bound:* `strip` runs chains of real
operations and projects the result to cells.""",
"P13": """*Specified:* `Wrap.tla`, the line layout function. *Checked:* widths, ink preservation, verbatim lines over all short texts
(MC_Wrap). *Bound:* `wrap` lays out exhaustive short and random long texts with the real Content/Static code.""",
"P15": """*Specified:* `Input.tla` over `Graphemes.tla`. *Checked:* cursor range and boundary, one edit per key (MC_Input). *Bound:*
`input` replays every key sequence up to a depth and long random sessions; value, cursor and rendered row are compared.""",
"P09": """*Specified:* `Layout.tla` - Vertical, Horizontal and Grid as functions from children and region to rectangles, with exact
rational arithmetic. *Checked:* no overlap, non-negative sizes, everybody placed, exact fill, fair shares, alignment
stays inside (MC_Layout, children added one by one). *Bound:* `flow` builds random children/parents (sizes in all units,
margins, limits, spans, tracks), calls the real layouts and compares every rectangle.""",
"P22": """*Specified:* the second half of `Layout.tla` - Content (docks), Align, offsets, absolute children, layer order. *Checked:*
MC_Layout, as for P09. *Bound:* `arrange` calls arrange_children_with_layers on random children and compares the ordered
list of rectangles.""",
"P16": """*Specified:* `Hit.tla` on top of `Layout.tla` - Geometry (inner area, bars, content area), Paint (drawing list with clips),
Settle (offsets after drawing), Turn (who takes a wheel turn), Cell (who shows at / is hit at a cell). *Checked:* offsets
settled, nothing shown outside content areas, local coordinates consistent, one container scrolls per turn (MC_Hit).
*Bound:* `hit` builds real trees of Container, ScrollableContainer, Grid, ItemGrid, Center, Middle and Screen around
probes that paint their own local coordinates, and after each move, restyle or wheel turn records for every screen cell
what is drawn and who receives a click. Two-axis scrolling of one container is not generated here (P04 covers it).""",
"P01": """*Specified:* `Tree.tla` - nodes in document order with attributes, the set of usable widgets, next/previous/index/id moves
and the event loop's settle rule. *Checked:* at most one focus, moves land on usable widgets, a round of forward moves
visits every usable widget once and backward undoes forward, for every tree of up to 4 (5) nodes and every history
(MC_Tree, state space exhausted). *Bound:* `focus` builds random trees from all real containers and widgets (also boxed
twice) and custom ones, and compares visible/display/disabled, focused flags, focus path, count and returned index after
every operation.""",
"P02": """*Specified:* `Tree.tla`, Bubble. *Checked:* a message meets only ancestors, nearest first, nothing beyond a stop (MC_Tree,
Rises). *Bound:* `bubble` interleaves focus histories with keys; custom relays log what they see, with sender.""",
"P18": """*Specified:* `Tree.tla`, Match/Filtered and the bulk actions. *Checked:* MC_Tree, Queries. *Bound:* `query` runs every query entry
point on random trees; widgets handed to closures are identified by address; attributes of all widgets are compared.""",
"P07": """*Specified:* `Css.tla` - matching, weights, effect of each declaration, initial values, cascade. *Checked:* the winner is
determined by weight and order alone, nesting equals substitution, incremental equals full restyle over all small sheets
and chains (MC_Css). *Bound:* `cascade` writes random sheets over related chains of ancestors (near misses included),
parses them with the real parser and compares every field of the ComputedStyle. Not claimed: `!important`, sibling
combinators, attribute selectors, lighten/darken suffixes, numeric colour arithmetic, three-value spacing.""",
"P19": """*Specified:* `Css.tla`, FlatAll (nesting) and Cascade; the abstract sheet is the model, the text one of its spellings.
*Bound:* `syntax` prints random nested sheets in random spellings (comments, variables, blanks everywhere), parses them
with the real parser and compares styles; a quarter of the cases are broken in known ways (must be errors) or mutated at
random (must not crash). Not claimed: redefinition of a variable, errors inside nested rules.""",
"P08": """*Specified:* `Css.tla`, Inherit/Inline/Final and the dirty set of MC_Css. *Checked:* Incremental (MC_Css). *Bound:* `restyle` builds
real trees, performs random attribute changes through the widgets' own setters and mouse/key handlers, calls the real
resolve_dirty_styles and compares the style of every shown widget with the specification's full computation.""",
"P03": """*Specified:* `Timers.tla` - sources (posts, timers, intervals) over a virtual clock, the set of messages due. *Checked:* never
early, lost, twice or after cancellation, for all histories within the bounds (MC_Timers, Exact and Monotone). *Bound:*
`timers` runs the real contexts on tokio's paused clock with random histories of up to 24 operations; everything read
from the channel after each one must be exactly what the specification makes due, in order, with the right sender.""",
"P21": """*Specified:* `Widgets.tla` - press/hover/focus/value/selection state of every widget and what each event yields. *Checked:* at most
one hover, presses only where pressed since the last move, selections in range and enabled, nothing from disabled widgets
(MC_Widgets, state space exhausted). *Bound:* `widgets` builds real trees (Container, Vertical, ScrollableContainer, Screen,
boxed widgets, Header), sends the same calls the event loop makes, and compares every widget's state, message, sender,
actions, tooltip, selection and drawn rows after each event. Known gap, not claimed: a press dragged away and released
elsewhere is dropped only by the next free move of the pointer.""",
"P24": """*Specified:* `Loop.tla` - the application loop: focus, counters, hover, tooltip, palette, pending recompose, sizes; each input's
reports in order, and the screen it leaves. *Checked:* the focus rests on a widget able to hold it, nothing stays owed between turns, every message and
action is told exactly once and shown, key order, the palette changes nothing but through its command (MC_Loop). *Bound:* `e2e` runs real
apps (every `run` entry point) as child processes on pseudo terminals: the parent types, points, resizes, and emulates the
terminal; the child's widgets and callbacks report through OSC strings in the same byte stream as the frames, so reports and frames
are totally ordered; the loop's own `should_quit` call marks turns, so a step is judged when the loop has come round, never by a
sleep. Trace_Loop compares the reports, every row of the emulated screen, the tooltip's place, the terminal modes and termios.
Sessions whose loop is not heard of within 20 s are failures (normal: 3 ms). Not claimed: keys when nothing can take the focus;
tooltips pending when a click comes; a tooltip the terminal is too narrow to hold; which of a resize signal and simultaneous
input crossterm 0.27 delivers (it can drop the signal; the driver repeats it).""",
"P25": """*Specified:* `Colour.tla` with `ColourTables.tla` (the CSS names from the CSS standard, sRGB linearisation and CIE lightness of greys,
written by tools/colour_tables.py from the standards, not from the code) - exact rational channel arithmetic, lightness in
thousandths. *Checked:* endpoints, monotone mixing, contrast of at least half the scale, hex and hsl agree on greys and primaries,
lightness inverts (MC_Colour). *Bound:* `colour` parses every CSS name and thousands of random notations and malformed texts, and performs
random arithmetic and theme constructions; exact where binary arithmetic is exact, within one unit elsewhere. Not claimed: theme
variables without a documented derivation.""",
"P26": """*Specified:* `Keyline.tla` over `Layout.tla` (the tracks and children of P22) and `BoxGlyphs.tla` (the meaning of every box-drawing
character, from its Unicode name, written by tools/box_tables.py) - a line is a set of edges between cell centres, a glyph is the
edges that meet in its cell. *Checked:* frame closed, lines between two joints unbroken, no line through a child's span, each pair of
owners separated exactly once (MC_Keyline). *Bound:* `keyline` renders real grids, rows and columns of probe leaves through histories of size, gutter,
padding, weight and visibility changes; every cell of the canvas is compared. Not claimed: content areas under three cells,
tracks that overflow the area (only: nothing is drawn outside), alignment with keylines, mixed weights Unicode has no glyph for.""",
"P27": """*Specified:* `Export.tla` - a painter for each form: SVG elements on cells, a terminal line for the ANSI form. *Checked:* a run-cutting
exporter (style runs, background runs, attribute codes) paints back every row over the alphabet, with maximal runs (MC_Export). *Bound:* `export` draws
random text (markup characters, wide, combining, all attributes, clips) on real canvases, exports them under random configurations, parses
the result strictly (balanced elements, escapes, whole cell positions) and the specification paints it. Not claimed: dim and reverse in
SVG (it has no form for them here), the colour of text without one, title and chrome (not drawn; pinned by snapshots).""",
"P28": """*Specified:* `Ready.tla` - a picture (region cells to characters) as a function of each widget's state, greedy word wrapping,
the presses, ticks and title changes that move it. *Checked:* padding kept free, no half characters, nothing lost or out of order in wrapping, greedy
and never too wide, centred where it fits, the cycles, tick counts (MC_Ready). *Bound:* `ready` drives real widgets through histories, draws them at random places and
sizes on a marked canvas and compares every cell. Not claimed: filler text where the content area has no room for its margin
(only: nothing outside), what the size and filler variants ask for, header titles that are markup.""",
}
