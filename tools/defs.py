"""Property texts.  `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from this."""
D = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    D.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(
        files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(observe), hook_needed=None)))


T = "crates/textual/src/"

prop("P04", "Scroll offsets stay in bounds and every scroll gesture moves exactly its amount",
     "In a scrolling pane (a scrollable container, a screen, or a plain container with overflow) both offsets always lie between 0 and content size minus visible size (0 when the content fits), whatever mix of arrow/page/home/end keys, wheel turns (shift or ctrl turns them sideways), scrollbar presses, thumb drags, explicit scroll-to calls, resizes and content or overflow changes occurs. "
     "Each gesture moves the offset by exactly its amount clamped to that range (1 cell for arrows and a pane's wheel, 3 cells for the wheel over a screen or a plain container with overflow, nine tenths of the visible length for a page or a press beside the thumb, thumb drags in proportion), an axis with hidden overflow never moves, and the cells drawn are exactly the content window at the offset. "
     "Scroll bars appear exactly when overflow is scroll, or auto and the content does not fit in what the other bar leaves.",
     ["histories", "configurations"], "all gesture histories over all pane, content, padding, border and scrollbar geometries",
     "Tests scroll a few fixed sizes; they do not reach interleavings of resizes, drags and content changes.",
     [T + "scroll.rs", T + "containers/scrollable.rs", T + "containers/container.rs", T + "widget/screen.rs", T + "scrollbar.rs"],
     [("clamp on every change", T + "scroll.rs"), ("compute_scroll_layout fixpoint", T + "containers/scrollable.rs")],
     ["rendered canvas", "ScrollState fields"])

prop("P05", "A scroll bar shows the window it stands for; presses and drags mean that",
     "The thumb of a scroll bar covers the same part of the bar as the visible window covers of the content, to within an eighth of a cell and never less than one cell, starts at the bar's start for offset 0 and ends at its end for the largest offset, and lies wholly inside the bar for every content size, window and position; the rest of the bar is track, no other cell is touched, and a bar whose content fits shows no thumb. "
     "A press on the thumb grabs it, a press before or after it asks for a page backward or forward, a drag asks for the position whose thumb starts where the grabbed point now is, the wheel asks for one step; colours follow the state (grabbed, hovered, plain), falling back to the next plainer colour given.",
     ["inputs", "histories"], "all bar lengths, thicknesses, directions, content sizes, windows and positions, and all histories of presses, drags, hovers and updates",
     "Tests look at a handful of sizes; eighths of a cell and rounding at both ends only go wrong for particular ratios.",
     [T + "scrollbar.rs", T + "widget/scrollbar.rs", T + "scroll.rs"],
     [("ScrollBarRender::render_vertical / render_horizontal / thumb_bounds", T + "scrollbar.rs"), ("ScrollBar::on_mouse", T + "widget/scrollbar.rs")],
     ["rendered canvas", "ScrollMessage returned"])

prop("P14", "Markup shows its text with exactly the styles and actions of its tags",
     "Parsing markup yields the text with the tags taken out and nothing else changed (a bracket or backslash after a backslash stands for itself); every character carries the attributes of all tags open around it, an inner tag's colours going over an outer one's and flags adding up, and the click action or link target of the innermost tag that sets one. "
     "`[/]` closes the latest open tag, `[/name]` closes the latest open tag with that name and all opened since, a closing tag that matches nothing changes nothing, and tags still open at the end reach to the end. "
     "Every colour notation (names, #rgb, #rrggbb, rgb()) means that colour in the foreground or, after `on`, the background. Malformed markup is reported as an error and never panics, and how the text is later folded into lines does not change what any character carries. "
     "With a link style, clickable text (and only that) is shown in it: its colours, blended over the text's background when translucent, black or white against the background when automatic or not given, its flags added, underlined; the action under the pointer takes the hover colours and flags where given.",
     ["inputs"], "all markup strings: any nesting, any order of closing, any tag words and colours, any Unicode text, any folding width",
     "Tests check a few well-nested examples; overlapping closes, inner and outer colours of the same kind and multi-byte input are not sampled.",
     ["crates/rich/src/parser/markup.rs", "crates/rich/src/parser/tag.rs", "crates/rich/src/color.rs", T + "content.rs"],
     [("Parser::push_style / pop_style_matching", "crates/rich/src/parser/markup.rs"), ("Content::from_markup / render_strips", T + "content.rs")],
     ["strips of Content::from_markup, cell by cell"])

prop("P20", "Fuzzy search finds names with the letters in order and marks those letters",
     "A query matches a name if and only if its characters occur in the name in order (ignoring case unless asked not to); a consecutive occurrence is preferred over a scattered one and the whole name over any part of it, otherwise the highest-scoring way of finding the letters wins, where initial letters of words and consecutive letters score. "
     "The highlighted name shows the name unchanged with exactly the matched non-blank characters marked. A command provider's search returns exactly the commands that match, each with its own action and help and ranked by that score, and its discovery lists exactly the commands meant to be discovered.",
     ["inputs"], "all queries and names over any characters (blanks, punctuation, characters whose case mapping changes their length), and all command lists",
     "Tests try a few query and name pairs; letters near the end of the name and non-ASCII case folding are not sampled.",
     [T + "fuzzy.rs", T + "command.rs"],
     [("FuzzySearch::match_query", T + "fuzzy.rs"), ("SimpleProvider::search / discover", T + "command.rs")],
     ["match score and offsets", "highlighted Content", "hits of the providers"])

prop("P23", "A text box draws its edges, labels and text as configured, links act where drawn",
     "A text widget fills exactly the region it is given and touches nothing outside it, however small the region. Every border edge that exists is drawn with the glyphs, side of the edge and colour of its own kind (the text colour when it has none), and so is the outline, over whatever is there; corners appear where both side edges exist. "
     "A title stands in the top edge and a subtitle in the bottom edge, aligned and coloured as configured and cut with an ellipsis when they do not fit; without that edge but with side edges they take the first or last row between them, and the text moves out of the way. "
     "The text, wrapped or cut to the space that border, padding and line padding leave, is placed by content-align and text-align with the configured colours and attributes; text that is no valid markup is shown verbatim; a hatch fills the blanks. "
     "A box without labels asks for exactly the size its lines of text, line padding, padding and border need, for the configured size where there is one (plus padding and border when sizes count content only), and for a given width for the height of its text wrapped to it. "
     "Exactly the cells showing a link act as it: pressing one hands out its action once, pointing at one gives all its cells the hover look and nothing else, and leaving ends that.",
     ["inputs", "configurations"], "all combinations of border and outline kinds and colours per edge, paddings, titles, alignments, wrap modes, texts with links and regions of any size",
     "Snapshot tests fix a handful of complete boxes; mixed edges, tiny regions, missing edges with titles, and links displaced by any of those are not sampled.",
     [T + "widget/static_widget.rs", T + "render_cache.rs", T + "border_render.rs", T + "border_box.rs", T + "border_chars.rs", T + "content.rs"],
     [("Static::render / align_content / extract_link_regions", T + "widget/static_widget.rs"), ("RenderCache::render_line / apply_outline", T + "render_cache.rs"), ("render_label_in_row", T + "border_render.rs"), ("get_box", T + "border_box.rs")],
     ["rendered canvas", "desired size", "pending action", "hovered link"])

prop("P17", "A container sized by its content gets exactly what its children need",
     "A container (plain, vertical, horizontal or scrollable, nested to any depth) whose width or height is left to its content asks for exactly the space of its children that are shown: along its direction one after the other, facing margins collapsed to the larger and the outer margins kept; across it the widest or tallest child with its margins; plus one cell per border edge that exists and the padding. An empty one asks for border and padding only. "
     "If a child wants all there is, so does the container; a size in cells is asked for as it stands, a relative one means all there is. Center and Middle ask for what their child does, nothing while it is hidden. Hiding, showing, resizing or restyling a child changes the answer accordingly, at once. "
     "Given that size, every shown child is drawn in full at its place, hidden ones not at all, and what follows the container starts right after it.",
     ["inputs", "configurations", "histories"], "all trees of containers and leaves with any sizes, margins, borders and paddings, and all histories of changes to them",
     "Tests size one container with a couple of children; nesting, single edges, first and last margins and large contents are not sampled.",
     [T + "containers/container.rs", T + "containers/scrollable.rs", T + "containers/*.rs", T + "containers.rs", T + "layouts/*.rs", T + "render_cache.rs"],
     [("Container::calculate_intrinsic_size / desired_size", T + "containers/container.rs"), ("ScrollableContainer::calculate_intrinsic_size", T + "containers/scrollable.rs"), ("Center / Middle::desired_size", T + "containers.rs")],
     ["desired size of every widget", "drawn canvas"])

prop("P06", "The palette lists the current query's results and runs what is highlighted",
     "Whatever the order in which the user types, moves, chooses, closes and reopens and in which providers answer and timers run out, the palette only ever lists results of one search, best score first and in order of arrival among equals, and once every provider has answered for the current query exactly what they found for it; answers to an earlier query, to an earlier opening or of replaced providers never appear. "
     "Enter or a click runs exactly the highlighted command (at once, or after its name was put into the input and submitted), nothing else ever runs, and closing, running and highlighting are announced as they happen. "
     "Providers are started when the palette opens, asked once per query (trimmed; to discover when it is blank) and shut down when it closes; after half a second without all answers the palette is shown as busy until the last one, and half a second after finding nothing for a query it says so. The focus to restore is handed out once, after closing.",
     ["schedules", "histories"], "all interleavings of keys, clicks, opening, closing, provider changes, provider answers in any order, timer expiry and update processing",
     "Tests use one immediate provider and no timers; answers that cross a close, a choice or a new query only go wrong in particular interleavings.",
     [T + "widget/command_palette.rs", T + "command.rs", T + "widget/option_list.rs"],
     [("start_search / cancel_search / apply_update", T + "widget/command_palette.rs"), ("submit / activate_selected", T + "widget/command_palette.rs")],
     ["rendered palette (rows, highlight, busy indicator, query)", "events, pending action", "calls received by the providers"])

prop("P10", "Canvas drawing: clip stack, whole graphemes, blending, nothing else touched",
     "A grapheme is drawn if and only if all of its cells lie inside the canvas and inside the intersection of all pushed clip regions; every cell outside it keeps its contents, except that overwriting one half of a two-cell grapheme blanks its other half, so no half grapheme is ever left. "
     "Text advances by display width whether or not a grapheme was clipped, popping restores the enclosing clip, clearing blanks everything and drops all clips. "
     "A missing or fully transparent background keeps the background underneath, a translucent one is blended over it, and a plain translucent blank tints without erasing the text below.",
     ["histories", "inputs"], "all sequences of draw, strip, clip push/pop and clear calls with any coordinates, text, styles and canvas sizes",
     "Tests draw single strings at fixed places; overlaps of wide graphemes with clip edges and with each other are not sampled.",
     [T + "canvas.rs"], [("put_grapheme bounds and clip test", T + "canvas.rs"), ("push_clip intersection", T + "canvas.rs")],
     ["Canvas::cell_at"])

prop("P11", "After every flush the terminal shows exactly the canvas",
     "After each flush a standards-following terminal displays exactly the graphemes, colours and attributes of the canvas cells, whatever it displayed before the first flush or before an invalidation, and whatever frames were flushed in between. "
     "In particular the incremental flush never leaves stale cells, never leaks colours or attributes from one cell to another and never depends on pen state left by earlier output.",
     ["histories", "inputs"], "all sequences of frames (clear, draw, flush) and invalidations",
     "No test interprets the emitted escape sequences; existing tests look at the in-memory cells.",
     [T + "canvas.rs"], [("flush_full / flush_diff / emit_cell", T + "canvas.rs")], ["bytes written to stdout by Canvas::flush"])

prop("P12", "Strip operations preserve cells, styles and exact widths",
     "Cropping a strip to a cell range, dividing it at cut points, adjusting its length, joining strips, simplifying, aligning, justifying, hiding, fading, tinting, splitting and restyling it yield exactly the corresponding cells of the original with their graphemes, styles and metadata; fading mixes the text colour with the background behind it and tinting mixes every colour set with the tint, in the proportion asked; widths are exactly those requested, a two-cell grapheme cut in half becomes blank cells and padding uses the requested style. "
     "The reported cell length always equals the sum of the display widths.",
     ["inputs", "programs"], "all strips over narrow, wide, combining and joined graphemes with any segmentation, and all compositions of operations",
     "Tests use ASCII and a few wide characters at fixed cuts; they do not cover all cut points, segmentations and compositions.",
     [T + "strip.rs", T + "segment.rs"], [("Strip::crop/divide/adjust_cell_length/join/simplify/text_align", T + "strip.rs")],
     ["Strip::segments"])

prop("P13", "Text layout: wrap, fold, clip and ellipsis keep every line within the width",
     "Laying text out to a width yields lines none of which is wider than the width (a two-cell grapheme in a one-cell width being the only exception), each grapheme keeping its own style, in order; explicit line breaks always start a new line. "
     "With wrapping, lines that fit are kept verbatim, longer ones are filled greedily with whole words, only the blanks at a break are dropped, and a word is split only if it is itself wider than the width. "
     "Without wrapping a long line is folded without loss, clipped to the width, or clipped and ended with an ellipsis, as asked.",
     ["inputs"], "all texts over narrow, wide and combining graphemes, blanks and line breaks, all style runs, widths and overflow modes",
     "Tests wrap a handful of English strings; wide graphemes at the edge, blank runs and style runs are not enumerated.",
     [T + "content.rs"], [("Content::wrap / fold / truncate", T + "content.rs")], ["lines produced from Content"])

prop("P15", "Input editing behaves as an ideal grapheme editor",
     "Under every sequence of typed characters, backspace, delete, left/right/home/end, value and cursor replacement, focus, disabled and placeholder changes the text field equals the ideal editor working on whole graphemes: the cursor stays between 0 and the grapheme count, typing inserts at the cursor, backspace and delete remove exactly one grapheme, movement never changes the text, and a disabled field ignores keys. "
     "The field shows the text verbatim (markup characters included) or, when empty, its placeholder, with exactly the grapheme under the cursor highlighted while focused.",
     ["histories", "inputs"], "all editing histories including combining marks that merge with neighbouring graphemes",
     "Tests apply a few keystrokes to ASCII values; long histories mixing unicode, cursor jumps and value replacement are not sampled.",
     [T + "widget/input.rs", T + "grapheme.rs"], [("insert_char/backspace/delete/on_event", T + "widget/input.rs")], ["Input value, cursor, rendered row"])

prop("P09", "Vertical, horizontal and grid layouts place every child where its sizes say",
     "Children of a vertical or horizontal layout follow one another without overlap, separated by the larger of the two facing margins; cells are taken literally, percentages (of the same axis, or in w and h of a named one) refer to the parent, vw/vh to the screen, auto to the content, min/max sizes clamp the result, and children without a size of their own fill the cross axis inside their margins. "
     "Fractional (fr) children share exactly what the others and the margins leave, in proportion to their fractions and to within one cell, so that the container is filled exactly. "
     "In a grid every child takes the next free cells (spans included, cut at the edge) in document order and stays inside them less its margin, tracks in cells, percent, fr or auto plus gutters make up the columns and rows, and rows are added as needed when their number is not given.",
     ["inputs", "configurations"], "all lists of children with any mix of sizes, margins, limits, spans and content, all track lists, gutters and parent rectangles",
     "Tests fix a few lists of children with round numbers; rounding, clamping, collapsing and spanning interact only in combinations nobody wrote down.",
     [T + "layouts/vertical.rs", T + "layouts/horizontal.rs", T + "layouts/grid.rs", T + "layouts/mod.rs"],
     [("VerticalLayout::arrange", T + "layouts/vertical.rs"), ("HorizontalLayout::arrange", T + "layouts/horizontal.rs"), ("GridLayout::arrange", T + "layouts/grid.rs")],
     ["WidgetPlacement list returned by the layout"])

prop("P22", "Docking, layers, alignment, offsets and absolute children arrange independently",
     "A docked widget lies along its whole edge of the region at its desired thickness, and what remains for the other children shrinks on each side by the thickest widget docked there (never below nothing). "
     "Alignment moves all undocked children together so that their bounding box, margins included, is at the start, centre or end of the remaining space and never before its start; an offset (cells, percent of the widget's own size, vw or vh) shifts only the widget that has it; an absolute child sits at the content origin with its own size and affects nobody. "
     "Each layer is arranged over the whole region as if alone, and layers stack with undeclared ones below in order of first appearance and declared ones above in declared order.",
     ["inputs", "configurations"], "all lists of children over any docks, layers, positions, offsets and alignments, and all regions",
     "Tests check one feature at a time on one region; combinations and degenerate sizes are not sampled.",
     [T + "layouts/mod.rs"], [("arrange_children_with_layers / dock / align / offset", T + "layouts/mod.rs")],
     ["WidgetPlacement list returned by arrange_children_with_layers"])

prop("P16", "Each widget is drawn where layout puts it and gets the mouse events at its cells",
     "In any tree of containers, scrolling containers, grids, Center/Middle and screens, a child is drawn exactly at the place the layout gives it inside its parent's border and padding, shifted by the parent's scroll offset, cut at the content areas of all its ancestors, later and upper-layer widgets over earlier ones, scrollbars over content; a child that is invisible or not displayed is not drawn. "
     "A mouse event at a cell is delivered to exactly the topmost child placed at that cell and visible there, with coordinates from which that child finds the right local position, and the message it returns is reported as coming from that child; cells of borders, padding, scrollbars and gaps deliver to no child. "
     "This holds at every moment: after moves, restyling, showing and hiding, and after wheel turns, which scroll only the outermost scrollable container under the pointer.",
     ["histories", "configurations"], "all trees of containers up to depth 3 over all layouts, chrome, overflow settings and scroll bars, and all histories of moves, restyles and wheel turns",
     "Tests look at single containers and mostly at either drawing or hit testing, never at both on the same tree after a history.",
     [T + "containers/container.rs", T + "containers/scrollable.rs", T + "containers/grid.rs", T + "containers/item_grid.rs", T + "containers.rs", T + "widget/screen.rs", T + "render_cache.rs"],
     [("render with clip stack", T + "containers/container.rs"), ("on_mouse_with_sender over the rendered geometry", T + "containers/container.rs"), ("topmost_placement_at", T + "layouts/mod.rs")],
     ["Canvas cells", "result of on_mouse_with_sender", "what the leaf received"])

prop("P01", "Focus: one focused widget, moved in document order over the usable ones",
     "A widget can hold the focus exactly when it is of a focusable kind, enabled, and it and all its ancestors below the root are shown (visible and not display:none). "
     "Whatever sequence of forward and backward moves, moves by index or by id, and of hiding, showing, disabling and enabling widgets anywhere in the tree, at most one widget reports being focused and it is the one keys are sent to; moving forward goes to the next usable widget in document order after the current position (wrapping to the first), backward to the last one before it (wrapping to the last), also when the focused widget itself has meanwhile become unusable. "
     "By index k goes to the k-th usable widget and refuses an index out of range; by id goes to the first usable widget with that id, and without one changes nothing; with no usable widget nothing is focused.",
     ["histories", "configurations"], "all trees of the library's containers and widgets and all histories of focus moves and attribute changes",
     "Tests focus fixed small trees; they do not interleave hiding or disabling with moves, which is where the cached focus path goes stale.",
     [T + "tree.rs", T + "containers/container.rs", T + "containers/scrollable.rs", T + "containers/grid.rs", T + "containers/item_grid.rs", T + "containers.rs", T + "widget/screen.rs", T + "widget/app_widget.rs", T + "lib.rs"],
     [("focus path cache", T + "tree.rs"), ("count_focusable / focus_nth / clear_focus", T + "containers/*.rs")],
     ["is_focused of every widget", "focus path", "returned index"])

prop("P02", "Keys go to the focused widget only; messages bubble through its ancestors",
     "A key reaches the focused widget and no other. The message it produces, if any, is offered to the ancestors of that widget one by one, nearest first, each exactly once and nobody else; an ancestor that returns a message replaces it for everyone above, an ancestor that stops it ends the journey, and the sender's id and type stay those of the producing widget throughout. "
     "The library's own containers neither swallow, alter nor duplicate passing messages.",
     ["histories", "configurations"], "all trees of the library's containers with custom relays that pass, change or stop messages, and all focus histories",
     "Tests bubble through one fixed chain; other containers, nested wrappers and stale paths are not sampled.",
     [T + "tree.rs", T + "message.rs", T + "containers/*.rs", T + "widget/screen.rs", T + "widget/app_widget.rs", T + "widget.rs"],
     [("bubble_message over the focus path", T + "tree.rs"), ("dispatch_key", T + "tree.rs")],
     ["log of custom widgets", "final envelope"])

prop("P18", "Queries find and change exactly the matching widgets, in document order",
     "A selector 'Type', '#id' or 'Type#id' (surrounding blanks ignored; empty matches nothing) matches a widget exactly when its type name and its id are as given, anywhere in the tree, hidden or not. "
     "query_one, with_widget_by_id/by_type and first yield the first match in document order, last the last one, for_each and count all of them once, each restricted by the filter; query_one_as the first match of the requested concrete type. "
     "Bulk add/remove/toggle of a class, set_visible and set_disabled change exactly the matching widgets of kinds that have the attribute (adding twice is adding once), and nothing else.",
     ["inputs", "configurations"], "all trees with repeated ids, all selectors, filters and sequences of bulk operations",
     "Tests query a handful of flat trees; boxed and wrapping widgets and repeated operations are not sampled.",
     [T + "tree.rs", T + "widget.rs", T + "macros.rs", T + "widget/static_widget.rs", T + "containers/*.rs"],
     [("SimpleSelector::matches and tree walks", T + "tree.rs"), ("Box<dyn Widget> and delegation macro forwarding", T + "widget.rs, macros.rs")],
     ["identity of the widgets handed to the closures", "classes, visibility, disabled of every widget"])

C = "crates/tcss/src/"
prop("P07", "The cascade: the most specific, then latest, matching declaration wins",
     "A rule applies to a widget exactly when one of its comma-separated selectors matches: every simple part (type or base type, #id, .class, *, :focus/:hover/:active/:disabled, :dark/:light) holds for the widget, '>' asks for the direct parent and a blank for some ancestor, with the choice of ancestors that works if there is one. "
     "Of all applying declarations of a property the one from the rule with the highest specificity wins (ids, then classes and pseudo-classes, then types; a rule counts with its most specific matching selector), among equals the one later in the sheet; shorthands (margin, padding, border, outline, overflow, align, content-align, offset, scrollbar-size, grid-size) set exactly their longhands in CSS order of sides, text styles accumulate, and properties nobody sets keep their initial values. "
     "Theme variables take the value of the theme in force.",
     ["inputs", "configurations"], "all sheets, all widgets with any chain of ancestors and states, both kinds of theme",
     "Tests check single rules or pairs; ties, partial matches, shorthand/longhand order and ancestor choice combine without limit.",
     [C + "parser/cascade.rs", C + "parser/selectors.rs", C + "types/mod.rs"],
     [("compute_style / matches_selector / specificity", C + "parser/cascade.rs"), ("apply_declaration", C + "parser/cascade.rs")],
     ["ComputedStyle returned by compute_style"])

prop("P19", "Stylesheet text means its rules, whatever its spelling; bad text is an error",
     "Any stylesheet written with arbitrary blanks, line breaks, block and line comments, nested rules (with & for the parent selector in any place, or descendant nesting without it), selector lists, stylesheet variables for whole values or parts of them (also defined through other variables), colours in name, #rgb, #rgba, #rrggbb, #rrggbbaa, rgb(), rgba() or percent form, missing last semicolons and unknown properties anywhere is accepted and styles every widget exactly as its plain rules do; nested rules are the flat rules with the parent selector substituted, placed after those of their parent. "
     "Text with an unbalanced brace, a missing selector, a declaration without colon or an invalid value at top level is reported as an error, and no text whatever makes the parser or the cascade crash.",
     ["inputs"], "all spellings of all sheets, and arbitrary character sequences",
     "Tests parse tidy snippets; comments in odd places, chains of variables, deep nesting and garbage are not enumerated.",
     [C + "parser/mod.rs", C + "parser/variables.rs", C + "parser/values.rs", C + "parser/units.rs", C + "parser/flatten.rs", C + "types/color.rs"],
     [("resolve_variables", C + "parser/variables.rs"), ("parse_stylesheet / parse_rule / nesting", C + "parser/mod.rs")],
     ["result of parse_stylesheet", "ComputedStyle under the parsed sheet"])

prop("P08", "After an incremental restyle every widget has its style from scratch",
     "After any changes to classes, states (focus, hover, active, disabled), visibility or inline styles of any widgets, restyling only what is marked dirty gives every widget that is shown exactly the style a full computation gives for the present tree: the cascade for its own and its ancestors' attributes, then the parent's text colour and visibility where its own rules set none, the nearest ancestor's background as the one underneath, and inline colour, background and tint over everything. "
     "Setting an attribute to the value it has changes nothing, and clearing an inline style returns to the cascade.",
     ["histories", "configurations"], "all trees of the library's widgets, all sheets, all histories of attribute changes and restyles",
     "Tests restyle fixed trees from scratch; whether each setter of each widget marks enough dirty is visible only after histories.",
     [T + "style_resolver.rs", T + "widget.rs", T + "macros.rs", T + "widget/*.rs", T + "containers/*.rs", C + "types/mod.rs"],
     [("resolve_dirty_styles", T + "style_resolver.rs"), ("mark_dirty in setters", T + "widget/*.rs, containers/*.rs")],
     ["get_style of every widget after each restyle"])

prop("P03", "Posts, timers and intervals deliver each message once, on time, in order",
     "Messages posted through any application, event or mount context arrive exactly once each, in the order of posting. "
     "A timer delivers its message exactly once, not before its delay has passed and as soon as it has; timers due earlier deliver earlier. "
     "An interval delivers exactly one message per full period since it was set (none at once), in order, until its handle is cancelled or dropped, and none afterwards, however often it is cancelled; other timers are not affected. "
     "Every message carries the sender id and type of the context it was sent through.",
     ["histories", "schedules"], "all histories of posts, timers, intervals, cancellations and passages of time",
     "Tests look at one timer at a time with real sleeps; interleavings of many with cancellation on tick boundaries are not sampled.",
     [T + "context.rs", T + "message.rs"],
     [("set_timer / set_interval tasks", T + "context.rs"), ("IntervalHandle cancel and drop", T + "context.rs")],
     ["messages read from the receiving end of the channel on a paused clock"])

prop("P21", "Buttons, switches, option lists, hover: fire only when pressed and enabled",
     "Under the event loop's handling of pointer and keys: a button (left button) or switch (any button) fires on release exactly when it was pressed, the pointer has not moved freely since (a move drops every press), the release is over it and it is enabled (for a switch: nor loading), a release elsewhere handed to it ending the press; Enter and Space fire the focused one if enabled. "
     "Firing a button yields its action if it has one, else its message, exactly once, under its own id; firing a switch flips its value, which it shows together with its focus, and reports the new value; setting the value or any attribute emits nothing. "
     "An option list moves its highlight over enabled options only, without wrapping, keeps it within its items whatever items or index are set, draws each option literally on its row, and a left release on an enabled option selects and reports that option, in any border or padding; a disabled list ignores keys and clicks. "
     "Moving the pointer leaves hovered exactly the hover-tracking widget under it, whose tooltip is the one found; releasing a header icon after pressing it opens the command palette.",
     ["histories", "configurations"], "all arrangements of such widgets in the library's containers and all histories of pointer events, keys and changes by the application",
     "Tests click once on a lone widget; presses that end elsewhere, attribute changes between press and release, and disabled options combine freely.",
     [T + "widget/button.rs", T + "widget/switch.rs", T + "widget/option_list.rs", T + "widget/header.rs", T + "tree.rs", T + "containers/*.rs"],
     [("on_mouse press/release", T + "widget/button.rs, widget/switch.rs, widget/header.rs"), ("clear_all_hover / collect_pending_actions_mut / find_hovered_tooltip_mut", T + "tree.rs"), ("normalize_selected / move_selection", T + "widget/option_list.rs")],
     ["messages with sender, pending actions, tooltip, get_state, pending selection, drawn rows"])

prop("P24", "A running app: every input reaches the right place and the terminal shows it",
     "While an app runs: Tab and Shift+Tab move the focus to the next/previous widget able to take it, wrapping; every key then goes to the focused widget, the message that yields is heard by the application exactly once under that widget's id and type, then the key handler, then the actions asked for, in that order, and keys typed at once are taken one by one in order. "
     "Pointer events reach the widget under the pointer in its own coordinates; posted and timed messages each arrive once, in order; the application's focus index, a recompose and a focused widget that is hidden or disabled leave the focus where they should (the index; else the first able one); a resize reaches the tree and selects the last breakpoint class whose size is reached. "
     "The tooltip of the hovered widget appears below the pointer, centred, until another pointer event; the palette's key (any alternative of its binding, with exactly its modifiers, Shift and letter case aside) opens it, it then takes keys and clicks, and closing it (Escape, Enter, a click outside) restores the focus and runs the chosen command once. "
     "After each of these the terminal shows exactly the current tree, without another event being needed. On start the terminal is in raw mode on the alternate screen with mouse reporting and no cursor; on quitting (or refusing to start: bad CSS, unusable runtime) all of it is undone.",
     ["histories", "schedules", "configurations"], "all apps of focusable, hideable, disableable widgets and all histories of keys, pointer events, resizes and messages, under each way of running",
     "Tests never run the event loop on a terminal; ordering, redrawing and restoring are visible only there.",
     [T + "lib.rs", T + "canvas.rs", T + "tree.rs", T + "widget/screen.rs", T + "widget/tooltip.rs", T + "widget/command_palette.rs", T + "context.rs"],
     [("App::run_async event loop", T + "lib.rs"), ("focus_next / focus_previous / has_live_focus / dispatch_key", T + "tree.rs"), ("on_resize / breakpoints", T + "widget/screen.rs"), ("run / init_terminal / restore", T + "lib.rs")],
     ["reports of widgets and application, terminal contents, terminal modes, exit"])

prop("P25", "Colours mean what they say, mix linearly, and themes derive from them",
     "Every colour notation (the CSS names, #RGB, #RGBA, #RRGGBB, #RRGGBBAA, rgb(), rgba(), hsl(), hsla() with any hue, auto, transparent; any letter case, padded with blanks) denotes its CSS colour and opacity; unknown names, malformed text and channels out of 0-255 are errors, never a crash. "
     "Blending, tinting and laying one colour over another move each channel linearly by the factor, exactly the endpoints at 0 and 1 and beyond; the contrast colour is white on dark and black on light backgrounds; lighten and darken change the CIE lightness by the amount given (clamped) and keep hue and opacity. "
     "A theme built from base colours defines, for each of them, its seven shades and the text, muted, scrollbar, border, input, button, footer and link variables derived from it, with the documented defaults for colours not given; every built-in theme defines every variable and is dark exactly when its background is.",
     ["inputs", "configurations"], "all colour texts, all colours and factors, all colour systems",
     "Tests check a handful of colours and one or two shades; arithmetic slips, wrong names and boundary factors lie between the samples.",
     [C + "types/color.rs", C + "types/theme.rs"],
     [("RgbaColor::parse and its parts", C + "types/color.rs"), ("blend / tint / blend_over / lighten", C + "types/color.rs"), ("Theme::from_color_system / standard_themes", C + "types/theme.rs")],
     ["RgbaColor values returned by parse and the arithmetic, colours of the themes"])

prop("P26", "Keylines run exactly between children, joined by the right glyphs",
     "A grid with a keyline, whatever its tracks, gutters and spans, lays its children out one cell inside its content area, draws a frame around that area, and a line on each boundary of two neighbouring cells that belong to different children or to none, and on no other; a vertical or horizontal container draws the frame and a line where each child ends. "
     "In every cell the glyph is the box-drawing character whose arms are exactly the lines that meet there, in the keyline's weight (thin, heavy or double) and colour over the children; rectangles drawn over one another join wherever they touch; without keyline, or without children, nothing is drawn, and never anything outside the content area. "
     "The glyph table gives for each combination of arms the Unicode character with those arms, or none.",
     ["inputs", "configurations", "histories"], "all containers, children, spans, gutters, sizes and keyline styles, and all changes between drawings",
     "Tests look at a 2x2 grid of equal cells; spans, hidden children, uneven tracks and the joints they make are not enumerated.",
     [T + "keyline_canvas.rs", T + "box_drawing.rs", T + "containers/grid.rs", T + "containers/container.rs"],
     [("add_grid_with_occupancy / add_widget_box", T + "keyline_canvas.rs"), ("get_box_char", T + "box_drawing.rs"), ("render_keylines", T + "containers/container.rs, containers/grid.rs")],
     ["cells of the canvas after render", "get_box_char"])

prop("P27", "An exported picture (SVG, ANSI, plain text) is the canvas it was taken from",
     "Whatever has been drawn on a canvas, its SVG is well formed and paints exactly it: a view of the canvas's size, behind every cell the cell's background and nothing else, and over it the cell's character (markup characters escaped, wide and combining ones whole) in the cell's colour, weight, slant and lines, once, in its place and unclipped, under any character size configured; only blanks may be left out. "
     "Interpreting the escapes of its ANSI form gives each cell's characters, colours and attributes row by row, with nothing left in force at a line's end; its plain text is its rows without trailing blanks.",
     ["inputs", "configurations"], "all canvases and all character and line sizes",
     "Snapshot tests pin the exported text of a dozen screens, right or wrong; style changes next to wide characters, default-styled text or escapes are not sampled.",
     [T + "svg.rs", T + "canvas.rs"],
     [("write_text / write_backgrounds / escape_xml", T + "svg.rs"), ("to_ansi_snapshot / to_snapshot / row_str", T + "canvas.rs")],
     ["the exported text, parsed", "cells of the canvas"])

prop("P28", "Placeholders, rulers, spinners and headers draw what they state, in their area",
     "A placeholder fills its region with its background - its own, or half of the colour of its turn in a palette of twelve over what lies behind - and centres in its content area, word-wrapped and cut off at that area's edges, its label (or #id, or 'Placeholder'), its size in bold, or filler text; a press inside, and nothing else, leads to the next of these, and it asks for the room its label takes. "
     "A ruler has a tick per cell along its whole edge, every fifth a big one. A loading indicator shows the next of ten frames after each tick, in one cell, while visible, and nothing in an empty region. A header shows its icon at the left and its current title, with a dim dash and subtitle if there is one, in one line centred between the icon and the clock's room, ending in an ellipsis when too long. "
     "All mark themselves for redrawing when what they show changes, and never touch a cell outside their region.",
     ["inputs", "configurations", "histories"], "all labels, titles, sizes and paddings, and all histories of presses, ticks and changes",
     "The tests draw these widgets once with short labels; labels that wrap or overflow, tiny regions and changes between drawings are not sampled.",
     [T + "widget/placeholder.rs", T + "widget/ruler.rs", T + "widget/loading_indicator.rs", T + "widget/header.rs"],
     [("Placeholder::render / on_mouse", T + "widget/placeholder.rs"), ("Ruler::render", T + "widget/ruler.rs"), ("LoadingIndicator::render / tick", T + "widget/loading_indicator.rs"), ("Header::refresh_title", T + "widget/header.rs")],
     ["cells of the canvas after render", "desired_size / intrinsic_height_for_width", "is_dirty"])
