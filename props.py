PROPS = {
    "P28": dict(
        models=[dict(module="MC_Ready", quick="MC_Ready.cfg", thorough="MC_Ready_thorough.cfg")],
        traces=[dict(gen="ready", module="Trace_Ready", cfg="Trace_Ready.cfg")],
    ),
    "P26": dict(
        models=[dict(module="MC_Keyline", quick="MC_Keyline.cfg", thorough="MC_Keyline_thorough.cfg")],
        traces=[dict(gen="keyline", module="Trace_Keyline", cfg="Trace_Keyline.cfg")],
    ),
    "P27": dict(
        models=[dict(module="MC_Export", quick="MC_Export.cfg", thorough="MC_Export_thorough.cfg")],
        traces=[dict(gen="export", module="Trace_Export", cfg="Trace_Export.cfg")],
    ),
    "P25": dict(
        models=[dict(module="MC_Colour", quick="MC_Colour.cfg", thorough="MC_Colour_thorough.cfg")],
        traces=[dict(gen="colour", module="Trace_Colour", cfg="Trace_Colour.cfg")],
    ),
    "P17": dict(
        models=[dict(module="MC_Sizes", quick="MC_Sizes.cfg", thorough="MC_Sizes_thorough.cfg")],
        traces=[dict(gen="sizes", module="Trace_Sizes", cfg="Trace_Sizes.cfg")],
    ),
    "P24": dict(
        models=[dict(module="MC_Loop", quick="MC_Loop.cfg", thorough="MC_Loop_thorough.cfg")],
        traces=[dict(gen="e2e", module="Trace_Loop", cfg="Trace_Loop.cfg")],
    ),
    "P21": dict(
        models=[dict(module="MC_Widgets", quick="MC_Widgets.cfg", thorough="MC_Widgets_thorough.cfg")],
        traces=[dict(gen="widgets", module="Trace_Widgets", cfg="Trace_Widgets.cfg")],
    ),
    "P03": dict(
        models=[dict(module="MC_Timers", quick="MC_Timers.cfg", thorough="MC_Timers_thorough.cfg")],
        traces=[dict(gen="timers", module="Trace_Timers", cfg="Trace_Timers.cfg")],
    ),
    "P08": dict(
        models=[dict(module="MC_Css", quick="MC_Css.cfg", thorough="MC_Css_thorough.cfg")],
        traces=[dict(gen="restyle", module="Trace_Restyle", cfg="Trace_Restyle.cfg")],
    ),
    "P07": dict(
        models=[dict(module="MC_Css", quick="MC_Css.cfg", thorough="MC_Css_thorough.cfg")],
        traces=[dict(gen="cascade", module="Trace_Css", cfg="Trace_Css.cfg")],
    ),
    "P19": dict(
        models=[dict(module="MC_Css", quick="MC_Css.cfg", thorough="MC_Css_thorough.cfg")],
        traces=[dict(gen="syntax", module="Trace_Css", cfg="Trace_Css.cfg")],
    ),
    "P18": dict(
        models=[dict(module="MC_Tree", quick="MC_Tree.cfg", thorough="MC_Tree_thorough.cfg")],
        traces=[dict(gen="query", module="Trace_Tree", cfg="Trace_Tree.cfg")],
    ),
    "P02": dict(
        models=[dict(module="MC_Tree", quick="MC_Tree.cfg", thorough="MC_Tree_thorough.cfg")],
        traces=[dict(gen="bubble", module="Trace_Tree", cfg="Trace_Tree.cfg")],
    ),
    "P01": dict(
        models=[dict(module="MC_Tree", quick="MC_Tree.cfg", thorough="MC_Tree_thorough.cfg")],
        traces=[dict(gen="focus", module="Trace_Tree", cfg="Trace_Tree.cfg")],
    ),
    "P14": dict(
        models=[dict(module="MC_Markup", quick="MC_Markup.cfg", thorough="MC_Markup_thorough.cfg")],
        traces=[dict(gen="markup", module="Trace_Markup", cfg="Trace_Markup.cfg")],
    ),
    "P20": dict(
        models=[dict(module="MC_Fuzzy", quick="MC_Fuzzy.cfg", thorough="MC_Fuzzy_thorough.cfg")],
        traces=[dict(gen="fuzzy", module="Trace_Fuzzy", cfg="Trace_Fuzzy.cfg")],
    ),
    "P06": dict(
        models=[dict(module="MC_Palette", quick="MC_Palette.cfg", thorough="MC_Palette_thorough.cfg")],
        traces=[dict(gen="palette", module="Trace_Palette", cfg="Trace_Palette.cfg", nondet=True)],
    ),
    "P23": dict(
        models=[dict(module="MC_Box", quick="MC_Box.cfg", thorough="MC_Box_thorough.cfg")],
        traces=[dict(gen="box", module="Trace_Box", cfg="Trace_Box.cfg")],
    ),
    "P05": dict(
        models=[dict(module="MC_Bar", quick="MC_Bar.cfg", thorough="MC_Bar_thorough.cfg")],
        traces=[dict(gen="bar", module="Trace_Bar", cfg="Trace_Bar.cfg", nondet=True)],
    ),
    "P04": dict(
        models=[dict(module="MC_Scroll", quick="MC_Scroll.cfg", thorough="MC_Scroll_thorough.cfg")],
        traces=[dict(gen="scrollstate", module="Trace_ScrollState", cfg="Trace_ScrollState.cfg"),
                dict(gen="scroll", module="Trace_Scroll", cfg="Trace_Scroll.cfg", nondet=True)],
    ),
    "P09": dict(
        models=[dict(module="MC_Layout", quick="MC_Layout.cfg", thorough="MC_Layout_thorough.cfg")],
        traces=[dict(gen="flow", module="Trace_Layout", cfg="Trace_Layout.cfg")],
    ),
    "P16": dict(
        models=[dict(module="MC_Hit", quick="MC_Hit.cfg", thorough="MC_Hit_thorough.cfg")],
        traces=[dict(gen="hit", module="Trace_Hit", cfg="Trace_Hit.cfg")],
    ),
    "P22": dict(
        models=[dict(module="MC_Layout", quick="MC_Layout.cfg", thorough="MC_Layout_thorough.cfg")],
        traces=[dict(gen="arrange", module="Trace_Layout", cfg="Trace_Layout.cfg")],
    ),
    "P10": dict(
        models=[dict(module="MC_Canvas", quick="MC_Canvas.cfg", thorough="MC_Canvas_thorough.cfg")],
        traces=[dict(gen="canvas", module="Trace_Canvas", cfg="Trace_Canvas.cfg")],
    ),
    "P11": dict(
        models=[dict(module="MC_Canvas", quick="MC_Canvas.cfg", thorough="MC_Canvas_thorough.cfg")],
        traces=[dict(gen="flush", module="Trace_Canvas", cfg="Trace_Canvas.cfg")],
    ),
    "P13": dict(
        models=[dict(module="MC_Wrap", quick="MC_Wrap.cfg", thorough="MC_Wrap_thorough.cfg")],
        traces=[dict(gen="wrap", module="Trace_Wrap", cfg="Trace_Wrap.cfg")],
    ),
    "P12": dict(
        models=[dict(module="MC_Strip", quick="MC_Strip.cfg", thorough="MC_Strip_thorough.cfg")],
        traces=[dict(gen="strip", module="Trace_Strip", cfg="Trace_Strip.cfg")],
    ),
    "P15": dict(
        models=[dict(module="MC_Input", quick="MC_Input.cfg", thorough="MC_Input_thorough.cfg")],
        traces=[dict(gen="input", module="Trace_Input", cfg="Trace_Input.cfg")],
    ),
}
