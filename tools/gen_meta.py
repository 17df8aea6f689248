#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source for both)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "slate/screen.py"
SP = "slate/span.py"
C = "slate/color.py"
CO = "slate/core.py"
T = "slate/terminal.py"


def P(id, title, statement, over, text, why, files, mech, **extra):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    d.update(extra)
    return d


PROPS = [
    P("C01", "After every draw the terminal shows exactly what the screen holds",
      "For every history of writes, bulk writes, clears, resizes, incremental draws and full redraws, interpreting the drawn output on a terminal leaves every cell of the screen showing the character, text styles, foreground and background that the screen holds for it. An incremental draw and a full redraw of the same screen lead to the same display, shifted by the given origin.",
      ["histories", "inputs"], "every sequence of operations on a screen of any size, texts of single-width characters whose pieces start inside the screen, any colours, any draw origin",
      "The number of histories is unbounded and the display depends on everything emitted since the last full redraw; tests compare a few literal output strings.",
      [S], [("incremental rendering", "Screen.render"), ("change registration", "Screen.write_bulk, ChangeBuffer"), ("full redraw", "Screen.render(redraw=True)")]),
    P("C02", "Written text lands on successive cells, wraps at the right edge and is clipped",
      "Each character of a write goes to the next cell to the right of the previous one and continues in the first column of the next row after the last column; a newline goes one row down without using a cell; characters that would land outside the screen, and those that follow them in the same text, are dropped. Cells that are not written keep their character and colours, and when several opaque writes of one bulk write reach the same cell the last one wins.",
      ["inputs", "histories"], "every screen size, start position, number and length of texts, any prior content (pieces of text that start below the last row, which scroll, are excluded)",
      "Placement depends on position, size and length together; tests sample a handful of each.",
      [S, SP], [("cell placement", "Screen.write_bulk"), ("splitting into characters", "Span.get_characters")]),
    P("C03", "Only changed cells are counted and drawn",
      "A write returns the number of cells whose held content it changed, and the next incremental draw emits exactly the cells changed since the previous draw, each once and in row order. Writing the same content again changes nothing and draws nothing, unless overwriting is forced, in which case every written cell is counted and drawn.",
      ["histories", "inputs"], "every prior content and every write, with and without forced overwriting",
      "Whether a cell changed depends on the whole previous history of that cell.",
      [S], [("change detection", "Screen.write_bulk"), ("change collection", "ChangeBuffer.gather, Screen.render")]),
    P("C04", "Resizing keeps the overlapping content and clearing removes all of it",
      "After a resize the screen has exactly the requested width and height, every cell within both sizes keeps its character and colours, and every other cell holds the fill character without colours. Clearing fills every cell with the fill character without colours, keeps the size and moves the cursor to the top-left; after either, the next incremental draw covers every cell of the screen and no cell outside it.",
      ["histories", "inputs"], "every pair of sizes, every content, every fill character, every history before the resize",
      "The relation of old and new size, content and pending changes cannot be enumerated by tests.",
      [S], [("cell matrix rebuild", "Screen.resize"), ("clearing", "Screen.clear")]),
    P("C05", "The screen's cursor follows what is written",
      "After a write the cursor is the position following the last placed character, with wrapping and newlines accounted for, and a write without an explicit position starts there. Writing a text in several consecutive writes without positions gives the same screen and the same cursor as writing it at once.",
      ["histories", "inputs"], "every split of every text into consecutive writes, every start position and screen size (texts that stay on the screen)",
      "Every split of every text is a different history; the tests use one write.",
      [S, T], [("cursor tracking", "Screen.write, Screen.write_bulk"), ("terminal cursor", "Terminal.cursor")]),
    P("C06", "Semi-transparent writes are composited over what lies below them",
      "Within one bulk write, a semi-transparent background laid over already written cells tints their background by its alpha plus 0.1 (at most 1), in the order written (a layer equal to the one directly below it tints only once), and a blank in it lets the character below show through with its foreground tinted the same way, unless the text is marked opaque. A semi-transparent background with nothing below it is blended with the terminal's background the same way, a semi-transparent foreground that no blank was laid over is blended into the resulting background at its own alpha, and a write without transparency hides everything below it.",
      ["inputs", "histories"], "every stack of layers over a cell, every colour and alpha, blank and non-blank characters",
      "The result depends on the order and alpha of all layers over a cell.",
      [S, C], [("layer stack", "Screen.write_bulk"), ("blending", "_get_blended, Color.blend")]),
    P("C07", "Colour blending and shading stay within range and hit their end points",
      "Blending moves every channel from the first colour towards the second by the given fraction, truncated to an integer and clamped to 0-255, so that 0 gives the first colour and 1 the second. Lightening and darkening blend with white and black by the number of shades times the step, the result keeps the layer (foreground or background) it was asked for or else that of the first colour, and neither input is changed.",
      ["inputs"], "every pair of colours, every fraction including those outside 0-1, every shade count and step",
      "256^6 colour pairs times a continuum of fractions.",
      [C], [("blending", "Color.blend, Color.lighten, Color.darken, Color.blend_complement")]),
    P("C08", "A colour is emitted in the terminal's colour space",
      "With true colour a colour's code names its exact channels; with 256 colours it is an index into the 6x6x6 cube with each channel rounded to the nearest level; with 16 colours it is the code of a nearest standard colour by weighted distance; without colour it is the grey of the 24-step ramp nearest to its brightness. Colours given by a code the colour space can show keep that code, and the code always addresses the colour's layer (foreground or background).",
      ["inputs", "configurations"], "every colour, layer, alpha, origin and colour space (the one in effect when the colour is first emitted)",
      "2^24 colours, two layers, four colour spaces.",
      [C, CO], [("code emission", "Color.ansi"), ("distance", "geometric_difference"), ("ordering of colour spaces", "ColorSpace")]),
    P("C09", "Colour descriptions are parsed to the colour they describe, or rejected",
      "Hex strings with and without alpha, channel tuples with and without alpha, palette indices, standard and 256-colour and true-colour codes with an optional alpha suffix, and CSS names give the colour with exactly those channels, alpha and layer. Out-of-range channels and indices, malformed codes and other types are rejected with a ValueError, and the hex text of a colour parses back to the same channels.",
      ["inputs"], "every description of the listed forms and every value outside the ranges",
      "Every channel value, every index and every alpha is a separate input.",
      [C, "slate/color_info.py"], [("description parsing", "color, Color.from_ansi, Color.from_hex"), ("range check", "Color.__post_init__")]),
    P("C10", "Contrast colours are readable on every colour",
      "A colour's luminance follows the sRGB relative luminance formula of its channels, lies in 0-1 and never decreases when a channel increases, and brightness follows it monotonically. The contrast colour is the dark one for colours of luminance above 0.179 and the light one otherwise, is on the layer of the given colour, and with the default light and dark colours always reaches a contrast ratio of at least 3:1 against it.",
      ["inputs"], "every one of the 2^24 colours and every pair of replacement contrast colours",
      "A contrast guarantee for all colours needs the extremes of a nonlinear function.",
      [C], [("luminance", "calculate_luminance"), ("contrast", "calculate_contrast, Color.contrast")]),
    P("C11", "Palettes are hue rotations that keep lightness, saturation and layer",
      "Shifting the hue of a colour keeps its lightness, saturation and layer and adds the amount to the hue modulo one full turn, whatever the amount. The triadic, analogous and tetradic groups start with the colour itself followed by its shifts by thirds, twelfths and quarters of a turn (the tetradic third member being the complement), the complement is half a turn away (white for black, black for colours of hue zero), and every palette colour is a valid colour.",
      ["inputs"], "every colour and every shift amount, including negative ones and those above one turn",
      "Every colour and a continuum of amounts.",
      [C], [("hue shift", "Color.hue_shift"), ("palettes", "calculate_triadic_group, calculate_analogous_group, calculate_tetradic_group, Color.complement")]),
    P("C12", "Deriving a span changes only what was asked for",
      "Every derivation of a span (setting one style, a colour or a link, slicing, indexing, splitting, mutating any attributes) gives a span that has the requested change and otherwise exactly the attributes of the original, and leaves the original unchanged. Spans cannot be modified, a colour goes to the layer it is for, and the text of a slice or part is that slice or part of the text.",
      ["inputs"], "every span (any combination of attributes) and every derivation",
      "2^11 attribute combinations times colours, texts and derivations.",
      [SP], [("derivation", "Span.mutate, Span.as_*"), ("slicing", "Span.__getitem__, Span.split")]),
    P("C13", "A span renders to its text under exactly its styles",
      "The string form of a span is its text preceded by one style sequence naming exactly its enabled styles and colours, followed by a reset exactly when there is such a sequence and resetting is on, wrapped in the hyperlink if it has one. Splitting it into characters gives one item per character of the text in order, with the styles on every character or only the first as asked, without colours when they are excluded, and the reset on the last; length and visual width are the number of characters of the text.",
      ["inputs"], "every combination of styles, colours, links and reset setting, every text",
      "2^11 attribute combinations times texts.",
      [SP, CO], [("sequence generation", "Span._generate_sequences, Span.__post_init__"), ("characters", "Span.get_characters"), ("width", "width")]),
    P("C14", "Styled text parses into the spans that produce it",
      "Parsing a text with style sequences gives spans whose texts are, in order, the plain text between the sequences, each with exactly the styles and colours in effect at that point: setters add a style, their unsetters remove it, colours replace the colour of their layer, default-colour codes remove it, and resets remove everything. Rendering spans and parsing the result gives back the same texts, styles and colours, and an unknown code is rejected with a ValueError.",
      ["inputs", "histories"], "every sequence of plain texts and style codes of any length",
      "The state at each point depends on all codes before it.",
      [SP], [("parsing", "Span.yield_from, Span.first_from, _parse_sequence")]),
    P("C15", "SVG export shows every cell, escaped and in its colours",
      "The exported image holds for every row of the screen its characters in order, escaped so that any text is valid markup and spaces are kept, at the coordinates of their cells. Each run of characters has its cell's colours (exchanged when inverted, the given defaults when it has none) and styles, and characters with different styles or colours are never merged.",
      ["inputs", "histories"], "every screen content, font size, origin and default colours",
      "Every pattern of equal and different neighbouring cells groups differently.",
      [SP, S, T], [("grouping", "Span.group"), ("markup", "Span.as_svg, Span.get_svg_styles"), ("screen export", "Screen.export_svg_with_styles, Terminal.export_svg")]),
    P("C16", "Mouse reports are decoded completely and nothing else is taken for one",
      "Every SGR mouse report of a known event decodes to that event's name with its modifiers and its exact coordinates, with clicks told apart from releases by the final character. Any other text (unknown event numbers, missing or non-numeric fields, wrong framing) decodes to nothing, and no text makes decoding fail.",
      ["inputs"], "every text; every event number, coordinates and final character",
      "Inputs come from the outside and are unbounded.",
      [CO], [("decoding", "parse_mouse_event"), ("event table", "MOUSE_EVENTS, _build_event")]),
    P("C17", "Input is delivered as keys, in order and exactly once",
      "Fed text is returned by the next read in the order fed, before any terminal input, exactly once, and a read otherwise returns all input available at that time in order, including input typed before it, with the terminal delivering input as it is typed rather than by the line, decoded from the stream's encoding. Known sequences compare equal to each of their names and to nothing else, input ending in a mouse report gives its mouse event, an interrupt gives ctrl-c, unknown and raw input is returned unchanged, and a stream that is not a terminal gives an empty key.",
      ["inputs", "histories"], "every sequence of feeds and reads, every input byte sequence, known and unknown sequences",
      "Every interleaving of feeding and reading and every input sequence.",
      [CO, "slate/key_names.py"], [("feeding", "feed, _getch_posix"), ("key naming", "getch, Key")]),
    P("C18", "Terminal modes are restored however a block ends",
      "On leaving the alternate buffer, mouse reporting, echo suppression and batched update blocks, by normal exit or any exception including at the start of the block, the mode set on entry is undone and the exception propagates. Reading a key restores the terminal attributes found before it on every exit path, and a timed read restores the previous alarm handler and cancels the timer.",
      ["fault_sequences", "crash_points"], "every point at which an exception may be raised: on entry, within the block, and by each system call of a read (the calls that undo a mode themselves are assumed to work)",
      "Failures at each point of each block are not exercised by tests.",
      [T, CO], [("context managers", "Terminal.alt_buffer, no_echo, report_mouse, batch"), ("raw input", "_getch_posix"), ("timeout", "timeout, getch_timeout")]),
    P("C19", "The window title is stored once and restored once",
      "For every history of title changes, the original title is stored before the first custom title is set and never again until it has been restored, and it is restored exactly once, when the title is reset or the alternate buffer is left. Each title set is the one sent to the terminal, and resetting without a custom title sends nothing.",
      ["histories"], "every sequence of setting, resetting and entering and leaving the alternate buffer",
      "A property of all histories; tests make one or two calls.",
      [T], [("title handling", "Terminal.set_title, Terminal.alt_buffer")]),
    P("C20", "The colour space is detected and forced correctly",
      "An explicit override in the environment wins over everything, then the no-colour variable, then the terminal's announced capabilities: 24-bit or true colour, 256 colours, otherwise the 16 standard colours; a colour space set on the terminal wins over all of these until it is unset, and listeners are told of each setting. Colour spaces are ordered standard, no colour, 256 colours, true colour, consistently for names and values, and unknown names are rejected.",
      ["configurations", "inputs"], "every combination of environment variables and of forced settings",
      "The combinations of four variables with arbitrary values.",
      [CO, T], [("detection", "get_color_space"), ("ordering", "ColorSpace"), ("forcing", "Terminal.color_space")]),
    P("C21", "Events reach every listener once, in order",
      "Emitting an event calls every listener exactly once in the order added with the given data, and returns true exactly when some listener returned a true value. Listeners can be added in either way and the event is true exactly when it has listeners, clearing removes all of them, a value that cannot be called is refused without changing the event, and an exception of a listener propagates.",
      ["inputs", "histories"], "every number of listeners and every combination of their results, every history of adding and clearing",
      "Every combination of results of every number of listeners.",
      ["slate/event.py"], [("delivery", "Event.__call__"), ("registration", "Event.__iadd__, Event.append, Event.clear")]),
    P("C22", "The terminal object forwards to its screen and its own stream only",
      "Writing to a terminal has the effect of writing the same spans, or the spans parsed from the same text, to its screen with the terminal's background, and drawing writes the screen's rendering at the terminal's origin to its stream, flushes it, and touches no file or other stream; control sequences and the bell reach the stream unchanged. When the reported size differs from the previously reported one, listeners are told exactly once with the new size and the screen is resized to it, keeping its content.",
      ["histories", "inputs"], "every history of writes, draws, size queries and size changes",
      "Every interleaving of size changes with queries and writes.",
      [T], [("forwarding", "Terminal.write, Terminal.write_bulk, Terminal.draw, Terminal.clear"), ("size tracking", "Terminal.size")]),
    P("C23", "What the terminal answers to a query is what is reported",
      "Asking for the default foreground or background colour sends the query for that colour once, before its answer is read and without echo, and gives the colour whose channels are the high bytes of the 16-bit channels of the reply; an answer that names no colour, or a standard input that is no terminal, gives that layer's default, in the latter case without sending anything. The pixel resolution is the width and height the terminal reports, or the fallback when it reports none in time or the stream is no terminal, and synchronised updates are supported exactly when the terminal reports the mode as set (1) or reset (2).",
      ["inputs", "configurations"], "every reply of each form (arbitrary channels and sizes), every answer without a control sequence and a list of other answers, terminals that do not answer in time, streams that are no terminal or closed",
      "The answers of terminals are not available to tests: they run without one.",
      [CO, T], [("palette queries", "get_default_color"), ("cached colours", "Terminal.foreground_color, Terminal.background_color"), ("pixel size", "Terminal.resolution"), ("mode query", "Terminal.supports_synchronized_update")]),
]

TECH = "contract-based deductive verification (pyvc): pre/postconditions and loop invariants on the functions in /repo, read from their source on every run; obligations discharged by z3/cvc5; refutations replayed on the real code"

NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"python3-vt check.py {i} --tier quick",
                "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH,
                "level": "proof",
                "level_note": NOTES.get(i, "see evidence: contracts proved for all inputs are listed as proved, bounded shapes and undischarged contracts are listed separately and not counted as proved"),
            })
        else:
            na.append({"property": i, "reason": "contracts not written yet"})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
