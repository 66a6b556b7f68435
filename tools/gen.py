#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
D = "src/colosseum/"


def prop(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[D + f for f in files], mechanism=[dict(name=n, where=D + w) for n, w in mech]), note=note))


prop("C01", "Block boxes fill their container horizontally",
     "For every block-level, non-replaced box in normal flow, left margin + left border + left padding + content width + right padding + right border + right margin equals the content width of its container; a declared width, limited by max-width and then by min-width, is used as is, auto margins and an auto width absorb the remainder (two auto margins are equal, whole-pixel, and may leave less than 2px), and in an over-constrained box the end-side margin of the text direction gives way. The content box starts after the left margin, border and padding. Margins, borders and paddings of every box are their declared sizes (thin/medium/thick as the display defines them, auto vertical margins 0), percentages taken of the container's width on all four sides.",
     ["inputs", "configurations"], "all combinations of declared widths, limits, margins, borders, paddings and directions, in every unit, in containers of any size, at any depth",
     "the width rules branch on eight independent declarations; tests sample a few dozen combinations of fixed pixel values",
     ["engine.py", "dimensions.py"], [("S10.3.3 width calculation", "engine.py:calculate_block_non_replaced_normal_flow_width"), ("edges are copied into the box", "engine.py:layout_box"), ("sizes", "engine.py:calculate_size")],
     "both-auto margins are the floor of half the remainder, as the tests pin them")
prop("C02", "Inline boxes get their size from the content or the declaration",
     "An inline non-replaced box has its intrinsic width and height and auto margins of 0. An inline replaced box has its declared width and height; where these are auto it uses its intrinsic size, else derives the missing dimension from the other and the intrinsic ratio (the width rounded to a pixel; the height being used width times ratio), else the available width, 300px, or half the width up to 150px. Its content box starts after its margins, borders and paddings.",
     ["inputs", "configurations"], "every combination of declared, intrinsic and missing width, height and ratio, in any container",
     "the rules are a decision table over five optional values; tests cover its rows once, with one set of numbers each",
     ["engine.py"], [("S10.3.1, S10.3.2", "engine.py:calculate_inline_replaced_width"), ("S10.6.1, S10.6.2", "engine.py:calculate_inline_replaced_height")],
     "an inline non-replaced node is assumed to have an intrinsic size (known finding otherwise)")
prop("C03", "Block heights follow the declaration or the last child",
     "A block-level box with a declared height has that height (a percentage is of the container's declared height where it has one), at most max-height. With an auto height it ends at the bottom border edge of its last displayed child, or below that child's bottom margin if the box has a bottom border or padding; without displayed children its height is min-height, or 0. Its content starts below its own top border and padding, its vertical margins are as declared (auto is 0).",
     ["inputs", "configurations"], "any number of children, displayed or not, of any size, and any declared heights and limits",
     "tests fix one to three children; the guarantee is about any child list and any mix of limits",
     ["engine.py"], [("S10.6.3 height calculation", "engine.py:calculate_block_non_replaced_normal_flow_height"), ("order of width, children, height", "engine.py:layout_box")],
     "min-height is only applied to auto heights without displayed children and max-height only to declared heights, as implemented")
prop("C04", "Blocks stack without gaps or overlaps, adjoining margins collapse",
     "In a block formatting context displayed siblings follow each other in document order, each separated from the previous border box by the larger of the two touching margin extents, never by their sum. The first and last child's margins merge with the parent's exactly when no parent border or padding is between them, otherwise they stay inside the parent; the extent of merged margins is the largest of them. The root shows its whole collapsed top margin, and in HTML5 (not HTML4) its content height is the display height minus its collapsed margins.",
     ["inputs", "configurations"], "any number of siblings, at any depth, with any positive or zero margins, borders and paddings; both standards",
     "margin collapsing interacts across siblings and levels; the tests contain single chains of at most three boxes",
     ["engine.py", "dimensions.py"], [("offset and bottom margin of the stacking loop", "engine.py:layout_box"), ("collapse extents only grow", "dimensions.py:Box.collapse_top"), ("root handling", "engine.py:layout")],
     "negative margins do not extend the collapsed extent, as implemented; children are all block-level (or not displayed)")
prop("C05", "Absolute positions agree with the tree of relative positions",
     "After layout, and after any later assignment to a box's position, the absolute position of every displayed node's content is the absolute content position of its parent plus its own position relative to the parent (the root's container is at 0,0). Moving a box moves all its descendants by the same amount and changes nothing else. Every displayed child of a laid out node is laid out, exactly once, against the parent's final content width.",
     ["inputs", "histories"], "trees of any shape, boxes created in any order, any sequence of moves",
     "origins are propagated through setters at every level; tests inspect two-level trees",
     ["dimensions.py", "engine.py"], [("origin propagation", "dimensions.py:Box._origin_top"), ("content setters", "dimensions.py:Box.content_top"), ("boxes are placed in their container", "engine.py:layout_box")],
     "the recursion is by induction over the tree")
prop("C06", "Padding and border boxes enclose the content consistently",
     "For every box, the padding box is the content box extended by the four paddings and the border box is the padding box extended by the four border widths. Width is right minus left and height is bottom minus top for each of them. Every absolute coordinate is the corresponding relative one plus the position of the container.",
     ["inputs"], "any content position and size, any edges, any container position",
     "two dozen computed properties, each checked by tests with one set of numbers in which many of the edges coincide",
     ["dimensions.py"], [("computed properties", "dimensions.py:Box")], "")
prop("C07", "Every real change of style or intrinsic size invalidates the layout",
     "Setting or deleting a style property, or setting an intrinsic size, so that its value changes marks the node's valid layout, and the layouts of all its descendants, as dirty; setting an equal value leaves it valid. Marking a box dirty or clean changes nothing but the validity. None of this fails or creates a box for a node that has no layout.",
     ["inputs", "histories"], "every property, every old and new value, nodes with and without layout, any subtree",
     "dirtiness is tested for a few properties, one old and one new value each, on a single node",
     ["dimensions.py", "declaration.py"], [("validity of a box", "dimensions.py:Box.dirty"), ("size setters", "dimensions.py:Size.width"), ("property setters", "declaration.py:validated_property")],
     "a node's descendants are as valid as the node was (a layout pass validates whole subtrees)")
prop("C08", "Relative positioning shifts a box without disturbing its flow",
     "A relatively positioned box is laid out as in normal flow and then moved by left (or minus right, if left is auto) and by top (or minus bottom, if top is auto); horizontal percentages are of the container's width, vertical ones of its height. The offsets have no effect on statically positioned boxes. Its children move with it, and its following siblings are placed as if it had not moved.",
     ["inputs", "configurations"], "all combinations of the four offsets in any unit, any box, any children and siblings",
     "tests sample single offsets in pixels on a leaf",
     ["engine.py"], [("S9.4.3", "engine.py:layout_box")],
     "offsets set to inherit are excluded (known finding); the height of a container is known only where it was calculated before its children")
prop("C09", "Layout does not depend on earlier layouts",
     "Laying out a document again, after any history of style changes, hidden or re-shown subtrees and display sizes, gives exactly the boxes that a first layout of the document in its present state gives. Before a tree is laid out every existing box of it is returned to the state of a newly created one.",
     ["histories"], "any sequence of changes and layouts",
     "state left over in boxes only shows in particular orders of changes; tests lay out each document once",
     ["dimensions.py", "engine.py"], [("reset", "dimensions.py:Box.reset"), ("reset before layout, and of re-created boxes", "engine.py:layout")],
     "one known finding (relative box with auto height and min-height)")
prop("C18", "Nodes that are not displayed have no box and take no space",
     "After layout a node with display none has no box, and laying it out succeeds, for the root and at any depth. Its siblings and its parent are placed and sized exactly as if it were not there. A displayed node always gets a box, including when it is shown again.",
     ["inputs", "histories"], "any position of hidden nodes among the children of any node, with boxes left from earlier layouts or none",
     "tests hide single nodes in fixed places",
     ["engine.py"], [("boxes of hidden nodes are removed", "engine.py:layout_box"), ("hidden children are skipped", "engine.py:layout_box")],
     "descendants of a hidden node are not laid out; their old boxes are left alone")

exec(open(os.path.join(HERE, "tools", "gen_style.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "gen_style.py")) else None
PROPS.sort(key=lambda p: p["id"])
NA = []

TECH = "contract-based deductive verification of the real code (mechanically extracted, z3)"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k != "note"}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="true",
        checks=[dict(
            property=p["id"],
            quick_cmd=f"python3-vt /verif/check.py {p['id']}",
            thorough_cmd=f"python3-vt /verif/check.py {p['id']} --thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=TECH,
            level="proof",
            level_note=("Every obligation of the contracts named in the evidence is discharged for all inputs and any number of children/iterations; "
                        "where a contract cannot be brought through the verifier after a change, a bounded native search stands in and is labelled so. "
                        + p["note"]).strip(),
        ) for p in PROPS if p["id"] not in {n["property"] for n in NA}],
        not_applicable=NA,
        notes="See DESIGN.md; known findings in known-findings.json.",
    ), f, indent=1)
    f.write("\n")
