"""Which contracts decide which property."""

from .props import access, box, colours, dispatch, height, layoutbox as lb, lengths, shorthand, style, text, values, width


class Prop:
    def __init__(self, goals, lemmas=(), oracle=None, assumptions=(), oracle_s=8, native=False):
        self.goals = list(goals)
        self.lemmas = list(lemmas)
        self.oracle = oracle
        self.assumptions = list(assumptions)
        self.oracle_s = oracle_s
        self.native = native  # also run the contracts on random inputs


# Contracts of functions that stand in for their bodies in the layout contracts.
LAYOUT_LEMMAS = (
    box.MOVERS + box.MARGINS + [box.RESET, dispatch.BLOCK_LEVEL]
    + [c for c in width.CONTRACTS if "dispatch" in c.name] + height.WLEMMAS + height.HLEMMAS
)

LAYOUT_ASSUMPTIONS = [
    "the contract of layout_box on the children (induction over the finite tree; its preconditions are obligations at every recursive call, its postconditions are proved by the C01-C05 and C18 checks)",
    "pixel sizes are multiples of 1/64 px below the rounding error of doubles: float arithmetic on them is treated as exact real arithmetic",
    "the container's node.style, node.children, node.parent and node.intrinsic behave as in the documented DOM interface and are not changed by reading them",
    "children of a block container are all block-level or all inline (known finding mixed-children), top/right/bottom/left are not 'inherit', position is static or relative, float is none",
    "padding and border widths are not negative",
]


def layout(goals, props, **k):
    return Prop(goals, LAYOUT_LEMMAS, oracle=("layout", frozenset(props)), assumptions=LAYOUT_ASSUMPTIONS, **k)


LENGTH_ASSUMPTIONS = [
    "amounts, resolutions, font metrics and sizes are finite numbers below the rounding error of doubles: float arithmetic is treated as exact up to a relative error of 1e-12",
]

TEXT_ASSUMPTIONS = [
    "text is a sequence of characters (z3 strings); int() and float() of text are uninterpreted: a finite number never ends in an ASCII letter or one of %'\"(),;#, float(s) is not finite only for text ending in f, n or y, int(s) is float(s) where it is defined, white space around a number does not change it, the text of a number reads back as that number and consists of 0-9 + - . e",
]

STYLE_ASSUMPTIONS = [
    "values assigned are arbitrary texts (other values where the contract of the property says so); what validation makes of a text is given by its contract, which the C10 check and the callee contracts of this check establish",
    "the parsers of lengths, colours, rectangles, quotes, spacings and cursors meet their contracts (C15, C16, C17): a text is one of their values or it is not, and none of the keywords is, apart from cursors",
    "the other properties of the declaration are all unset, or all set to one value each (every combination of two values of the property itself)",
    "no text is the value of two different parts of a shorthand, except the keywords they share",
]

COLOUR_ASSUMPTIONS = [
    "text is a sequence of characters (z3 strings), int() and float() of text as in C15; lower() is a function of the text that leaves lower-case text alone",
    "texts are told apart by form: # and n characters, name(comma-separated parts), or anything else; every text has one of these forms",
]
VALUE_ASSUMPTIONS = [
    "ast.literal_eval gives the text between simple quotes and inverts repr(); of other texts it gives some text, another value, SyntaxError, ValueError or TypeError",
    "the parsers of lengths and of uris, called from others, meet their contracts (C15; C17)",
    "texts are put together from arbitrary pieces with arbitrary white space, as the grammar has them; cursors of any number of parts, spacings and rectangles up to 4 (more is refused), quotes up to 8, more quotes in bounded random runs only",
]


PROPS = {
    "C01": layout(lb.HORIZONTAL + dispatch.EDGES + [dispatch.SIZE], {"C01"}),
    "C02": layout(lb.HORIZONTAL_INLINE + lb.VERTICAL_INLINE, {"C02"}),
    "C03": layout(lb.VERTICAL, {"C03"}),
    "C04": layout(lb.STACK + lb.FIRST + lb.NOKIDS + [dispatch.ROOT] + lb.VERTICAL, {"C04"}),
    "C05": layout(lb.COHERENT + box.MOVERS + [box.CREATION, dispatch.ROOT], {"C05"}),
    "C06": Prop([box.GEOMETRY], oracle=("layout", frozenset({"C06"})), assumptions=LAYOUT_ASSUMPTIONS[1:2]),
    "C07": Prop(box.DIRTY + style.DIRT, style.FUNCTION, oracle=("layout", frozenset({"C07"})), native=style.DIRT, assumptions=STYLE_ASSUMPTIONS),
    "C08": layout(lb.RELATIVE, {"C08"}),
    "C09": layout([box.RESET, box.CREATION, dispatch.ROOT] + lb.COHERENT, {"C09"}),
    "C18": layout(lb.HIDDEN + lb.COHERENT + lb.FIRST + lb.STACK + lb.NOKIDS + [dispatch.ROOT], {"C18"}),
    "C14": Prop(lengths.CONTRACTS, native=True, assumptions=LENGTH_ASSUMPTIONS),
    "C15": Prop(text.CONTRACTS, native=True, assumptions=LENGTH_ASSUMPTIONS + TEXT_ASSUMPTIONS),
    "C10": Prop(list(style.ACCEPT.values()) + values.NUMERIC, native=True, assumptions=STYLE_ASSUMPTIONS[1:]),
    "C11": Prop(style.VARIABLE, style.FUNCTION, native=True, assumptions=STYLE_ASSUMPTIONS),
    "C12": Prop(access.CONTRACTS, style.FUNCTION, native=True, assumptions=STYLE_ASSUMPTIONS),
    "C16": Prop(colours.CONTRACTS, native=True, assumptions=COLOUR_ASSUMPTIONS + LENGTH_ASSUMPTIONS),
    "C17": Prop(values.URI + values.CURSOR + values.SPACING + values.RECT + values.QUOTES + values.LISTS + values.OBJECTS, native=True, assumptions=VALUE_ASSUMPTIONS + TEXT_ASSUMPTIONS),
    "C13": Prop(shorthand.CONTRACTS, style.FUNCTION, native=True, assumptions=STYLE_ASSUMPTIONS),
}
