# C10-C17: the style declaration (executed by gen.py)
prop("C14", "Lengths convert to pixels to the nearest 1/64 px",
     "The pixel value of n units is n times the size of the unit (px: 1; pt, pc, in, cm, mm: their fraction of an inch times the resolution; em, ex, ch: the font's metric in points times the resolution; vw, vh, vmin, vmax: a hundredth of the display dimension; %: a hundredth of the size it refers to), rounded to the nearest 1/64 px, an int where it is whole; it needs no more context than that. Angles convert to degrees likewise. Scaling or negating a value gives a new value of the same unit, leaves the operand alone and defines no new unit; two values are equal exactly if unit and amount are (a px value also equals the int of its amount).",
     ["inputs"], "every amount, positive, negative, zero or fractional, of every unit, for every resolution, font and display size",
     "tests convert a handful of amounts per unit with one display and font",
     ["units.py"], [("conversion to logical units", "units.py:Unit.px"), ("scaling", "units.py:BaseUnit.__rmul__"), ("equality", "units.py:PixelUnit.__eq__")],
     "cm and mm are defined to six digits in the code: accepted to a relative error of 3e-6")
prop("C15", "Lengths in text are read exactly, everything else is refused",
     "A text is a length exactly if it is a finite number (in any form that float() reads, white space included) followed by the suffix of one of the length units, or by nothing (pixels); its value is that number of that unit, whatever other suffixes the text also ends with. An int or float is that many pixels, a length is itself; infinite and undefined numbers, angles, and any other value or text are refused with ValueError and nothing else. Writing a length as text and reading it again gives the same unit and amount.",
     ["inputs"], "every text, every number, every unit, every other value",
     "tests read one text per unit; suffixes that contain one another (in, vmin, min; m, mm, cm; h, ch) only differ on particular texts",
     ["parser.py", "units.py"], [("reading of lengths", "parser.py:units"), ("order of the registered suffixes", "units.py:BaseUnit.__init__"), ("text of a length", "units.py:BaseUnit.__repr__")],
     "what int() and float() accept as a number is taken as given")
prop("C10", "Each style property accepts exactly the values CSS defines for it",
     "Assigning to a property of a style declaration succeeds exactly for the values its definition lists: its keywords, spelled exactly, and where the definition says so lengths and percentages, integers, colours, rectangles, quotes, spacings or cursors; the property then reads as that value, converted (a number becomes a length in pixels, a colour name a colour). Every other value, of any type, is refused with ValueError and leaves the property as it was. Numeric validators with bounds accept exactly the numbers within them (bounds included), percentages only from 0.",
     ["inputs"], "every property, every text and every value of another type, whatever the property was before",
     "tests assign a few good and bad values to a few of the properties; which of the validators each of 64 properties uses is a table in the code that tests do not cover",
     ["declaration.py", "constants.py", "validators.py"], [("setter", "declaration.py:validated_property"), ("definitions", "constants.py"), ("acceptance", "constants.py:Choices.validate")],
     "wrapper objects assigned directly, whitespace-only text for shorthands, cursor = [] and z_index = 1.9 are left unspecified, as implemented")
prop("C11", "Style properties are independent variables with CSS initial values",
     "A property that was never set, or was deleted, reads as its CSS initial value; border colours then follow the current color property, and text-align the current direction (left for ltr, right for rtl). A property that was set reads as the value last set until it is set again or deleted. Setting or deleting one property never changes what any other property reads as (other than these two dependencies), and deleting one that is not set does nothing.",
     ["inputs", "histories"], "every property, every pair of successive values, whatever the other properties are",
     "64 properties share two setter factories and string-built attribute names; interference between two of them shows only for particular pairs, and the tests set one at a time",
     ["declaration.py", "constants.py"], [("getter, setter, deleter", "declaration.py:validated_property"), ("initial values that follow another property", "constants.py:OtherProperty"), ("text-align's initial value", "constants.py:TextAlignInitialValue")],
     "the value of an accepted text is given by the contract of validation (C10)")
prop("C12", "All ways of reading and writing a style agree",
     "Attributes, items (css['margin-top'] or css['margin_top']), update() and the constructor read, set and delete the same properties with the same effect; update() and the constructor delete a property given as None. Names that are no property are refused: KeyError for items, NameError for update and the constructor; the unknown name itself changes nothing (update() applies its arguments in order). keys() lists the properties that are set, items() pairs them with their values, and str() lists them as 'name: value' with hyphens. copy() gives a declaration with the same values that is attached to the given node, and from then on neither affects the other.",
     ["inputs", "histories"], "every property name in both spellings, any other name, any value, any set of properties that are set",
     "tests use two or three names; the routes translate names by string replacement, which is only visible for particular names",
     ["declaration.py"], [("items", "declaration.py:CSS.__setitem__"), ("update", "declaration.py:CSS.update"), ("listing", "declaration.py:CSS.keys"), ("copy", "declaration.py:CSS.copy")],
     "update() of several names is not atomic when one of them is refused")
prop("C13", "Shorthand properties set exactly the properties they stand for",
     "margin, padding, border-width, border-color and border-style take one value or a tuple of one to four, given to top, right, bottom, left as CSS defines (missing left is right, missing bottom is top, missing right is top), and read as the four current values; other tuples are refused with ValueError. border, border-top/-right/-bottom/-left and outline take one to three parts in any order, as text or as a sequence, each fitting exactly one of width, style and color; these get their part and the ones without a part are reset. Parts that fit none, or the same one twice, are refused with ValueError and nothing changes. Deleting a shorthand resets what it stands for. No other property is affected.",
     ["inputs"], "every number, order and kind of parts, any text, any state of the declaration",
     "order, number and validity of the parts multiply; tests list some of the combinations for one of the borders",
     ["declaration.py", "parser.py"], [("1 to 4 values", "declaration.py:directional_property"), ("shorthand setter", "declaration.py:validated_shorthand_property"), ("parts", "parser.py:border"), ("parts", "parser.py:outline")],
     "a tuple whose first value is fine and a later one is refused has already changed the earlier sides (known finding); css.border reads as '' (known finding)")
prop("C16", "Colours mean exactly what CSS writes",
     "A text is a colour exactly if it is one of the 148 CSS names in any case, # followed by 3, 4, 6 or 8 hexadecimal digits, rgb() or hsl() with three, or rgba() or hsla() with four components (whole numbers; whole percentages for saturation and lightness; a number for alpha), and has exactly the components written (each digit of a short form doubled, alpha digits as a fraction of 255, percentages as hundredths, alpha 1 if not given). Everything else, of any type, is refused with ValueError; a colour object is itself. The rgb value of an hsl colour is the CSS conversion, to the nearest whole component, for every hue (also outside 0 to 360), with alpha kept. The text of an rgb colour reads back as the same colour.",
     ["inputs"], "every text, every other value; every hue, saturation and lightness",
     "tests convert a dozen colours; each of the six hue sectors, each digit position and each number of components is its own case",
     ["parser.py", "colors.py"], [("reading of colours", "parser.py:color"), ("# colours", "parser.py:pound_sign_color"), ("conversion", "colors.py:hsl.rgb"), ("names", "colors.py:NAMED_COLOR")],
     "components out of range are kept as they are, percentages without % and an alpha of inf or nan are left unspecified, as implemented")
prop("C17", "Compound values hold exactly what was written and cannot change",
     "uri, cursor, quotes, border spacing and rect values are read from text (and sequences, where documented) exactly by their grammar, refusing everything else with ValueError: url(x), url('x') or url(\"x\") with any white space around; cursors as any number of uris, at most one keyword, last; quotes as an even, non-zero number of quoted non-empty texts, in pairs; spacings as one or two lengths, the vertical one defaulting to the horizontal; rectangles as rect() of four lengths separated by commas or by spaces. What is read holds the parts in the order written; the text of a uri, spacing or rectangle reads back as an equal value. Cursor lists refuse every mutating operation with TypeError and stay as they are; cursor lists, quotes, rectangles and shorthand objects are equal exactly if their parts are, in order; quote levels that do not exist raise IndexError.",
     ["inputs"], "every text, every sequence, every part, every mutating list operation",
     "tests sample well-formed texts; number, order, quoting and spacing of the parts combine freely",
     ["parser.py", "wrappers.py", "shapes.py"], [("uris", "parser.py:uri"), ("cursors", "parser.py:cursor"), ("quotes", "parser.py:quotes"), ("spacings", "parser.py:border_spacing"), ("rectangles", "parser.py:rect"), ("immutable lists", "wrappers.py:ImmutableList"), ("shorthand objects", "wrappers.py:Shorthand")],
     "rectangles keep the order top, right, left, bottom, as the tests pin it; lists of more than 4 cursors, 4 quotes in text or 6 in a sequence, and rectangles with more words are covered by bounded runs only")
