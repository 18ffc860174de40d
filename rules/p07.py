"""P07: parsed text is kept verbatim and none of the input is lost."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step, inputs of any length'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: the kind and the text of every part, tag names, attribute names, values and their order, and that parsing '
    'continues exactly where the part ends.  Loading hands the whole input to the parser and keeps every part once, in order.')

REQUIRED = [('text', x) for x in ('Doctype', 'Comment', 'Data', 'RawData')] + [('tag name', x) for x in ('OpeningTag', 'SelfClosedTag', 'VoidTag', 'ClosingTag')] + [
    ('continues', x) for x in ('Doctype', 'Comment', 'Data', 'OpeningTag', 'ClosingTag')] + [('attributes', None), ('attribute list', 'OpeningTag'), ('whole input', None), ('all parts', None)]


def run(ctx, rep):
    grammar.claim(ctx, rep, 'P07', REQUIRED, load=True)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented', 'names compare as documented (P05), validation accepts the documented alphabet (P03)')
