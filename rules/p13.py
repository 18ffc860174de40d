"""P13: parsing always makes progress and stops after an error."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step and of loading'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: every part leaves strictly less input, except raw text that ends at once and leaves the raw mode; at the end of '
    'the input nothing more is produced; loading stops at the first error and reports that one; and every turn of a loop within the parser step (words, attributes, raw text) draws an element or shortens what is left.')

REQUIRED = [('progress', x) for x in ('Doctype', 'Comment', 'Data', 'OpeningTag', 'ClosingTag')] + [('end', 'end of input'), ('first error', None)]


def run(ctx, rep):
    from rules.p40 import parser_loops
    from rules.p12 import settle
    parser_loops(ctx, lambda name, found, trouble: settle(rep, 'loops', name, [x for x in found if x[0] == 'bad'], trouble, '%d loops move on' % len(found)))
    grammar.claim(ctx, rep, 'P13', REQUIRED, load=True)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented')
