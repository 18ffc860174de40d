"""P10: script, style, title and textarea contents are raw text."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step in every mode'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: which tags lead to which mode, and in a raw mode that the part is raw text up to the first place where a '
    'well-formed closing tag of that name starts (the search loop passes over nothing that qualifies), or to the end of the input.')

REQUIRED = [('raw text', x) for x in grammar.RAW] + [('continues', 'RawData')]


def run(ctx, rep):
    grammar.claim(ctx, rep, 'P10', REQUIRED, load=False)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented', 'names compare as documented (P05)')
