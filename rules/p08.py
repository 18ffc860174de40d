"""P08: a template is accepted only when its tags are balanced."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step, nesting of any depth'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: how each part changes the list of open elements, which closing tags are accepted, what happens at the end of '
    'the input and which balance error with which details is given; loading fails whenever the parser does.')

REQUIRED = [('open elements', x) for x in ('OpeningTag', 'SelfClosedTag', 'VoidTag', 'ClosingTag', 'Data', 'RawData', 'Comment', 'Doctype')] + [
    ('accepted', 'ClosingTag'), ('end', 'end of input'), ('start', None), ('unclosed', 'innermost'), ('unclosed', 'the others'), ('refused', None),
    ('error details', 'MismatchedClosingTag'), ('error details', 'UnexpectedClosingTag')]


def run(ctx, rep):
    grammar.claim(ctx, rep, 'P08', REQUIRED, load=True)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented', 'names compare as documented (P05)')
