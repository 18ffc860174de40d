"""P09: parse limits hold for every input and both ways of loading."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step and of both loading functions, all limits'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: an opening tag is refused exactly when the number of open elements has reached the configured limit (the list '
    'only grows by one there, so it never exceeds it), the error names tag, place and limit.  The loading functions are analysed with an '
    'opaque parser: input is refused for its length exactly when it has more bytes than the limit, before the parser runs.')

REQUIRED = [('depth', None), ('error details', 'StackLimitExceeded'), ('options', None), ('length limit', None)]


def run(ctx, rep):
    grammar.claim(ctx, rep, 'P09', REQUIRED, load=True)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented')
