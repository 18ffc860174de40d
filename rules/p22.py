"""P22: a builder receives exactly the selected element."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the streams handed to builders, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + (
    '  Here the stream handed to a builder is drained at the call: it has to yield the selected start tag and every part up to and '
    'including the closing tag that balances it (only that part for void and self-closed tags), each once, unchanged and in order, '
    'and then end; the names of nested elements may or may not be equal to the name of the selected one.')


def run(ctx, rep):
    flows.report(ctx, rep, flows.SELECT + flows.SUBSELECT + ('subselect_contents',), ('P22', 'panic'))
