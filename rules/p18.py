"""P18: append, prepend, replace and remove."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind append, prepend, replace and remove, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: the parts of the original and of the new stream, one stream after the other in the documented order, each part once and unchanged; then the end.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.WHOLE)
