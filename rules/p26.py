"""P26: the attribute operations."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind the attribute operations, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: the first part comes out with the same kind and name, every following part once, unchanged and in order, nothing is read or lost beyond the element.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.ATTRS)
