"""P21: the four subselect methods."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind the four subselect methods, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: the tags of the outer element are passed on without being selectable (a self-closed element may stay as it is or be expanded); inside, parts are treated as for selection, counting depth from the children of the element.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.SUBSELECT)
