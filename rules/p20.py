"""P20: select, select_once, select_direct, select_direct_once."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind select, select_once, select_direct, select_direct_once, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: every part outside selected elements is passed on; the start of an element may only be passed on when the selector (or the variant: direct, once) rejects it; otherwise the builder runs on it and its result is emitted in its place.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.SELECT)
