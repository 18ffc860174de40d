"""P23: repeat, repeat_or_else, repeat_contents, repeat_contents_or_else."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind repeat, repeat_or_else, repeat_contents, repeat_contents_or_else, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: collect the original (or the contents between the tags), then for each item of the iterator run the builder on a template stream at position 0 of exactly the collected parts together with that item and emit its result; the fallback runs, on the original, only when the iterator was found empty before any item.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.REPEAT)
