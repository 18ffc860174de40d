"""P24: the apply family and the boxing conversions."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind the apply family and the boxing conversions, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: under each condition exactly the chosen builder is called, once, with a stream that yields what the original yields (explored when it is not the original itself) and with the carried value, and the result yields what the builder returned; apply_as_template collects everything, calls the builder with exactly that template, and emits the parts of the template it returns or fails with its error.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.APPLY)
