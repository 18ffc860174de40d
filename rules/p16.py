"""P16: stream errors are never swallowed."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: failures at every read of every input of all transformation methods'
EXPLANATION = flows.EXPLANATION + (
    '  Here every read of an input (the original, an injected stream, the result of a builder) may also fail.  From then on the '
    'transformation may only yield placeholders and then has to fail with that same error value, the stream handed to a builder alike, '
    'and after a failure or an end nothing is emitted any more.  Since every input is opaque the result composes over any combination.')


def run(ctx, rep):
    flows.report(ctx, rep, flows.ALL, ('P16', 'panic'))
