"""P19: the operations on the contents of an element."""
from rules import flows
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all paths of the stream state machines behind the operations on the contents of an element, elements nested up to a bounded depth'
EXPLANATION = flows.EXPLANATION + '  The specification: the start tag (a self-closed one as an opening tag with the same name and attributes, a void one alone), then exactly the parts the operation documents for the contents, then the closing tag; the content builder is handed exactly the parts between the tags.'


def run(ctx, rep):
    flows.report(ctx, rep, flows.CONTENTS)
