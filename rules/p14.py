"""P14: parse errors point to the documented place."""
from rules import grammar
from rules.grammar import TECHNIQUE

LEVEL_NOTE = 'static analysis: every path of the parser step, all error kinds'
EXPLANATION = grammar.EXPLANATION + (
    '  For this property: every error is the one due, its location is that of the place the documentation promises (byte offset equal to '
    'the bytes before it, line and column counted over exactly that text) and its names are those of the tags and attributes concerned; and every function that advances a location adds the byte length of the text passed to the offset.')

REQUIRED = [('error details', x) for x in ('UnsupportedDoctype', 'UnclosedDoctype', 'UnclosedComment', 'ExpectedOpeningTagClose', 'ExpectedClosingTagClose',
                                          'ExpectedOpeningTagIdentifier', 'InvalidOpeningTagIdentifier', 'ExpectedClosingTagIdentifier',
                                          'InvalidClosingTagIdentifier', 'InvalidAttributeIdentifier', 'InvalidAttributeValue',
                                          'UnclosedAttributeValue', 'StackLimitExceeded', 'UnexpectedClosingTag', 'MismatchedClosingTag')] + [
    ('unclosed', 'innermost'), ('unclosed', 'the others'), ('position', None), ('start', None), ('passed on', None)]


def run(ctx, rep):
    from rules.p37 import offsets
    offsets(ctx, rep)
    grammar.claim(ctx, rep, 'P14', REQUIRED, load=True)
    rep.assume('memory is sufficient', 'text, location and list operations of the standard library behave as documented', 'line and column counting is P37')
