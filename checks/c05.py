"""The lexer is interpreted on an unknown text in step with the reference automaton; every token it reports is compared with the characters it consumed."""
import lexflow
def check(ctx, rep): lexflow.report(ctx, rep, ['C05'], 'token kind, span and text are those of the characters consumed, and the kind is the one the grammar names by that spelling')
