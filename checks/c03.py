"""The comment lexer is followed in step with a reference automaton; the comment writer is interpreted on every production of the comment grammar and on
comments whose text is known by the classes of its outer characters."""
import lexflow, comments
def check(ctx, rep):
    lexflow.report(ctx, rep, ['C05', 'C06'], 'comment tokens carry the kind, level and text of the characters consumed; the comment writer writes each comment once, in order, with its text', mod='comment_lexer')
    r = comments.report(ctx, rep)
    rep.cov['comment_productions'] = len(r['nodes'])
    rep.cov['comment_text_cases'] = r['one']['cases'] + r['long']['cases']
    rep.cov['path_outcomes_comment_writer'] = sum(x['outs'] for x in r['nodes']) + r['one']['outs'] + r['long']['outs']
    rep.cov['functions_comment_writer'] = len(set().union(*[x['fns'] for x in r['nodes']], r['one']['fns'], r['long']['fns']))
    rep.assumptions += ['hint options hold blanks', 'long comments up to level 2 (3 thorough) in the writer']
