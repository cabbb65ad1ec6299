"""The lexer is interpreted on an unknown text in step with the reference automaton of Lua 5.3; where it ends a token or reports an error the automaton must agree."""
import lexflow
def check(ctx, rep): lexflow.report(ctx, rep, ['C06'], 'every token ends exactly where Lua 5.3 ends it, and errors only where no Lua 5.3 token continues')
