"""Properties of the source parser."""
from .common import contract_check

NUMBERS = 'strconv.ParseInt and strconv.Atoi are functions of their text; Atoi of "8", "16", "32", "64" is that number'
READING = 'a file or reader is read once and yields one content; os.Open, Close and ReadAll report their failures'


def grammar_obligations(D, work, env, which):
    """reads the parser's own table, sets up the contracts of its actions, and returns the obligations on the table"""
    from contracts import grammar as G, parser_actions as PA
    ref, entry = G.reference()
    try:
        table = G.dump(D, work)
        act, aentry = G.load(table)
    except G.Bad as e:
        return [('grammar table', [('grammar: the table can be read', False, str(e))])]
    M = G.compare(ref, entry, act, aentry)
    T, L = G.valuetypes(ref, PA.RESULTS)
    PA.setup(env, M, T, L)
    out = G.nodes(table, act)
    if 'same' in which:
        out += M.obls
    if 'wf' in which:
        out += G.wellfounded(act, aentry)
    return [('grammar table', out)] if out else []


TABLE = 'nodes of the table are changed by nobody (writes through the interpreter are excluded by its frame obligations)'
CHARS = 'utf8.DecodeRune, unicode.ToLower, unicode.Is are functions of their arguments; DecodeRune gives width 0 exactly at the end of the text'
POOL = 'sync.Pool hands out a map nobody else holds, emptied before it was put back (emptying is an obligation)'


def parser_check(D, work, prop, tier, seed, which, mode, modules, assumptions):
    from contracts import interp
    return contract_check(D, work, prop, tier, seed, modules, harness='parse', harness_args=[mode], assumptions=assumptions + [TABLE, CHARS, POOL],
                          prepare=lambda env, out: grammar_obligations(D, work, env, which), second=interp.setup)
