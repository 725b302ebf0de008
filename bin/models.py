"""Which specification decides which property, with which bounds."""
from vlib import tobytes, unesc
CHECKS = {}
SPECS = {}
REPLAY = 'every behaviour it enumerates is replayed into the parser and compared (spec/%s.tla)'
TRACE = 'traces recorded from the parser are validated by TLC against the trace specification (spec/%s.tla)'
BOUND = 'Exhaustive within the stated bounds of the specification; trusts the specification as the statement of Ruby\'s rules, the Rust harness that drives the public API and TLC.'


def check(prop, specs, how=None, note=BOUND):
    def d(f):
        CHECKS[prop] = f
        SPECS[prop] = dict(how=how or REPLAY % specs, note=note)
        return f
    return d


ARGOPS = ["..", "...", "||", "&&", "<=>", "==", "===", "!=", "=~", "!~", "<", "<=", ">", ">=", "|", "^", "&", "<<", ">>",
          "+", "-", "*", "/", "%", "**"]
STMTOPS = ["and", "or", "if", "unless", "while", "until", "rescue"]
PREOPS = ["!", "~", "u-", "u+", "not", "defined?", "v =", "v +=", "v ||=", "v &&="]


@check('C22', 'Prec')
def c22(ctx):
    recs = ctx.tlc('Prec', dict(MaxOps=2, BinOps=set(ARGOPS + STMTOPS + ['?']), PreOps=set(PREOPS)))
    recs += ctx.tlc('Prec', dict(MaxOps=4 if ctx.thorough() else 3, BinOps={"..", "||", "&&", "==", "<", "|", "&", "<<", "+", "*", "**", "?", "and", "if", "rescue"},
                                 PreOps={"!", "u-", "not", "defined?", "v =", "v ||="}))
    ctx.replay(recs, min_cases=5000)


STRUCT = {'x', 'xm', 'd', 'ok', 'e', 'err'}
RANGES = {'L', 'Lm', 'at', 'na'}


def ast(ctx, keys):
    """All constructs in all holes; two levels of nesting from representative leaves (all leaves when thorough);
    and the programs of the other specifications."""
    recs = [r for r in ctx.tlcs(catalogue(ctx)) if any(k in r for k in keys)]
    ctx.replay(recs, min_cases=50000, keys=keys)
    if ctx.thorough():
        for lo in range(1, 97, 12):
            ctx.replay(ctx.tlc('Ast', dict(Depth=2, LeafFrom=lo, LeafTo=min(lo + 11, 96))), min_cases=1000, keys=keys)
        ctx.replay(ctx.tlc('Ast', dict(Depth=6, LeafFrom=1, LeafTo=0), simulate=60000, depth=7), min_cases=1000, keys=keys)


@check('C03', '{Ast,Forms,Names,...}')
def c03(ctx):
    ast(ctx, STRUCT)


@check('C04', '{Ast,Forms,Names,...}')
def c04(ctx):
    ast(ctx, RANGES)


NUMCH = set('0 1 2 7 8 9 _ . e E x X b B o O d D a F r i'.split())


@check('C21', 'Num')
def c21(ctx):
    ctx.replay(ctx.tlc('Num', dict(Chars=NUMCH, MaxLen=4 if ctx.thorough() else 3, Signs={"", "-", "+"})), min_cases=5000)
    ctx.replay(ctx.tlc('Num', dict(Chars={'1', '0', '_', '.', 'e', 'r', 'i'}, MaxLen=7 if ctx.thorough() else 6, Signs={"", "-"} if ctx.thorough() else {""})), min_cases=5000)
    for p in 'xbod':
        ctx.replay(ctx.tlc('Num', dict(Chars={'1', '0', '_', p, 'r', 'i', '8', 'f'}, MaxLen=6 if ctx.thorough() else 5, Signs={"", "-", "+"} if ctx.thorough() else {"-"})), min_cases=5000)


EAC = '\u00c3\u00a9'
DK = ['dq', 'pc', 'pQ', 'xq', 'px', 'dsym', 'label', 'W', 'I', 'hd', 'char']
SK = ['sq', 'q', 'q2', 'ssym', 'slabel', 's', 'w', 'i', 'raw']
RK = ['re', 'r', 'r2']


@check('C18', 'Esc')
def c18(ctx):
    t = ctx.thorough()
    allc = {chr(i) for i in range(33, 127)} | {' ', '\n', '\t', EAC}
    some = {'a', 'n', 's', '0', '7', '8', 'x', 'u', 'c', 'C', 'M', '-', '?', '\\', '"', "'", '/', '!', ')', '(', ']', '}', '>', '#', ' ', '\n', EAC}
    ks = DK + SK + RK
    jobs = []
    # a backslash and every character; short texts over the delimiters and escape letters
    for k in ks:
        jobs.append(('Esc', dict(Kinds={k}, Chars=allc, MaxLen=3 if t else 2, Pre='\\')))
        jobs.append(('Esc', dict(Kinds={k}, Chars=some, MaxLen=3 if t else 2, Pre='')))
        jobs.append(('Esc', dict(Kinds={k}, Chars=some, MaxLen=4 if t else 3, Pre='\\')))
    # octal, hexadecimal, unicode, control and meta escapes in depth
    deep = ['dq', 'dsym', 'W', 'char', 're', 'sq'] if not t else DK + RK + ['sq', 'w', 'i']
    for pre, chars, n in (('\\', {'0', '3', '7', '8', 'a', '\\'}, 6 if t else 5), ('\\x', {'0', '4', 'a', 'F', 'g', '\\', 'x'}, 6 if t else 5),
                          ('\\u', {'0', '1', 'd', 'F', '8', 'g'}, 7 if t else 6), ('\\u{', {'1', 'd', '8', ' ', '}', 'x'}, 9 if t else 7),
                          ('\\u{1', {'0', '1', 'f', ' ', '}', '\t'}, 10 if t else 8), ('\\u{10', {'0', 'F'}, 11),
                          ('\\', {'M', 'C', '-', 'c', '\\', '?', 'a', ' ', 'u'}, 6 if t else 5),
                          ('\\M-\\', {'M', 'C', '-', 'c', '\\', '?', 'n', 'x', '4', '1', '\t', 'u', EAC, 'U'}, 8 if t else 7),
                          ('\\C-\\', {'M', 'C', '-', 'c', '\\', '?', 'n', 'x', '4', '1', ' ', 'u', 'U', 'Z'}, 8 if t else 7)):
        for i in range(0, len(deep), 3):
            jobs.append(('Esc', dict(Kinds=set(deep[i:i + 3]), Chars=chars, MaxLen=n, Pre=pre)))
    ctx.replay(ctx.tlcs(jobs), min_cases=20000)


@check('C19', 'Pct')
def c19(ctx):
    t = ctx.thorough()
    kinds = ['', 'Q', 'q', 'W', 'w', 'I', 'i', 'x', 'r', 's']
    jobs = []
    for k in kinds:
        jobs.append(('Pct', dict(Kinds={k}, Delims={'(', '['} if t else {'('}, Chars={'g', ' ', '\n', '\\', '#{a}'}, MaxLen=7 if t else 5)))
        jobs.append(('Pct', dict(Kinds={k}, Delims={'{', '<', '[', '|', '/'}, Chars={'g', ' ', '\\', '#{a}'}, MaxLen=5 if t else 4)))
        jobs.append(('Pct', dict(Kinds={k}, Delims=set('!"$&\'*+,-./:;=?@^_`|~') | {'#'}, Chars={'g', '\\', ' '}, MaxLen=4 if t else 3)))
    ctx.replay(ctx.tlcs(jobs), min_cases=20000)


HLINES = ['empty', 'blank2', 'blanktab', 'x0', 'x2', 'x3', 'x4', 'xt', 'xt2', 'x2t', 'x8', 'i0', 'i2', 'i2x', 'xi', 'ii', 'esc', 'esc0', 'nl', 'noint', 'hash', 'cont', 'cont0',
          'long', 'trail', 'Aind', 'Bline', 'Zend', 'beg', 'v2', 'mi', 'm1']
HCTX = ['plain', 'asgn', 'paren', 'cmd', 'recv', 'arr', 'mod', 'comment', 'interp', 'block', 'hash', 'semi', 'spaces', 'str', 'str2', 'arrstr', 'arrx', 'arrint', 'two', 'twocmd', 'plus', 'twointerp']


@check('C20', 'Heredoc')
def c20(ctx):
    t = ctx.thorough()
    jobs = []
    # every pair of lines in every style and quoting
    for s in ('', '-', '~'):
        for q in ('', "'", '"', '`'):
            jobs.append(('Heredoc', dict(Styles={s}, Quotes={q}, Lines=set(HLINES), MaxLines=3 if t else 2, Ctxs={'cmd'}, TermInds={'', ' \t', ' ', '   ', '\t'} if t else {'', '   '}, Styles2={'-'}, Eols={'\n'})))
    # longer bodies
    for q in ('', "'"):
        jobs.append(('Heredoc', dict(Styles={'~'}, Quotes={q}, Lines={'empty', 'blank2', 'x2', 'x4', 'i2x', 'xi', 'cont', 'xt'}, MaxLines=5 if t else 4, Ctxs={'asgn'}, TermInds={'  '}, Styles2={'-'}, Eols={'\n'})))
    # every context, every pair of styles
    for s in ('', '-', '~'):
        jobs.append(('Heredoc', dict(Styles={s}, Quotes={'', "'", '"', '`'}, Lines={'empty', 'x2', 'xi', 'i2', 'Bline', 'esc'}, MaxLines=2, Ctxs=set(HCTX), TermInds={'', '  '}, Styles2={'', '-', '~'}, Eols={'\n'})))
    # lines that end in CR LF; every indentation of the terminator
    jobs.append(('Heredoc', dict(Styles={'', '-', '~'}, Quotes={'', "'", '`'}, Lines=set(HLINES), MaxLines=2 if t else 1, Ctxs={'cmd', 'two', 'comment', 'arrstr'}, TermInds={'', ' \t', ' ', '\t'}, Styles2={'', '~'}, Eols={'\r\n'})))
    ctx.replay(ctx.tlcs(jobs), min_cases=20000)


def spec_ops(module, name, var='c'):
    """The construct names of CASE operator `name` in spec/<module>.tla."""
    import os, re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', module + '.tla'), encoding='utf-8').read()
    body = t[t.index('\n' + name):]
    body = body[:body.index('\n\n')] if '\n\n' in body else body
    res = re.findall(r'(?:CASE|\[\]) %s = "([^"]+)"' % var, body)
    for g in re.findall(r'(?:CASE|\[\]) %s \\in \{([^}]+(?:\}"[^}]*)*)\} ->' % var, body):
        res += re.findall(r'"([^"]+)"', g)
    return res


def spec_set(module, name):
    """The strings of the set `name` defined on one line in spec/<module>.tla."""
    import json, os, re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', module + '.tla'), encoding='utf-8').read()
    line = re.search(r'^%s == (.*)$' % name, t, re.M).group(1).split('\\*')[0]
    return [json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', line)]


@check('C11', 'Scope')
def c11(ctx):
    t = ctx.thorough()
    simple, openers = set(spec_ops('Scope', 'SimpleS(')) - {'close'}, set(spec_ops('Scope', 'OpenS('))
    jobs = []
    ol = sorted(openers)
    for pre in (set(), {'a'}):
        jobs.append(('Scope', dict(Simple=simple, Openers=openers, Names={'a', 'b'} if t else {'a'}, MaxSteps=2, Pre=pre, Probed=('a', 'b'))))
    step = 8 if t else 12
    for i in range(0, len(ol), step):
        jobs.append(('Scope', dict(Simple={'asgn', 'modif', 'self'} if not t else simple, Openers=set(ol[i:i + step]) | {'def', 'brace', 'bracep', 'class', 'lam'}, Names={'a'}, MaxSteps=3, Pre=set(), Probed=('a', 'b'))))
    jobs.append(('Scope', dict(Simple={'asgn'}, Openers={'def', 'brace', 'class', 'bracep', 'if'}, Names={'a', 'b'} if t else {'a'}, MaxSteps=6 if t else 5, Pre=set(), Probed=('a', 'b'))))
    jobs.append(('Scope', dict(Simple={'asgn'}, Openers={'defp', 'lamp', 'sclass', 'bracel', 'for', 'str'}, Names={'a'}, MaxSteps=6 if t else 5, Pre={'b'}, Probed=('a', 'b'))))
    for x, y in (('_x', '\xc3\xa9'), ('\xe3\x81\x82', '_1x')):
        jobs.append(('Scope', dict(Simple=simple, Openers=openers, Names={x}, MaxSteps=1, Pre=set(), Probed=(x, y))))
        jobs.append(('Scope', dict(Simple={'short', 'asgn', 'hpat', 'shorth'}, Openers={'defp', 'bracep', 'def', 'lamb'}, Names={x, y}, MaxSteps=3, Pre={y}, Probed=(x, y))))
    ctx.replay(ctx.tlcs(jobs, invs={'Scope': ('Emit', 'Balanced')}), min_cases=10000)


@check('C12', '{Context,Void}')
def c12(ctx):
    t = ctx.thorough()
    ops, prs = set(spec_ops('Context', 'Op(')), set(spec_ops('Context', 'Pr(', 'p'))
    jobs = [('Context', dict(Openers=ops, Probes=prs, MaxSteps=2))]
    few = {'def', 'class', 'sclass', 'brace', 'lam', 'endless', 'super', 'module'}
    sens = {'return', 'const', 'class', 'module', 'BEGIN', 'END', 'cdef', 'csing'}
    ol = sorted(ops)
    k = 4 if t else 8
    for i in range(0, len(ol), k):
        jobs.append(('Context', dict(Openers=set(ol[i:i + k]) | few, Probes=sens, MaxSteps=4 if t else 3)))
    jobs.append(('Context', dict(Openers=few, Probes=sens, MaxSteps=6 if t else 5)))
    jobs.append(('Void', dict(MaxDepth=3 if t else 2, Kinds=set(spec_ops('Void', 'Wrap(', 'k')))))
    ctx.replay(ctx.tlcs(jobs, invs={'Context': ('Emit', 'Restored')}), min_cases=10000)


@check('C13', 'Numparam')
def c13(ctx):
    t = ctx.thorough()
    ops = ['brace', 'bracep', 'bracee', 'bracel', 'do', 'dop', 'lam', 'lamdo', 'lame', 'lamp', 'laml', 'def', 'class', 'module', 'sclass', 'if', 'paren', 'begin', 'str']
    plain = {'z', '_0', '_10', '_a', '_1()', 'z._1', ':_1'}
    forms = {(f, x) for f in ('bare', 'call', 'cmd', 'plus', 'str', 'asgn', 'recv') for x in ('_1', '_9')}
    jobs = [('Numparam', dict(Openers=set(ops), Stmts=forms | {('bare', '_2')}, Probes=plain, MaxSteps=2, Decl={'_1'}))]
    for o in ops:
        jobs.append(('Numparam', dict(Openers={o, 'brace', 'lam'}, Stmts={('bare', '_1'), ('recv', '_2')}, Probes={'_0'} if t else set(), MaxSteps=6 if t else 5, Decl={'_1'})))
    jobs.append(('Numparam', dict(Openers={'brace', 'def'}, Stmts={('bare', '_1'), ('bare', '_3')}, Probes=set(), MaxSteps=7 if t else 6, Decl={'_1'})))
    jobs.append(('Numparam', dict(Openers={'brace', 'def', 'lamp', 'if'}, Stmts={('bare', f'_{i}') for i in range(1, 10)}, Probes={'_0'}, MaxSteps=2, Decl={f'_{i}' for i in range(1, 10)} | {'_0', '_10', '_1a', '_'})))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C14', 'Params')
def c14(ctx):
    t = ctx.thorough()
    kinds = ['req', 'm1', 'm2', 'm3', 'm4', 'm5', 'opt', 'opt2', 'rest', 'arest', 'kw', 'kwopt', 'kwrest', 'akwrest', 'kwnil', 'blk', 'ablk', 'fwd']
    where = {'def', 'defbare', 'defs', 'endless', 'brace', 'do', 'shadow', 'comma', 'nl', 'lam', 'lamdo', 'lambare', 'lambaredo'}
    jobs = [('Params', dict(Kinds=set(kinds), MaxLen=3 if t else 2, Where=where, NameSet={'fresh', 'first', '_u', '\xc3\xa9', '\xe3\x81\x82'}, Defaults={'1', 'own', 'prev', 'call', 'paren'})),
            ('Params', dict(Kinds={'req', 'm1', 'opt', 'rest', 'kw', 'kwopt', 'kwrest', 'blk'}, MaxLen=4 if t else 3, Where={'def', 'brace', 'lam'}, NameSet={'fresh', 'first'}, Defaults={'1'})),
            ('Params', dict(Kinds={'req', 'opt', 'rest', 'kw', 'kwrest', 'blk'}, MaxLen=7 if t else 6, Where={'def', 'do', 'lambare'}, NameSet={'fresh'}, Defaults={'prev'})),
            ('Params', dict(Kinds={'m4', 'opt', 'arest', 'kwopt', 'akwrest', 'ablk', 'fwd'}, MaxLen=6 if t else 5, Where={'def', 'defbare', 'lamdo'}, NameSet={'fresh'}, Defaults={'call'})),
            ('Params', dict(Kinds={'m3', 'req', 'm2', 'opt2', 'rest', 'kwnil'}, MaxLen=6 if t else 5, Where={'defs', 'brace', 'shadow', 'endless'}, NameSet={'fresh'}, Defaults={'1'}))]
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C15', 'Forward')
def c15(ctx):
    t = ctx.thorough()
    ops, uses = set(spec_ops('Forward', 'Fr(')), set(spec_ops('Forward', 'Us(', 'u'))
    few = {'def', 'def...', 'def&', 'brace', 'sclass', 'lam', 'brace&', 'class'}
    jobs = [('Forward', dict(Openers=ops, MaxSteps=2, Uses=uses, Fixed={'f', 'b'}))]
    ol = sorted(ops - few)
    for i in range(0, len(ol), 7):
        jobs.append(('Forward', dict(Openers=set(ol[i:i + 7]) | {'def', 'def...', 'def&', 'brace', 'sclass'}, MaxSteps=4 if t else 3, Uses={'f', 'ba'}, Fixed={'fa'})))
    jobs.append(('Forward', dict(Openers=few, MaxSteps=6 if t else 4, Uses={'fa', 'b'}, Fixed={'f', 'ba'})))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C16', 'Pattern')
def c16(ctx):
    t = ctx.thorough()
    leaves, wraps = set(spec_ops('Pattern', 'Leaf(')), set(spec_ops('Pattern', 'W('))
    places = {'=>', 'in', 'if', 'then', 'nl', 'guard', 'unless', 'two', 'empty'}
    jobs = [('Pattern', dict(Nests={'pinin', 'pincase'}, Leaves=leaves, Wraps=wraps, MaxDepth=1, Naming='fresh', Places=places))]
    wl = sorted(wraps)
    for nm in ('same', 'under', '_'):
        jobs.append(('Pattern', dict(Nests=set(), Leaves={'var', 'kvar', 'qvar', 'starv', 'kwrest', 'int', 'topk'}, Wraps=wraps, MaxDepth=2, Naming=nm, Places={'=>', 'nl'})))
    for nm, lv in (('fresh', {'var', 'pin', 'endless', 'kvar'}), ('fresh', {'int', 'const', 'lambda', 'K()'})):
        jobs.append(('Pattern', dict(Nests=set(), Leaves=leaves if t else lv, Wraps=wraps, MaxDepth=2, Naming=nm, Places={'then', 'in'})))
    jobs.append(('Pattern', dict(Nests=set(), Leaves={'var'}, Wraps={'arr3', 'hash', 'cpk', 'paren', 'altl', 'as', 'top3', 'hashd', 'find'}, MaxDepth=5 if t else 4, Naming='fresh', Places={'nl'})))
    # a complete match inside of another
    for nm in ('same', 'fresh', 'under'):
        jobs.append(('Pattern', dict(Nests={'pinin', 'pincase'}, Leaves={'var', 'kvar', 'topk', 'int'}, Wraps={'arrd', 'arr3', 'hashdd', 'hashd', 'hashv', 'rarr', 'as', 'hashdv', 'top3', 'topk'}, MaxDepth=4 if t else 3, Naming=nm, Places={'nl'})))
    jobs.append(('Pattern', dict(Nests=set(), Leaves={'var'}, Wraps={'arrr', 'hashv', 'cp1', 'altr', 'as', 'topk'}, MaxDepth=5 if t else 4, Naming='same', Places={'=>'})))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C25', 'Assign')
def c25(ctx):
    t = ctx.thorough()
    good = set(spec_ops('Assign', 'Tg(', 't'))
    bad = {'self', 'nil', 'true', 'false', 'file', 'line', 'enc', 'nth', 'nth2', 'amp', 'tick', 'quote', 'plus', 'num', 'num9'}
    forms, vals = {'=', 'op', 'for', 'rescue'}, {'int', 'two', 'splat', 'mixed', 'cmd', 'recvcmd', 'asgn', 'opasgn', 'tern', 'array', 'paren', 'resc'}
    ctxs = {'top', 'paren', 'block', 'def', 'class', 'if', 'mod', 'str'}
    jobs = []
    gl = sorted(good | bad)
    for i in range(0, len(gl), 8):
        jobs.append(('Assign', dict(Targets=set(gl[i:i + 8]), MaxItems=1, MaxDepth=0, Forms=forms, Vals=vals, Ctxs=ctxs, Spaced=True)))
        jobs.append(('Assign', dict(Targets=set(gl[i:i + 8]) | {'lvar', 'safe'}, MaxItems=3 if t else 2, MaxDepth=1, Forms=forms, Vals={'int', 'mixed'}, Ctxs={'top', 'def'}, Spaced=False)))
    jobs.append(('Assign', dict(Targets={'lvar', 'attr', 'idx'}, MaxItems=5 if t else 4, MaxDepth=3, Forms={'=', 'for'}, Vals={'int', 'two'}, Ctxs={'top'}, Spaced=False)))
    jobs.append(('Assign', dict(Targets={'lvar', 'safe', 'const', 'self'}, MaxItems=4 if t else 3, MaxDepth=2, Forms={'=', 'for'}, Vals={'cmd'}, Ctxs={'def'}, Spaced=False)))
    jobs.append(('Assign', dict(Targets={'lvar'}, MaxItems=7 if t else 6, MaxDepth=4, Forms={'='}, Vals={'splat', 'cmd', 'resc'}, Ctxs={'top', 'block'}, Spaced=False)))
    jobs.append(('Assign', dict(Targets={'lvar', 'scoped', 'gvar'}, MaxItems=2, MaxDepth=2, Forms=forms, Vals=vals, Ctxs=ctxs, Spaced=False)))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C17', 'DoBind')
def c17(ctx):
    t = ctx.thorough()
    calls = ['n', 'n1', 'xn', 'xn1', 'x&n', 'x::n', 'super', 'super1', 'idx']
    leaves = set(calls + ['lam', 'lamp', 'lamb', 'lambr', '1', '@c', 'K', 'str', 'nil'])
    frames = sorted(set(spec_ops('DoBind', 'CmdF(', 'k')))
    jobs = []
    groups = [['m', 'm2', 'x.m', 'sup', 'mk'], ['x&.m', 'x::m', 'mk2', 'ms', 'm**'], ['x.m2', 'x::M', 'M', 'm=>', 'm'], ['y=', '@y=', 'x.y=', 'y+=', 'x[]||='],
              ['+', '==', '&&', '?:', '|', '!', 'defined'], ['return', 'and', 'not', 'if', 'case', 'mod', 'ifmod', 'seq'], ['.q', '&.q', '.q1', '::q1', '.q{', '.q c', '.q do', '.q c do'],
              ['(', '[', 'z(', 'z(,', 'z[', 'z({', 'str', 'begin'], ['q{', 'q{p', '->{', '->do', '->()do', '->(=', 'def', 'sclass'], ['q do', 'q1 do', 'xq do', 'wbody', 'fbody', 'ibody', 'inl', 'ebody', 'hbody', 'nbody', 'ubody'],
              ['while', 'until', 'for', 'whilenl']]
    assert set(frames) <= {x for g in groups for x in g}
    allf = {x for g in groups for x in g}
    jobs.append(('DoBind', dict(Leafs=leaves, Frames=allf, MaxSteps=2)))
    for g in groups:
        jobs.append(('DoBind', dict(Leafs={'n', 'xn1', 'lam', '1'} if t else {'n', 'lam'}, Frames=set(g) | {'m', 'y=', '(', 'while', 'q do', 'z('}, MaxSteps=4 if t else 3)))
    jobs.append(('DoBind', dict(Leafs={'n', 'lamp'}, Frames={'m', 'm2', '(', 'while', 'z('} | ({'y='} if t else set()), MaxSteps=6 if t else 5)))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C28', 'Interp')
def c28(ctx):
    t = ctx.thorough()
    kinds = ['dq', '%(', '%Q[', '%{', '%Q|', '`', '%x(', '/', '%r{', ':"', '%W[', '%W{', '%I(', '<<A', '<<-A', '<<`A`', '<<~A', 'label', 'cat']
    codes = set(spec_ops('Interp', 'Code(', 'k'))
    raws = set(spec_ops('Interp', 'RawN(', 'k'))
    pieces = set(spec_ops('Interp', 'Piece(', 'p')) | {'x'}
    jobs = []
    for i in range(0, len(kinds), 3):
        ks = set(kinds[i:i + 3])
        jobs.append(('Interp', dict(Kinds=ks, Codes={'f'}, Pres=pieces | {''}, Posts=pieces | {''}, MaxDepth=1, Raws=raws)))
        jobs.append(('Interp', dict(Kinds=ks, Codes=codes, Pres={'x', ''}, Posts={'', '}'} if i not in (3, 6, 9) else {'', '{}'}, MaxDepth=1, Raws=set())))
    # two levels: every literal in every literal
    for i in range(0, len(kinds), 2):
        jobs.append(('Interp', dict(Kinds=set(kinds), Codes={'f'} if not t else {'f', 'blk', '1;f'}, Pres={'#', '()'} if not t else {'#', '()', '{}'}, Posts={'{}'} if not t else {'{}', ''}, MaxDepth=2, Raws=set()) if i == 0 else
                     dict(Kinds=set(kinds[i:i + 2]) | {'dq'}, Codes={'{k}', 'cmt', 'blk', '1;f', 'm(f)'} if t else {'{k}', 'cmt', 'blk'}, Pres={'x'}, Posts={''}, MaxDepth=2, Raws=set())))
    jobs.append(('Interp', dict(Kinds={'dq', '<<A', '<<~A', '%{', '/', '%W['}, Codes={'f'}, Pres={'x'}, Posts={'{}'}, MaxDepth=4 if t else 3, Raws=set())))
    jobs.append(('Interp', dict(Kinds={'dq', '%{'}, Codes={'f', 'lam'}, Pres={''}, Posts={'#'}, MaxDepth=6 if t else 5, Raws=set())))
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C07', 'Comment')
def c07(ctx):
    t = ctx.thorough()
    pieces = spec_ops('Comment', 'Pc(', 'p')
    texts = {'', '#', '# x', '##', '# "', '# =begin', '# \xc3\xa9', '# __END__', '#{a}', '#!x', '# \\', "# '", '#\t', '# <<A', '# \xff', '# a:\xe9 b', '#\xff: x', '#@x', '# }', '# end', '# /'}
    docs = {('=begin', 'x # y', '=end'), ('=begin x', '=end y'), ('=begin', '', '=endx', ' =end', '=end'), ('=begin', '=begin', "'", '=end\t# z'), ('=begin', '__END__', '=end')}
    wr = {'', 'bom', 'def', 'do', 'brace', 'class', 'str', 'hd', 'arg', 'if', 'paren'}
    modes = {'all', 'odd', 'even'}
    jobs = []
    pl = sorted(pieces)
    for i in range(0, len(pl), 8):
        ps = set(pl[i:i + 8])
        jobs.append(('Comment', dict(Pieces=ps, Texts=texts, Docs=docs, Modes={'all'} if not t else modes, Wrappers={'', 'bom', 'def', 'str'}, MaxPieces=1, NL='\n', Ends={'nl', 'eof'})))
        jobs.append(('Comment', dict(Pieces=ps, Texts={'', '# x'}, Docs={('=begin', '=end')}, Modes=modes, Wrappers=wr - {'str', 'hd'}, MaxPieces=1, NL='\r\n', Ends={'nl', 'eof'})))
        jobs.append(('Comment', dict(Pieces=ps | {'stmt'}, Texts={'# x'}, Docs={('=begin', '=end')}, Modes={'odd', 'even'}, Wrappers=wr, MaxPieces=2, NL='\n', Ends={'nl', 'eof', 'end', 'endeof', 'nul', '^D', '^Z'})))
    if t:
        jobs.append(('Comment', dict(Pieces=set(pl), Texts={'# x'}, Docs=set(), Modes={'all'}, Wrappers={'', 'do'}, MaxPieces=2, NL='\n', Ends={'nl', 'eof'})))
    ctx.replay(ctx.tlcs(jobs, invs={'Comment': ('Emit', 'Disjoint')}), min_cases=5000)


@check('C08', 'Magic')
def c08(ctx):
    t = ctx.thorough()
    keys = ['encoding', 'coding', 'Encoding', 'ENCODING', 'codinG', 'frozen_string_literal', 'frozen-string-literal', 'frozen-string_literal', 'Frozen_String_Literal', 'FROZEN-STRING-LITERAL',
            'warn_indent', 'warn-indent', 'Warn-Indent', 'shareable_constant_value', 'shareable-constant_value', 'Shareable-Constant-Value']
    near = ['encodin', 'xencoding', 'encodings', 'fileencoding', 'frozen_string_literals', 'frozenstringliteral', 'frozen.string.literal', 'warn_indent_', 'warn__indent', 'shareable_constant', 'todo', '-warn_indent', 'cod-ing', '\xc3\xa9ncoding', 'encoding\xc3\xa9', '\xffcoding']
    vals = {'utf-8', 'UTF-8', 'binary', 'ASCII-8BIT', 'utf-8-unix', 'Utf-8-DOS', 'true', 'false', 'x', 'literal', 'q', 'qe', 'qesc', 'q0', "'utf-8'", 'a:b'}
    places = {'top', 'eof', 'ind', 'second', 'blank', 'shebang', 'doc', 'crlf', 'later', 'def', 'args', 'bom'}
    jobs = []
    few = {'utf-8', 'true', 'q'}
    jobs.append(('Magic', dict(Forms={'plain'}, Keys=set(keys + near), Vals=vals, Blanks={'', ' '}, MaxSet=1, Pres={''}, Posts={'', ' '}, Places={'top', 'second'})))
    jobs.append(('Magic', dict(Forms={'plain'}, Keys=set(keys + near), Vals=few, Blanks={'', ' ', '\t ', '\f'}, MaxSet=1, Pres={''}, Posts={'', ' ', ' x', ';', ' ;', '"', '\t', ' -*-', ',x y'}, Places={'top', 'eof', 'def'})))
    jobs.append(('Magic', dict(Forms={'plain'}, Keys={'coding', 'warn-indent', 'todo'}, Vals=few, Blanks={'', ' '}, MaxSet=1, Pres={''}, Posts={'', ' x'}, Places=places)))
    jobs.append(('Magic', dict(Forms={'emacs'}, Keys=set(keys + near), Vals=vals, Blanks={' '}, MaxSet=1, Pres={'', ' '}, Posts={'', ' x'}, Places={'top', 'second'})))
    jobs.append(('Magic', dict(Forms={'emacs'}, Keys={'coding', 'FROZEN-STRING-LITERAL', 'mode'}, Vals={'utf-8', 'q'}, Blanks={'', ' ', '\t'}, MaxSet=1, Pres={'', ' ', ' x ', '!', ' * - ', '--', '- *', '***', ' -* ', 'x-', ' \xc3\xa9'}, Posts={'', ' x', '-*-', ' -*- x: y', '\xc3\xa9: z'}, Places={'top', 'eof', 'crlf', 'bom'})))
    jobs.append(('Magic', dict(Forms={'emacs'}, Keys={'coding', 'warn_indent', 'mode', 'Shareable-Constant-Value'}, Vals={'utf-8', 'q', 'qesc'}, Blanks={'', ' '}, MaxSet=2, Pres={' '}, Posts={''}, Places={'top', 'second'})))
    jobs.append(('Magic', dict(Forms={'emacs'}, Keys={'Coding', 'frozen-string_literal', 'mode'}, Vals={'utf-8'}, Blanks={' '}, MaxSet=4 if t else 3, Pres={' '}, Posts={''}, Places=places if t else {'top', 'args'})))
    ctx.replay(ctx.tlcs(jobs, invs={'Magic': ('Emit', 'Ordered')}), min_cases=5000)


@check('C09', 'Encoding')
def c09(ctx):
    t = ctx.thorough()
    lines = {'note', 'sheb', 'shebh', 'empty', 'blank', 'sheb2', 'doc', 'code', 'almost', 'str'}
    names = {'utf-8', 'UTF-8', 'Utf-8', 'ascii-8bit', 'ASCII-8BIT', 'Binary', 'BINARY', 'utf-8-unix', 'UTF-8-Mac', 'utf-8-dos', 'koi8-r', 'US-ASCII', 'utf8', 'UTF-16LE', 'koi8-r-unix', 'KOI8-R-dos', 'x-mac', 'x'}
    forms = {'p', 'e', 'i', 'em', 'emh', 'q', 'qe', 'c', 'vim', 'free', 'freeb', 'trail', 'eq', 'eqb'}
    decs = ['none', 'id', 'err', 'unsup', 'latin1', 'drop']
    bodies = {'none', 'str', 'id', 'sym', 'hd', 'cmt', 'two'}
    jobs = []
    for d in decs:
        jobs.append(('Encoding', dict(Lines=lines, DeclForms=forms, Names=names, Bodies={'str', 'cmt', 'none'}, Decs={d}, MaxLines=1, Eols={'\n'}, Boms={''})))
        jobs.append(('Encoding', dict(Lines=lines, DeclForms=forms, Names={'koi8-r', 'utf-8', 'x-mac'}, Bodies=bodies, Decs={d}, MaxLines=2, Eols={'\n', '\r\n'}, Boms={''})))
        jobs.append(('Encoding', dict(Lines=lines if t else {'note', 'shebh', 'empty', 'code'}, DeclForms=forms if t else {'p', 'emh', 'c', 'freeb'}, Names={'koi8-r', 'utf-8'}, Bodies={'str', 'id'}, Decs={d}, MaxLines=3, Eols={'\n'}, Boms={''})))
    # after a byte order mark
    jobs.append(('Encoding', dict(Lines=lines - {'sheb', 'shebh'}, DeclForms=forms, Names={'koi8-r', 'utf-8', 'x-mac'}, Bodies=bodies, Decs={'none', 'id', 'err'}, MaxLines=2, Eols={'\n', '\r\n'}, Boms={'\xef\xbb\xbf'})))
    ctx.replay(ctx.tlcs(jobs, invs={'Encoding': ('Emit', 'Once', 'FailsOnly')}), min_cases=5000)


@check('C10', 'Source')
def c10(ctx):
    t = ctx.thorough()
    jobs = []
    for nm in ('n', '(eval)', 'a b/c.rb'):
        jobs.append(('Source', dict(Chars={'a', '\n'}, MaxLen=12 if t else 9, Names={nm})))
        jobs.append(('Source', dict(Chars={'a', ' ', '\n', '\r', '\xc3\xa9'}, MaxLen=6 if t else 5, Names={nm})))
    jobs.append(('Source', dict(Chars={'a', '\\', "'", '\n', '\xe2\x82\xac', '\t', '~', '^', ':'}, MaxLen=5 if t else 4, Names={'n'})))
    recs = ctx.tlcs(jobs, invs={'Source': ('Emit', 'Partition')})
    ctx.replay(recs, min_cases=1000)


NLWRAP = {'par', 'brace', 'do', 'lam', 'if', 'else', 'while', 'arg', 'def'}
NLTAIL = {'', 'nl', 'crlf', 'sp', 'nls', 'cm', 'semi', 'doc', 'docnl', 'end', 'endnl', 'endx', 'endcr', 'cmend', 'end2', 'nul', 'nul2', 'nul3', '^D', '^Z', '^Z2', '^D2'}


@check('C23', 'Newline')
def c23(ctx):
    t = ctx.thorough()
    tpls = sorted(spec_ops('Newline', 'Tp(', 't'))
    jobs = []
    base = dict(Tpls={tpls[0]}, MaxOdd=0, Wrs={''}, Tails={''}, FirstFrom=1, FirstTo=1)
    for i in range(0, len(tpls), 6):
        jobs.append(('Newline', dict(base, Mode='tpl', Tpls=set(tpls[i:i + 6]), MaxOdd=3 if t else 2)))
        jobs.append(('Newline', dict(base, Mode='tpl', Tpls=set(tpls[i:i + 6]), MaxOdd=2 if t else 1, Wrs=NLWRAP)))
    for i in range(1, 131, 10):
        jobs.append(('Newline', dict(base, Mode='pair', FirstFrom=i, FirstTo=i + 9)))
    jobs.append(('Newline', dict(base, Mode='pair', FirstFrom=1, FirstTo=200 if t else 2, Wrs=NLWRAP)))
    jobs.append(('Newline', dict(base, Mode='tail', Tails=NLTAIL)))
    jobs.append(('Newline', dict(base, Mode='open', Tails=NLTAIL)))
    ctx.replay(ctx.tlcs(jobs, invs={'Newline': ('Emit', 'Bounded')}), min_cases=5000)


RESERVED = '__ENCODING__ __LINE__ __FILE__ BEGIN END alias and begin break case class def defined? do else elsif end ensure false for if in module next nil not or redo rescue retry return self super then true undef unless until when while yield'.split()
OPNAMES = '+ - * / % ** == === =~ != !~ < <= > >= <=> | ^ & << >> +@ -@ ! ~ [] []= `'.split()


@check('C24', '{Reserved,Names}')
def c24(ctx):
    t = ctx.thorough()
    fol = spec_ops('Reserved', 'Fol(', 'k')
    names = RESERVED + OPNAMES
    jobs = []
    base = dict(Words={'if'}, Names2={'if'}, Follows=fol, MaxLinks=1, Links={'.', '&.', '::', '.()', '&.()', '::()', '. '})
    for i in range(0, len(names), 9):
        ws = set(names[i:i + 9])
        jobs.append(('Reserved', dict(base, Mode='sole', Words=ws)))
        jobs.append(('Reserved', dict(base, Mode='double', Words=ws, Names2=set(names), Follows=fol if t else {'', 'if', ';'})))
        jobs.append(('Reserved', dict(base, Mode='chain', Words=ws)))
    jobs.append(('Reserved', dict(base, Mode='chain', Words=set(names) if t else {'if', 'class', 'end', 'self', 'do', 'BEGIN', 'defined?', '+', '-@', '[]', '`', '!'}, MaxLinks=2, Follows={'', 'if', 'do', '{}'}, Links={'.', '&.', '::', '.()'})))
    jobs.append(('Reserved', dict(base, Mode='pre', Words=spec_ops('Reserved', 'KwExpr(', 'x'))))
    jobs.append(('Reserved', dict(base, Mode='mod')))
    jobs.append(('Reserved', dict(base, Mode='bad')))
    jobs += name_jobs(5 if t else 4)
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


@check('C27', 'Blank')
def c27(ctx):
    t = ctx.thorough()
    heads = sorted(set(spec_set('Blank', 'ArgHeads') + ['v'] + spec_set('Blank', 'FnHeads') + spec_set('Blank', 'EndHeads') + spec_set('Blank', 'BegHeads') + spec_set('Blank', 'KwHeads')))
    ops = sorted(spec_ops('Blank', 'Res ==', 'o'))
    ctxs = spec_ops('Blank', 'Ctx1(', 'q')
    base = dict(Before={'', ' ', '\t', '\u010b', '\u010c', ' \\\n'} if t else {'', ' ', ' \\\n'}, After={'', ' ', '\n', '\\\n'}, Ctxs=ctxs)
    jobs = [('Blank', dict(base, Heads=set(heads[i::8]), Ops=set(ops), MaxCtx=2 if t else 1)) for i in range(8)]
    ctx.replay(ctx.tlcs(jobs), min_cases=5000)


# lexemes of every kind, also malformed and truncated ones; control bytes as U+0100 + code, other bytes as themselves
# where a multi-byte character stands in the place of another
WIDE = ['%Ã©', '%xÃ©', '%wÃ©a', '\\cÃ©', '\\C-Ã©', '\\M-Ã©', '\\M-\\cÃ©', '\\xÃ©', '\\uÃ©', '\\u00Ã©', '\\u{Ã©', '\\u{61Ã©', '\\u{61 Ã©}', '$Ã©', '$-Ã©', '@Ã©', '@@Ã©', '?Ã©', '?Ã©a', '?\\Ã©', ':Ã©', '1Ã©', '0xÃ©', '1_Ã©', '1.Ã©', '1eÃ©', '/a/Ã©', '<<Ã©', '<<"Ã©', 'Ã©?', 'Ã©=', '\\Ã©', '#$Ã©', '#@Ã©', 'ã\x81\x82', 'ð\x9f\x98\x80', '%iÃ©', '%rÃ©', '%qÃ©']
LEXEMES = WIDE + ['a', 'K', '@a', '@@a', '$a', '$1', '$&', 'nil', 'self', '__FILE__', '__LINE__', '__ENCODING__', '1', '0x', '1.5', '1.', '1r', '2i', '1e', '09', '0b2', '1_', ':a', ':"', '"s"', "'s'", '`x`',
           '"', "'", '`', '%w[a', '%i[', '%q(x)', '%Q(', '%(x)', '%r{a}', '%x', '%z', '%', '/', '/re/i', '/(?<a>x)/', '?a', '?', '?\\u', '<<A', '<<~A', "<<-'A'", '<<"A', '\nA\n', '\n  A\n', ';',
           'if', 'unless', 'while', 'until', 'case', 'when', 'in', 'then', 'else', 'elsif', 'end', 'begin', 'rescue', 'ensure', 'def', 'class', 'module', 'do', '{', '}', '(', ')', '[', ']', '|', '||', '&', '&&', '*', '**',
           '+', '-', '^', '~', '!', '!=', '==', '===', '=~', '!~', '<=>', '<', '>', '<=', '<<', '>>', '=', '+=', '||=', '->', '=>', ',', '.', '&.', '::', '..', '...', ':', 'a:', '"a":', '_1', 'it', 'alias', 'undef',
           'yield', 'super', 'return', 'break', 'next', 'redo', 'retry', 'defined?', 'not', 'and', 'or', 'BEGIN', 'END', 'for', '#c', '\\', '\t', '#{', '#@a', '#$', 'a?', 'a!', 'a=', '\\u{61 62}', '\\u{', '\\u12', '\\x', '\\C-', '\\M-\\c', '\\c\\M-',
           '\\101', 'é', 'Ã', 'Ã©', 'ÿ', 'Ā', 'Ą', 'Ě', '\r', '\r\n', '__END__', '\n__END__\n', '\n=begin', '\n=end', '->(x){', '**nil', '&b', '^a', '^(', '{a:', '-1', '@1', '@', '$', '$-', '# -*- coding: x -*-', '# encoding: ascii-8bit\n', '#!', 'ā', 'ċ']
FRAMES = [('', ''), ('def m; ', '; end'), ('"', '"'), ('"#{', '}"'), ('m(', ')'), ('[', ']'), ('case a\nin ', '\n1\nend'), ('x = ', ''), ('class K; ', '\nend'), ('->(', ') {}'), ('def m(', '); end'), ('m { |', '| }'),
          ('<<~A\n  ', '\nA\n'), ("<<-'A'\n", '\n A\n'), ('<<A', '\nx\nA\n'), ('%w[', ']'), ('%I(', ')'), ('/', '/'), (':"', '"'), ('`', '`'), ('{', '}'), ('a.', ''), ('def ', '; end'), ('alias ', ' b'), (':', ''), ('?', ''), ('a ? ', ' : b'), ('a, ', ' = 1'),
          ('if ', ' then end'), ('begin; 1; rescue ', '; end'), ('a ', ''), ('while ', ' do end'), ('# ', '\n'), ('=begin\n', '\n=end\n'), ('1\n', '\n.b'), ('p <<A, ', '\n#{\nA\n'), ('"\\', '"'), ('?\\', ''), ('/\\', '/'), ('%w[\\', ']'), ("'\\", "'"), ('$', ''), ('@', ''), ('0', ''), ('1', ''), ('"#', '"')]
CORE = ['a', 'K', '@a', '1', ':a', '"s"', '"', '/', '%w[', '<<~A', '\nA\n', ';', '\n', 'if', 'while', 'case', 'in', 'then', 'else', 'end', 'begin', 'rescue', 'def', 'class', 'do', '{', '}', '(', ')', '[', ']', '|', '&', '*', '**', '-', '!', '=', '+=', '->', '=>', ',', '.', '::', '..', '...', '?', ':', 'a:', '_1', 'yield', 'return', 'not', 'and', '#{', '\\', 'ÿ', 'Ā', '=begin']


def total(ctx, opt, soup=True):
    """Inputs without any assumption of validity: sequences of lexemes in every frame, and damaged programs."""
    t = ctx.thorough()
    fr = [tuple(f) for f in FRAMES]
    jobs = []
    for i in range(8):
        jobs.append(('Soup', dict(Lex=LEXEMES, First=LEXEMES[i::8], Glue={'', ' ', '\n'} if t else {'', ' '}, MaxLen=2, Frames=[('', '')], Opt=opt)))
        jobs.append(('Soup', dict(Lex=LEXEMES if t else CORE, First=LEXEMES[i::8], Glue={' ', ''} if t else {''}, MaxLen=2, Frames=fr[1:], Opt=opt)))
        if opt != '6' or t:
            jobs.append(('Soup', dict(Lex=CORE, First=CORE[i::8], Glue={' ', ''} if t else {' '}, MaxLen=3, Frames=[('', '')], Opt=opt)))
    ins = {'"', '\\', '(', '}', 'end ', '\n', 'ÿ', 'Ā', '#{', '<<A'}
    for sd, parts in (('leaf', 1), ('stmt', 1), ('wrapa', 2), ('wrap1', 2), ('wrapstr', 2), ('wrapcmd', 2)):
        for lo in range(parts):
            jobs.append(('Damage', dict(Seeds=sd, Lo=lo, Hi=parts, Kinds={'cut', 'tail', 'del', 'swap', 'dup'}, Ins=ins, MaxDamage=1, MaxDel=3 if t else 2, Opt=opt)))
            if t or sd in ('leaf', 'stmt', 'wrapa'):
                jobs.append(('Damage', dict(Seeds=sd, Lo=lo, Hi=parts, Kinds={'ins', 'rep'}, Ins=ins, MaxDamage=1, MaxDel=1, Opt=opt)))
    jobs.append(('Damage', dict(Seeds='leaf', Lo=0, Hi=1, Kinds={'cut', 'del', 'ins'}, Ins={'"', '\\', '#{'}, MaxDamage=2, MaxDel=1, Opt=opt)))
    return jobs




@check('C01', '{Soup,Damage}')
def c01(ctx):
    ctx.replay(ctx.tlcs(total(ctx, '1')), min_cases=100000)


@check('C02', '{Soup,Damage}')
def c02(ctx):
    ctx.replay(ctx.tlcs(total(ctx, '2')), min_cases=100000)


@check('C06', '{Soup,Damage}')
def c06(ctx):
    ctx.replay(ctx.tlcs(total(ctx, '6')), min_cases=50000)


@check('C26', 'Nest')
def c26(ctx):
    t = ctx.thorough()
    con = sorted(spec_ops('Nest', 'Con(', 'x'))
    leaf = spec_ops('Nest', 'Lf(', 'x')
    every = {'rm', 'dup', 'rep', 'sw'}
    base = dict(Fill=set(con), Leaf={'a'}, MinDepth=0, MaxDepth=1, Damages=every, Repeat=1)
    jobs = [('Nest', dict(base, Leaf=leaf)), ('Nest', dict(base, Leaf=leaf, MinDepth=2, MaxDepth=2, Damages={'rm', 'rep'}))]
    jobs.append(('Nest', dict(base, MinDepth=2, MaxDepth=2)))
    for i in range(6):
        jobs.append(('Nest', dict(base, Fill=set(con[i::6]), MinDepth=3, MaxDepth=3)))
        jobs.append(('Nest', dict(base, Fill=set(con[i::6]), MaxDepth=1, MinDepth=1, Damages={'rm', 'rep', 'dup'}, Repeat=25)))
        jobs.append(('Nest', dict(base, Fill=set(con[i::12]), MaxDepth=2, MinDepth=2, Damages={'rm'}, Repeat=9)))
        if t:
            jobs.append(('Nest', dict(base, Fill=set(con[i * 9:i * 9 + 20]), MinDepth=3, MaxDepth=3)))
            jobs.append(('Nest', dict(base, Fill=set(con[i::9]), MinDepth=4, MaxDepth=4, Damages={'rm', 'rep', 'dup'})))
    # every program of the other specifications leaves the bookkeeping as it was
    seen = sorted({(r['s'], r.get('o', '')) for r in ctx.tlcs(catalogue(ctx))})
    other = [dict(s=x, o='api=sum,sum=v' + (',' + o if o else ''), left='') for x, o in seen if 'api=' not in o and 'decl' not in o]
    ctx.replay(ctx.tlcs(jobs) + other, min_cases=5000)


def forms(t):
    """Jobs of Forms: every combination of the optional parts of compound constructs."""
    import itertools
    wr = ['begin', 'def', 'def()', 'def p', 'defs', 'class', 'class<', 'class<<', 'module', 'do', 'do|p|', '->do', '->()do', 'm()do', 'm a do']
    none = ()
    full = {none} | set(itertools.product(['', 'K', 'K,L', '*a', 'K,*a'], ['', 'v', '@v', 'a.m', 'a[1]'], ['then', '\n', ';', '\nthen'], ['', 'b', 'ab']))
    few = {none, ('', '', '\n', ''), ('K', 'v', 'then', 'b'), ('', 'v', ';', ''), ('*a', '', '\n', 'b')}
    two = {none, ('', '', '\n', ''), ('K', '', 'then', 'b')}
    base = dict(FormSet={'body'}, Wrs={'begin'}, Clauses=few, Clauses2={none}, SepSet={'\n', '; ', ' '})
    jobs = [('Forms', dict(base, Clauses=full, Clauses2={none} if not t else two, SepSet={'\n', '; '} if t else {'\n'}))]
    jobs += [('Forms', dict(base, Wrs=set(wr[i::5]), Clauses2=two)) for i in range(5)]
    rest = [{'if', 'loop', 'for'}, {'case'}, {'match'}, {'def', 'endless', 'class'}, {'block'}, {'lambda', 'call', 'index', 'array', 'hash', 'reject'}, {'seq'}]
    jobs += [('Forms', dict(base, FormSet=f)) for f in rest]
    return jobs


def name_jobs(n):
    """Jobs of Names."""
    odd = set('@$?!=-~*/\\;,.:<>"&`\'+%(){}[]|^# ')
    return [('Names', dict(Low={'a', '_', EAC, '\xe3\x81\x82', '\xf0\x9f\x98\x80'}, Up={'K', '\xc3\x89'}, Dig={'0', '1', '9'}, Odd=odd, MaxLen=n)),
            ('Names', dict(Low={'a', 'z', '_'}, Up={'A', 'Z'}, Dig=set('012'), Odd=odd, MaxLen=n - 1)),
            ('Names', dict(Low=set('bmqxy'), Up=set('BMX'), Dig=set('345678'), Odd=odd, MaxLen=2))]


def catalogue(ctx):
    """Programs of the other specifications, a little of each: what a stream of tokens is recorded from."""
    t = ctx.thorough()
    jobs = [('Ast', dict(Depth=1, LeafFrom=1, LeafTo=0))]
    jobs += [('Ast', dict(Depth=2, LeafFrom=i, LeafTo=i)) for i in (range(1, 97, 7) if t else (1,))]
    for s in ('', '-', '~'):
        jobs.append(('Heredoc', dict(Styles={s}, Quotes={'', "'", '"', '`'}, Lines={'empty', 'x2', 'xi', 'i2', 'Bline', 'esc'}, MaxLines=2, Ctxs=set(HCTX), TermInds={'', '  '}, Styles2={'', '-', '~'}, Eols={'\n'})))
        jobs.append(('Heredoc', dict(Styles={s}, Quotes={'', "'"}, Lines=set(HLINES), MaxLines=2 if t else 1, Ctxs={'cmd', 'two'}, TermInds={'', ' \t'}, Styles2={'-'}, Eols={'\n'})))
    for k in (('', 'Q', 'q', 'W'), ('w', 'I', 'i'), ('x', 'r', 's')):
        jobs.append(('Pct', dict(Kinds=set(k), Delims={'(', '<', '|'}, Chars={'g', ' ', '\n', '\\', '#{a}'}, MaxLen=4 if t else 3)))
    jobs.append(('Esc', dict(Kinds=set(DK + SK + RK), Chars={'a', '\\', '\n', 'u', 'M', '-', ' ', '#'}, MaxLen=4 if t else 3, Pre='\\')))
    kinds = ['dq', '%(', '%Q[', '%{', '%Q|', '`', '%x(', '/', '%r{', ':"', '%W[', '%W{', '%I(', '<<A', '<<-A', '<<`A`', 'label', 'cat']
    jobs.append(('Interp', dict(Kinds=set(kinds), Codes=set(spec_ops('Interp', 'Code(', 'k')), Pres={'x', ''}, Posts={'', '}'}, MaxDepth=1, Raws=set(spec_ops('Interp', 'RawN(', 'k')))))
    jobs.append(('Interp', dict(Kinds=set(kinds), Codes={'f'}, Pres={'#'}, Posts={'{}'}, MaxDepth=2, Raws=set())))
    pl = sorted(spec_ops('Comment', 'Pc(', 'p'))
    docs = {('=begin', '=end'), ('=begin x', 'y # z', '=end w')}
    jobs.append(('Comment', dict(Pieces=set(pl), Texts={'# x', '##', '# \xc3\xa9'}, Docs=docs, Modes={'all', 'odd', 'even'}, Wrappers={'', 'def', 'str', 'arg', 'hd'}, MaxPieces=1, NL='\n', Ends={'nl', 'eof', 'end', 'nul', '^Z'})))
    jobs.append(('Comment', dict(Pieces=set(pl), Texts={'# x'}, Docs=docs, Modes={'all', 'odd'}, Wrappers={'', 'do'}, MaxPieces=1, NL='\r\n', Ends={'nl', 'eof'})))
    tpls = sorted(spec_ops('Newline', 'Tp(', 't'))
    base = dict(Tpls={tpls[0]}, MaxOdd=0, Wrs={''}, Tails={''}, FirstFrom=1, FirstTo=1)
    jobs += [('Newline', dict(base, Mode='tpl', Tpls=set(tpls), MaxOdd=2 if t else 1)), ('Newline', dict(base, Mode='tail', Tails=NLTAIL)), ('Newline', dict(base, Mode='pair', FirstFrom=1, FirstTo=60 if t else 3))]
    names = RESERVED + OPNAMES
    rb = dict(Words=set(names), Names2={'if'}, Follows={'', 'if'}, MaxLinks=1, Links={'.', '&.', '::', '.()'})
    jobs += [('Reserved', dict(rb, Mode='sole')), ('Reserved', dict(rb, Mode='chain')), ('Reserved', dict(rb, Mode='pre', Words=spec_ops('Reserved', 'KwExpr(', 'x')))]
    heads = sorted(set(spec_set('Blank', 'ArgHeads') + ['v'] + spec_set('Blank', 'FnHeads')))
    jobs.append(('Blank', dict(Before={'', ' ', ' \\\n'}, After={'', ' ', '\\\n'}, Ctxs={sorted(spec_ops('Blank', 'Ctx1(', 'q'))[0]}, Heads=set(heads), Ops=set(spec_ops('Blank', 'Res ==', 'o')), MaxCtx=0)))
    jobs.append(('Pattern', dict(Nests=set(), Leaves=set(spec_ops('Pattern', 'Leaf(')), Wraps=set(spec_ops('Pattern', 'W(')), MaxDepth=1, Naming='fresh', Places={'=>', 'in', 'then', 'nl'})))
    kinds = {'req', 'm1', 'm2', 'm3', 'm4', 'm5', 'opt', 'opt2', 'rest', 'arest', 'kw', 'kwopt', 'kwrest', 'akwrest', 'kwnil', 'blk', 'ablk', 'fwd'}
    jobs.append(('Params', dict(Kinds=kinds, MaxLen=2, Where={'def', 'defbare', 'defs', 'endless', 'brace', 'shadow', 'lam', 'lambare'}, NameSet={'fresh'}, Defaults={'1'})))
    jobs.append(('Num', dict(Chars={'1', '0', '_', '.', 'e', 'r', 'i', 'x'}, MaxLen=5 if t else 4, Signs={'', '-', '+'})))
    jobs.append(('Assign', dict(Targets=set(spec_ops('Assign', 'Tg(', 't')), MaxItems=1, MaxDepth=0, Forms={'=', 'op', 'for', 'rescue'}, Vals={'int', 'two', 'splat', 'cmd', 'asgn', 'resc'}, Ctxs={'top', 'paren', 'def'}, Spaced=True)))
    jobs.append(('Assign', dict(Targets={'lvar', 'attr'}, MaxItems=4 if t else 3, MaxDepth=2, Forms={'=', 'for'}, Vals={'int', 'two', 'cmd'}, Ctxs={'top', 'block'}, Spaced=False)))
    jobs.append(('Prec', dict(MaxOps=2, BinOps=set(ARGOPS + STMTOPS + ['?']), PreOps=set(PREOPS))))
    calls = ['n', 'n1', 'xn', 'xn1', 'x&n', 'x::n', 'super', 'super1', 'idx', 'lam', 'lamp', 'lamb', 'lambr', '1', 'str']
    jobs.append(('DoBind', dict(Leafs=set(calls), Frames=set(spec_ops('DoBind', 'CmdF(', 'k')) | {'while', 'for', '(', 'z(', 'q{', 'q do', '->{', '->do', 'def', '.q do', '.q c do', 'y=', 'return'}, MaxSteps=2 if t else 1)))
    jobs.append(('Forward', dict(Openers=set(spec_ops('Forward', 'Fr(')), MaxSteps=1, Uses=set(spec_ops('Forward', 'Us(', 'u')), Fixed={'f', 'b'})))
    jobs.append(('Numparam', dict(Openers={'brace', 'do', 'lam', 'lamdo', 'def', 'if', 'str'}, Stmts={('bare', '_1'), ('call', '_2'), ('recv', '_9')}, Probes={'z'}, MaxSteps=3, Decl={'_1'})))
    jobs += forms(t) + name_jobs(4 if t else 3)
    return jobs


@check('C05', 'Tokens', how=TRACE % 'Tokens')
def c05(ctx):
    import random
    recs = ctx.tlcs(catalogue(ctx))
    srcs = sorted({r['s'] for r in recs})
    obs = ctx.harness([('v=tcd', tobytes(s)) for s in srcs])
    good = []
    for s, o in zip(srcs, obs):
        if not any(x[0] == 'error' for x in o.get('d', [])) and 'panic' not in o:
            good.append(dict(s=s, t=[[n, unesc(v), b, e] for n, v, b, e in o['t']], c=[[c[0], c[1]] for c in o['c']]))
    random.Random(ctx.seed).shuffle(good)
    ctx.trace_checks('Tokens', good if ctx.thorough() else good[:40000], min_records=20000)


@check('C29', 'Diag')
def c29(ctx):
    t = ctx.thorough()
    wr = set(spec_ops('Diag', 'Wr(', 'w'))
    base = dict(Wrap=wr, Second=False, MaxDepth=2, Keys={'1'}, MaxKeys=0)
    jobs = [('Diag', dict(base, Set=s, MaxDepth=3 if t else 2)) for s in ('warn', 'err', 'un', 'dots')]
    jobs += [('Diag', dict(base, Set=s, Second=True, MaxDepth=1)) for s in ('warn', 'dots', 'err')]
    keys = set(spec_ops('Diag', 'Key(', 'k'))
    jobs += [('Diag', dict(base, Set='keys', Keys=keys, MaxKeys=2)), ('Diag', dict(base, Set='keys', Keys={'a:', 'qa:', ':a', 'qs', '1', 'm', '**h', 'b:'}, MaxKeys=4 if t else 3))]
    ctx.replay(ctx.tlcs(jobs), min_cases=50000)
