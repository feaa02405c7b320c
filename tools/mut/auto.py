#!/usr/bin/env python3
"""Automatic mutants: auto.py OUT.py [N per file] [seed] [files…] writes MUT = {…} for run.py, with small changes of operators,
constants, conditions and statements at random places of the package (log calls, help texts and type hints excluded)."""
import ast, copy, random, sys
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
K = 'klayout_pex/'
FILES = {
    'rcx25/c/overlap_extractor.py': 'C01', 'rcx25/c/polygon_utils.py': 'C02,C03',
    'rcx25/c/sidewall_and_fringe_extractor.py': 'C02,C03,C21', 'rcx25/c/geometry_restorer.py': 'C21',
    'rcx25/extraction_results.py': 'C06,C07', 'rcx25/extractor.py': 'C05,C04,C01,C21', 'rcx25/r/r_extractor.py': 'C04',
    'klayout/rex_core.py': 'C04', 'rcx25/r/resistor_network.py': 'C24', 'rcx25/r/conductance.py': 'C24',
    'rcx25/netlist_expander.py': 'C07', 'rcx25/extraction_reporter.py': 'C21,C20', 'rcx25/pex_mode.py': 'C05',
    'klayout/netlist_expander.py': 'C12', 'klayout/netlist_csv.py': 'C12', 'klayout/netlist_reducer.py': 'C13',
    'klayout/lvs_runner.py': 'C17,C08', 'klayout/lvsdb_extractor.py': 'C19', 'klayout/shapes_pb2_converter.py': 'C19',
    'klayout/repair_rdb.py': 'C23', 'common/capacitance_matrix.py': 'C11', 'fastercap/fastercap_runner.py': 'C11,C17,C09',
    'fastcap/fastcap_runner.py': 'C11,C17', 'fastercap/fastercap_input_builder.py': 'C16',
    'fastercap/fastercap_model_generator.py': 'C15,C14', 'tech_info.py': 'C18,C16', 'util/multiple_choice.py': 'C16,C10',
    'magic/magic_ext_data_structures.py': 'C20', 'magic/magic_ext_file_parser.py': 'C20', 'magic/magic_log_analyzer.py': 'C20,C09',
    'magic/magic_runner.py': 'C17,C09', 'kpex_cli.py': 'C10,C17,C09,C05,C12,C08', 'env.py': 'C09,C17',
    'netlist/netlist_cli.py': 'C22', 'netlistsvg/netlist_json.py': 'C22', 'netlistsvg/netlistsvg_runner.py': 'C22',
    'util/argparse_helpers.py': 'C10,C17', 'rcx25/types.py': 'C06,C04'}
only = sys.argv[4:]
LOGS = {'debug', 'info', 'warning', 'rule', 'subproc', 'error', 'print', 'set_log_level', 'register_additional_handler'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}

def is_log(n):
    f = n.func if isinstance(n, ast.Call) else None
    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
    return nm in LOGS or nm in ('add_argument', 'add_argument_group', 'format_help') or nm.endswith('Exception') or nm.endswith('Error')

def mutants(src):
    tree = ast.parse(src)
    out = []
    def add(node, text, what):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, text, what))
    def visit(n, ann=False):
        if isinstance(n, ast.Call) and is_log(n): return
        if isinstance(n, ast.Raise): 
            add(n, 'pass', 'drop raise'); return
        if isinstance(n, ast.JoinedStr): return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None: visit(n.value)
            return
        if isinstance(n, ast.FunctionDef):
            for b in n.body: visit(b)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]; add(n, '(' + ast.unparse(m) + ')', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) :
            m = copy.deepcopy(n); m.op = BIN[type(n.op)](); add(n, '(' + ast.unparse(m) + ')', 'op')
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); add(n, '(' + ast.unparse(m) + ')', 'bool')
            for v in n.values: add(n, '(' + ast.unparse(v) + ')', 'bool-part')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub | ast.Not):
            add(n, '(' + ast.unparse(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): add(n, str(not n.value), 'const')
            elif isinstance(n.value, int): add(n, str(n.value + 1), 'const')
            elif isinstance(n.value, float): add(n, repr(n.value * 2 or 1.0), 'const')
        elif isinstance(n, ast.IfExp):
            add(n, '(' + ast.unparse(n.body) + ')', 'ifexp'); add(n, '(' + ast.unparse(n.orelse) + ')', 'ifexp')
        elif isinstance(n, ast.Continue): add(n, 'break', 'continue')
        elif isinstance(n, ast.Break): add(n, 'continue', 'break')
        elif isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return
            if not (isinstance(n.value, ast.Call) and is_log(n.value)): add(n, 'pass', 'drop')
        elif isinstance(n, ast.AugAssign): add(n, 'pass', 'drop')
        elif isinstance(n, ast.If):
            add(n.test, f'(not ({ast.unparse(n.test)}))', 'not'); add(n.test, 'True', 'true'); add(n.test, 'False', 'false')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            m = copy.deepcopy(n); m.args = m.args[::-1]; add(n, ast.unparse(m), 'swap')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute | ast.Subscript): add(n, 'pass', 'drop')
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(tree)
    return out

rnd = random.Random(SEED)
MUT = {}
for f, props in FILES.items():
    if only and not any(o in f for o in only): continue
    src = open('/repo/' + K + f).read()
    lines = src.split('\n')
    ms = mutants(src)
    rnd.shuffle(ms)
    k = 0
    for l0, c0, l1, c1, text, what in ms:
        if k >= N: break
        L0 = lines[l0-1].encode()[:c0].decode(); L1 = lines[l1-1].encode()[c1:].decode()
        old = '\n'.join(lines[l0-1:l1]); new = L0 + text + L1
        # make the edit unique by adding lines before and after
        a, b = l0-1, l1
        while src.count('\n'.join(lines[a:b])) != 1:
            a, b = max(0, a-1), min(len(lines), b+1)
        old = '\n'.join(lines[a:b]); new = '\n'.join(lines[a:l0-1] + [new] + lines[l1:b])
        res = '\n'.join(lines[:a]) + ('\n' if a else '') + new + '\n' + '\n'.join(lines[b:])
        try: compile(res, f, 'exec')
        except SyntaxError: continue
        k += 1
        MUT[f'{f.split("/")[-1][:-3]}-{l0}-{c0}-{what}'] = (props, [(K + f, old, new)])
open(OUT, 'w').write('MUT = ' + repr(MUT) + '\n')
print(len(MUT))
for k in list(MUT)[:0]: print(k)
