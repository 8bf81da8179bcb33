"""Checks decided by the lazy heap-shape domain: driver functions under drivers/ interpreted together with the code."""
import os
import resource
import multiprocessing as mp
from engine import lazy, report
from engine.vm import AnalysisBroken

TREE = {'element': ('amara3.uxml.tree', 'element'), 'text': ('amara3.uxml.tree', 'text')}
WR = {n: ('amara3.uxml.writer', n) for n in ('raw', 'namespacer', 'write')}
UTIL = ['descendants', 'select_elements', 'select_name', 'select_value', 'select_attribute', 'following_siblings', 'select_pattern', 'select_name_pattern', 'make_pretty']
# property -> list of (driver file, names, [(function, quick limit, thorough limit)], what the driver compares with)
SPECS = {
    'C06': [('ser', dict(TREE, **WR), [('encode', 3, 4, 0), ('encode', 2, 4, 1), ('encode_attrs', 2, 3), ('encode_text', 1, 1), ('encode_indent', 2, 4, 1), ('encode_write', 2, 3, 0), ('twice', 2, 3, 1)])],
    'C07': [('ser', dict(TREE, **WR), [('w_tree', 3, 4, 0), ('w_tree', 2, 3, 1), ('w_attrs', 2, 3), ('w_indent', 3, 4, 0), ('w_events', 1, 1), ('w_nest', 1, 1)])],
    'C08': [('ser', dict(TREE, **WR), [('ns_elems', 2, 3, 0), ('ns_attrs', 1, 2), ('ns_both', 1, 1), ('ns_decls', 1, 2, 0), ('ns_plain', 2, 3, 1), ('ns_empty', 1, 1)])],
    'C10': [('value', dict(TREE, strval=('amara3.uxml.tree', 'strval')), [('xml_value', 6, 8), ('strval_', 6, 8), ('after_edit', 4, 6), ('attributes_do_not_count', 1, 1)])],
    'C11': [('util', dict(TREE, **{n: ('amara3.uxml.treeutil', n) for n in UTIL}),
             [('t_descendants', 6, 8), ('t_select_elements', 5, 8), ('t_select_name', 4, 6), ('t_select_value', 4, 6), ('t_select_attribute', 3, 4),
              ('t_following_siblings', 5, 8), ('t_pattern_1', 4, 6), ('t_pattern_2', 4, 6), ('t_pattern_star', 5, 7), ('t_pattern_any', 4, 6), ('t_pattern_any2', 4, 5), ('t_pattern_tuple', 4, 5),
              ('t_select_name_pattern', 4, 6)])],
    'C12': [('util', dict(TREE, **{n: ('amara3.uxml.treeutil', n) for n in UTIL}), [('t_pretty', 4, 5)])],
    'C09': [('edit', TREE, [('single', 4, 6), ('double', 2, 3), ('triple', 1, 2), ('move', 3, 5), ('construct', 2, 2)])],
}
RULES = {
    'C12': 'elements and texts with content unchanged in identity, order and parent; everything else is a line break plus indentation for the depth',
    'C06': 'output matched piece by piece against the tree: tags, names, values; every escape must decode to the character it replaces',
    'C07': 'output matched piece by piece against the sequence of writer calls',
    'C08': 'output matched against the tree, the prefix mapping and the namespace declarations',
    'C10': 'recursive concatenation of the text below a node',
    'C11': 'direct traversal of the tree for each selector',
    'C09': 'list model of the children: position, identity, parent links, refusal without effect',
}


BUILD = dict(TREE, event=('amara3.uxml.parser', 'event'), treebuilder=('amara3.uxml.tree', 'treebuilder'), tree_parse=('amara3.uxml.tree', 'parse'))
PKG = dict(BUILD, package_parse=('amara3.uxml', 'parse'))
SEND = dict(BUILD, sender=('amara3.uxml.treeiter', 'sender'))
XML = dict(BUILD, xml_parse=('amara3.uxml.xml', 'parse'), xml_treebuilder=('amara3.uxml.xml', 'treebuilder'), xml_sender=('amara3.uxml.xmliter', 'sender'),
           ns_callbacks=('amara3.uxml.xml', 'ns_expat_callbacks'))
STUB = {('amara3.uxml.parser', 'parser'): 'stub_parser'}
SPECS.update({
    'C13': [('build', BUILD, [('tb_parse', 4, 5), ('tb_function', 3, 4), ('tb_reuse', 2, 2), ('tb_after_failure', 2, 3)]), ('build', PKG, [('tb_package', 1, 2)])],
    'C14': [('build', XML, [('x_events', 3, 4), ('x_tree', 3, 4), ('x_reuse', 1, 1), ('x_truncated', 2, 4), ('x_sender', 2, 3), ('x_nscallbacks', 2, 3)])],
    'C15': [('build', SEND, [('s_one', 3, 4), ('s_path', 3, 4), ('s_any', 3, 4), ('s_content', 3, 4), ('s_two', 3, 3), ('s_unprimed', 3, 4), ('s_twice', 2, 2), ('s_count', 1, 1)])],
})
XP = dict(TREE, context=('amara3.uxml.uxpath', 'context'), **{n: ('amara3.uxml.uxpath.xast', n) for n in
          ('root_node', 'attribute_node', 'step', 'name_test', 'node_type_test', 'abbreviated_step')})
AX = ('self', 'child', 'descendant', 'descendant_or_self', 'parent', 'ancestor', 'ancestor_or_self', 'following_sibling', 'preceding_sibling', 'following', 'preceding')
SPECS.update({
    'C16': [('xp', XP, [('d_' + a, 4, 5) for a in ('descendant', 'descendant_or_self', 'following', 'preceding')] + [('a_' + a, 4 if 'sib' in a else 3, 4) for a in AX] + [('b_' + a, 2, 3) for a in AX] + [('a_attribute', 2, 3), ('abbreviated', 3, 4), ('abbreviated_attr', 2, 3)])],
})
XQ = dict(XP, qquery=('amara3.uxml.uxpath', 'qquery'), **{n: ('amara3.uxml.uxpath.xast', n) for n in
          ('binary_expression', 'absolute_path', 'predicated_expression', 'function_call', 'literal_wrapper', 'Sequence', 'variable_reference', 'unary_expression')})
XF = dict(XQ, BUILTIN_FUNCTIONS=('amara3.uxml.uxpath.functions', 'BUILTIN_FUNCTIONS'))
SPECS.update({
    'C17': [('xq', XF, [('p_slash', 2, 3), ('p_dslash', 2, 3), ('p_dslash_child', 3, 4), ('p_dslash_axis', 3, 4), ('p_dslash_attr', 2, 3), ('p_root', 2, 3), ('p_moved', 3, 4),
                        ('p_trees', 1, 1), ('p_absolute', 2, 3), ('p_absolute_all', 3, 4), ('p_absolute_step', 3, 4), ('u_nodes', 2, 3), ('u_attrs', 2, 3),
                        ('q_sequence', 1, 2), ('q_variable', 1, 2), ('q_function', 1, 1), ('q_context', 1, 2), ('u_two', 1, 1), ('f_foreach', 1, 2), ('q_qquery', 2, 3)])],
    'C18': [('xq', XQ, [('r_single', 1, 1), ('r_items', 1, 2), ('r_double', 1, 1), ('r_nested', 1, 1), ('r_number', 1, 1), ('r_path', 3, 4)])],
    'C19': [('xq', XF, [(f, 1, 1) for f in ('c_equal', 'c_order', 'c_symbolic', 'c_sequences', 'c_boolean', 'c_logic', 'c_minus')])],
    'C20': [('xq', XF, [(f, 1, 1) for f in ('f_string', 'f_string_symbolic', 'f_context', 'f_number', 'f_boolean', 'f_boolean_other', 'f_concat', 'f_concat_symbolic', 'f_parts',
                                           'f_parts_values', 'f_substring', 'f_count', 'f_name', 'f_lookup', 'f_foreach')])],
    'C23': [('xq', XF, [('v_%s_%s' % (f, g), 2, 3) for g in 'abcdef' for f in ('pure', 'other', 'two')] + [('v_deep_%s' % g, 3, 3) for g in 'abc'])],
})
RULES.update({
    'C17': 'order, number and context items of the evaluations of the operands, and the results, against the definition of the operator',
    'C18': 'predicates: context item and position of each evaluation, items kept, against successive filtering',
    'C19': 'value of the comparison or logical operator for each combination of types and representative values, and sequences',
    'C20': 'result of each function for each type and representative values, symbolic strings where the function treats them alike',
    'C23': 'tree and context before and after each evaluation, results of repeated and of interleaved evaluations of the same expression',
    'C16': 'each axis against its definition by parent, children and document order, for each kind of node test',

    'C13': 'the tree built equals the tree described by the events, also after earlier and failed parses; objects kept only by weak references count as collected',
    'C14': 'events and trees equal those described by the expat callbacks',
    'C15': 'elements sent to each sink equal the outermost elements matching its pattern, complete and in order',
})
XSTUB = {('amara3.uxml.uxpath', 'parse'): 'stub_parse'}, None
SETUP = {'C13': (STUB, None), 'C14': ({}, 'ParserCreate'), 'C15': (STUB, None), 'C20': XSTUB, 'C17': XSTUB}


def job(a):
    repo, drv, names, fn, limit, budget, nattrs, pid = a
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    d = lazy.Driver(repo, limit, budget=budget)
    src = open(os.path.join(report.HERE, 'drivers', drv + '.pysrc')).read()
    ov, ex = SETUP.get(pid, (None, None))
    d.setup(src, names, ov, ex)
    lazy.templates(d, nattrs=nattrs)
    d.run(fn)
    return a, d.result()


def run(pid, repo, tier):
    jobs = []
    for drv, names, fns in SPECS[pid]:
        for fn, q, t, *more in fns:
            jobs.append((repo, drv, names, fn, t if tier == 'thorough' else q, 700 if tier == 'thorough' else 240, more[0] if more else 2, pid))
    with mp.Pool(min(8, len(jobs))) as p:
        res = p.map(job, jobs, 1)
    viol, und, fns, confs = [], [], set(), []
    tot = {}
    for a, r in res:
        viol += r['viol']
        und += ['%s: %s' % (a[3], u) for u in r['undecided']]
        fns |= set(r['stats'].pop('functions'))
        confs.append('driver %s/%s: at most %d materialised nodes, %d paths, %d obligations' % (a[1], a[3], a[4], r['stats']['paths'], r['stats']['obligations_checked']))
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    tot.pop('k_limit_nodes', None)
    if not tot['obligations_checked'] and not und:
        raise AnalysisBroken('no obligation was reached')
    cov = {'explanation': 'abstract interpretation (lazily materialised document shapes, symbolic names and texts) of the bytecode compiled from '
                          'the working tree together with a reference written in the driver; an obligation is a comparison of the two on one abstract path',
           'rule': RULES[pid], 'functions': sorted(fns), 'configurations': confs}
    cov.update(tot)
    return {'violations': viol, 'coverage': cov, 'undecided': und,
            'assumptions': ['documents are materialised up to the stated number of nodes per path; longer paths are cut and counted (k_limited_paths_cut)',
                            'CPython 3.12 bytecode semantics as modelled in engine/']}
