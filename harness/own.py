"""Which property a difference between specification and code belongs to."""
OP = {
    'add_cols': 'C16', 'ren_cols': 'C16', 'drop_cols': 'C16', 'ord_lab': 'C16', 'ord_attr': 'C16',
    'set_domain': 'C16', 'set_attrs': 'C16', 'add_pdef': 'C09', 'add_pdefs': 'C09', 'drop_pdefs': 'C09',
    'ins_index': 'C26', 'ins_index_old': 'C26', 'upd_index': 'C19', 'del_index': 'C19',
    'add_wg': 'C06', 'edit_wg': 'C06', 'drop_wg': 'C23', 'set_dflt': 'C06',
    'ins_wt': 'C12', 'upd_wt': 'C12', 'del_wt': 'C12',
    'add_link': 'C05', 'edit_link': 'C25 C05', 'drop_link': 'C23 C25',
    'ins_map2': 'C22', 'ins_map': 'C22', 'upd_map': 'C22', 'del_map': 'C22', 'reify': 'C22',
    'ins_q2': 'C17', 'ins_q': 'C17', 'del_qwi': 'C18', 'del_unm': 'C18', 'reopen': 'C13 C14',
    'r_props': '', 'r_index': 'C07', 'r_wt': 'C12', 'r_map': 'C22', 'r_link': 'C25', 'r_q': 'C17', 'r_q2': 'C17',
    'r_info': 'C29', 'r_qwi': 'C18', 'r_unm': 'C18',
}
COMP = {
    'ih': 'C07', 'gcomp': 'C06', 'dflt': 'C06', 'ldef': 'C05', 'lcomp': 'C05', 'lhash': 'C05', 'share': 'C04',
    'pd': 'C09', 'st': 'C09', 'gran': 'C10', 'cols': 'C16', 'disp': 'C16',
}
READ = {'maxid': 'C07', 'dom': 'C16', 'cols': 'C16', 'disp': 'C16', 'attrs': 'C16', 'pd': 'C09', 'grp': 'C06',
        'dflt': 'C06', 'lnk': 'C05', 'map': 'C22 C25'}


def owners(op, clause):
    kind, _, rest = clause.partition(':')
    own = set(OP.get(op, '').split())
    if kind in ('inv', 'step'):
        return {rest[:3]}
    if kind == 'cmp':
        if rest in ('gran', 'gcomp', 'share', 'lcomp', 'lhash', 'ih', 'st') and op not in ('reopen',):
            base = {COMP[rest]}
            return base | (own if rest == 'share' and op in ('upd_index', 'del_index') else set())
        return own | set(COMP.get(rest, '').split())
    if kind == 'atomic':
        return own | {'C08'}
    if kind == 'readonly':
        return own | {'C08'} | set(COMP.get(rest, '').split())
    if kind == 'read':
        return own | set(READ.get(rest, '').split())
    return own
