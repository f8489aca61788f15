"""What decides each property: used for MANIFEST.json and DESIGN.md.

TEXT[id] = (specification, explored by TLC, bound to the code, limits)
"""
HIST = ('random histories (memory, drive and bound files, odd labels, odd names, big and wide spaces) recorded from the '
        'code; TLC recomputes every state, component by component, from the one before it')
REPLAY = 'printed transitions of the model are replayed on the code and judged the same way; '

TEXT = {
    'C01': ('Flow.tla ReadSpace/Parts: the bag of contributions of a read in exact fixed-point integers; Conserves (placement, sum, nothing dropped)',
            'MC_Flow "read": every recipe of a 3-record space with 2 weight groups, 3 partition sets, pairs of quantities',
            'recipes are built and read for real; random worlds of up to three spaces are read by record, cached on drive and in memory, filtered; Trace_Flow compares every contribution and the conservation clause on the numbers of the code',
            'values are small rationals (VS=50400); floats are compared with a stated slack, never exactly'),
    'C02': ('Flow.tla WeightChoice/DefaultReady/Proportional on top of Base.tla Choose (greatest unique specificity)',
            'MC_Flow "choice" and "read": competing weight groups, incomplete groups, zero sums',
            'as C01, the worlds drawing selectors that tie, nest and negate; both the numbers and the refusals are compared',
            'selectors come from a generated family of all forms, not arbitrary text'),
    'C03': ('Flow.tla CurrentLinks/LinkChoice/Translate/TranslateStream; TranslationConserves',
            'MC_Flow "move": two links with every small share table, default, stale and incomplete',
            'chains of up to three real spaces with competing, stale and edited links; readers partly consumed, translated twice, closed; Trace_Flow judges values, attributes, refusals and that a refused reader is unchanged',
            'a chain has at most three spaces'),
    'C04': ('DataSpace.tla mapping operations and shares; Inv_C04 and step laws',
            'MC_Space "carry" and "maps" to depth 3/2 (thorough 5/3)', REPLAY + HIST, 'shares are compared to 4 units of SCALE (rounding of the exact quotient)'),
    'C05': ('DataSpace.tla links: completeness, other-index fingerprint as the exact id set, default per other space; Props.tla',
            'MC_Space "carry", "links"', REPLAY + HIST, 'fingerprints are compared as digests of the id set the model computes'),
    'C06': ('DataSpace.tla weight groups: is_complete as a function of history, default group',
            'MC_Space "weights"', REPLAY + HIST, ''),
    'C07': ('DataSpace.tla index: ids, high-water mark, undefined record, index fingerprint as the exact id set',
            'MC_Space "index"', REPLAY + HIST + '; id reuse is checked against every id the history ever used', ''),
    'C08': ('every operation of DataSpace.tla is one atomic step; FaultJudge in Trace_Space: the state after a fault is the state before or the complete result; MC_Storage writes pages and journal one step at a time',
            'MC_Storage "faults": pages, journal, commit, crash between any two steps',
            'on the code: every n-th SQL statement or row fails, data sources raise at row k, disk full, the process is killed or interrupted there, in memory and on file; then the file is opened again and TLC judges what it holds', 'fault points of one operation are sampled when they are many; power loss under a lying disk is SQLite’s business and not modelled'),
    'C09': ('DataSpace.tla partitions: minimal generating set, closure under union', 'MC_Space "parts" to depth 4 (6)', REPLAY + HIST,
            'at most about eleven definitions at once (the code enumerates 2^n combinations)'),
    'C10': ('DataSpace.tla Granularity in fixed-point logarithms (table up to 264 records), for every structure entry of every observed state',
            'MC_Space "parts", "index"', REPLAY + HIST, 'compared to 3e-6; at most 264 records'),
    'C11': ('Base.tla selector AST: Matches, Specificity, Choose, printing as a relation (parse . print = identity)',
            'MC_Select: every selector to depth 2 over small alphabets against every small row, every small candidate list',
            'each model question is asked of the code; random deeper selectors and rows with odd text are recorded and judged in Trace_Calls',
            'text is split into characters by the harness (TLA+ has no substring)'),
    'C12': ('DataSpace.tla ins_wt/upd_wt/del_wt with policies as per-row folds', 'MC_Space "weights"', REPLAY + HIST, ''),
    'C13': ('Storage.tla: files, handles, views; fsave/ksave outcomes {old, new}; MC_Storage has the steps of a save (temporary file, rename)',
            'MC_Storage "faults" to depth 4 (5), exhaustive over two paths and three handles',
            'histories of the model and random ones run on real directories as an unprivileged user; save interrupted at every system call or statement, killed there; whole-file digests and every public view compared through each opening mode',
            'kill points are SQL statements, file calls and renames of the process, not torn sectors'),
    'C14': ('Storage.tla modes: who may change what, durability of bound files, isolation of copies, refusal of other files',
            'MC_Storage "plain"; a tour of every file kind × mode × path form',
            'as C13 without faults; digests of all files of the scratch directory are compared after every event', 'path forms: str, bytes, pathlib, relative, from several working directories, hostile characters; no symbolic links'),
    'C15': ('Migrate.tla: Means(old content) as a DataSpace state, Migratable, OpensTo, Disturbed',
            'MC_Migrate: every small old content of three kinds and the migration step by step with failure anywhere (Faithful)',
            'the contents are written as real 0.2.0/0.3.0 files and opened in all modes; random worlds are rewritten into old formats, spoiled, opened, killed midway, and then used further (Trace_Space)',
            'old formats are those the code names; text quantity values are not generated'),
    'C16': ('DataSpace.tla add_cols/ren_cols/drop_cols/ord_lab/ord_attr/set_domain/set_attrs and what they do to every component',
            'MC_Space "parts"', REPLAY + HIST, 'identifiers up to ten columns, quoting-hostile names'),
    'C17': ('DataSpace.tla ins_q2/ins_q with policies, permissions, domain column; listing as a function of state', 'MC_Space "qty"', REPLAY + HIST, ''),
    'C18': ('DataSpace.tla r_qwi/r_unm/del_qwi/del_unm', 'MC_Space "qty"', REPLAY + HIST, ''),
    'C19': ('DataSpace.tla upd_index (rename, merge) and del_index with weights, mappings and shares carried along', 'MC_Space "carry", "index"', REPLAY + HIST, ''),
    'C20': ('Quantize.tla: largest remainder with ties by scrambled id; laws (sum, distance below 1, order independence)',
            'MC_Quant: handing out unit by unit for every small part vector ends in Quantized',
            'cases of the model and random ones are quantized by the code in several orders; quantized reads and translations of Flow worlds', 'the scrambling itself is computed by an independent splitmix64'),
    'C21': ('Match.tla MatchSide/Mappings/FullyMatched; laws MatchSound, ValuesAddUp',
            'MC_Match: every small table of label pairs between a 4- and a 2-record space',
            'tables are loaded by the code through Mapper and load_mapping; random wider worlds with limits, overlap, levels, ids, bad values', ''),
    'C22': ('DataSpace.tla ins_map2/ins_map/upd_map/del_map/reify', 'MC_Space "maps"', REPLAY + HIST, ''),
    'C23': ('DataSpace.tla drop_wg/drop_link remove exactly their rows; Inv_C23: nothing refers to what is gone', 'MC_Space "links", "weights"', REPLAY + HIST, ''),
    'C24': ('Flow.tla reader algebra: filter, by-attributes, cache, pivot, to_pandas as functions of one bag', 'MC_Flow "read", "move"',
            'several readings of the same reader are recorded and each compared with the one bag; pivots judged cell by cell', ''),
    'C25': ('DataSpace.tla Resolve(reference, name)', 'MC_Space "links"', REPLAY + HIST + '; the references are exact ids, prefixes of every length, names with and without extension', ''),
    'C26': ('DataSpace.tla ins_index as a fold over rows with label and weight policies', 'MC_Space "load"', REPLAY + HIST, ''),
    'C27': ('Cli.tla exports as functions of state, codes as an injective relation code <-> (space, record), imports through DataSpace/Match',
            'MC_Cli "index", "qty", "maps"', 'commands run for real through toron’s main (in process and as processes), exported text parsed and judged, imported into equal and empty spaces; tables of 260 records', 'CSV text itself is read by Python’s csv module'),
    'C28': ('Match.tla listing and summary as functions of two states', 'MC_Match',
            'reports of random worlds with stale, foreign and vanished records compared line by line', ''),
    'C29': ('DataSpace.tla r_info: what the summary shows as a function of state; Cli.tla info', 'MC_Space "parts", "links", "weights"',
            HIST + '; the printed text is parsed into the record the model computes', 'wording and layout are not judged, facts are'),
    'C30': ('Cli.tla Command(F, e): the files after each command; failure leaves them; backups hold what was there',
            'MC_Cli "make", "maps" to depth 3 (4, 5)', 'histories of the model and random ones run for real, all files of the directory judged after each command', ''),
}


def technique(prop):
    spec, tlc, bind, limits = TEXT[prop]
    return f'TLA+ specification ({spec}), model checked with TLC ({tlc}), bound to the code by conformance checking: {bind}'


def note(prop):
    limits = TEXT[prop][3]
    return ('Exhaustive on the small model; on the code, model behaviours are replayed and recorded executions are judged by TLC '
            'against the same specification; not a proof for larger instances.' + (f' Limits: {limits}.' if limits else ''))
