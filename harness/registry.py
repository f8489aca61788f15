"""Which engines decide which property, and how far they go per tier."""
import engines
from engines import traces_engine, mc_engine, flow_engine, mc_flow_engine, calls_engine, mc_calls_engine, match_engine, mc_match_engine, faults_engine, storage_engine, mc_storage_engine, tour_engine, migrate_engine, mc_migrate_engine, cli_engine, mc_cli_engine

LEVEL = {}
ASSUME = {}

# property -> (trace profile, [(model profile, quick depth, thorough depth)])
SPACE = {
    'C04': ('C04', [('carry', 3, 5), ('maps', 2, 3)]),
    'C05': ('C05', [('carry', 3, 5), ('links', 3, 5)]),
    'C06': ('C06', [('weights', 2, 4)]),
    'C07': ('C07', [('index', 2, 4)]),
    'C09': ('C09', [('parts', 4, 6)]),
    'C10': ('C10', [('parts', 3, 5), ('index', 2, 4)]),
    'C12': ('C12', [('weights', 3, 4)]),
    'C16': ('C16', [('parts', 4, 6)]),
    'C17': ('C17', [('qty', 3, 4)]),
    'C18': ('C18', [('qty', 3, 5)]),
    'C19': ('C19', [('carry', 3, 5), ('index', 2, 4)]),
    'C22': ('C22', [('maps', 2, 3)]),
    'C23': ('C23', [('links', 3, 4), ('weights', 2, 3)]),
    'C25': ('C25', [('links', 3, 5)]),
    'C26': ('C26', [('load', 3, 4)]),
    'C29': ('C29', [('parts', 3, 5), ('links', 2, 4), ('weights', 2, 3)]),
}


# property -> ([model profiles], options of the recorded worlds)
FLOW = {
    'C01': (['read'], None),
    'C02': (['choice', 'read'], None),
    'C03': (['move'], None),
    'C20': (['read'], {'quant': 0.9, 'solo': 0.8}),
    'C24': (['read', 'move'], None),
}


def engines_for(prop, tier, seed):
    quick = tier != 'thorough'
    out = []
    if prop in SPACE:
        profile, models = SPACE[prop]
        for name, dq, dt in models:
            out.append(lambda name=name, dq=dq, dt=dt: mc_engine(
                name, dq if quick else dt, seed, limit=2500 if quick else 60000))
        out.append(lambda: traces_engine(profile, 96 if quick else 1500, 60 if quick else 80, seed))
        out.append(lambda: traces_engine('mixed', 32 if quick else 500, 60, seed + 7))
        out.append(lambda: traces_engine('wide:' + profile, 16 if quick else 250, 32 if quick else 60, seed + 27))
        out.append(lambda: traces_engine('bulk', 8, 110, seed + 17) if quick else traces_engine('bulk', 120, 250, seed + 17))
    if prop in FLOW:
        profiles, opts = FLOW[prop]
        for name in profiles:
            out.append(lambda name=name: mc_flow_engine(name, seed, (500 // len(profiles)) if quick else None))
        out.append(lambda: flow_engine(500 if quick else 8000, seed, opts))
    if prop == 'C20':
        out.append(lambda: mc_calls_engine('MC_Quant', 'record_quant_cases',
                                           {'MAXP': '9' if quick else '11', 'NPARTS': '3' if quick else '4'}, seed,
                                           4000 if quick else 60000))
        out.append(lambda: calls_engine('record_quant', 150 if quick else 3000, seed))
    if prop == 'C11':
        out.append(lambda: mc_calls_engine('MC_Select', 'record_select_cases', {}, seed, None))
        out.append(lambda: calls_engine('record_sel', 300 if quick else 6000, seed))
    if prop == 'C21':
        out.append(lambda: mc_match_engine(seed, 800 if quick else None, 0 if quick else 1))
        out.append(lambda: match_engine(400 if quick else 8000, seed))
    if prop == 'C28':
        out.append(lambda: match_engine(350 if quick else 6000, seed + 13, {'focus': 'reports'}))
    if prop in ('C13', 'C14'):
        profile = 'faults' if prop == 'C13' else 'plain'
        out.append(lambda: mc_storage_engine(profile, 4 if quick else 5, 2 if quick else 3, seed, 250 if quick else 8000))
        out.append(lambda: tour_engine(8 if quick else 40, seed + (5 if prop == 'C14' else 0)))
        out.append(lambda: storage_engine(112 if quick else 3000, seed + (5 if prop == 'C14' else 0), 25 if quick else 40))
    if prop == 'C15':
        for name in ('qty', 'maps', 'props'):
            out.append(lambda name=name: mc_migrate_engine(name, seed, 240 if quick else None, 2 if quick else 3))
        out.append(lambda: migrate_engine(96 if quick else 1500, seed, {'opens': 6, 'faults': 2, 'budget': 4 if quick else 8}))
    if prop == 'C27':
        for name, dt in (('index', 4), ('qty', 4), ('maps', 4)):
            out.append(lambda name=name, dt=dt: mc_cli_engine(name, 3 if quick else dt, 2 if quick else 3, seed, 550 if quick else 12000))
        out.append(lambda: cli_engine(160 if quick else 3000, seed, 24 if quick else 36, {'focus': 'tables'}))
        out.append(lambda: cli_engine(3 if quick else 24, seed + 77, 0, {'bulk': 260, 'real': 0}))
    if prop == 'C30':
        for name, dt in (('make', 5), ('maps', 4)):
            out.append(lambda name=name, dt=dt: mc_cli_engine(name, 3 if quick else dt, 2 if quick else 3, seed + 9, 700 if quick else 12000))
        out.append(lambda: cli_engine(160 if quick else 3000, seed + 9, 24 if quick else 36, {'focus': 'changes'}))
    if prop == 'C29':
        out.append(lambda: cli_engine(48 if quick else 800, seed + 3, 24))
    if prop == 'C08':
        out.append(lambda: mc_storage_engine('faults', 3 if quick else 5, 0, seed, 0))
        out.append(lambda: faults_engine(64 if quick else 1000, seed, 3, 5 if quick else 12))
        out.append(lambda: storage_engine(48 if quick else 1000, seed + 11, 25 if quick else 40))
        out.append(lambda: traces_engine('C08', 96 if quick else 1500, 60 if quick else 80, seed))
    return out

CLAIMED = set(SPACE) | set(FLOW) | {'C08', 'C11', 'C13', 'C14', 'C15', 'C21', 'C27', 'C28', 'C30'}
NOT_APPLICABLE = {}


def describe(prop):
    import describe as d
    return d.technique(prop), d.note(prop)
