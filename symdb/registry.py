"""Static plan: scenarios per property (importable without Django)."""
ALL = ('sqlite3', 'postgresql', 'mysql')

SERVERS = ('postgresql', 'mysql')
NOT_MYSQL = ('sqlite3', 'postgresql')

SCENARIOS = {
    'C01': [('fk', ALL), ('selfrel', ALL), ('o2o', ALL), ('multi', ALL), ('coltypes', ALL), ('merge', ALL), ('skip', ALL), ('tofield', ALL), ('unsafe', ALL)],
    'C02': [('m2m', ALL), ('m2mthrough', ALL), ('merge', ALL), ('skiprel', ALL)],
    'C03': [('gen', ALL), ('gennames', ALL), ('skiprel', ALL), ('genback', ALL)],
    'C04': [('coltypes', ALL), ('fk', ALL), ('selfrel', ALL), ('o2o', ALL), ('multi', ALL), ('m2m', ALL), ('gen', ALL), ('merge', ALL),
            ('skip', ALL)],
    'C08': [('agg', ALL), ('aggf', SERVERS), ('aggp', SERVERS), ('tofield', ALL), ('aggm2m', ALL), ('aggm2mf', SERVERS)],
    'C09': [('agg', ALL), ('aggf', SERVERS), ('aggp', SERVERS), ('tofield', ALL), ('aggm2m', ALL), ('aggm2mf', SERVERS)],
    'C10': [('agg', ALL), ('aggsave', ALL), ('aggm2m', ALL)],
    'C11': [('saves', ALL), ('savesinh', ALL), ('unsafe', ALL)],
    'C12': [('keys', ALL), ('tofield', ALL), ('skiprel', ALL), ('genback', ALL)],
    'C14': [('rebuild', ALL), ('fk', ALL), ('agg', ALL), ('aggm2m', ALL), ('aggm2mf', SERVERS), ('odd', ALL), ('unsafe', ALL)],
    'C19': [('fk', ALL), ('rebuild', ALL), ('unsafe', ALL)],
    'C16': [('fk', ('sqlite3',))],
    'C15': [('fk', ALL), ('names', ALL)],
    'C17': [('cachedf', ALL)],
    'C20': [('agg', ALL), ('aggsave', ALL), ('saves', ALL), ('savesinh', ALL), ('keys', ALL), ('cachedf', ALL)],
    'C18': [('gennames', ALL), ('names', ALL), ('inherit', ALL), ('parents', ALL), ('tofield', ALL)],
    'C21': [('aggf', SERVERS), ('aggp', SERVERS), ('aggm2mf', SERVERS), ('agg', ALL), ('gen', ALL), ('m2m', ALL), ('keys', ALL), ('names', ALL), ('coltypes', ALL)],
    'C13': [('fk', ALL), ('selfrel', ALL), ('multi', ALL), ('m2m', ALL), ('skip', ALL), ('gen', ALL), ('gennames', ALL), ('keys', ALL), ('tofield', ALL), ('skiprel', ALL), ('genback', ALL)],
    'C05': [('fk', ALL), ('chain', ALL), ('relay', ALL), ('m2m', ALL), ('gen', ALL), ('selfrel', ALL), ('saves', ALL), ('rebuild', ALL), ('odd', ALL), ('unsafe', ALL), ('genback', ALL)],
    'C06': [('fk', ALL), ('saves', ALL)],
    'C07': [('fk', ALL), ('saves', ALL)],
}

# how the triggers get into the database, unless the library installs them
INSTALL = {'C21': 'printed'}


def budget(prop, tier):
    return 600 if tier == 'quick' else 760


def shards(prop, app, dialect, tier):
    return 6 if prop in FLOWS else 1


FLOWS = ('C05', 'C06', 'C07', 'C10', 'C11', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20')


NOT_APPLICABLE = {}

LEVEL = 'model_checking'

ASSUMPTIONS = [
    "the model of the SQL dialects (parser, tables, constraints, triggers, savepoints, locks) is hand written; runs sampled "
    "from the explored space are repeated on SQLite, PostgreSQL and MySQL in every run and any difference is an error",
    "stored integers other than keys range over -1000..1000, stored texts range over the literals in use and 24 further values (MySQL: plus an "
    "uninterpreted case/accent folding consistent with equality)",
    "row counts, marks per state and statements per program are bounded as listed under bounds",
    "concurrency is at statement level: another client's statement takes effect between two statements of the program "
    "unless a lock modelled from the engine's rules (SQLite database lock, row locks, foreign key locks) would make it wait",
    "the computed fields' functions of the scenarios stand for the user's code",
]

EXPLAIN = {
    'stmt': "The triggers the library really installs (generated by the code under /repo in this run) are executed on a "
            "symbolic table state; one arbitrary multi-row INSERT, UPDATE or DELETE runs on it; a solver decides whether any "
            "state satisfying the invariant leads to one that violates the property.",
    'flow': "The library's Python code and Django's ORM run on a symbolic database; every feasible branch is explored by "
            "re-execution; faults and other clients' statements are solver-chosen; each goal is discharged by a query per path.",
    'C15': "The commands that install, print and drop triggers run on a symbolic catalogue: which triggers, functions and "
           "languages exist beforehand is solver-chosen (names of foreign triggers are solver strings), statements may fail, "
           "the program may crash and may be repeated; each goal is discharged by a query per path.",
    'C16': "The code that finds the relation of a declared dependency runs on a model whose fields are solver-chosen (kind, "
           "target, name), for a solver-chosen declaration; the outcome is compared with the documented rule by a query per path.",
    'C17': "Reads of cached fields, saves and flushes run on a symbolic database and a symbolic cache, in every order within "
           "the bounds; every value read is compared with the function's value by a query per path.",
    'C20': "The models are rebuilt from what makemigrations writes about their fields; loading, creating and saving rows through "
           "them runs on a symbolic database, also with another client's statement in between; every feasible branch is explored "
           "and each goal is discharged by a query per path.",
    'C21': "The text printed by the command of /repo in this run is executed on a symbolic database without triggers; then one "
           "arbitrary multi-row INSERT, UPDATE or DELETE runs on a symbolic table state and a solver decides whether any state "
           "satisfying the invariant leads to one that violates the property.",
    'C19': "The management commands, the middleware and the daemon run on a symbolic database; process control (fork, kill, "
           "sleep, exit) is replaced by recording stand-ins whose outcomes are explored; what is visible to others is "
           "compared with the property at every sleep and at the end by a query per path.",
}


def explain(prop, tier):
    return EXPLAIN.get(prop, EXPLAIN['flow' if prop in FLOWS else 'stmt']) + (
        " states = proof goals, transitions = paths + obligations; each goal ranges over all states within the bounds.")
