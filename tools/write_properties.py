import json
F={'den':'denorm/denorms.py','dep':'denorm/dependencies.py','base':'denorm/db/base.py','sq':'denorm/db/sqlite3/triggers.py','pg':'denorm/db/postgresql/triggers.py','my':'denorm/db/mysql/triggers.py','fld':'denorm/fields.py','hlp':'denorm/helpers.py','mod':'denorm/models.py','mw':'denorm/middleware.py','dm':'denorm/management/commands/denorm_daemon.py'}
TR=[F['dep'],F['base'],F['sq'],F['pg'],F['my'],F['den']]
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if obs: a['observe_at']=obs
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
MARKS=[('dirty marks','rows of the dirty-instance table, one per object to recompute'),('denormalized columns','stored copies of computed values')]
p('C01','Foreign-key dependencies: a stale row is always marked',
 "After any committed write to a model that a computed field depends on through a foreign key or one-to-one relation, in either direction or on the same model, every row whose stored value no longer equals what its function returns is marked for recomputation. This holds however the write reached the database: instance save, bulk update, raw SQL, multi-row statements, moving the relation, NULLing it, or deleting rows, and for every column type.",
 ['histories','inputs','configurations'],'every sequence of inserts, updates and deletes on every table, every row content, on SQLite, PostgreSQL and MySQL',
 'Tests write a handful of literal rows per relation and flush right away; whether some row, old value, NULL or column change escapes the installed triggers is a question about all statements from all states.',
 TR,[('relation dependency triggers','dependencies.py get_triggers'),('change condition of update triggers','db/*/triggers.py Trigger.sql'),('merging of triggers per table and event','db/base.py TriggerSet')],MARKS,
 ['contents of the dirty-instance table after the statement'])
p('C02','Many-to-many dependencies: a stale row is always marked',
 "After any write to either model of a many-to-many relation or to its link table (automatic or explicit, in either direction), every row whose stored value depends on the relation and no longer equals what its function returns is marked for recomputation. Adding, removing, re-pointing and clearing links, and changing the linked rows, all count.",
 ['histories','inputs','configurations'],'all inserts, updates and deletes on both models and on the link table from every state, three databases',
 'Tests add and remove single links through the ORM; raw link updates, both-side moves and multi-row statements are never tried.',
 TR,[('link table and remote model triggers','dependencies.py m2m branch'),('intermediate table columns','db/base.py Trigger.__init__')],MARKS)
p('C03','Generic relations: a stale row is always marked',
 "After any write to rows attached through a generic relation, or to the rows they are attached to, every row whose stored value depends on the other side and no longer equals what its function returns is marked for recomputation. This includes moving an attached row to another owner of the same or of a different model, and owners of different models sharing an id.",
 ['histories','inputs','configurations'],'all inserts, updates and deletes of attached rows with every content type and object id, three databases',
 'Tests attach one tag and change it; moves between content types and id collisions are not covered.',
 TR,[('generic relation branch','dependencies.py m2m branch for non-ManyToMany fields'),('content type condition','db/*/triggers.py')],MARKS)
p('C04','Direct writes to a row holding computed fields mark it',
 "A row whose own columns feed one of its computed fields is marked whenever a write that bypasses save (bulk create, queryset update, raw SQL) leaves the stored value different from what the function returns, including newly inserted rows. Only columns the declaration explicitly skips are exempt.",
 ['histories','inputs','configurations'],'all inserts and updates on every model with computed fields, three databases',
 'Tests bulk-update one column of one row; combinations of fields, skips and several computed fields on one table are not enumerable by hand.',
 [F['den'],F['base'],F['sq'],F['pg'],F['my']],[('own-row triggers','denorms.py CallbackDenorm.get_triggers'),('skip lists','db/base.py Trigger.__init__')],MARKS)
p('C05','Flush brings every marked row up to date and leaves no marks',
 "From any database state in which stale rows are marked, a flush that completes leaves no marks behind and every computed field equal to what its function returns, through chains of dependent fields, duplicate marks, marks of deleted rows and marks with no target. It changes nothing but computed fields and cache keys, and it terminates.",
 ['inputs','histories','configurations'],'every state of the model tables and of the mark table within the row bounds, on three databases',
 'Tests flush a few hand-made states; which combination of stale rows, duplicates and vanished targets survives a flush needs all of them.',
 [F['den'],F['mod'],F['fld'],F['dep']],[('flush loop','denorms.py flush'),('recomputation on save','fields.py pre_save'),('denormalized many-to-many and foreign key fields','denorms.py many_to_many_pre_save')],MARKS)
p('C06','A flush that dies midway loses no pending recomputation',
 "If a flush is interrupted at any point, by a crash, a database error or an exception from a computed field's function, every row that is still stale in what the database kept is still marked. Running flush again after the cause is gone brings everything up to date.",
 ['crash_points','fault_sequences','inputs'],'interruption before and after every statement the flush issues, with or without an enclosing transaction, from every state',
 'No test interrupts a flush.',
 [F['den']],[('order of save and mark removal','denorms.py flush')],MARKS)
p('C07','Writes racing a flush are not lost',
 "When another client commits a change to a dependency between any two statements of a running flush, then after the flush each row is up to date or still marked, and the other client's own column values are not overwritten. A recomputation may be repeated but not dropped.",
 ['schedules','inputs'],'one arbitrary statement of another client at every point between two statements of a flush, from every state',
 'Tests are single-threaded and never write during a flush.',
 [F['den'],F['fld']],[('mark removal after save','denorms.py flush'),('full row save of the target','denorms.py flush')],MARKS)
p('C08','Count fields always equal the number of related rows',
 "A count field equals the number of related rows that satisfy its filter and exclusion after every write to the related table or, for a many-to-many relation, to the links: inserts, deletes, moving rows between parents or to none, changing filtered columns, and multi-row statements. No flush is needed.",
 ['histories','inputs','configurations'],'all inserts, updates and deletes on the counted table from every state with exact counts, three databases; filters on PostgreSQL and MySQL',
 'Tests check literal counts after single saves; drift after some update or filter combination is a property of all histories.',
 [F['den'],F['fld'],F['sq'],F['pg'],F['my'],F['base']],[('increment and decrement triggers','denorms.py AggregateDenorm.get_triggers'),('filter translation','denorms.py TriggerFilterQuery')],[('count column','incrementally maintained')])
p('C09','Sum fields always equal the sum over related rows',
 "A sum field equals the sum of the chosen column over the related rows that satisfy its filter and exclusion after every write to the related table or, for a many-to-many relation, to the links, including changes of the summed column itself, NULL amounts, moves between parents and multi-row statements. No flush is needed.",
 ['histories','inputs','configurations'],'all inserts, updates and deletes on the summed table from every state with exact sums, three databases',
 'Tests check literal sums after single saves.',
 [F['den'],F['fld'],F['sq'],F['pg'],F['my'],F['base']],[('increment and decrement values','denorms.py SumDenorm')],[('sum column','incrementally maintained')])
p('C10','Saving an instance never clobbers counts and sums',
 "Saving a model instance, loaded at any earlier time, newly created, or with an explicit primary key, never changes a count or sum away from its exact value, whatever related rows other clients added, changed or removed since, or add while the save runs. After the save the stored value is still exact.",
 ['schedules','histories','inputs'],'a write by another client at every point between loading an instance and each statement of its save',
 'The only test saves a stale instance once with no concurrent write inside the save.',
 [F['fld']],[('value written for aggregates on save','fields.py AggregateField.pre_save')],[('count and sum columns','maintained by triggers, written by save')])
p('C11','Saving an instance stores freshly computed values',
 "After an instance is created or fully saved, each of its computed fields in the database and on the instance equals what its function returns for the saved row, also for computed foreign keys (given as object, primary key or None) and computed many-to-many fields. A stale value assigned by hand never survives.",
 ['inputs','histories','configurations'],'every row content, related content and stale in-memory value, three databases',
 'Tests create a few rows with literal values.',
 [F['fld'],F['den']],[('value computed on save','fields.py DenormDBField.pre_save'),('many-to-many recomputation','denorms.py many_to_many_pre_save, many_to_many_post_save')],MARKS)
p('C12','Cache keys change whenever a dependency changes or the row is saved',
 "A cache key takes a new value when its row is fully saved and immediately when any write changes a row it depends on, over forward and backward foreign keys, many-to-many links and generic relations. New values come from fresh randomness per row, so that two refreshed rows do not share a key, and fit the column.",
 ['histories','inputs','configurations'],'all writes to dependencies and all saves from every state, all outcomes of the random source, three databases',
 'Tests compare two literal key values; old key equal to new one, or keys shared between rows, is never provoked.',
 [F['dep'],F['fld'],F['den'],F['sq'],F['pg'],F['my']],[('cache key triggers','dependencies.py CacheKeyDependOnRelated'),('random values','db/*/triggers.py RandomBigInt'),('random value on save','denorms.py BaseCacheKeyDenorm')],[('cache key column','random 64 bit value')])
p('C13','Unrelated, unchanged and skipped writes cause no work',
 "A write marks an existing row for recomputation, or changes a cache key, only if a row it is related to, or the row itself, really changed in a column that is not declared as skipped. Rewriting identical values, changing skipped columns and touching unrelated rows leave marks and keys alone, and marks already present are kept.",
 ['histories','inputs','configurations'],'all statements from all states, three databases',
 'Tests for absence of marks exist for one skip declaration; over-marking through NULL handling, precedence or a missing condition is invisible to value checks.',
 [F['base'],F['sq'],F['pg'],F['my'],F['dep'],F['den']],[('change condition','db/*/triggers.py Trigger.sql'),('skip lists','db/base.py Trigger.__init__')],MARKS)
p('C14','A rebuild repairs every denormalized value from any state',
 "A rebuild of everything makes each computed field, count and sum correct whatever was stored before and whether or not rows were marked, and leaves no marks. A rebuild restricted to an app, a model or a qualified model name repairs at least that selection.",
 ['inputs','configurations','histories'],'every database state, marked or not, and every way of naming the selection',
 'Tests rebuild one model from one corrupted value.',
 [F['den'],'denorm/management/commands/denorm_rebuild.py'],[('selection and marking','denorms.py rebuildall'),('list of all denormalized fields','denorms.py get_alldenorms')],MARKS)
p('C15','Trigger installation and removal are complete and repeatable',
 "Removing the triggers leaves none of the library's triggers and all of the application's own; installing again after any number of installs, removals and model changes yields exactly the current set of triggers, with the same effect as a first install. An installation that fails leaves the previous triggers in place on databases with transactional schema changes.",
 ['histories','configurations','fault_sequences'],'every sequence of install, remove and re-install commands up to the bound, with foreign triggers present and a failure at any statement',
 'Tests install once per test case and never look at the catalog afterwards.',
 [F['den'],F['base'],F['sq'],F['pg'],F['my'],'denorm/management/commands/denorm_init.py','denorm/management/commands/denorm_drop.py'],[('install and drop','db/*/triggers.py TriggerSet'),('trigger names','db/base.py Trigger.name')],[('trigger catalog','triggers present in the database')])
p('C16','A dependency resolves to exactly one relation or is refused',
 "A declared dependency is accepted only if exactly one relation between the two models matches the given name and direction, and then that relation is the one tracked; if none or several match, or the named model does not exist, a ValueError is raised. Models that merely share a name never match.",
 ['programs','inputs'],'all small sets of foreign keys and many-to-many fields in both directions, names and requested directions',
 'Tests cover four hand-written ambiguous declarations.',
 [F['dep'],F['hlp']],[('candidate selection','dependencies.py DependOnRelated.resolved_model'),('relation search','helpers.py find_fks, find_m2ms')])
p('C17','Cached fields never return a value older than the last change',
 "Reading a cached field of a freshly loaded instance returns what its function computes from the current data, whatever was read and cached before and whichever of its dependencies changed since. Two rows never share a cached value.",
 ['histories','inputs'],'every sequence of reads, dependency changes and row saves up to the bound',
 'Tests read one cached field twice around one change.',
 [F['fld'],F['dep'],F['den']],[('cache lookup','fields.py CacheWrapper'),('key refresh','dependencies.py CacheKeyDependOnRelated')],[('cache','values stored under the cache key')])
p('C18','Tracking works for any model declaration',
 "The guarantees on marking and exact aggregates hold for every legal way of declaring the models: abstract bases, multi-table and proxy inheritance, swapped models, custom primary keys, foreign keys to other unique columns, custom column and table names including reserved words and mixed case, long names, several computed fields with the same function name and several dependencies on one model.",
 ['programs','configurations','histories','inputs'],'a set of declarations exercising each feature, all statements from all states on each, three databases',
 'The test project has one fixed set of models with default names.',
 TR+[F['hlp'],F['fld']],[('identifier quoting and column lookup','dependencies.py, db/*/triggers.py'),('trigger names','db/base.py Trigger.name'),('collection of fields','denorms.py get_alldenorms')],MARKS)
p('C19','Commands, middleware and daemon really flush',
 "The flush command, the rebuild command, the response middleware, the setting that flushes after each request and each cycle of the daemon bring the database up to date and make it durable; a database error during the middleware's flush is logged and the response is still returned, other exceptions propagate. The daemon's work is durable before it sleeps, its run-once mode performs one flush, in the background it records its process in the pid file, and a second one does not start while the process recorded there is running.",
 ['inputs','fault_sequences','configurations'],'every marked state, every point of failure of the flush, every pid-file situation',
 'Tests call the commands once on a clean state.',
 [F['mw'],F['dm'],'denorm/management/commands/denorm_flush.py','denorm/management/commands/denorm_rebuild.py'],[('response hook','middleware.py'),('daemon loop and pid file','denorm_daemon.py')],MARKS)
p('C20','Data migrations can load and save rows safely',
 "A data migration that loads, changes, creates and saves rows through the models Django rebuilds from the recorded field definitions works as it would with the application's own models, for computed, aggregate, cache key and cached fields alike. Counts and sums stay exact even if they change between load and save, cache keys are drawn afresh so that cached values do not become outdated, and every row whose computed fields the migration leaves out of date is marked.",
 ['programs','inputs','schedules','configurations'],'loading, changing, creating and saving any row of any state through rebuilt models, alone and with another client writing in between, three databases',
 'No test runs a data migration; whether a rebuilt field behaves depends on what the definition records and on every state it then meets.',
 [F['fld'],F['den']],[('recorded definitions','fields.py deconstruct'),('saving aggregates','fields.py AggregateField.pre_save'),('saving keys','fields.py CacheKeyField.pre_save, CachedField')],MARKS+[('aggregate columns','stored counts and sums'),('cache keys','random numbers naming a version of the row')])
p('C21','Running the printed trigger SQL is as good as installing',
 "The SQL that the printing command shows, run unchanged on a database without the triggers, is accepted by that database. From then on every write marks stale rows, keeps counts and sums exact and renews cache keys as if the library had installed the triggers itself, whatever names, texts and dates the declarations contain.",
 ['histories','inputs','programs','configurations'],'all inserts, updates and deletes from every state after running the printed text, for declarations with every relation kind, filters on texts and dates, odd names, three databases',
 'No test runs the printed SQL; that it is equivalent is a question about all later statements.',
 ['denorm/management/commands/denorm_sql.py']+TR,[('printing','denorm_sql.py'),('trigger text and parameters','db/*/triggers.py Trigger.sql')],MARKS+[('aggregate columns','stored counts and sums'),('cache keys','random numbers naming a version of the row')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print('valid',len(P))
except ImportError: print('no jsonschema')
