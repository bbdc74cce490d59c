"""Generates properties.jsonl, MANIFEST.json and known_findings.json from one table.  Run by hand: python3-vt meta.py"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))


prop('C01', 'A logging decorator never changes what the decorated call does',
     'A function, coroutine function or method decorated for logging (without suppression) is executed exactly once per call with the very arguments given, and the caller gets the very object it returned or the very exception it raised. '
     'This holds whatever fails while the record is composed or delivered: unknown or broken levels, values that cannot be printed or serialised, unusual exceptions, failing handlers. '
     'Static methods, class methods, nested classes, properties and double-underscore methods of a decorated class keep working through the class, its instances and its subclasses.',
     ['inputs', 'programs', 'fault_sequences', 'configurations'], 'every decorated callable (sync, async, method), every argument, result and exception, every form of decorating, every failure in the logging path',
     'The tests call a handful of functions with ints; values with failing __str__, exceptions that refuse attributes, broken levels or a serialiser that fails at a given point are never combined with the caller\'s view of the outcome.',
     ['polog/loggers/auto/function_logger.py', 'polog/loggers/auto/class_logger.py', 'polog/loggers/router.py', 'polog/loggers/finalizer.py', 'polog/utils/json_vars.py', 'polog/core/utils/exception_escaping.py', 'polog/core/utils/replace_method.py'],
     [('wrapper / async_wrapper around the original function', 'polog/loggers/auto/function_logger.py'), ('exception_escaping around composing of records and around each handler', 'polog/core/utils/exception_escaping.py')])

prop('C02', 'A record is delivered exactly when its resolved level reaches the threshold',
     'The level of a record is the one given explicitly (number or registered name, last registration wins); otherwise: default_level for successes; for failures of decorated calls the maximum of default_level, default_error_level and the decorator\'s own level; for failed blocks and manual error records default_error_level. '
     'The record reaches the handlers if and only if that level is not lower than the level setting, exactly once, and carries that level and the outcome. '
     'Unknown names and negative numbers are never levels.',
     ['inputs', 'configurations'], 'all integer levels, thresholds and defaults, all ways to give a level, all kinds of records',
     'Tests compare a few fixed numbers; off-by-one at the threshold or a wrong maximum for one ordering of three levels is missed.',
     ['polog/loggers/auto/function_logger.py', 'polog/core/utils/get_errors_level.py', 'polog/loggers/handle/handle_log.py', 'polog/loggers/finalizer.py', 'polog/core/stores/levels.py', 'polog/config.py'],
     [('level resolution and comparison with the threshold', 'polog/loggers/auto/function_logger.py: log_normal_info, log_exception_info; polog/loggers/handle/handle_log.py: _push'), ('registry of level names', 'polog/core/stores/levels.py')])

prop('C03', 'Every record reaches every handler in its scope exactly once, whoever fails',
     'Each record is passed, as one and the same object, exactly once to every handler registered at that moment (in any form, under plain or dotted names), or, for a decorator with its own handlers, exactly to the listed handlers and the handlers in the named subtrees. '
     'An exception in a handler reaches neither the other handlers nor the code that wrote the record. A deleted handler gets nothing more; the others still get everything.',
     ['inputs', 'fault_sequences', 'configurations'], 'any number of handlers, any subset failing with any exception, all forms of registering and scoping',
     'Tests register one or two handlers that mostly do not fail; failing subsets in every position and mixed scopes are not enumerated.',
     ['polog/core/log_item.py', 'polog/config.py', 'polog/loggers/auto/function_logger.py', 'polog/data_structures/trees/named_tree/projector.py', 'polog/core/engine/engine.py'],
     [('call_handlers with each call isolated', 'polog/core/log_item.py'), ('local scope of handlers', 'polog/loggers/auto/function_logger.py: get_handlers')])

prop('C04', 'Extra fields are extracted exactly as registered and failures stay local',
     'For every record, each applicable extra field whose name is not already filled (or when intersections are allowed) is set to converter(extractor(record)) before the handlers see the record; a field whose extractor or converter fails leaves the record as if it were not registered and does not affect other fields or the caller. '
     'A decorator\'s own fields replace the registered ones, or extend and override them when an ellipsis is given, without changing the objects passed by the user.',
     ['inputs', 'fault_sequences', 'configurations'], 'any number of fields, any names, any subset of failing extractors and converters, both moments of extraction',
     'Tests use one or two fields that work; interactions of a failing field with its neighbours and of intersections with overriding are not covered.',
     ['polog/core/log_item.py', 'polog/field.py', 'polog/loggers/auto/function_logger.py', 'polog/data_structures/wrappers/fields_container/container.py', 'polog/config.py'],
     [('extract_extra_fields_from', 'polog/core/log_item.py'), ('get_extra_fields', 'polog/loggers/auto/function_logger.py')])

prop('C05', 'A record is a read-only mapping ordered by its time',
     'A record given to handlers behaves as a read-only mapping of its fields: reading, membership, length and iteration agree with each other, and any attempt to set or delete a key fails and changes nothing. '
     'Records compare as their times do (equal, ordered, with equal hashes for equal records), and records without a time are equal to nothing and cannot be ordered. The arguments of a decorated call are available from its record as the same objects.',
     ['inputs'], 'all keys, values and times', 'Tests try a few literal keys; the agreement of six comparison operators and of all mapping methods over arbitrary contents is a universally quantified law.',
     ['polog/core/log_item.py'], [('LogItem', 'polog/core/log_item.py')])

prop('C06', 'Settings only ever hold valid values and compatible combinations',
     'A change of a setting is accepted exactly when the value is valid for that setting and compatible with the others (a queue limit needs a pool; the standard logging can be switched off only while it is integrated; the mark of the first record can only be set once); an accepted value is in force, and a refused change raises an error and leaves every setting as it was. '
     'This holds for any sequence of changes and for concurrent changes.',
     ['inputs', 'histories', 'schedules'], 'every setting, every value of every type, every reachable pair of related settings; two concurrent setters (bounded)',
     'Tests try one good and one bad value per setting; atomicity of refusals, pairs of settings from every state and concurrent changes are not sampled.',
     ['polog/core/stores/settings/setting_point.py', 'polog/core/stores/settings/settings_store.py', 'polog/config.py'],
     [('proofs and conflicts of a setting, under a lock shared by conflicting settings', 'polog/core/stores/settings/setting_point.py')],
     'The concurrent part is a bounded stand-in (two threads, one preemption at each executed line).')

prop('C07', 'An exception is suppressed exactly when the user asked for it',
     'A decorated call suppresses an exception (and returns None) if and only if .suppress() was applied without arguments or lists its class (or, when subclasses are allowed by the setting, a base class of it); nothing but subclasses of Exception is ever suppressed by a decorator. '
     'A logging block follows the same rule, and without .suppress() suppresses exactly when suppress_by_default is on. Otherwise the very exception propagates, even if it cannot be printed, and suppressed or not the failure is recorded.',
     ['inputs', 'configurations'], 'all exception classes and lists, both settings, all forms of decorators and blocks, nested blocks',
     'Tests use one list and one exception per setting; the decision is a table over class relations, lists, settings and usage.',
     ['polog/loggers/auto/function_logger.py', 'polog/loggers/finalizer.py', 'polog/loggers/router.py', 'polog/loggers/partial.py', 'polog/core/utils/exception_is_suppressed.py'],
     [('exception_is_suppressed', 'polog/core/utils/exception_is_suppressed.py'), ('__exit__', 'polog/loggers/finalizer.py')])

prop('C08', 'Nothing is logged while an unlogged call is in progress',
     'While a call of a fully unlogged function, coroutine or method is in progress, no record is written by anything it runs: manual records, blocks, decorated calls, further unlogged calls, whether they return or fail; as soon as the outermost unlogged call ends, records are written again. '
     'Calls of an unlogged function are never recorded, whatever logging decorators lie above or below @unlog. With full=False (or full_unlog=False and no argument) only the function\'s own decorators are silenced.',
     ['programs', 'inputs', 'configurations', 'schedules'], 'every nesting of unlogged, decorated and manual logging code, every outcome, both values of full and of the setting',
     'Tests check one manual record in one unlogged function; nested unlogged calls that fail, restored state afterwards and stacks of decorators are combinations.',
     ['polog/unlog.py', 'polog/core/stores/registering_functions.py', 'polog/loggers/auto/function_logger.py', 'polog/loggers/handle/handle_log.py'],
     [('context variable with the current order, restored on exit', 'polog/unlog.py'), ('registry of forbidden functions', 'polog/core/stores/registering_functions.py')],
     'An inner @unlog(full=False) inside a fully unlogged call is not specified.')

prop('C09', 'With deduplication, decorators record one exception once',
     'When deduplicate_errors is on, an exception object that passes through several decorated calls is handled by the first (innermost) of them only; when it is off, by each. '
     'Different exception objects are always recorded separately, and manual records and blocks neither take part in deduplication nor are affected by it.',
     ['inputs', 'programs', 'configurations'], 'all exceptions that accept attributes, all chains of decorated calls, all levels',
     'Tests use one chain with one exception; replaced, chained and repeated exceptions and levels below the threshold are not combined with the setting.',
     ['polog/loggers/auto/function_logger.py'], [('mark on the exception object', 'polog/loggers/auto/function_logger.py: log_exception_info')])

prop('C10', 'message() edits the record of the call it is made in and no other',
     'Fields given to message() inside a decorated call appear in the record of that call, replacing the automatic ones, and all other fields stay as they were; the name of the function cannot be edited. '
     'No other record changes: neither of enclosing nor of nested decorated calls, nor of any later record, even if the edited call was not recorded, failed, or message() was called outside any decorated call.',
     ['programs', 'inputs', 'schedules'], 'all combinations of fields, all nestings of decorated calls, successful and failed, recorded or not',
     'Tests use message() once in one function; leaks need nested or consecutive calls where one of them is not recorded.',
     ['polog/loggers/handle/message.py', 'polog/loggers/auto/function_logger.py', 'polog/loggers/handle/abstract.py'],
     [('context variable saved, cleaned and restored by the wrappers', 'polog/loggers/auto/function_logger.py')])

prop('C11', 'Stacked logging decorators make one record per call, by the topmost one',
     'However many logging decorators are put on one function, each call runs the original function once and makes exactly one record, configured by the topmost decorator. '
     'A decorator of a method always beats a decorator of its class, in whatever order they are applied; a decorated subclass replaces the logging of its parent for itself only.',
     ['programs', 'inputs'], 'any number and order of decorators on functions, coroutines, methods, classes and subclasses',
     'Tests check particular stacks; the registry of decorated functions must decide right for every history of decorating.',
     ['polog/core/stores/registering_functions.py', 'polog/loggers/auto/function_logger.py', 'polog/loggers/auto/class_logger.py', 'polog/data_structures/wrappers/weak_linked/dictionary.py'],
     [('registry of decorated functions', 'polog/core/stores/registering_functions.py')])

exec(open(os.path.join(HERE, 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'meta2.py')) else None

FIXED = [
    ('C01', '3f85fe8', 'a failure while composing a record changed the outcome of the decorated call'),
    ('C10', '8b2a44a', 'message() of a nested decorated call leaked into, or removed, the message of the enclosing one'),
    ('C08', 'a347544', 'a nested @unlog re-enabled logging for the rest of the outer unlogged call'),
    ('C19', 'a08d8b5', 'a failed smart assert logged its own AssertionError in the debug mode'),
    ('C17', 'caa4471', "log.lol('m', level=3) ignored the passed level"),
    ('C21', 'c665645', 'the default formatter cut significant zeros of the time of work'),
    ('C04', '4a1ae7c', 'extra_fields given as a tuple with an ellipsis failed, and a list given by the user was changed'),
    ('C20', 'a3ac58b', 'the logging bridge raised on exc_info without an exception and on wrong format arguments'),
    ('C12', 'e269041', 'add_handlers refused the name of an empty intermediate node'),
    ('C14', '9fa434a', 'the double lock released the thread lock before the file lock, and kept the thread lock when the file lock failed'),
    ('C14', '84b8927', 'a failed reopening of the log file left the writer with a closed file'),
    ('C14', 'e940de2', 'buffered records were lost when the log file was moved to another file system'),
    ('C15', 'c490022', 'a record put into an already stopped pool of workers was lost'),
    ('C15', '5e923ee', 'reloading of the engine hung when a handler wrote records'),
    ('C12', '1740ffd', 'a local projection of the handlers tree was torn off when any handler was deleted: handlers registered later under its name got no records'),
    ('C07', '1bece3e', 'a logging block replaced an exception whose str() fails by another one'),
    ('C08', '86711e2', '@log above @unlog(full=False) lost the full argument'),
    ('C01', 'a5281b1', 'static methods, class methods and nested classes of a decorated (or unlogged) class stopped working through instances'),
] + (MORE_FIXED if 'MORE_FIXED' in globals() else [])

OPEN = OPEN_FINDINGS if 'OPEN_FINDINGS' in globals() else []


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'specs', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, ensure_ascii=False) + '\n')
    checks = []
    from specs.shapes import SHAPES
    from pyvc.common import SCENARIOS
    for p in have:
        importlib.import_module('specs.' + p['id'].lower())
        importlib.import_module('specs.histories')
        importlib.import_module('specs.frame')
        scns = SCENARIOS[p['id']]
        concrete = {x.name for x in scns if x.mode == 'concrete'}
        bounded = {x.name for x in scns if x.doc.startswith('BOUNDED') or x.name in SHAPES.get(p['id'], {})} - concrete
        full = [x.name for x in scns if x.name not in bounded and x.name not in concrete]
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'contract-based deductive verification: contracts on the real functions, obligations generated from the current source by symbolic execution, discharged by z3',
                       'level': 'proof',
                       'level_note': 'Obligations are regenerated from /repo on every run and discharged by z3 for all inputs of the contracts (loops over unbounded data by invariants); the same contracts are evaluated at run time on the untransformed code as a cross-check and to replay counterexamples. '
                                     'Proved for all inputs: %s. Discharged for all values, program shapes up to a stated bound: %s. Bounded run-time stand-ins: %s. ' % (', '.join(full) or 'none', ', '.join(sorted(bounded)) or 'none', ', '.join(sorted(concrete)) or 'none') +
                                     'Trusted: the PyVC transformation, its stubs of the standard library, z3, CPython. ' + p['note'],
                       'theorems': full})
    with open(os.path.join(HERE, 'CONTRACTS.md'), 'w') as f:
        f.write('# Contracts\n\nGenerated by meta.py from specs/. *all*: for all inputs; *bounded*: for all values, program shapes up to the bound; *run-time*: bounded stand-in on the real code.\n')
        for p in have:
            f.write('\n## %s %s\n\n' % (p['id'], p['title']))
            for x in SCENARIOS[p['id']]:
                bound = SHAPES.get(p['id'], {}).get(x.name)
                kind = 'run-time' if x.mode == 'concrete' else 'bounded' + (': ' + bound if bound else '') if bound or x.doc.startswith('BOUNDED') else 'all'
                f.write('* **%s** (%s) %s\n  on %s\n' % (x.name, kind, ' '.join(x.doc.split()), ', '.join('`%s`' % t.replace('polog.', '', 1) for t in x.targets)))
            for a in getattr(sys.modules['specs.' + p['id'].lower()], 'ASSUMPTIONS', []):
                f.write('* assumed: %s\n' % a)
    man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, specs.lib" && python3-vt check.py --help > /dev/null', 'checks': checks, 'not_applicable': NOT_APPLICABLE if 'NOT_APPLICABLE' in globals() else [],
           'notes': 'No hooks in /repo. See DESIGN.md.'}
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    ids = {p['id'] for p in PROPS}
    fnd = [{'property': a, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (a, b, w)} for a, b, w in FIXED] + [{'property': a, 'status': 'open', 'what': w} for a, w in OPEN]
    json.dump({'findings': fnd}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1, ensure_ascii=False)


main()
