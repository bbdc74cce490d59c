# Continuation of meta.py (executed by it).
prop('C12', 'The handler registry is a map of dotted names, and scopes are live views of it',
     'After any sequence of registering and deleting, each name finds exactly the handler registered under it and not deleted since, a taken name, a wrong name and a value that is not a handler are refused without changing anything, and handlers registered without names are all kept. '
     'A decorator with named handlers delivers to exactly the handlers registered under these names and below them at the moment of the record, however they were added or deleted after decorating, each once.',
     ['histories', 'inputs'], 'histories of registering, deleting and scoping over nested and separate names',
     'Tests perform short fixed histories; deleting and re-adding inner nodes of a tree that is shared with local scopes has many states.',
     ['polog/data_structures/trees/named_tree/tree.py', 'polog/data_structures/trees/named_tree/projector.py', 'polog/data_structures/trees/named_tree/walker.py', 'polog/config.py'],
     [('tree of handlers', 'polog/data_structures/trees/named_tree/tree.py'), ('projection of the tree for a decorator', 'polog/data_structures/trees/named_tree/projector.py')],
     'Histories are decided from every state of a universe of four names plus one further step (induction over states is by the uniform treatment of names, an assumption).')

prop('C13', 'The log file is rotated exactly when one of the rotation rules says so',
     'A rotation command is a list of size rules separated by commas or semicolons, optionally followed by >> and a directory (logs by default); a rule is a positive integer and a unit of size in any of its spellings, and means that many bytes with 1024 as the step between units. '
     'A rotation happens before a record exactly when the file is at least as large as the limit of some rule; without rules it never happens. '
     'Anything else, or a rotation for a handler that does not write to a named file, is refused with an error when the handler is made.',
     ['inputs', 'configurations'], 'all numbers, all units, all sizes of the file, all lists of rules and layouts of blanks; all malformed commands up to the grammar',
     'Tests check a few literal rules; off-by-one at the limit, a wrong unit or a forgotten rule in a list shows only for particular sizes.',
     ['polog/handlers/file/rotation/rotator.py', 'polog/handlers/file/rotation/parser.py', 'polog/handlers/file/rotation/rules/rules_elector.py', 'polog/handlers/file/rotation/rules/rules/file_size_rule.py', 'polog/handlers/file/rotation/rules/rules/tokenization/tokenizator.py', 'polog/handlers/file/rotation/rules/rules/tokenization/tokens/tokens_group.py'],
     [('rules and their check', 'polog/handlers/file/rotation/rules/rules/file_size_rule.py'), ('decision and destination', 'polog/handlers/file/rotation/rotator.py')])

prop('C14', 'The file handler writes each record once, in whole, and rotation loses nothing',
     'Every record passed to the file handler is appended once, exactly as its formatter gave it, to the file of the configured name (or handed to the alternative handler if writing itself fails), whatever fails in a rotation. '
     'A rotation moves everything written before it, buffered or not, into one new file of the destination directory, on the same device or another, and changes or loses nothing. '
     'Writes, flushes and moves are done under the configured locks (lock_type: thread, file, both or None), the file lock being taken and released inside the thread lock, and every lock is released again, also after failures.',
     ['inputs', 'fault_sequences', 'schedules'], 'all records and formatters, all sets of locks, a failure of the operating system at each call; two concurrent writers (bounded)',
     'Tests write a few lines without failures; a failing rename, reopen, flush or lock at a particular call is not injected.',
     ['polog/handlers/file/writer.py', 'polog/handlers/file/file_dependency_wrapper.py', 'polog/handlers/file/rotation/rotator.py', 'polog/handlers/file/locks/double_lock.py', 'polog/handlers/file/locks/file_lock.py', 'polog/handlers/file/locks/thread_lock.py'],
     [('do: rotate, write, flush', 'polog/handlers/file/writer.py'), ('move_file, reopen', 'polog/handlers/file/file_dependency_wrapper.py'), ('DoubleLock', 'polog/handlers/file/locks/double_lock.py')],
     'Real file systems, processes and threads are exercised by bounded stand-ins.')

prop('C15', 'The engine processes every accepted record exactly once',
     'Every record written to the engine is processed exactly once, synchronously with pool_size=0 and by one of the workers otherwise, including records written while the engine is being reloaded by a change of pool_size or max_queue_size, from several threads, from handlers, or before the program ends. '
     'A reload and the end of the program wait for all accepted records and then stop all workers; they do not hang while the handlers end, a failing record does not stop a worker, and with a handler that never ends the end of the program waits at most max_delay_before_exit.',
     ['schedules', 'fault_sequences', 'histories'], 'all numbers of workers and records; schedules: one preemption at every executed line of polog (bounded)',
     'Loss or a hang needs a record to be written at a particular point of a reload or of stopping a worker, which tests do not schedule.',
     ['polog/core/engine/engine.py', 'polog/core/engine/real_engines/multithreaded/pool.py', 'polog/core/engine/real_engines/multithreaded/worker.py', 'polog/core/engine/real_engines/multithreaded/engine.py', 'polog/core/engine/real_engines/fabric.py', 'polog/core/engine/real_engines/singlethreaded/engine.py'],
     [('reload under the lock of writers', 'polog/core/engine/engine.py'), ('queue, workers and stopping', 'polog/core/engine/real_engines/multithreaded/pool.py, worker.py')],
     'Interleavings of threads are a bounded stand-in.')

prop('C16', 'A handler acts on a record exactly when its filters let it',
     'A handler built on the base class acts on a record if and only if only_errors is off or the record is a failure, and the filter, if given, did not return False; the filter is asked once, and only about records that only_errors lets through. '
     'If it does not act, or forming the content or acting fails, the alternative (if given) is called once with that record; only failures of the filter or of the alternative themselves leave the handler. Arguments of wrong kinds are refused with ValueError when the handler is made, and the memory handler keeps every record, in order, until clean().',
     ['inputs', 'fault_sequences', 'configurations'], 'all records, all filters and alternatives including failing ones',
     'The decision is a table of flags, outcomes and failures of four user functions; tests cover a few cells.',
     ['polog/handlers/abstract/base.py', 'polog/handlers/memory/saver.py', 'polog/handlers/smtp/sender.py', 'polog/handlers/file/writer.py'],
     [('__call__ of the base handler', 'polog/handlers/abstract/base.py')])

prop('C17', 'Each use of log makes exactly the records its form promises',
     'A plain call log(...) makes exactly one record with the given fields, a decorator makes none by itself, and a logging block makes exactly one, when it ends, with the outcome of the block and the fields given or rewritten in it, whether it fails or not, however blocks are nested and in whatever threads and asyncio tasks they run. '
     'log.<level>(...) means the same as log(..., level=<level>), and arguments passed explicitly have priority. '
     'Misuse (several positional arguments, decorating something that is not callable, unknown attributes) raises an error in the caller, makes no record, and does not disturb other blocks.',
     ['programs', 'inputs', 'schedules'], 'all combinations of forms, fields and outcomes; nested blocks; blocks of concurrent tasks and threads (bounded)',
     'Tests use each form once; double, mixed or lost records appear in combinations of forms, rewriting, failures and concurrent blocks.',
     ['polog/loggers/router.py', 'polog/loggers/finalizer.py', 'polog/loggers/partial.py', 'polog/loggers/handle/abstract.py', 'polog/loggers/handle/handle_log.py'],
     [('finalizer of a plain call, stack of blocks', 'polog/loggers/finalizer.py'), ('route', 'polog/loggers/router.py')],
     'Blocks in threads are a bounded stand-in.')

prop('C18', 'Fields given to a manual record appear in it exactly, wrong ones are refused',
     'A manual record carries every field given to it under its own name (aliases included), normalised as documented: a level to its number, an exception to its type, message and traceback with success False and the error level unless given, a function to its name and module, local variables to JSON; and the automatic fields auto=False and time. '
     'A wrong value makes the record be refused as a whole: handle_log raises in its caller, and nothing is recorded. '
     'When silent_internal_exceptions is on, nothing is raised, only the wrong fields are dropped, and the record keeps the others.',
     ['inputs', 'configurations'], 'all fields, values of all types, both values of the setting',
     'Tests try single literal values; the interaction of several fields (exception, success, level, two names of one field) and of values of unusual types with the setting is not sampled.',
     ['polog/loggers/handle/abstract.py', 'polog/loggers/handle/handle_log.py', 'polog/core/utils/get_traceback.py'],
     [('_specific_processing, _extract_exception and the checks of fields', 'polog/loggers/handle/abstract.py')])

prop('C19', 'A smart assert raises and records exactly according to its settings',
     'A smart assert raises AssertionError if and only if its condition is false and debug_mode is on, and returns None otherwise. '
     'A false condition writes exactly one record of a failure, with the given message and the default error level, if smart_assert_politic is "all" or debug_mode is off; otherwise, and when the condition holds, nothing is written. '
     'The message and the condition are used as given and no other record changes.',
     ['inputs', 'configurations', 'histories'], 'all conditions, messages and settings, repeated asserts', 'Tests check fixed conditions for some values of the settings only.',
     ['polog/loggers/handle/smart_assert.py', 'polog/loggers/handle/abstract.py'], [('smart_assert', 'polog/loggers/handle/smart_assert.py')])

prop('C20', 'Each record of the standard logging becomes exactly one equal record',
     'While integration_with_logging is on, every record made through the root logger of the standard logging becomes exactly one record with the same message (none if it is empty), level, outcome (a failure from WARNING upwards), module, line, path, function, exception, thread and process, and is handed on to the standard handlers if and only if logging_off is off; while it is off, no record is made and all are handed on. '
     'This holds after any sequence of switching, and the bridge never raises in the code that logs, whatever the message, its arguments or the exception are.',
     ['inputs', 'configurations', 'histories'], 'all records of logging (levels, messages, arguments, exceptions), all sequences of switching the integration',
     'Tests log one or two messages; records with wrong arguments, unusual messages or without an active exception and repeated switching are not covered.',
     ['polog/core/stores/settings/actions/integration_with_logging.py', 'polog/core/stores/settings/settings_store.py'], [('filter of the standard logging', 'polog/core/stores/settings/actions/integration_with_logging.py')])

prop('C21', 'Recorded variables and formatted lines tell the truth about the values',
     'The arguments, the result, the local variables and the exception in a record name the values and types that were there, in order, for all values: booleans, numbers and texts keep their values, all others their str(), or a mark if it fails; nothing is omitted or invented. '
     'The default formatter gives for every record its fields with their values, in the fixed order, separated and ended as configured, and never fails.',
     ['inputs'], 'all values and types, all records', 'Tests compare a handful of literal lines; absent, unusual, unprintable or falsy values in each position are not sampled.',
     ['polog/utils/json_vars.py', 'polog/handlers/file/base_formatter.py', 'polog/handlers/file/base_formatter_fields_extractors.py', 'polog/core/utils/get_traceback.py', 'polog/loggers/auto/function_logger.py'],
     [('json_vars', 'polog/utils/json_vars.py'), ('BaseFormatter', 'polog/handlers/file/base_formatter.py')])

prop('C22', 'A handler or extractor is accepted exactly when it takes one positional argument',
     'A callable is accepted as a handler, filter, formatter, alternative, extractor or converter exactly when its signature has one positional parameter without a default and no other parameters, whatever kind of callable it is (function, method, class, object with __call__, coroutine function, wrapper). '
     'Anything else, also what is not callable, is refused with an error where it is registered, and nothing of it stays.',
     ['inputs', 'programs'], 'all signatures: any numbers of positional, keyword-only and default parameters, with or without * and **',
     'Tests check a list of signatures; the matcher is a decision over all of them.',
     ['polog/core/utils/signature_matcher.py', 'polog/config.py', 'polog/field.py', 'polog/handlers/abstract/base.py'], [('SignatureMatcher.match', 'polog/core/utils/signature_matcher.py')])

prop('C23', 'The mail handler mails each record once, on its own connection',
     'Every record passed to the SMTP handler is mailed in exactly one message on a connection of its own (login, one message, quit), from and to the configured addresses, with the text and the subject of the assemblers or the standard ones, plain or html as configured. '
     'If any step fails, the alternative gets the record, the connection is closed, and later records are not affected; concurrent records do not affect each other; repr never shows the password.',
     ['inputs', 'fault_sequences', 'schedules'], 'all texts, subjects, ports and outcomes; a failure at every step; two concurrent senders (bounded)',
     'Tests replace the whole wrapper of smtplib, so neither failures nor concurrent sending is ever run.',
     ['polog/handlers/smtp/sender.py', 'polog/handlers/smtp/smtp_dependency_wrapper.py', 'polog/handlers/abstract/base.py'],
     [('send: connection, message, quit', 'polog/handlers/smtp/smtp_dependency_wrapper.py'), ('get_content', 'polog/handlers/smtp/sender.py')],
     'smtplib and MIMEText are stand-ins; two concurrent senders are a bounded stand-in.')

prop('C24', 'A record says what ran, where, when, for how long and with what outcome',
     'The record of a decorated call names the function and its module, the class if it is a method of any kind (and none for functions, also inside methods), the message of the decorator, the service name in force at the time of the call, and the outcome; its time is the moment when the call began, and its time_of_work lasts from the beginning to the end of the body, also when calls of one function overlap (recursion, coroutines). '
     'The record of a block has the time of its entering, its duration and its outcome; a manual record has the time when it was made. Automatic records are marked auto, others are not, and a record has no other fields than these and the given ones.',
     ['inputs', 'schedules', 'programs'], 'all readings of the clock, all messages, functions, coroutines, methods and blocks, successful and failed, all interleavings of two overlapping calls',
     'Tests compare a field or two with a frozen example; a duration taken from a wrong pair of readings, or a field of another call, shows only with overlapping calls and particular clocks.',
     ['polog/loggers/auto/function_logger.py', 'polog/loggers/auto/class_logger.py', 'polog/loggers/finalizer.py', 'polog/loggers/handle/handle_log.py', 'polog/core/utils/not_none_to_dict.py'],
     [('fields of automatic records', 'polog/loggers/auto/function_logger.py: get_base_args_dict'), ('blocks', 'polog/loggers/finalizer.py')],
     'The clock (time.time) is assumed not to go back.')

prop('C25', 'Names of levels and fields never shadow, and the registries are maps',
     'A level can be registered exactly when its name is an identifier without a leading underscore that is not an attribute of log, handle_log or message, and its value is an integer not less than 0; it then works as an attribute of log and handle_log in every form with its last value. '
     'An extra field can be registered exactly when its name is an identifier without a leading underscore that is none of the built-in fields. Both registries of fields are independent maps: the last registration wins, reading gives copies of all or of the asked ones, deleting removes exactly the asked one and fails with KeyError if there is none. A refused registration raises and leaves everything as it was.',
     ['inputs', 'histories'], 'all names and values; histories of registrations',
     'Tests try a few good and bad names; that exactly the bad ones are refused is a statement about all names.',
     ['polog/config.py', 'polog/core/utils/name_manager.py', 'polog/core/stores/levels.py', 'polog/loggers/router.py', 'polog/loggers/handle/abstract.py'],
     [('checks of names', 'polog/core/utils/name_manager.py'), ('registries', 'polog/config.py')],
     'Names that are attributes of the internal function logger only are not specified.')

MORE_FIXED = [
    ('C21', '545ffdd', 'the line of a record showed the service name set when it was formatted, not the one of the record (pool_size > 0 and a later change of service_name; service_name given by hand)'),
    ('C23', '097582f', 'two threads mailing through one handler shared one connection attribute: one used the connection of the other after it was closed, so a mail was lost; after a failed login or sending the connection was never closed'),
    ('C03', '6e06ca1', 'adding or deleting a handler while a record was being delivered broke the delivery (the dict of a tree node changed size during the walk)'),
    ('C04', 'aa42107', 'registering or deleting a field while a record was being composed broke the record'),
    ('C04', '13ed6e4', 'fields registered by add_engine_fields were never extracted for manual records'),
    ('C14', 'a0a21cb', 'after a rotation to another file system whose reopening failed all later records went to the removed file'),
    ('C15', 'a837057', 'changing pool_size or max_queue_size in one thread while another was writing the first record deadlocked both (locks of the engine and of the settings were taken in opposite orders)'),
    ('C15', '4b9fed0', 'with SIGINT ignored (a background process) or handled by the program the end of the program waited for a stuck handler for ever, and the handler of SIGINT was called'),
    ('C17', 'f77a9be', 'with-log blocks of asyncio tasks started inside a block shared one stack and closed each other'),
    ('C17', '2864576', 'a block whose entering failed (with log.suppress("x")) stayed in the stack of blocks: the record of the outer block was lost or mixed'),
    ('C18', '3fd6d21', 'a field given under two names (vars and locals) was compared with a wrong value: KeyError or one of them silently overwritten'),
    ('C18', '29fb93d', 'with silent_internal_exceptions an unknown or negative level raised in the caller and lost the record'),
    ('C20', '76febd3', 'messages of logging that are not strings raised in the caller or were lost'),
    ('C20', '7a7e523', 'logging records with funcName None or an unprintable exception raised in the caller'),
    ('C22', '33da38c', 'a function with a required keyword-only argument was accepted as a handler'),
    ('C22', '968caa0', 'default values with their own comparison confused the matcher of signatures'),
    ('C21', 'abc4080', 'an unprintable argument or result lost the record of the call'),
    ('C21', '13c7c51', 'an exception whose str() fails lost the record of a decorated call'),
    ('C21', '26ca25e', 'the default formatter garbled tracebacks of files with spaces in their paths'),
    ('C21', 'bcb04c9', 'an unprintable user field lost the whole line in the default formatter'),
    ('C01', '3273b17', 'a bound method of an object whose own attribute access fails (e.g. a __getattr__ raising KeyError) raised that error in every call after decorating'),
    ('C15', '36353f7', 'with a handler that never ends the program never ended: the wait of max_delay_before_exit could not interrupt the joining of a worker'),
]
