"""Contracts whose values are universally quantified but whose program shape is enumerated up to a stated bound.

check.py counts them as "decided up to a bound", never as proved for all inputs; the text goes to the evidence."""
PYVC_TRUSTED = True
SHAPES = {
    'C01': {'unusual_callables': 'the listed kinds of callables', 'wrapper_sync': None, 'decorated_class': 'classes with the listed members only', 'special_members': 'the listed kinds of members, one class and one subclass', 'unprintable_values': 'one positional and one keyword argument, listed types of unusual values'},
    'C03': {'every_registered_handler': 'up to 3 handlers and 2 records (any number of handlers: every_handler_once_in_order)', 'deleted_handlers': 'the listed registries and deletions', 'local_handlers': 'the listed scopes, up to 2 records', 'wrong_local_handlers': 'the listed wrong arguments', 'unusual_handlers': 'three handlers'},
    'C04': {'registered_fields': 'up to 2 fields at once (any number: any_number_of_fields)', 'decorator_fields': 'the listed lists of fields', 'field_object': 'the listed callables', 'registry_changes_during_extraction': 'one change during one record'},
    'C06': {'other_settings': 'the listed values of non-numeric settings', 'several_at_once': 'three settings in one call'},
    'C07': {'nested_blocks': 'two nested blocks', 'decorated': 'listed exception classes, lists of up to two classes', 'context_manager': 'listed exception classes, lists of up to two classes'},
    'C08': {'dynamic_extent': 'one action inside the unlogged call', 'nested_unlog': 'depth of two', 'stacked': 'up to three decorators', 'classes': 'one class'},
    'C09': {'chain': 'three nested calls', 'different_exceptions': 'two exceptions', 'level_and_repetition': 'two nested calls, one repetition', 'manual_records_are_not_affected': 'two nested calls'},
    'C10': {'nested_calls': 'depth of two', 'no_leak_to_later_calls': 'two consecutive calls'},
    'C11': {'functions': 'up to four decorators', 'class_and_method': 'up to four decorators', 'inheritance': 'one parent and one child'},
    'C12': {'any_state_one_step': 'four names, any state of them, one further step', 'order_of_registering': 'four names', 'scopes': 'one scope of up to two names, one change', 'wrong_names_and_values': 'the listed names and values', 'unnamed_handlers': 'the listed numbers of handlers, up to 40', 'deleting_by_object': 'five names', 'several_at_once': 'up to three handlers', 'any_names': 'names of up to three parts (any identifiers), two handlers, one scope'},
    'C13': {'several_rules': 'up to three rules (any number: any_number_of_rules)', 'malformed': 'the listed shapes of malformed rules', 'refused_commands': 'the listed commands', 'every_record_checks': 'three records'},
    'C14': {'failures_in_history': 'three records, failures in two of them', 'missing_errors_in_history': 'three records'},
    'C15': {'engine_history': 'three steps', 'pool_put_and_stop': 'up to three workers and records', 'kinds_of_engines': 'up to three workers'},
    'C16': {'memory': 'four steps', 'refused_arguments': 'the listed callables', 'file_arguments': 'the listed values'},
    'C17': {'block': 'up to two rewritings', 'nested_blocks': 'two nested blocks', 'tasks': 'two tasks of up to two suspensions', 'failed_entering': 'one failed block inside one block', 'misuse': 'the listed kinds of misuse'},
    'C19': {'repeated': 'three asserts'},
    'C20': {'switching': 'four steps'},
    'C21': {'variables': 'up to three arguments', 'variables_in_lines': 'up to three variables', 'user_fields': 'up to three user fields', 'heads_of_lines': 'listed times and levels, all texts', 'places_and_exceptions': 'listed times of work and tracebacks, all texts'},
    'C24': {'members': 'the listed kinds of members', 'overlapping': 'two calls', 'call': 'two consecutive calls'},
    'C25': {'levels_as_attributes': 'the listed names', 'nothing_is_shadowed': 'one attempt per attribute', 'built_in_fields': 'the listed kinds of records', 'registries': 'three names, three steps'},
    'C23': {'refused_arguments': 'the listed values'},
}
for _p in SHAPES:
    SHAPES[_p] = {k: v for k, v in SHAPES[_p].items() if v}
