From 3f85fe88fa02288e5c9f26a3c979ecffd00f0c16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 01/40] fix: a failure while composing a log record does not
 change the result of the decorated call

---
 polog/loggers/auto/function_logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 6e2f1c4..91bd7ee 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -1,6 +1,7 @@
 import time
 import inspect
 import datetime
+from contextlib import suppress
 from functools import wraps
 from collections.abc import Iterable
 
@@ -13,6 +14,7 @@ from polog.core.utils.not_none_to_dict import not_none_to_dict
 from polog.core.utils.get_errors_level import get_errors_level
 from polog.core.utils.exception_to_dict import exception_to_dict
 from polog.core.utils.cut_traceback import cut_traceback
+from polog.core.utils.exception_escaping import exception_escaping
 from polog.utils.json_vars import json_vars, json_one_variable
 from polog.core.utils.exception_is_suppressed import exception_is_suppressed
 from polog.core.utils.signature_matcher import SignatureMatcher
@@ -165,6 +167,7 @@ class FunctionLogger:
         arg = getattr(obj, arg_name, None)
         not_none_to_dict(args, key_name, arg)
 
+    @exception_escaping
     def log_exception_info(self, exc, finish, start, args_dict, errors_level, simple_level, handlers, in_place_fields, engine_fields, args, kwargs):
         """
         Здесь происходит заполнение автоматически извлекаемых полей в случае исключения.
@@ -172,7 +175,8 @@ class FunctionLogger:
         """
         if not unlog.get_unlog_status():
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                exc.checked_by_polog = True
+                with suppress(Exception):
+                    exc.checked_by_polog = True
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
                     exception_to_dict(args_dict, exc)
@@ -191,6 +195,7 @@ class FunctionLogger:
                     log = self.create_log_item(args, kwargs, args_dict, handlers, engine_fields, in_place_fields)
                     self.engine.write(log)
 
+    @exception_escaping
     def log_normal_info(self, result, finish, start, args_dict, level, handlers, in_place_fields, engine_fields, args, kwargs):
         """
         Заполнение автоматических полей в случае, когда исключения не было.
-- 
2.43.0


From 8b2a44ae46e2369316002ac7b9c84e46dee5d93c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 02/40] fix: message() edits only the record of the decorated
 call it was made in

---
 polog/loggers/auto/function_logger.py | 20 ++++++++++++++------
 polog/loggers/handle/message.py       |  6 ++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 91bd7ee..523d4a7 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -66,6 +66,7 @@ class FunctionLogger:
                 """
                 Обертка для корутинных функций, вызов обернутой функции происходит через await.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -80,14 +81,18 @@ class FunctionLogger:
                             cut_traceback(self.settings)
                             raise
                     return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                else:
+                    finish = time.time()
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._set_context(outer_message)
             @wraps(func)
             def wrapper(*args, **kwargs):
                 """
                 Обертка для обычных функций.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -102,9 +107,12 @@ class FunctionLogger:
                             cut_traceback(self.settings)
                             raise
                     return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                else:
+                    finish = time.time()
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._set_context(outer_message)
             if inspect.iscoroutinefunction(func):
                 result = async_wrapper
             else:
diff --git a/polog/loggers/handle/message.py b/polog/loggers/handle/message.py
index 4fdfeb7..b48cb75 100644
--- a/polog/loggers/handle/message.py
+++ b/polog/loggers/handle/message.py
@@ -54,6 +54,12 @@ class Message(AbstractHandleLogger):
         """
         context.set(None)
 
+    def _set_context(self, fields):
+        """
+        Устанавливаем данные в контекстную переменную, к примеру восстанавливаем те, что были там до вызова вложенной функции.
+        """
+        context.set(fields)
+
     def _get_context(self):
         """
         Возвращаем содержимое контекстной переменной.
-- 
2.43.0


From a347544700a2e91a1bd817632cf1e8c5bf1871a0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 03/40] fix: leaving a nested unlogged call does not re-enable
 logging in the outer unlogged call

---
 polog/unlog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 2fbb080..08741d3 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -93,18 +93,20 @@ class UnlogDecorator:
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return await function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         if iscoroutinefunction(function):
             return async_wrapper
         return wrapper
-- 
2.43.0


From a08d8b53662080649e7481e4e8f06c8a9738a384 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 04/40] fix: smart assert does not log its own AssertionError
 in the debug mode

---
 polog/loggers/handle/smart_assert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 78b9c3f..31b7bc4 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -26,6 +26,9 @@ class SmartAssert(AbstractHandleLogger):
                 log(message, exception=AssertionError(message))
             if self.settings['debug_mode'] and not expression_result:
                 raise AssertionError(message)
+        except AssertionError:
+            if self.settings['debug_mode']:
+                raise
         except Exception:
             if self.settings['debug_mode']:
                 log(message, exception=AssertionError(message))
-- 
2.43.0


From caa4471f1fd2b476b7c1127b6b21d2a4812e9287 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 05/40] fix: arguments passed to log.<level>(...) have
 priority, as in functools.partial

---
 polog/loggers/partial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index cf73844..a6f438d 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -39,8 +39,7 @@ class RouterPartial:
         """
         Отложенный вызов функции, аналог functools.partial.
         """
-        kwargs.update(self.kwargs)
-        return self.item(*args, **kwargs)
+        return self.item(*args, **{**self.kwargs, **kwargs})
 
     def __enter__(self):
         """
-- 
2.43.0


From c665645209c3c8c94ac9acae38bf2e50a5321da5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 06/40] fix: the default formatter does not cut significant
 zeros of the time of work

---
 polog/handlers/file/base_formatter_fields_extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 416950a..6ff0524 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -214,7 +214,7 @@ class BaseFormatterFieldsExtractors:
         if var is None:
             return None
         number = f'{var:.8f}'
-        number = number.rstrip('0.')
+        number = number.rstrip('0').rstrip('.')
         result = f"time of work: {number} sec."
         return result
 
-- 
2.43.0


From 4a1ae7c5dd6d96f32de915caba45ea04e9fc41ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 07/40] fix: extra fields can be passed as a tuple with an
 ellipsis, and the passed list is not changed

---
 polog/loggers/auto/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 523d4a7..ed2f13a 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -308,7 +308,7 @@ class FunctionLogger:
         if not isinstance(maybe_fields, dict) and not isinstance(maybe_fields, list) and not isinstance(maybe_fields, tuple):
             raise ValueError(f'A dictionary containing log field extractors is expected. You can also pass a list or tuple containing such dictionaries and ellipsis. You passed "{maybe_fields}".')
 
-        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else maybe_fields
+        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else list(maybe_fields)
 
         if Ellipsis in all_fields:
             is_ellipsis = True
-- 
2.43.0


From a3ac58bd0a5c145a4276b2440e74cec14e5e6842 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 08/40] fix: records of logging without an active exception or
 with wrong format arguments do not raise in the caller

---
 .../stores/settings/actions/integration_with_logging.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 309f14e..60841bd 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -18,7 +18,10 @@ def from_logging_filter_to_polog(record):
 
     data['time'] = datetime.fromtimestamp(record.created)
     if record.msg:
-        data['message'] = record.getMessage()
+        try:
+            data['message'] = record.getMessage()
+        except Exception:
+            data['message'] = str(record.msg)
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
@@ -29,7 +32,7 @@ def from_logging_filter_to_polog(record):
     if record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
-    if record.exc_info is not None:
+    if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
         data['exception_message'] = str(record.exc_info[1])
-- 
2.43.0


From e269041a002a931067eafb7cc613c901a1cdefa6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 09/40] fix: a handler can be registered under the name of an
 empty intermediate node

---
 polog/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index f5b537f..87aad74 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -103,7 +103,7 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if name in global_handlers:
+        if global_handlers.get(name) is not None:
             raise NameError(f'Attempt to override a handler named {name}.')
         global_handlers[name] = handler
 
-- 
2.43.0


From 9fa434ab490f0fc11e8169108af036f21111da92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 10/40] fix: the double lock releases the file lock before the
 thread lock and does not leave one of them held on a failure

---
 polog/handlers/file/locks/double_lock.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 53aac61..a9ea247 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -18,17 +18,24 @@ class DoubleLock:
 
     def __enter__(self):
         """
-        Взять оба лока.
+        Взять оба лока. Если второй взять не удалось, первый не должен остаться захваченным.
         """
         self.thread_lock.acquire()
-        self.file_lock.acquire()
+        try:
+            self.file_lock.acquire()
+        except BaseException:
+            self.thread_lock.release()
+            raise
 
     def __exit__(self, exception_type, exception_value, traceback):
         """
-        Отпустить оба лока.
+        Отпустить оба лока, в порядке, обратном захвату.
+        Файловый дескриптор у потоков общий: если сначала отпустить лок потока, следующий поток успеет "захватить" файловый лок, который тут же будет отпущен предыдущим потоком.
         """
-        self.thread_lock.release()
-        self.file_lock.release()
+        try:
+            self.file_lock.release()
+        finally:
+            self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
-- 
2.43.0


From 84b8927e6b2a58203b2ccee49f75dae4998e4cd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 11/40] fix: a failed reopening of the log file during the
 rotation does not leave the writer with a closed file

---
 polog/handlers/file/file_dependency_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index df3888f..e162d04 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -85,11 +85,12 @@ class FileDependencyWrapper:
 
     def reopen(self):
         """
-        Закрываем файл и открываем снова.
+        Открываем файл заново, после чего закрываем прежний файловый объект. Если открыть файл не удалось, запись продолжается в прежний.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
         """
-        self.close()
+        old_file = self.file
         self.open(self.filename)
+        old_file.close()
 
     def flush(self):
         """
-- 
2.43.0


From e940de2eb63213b39c7792dbee740260e20cd882 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 12/40] fix: buffered records are not lost when the log file is
 moved to another file system

---
 polog/handlers/file/file_dependency_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index e162d04..55d636f 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -119,6 +119,7 @@ class FileDependencyWrapper:
         2. Блокировка на уровне потока. Нужна, поскольку с одним обработчиком (читай - одним и тем же файловым объектом) могут параллельно работать воркеры из нескольких потоков.
         """
         with self.lock:
+            self.file.flush() # При перемещении в другую файловую систему содержимое файла копируется, а буфер - нет.
             try:
                 shutil.move(self.filename, path_to_copy)
             except FileNotFoundError:
-- 
2.43.0


From c490022c5a1b125e156ce1b25f6485b5b8d53548 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 13/40] fix: a log written to an already stopped pool of
 workers is not lost

---
 .../engine/real_engines/multithreaded/pool.py    | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index 4c31b7a..285e761 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -1,5 +1,6 @@
 import time
 from queue import Queue
+from threading import Lock
 
 from polog.core.engine.real_engines.multithreaded.worker import Worker
 
@@ -14,26 +15,35 @@ class ThreadPool:
     """
     def __init__(self, settings):
         self.settings = settings
+        self.closed = False
+        self.put_lock = Lock()
         self.queue = Queue(maxsize=self.settings.force_get('max_queue_size'))
         self.workers = self.create_workers()
 
     def put(self, log_item):
         """
         Помещение лога в очередь.
+
+        Если группа уже остановлена (к примеру, писатель получил ссылку на нее до перезагрузки движка), очередь больше никто не читает, поэтому лог обрабатывается на месте.
         """
-        self.queue.put(log_item)
+        with self.put_lock:
+            if not self.closed:
+                self.queue.put(log_item)
+                return
+        log_item()
 
     def stop(self):
         """
         Остановка воркеров.
 
-        Подразумевается, что объект, останавливающий группу потоков, проконтролирует, что в процессе остановки очередь пополняться не будет.
-
         Этапы остановки:
+        0. Закрыть очередь для новых логов.
         1. Дождаться опустошения очереди.
         2. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
         3. Заджойнить потоки воркеров.
         """
+        with self.put_lock:
+            self.closed = True
         self.wait_empty_queue()
         for worker in self.workers:
             worker.set_stop_flag()
-- 
2.43.0


From 5e923eec65948efdfa5c941c0e8349ad079a0ad2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:24:16 +0000
Subject: [PATCH 14/40] fix: reloading of the engine does not hang when a
 handler writes logs

---
 polog/core/engine/engine.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 7b45c6c..38efa19 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -68,22 +68,19 @@ class Engine(ReadOnlySingleton):
         """
         self.real_engine.write(log)
 
-    def _blocked_write(self, log):
-        with self.lock:
-            self._new_write(log)
-
     def reload(self):
         """
         Перезагрузка движка.
 
         При перезагрузке учитываются все актуальные на момент ее проведения настройки, таким образом их становится возможным менять в процессе работы программы.
-        На момент перезагрузки движка, операции записи блокируются для всех потоков.
+        Новый движок начинает принимать логи до остановки старого. Операции записи на время перезагрузки блокировать нельзя: логи могут писать и сами обработчики, завершения которых мы дожидаемся при остановке старого движка.
         """
         if self.settings['started']:
-            self.block()
-            self.stop()
-            self.load()
-            self.unlock()
+            with self.lock:
+                old_engine = self.real_engine
+                self.load()
+                if self.real_engine is not old_engine:
+                    self.stop_real_engine(old_engine)
 
     @exception_escaping
     def load(self):
@@ -102,20 +99,12 @@ class Engine(ReadOnlySingleton):
         self.real_engine.stop()
         self.active = False
 
-    def block(self):
-        """
-        Блокировка обертки движка, чтобы, пока происходит перезагрузка, нельзя было записывать логи.
-        """
-        if self.settings['started']:
-            self.lock.acquire()
-            self.write = self._blocked_write
-
-    def unlock(self):
+    @exception_escaping
+    def stop_real_engine(self, real_engine):
         """
-        Разблокировка обертки движка.
+        Остановка движка, на смену которому уже загружен другой.
         """
-        self.write = self._new_write
-        self.lock.release()
+        real_engine.stop()
 
     def increment_serial_number(self):
         """
@@ -135,5 +124,4 @@ class Engine(ReadOnlySingleton):
         @time_limit(lambda: self.settings['max_delay_before_exit'])
         # Учет данной функции при расчете покрытия тестами отключен, поскольку для его проверки используется отдельный процесс, который, к сожалению, не учитывается сборщиком статистики.
         def checker(): # pragma: no cover
-            self.block()
             self.stop()
-- 
2.43.0


From 1740ffd412391f7fd3418db27a5d57311196ee55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 15/40] fix: a local projection of the handlers tree is not
 torn off when handlers are deleted

---
 polog/data_structures/trees/named_tree/projector.py | 1 +
 polog/data_structures/trees/named_tree/tree.py      | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 466c3ff..c3d4dd3 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -27,6 +27,7 @@ class TreeProjector:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
             node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+            node_to_put.projected = True
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 30d0b0d..86a2b6e 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -54,6 +54,7 @@ class NamedTree:
         self.name = name
 
         self.value = None
+        self.projected = False
         self.childs = {}
         self.walker = TreeWalker(self)
         self.printer = TreePrinter(self)
@@ -163,7 +164,7 @@ class NamedTree:
         """
         Очистка дерева от лишних пустых нод. То есть от таких, которые не ведут к заполненным нодам.
 
-        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду.
+        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду. Ноды, спроецированные в другие деревья (а также ведущие к ним), не удаляются, даже если они пусты, чтобы проекции не отрывались от исходного дерева.
         Подъем останавливается, если мы достигли ноды, обозначенной как break_on. Если нода break_on не передана, подъем идет до корня. Это может приводить к неожиданным последствиям, если данный метод запускается на поддереве какого-то более крупного дерева - будут зааффекчены ноды того дерева, которые стоят выше по иерархии относительно поддерева.
 
         Не потокобезопасно, подразумевается вызов из защищенных локом методов.
@@ -176,7 +177,7 @@ class NamedTree:
             for child_name, child in parent.childs.items():
                 if child is break_on:
                     return
-                if not len(child):
+                if not len(child) and not any(x.projected for x in child.walker.bfs()):
                     childs_to_delete.append(child_name)
             for name in childs_to_delete:
                 del parent.childs[name]
-- 
2.43.0


From 1bece3ec5dd972dfcde7d3fdd247ddb254731377 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 16/40] fix: the logging context manager does not replace an
 exception that cannot be printed

---
 polog/loggers/finalizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index c07b569..87283a3 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -1,6 +1,7 @@
 import weakref
 import inspect
 import traceback
+from contextlib import suppress
 from time import time
 import json
 from datetime import datetime
@@ -89,9 +90,11 @@ class LoggerRouteFinalizer:
         """
         if exception_type is not None:
             self.data['exception_type'] = exception_type.__name__
-            self.data['exception_message'] = str(exception_value)
+            with suppress(Exception):
+                self.data['exception_message'] = str(exception_value)
             self.data['success'] = False
-            self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
+            with suppress(Exception):
+                self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
         else:
             self.data['success'] = True
 
-- 
2.43.0


From 86711e210808ee39a6b082a4ddc060a64eaa5fe8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 17/40] fix: @log over @unlog(full=...) does not lose the full
 argument

---
 polog/core/stores/registering_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 6f26981..dd082c9 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -55,10 +55,12 @@ class RegisteringFunctions:
         """
         Здесь принимается решение, декорировать функцию или оставить оригинал.
 
-        Если декорирование функции ранее было запрещено, вернется оригинал.
+        Если декорирование функции ранее было запрещено, вернется оригинал (а если она уже обернута в @unlog - то эта обертка, с сохранением ее аргументов).
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
         """
         if self.is_forbidden(func):
+            if before_change_func in self.unlogged_functions:
+                return before_change_func
             if unlog_decorator is None:
                 from polog.unlog import unlog
                 unlog_decorator = unlog
-- 
2.43.0


From a5281b12e63bf1e2a1a0ed9405717f9cee10703b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:43:26 +0000
Subject: [PATCH 18/40] fix: static methods, class methods and nested classes
 of a decorated class keep working

---
 polog/core/utils/replace_method.py | 15 +++++++++++++++
 polog/loggers/auto/class_logger.py |  9 +++------
 polog/unlog.py                     |  3 ++-
 3 files changed, 20 insertions(+), 7 deletions(-)
 create mode 100644 polog/core/utils/replace_method.py

diff --git a/polog/core/utils/replace_method.py b/polog/core/utils/replace_method.py
new file mode 100644
index 0000000..3ec98eb
--- /dev/null
+++ b/polog/core/utils/replace_method.py
@@ -0,0 +1,15 @@
+import inspect
+
+
+def replace_method(Class, name, wrapper):
+    """
+    Подменяем метод класса результатом применения к нему функции wrapper().
+
+    Статические методы и методы класса остаются таковыми. Атрибуты, которые не являются методами (то есть не связываются с экземпляром, скажем вложенные классы), не подменяются.
+    """
+    method = getattr(Class, name)
+    attribute = inspect.getattr_static(Class, name)
+    if isinstance(attribute, (staticmethod, classmethod)):
+        setattr(Class, name, type(attribute)(wrapper(attribute.__func__)))
+    elif hasattr(type(attribute), '__get__'):
+        setattr(Class, name, wrapper(method))
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 42e1044..2c1a891 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,6 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.replace_method import replace_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -20,20 +21,16 @@ class ClassLogger:
             # Получаем имена методов класса.
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
-                method = getattr(Class, method_name)
                 # Конфигурируем декоратор для метода.
                 wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
                 # Применяем его.
-                new_method = wrapper(method)
-                setattr(Class, method_name, new_method)
+                replace_method(Class, method_name, wrapper)
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
             # Если они уже залогированы - нужно вернуть оригиналы.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                method = getattr(Class, method_name)
-                original = register.get_original(method)
-                setattr(Class, method_name, original)
+                replace_method(Class, method_name, register.get_original)
             return Class
         if not len(args):
             return decorator
diff --git a/polog/unlog.py b/polog/unlog.py
index 08741d3..8b8752e 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -7,6 +7,7 @@ from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
 from polog.errors import IncorrectUseOfTheDecoratorError
+from polog.core.utils.replace_method import replace_method
 from polog.core.stores.settings.settings_store import SettingsStore
 
 
@@ -33,7 +34,7 @@ class UnlogDecorator:
                     if not function_name.startswith('__'):
                         maybe_method = getattr(obj, function_name)
                         if callable(maybe_method):
-                            setattr(obj, function_name, self.unlog_function(maybe_method, full))
+                            replace_method(obj, function_name, lambda method: self.unlog_function(method, full))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
-- 
2.43.0


From 6e06ca102f15aca98e8db7c7c5a9f85dd3868d9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 19/40] fix: adding or deleting a handler while a record is
 being delivered does not break the delivery

---
 polog/data_structures/trees/named_tree/walker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/walker.py b/polog/data_structures/trees/named_tree/walker.py
index 1836329..6c2f5a3 100644
--- a/polog/data_structures/trees/named_tree/walker.py
+++ b/polog/data_structures/trees/named_tree/walker.py
@@ -16,8 +16,7 @@ class TreeWalker:
             next_layer = []
             for node in layer:
                 yield node
-                for child in node.childs.values():
-                    next_layer.append(child)
+                next_layer.extend(list(node.childs.values()))
             layer = next_layer
 
     def bfs_values(self):
@@ -45,5 +44,5 @@ class TreeWalker:
         Поскольку обход реализован через рекурсию, его глубина ограничена и при ее превышении поднимется RecursionError.
         """
         yield node
-        for child in node.childs.values():
+        for child in list(node.childs.values()):
             yield from self._recursive_dfs(child)
-- 
2.43.0


From aa421070056f648b27d7e34e8f494583dc1555ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 20/40] fix: registering or deleting a field while a record is
 being composed does not break the record

---
 polog/core/log_item.py                                       | 2 +-
 polog/data_structures/wrappers/fields_container/container.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 81f21f2..4f53d0b 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -185,7 +185,7 @@ class LogItem:
         fields - словарь, в котором ключи - строки с названиями полей, значения - поля.
         """
         data = self.fields
-        for name, field in fields.items():
+        for name, field in list(fields.items()):
             if name not in data or self._fields_intersection:
                 try:
                     value = field.get_data(self)
diff --git a/polog/data_structures/wrappers/fields_container/container.py b/polog/data_structures/wrappers/fields_container/container.py
index d1564a8..b07fca1 100644
--- a/polog/data_structures/wrappers/fields_container/container.py
+++ b/polog/data_structures/wrappers/fields_container/container.py
@@ -23,7 +23,7 @@ class FieldsContainer:
         for key in self.fields:
             yield key
 
-        for key in self.defaults:
+        for key in list(self.defaults):
             if key not in self.fields:
                 yield key
 
@@ -36,6 +36,6 @@ class FieldsContainer:
         for key, value in self.fields.items():
             yield key, value
 
-        for key, value in self.defaults.items():
+        for key, value in list(self.defaults.items()):
             if key not in self.fields:
                 yield key, value
-- 
2.43.0


From 13ed6e46f9cc2fd7155333834b13fd2956c7793b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 21/40] fix: engine fields are extracted for manual records too

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 82fd68f..31cc540 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,7 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
-from polog.core.stores.fields import in_place_fields
+from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
 
@@ -66,6 +66,7 @@ class BaseLogger(AbstractHandleLogger):
                 log_item = LogItem()
                 log_item.set_data(fields)
                 log_item.set_handlers(global_handlers)
+                log_item.set_extra_fields(engine_fields)
                 log_item.extract_extra_fields_from(in_place_fields)
                 self._engine.write(log_item)
 
-- 
2.43.0


From a0a21cb03a3adf0a38247e70d1be269bfd6a5b85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:46:51 +0000
Subject: [PATCH 22/40] fix: a failed reopening of the log file after its move
 to another file system does not lose the records

---
 polog/handlers/file/file_dependency_wrapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index 55d636f..900a41e 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -22,6 +22,7 @@ class FileDependencyWrapper:
         file - список с аргументами от пользователя. Он валиден, если пуст, либо содержит 1 элемент - файловый объект или строку с путем к файлу.
         """
         self.file, self.filename = self.get_file_object(file)
+        self.moved = False
         self.lock = DoubleLock(self.filename, lock_type)
 
     def is_file_object(self, file):
@@ -68,6 +69,8 @@ class FileDependencyWrapper:
         Запись строки в файл.
         """
         with self.lock:
+            if self.moved: # Файл перемещен, но открыть новый в тот раз не удалось.
+                self.reopen()
             self.file.write(log_string)
 
     def close(self):
@@ -85,11 +88,12 @@ class FileDependencyWrapper:
 
     def reopen(self):
         """
-        Открываем файл заново, после чего закрываем прежний файловый объект. Если открыть файл не удалось, запись продолжается в прежний.
+        Открываем файл заново, после чего закрываем прежний файловый объект. Если открыть файл не удалось, новая попытка будет сделана при следующей записи.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
         """
         old_file = self.file
         self.open(self.filename)
+        self.moved = False
         old_file.close()
 
     def flush(self):
@@ -125,6 +129,7 @@ class FileDependencyWrapper:
             except FileNotFoundError:
                 self.make_dirs_for_path(path_to_copy)
                 shutil.move(self.filename, path_to_copy)
+            self.moved = True
             self.reopen()
 
     def make_dirs_for_path(self, path):
-- 
2.43.0


From a83705798e99093122a2338111ed72dfb04e07f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 23/40] fix: changing pool_size while the first record is being
 written does not deadlock

---
 polog/core/engine/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 38efa19..15fff86 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -31,13 +31,15 @@ class Engine(ReadOnlySingleton):
         Первая стадия инициализации движка.
         Осуществляется при запуске программы.
         """
+        if hasattr(self, 'inited'): # Уже созданный объект отдаем без блокировки: ее в это время может держать поток, записывающий первый лог.
+            return
         with self.lock:
             if not hasattr(self, 'inited'):
                 self.settings = SettingsStore()
                 self.blocked = False
-                self.inited = True
                 self.serial_number = 0
                 self.active = False
+                self.inited = True
 
     def __second_init__(self):
         """
-- 
2.43.0


From 097582f7c8085a768b375274de4ab09a66701ce0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 24/40] fix: concurrent mails through one SMTP handler do not
 share a connection, failed ones close it

---
 .../handlers/smtp/smtp_dependency_wrapper.py  | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index e9b6c3c..2388a3b 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -19,29 +19,37 @@ class SMTPDependencyWrapper:
         Обертка для отправки сообщения.
         При каждой отправке сообщения объект соединения с сервером создается заново.
         """
-        self.create_smtp_server()
-        self.send_mail(message)
-        self.quit_from_server()
+        server = self.create_smtp_server()
+        try:
+            self.send_mail(server, message)
+        finally:
+            self.quit_from_server(server)
 
     def create_smtp_server(self):
         """
         Создание объекта SMTP-сервера и логин.
-        """
-        self._server = smtplib.SMTP_SSL(self.server, self.port)
-        self._server.login(self.email_from, self.password)
 
-    def send_mail(self, message):
+        Объект возвращается, а не хранится в атрибуте: через один обработчик письма могут одновременно отправлять несколько потоков.
+        """
+        server = smtplib.SMTP_SSL(self.server, self.port)
+        try:
+            server.login(self.email_from, self.password)
+        except BaseException:
+            self.quit_from_server(server)
+            raise
+        return server
+
+    def send_mail(self, server, message):
         """
         Отправляем сообщение.
         """
-        self._server.sendmail(self.email_from, [self.email_to], message.as_string())
+        server.sendmail(self.email_from, [self.email_to], message.as_string())
 
-    def quit_from_server(self):
+    def quit_from_server(self, server):
         """
         Разлогиниваемся на сервере.
         """
-        if hasattr(self, '_server'):
-            try:
-                self._server.quit()
-            except:
-                pass
+        try:
+            server.quit()
+        except:
+            pass
-- 
2.43.0


From f77a9be32989f216e91f05e783620e59c7853df7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 25/40] fix: blocks 'with log' entered in different asyncio
 tasks do not close each other

---
 polog/loggers/router.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 627f5a0..e11c65e 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -131,11 +131,8 @@ class Router:
         """
         finalizer = LoggerRouteFinalizer()
 
-        context_stack = contexts.get(None)
-        if context_stack is None:
-            contexts.set([finalizer])
-        else:
-            context_stack.append(finalizer)
+        # Стек не изменяется на месте, поскольку таски asyncio получают копию контекста, ссылающуюся на тот же самый объект.
+        contexts.set([*(contexts.get(None) or []), finalizer])
 
         return finalizer.__enter__()
 
@@ -143,18 +140,22 @@ class Router:
         """
         Выход из контекста.
         """
+        finalizer = self._leave_context()
+
+        result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
+        return result
+
+    def _leave_context(self):
+        """
+        Снятие со стека контекстов последнего элемента, он возвращается.
+        """
         finalizers = contexts.get(None)
 
         if finalizers is None:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers.pop()
-
-        if not finalizers:
-            contexts.set(None)
-
-        result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
-        return result
+        contexts.set(finalizers[:-1] or None)
+        return finalizers[-1]
 
 
 log = Router()
-- 
2.43.0


From 286457610b5e5bbb997b1b97a7f80337c85bc3bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:17:12 +0000
Subject: [PATCH 26/40] fix: a block that failed on entering does not stay in
 the stack of blocks

---
 polog/loggers/partial.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index a6f438d..df56720 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -46,11 +46,16 @@ class RouterPartial:
         Вход в контекстный менеджер. По факту проксирует вход в контекстный менеджер от роутера.
         """
         result = self.item.__enter__()
-        result(**self.kwargs)
-        if self.to_calling_before_enter is not None:
-            method_name, args, kwargs = self.to_calling_before_enter
-            attribute = getattr(result, method_name)
-            attribute(*args, **kwargs)
+        try:
+            result(**self.kwargs)
+            if self.to_calling_before_enter is not None:
+                method_name, args, kwargs = self.to_calling_before_enter
+                attribute = getattr(result, method_name)
+                attribute(*args, **kwargs)
+        except BaseException:
+            # При ошибке на входе метод __exit__() вызван не будет, поэтому незавершенный контекст нужно снять со стека здесь.
+            self.item._leave_context()
+            raise
         return result
 
     def __exit__(self, exception_type, exception_value, traceback_instance):
-- 
2.43.0


From 3fd6d21c37e50d68acacfe642469e3c828173172 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:28:47 +0000
Subject: [PATCH 27/40] fix: one field passed to a manual log under two names
 is compared by its value

---
 polog/loggers/handle/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 2da68fa..30f2dac 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -147,7 +147,7 @@ class AbstractHandleLogger:
                 value = self._convert_values.get(key)(value)
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != kwargs[key]:
+                if destination[key] != value:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
-- 
2.43.0


From 29fb93da103cfbc25cef66f19aa4c374a3fe1860 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:06 +0000
Subject: [PATCH 28/40] fix: with silent_internal_exceptions a wrong level in a
 manual log does not raise and does not lose the record

---
 polog/loggers/handle/abstract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 30f2dac..ad5966c 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -144,7 +144,11 @@ class AbstractHandleLogger:
                     continue
             # При необходимости - конвертируем переданные значения.
             if key in self._convert_values:
-                value = self._convert_values.get(key)(value)
+                try:
+                    value = self._convert_values.get(key)(value)
+                except (KeyError, ValueError) as e:
+                    self._maybe_raise(type(e), e.args[0])
+                    continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
                 if destination[key] != value:
-- 
2.43.0


From 76febd3fa04bd977f26bc87ca0c406953e44e069 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:06 +0000
Subject: [PATCH 29/40] fix: a message of logging that is not a string neither
 raises in the caller nor gets lost

---
 .../actions/integration_with_logging.py       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 60841bd..1fd899d 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -1,10 +1,22 @@
 import logging
 import traceback
+from contextlib import suppress
 from datetime import datetime
 
 from polog.core.stores.settings.actions.decorator import is_action
 
 
+def get_message(record):
+    """
+    Текст сообщения. Если аргументы не соответствуют формату - сам формат.
+    """
+    try:
+        return record.getMessage()
+    except Exception:
+        with suppress(Exception):
+            return str(record.msg)
+
+
 def from_logging_filter_to_polog(record):
     """
     Здесь копируется информация из объекта записи logging и передается логгеру Polog.
@@ -17,11 +29,9 @@ def from_logging_filter_to_polog(record):
     data = {}
 
     data['time'] = datetime.fromtimestamp(record.created)
-    if record.msg:
-        try:
-            data['message'] = record.getMessage()
-        except Exception:
-            data['message'] = str(record.msg)
+    message = get_message(record)
+    if message:
+        data['message'] = message
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
-- 
2.43.0


From 7a7e52383cc22809fc848612020f345e86d9f4ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:06 +0000
Subject: [PATCH 30/40] fix: records of logging without a function or with an
 unprintable exception do not raise in the caller

---
 .../core/stores/settings/actions/integration_with_logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 1fd899d..e3cd4f0 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -39,13 +39,14 @@ def from_logging_filter_to_polog(record):
         data['success'] = True
     data['module'] = record.module
     data['line_number'] = record.lineno
-    if record.funcName.isidentifier():
+    if record.funcName and record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
     if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
-        data['exception_message'] = str(record.exc_info[1])
+        with suppress(Exception):
+            data['exception_message'] = str(record.exc_info[1])
     data['thread'] = f'{record.threadName} ({record.thread})'
     data['process'] = f'{record.processName} ({record.process})'
 
-- 
2.43.0


From 33da38c98c1e1ee824e148c5dcd432c49b7dfe15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:17 +0000
Subject: [PATCH 31/40] fix: a function with a required keyword-only argument
 is not accepted as a handler

---
 polog/core/utils/signature_matcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index c49d2ac..aa58e21 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -43,6 +43,7 @@ class SignatureMatcher:
         result *= self.prove_number_of_position_args(parameters)
         result *= self.prove_number_of_named_args(parameters)
         result *= self.prove_names_of_named_args(parameters)
+        result *= self.prove_no_required_keyword_only_args(parameters)
         return bool(result)
 
     def prove_is_args(self, parameters):
@@ -79,6 +80,12 @@ class SignatureMatcher:
             result *= (name in names_of_parameters)
         return result
 
+    def prove_no_required_keyword_only_args(self, parameters):
+        """
+        Проверка, что нет обязательных аргументов, которые можно передать только по имени: такой функции не соответствует ни один "слепок".
+        """
+        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default is parameter.empty]
+
     @classmethod
     def is_handler(cls, function, raise_exception=True):
         """
-- 
2.43.0


From 968caa08b3a8f3a202010e187ada73b4b455d5c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:17 +0000
Subject: [PATCH 32/40] fix: default values of arguments with their own
 comparison do not confuse the signature matcher

---
 polog/core/utils/signature_matcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index aa58e21..9a3ce98 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -62,19 +62,19 @@ class SignatureMatcher:
         """
         Проверка, что количество позиционных аргументов совпадает с ожидаемым.
         """
-        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default == parameter.empty])
+        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is parameter.empty])
 
     def prove_number_of_named_args(self, parameters):
         """
         Проверка количества именованных аргументов.
         """
-        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty])
+        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is not parameter.empty])
 
     def prove_names_of_named_args(self, parameters):
         """
         Проверка, что имена именованных аргументов совпадают с ожидаемыми.
         """
-        names_of_parameters = [parameter.name for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty]
+        names_of_parameters = [parameter.name for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is not parameter.empty]
         result = True
         for name in self.names_of_named_args:
             result *= (name in names_of_parameters)
-- 
2.43.0


From abc4080eee8e53943fb2476239a6d04b2789eb33 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:33:40 +0000
Subject: [PATCH 33/40] fix: an unprintable argument or result of a call does
 not lose its record

---
 polog/utils/json_vars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 4e44602..6b2edd3 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -9,7 +9,11 @@ def get_item(item):
     for one in BASE_JSON_TYPES:
         if isinstance(item, one):
             return {'value': item, 'type': one.__name__}
-    return {'value': str(item), 'type': type(item).__name__}
+    try:
+        value = str(item)
+    except Exception:
+        value = f'<unprintable object of {type(item).__name__}>'
+    return {'value': value, 'type': type(item).__name__}
 
 def json_vars(*args, **kwargs):
     """
-- 
2.43.0


From 13c7c513d443aef7a1de8cada67e3626ab7ba550 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:33:40 +0000
Subject: [PATCH 34/40] fix: an exception that cannot be printed does not lose
 the record about it

---
 polog/core/utils/exception_to_dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/core/utils/exception_to_dict.py b/polog/core/utils/exception_to_dict.py
index 3dc4041..31f37d5 100644
--- a/polog/core/utils/exception_to_dict.py
+++ b/polog/core/utils/exception_to_dict.py
@@ -1,6 +1,10 @@
+from contextlib import suppress
+
+
 def exception_to_dict(args_dict, exc):
     """
     Заполняем словарь с аргументами информацией об исключении.
     """
-    args_dict['exception_message'] = str(exc)
+    with suppress(Exception):
+        args_dict['exception_message'] = str(exc)
     args_dict['exception_type'] = type(exc).__name__
-- 
2.43.0


From 26ca25e1c9de1a5f9d0afc3503372a9cdd8f63f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:33:54 +0000
Subject: [PATCH 35/40] fix: the default formatter understands tracebacks of
 files with spaces in their paths

---
 .../handlers/file/base_formatter_fields_extractors.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 6ff0524..057c19d 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -1,3 +1,4 @@
+import re
 import inspect
 import importlib
 
@@ -245,11 +246,10 @@ class BaseFormatterFieldsExtractors:
                 return 'no traceback'
             result = []
             for line in traceback:
-                splitted_line = line.split()
-                path = splitted_line[1]
-                line_num = splitted_line[3]
-                where = splitted_line[5]
-                message = ' '.join(splitted_line[6:])
+                # В пути к файлу могут быть пробелы, поэтому разбивать строку только по ним нельзя.
+                match = re.match(r'\s*File ("[^\n]*",) line (\d+,) in (\S+)(.*)', line, flags=re.DOTALL)
+                path, line_num, where, message = match.groups()
+                message = ' '.join(message.split())
                 result.append(f'{message} ({path} line {line_num} in {where})')
             full_traceback = '; '.join(result)
             full_traceback = f'traceback: {full_traceback}'
-- 
2.43.0


From bcb04c9f44225239f17fb2d68292f0c7af3a2d9d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:33:54 +0000
Subject: [PATCH 36/40] fix: an unprintable value of a user field does not lose
 the whole line of the log

---
 polog/handlers/file/base_formatter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/polog/handlers/file/base_formatter.py b/polog/handlers/file/base_formatter.py
index 2e4cdf7..f49bea4 100644
--- a/polog/handlers/file/base_formatter.py
+++ b/polog/handlers/file/base_formatter.py
@@ -133,10 +133,13 @@ class BaseFormatter:
             if field_name not in base:
                 if field_name not in self.FORBIDDEN_EXTRA_FIELDS:
                     if value is not None:
-                        if isinstance(value, str):
-                            base[field_name] = f'{field_name}: "{value}"'
-                        else:
-                            base[field_name] = f'{field_name}: {value}'
+                        try:
+                            if isinstance(value, str):
+                                base[field_name] = f'{field_name}: "{value}"'
+                            else:
+                                base[field_name] = f'{field_name}: {value}'
+                        except Exception:
+                            base[field_name] = f'{field_name}: <unprintable object of {type(value).__name__}>'
 
     def format(self, data):
         """
-- 
2.43.0


From 3273b17cae7bfc296ec996c23e7f81f8847bdfaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 37/40] fix: a bound method of an object with its own attribute
 access can be called after decorating

---
 polog/loggers/auto/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index ed2f13a..204682b 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -148,7 +148,7 @@ class FunctionLogger:
         """
         try:
             return function.__self__.__name__
-        except AttributeError:
+        except Exception: # Доступ к атрибуту чужого объекта может завершиться любым исключением.
             try:
                 maybe_class_name = function.__qualname__.split('.')[-2]
                 if maybe_class_name.isidentifier():
-- 
2.43.0


From 36353f7beaa9922dd987aefa74af05ee1de0a684 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:45:34 +0000
Subject: [PATCH 38/40] fix: the end of the program waits for a stuck handler
 no longer than max_delay_before_exit

---
 .../core/engine/real_engines/multithreaded/pool.py | 14 ++++++++++++--
 .../engine/real_engines/multithreaded/worker.py    |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index 285e761..1fa0d9b 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -42,14 +42,24 @@ class ThreadPool:
         2. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
         3. Заджойнить потоки воркеров.
         """
-        with self.put_lock:
-            self.closed = True
+        self.close()
         self.wait_empty_queue()
         for worker in self.workers:
             worker.set_stop_flag()
         for worker in self.workers:
             worker.stop()
 
+    def close(self):
+        """
+        Закрываем очередь для новых логов.
+
+        Блокировку может долго удерживать писатель, ждущий места в переполненной очереди. Ожидание разбито на кванты, чтобы его можно было прервать по time_limit.
+        """
+        while not self.put_lock.acquire(timeout=self.settings['time_quant']):
+            pass
+        self.closed = True
+        self.put_lock.release()
+
     def wait_empty_queue(self):
         """
         Опрашиваем очередь с некоторой периодичностью, пока она не опустеет. Когда очередь опустела, выходим.
diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index ffbc944..4f9c122 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -62,7 +62,9 @@ class Worker:
 
         Это второй этап остановки воркера (см. также self.set_stop_flag()). Ожидается, что к моменту вызова данного метода флаг остановки уже установлен и цикл обработки логов прерван, что позволяет беспрепятственно присоединить поток воркера.
         """
-        self.thread.join()
+        # Ожидание разбито на кванты, поскольку сплошной .join() в главном потоке не прерывается по time_limit, и программа с зависшим обработчиком не завершилась бы за 'max_delay_before_exit'.
+        while self.thread.is_alive():
+            self.thread.join(timeout=self.settings['time_quant'])
 
     def do_anything(self, log_item):
         """
-- 
2.43.0


From 4b9fed07eae1d5d8f457e6409216d520b419c87a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:37:44 +0000
Subject: [PATCH 39/40] fix: the limit of time at the end of the program does
 not depend on how SIGINT is handled

---
 polog/core/utils/time_limit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/polog/core/utils/time_limit.py b/polog/core/utils/time_limit.py
index 3981c02..fd962d7 100644
--- a/polog/core/utils/time_limit.py
+++ b/polog/core/utils/time_limit.py
@@ -1,9 +1,6 @@
-from threading import Timer
+import ctypes
+from threading import Timer, main_thread
 from functools import wraps
-try:
-    import thread
-except ImportError:
-    import _thread as thread
 
 from polog.core.utils.signature_matcher import SignatureMatcher
 
@@ -33,7 +30,8 @@ class time_limit:
         """
         Непосредственно функция-декоратор.
 
-        Отсчет времени реализован через threading.Timer, где регистрируется обработчик, вызывающий thread.interrupt_main() (функцию, поднимающую KeyboardInterrupt в основном потоке). KeyboardInterrupt перехватывается и преобразуется в TimeoutError.
+        Отсчет времени реализован через threading.Timer, где регистрируется обработчик, поднимающий KeyboardInterrupt в основном потоке. KeyboardInterrupt перехватывается и преобразуется в TimeoutError.
+        Исключение поднимается напрямую, а не через thread.interrupt_main(), поскольку последняя лишь имитирует сигнал SIGINT: она ничего не делает, если этот сигнал игнорируется (к примеру, в фоновом процессе), и вызывает чужой обработчик, если он установлен.
         """
         @wraps(func)
         def wrapper(*args, **kwargs):
@@ -44,7 +42,7 @@ class time_limit:
             except Exception as e:
                 return func(*args, **kwargs)
             def raise_error():
-                thread.interrupt_main()
+                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(main_thread().ident), ctypes.py_object(KeyboardInterrupt))
             timer = Timer(delay, raise_error)
             try:
                 timer.start()
-- 
2.43.0


From 545ffdd58cec9c6609dd1566404f1270cc3c2f4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:00:25 +0000
Subject: [PATCH 40/40] fix: the default formatter shows the service of the
 record itself, not the one of the moment of formatting

---
 polog/handlers/file/base_formatter_fields_extractors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 057c19d..6ca559e 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -87,7 +87,9 @@ class BaseFormatterFieldsExtractors:
         function_name = log.get('function')
         class_name = log.get('class')
         module_name = log.get('module')
-        service_name = SettingsStore()['service_name']
+        service_name = log.get('service_name', SettingsStore()['service_name'])
+        if service_name is not None:
+            service_name = str(service_name)
 
         if function_name is not None:
             result = '.'.join([x for x in (service_name, module_name, class_name, function_name) if x is not None])
-- 
2.43.0

