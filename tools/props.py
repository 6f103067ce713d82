#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p('C01', 'A command takes effect entirely or not at all',
  "Everything one engine command persists - new, changed and removed entities at every level of the aggregate - becomes visible together at one instant or never: after a body error, Break, panic, database error, lost connection or process crash nothing of it is stored. "
  "A command that reports success is stored completely; a command that reports an error or Break is not stored unless the only failure was the unknown outcome of the commit itself. "
  "Concurrent readers never see part of a command, and a command run inside the main function of another one, with its context, stands on its own: what it reported as stored stays stored when the outer one fails.",
  ['crash_points', 'fault_sequences', 'schedules', 'programs'],
  'every command body over an aggregate, every point at which a statement fails, a connection is lost or the process dies, every interleaving with other commands',
  'The engine tests run single commands against an in-memory executor that cannot fail half-way; the MySQL executor tests need a server and are not run at all.',
  ['engine.go', 'executor.go', 'executor/mysql/executor.go', 'command.go'],
  [('one transaction around body, diff and persistence', 'engine.go: Stage.runWithTransaction, Stage.Save, Stage.persist'), ('transaction handle passed through the context', 'executor/mysql/executor.go: Begin/Commit/RollBack')],
  [('transaction context', 'open database transaction of the running command', 'executor/mysql: context value')],
  ['committed rows of the business tables', 'Result.Error and Result.Break'])
p('C02', 'Stored state equals the state the command left its entities in',
  "After a successful command the stored aggregate equals exactly what the command's domain operations describe: roots added, removed, loaded and changed, children added, removed, changed, moved between parents of the aggregate and removed recursively with their parent, for every sequence of loads and changes within the command. "
  "Entities the command did not change are not written, the before- and after-hooks of each created, changed or removed entity run exactly once per save and for no other entity, and reading an aggregate back yields what was stored.",
  ['programs', 'inputs', 'histories'],
  'every sequence of Get/Add/Remove/Save and entity mutations inside commands and every history of such commands',
  'The tests cover a handful of fixed edits of one shape; change detection is a diff of two object graphs and its errors appear for particular combinations of operations.',
  ['engine.go', 'snapshot.go', 'domain.go', 'executor/mysql/executor.go'],
  [('snapshot when loaded, diff when saved', 'snapshot.go; engine.go: Stage.persist'), ('moves and recursive deletes folded into actions', 'snapshot.go: entityDiff, handleEntityMove, recursiveDelete'), ('hooks around the save', 'engine.go: execHook')],
  [('snapshot pool', 'entities as they were loaded', 'engine.go: Stage.meta, snapshot pool')],
  ['rows of the business tables after each command', 'statements sent to the store', 'entities returned by Get'])
p('C03', 'Commands on the same lock key never overlap',
  "While a command that locked a key is between obtaining its locks and the end of its transaction, no other command that locks the same key runs its body, and the locks are released only after the transaction has ended, exactly once, however the command ends. "
  "If a lock cannot be obtained, or the same key is requested twice, the command's main function never runs, nothing is stored and every lock already taken is released. "
  "Commands that lock overlapping sets of keys in any order never deadlock.",
  ['schedules', 'fault_sequences', 'programs'],
  'every set of concurrent commands with overlapping keys, every lock error and every way a command can end',
  'The unit tests use one command at a time with a lock that never fails or waits.',
  ['engine.go', 'executor.go', 'command.go'],
  [('keys are sorted and taken before the body', 'engine.go: Stage.runOnLock'), ('deferred unlock', 'engine.go: Stage.runOnLock')],
  [], ['calls of ILock.Lock/UnLock', 'start and end of command bodies and of transactions'])
p('C04', 'A command publishes exactly the events it raised, iff it commits',
  "A successful command publishes every event its entities raised - including entities it removed and events raised in save hooks - exactly once and in creation order; a command whose body, saving or hooks fail, or that breaks, panics or is a dry run, publishes none, and a command whose events the bus refuses fails and stores nothing. "
  "Transactional events follow begin, database commit, then commit of the message transaction, or rollback of it if the command fails; with event persistence enabled each event row is stored in the same database transaction as the entities.",
  ['programs', 'fault_sequences', 'crash_points'],
  'every combination of raised events of every send type and every failure of body, store, commit or bus',
  'Existing tests dispatch one or two events without failures; the order and the begin/commit protocol depend on which step fails.',
  ['engine.go', 'event.go', 'domain.go'],
  [('events collected from all changed entities, sorted by creation', 'engine.go: collectEvents / dispatchEvents'), ('message transaction around the commit', 'engine.go: DispatchBegin, Commit, Rollback')],
  [], ['calls that arrive at the event bus', 'rows of the event table'])
p('C05', 'Transactional events are delivered if and only if the command committed',
  "An event sent as transactional is delivered to the registered services if and only if the business transaction that raised it committed, whatever the process, the database or the network does between the two commits, provided the transaction checker answers truthfully. "
  "Every message transaction is eventually resolved and its record removed; the checker of the service that sent them is asked only after the check timeout and, while it answers unknown, again; if no checker is registered it is rolled back.",
  ['crash_points', 'fault_sequences', 'schedules'],
  'every crash point and error between raising the event and removing the transaction record, every timing of the checker',
  'The only test of this part needs a MySQL server and is not run; the failure window is between two commits.',
  ['eventbus/mysql/eventbus.go', 'engine.go', 'event.go'],
  [('transaction record stored before commit, dispatch after', 'eventbus.go: DispatchBegin/Commit/Rollback'), ('overdue records are checked', 'eventbus.go: handleTransactions, checkTX')],
  [('message transaction', 'events waiting for the outcome of a command', 'table ddd_event_transaction')],
  ['handler calls', 'rows of ddd_event_transaction and of the business table'])
p('C06', 'Every accepted event reaches every registered service',
  "Once Dispatch of a non-transactional event (or the command that raised it) reported success, every service registered before is eventually given the event, unchanged, until its handler succeeded or the retry policy is exhausted, however often nodes crash, connections fail or other senders' events fail or block. "
  "A batch is accepted for all services or not at all, and an event is never recorded as handled unless its handler returned success. "
  "A service whose registration failed at startup still becomes registered while it runs.",
  ['crash_points', 'fault_sequences', 'schedules', 'histories'],
  'every sequence of crashes, errors and stalls that ends, every mix of senders and services',
  'The event bus tests need a MySQL server and are not run; they inject no fault.',
  ['eventbus/mysql/eventbus.go', 'eventbus/mysql/po.go'],
  [('event row and one service-event row per service', 'eventbus.go: Dispatch'), ('periodic scan of unfinished service events', 'eventbus.go: getScanEvents, handleEvents'), ('registration', 'eventbus.go: initService, Start')],
  [('service event', 'state of one delivery', 'table ddd_domain_service_event')],
  ['handler calls', 'rows of ddd_domain_event and ddd_domain_service_event'])
p('C07', 'A handled event is not handled again by the same service',
  "Once the success of an event's handler is recorded for a service, no node of that service handles the event again, and two nodes or workers of one service never handle the same event at the same time. "
  "Redelivery happens only after a failed attempt or when an outcome could not be recorded.",
  ['schedules', 'crash_points', 'fault_sequences'],
  'every interleaving of several nodes of a service with several workers each, scans racing with handlers, slow handlers and stale scans',
  'Races between instances appear only under particular interleavings of scan, lock and commit; no test runs two instances.',
  ['eventbus/mysql/eventbus.go'],
  [('NOWAIT row lock held while the handler runs', 'eventbus.go: handleEvent'), ('status re-check under the lock', 'eventbus.go: handleEvent')],
  [('service event row lock', 'who handles the event now', 'table ddd_domain_service_event')],
  ['handler calls per service and event', 'committed status changes'])
p('C08', 'Ordered events of one sender are handled in order',
  "For a sender that publishes its events one command after another, a service starts handling a FIFO event only after every earlier ordered event of that sender succeeded or was expired by an operator; a LaxFIFO event only after every earlier ordered event succeeded, was expired or failed for good. This also holds when the sender publishes unordered events in between. "
  "A FIFO event that failed for good blocks only the later ordered events of its own sender.",
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of workers and nodes, every pattern of handler failures and retries, any number of senders, any mix of ordered and unordered events',
  'The order can break only when several workers or nodes race or when failures and retries mix; no test runs that.',
  ['eventbus/mysql/eventbus.go', 'event.go'],
  [('predecessor check inside the delivery transaction', 'eventbus.go: checkPrecedingEvent, checkEarlierEvents')],
  [('event order', 'sender, creation time and id of an event', 'table ddd_domain_event')],
  ['handler start order', 'status of earlier events'])
p('C09', 'Retries follow the configured policy',
  "A failing (or panicking) handler is retried exactly as the policy of the service says: interval and limit policies with limit L give L+2 attempts in total, a custom policy with n intervals n+1, and no attempt starts before the interval after the previous failed attempt has passed. "
  "After the last allowed attempt the delivery is recorded as failed and never attempted again, and it is not given up earlier.",
  ['histories', 'schedules', 'configurations', 'fault_sequences'],
  'every policy, every pattern of failures and panics, several nodes, crashes between attempts',
  'Counting and spacing depend on concurrent scans and restarts; tests check one policy in one process (and need MySQL).',
  ['eventbus/mysql/eventbus.go'],
  [('policy object', 'eventbus.go: LimitRetry, IntervalRetry, CustomRetry'), ('retry state in the service event', 'eventbus.go: doRetryStrategy, handleEvent')],
  [('retry_count, next_time', 'progress of the policy', 'table ddd_domain_service_event')],
  ['handler calls with their times', 'committed status changes'])
p('C10', 'Cleanup removes only finished, expired-retention events, and removes them all',
  "Cleanup never removes a delivery record that has not succeeded or is younger than the retention time, and never removes an event that some service still has to handle. "
  "An event that every service has handled and that is older than the retention is eventually removed with its delivery records, whatever crashes or errors interrupt cleanup runs.",
  ['schedules', 'crash_points', 'fault_sequences'],
  'every interleaving of cleanup runs of several services and nodes with deliveries, every crash inside a cleanup',
  'Cleanup runs from a cron once a day; no test runs it concurrently with anything or interrupts it.',
  ['eventbus/mysql/eventbus.go'],
  [('per-service deletion followed by a reference check', 'eventbus.go: cleanEvents')],
  [('retention', 'minimum age of removed events', 'Options.RetentionTime')],
  ['rows removed from ddd_domain_event and ddd_domain_service_event'])
p('C11', 'The database lock is exclusive, leased and recoverable',
  "At most one holder has a database lock on a key at a time as long as holders finish within the lease: a second Lock or Run, retried a few times if so configured, fails with the locked error until the holder unlocks or its lease has run out without renewal, and a lock abandoned by a crash becomes available once the lease has run out. "
  "Run executes its function exactly once if and only if it got the lock, keeps the lease renewed for as long as the function runs, tells the function to stop when the lease is lost, and stops renewing and releases the lock when the function ends. "
  "UnLock releases only the caller's own lock, never one taken over by somebody else.",
  ['schedules', 'crash_points', 'fault_sequences'],
  'every interleaving of contenders at the moment of creation and takeover, every crash, delay and lost reply',
  'The lock tests run one or two goroutines without faults; races at lease expiry need exact interleavings and time.',
  ['lock/db/sql.go'],
  [('unique key and conditional take-over', 'lock/db/sql.go: DBLock.lock'), ('periodic renewal', 'lock/db/sql.go: DBLock.Run')],
  [('lock row', 'owner and last renewal of a key', 'table resource_lock')],
  ['return values of Lock/UnLock/Run', 'lock rows'])
p('C12', 'The redis lock is exclusive within its TTL and always recoverable',
  "Two clients never hold the redis lock on one key at the same time while the holder is within its time to live, and distinct keys do not exclude each other. "
  "A client that finds the lock held keeps trying for a bounded time and then reports the locked error; any other failure is reported as an error too, and whatever it may leave behind expires after the time to live, as does the lock of a crashed client. "
  "Unlocking removes only the caller's own lock and reports when that was already lost.",
  ['schedules', 'crash_points', 'fault_sequences'],
  'every interleaving of clients, lost and delayed replies, crashes, expiry',
  'The redis lock has no test at all.',
  ['lock/redis/redis.go'],
  [('token-guarded key with expiry', 'lock/redis/redis.go: Lock/UnLock on redislock')],
  [('key with token and expiry', 'current holder', 'redis')],
  ['return values of Lock/UnLock', 'keys of the server'])
p('C13', 'Timers fire once due, at least once, and stop when done or cancelled',
  "A job registered once or on a schedule runs after its due time (kept to the second), never before, on some running instance of its service, with its own key and data, and again after each run at the next time of its schedule, also when its handler failed; a one-time job that ran is not run again and a cancelled job is never run. "
  "Two instances never run the same occurrence of a job at the same time, an occurrence whose outcome was stored is not run again, and a run cut short by a crash or database error is repeated. "
  "Registering an existing job again - also concurrently from several instances - succeeds and leaves it as it is, and Cancel removes only the caller's own job.",
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'every interleaving of several instances, registrations, cancellations, failing jobs and crashes',
  'The timer tests need MySQL and are not run.',
  ['d_timer/sql/timer.go', 'd_timer/sql/model.go', 'timer.go'],
  [('row lock while a job runs', 'd_timer/sql/timer.go: handleJobs'), ('next occurrence stored after a run', 'd_timer/sql/model.go: TimerJob.Next'), ('registration', 'd_timer/sql/timer.go: run')],
  [('job row', 'schedule, next run and state of a job', 'table ddd_timer')],
  ['job executions with their times', 'job rows', 'return values'])
p('C14', 'The memory bus delivers each event in order and stops when told',
  "The in-memory bus hands every dispatched event exactly once, in dispatch order, to the handler registered on it, never loses an accepted one under concurrent dispatchers while it runs, and a failing handler does not stop later events. "
  "When its context ends it stops, without spinning, and no handler runs afterwards for events dispatched later.",
  ['schedules'],
  'every interleaving of concurrent dispatchers, a slow or failing handler and the end of the context',
  'The single test dispatches from one goroutine and never ends the context.',
  ['eventbus/mem/eventbus.go'],
  [('channel between Dispatch and the consumer', 'eventbus/mem/eventbus.go: Dispatch, Start')],
  [], ['handler calls', 'state of the consumer goroutine'])
p('C15', 'Post-save callbacks run exactly once, after commit, with their own result',
  "The post-save callbacks of the engine and those of the one command each run exactly once for that command, after its database transaction committed, and receive that command's own result; a callback passed for one command never runs for another one, also when commands run concurrently. "
  "They do not run for a command that failed.",
  ['schedules', 'fault_sequences', 'histories'],
  'every set of concurrent and consecutive commands with their own callbacks, every way to fail',
  'No test runs two commands with different callbacks; sharing between commands shows only then.',
  ['engine.go'],
  [('callbacks collected from engine and call options', 'engine.go: Engine.NewStage/Run, WithPostSave, PostSaveOption'), ('called after commit', 'engine.go: Stage.Save')],
  [], ['callback calls and their Result'])
p('C16', 'Registered handlers and cron tasks run for every delivery, in order',
  "Each time an event is delivered to a service, every handler registered for its type - a function, or a constructor of a command of any supported form, taking the raw event or any type its payload decodes into - is called once, in registration order, with exactly the data that was raised, until one fails; the delivery succeeds if and only if all of them did (a Break is a success, an event type without handlers is accepted), so a handler that errs, panics, or whose type cannot hold the payload leaves the event to be retried. "
  "A handler or cron task that is a command runs as a complete engine command of the process it runs in - locks, transaction, events and post-save included - so along every chain of commands and events, across all services, each effect is eventually stored if its cause was committed, and no effect of a transactional event is stored whose cause was not. "
  "Transaction checkers are asked with the raised data and their answer reaches the bus (rollback if the checker's type cannot hold the data), registering a second checker or cron task for the same key is refused, and each registered cron task is called with its own key and schedule whenever it is due.",
  ['programs', 'fault_sequences', 'crash_points', 'schedules'],
  'every set of handler forms per event type, every chain of events and commands, every failure of a handler, store, network or process on the way',
  'The tests call one function handler with one event on an in-memory bus; which handlers run, with what, and what a failure in the middle of a chain leaves behind shows only with several handlers, retries and crashes.',
  ['engine.go', 'event.go', 'timer.go', 'command.go', 'eventbus/mysql/eventbus.go', 'd_timer/sql/timer.go'],
  [('routing table from event type to handlers, decoding by reflection', 'event.go: RegisterEventHandler, onEvent, onTXChecker'), ('command constructors wrapped as handlers', 'engine.go: Engine.RegisterEventHandler'), ('cron tasks are event handlers of a timer event', 'engine.go: RegisterCronTask, RegisterCronTaskOfCommand; timer.go: onTimer')],
  [('event router', 'handlers by event type, process wide', 'event.go: eventRouter, eventTXCheckerRouter')],
  ['handler calls with their arguments', 'result of each delivery', 'rows stored by handler commands'])
p('C17', 'The sample order service keeps totals, contents and events consistent',
  "In the sample application (example/), whatever requests run concurrently on however many instances and whatever fails, every existing order's stored total equals the sum of price times count of its stored items minus the discounts of its stored coupons, at every instant, as long as requests end within the 10 s lease of the order's lock. "
  "Every request takes effect entirely or not at all and at most once: one answered with success has taken effect exactly as asked (the order with exactly the given items and coupons and the default remark, the one item or coupon added, only the given remark changed, the order gone) and has stored exactly one event for each order created or removed and each item and coupon added, each of its own type and naming its order, item or coupon, which the service then handles; one that is malformed or names an order that does not exist is answered with an error and changes nothing, and without faults or rivals no valid request fails. "
  "GetOrder returns the order's committed user, total, items (code, name, price, count) and coupons (rule, discount), and GetOrderList returns exactly the orders that match its user and creation-time filters, within its offset and limit.",
  ['schedules', 'fault_sequences', 'crash_points', 'programs'],
  'every set of concurrent requests to several instances, every request content, every database, network or process failure on the way',
  'The example has no tests at all; its totals depend on which other requests an order has seen and on which of them run at the same time.',
  ['example/biz/sale/domain/order.go', 'example/biz/sale/application/command/add_saleitem.go', 'example/biz/sale/application/command/add_coupon.go', 'example/biz/sale/infrastructure/init.go', 'example/biz/sale/infrastructure/dal/order.go', 'example/handler/order.go'],
  [('the total is recomputed from the loaded aggregate on every change', 'example/biz/sale/domain/order.go: calPrice'), ('changing commands lock the order', 'example/biz/sale/application/command: Init'), ('events raised in AfterCreate and AfterDelete hooks', 'example/biz/sale/domain'), ('queries read the tables directly', 'example/biz/sale/infrastructure/dal/order.go')],
  [('order aggregate', 'order, its items and its coupons', 'tables example_order, example_order_item, example_order_coupon')],
  ['HTTP answers of the service', 'committed rows of the three tables', 'rows of ddd_domain_event and their handling'])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root, 'properties.jsonl'), 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
for x in P:
    assert len(x['title']) <= 80, x['title']
    n = x['statement'].count('. ') + 1
    assert n <= 3, (x['id'], n)
