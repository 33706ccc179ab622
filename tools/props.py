"""writes properties.jsonl"""
import json
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=['xtra/src/' + f for f in files],
                               mechanism=[dict(name=n, where='xtra/src/' + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where='xtra/src/' + w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=None)))
SCH = 'every interleaving of the operations of any number of senders, mailboxes and their cancellations, every capacity, every message'
WHY = 'The tests run a handful of fixed scripts on a cooperative scheduler; they never reach the windows between a check and the lock, between a promotion and a cancellation, or states with several waiting parties.'
p('C01', 'A message sent to one actor is handled at most once and never silently lost',
  'A message given to `send` ends in exactly one place: one mailbox handles it, or the channel shuts down and it is dropped, or the sender (still) owns it. A send which reports success has put its message into the mailbox, and no message is taken out of the mailbox without being handed to a receiver.',
  ['schedules', 'histories', 'inputs'], SCH, WHY, ['chan.rs', 'send_future.rs', 'recv_future.rs', 'chan/waiting_sender.rs', 'chan/waiting_receiver.rs'],
  [('enqueue / hand over / wait', 'chan.rs: Chan::try_send_to_one'), ('take the next message', 'chan.rs: Chan::try_recv'), ('promote waiting senders', 'chan.rs: Inner::try_take_waiting_unicast_message')],
  [('ordered_queue', 'accepted messages for any one mailbox', 'chan.rs: Inner')], ['Address::send', 'ReceiveFuture', 'Message::dispatch_to'])
p('C02', 'A broadcast reaches every mailbox alive at acceptance, once',
  'When a broadcast is accepted it is put into the queue of every live mailbox of the address exactly once, and each of these mailboxes gets it from its own queue exactly once unless it is dropped first.',
  ['schedules', 'histories', 'configurations'], SCH + ', any number of mailboxes', WHY, ['chan.rs', 'mailbox.rs', 'send_future.rs'],
  [('fan-out', 'chan.rs: Inner::send_broadcast'), ('per mailbox pop', 'chan.rs: Inner::pop_broadcast')],
  [('broadcast_queues', 'weak list of the queues of the mailboxes', 'chan.rs: Inner')], ['Address::broadcast', 'ReceiveFuture'])
p('C03', 'A higher priority message is handled first',
  'Whenever a mailbox takes a message, none of the other messages available to it (in its own broadcast queue or in the common queue) has a strictly higher priority; waiting senders are let in by priority as well. (A receive that was already waiting takes the message or broadcast it was woken for.)',
  ['schedules', 'inputs', 'histories'], 'every content of the queues, every pair of priorities, every schedule', 'Tests order two or three messages with fixed priorities on one mailbox.', ['chan.rs', 'chan/priority.rs'],
  [('choose between the queues', 'chan.rs: Chan::try_recv'), ('order', 'chan/priority.rs: ByPriority, Priority'), ('promotion', 'chan.rs: find_remove_highest_priority')], (), ['ReceiveFuture'])
p('C04', 'Messages of equal priority are handled in the order of sending',
  'Of two messages of equal priority in the same queue, the one accepted first is handled first, and of two waiting senders of equal priority the one that waits longer is let in first. (A message put back by a cancelled receive may come later, as documented at `ReceiveFuture`.)',
  ['schedules', 'histories', 'inputs'], 'every content of the queues and every schedule', 'Binary heaps keep the order of a few elements by accident; the tests use few.', ['chan.rs', 'chan/priority.rs'],
  [('sequence number', 'chan/priority.rs: ByPriority'), ('promotion', 'chan.rs: find_remove_highest_priority')], (), ['ReceiveFuture'])
p('C05', 'A bounded mailbox never holds more than its capacity',
  'With capacity n, at most n messages sent to one actor are accepted and unhandled at any time, and no broadcast is accepted while some mailbox is counted as holding n broadcasts; the notice of `stop_all`, and a message put back by a cancelled receive, are exempt.',
  ['schedules', 'histories', 'configurations'], SCH, WHY, ['chan.rs'],
  [('capacity check under the lock', 'chan.rs: Chan::try_send_to_one, Inner::is_full, is_broadcast_full')], [('broadcast_tail', 'length of the longest broadcast queue', 'chan.rs: Inner')], ['Address::send', 'Address::broadcast', 'Address::len'])
p('C06', 'A sender never waits although there is room for its message',
  'A send that waits does so only while the mailbox is full: whenever a receiver makes room the waiting sender which is next is let in and its current waker is woken. Pending is only returned after the waker of this poll is registered.',
  ['schedules', 'histories'], SCH + ', wakers exchanged between polls', WHY, ['chan.rs', 'chan/waiting_sender.rs', 'send_future.rs'],
  [('promotion on receive', 'chan.rs: Chan::try_recv, Inner::pop_broadcast'), ('completion wakes', 'chan/waiting_sender.rs: Handle::take_message')],
  [('waiting_send_to_one / waiting_send_to_all', 'senders waiting for room', 'chan.rs: Inner')], ['SendFuture'])
p('C07', 'A receiver never waits although a message is available',
  'A receive that waits does so only while nothing is available to its mailbox: a message or broadcast accepted later is handed to a waiting receiver or wakes it, and Pending is only returned after the waker of this poll is registered.',
  ['schedules', 'histories'], SCH + ', receivers cancelled at any point, wakers exchanged between polls', WHY, ['chan.rs', 'chan/waiting_receiver.rs', 'recv_future.rs'],
  [('hand over', 'chan.rs: Chan::try_send_to_one, Inner::try_fulfill_receiver'), ('notify broadcast', 'chan.rs: Inner::send_broadcast')],
  [('waiting_receivers_handles', 'receivers waiting for a message', 'chan.rs: Inner')], ['ReceiveFuture'])
p('C08', 'A reply is the return value of the handler of this very message',
  'A send resolves to Ok only with the value returned by the handler invoked with its message, and to Interrupted only if the message can no longer be answered.',
  ['schedules', 'inputs', 'histories'], 'every message, handler result and schedule of handling, cancellation and shutdown', 'Tests compare a few constant replies.', ['envelope.rs', 'send_future.rs'],
  [('reply channel per message', 'envelope.rs: ReturningEnvelope'), ('result', 'send_future.rs: ResolveToHandlerReturn, Receiver')], (), ['SendFuture', 'Receiver'])
p('C09', 'A cancelled waiting send is never delivered',
  'If a send is dropped while it waits for room, its message is dropped with it by the sender and is never handled.',
  ['schedules', 'histories'], 'every point of cancellation and every concurrent promotion or shutdown', WHY, ['chan/waiting_sender.rs', 'chan.rs', 'send_future.rs'],
  [('weak reference in the channel', 'chan/waiting_sender.rs: Handle'), ('drop', 'chan/waiting_sender.rs: Drop for WaitingSender')], (), ['SendFuture (drop)'])
p('C10', 'Cancelling a receive loses no message',
  'Dropping a receive future at any point, also when a message has already been handed to it, never loses a message: the message is put back into the mailbox or passed to another waiting receiver.',
  ['schedules', 'histories', 'crash_points'], 'every point of cancellation and every concurrent sender', WHY, ['recv_future.rs', 'chan.rs', 'chan/waiting_receiver.rs'],
  [('cancellation', 'recv_future.rs: Drop for Waiting; chan.rs: Chan::cancel_receiver')], (), ['ReceiveFuture (drop)'])
p('C11', 'Disconnected is reported exactly when one side is gone',
  '`is_connected` holds exactly while there is a mailbox and a strong address; a send or broadcast fails with Disconnected only if one of them is gone and then its message is never handled, and a message that was never accepted is not reported as Interrupted.',
  ['schedules', 'histories'], SCH, WHY, ['chan.rs', 'address.rs', 'send_future.rs'],
  [('is_connected', 'chan.rs: Chan::is_connected'), ('closing', 'chan.rs: Chan::shutdown_waiting_senders')], [('sender_count / receiver_count', 'number of strong addresses / of mailboxes', 'chan.rs: Chan')], ['Address::is_connected', 'SendFuture'])
p('C12', 'When the last mailbox goes, everything pending is resolved',
  'When the last mailbox is dropped the queues and the waiting senders are emptied, every waiting sender is closed and woken, and nothing can be added afterwards.',
  ['schedules', 'histories'], SCH, WHY, ['chan.rs', 'chan/ptr.rs', 'chan/waiting_sender.rs'],
  [('shutdown', 'chan.rs: Chan::shutdown_waiting_senders'), ('last receiver', 'chan/ptr.rs: RxStrong/TxStrong counters')], (), ['Mailbox (drop)', 'SendFuture'])
p('C13', 'The counts of strong addresses and of mailboxes are exact',
  'Creating, cloning, converting, and dropping addresses, mailboxes, message channels and all futures changes the count of strong addresses and of mailboxes by exactly the number of such handles created or destroyed; a count that has reached zero never rises again.',
  ['schedules', 'histories', 'programs'], 'every program over the public API', 'Tests check a few sequences with one or two handles.', ['chan/ptr.rs', 'refcount.rs', 'address.rs', 'mailbox.rs', 'recv_future.rs'],
  [('count on clone/drop', 'chan/ptr.rs: RefCounter')], [('sender_count / receiver_count', 'number of strong addresses / of mailboxes', 'chan.rs: Chan')], ['Address::clone', 'Address::drop', 'Mailbox'])
p('C14', 'Weak addresses keep no actor alive and upgrade only while strong ones exist',
  'A weak address does not count as an address; try_upgrade returns a strong address exactly if there is a strong address at that moment, and downgrade and as_either yield an address of the same actor with the promised strength.',
  ['schedules', 'histories', 'programs'], 'every interleaving of conversions and drops', 'An upgrade racing with the last drop is not tested.', ['address.rs', 'refcount.rs', 'chan/ptr.rs'],
  [('upgrade', 'chan/ptr.rs: Ptr::try_to_tx_strong'), ('conversions', 'address.rs: downgrade, as_either, try_upgrade')], (), ['Address::try_upgrade', 'Address::downgrade', 'Address::as_either'])
p('C15', 'Without strong addresses an actor drains its mailbox, then stops',
  'When the last strong address is dropped every waiting receiver is told so; a receive returns the stop request only if no message is available, and none waits afterwards.',
  ['schedules', 'histories'], SCH, WHY, ['chan.rs', 'chan/ptr.rs', 'recv_future.rs'],
  [('no sender left', 'chan.rs: Chan::try_recv, Chan::shutdown_waiting_receivers')], (), ['Address (drop)', 'ReceiveFuture'])
p('C16', 'stop_self stops this actor only, stop_all stops all of them',
  '`stop_self` makes the dispatch of the current message end with Break and touches nothing else; `stop_all` puts one stop notice, above every user priority, into each mailbox (it need not once the last strong address is gone: the actors stop by themselves then).',
  ['schedules', 'inputs'], 'every state of the channel and every handler', 'Tests stop idle actors.', ['context.rs', 'chan.rs', 'envelope.rs', 'dispatch_future.rs'],
  [('flag', 'context.rs: Context::stop_self; envelope.rs: handle'), ('notice', 'chan.rs: Chan::shutdown_all_receivers')], (), ['Context::stop_self', 'Context::stop_all', 'DispatchFuture'])
p('C17', 'run calls started once, then handles messages, then stopped once',
  '`run` calls started exactly once and first; if it fails its value is returned and nothing else is called; otherwise messages are handled one at a time until one ends with Break, then stopped is called exactly once and its value is returned.',
  ['programs', 'schedules', 'inputs'], 'every actor, every sequence of messages, every schedule', 'Tests run actors with a few messages.', ['lib.rs'],
  [('main loop', 'lib.rs: run, yield_once')], (), ['run'])
p('C18', 'Dispatching a message calls its handler exactly once',
  'A dispatch that completes has called the handler of exactly the received message exactly once (none for a stop request) and yields Break exactly if the message was a stop request or the handler called stop_self.',
  ['inputs', 'programs', 'schedules'], 'every message and every handler', 'Tests dispatch a few messages.', ['dispatch_future.rs', 'envelope.rs'],
  [('state machine', 'dispatch_future.rs: DispatchFuture::poll'), ('handler call', 'envelope.rs: MessageEnvelope::handle')], (), ['Message::dispatch_to', 'DispatchFuture'])
p('C19', 'select and join keep handling messages and return the result of the future',
  '`select` and `join` return the output of the given future unchanged; until then each received message is dispatched before the next is received, and if the actor stops first `select` gives the future back and `join` waits for it.',
  ['programs', 'schedules'], 'every future, actor and schedule', 'Tests use one or two fixed interleavings.', ['lib.rs'],
  [('select/join', 'lib.rs: select, join')], (), ['select', 'join'])
p('C20', 'Join handles and scoped tasks end when the actor is gone, not before',
  'A join handle resolves only after the address is disconnected, and never sleeps through the disconnect; a scoped task yields the output of its future unless the actor is gone first.',
  ['schedules', 'histories'], 'every race between listening and the last mailbox (or address) going away', WHY, ['address.rs', 'chan.rs', 'scoped_task.rs'],
  [('listener', 'chan.rs: Chan::disconnect_listener'), ('notification', 'chan.rs: shutdown_waiting_*'), ('scoped', 'scoped_task.rs: ScopedTask::poll')], (), ['Address::join', 'scoped'])
p('C21', 'Address equality, order and hash are consistent',
  'Two addresses are equal exactly if they belong to the same actor and have the same strength; the partial and total orders agree with equality, and equal addresses hash equally; same_actor ignores the strength.',
  ['inputs', 'programs'], 'every pair of addresses of all three kinds', 'Tests compare one or two pairs.', ['address.rs', 'chan/ptr.rs', 'refcount.rs'],
  [('comparison', 'address.rs: PartialEq, PartialOrd, Ord, Hash')], (), ['Address: PartialEq, PartialOrd, Ord, Hash, same_actor'])
p('C22', 'len and capacity describe the mailbox',
  '`capacity` is the value given at creation and never changes; `len` is at least the number of messages accepted for one actor and unhandled and at least the length of each broadcast queue, and `is_empty` holds exactly if `len` is zero.',
  ['schedules', 'histories', 'configurations'], SCH, 'Tests read len after a few sends.', ['address.rs', 'chan.rs'],
  [('len', 'chan.rs: Chan::len'), ('tail', 'chan.rs: Inner::longest_broadcast_queue')], [('broadcast_tail', 'length of the longest broadcast queue', 'chan.rs: Inner')], ['Address::len', 'Address::capacity', 'Address::is_empty'])
p('C23', 'A message channel behaves as the address it was made from',
  'Sending through a message channel has the effect and result of sending through the address it was made from, with the same strength and identity.',
  ['programs', 'schedules', 'inputs'], 'every operation of message channels on every kind of address', 'Tests send one message.', ['message_channel.rs'],
  [('delegation', 'message_channel.rs: MessageChannelTrait for Address')], (), ['MessageChannel'])
p('C24', 'The channel never deadlocks: no user code runs under its locks',
  'No operation acquires a lock it holds or two locks in opposite orders, and no destructor or clone of a user message runs while a lock of the channel is held, so that message types may themselves use addresses freely.',
  ['schedules', 'programs', 'histories'], 'every operation, every message type with a destructor', 'Needs destructors that call back, at the moment of shutdown or cancellation.', ['chan.rs', 'chan/waiting_sender.rs', 'chan/waiting_receiver.rs'],
  [('scope of the lock', 'chan.rs: every use of Chan::chan.lock()')], (), ['all operations'])
p('C25', 'Only documented misuse panics',
  'No operation panics, except for the documented misuse: polling a future after it completed and setting the priority after the first poll.',
  ['schedules', 'inputs', 'histories'], SCH, 'Internal expect/unreachable calls sit in the racy paths which no test reaches.', ['chan.rs', 'send_future.rs', 'recv_future.rs', 'chan/waiting_receiver.rs', 'chan/waiting_sender.rs'],
  [('internal expectations', 'send_future.rs, recv_future.rs, chan/waiting_sender.rs: expect, unreachable, panic')], (), ['all operations'])
if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
