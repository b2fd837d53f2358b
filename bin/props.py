"""Which harnesses decide which property, and what their reach is."""
def P(files, **k):
    return dict(files=files, **k)
HIST = 'histories of the stated shape only; containers of the stand-ins hold at most 2-8 entries (bounds() in each harness)'
PROPS = dict(
 C01=P(['timer'], level='proof', bounded='c01_wake_not_early', bound='c01_wake_not_early: one registered timer',
   explain='postconditions of Timer::at/after/interval*/set_*/poll_next/poll over fully symbolic instants, durations and clock readings; the pass of the reactor over a symbolic instant'),
 C02=P(['timer'], level='proof',
   explain='each constructor and setter against the schedule function (start, period) -> start + k*period, two steps of poll_next from any state a constructor, a setter and a poll can produce'),
 C03=P(['treg'], level='other', bounded='.', bound=HIST,
   explain='contract of the registration of a timer, checked over short symbolic histories of poll, set, pass, drop'),
 C04=P(['rtimer'], level='other', bounded='.', bound='two or three timers; ' + HIST,
   explain='contract of process_timers / process_timer_ops / insert_timer / remove_timer against the abstract map of registered timers, symbolic instants'),
 C05=P(['rtimer'], level='other', bounded='.', bound='at most two timers; ' + HIST,
   explain='postcondition on the time limit handed to the poller, on notification, and on the pass that follows'),
 C06=P(['io'], level='other', bounded='.', bound='up to two sources and four waiters; ' + HIST,
   explain='contract of react() on sources: set of wakers woken = waiters of the reported directions; re-arming; failure paths'),
 C07=P(['io'], level='other', bounded='.', bound='one source, up to three waits; ' + HIST,
   explain='invariant: a pending wait has its direction armed; checked after every step of the histories'),
 C08=P(['io'], level='other', bounded='.', bound='one source, up to two passes; ' + HIST,
   explain='contract of poll_ready and Ready::poll against ghost ages of events'),
 C09=P(['io'], level='other', bounded='.', bound='up to three waiters; ' + HIST,
   explain='frame conditions: operations of one waiter leave all others as they were'),
 C10=P(['reg'], level='other', bounded='keys|gone|reuse', bound='up to three sources; ' + HIST,
   explain='contracts of Async::new*/into_inner/drop and insert_io/remove_io on the ghost descriptor table and poller; every fault site with a symbolic error code'),
 C11=P(['ops'], level='other', bounded='.', bound='at most two blocked attempts in a row (the loops carry no state from one attempt to the next)',
   explain='contract of every operation: attempts, arguments, direction waited for, result passed through; symbolic results and error codes'),
 C12=P(['conn'], level='other', bounded='.', bound='one suspension; paths up to the stand-in\'s length with symbolic content',
   explain='contracts of connect on the ghost socket and poller; symbolic addresses and error codes, a fault at every call'),
 C13=P(['block'], level='other', bounded='.', bound='one wake-up per round, at most two waits per round; every step tried',
   explain='assertions at every point where block_on may sleep, with the wake-up placed before each of its steps'),
 C14=P(['block'], level='other', bounded='.', bound='two runs, nested or in sequence',
   explain='postconditions of block_on on ghost counters: polls, wakers, tokens, active runs as seen by the helper thread'),
 C15=P(['helper'], level='other', bounded='.', bound='three rounds with every combination of environment moves; 14 and 34 rounds for the fixed scenarios',
   explain='assertions at every sleep and wait of the main loop'),
 C16=P(['wrap'], level='other', bounded='.', bound='at most one blocked attempt',
   explain='contract of every wrapper: the OS operation performed, its arguments, direction waited for, result'),
 C17=P(['init'], level='other', bounded='.', bound='sequences of up to four uses',
   explain='ghost counters of pollers and helper threads after every kind of use'),
)
for k, v in PROPS.items(): v['prefix'] = [k.lower() + '_']
