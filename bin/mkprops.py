import json
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
L='src/lib.rs'; R='src/reactor.rs'; D='src/driver.rs'; U='src/reactor/unix.rs'
P=[
p('C01','A timer never fires early and yields its scheduled instant',
 'Polling a timer (as a stream or as a future) is ready exactly when its scheduled instant is not later than the current reading of the monotonic clock, and the value it then yields is that scheduled instant, not the time of polling. A timer built from a duration is scheduled no earlier than the moment of the call plus that duration. A task waiting for a timer is not woken by it before its scheduled instant.',
 ['inputs','histories'],'all scheduled instants, periods and durations; all readings of a monotone clock at construction, at each poll and at each pass of the reactor',
 'Tests sleep for a handful of fixed durations on a real clock; equality of deadline and clock, clock readings that change between two statements, and the extreme ends of the ranges are not reached.',
 [L,R],[('comparison of the scheduled instant with the clock','src/lib.rs impl Stream for Timer'),('split of the ordered timer map at the current instant','src/reactor.rs process_timers')],
 [('scheduled instant, period','when the timer fires next','src/lib.rs struct Timer'),('ordered timer map','registered timers','src/reactor.rs struct Reactor')],['Timer::poll_next','Timer::poll','Waker::wake']),
p('C02','Timer schedules follow their constructor and setter arithmetic exactly',
 'Every constructor and setter of a timer determines its schedule completely: one-shot timers yield one value and then stay pending; interval timers yield start, start+period, start+2*period, ... measured from the schedule and not from the time of polling, however late they are polled. A schedule whose next instant cannot be represented never fires, and "will fire" says precisely whether another value is scheduled. A setter replaces both the next instant and the period, whatever the timer did before.',
 ['inputs','histories'],'all instants and durations (including zero, the maximum, and sums that overflow); every constructor and setter, applied to a timer in any earlier state; two further polls at any later time',
 'Tests use a few small durations and never compare yielded values to the schedule; late polling, overflow, and a one-shot setter applied to an interval timer (a real defect found here) are not reached.',
 [L],[('constructors and set_* functions','src/lib.rs impl Timer'),('advance by one period per yield','src/lib.rs impl Stream for Timer')],
 [('scheduled instant, period','next value and distance to the one after it','src/lib.rs struct Timer')],['Timer::will_fire','Timer::poll_next','Timer::poll']),
p('C03','The last task to poll a timer is woken once, and only while it waits',
 'When a timer that was polled becomes due, the reactor wakes the task that polled it last, exactly once, and no task that polled it earlier. This also holds if the timer was re-scheduled by a setter (or got its first schedule) after being polled, without another poll. A timer that was dropped, has already yielded, or was re-scheduled causes no wake-up for its old schedule.',
 ['histories','inputs'],'all short histories of poll (by one of two tasks), set_*, reactor pass, clock advance and drop, with arbitrary instants',
 'Tests always await a timer in one task until it fires; changing tasks, setters on pending timers, cancellation around a reactor pass, and schedule-less timers that were polled (a real defect found here) are not exercised.',
 [L,R],[('re-registration on change of task or schedule','src/lib.rs Timer::set_interval_at, Timer::clear, poll_next'),('insert and remove operations','src/reactor.rs insert_timer, remove_timer')],
 [('timer id and waker','the current registration','src/lib.rs struct Timer')],['Waker::wake']),
p('C04','Each pass of the reactor wakes exactly the due timers',
 'A pass of the reactor wakes the task of every registered timer whose instant has come, each exactly once, and of no other, whatever the number of timers, the order they were registered in, ties between their instants, and removals in between. Registrations and removals take effect in the order in which they were made, including when the queue holding them is full at that moment. Timers that are not due stay registered for a later pass.',
 ['histories','inputs'],'any two or three timers with arbitrary instants, in any order of registration, removal and passes; queue of pending operations with or without room',
 'The queue must fill up (1000 operations between two passes) and instants must coincide for the interesting cases; tests register a few timers with distinct instants.',
 [R],[('queue of operations, drained before each pass and when full','src/reactor.rs insert_timer, remove_timer, process_timer_ops'),('split of the ordered map','src/reactor.rs process_timers')],
 [('operation queue','registrations not yet applied','src/reactor.rs Reactor'),('ordered map keyed by instant and unique number','registered timers','src/reactor.rs Reactor')],['Waker::wake']),
p('C05','The reactor never sleeps past the next timer',
 'When the reactor blocks for events, the time limit it gives the operating system is never longer than the time to the earliest registered timer, nor than the limit its caller asked for, and it does not block at all if a timer is already due; with no timer and no limit it blocks without one. A timer that is registered or made earlier while the reactor is blocked interrupts that wait. When the wait ends because the time has come, the due timers are woken in the same pass, and due timers are woken even if waiting for events fails.',
 ['histories','inputs','schedules','fault_sequences'],'all clock readings and timer instants, all limits; registration by another thread before or during the wait; failure or interruption of the wait',
 'A limit that is too long only delays; the existing tests accept delays and do not race registrations against the wait.',
 [R,L],[('minimum of time to the next timer and the limit','src/reactor.rs react'),('notification on registration','src/reactor.rs insert_timer'),('second look at the timers after a time-out','src/reactor.rs react')],
 [],['polling::Poller::wait','polling::Poller::notify','Waker::wake']),
p('C06','An I/O event wakes every task waiting for it, and no other',
 'When the operating system reports that a source is readable (writable), one pass of the reactor wakes, exactly once each, every task that waits for that source to be readable (writable), and nobody waiting for the other direction or another source. Interest in whatever is still being waited for is renewed in the same pass; if that fails, the affected tasks are woken rather than forgotten, other events of the pass are still processed, and the failure is returned. A panic of one task\'s waker, or a waker that itself uses the reactor, does not disturb the others.',
 ['schedules','histories','fault_sequences'],'any combination of waiting tasks (poll-style and future-style, both directions, two sources) with any combination of reported events; failures of the poller',
 'Tests have one or two waiters on one source and no failing poller; a lost wake-up among several waiters, or after a failure, shows as a rare hang.',
 [R],[('collect wakers, mark the tick, re-arm what is left','src/reactor.rs react'),('draining a direction','src/reactor.rs drain_into')],
 [('per-direction waker slots','tasks waiting for readability / writability','src/reactor.rs struct Direction')],['Waker::wake','polling::Poller::modify']),
p('C07','Waiting for I/O always has its interest registered with the OS',
 'Whenever a task has been told to wait for a source (poll or future returned pending), interest in that direction is armed with the operating system, together with interest in the other direction if and only if somebody waits for that too. This holds although notifications are one-shot: after any sequence of events, cancellations, renewed waits, in either direction, by poll or by future. If arming fails, the error is returned to the caller and nothing of the attempt is left behind, so that a later attempt arms again.',
 ['histories','fault_sequences'],'all short sequences of waits, events and cancellations over both directions and both styles of waiting, with a possible failure at the arming',
 'Lost interest shows only in particular interleavings of two directions or after a failed system call (a real defect found here); tests use one direction at a time and no faults.',
 [R],[('re-arm when the direction was idle','src/reactor.rs Source::poll_ready, Ready::poll'),('re-arm of remaining interest','src/reactor.rs react')],
 [('armed interest','what the OS will report','polling registration')],['polling::Poller::modify']),
p('C08','Readiness is only reported for events newer than the wait',
 'A task that starts waiting for a source is told it is ready only because of an event delivered after it began to wait; an event that was delivered before, or is being collected by a pass of the reactor that was already under way, does not count. Once such a later event is delivered, the next poll of every task that was waiting for it reports ready, and passes of the reactor without an event for the source never do.',
 ['schedules','histories'],'every placement of registration, events and reactor passes relative to each other (before, during and after the wait for events), for both styles and directions',
 'Needs a registration that races with a pass in progress on another thread; tests cannot steer that.',
 [R],[('tick bumped before each wait, compared by waiters','src/reactor.rs react, Source::poll_ready, Ready::poll')],
 [('reactor tick, tick of last event, remembered ticks','age of events and waits','src/reactor.rs')],['Async::poll_readable','Async::readable']),
p('C09','Waiters on one source do not disturb each other',
 'Any number of futures can wait for the same direction of a source, next to one poll-style waiter per direction: cancelling, completing or moving one of them to another task never loses, redirects or duplicates another\'s wake-up, and cancelled waiters are not woken. A poll-style waiter that is displaced by another task polling the same direction is woken at that moment. A future polled by a new task wakes that task only, and finished or cancelled waits leave no residue behind.',
 ['histories','schedules'],'all short histories of start, cancel, re-poll by another task, event, for up to three waiters over both directions and two sources',
 'Depends on slot reuse among concurrent waiters and on cancellation at particular moments; tests do not cancel waits.',
 [R],[('one slot per future, freed on drop','src/reactor.rs Ready::poll, Drop for RemoveOnDrop'),('waking a displaced waker','src/reactor.rs Source::poll_ready')],
 [('waker slots per direction','one entry per waiting future','src/reactor.rs Direction')],['Waker::wake']),
p('C10','Registration follows ownership of the source',
 'Wrapping an I/O object registers it exactly once with no interest armed, after putting it into non-blocking mode (except by the constructor that promises not to touch the mode); if any step fails the error is returned, nothing stays registered, and the object is released. Unwrapping or dropping it ends the registration before the object is released or handed back, and its number can be reused at once without inheriting events, waiters or registration of its predecessor. While it exists its registration is its own: no two sources share one.',
 ['histories','fault_sequences'],'all orders of creating, dropping and unwrapping up to three sources, with a failure at any system call, also while the reactor waits on another thread',
 'Leaks and reuse of descriptor numbers only show with failures injected at specific calls or a reactor pass in flight.',
 [L,R,U],[('registration in the source table and poller','src/reactor.rs insert_io, remove_io'),('non-blocking mode','src/lib.rs Async::new'),('deregistration on drop','src/lib.rs Drop for Async, Async::into_inner')],
 [('source table','live registrations','src/reactor.rs Reactor')],['polling::Poller::add, delete','descriptor flags']),
p('C11','Async operations retry exactly on WouldBlock and pass results through',
 'Every asynchronous operation first tries the underlying operation; any result other than "would block" is returned unchanged after exactly that one attempt, and "would block" means waiting for readiness of the right direction (read-like operations for readability, write-like for writability) and trying again. Between two attempts it has either seen the awaited event or suspended the task with interest in that direction armed (it never spins), and the operation on the object is performed with the caller\'s arguments. If waiting fails, that error is returned.',
 ['inputs','histories','fault_sequences'],'all results and error codes of the underlying operation, up to two blocked attempts in a row, both directions, poll-style and future-style entry points',
 'Loopback sockets are nearly always ready; the blocked path, other error kinds (such as interrupted) and wrong-direction waits are rarely or never taken.',
 [L],[('attempt / wait loops','src/lib.rs read_with, write_with, poll_read, poll_write and relatives')],[],['operations on the wrapped object','Async futures']),
p('C12','Connecting completes only on writability and reports the real outcome',
 'A TCP or Unix connect creates a non-blocking, close-on-exec socket of the right family for the address, starts exactly one connection attempt to exactly that address, and if it is in progress waits for writability before it looks at the outcome. It succeeds only if no socket error is pending then, otherwise it returns that error; any failure on the way is returned and neither the socket nor its registration stays behind. Unix paths are passed on byte for byte, including abstract ones.',
 ['inputs','histories','fault_sequences'],'all IPv4/IPv6 addresses, Unix paths (abstract, empty, with zero bytes), every failing system call with its error code, connect completing at once or later',
 'Loopback connects complete at once or refuse at once; asynchronous failure, pending socket errors and mid-way failures need a network or fault injection.',
 [L],[('connect helper and outcome check','src/lib.rs connect, Async::<TcpStream>::connect, Async::<UnixStream>::connect')],[],['socket and connect system calls','SO_ERROR']),
p('C13','block_on never sleeps through a wake-up',
 'If the task run by block_on is woken, by any thread and at any moment (also between polling it and going to sleep, while its own thread drives the reactor, or while another thread does), block_on polls it again without waiting for anything else to happen. A thread that is about to sleep never holds the reactor, and if it gives the reactor up after serving others for a while it first tells the helper thread.',
 ['schedules'],'a wake-up placed before every step of block_on that another thread could observe, with the reactor free or taken, after early or late ends of the wait for I/O; wake-ups from the task itself, from a timer and from an I/O event',
 'A lost wake-up needs one particular interleaving of a few instructions; the tests run each schedule the machine happens to pick.',
 [D],[('parker token, blocked flag and reactor notification','src/driver.rs block_on, its waker')],
 [('token, blocked flag, polling flag','who must be told of a wake-up, and how','src/driver.rs')],['parking::Parker','polling::Poller::notify']),
p('C14','block_on leaves nothing behind, alone or nested',
 'block_on returns the value of its future, polls it once to begin with and then only after it has been woken, and a wake-up that came too late does not make a later block_on on the same thread poll without cause. Runs nested on one thread each have a waker of their own: waking one does not count for the other, and a wake-up of the outer task during the inner run is not lost. While any run is active the helper thread keeps its distance; when the last one ends, it is told and takes over without delay, and the thread is no longer treated as waiting for I/O.',
 ['histories','schedules'],'sequences and nestings of two runs, self-wakes, wake-ups from other threads during and after a run',
 'Tests do not inspect counters and flags that only influence which thread drives the reactor and when; a stale flag shows as latency or as extra polls.',
 [D],[('count of active runs with a guard','src/driver.rs block_on'),('cached or fresh parker','src/driver.rs block_on')],
 [('active-run count','whether the helper thread backs off','src/driver.rs')],['poll counts','helper thread behaviour']),
p('C15','The helper thread drives the reactor whenever nobody else does',
 'Without any block_on running, the helper thread drives the reactor pass after pass, waiting for events without a time limit and never sleeping in between, also after errors of the poller; it never ends. While block_on runs elsewhere it sleeps at most 10 ms between two looks, and whenever it finds the reactor free and not driven since its last look (or since it was notified) it drives a pass itself. If the reactor stays taken without moving, after a bounded number of looks it queues for it.',
 ['schedules','histories'],'every sequence (up to the stated length) of: reactor driven by others or not, taken or free, helper notified or not; poller failures',
 'The helper thread is a background loop that tests cannot observe; if it stops helping, everything still works while a test calls block_on.',
 [D],[('main loop with back-off','src/driver.rs main_loop')],
 [('last observed tick, number of sleeps','whether anybody drives the reactor','src/driver.rs main_loop')],['polling::Poller::wait','parking::Parker::park_timeout']),
p('C16','Networking wrappers map one-to-one to the OS operation',
 'Each networking operation (bind, accept, incoming, peek, peek_from, recv, recv_from, send, send_to, pair, unbound) performs exactly the operation it is named after, on its own socket, with the caller\'s buffer and address, waits for the right direction when it would block, and returns the number, address or error it got. New sockets come back non-blocking and registered; if that fails, the error is returned and the new socket is closed.',
 ['inputs','fault_sequences'],'all buffers lengths, addresses, results and error codes of the underlying operation, with an immediate, a blocked or a failing attempt, for TCP, UDP, Unix stream and Unix datagram sockets',
 'Tests exchange small messages that succeed at once; blocked sends, failing accepts and mixed-up peek/recv variants are not seen.',
 [L],[('wrappers over read_with / write_with','src/lib.rs impl Async<TcpListener> ... Async<UnixDatagram>')],[],['operations on the wrapped socket']),
p('C17','One reactor and one helper thread serve the whole process',
 'However the library is first used (timer, source, block_on, or asking for the reactor\'s descriptor) and however often, at most one poller and one helper thread are ever created; a poller never exists without the helper thread. All timers and sources use that same reactor, and the exported descriptor is the one of its poller.',
 ['histories'],'every first use followed by any other use, including a first use that fails',
 'A second reactor would work for most purposes; tests never look at how many there are.',
 [R,D,'src/os/unix.rs'],[('once-initialised reactor and unparker','src/reactor.rs Reactor::get, src/driver.rs unparker')],[],['poller creation','thread creation','os::unix::reactor_fd']),
]
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
