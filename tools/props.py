LEGF = ['sippy/UA.py', 'sippy/UaStateGeneric.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py',
        'sippy/UacStateRinging.py', 'sippy/UacStateUpdating.py', 'sippy/UacStateCancelling.py', 'sippy/UasStateGeneric.py',
        'sippy/UasStateIdle.py', 'sippy/UasStateProgressing.py', 'sippy/UasStateTrying.py', 'sippy/UasStateRinging.py',
        'sippy/UasStateUpdating.py', 'sippy/UaStateConnected.py', 'sippy/UaStateDisconnected.py', 'sippy/UaStateFailed.py',
        'sippy/UaStateDead.py']
LEGN = '''Abstract interpretation of the source with joins: sound for the modelled stimuli (requests, responses, controller
events, timers, CANCEL, ACK, media completions) in every state, two elements per callback group, loops unrolled twice;
callees outside the leg modules are summarised as opaque effects. Faults other than media-hook and header-lookup failures
are not followed.'''
LEGT = 'path-sensitive interprocedural typestate and effect analysis (abstract interpretation of the syntax tree)'

prop('C01', 'A call leg ends exactly once',
     '''When a peer's message, a timer or a failure ends a call leg, its controller gets exactly one terminating event for that
     leg, as the last one, and either all disconnect or all failure callbacks of the leg run exactly once with the end time
     recorded; when the controller itself ends the leg the same happens except that nothing is reported back. A leg that goes
     on reports no termination and runs none of those callbacks. Once ended, a leg reports nothing more in answer to
     anything the peer or the controller sends, runs no leg callback again and never becomes live again.''',
     ['histories', 'inputs', 'fault_sequences'],
     '''every leg state (caller and callee side), every request method, response class, controller event, timer expiry,
     CANCEL, and completion or failure of a media update arriving in it''',
     '''The tests contain no call leg at all; deciding this needs every state/stimulus pair and every path through its
     handler, several hundred combinations of which a scripted call samples a handful.''',
     LEGF, [('state transition with callback group', 'sippy/UA.py:UA.changeState'),
            ('terminating event reported once', 'sippy/UaStateGeneric.py:UaStateGeneric._disconnectFromRequest'),
            ('delivery', 'sippy/UA.py:UA.emitPendingEvents')], LEGT, LEGN,
     state=[('leg state', 'typestate of the leg', 'sippy/UA.py:UA.state'),
            ('event queue', 'events not yet delivered', 'sippy/UA.py:UA.equeue')],
     observe=['controller event callback', 'disconnect and failure callbacks of the leg'])

prop('C02', 'Ending a leg closes its dialog on the wire',
     '''Whatever ends a call leg, the peer is told in the way the phase requires, exactly once and with nothing else: an
     unanswered caller-side leg gets a final response to its INVITE (unless the caller cancelled it), an unanswered
     callee-side leg has its INVITE cancelled (and a positive answer that is unusable or crosses the cancellation is released
     with BYE), an established leg gets one BYE or REFER unless the peer's own BYE ended it, and a re-INVITE in progress is
     finally answered or cancelled besides. A leg that stays alive sends none of these, and an ended leg starts no further
     request.''',
     ['histories', 'inputs', 'fault_sequences'],
     'every leg state, every stimulus that can end it (or not), every path through the handler',
     '''No test sends a SIP message through a call leg; a missing BYE or a second final response shows only for particular
     crossings of messages, timers and media failures.''',
     LEGF, [('responses', 'sippy/UA.py:UA.sendUasResponse'), ('BYE/REFER', 'sippy/UaStateConnected.py:UaStateConnected'),
            ('CANCEL and crossing 200', 'sippy/UacStateCancelling.py:UacStateCancelling.recvResponse')], LEGT, LEGN,
     observe=['messages handed to the transaction layer'])

prop('C03', 'Leg timers are never leaked, lost or left running',
     '''A call leg's setup-limit and duration timers are never replaced or forgotten while they may still be running, and no
     such timer keeps running once the leg has ended, whatever ended it. The expiry of any of them ends the leg, a leg with a
     configured setup limit always has exactly one limit running from the start, and passing from one setup stage to the next
     never leaves it without one. The guard timer of a cancelled call stops when the final response arrives.''',
     ['histories', 'schedules'],
     'every leg state, every set of timers that can be running in it (least fixpoint over all transitions), every stimulus',
     '''Timer leaks show only when a specific message arrives while a specific timer is armed, and then minutes later; the
     tests do not run call legs.''',
     LEGF, [('setup timers', 'sippy/UacStateIdle.py:UacStateIdle.recvEvent'),
            ('setup timers', 'sippy/UasStateIdle.py:UasStateIdle.recvRequest'),
            ('credit timer', 'sippy/UA.py:UA.startCreditTimer')], LEGT, LEGN,
     state=[('armed timers', 'set of timers that may run in a state', 'sippy/UA.py')])

prop('C04', 'Requests inside a call are answered exactly once',
     '''No request received inside a call ever gets two final responses or a provisional one after the final, and every request
     that changes the call, is reported to the controller or makes us send something gets exactly one final response or, for
     INVITE, stays pending until the controller answers it. In an established call BYE, INFO, OPTIONS and REFER are answered
     at once, a second INVITE during an update with 491, a BYE while ringing with 200, and after the call has ended BYE with
     200 and anything else with an error. A request whose sequence number is not higher than the last one accepted is refused
     with 500 and has no effect.''',
     ['inputs', 'histories'],
     'every leg state, every request method (known or not), every ordering of sequence numbers, every path',
     'The tests never deliver a request to a call leg; the method/state matrix is far larger than scripted scenarios.',
     LEGF, [('per-state request handlers', 'sippy/UaStateGeneric.py:UaStateGeneric.recvRequest'),
            ('sequence check', 'sippy/UA.py:UA.recvRequest')], LEGT, LEGN)

prop('C05', 'Leg events reach the controller in order, once, never stale',
     '''Every event a call leg detects is handed to its controller in the order it was detected, at most once, together with
     the leg it belongs to, before the handling of the message that caused it is over. An event is withheld only when a newer
     one has already been delivered, and none is delivered after a newer one. Every controller event or message handled in
     any state either leaves the leg in its state or moves it to a proper state of the leg.''',
     ['histories', 'inputs'],
     'every leg state, every stimulus, any number of queued events of any age relative to the last delivered one',
     '''The order and staleness rules depend on relations between sequence numbers of events produced by different messages;
     nothing in the tests queues two events.''',
     ['sippy/UA.py', 'sippy/CCEvents.py'] + LEGF[1:],
     [('queue drain', 'sippy/UA.py:UA.emitPendingEvents'), ('direct delivery', 'sippy/UA.py:UA.emitEvent')], LEGT, LEGN,
     state=[('last delivered sequence number', 'newest event the controller has seen', 'sippy/UA.py:UA.elast_seq')])

prop('C06', 'Deferred media updates finish with the event they were started for',
     '''When a session description has to be processed by the media layer before an event may go on, the continuation carries
     that very event: while the update is pending the event is not reported, nothing goes out and the stored description does
     not change; when it completes (at once or later) the event goes on exactly once with the processed description. If the
     media layer fails, the controller gets exactly one failure report and the leg ends or answers as it would for a failure
     reported by the controller. Ended legs no longer take part in media updates.''',
     ['schedules', 'fault_sequences', 'inputs'],
     'every leg state and message carrying a session description, immediate, deferred or failing media updates',
     'Media hooks are asynchronous and absent from the tests; only their success path is ever run by hand.',
     LEGF, [('continuations', 'sippy/UA.py:UA.delayed_remote_sdp_update'),
            ('continuations', 'sippy/UA.py:UA.delayed_local_sdp_update'),
            ('failure handling', 'sippy/UacStateTrying.py:UacStateTrying.recvResponse')], LEGT, LEGN)

prop('C07', 'Answering and ringing bookkeeping happens exactly when it should',
     '''Whenever a call leg becomes answered the answer time is recorded, the duration limit started and every answer callback
     run exactly once, and at no other time; a leg whose media offer came in the answer counts as answered only when the
     acknowledgment is sent or received. Every progress callback runs once when a leg starts ringing, and none when it is
     answered or ends.''',
     ['histories', 'inputs'],
     'every leg state, every stimulus and path on which the leg is or is not answered',
     'Accounting and prepaid cut-off hang on these callbacks; the tests run no call at all.',
     LEGF, [('answer', 'sippy/UasStateProgressing.py:UasStateProgressing._recvEventConnect'),
            ('answer', 'sippy/UacStateTrying.py:UacStateTrying._recvResponse'),
            ('ACK', 'sippy/UaStateConnected.py:UaStateConnected.recvACK')], LEGT, LEGN)

prop('C08', 'Every finished leg is released',
     '''Each way a call leg can end leaves it either released at once or with a timer that releases it later, without needing
     anything from the peer. Releasing a leg removes it from message dispatch if it was registered, runs each release callback
     exactly once, and cuts the leg off from its controller, media hooks and pending transaction.''',
     ['histories', 'fault_sequences'],
     'every ending transition of every leg state; every way into the released state',
     'A leaked leg is invisible to a functional test; it needs the set of all ending transitions.',
     LEGF, [('release timers', 'sippy/UaStateDisconnected.py:UaStateDisconnected.goDead'),
            ('release', 'sippy/UaStateDead.py:UaStateDead.__init__')], LEGT, LEGN)

TMF = ['sippy/SipTransactionManager.py']
TMN = '''Abstract interpretation of the transaction manager: one transaction of each kind (client/server, INVITE/other), all
reachable combinations of state and armed timers, every stimulus in each; message classes, sockets, timers and application
callbacks are summarised. Two consumers per call identifier, loops unrolled twice; exceptions only where listed.'''

prop('T01', 'Every SIP transaction is released, with its timers and table entry',
     '''A transaction is registered under exactly its own identifier from creation until it ends, and when it ends its entry,
     its timers and its references to callbacks go with it. A running timer is never replaced or forgotten. Unless it waits
     for the application to answer or for the controller to acknowledge, every transaction in every situation ends by
     timers alone, whatever the peer does or fails to do.''',
     ['histories', 'schedules', 'inputs'],
     'every kind and state of transaction, every set of timers that can run in it (least fixpoint), every message and expiry',
     '''A leaked transaction or timer shows after 32 seconds or never; the tests create no transactions.''',
     TMF, [('table', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingRequest'),
           ('release', 'sippy/SipTransactionManager.py:SipTransaction.cleanup')], LEGT, TMN,
     state=[('transaction', 'state and armed timers', 'sippy/SipTransactionManager.py:SipTransaction')])

prop('T02', 'Retransmitted datagrams are absorbed and answered from memory',
     '''A datagram received again while the peer may still retransmit it is never handed to the application or a transaction a
     second time: the reply sent to its first copy, if any, is sent again to where that went, and nothing else happens.
     Every reply is remembered under the request it answers. The memory covers at least the last 32 seconds.''',
     ['histories', 'inputs', 'schedules'],
     'every datagram, every transaction situation, every path of datagram handling, both generations of the memory',
     '''Depends on sequences of identical datagrams separated by time; the tests receive no datagrams.''',
     TMF, [('lookup', 'sippy/SipTransactionManager.py:SipTransactionManager.handleIncoming'),
           ('recording', 'sippy/SipTransactionManager.py:SipTransactionManager.transmitData'),
           ('ageing', 'sippy/SipTransactionManager.py:SipTransactionManager.rCachePurge')], LEGT, TMN)

prop('T03', 'Client transactions: one final response, one ACK, one CANCEL',
     '''A final response to a waiting request reaches its controller exactly once and is the last thing it gets; the final
     response to an INVITE is acknowledged exactly once (at once, or when the controller says so if it asked for that), with the
     tag of the response, and for a positive one on a new branch along the route and target it gives, for a negative one the way the
     INVITE went. Nothing else causes an acknowledgment. A cancellation goes out exactly once, when a provisional response has
     been received, and never before it or after the final response.''',
     ['inputs', 'histories'],
     'every client transaction situation, every response class, cancellation, deferred acknowledgment and expiry',
     'Needs a peer that crosses responses, cancellations and timeouts; the tests have no peer.',
     TMF + ['sippy/UacStateTrying.py', 'sippy/UacStateRinging.py'],
     [('responses', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingResponse'),
      ('CANCEL', 'sippy/SipTransactionManager.py:SipTransactionManager.cancelTransaction')], LEGT, TMN)

prop('T04', 'Server transactions: one consumer, one final answer, CANCEL and ACK',
     '''A new request is handed to exactly one consumer exactly once, unless it loops, which is answered 482. A final answer to
     an INVITE is kept and can be acknowledged; its ACK or the lack of it is reported exactly once and ends the transaction, and a
     second final answer is refused with nothing sent. CANCEL is answered 200 and, if the INVITE is unanswered, makes it end with
     487 and tells the controller exactly once; without a matching transaction it is answered 481.''',
     ['inputs', 'histories'],
     'every server transaction situation, every request, every answer the application may give, every expiry',
     'Needs crossing CANCEL, ACK, answers and timeouts on the wire; the tests have none.',
     TMF, [('requests', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingRequest'),
           ('answers', 'sippy/SipTransactionManager.py:SipTransactionManager.sendResponse'),
           ('CANCEL', 'sippy/SipTransactionManager.py:SipTransactionManager.doCancel')], LEGT, TMN)

prop('T05', 'Retransmission and timeout timers follow the protocol',
     '''A request is repeated unchanged to where it went first, starting after 0.5 s and at doubling intervals, until any
     response arrives or 32 s have passed; then the controller gets exactly one 408 response and nothing more. A provisional
     response replaces the limit by the expiration of the request. A final answer to an INVITE is repeated the same way until it is
     acknowledged or 32 s have passed, which stops all timers of the unanswered call.''',
     ['histories', 'schedules'],
     'every transaction situation and timer expiry',
     'Expiries take half a minute of silence each; the tests never wait for one.',
     TMF, [('timers', 'sippy/SipTransactionManager.py:SipTransactionManager.timerA'),
           ('timeout', 'sippy/SipTransactionManager.py:SipTransactionManager.timerB')], LEGT, TMN)

prop('T06', 'Requests inside a call find their leg',
     '''Several legs may register for the same call identifier: registering one keeps the others, removing one removes exactly
     that one, and the identifier is forgotten with the last. A request goes to the first registered leg that claims
     it and, when none does, to the default handler. Removing a leg that is not registered fails and changes nothing.''',
     ['histories', 'inputs'],
     'every number (0..2) and position of registered legs; every outcome of the ownership test',
     'Spirals, forks and forwarded calls share call identifiers; the tests register no legs.',
     TMF, [('registration', 'sippy/SipTransactionManager.py:SipTransactionManager.unregConsumer'),
           ('dispatch', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingRequest')], LEGT, TMN)

prop('T07', 'A message that cannot be handled is refused and leaves nothing behind',
     '''When the code handling a new request fails, the transaction opened for the request is closed with exactly one final error
     response, or left closed if a final response was already sent, and a call leg that was being created for it is released. A
     failure of the application while it is told about a response, a timeout, an acknowledgement or a missing one leaves the
     transaction table and timers as if it had succeeded. A failure to read a header of a message, or a refusal of its media, inside
     a call leaves the leg as it was or ends it; a response that could not be acted upon is ignored as a whole.''',
     ['inputs', 'faults', 'histories'],
     'every callback into the application raising, before or after answering, in every transaction situation; every header a leg '
     'reads unreadable, absent or a wildcard, in every leg state; the media hook refusing',
     'The tests send well-formed messages to handlers that work; a fault needs a malformed header at one place and one moment.',
     TMF + ['sippy/UA.py', 'sippy/UaStateConnected.py', 'sippy/UacStateTrying.py', 'sippy/UasStateIdle.py'],
     [('dispatch', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingRequest'),
      ('reports', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingResponse'),
      ('new legs', 'sippy/UA.py:UA.recvRequest')],
     'static fault injection: abstract execution of every stimulus with raising callbacks and faulty headers, compared with the '
     'outcome without the fault', 'The handling of a message by the user code beyond the call leg is not followed; a failure in it '
     'is a raising callback.')

prop('C09', 'Authentication challenges: one retry, or every challenge passed on',
     '''A 401 or 407 response to the INVITE of an unfinished leg that has credentials is answered with exactly one further INVITE,
     carrying credentials computed from the configured name and password for the first supported challenge, and the leg goes on
     waiting; a second challenge, an unsupported one, a leg without credentials or one that has ended sends none. A leg set to pass
     authentication through never answers but reports the failure with every challenge of the response. A keep-alive inside an
     answered call is retried with credentials at most once as well.''',
     ['inputs', 'histories'],
     'every leg state that can see an answer to an INVITE, both challenge codes, with and without credentials, first or repeated',
     'The digest unit tests compute hashes; no test makes a leg see a challenge, let alone two, late ones or unsupported ones.',
     ['sippy/UA.py', 'sippy/UaStateConnected.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py'],
     [('challenge', 'sippy/UA.py:UA.processChallenge'), ('relay', 'sippy/UacStateTrying.py:UacStateTrying.recvResponse'),
      ('keep-alive', 'sippy/UaStateConnected.py:UaStateConnected.keepAliveResp')], LEGT, LEGN)

prop('I01', 'Names, calls, callbacks and attributes refer to something that fits',
     '''Every name and every attribute of an object of known class that the code uses is defined somewhere, every import inside the
     package succeeds, and every call, and every callback handed to a timer, signal, thread or RTP proxy command together with its
     parameters, is accepted by the function it reaches, overriding definitions included. A result of known length is unpacked into as
     many names. No rarely taken path therefore dies of a NameError, AttributeError or TypeError of that kind.''',
     ['inputs', 'histories'],
     'every function of the package, every name, resolved call, callback registration, attribute and unpacking in it',
     'Python finds these only when the line runs; most error, timer and shutdown paths are run by no test.',
     ['sippy'], [('timers', 'sippy/Time/Timeout.py:Timeout'), ('RTP proxy commands', 'sippy/Rtp_proxy/client.py:Rtp_proxy_client'),
                 ('threads', 'sippy/Core/EventDispatcher.py:EventDispatcher2.callFromThread')],
     'name resolution, light type inference and call binding over the syntax trees',
     '''Sound for what resolves: receivers whose class is not settled by the assignments are checked only against all
     methods of that name; third-party packages are not looked into.''')

SCT = 'interprocedural path-sensitive effect analysis (abstract interpretation of the syntax tree) from constructed object states'
SCN = '''Abstract interpretation of all paths of the named functions from object states built by interpreting their constructors; libraries
are summarised, a small fixed number of callbacks, jobs and timers stands for any number, loops are unrolled to that number, one
fault at a time.'''
LOOPF = ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py', 'sippy/Signal.py']
WRKF = ['sippy/External_command.py', 'sippy/Rtp_proxy/Client/stream.py', 'sippy/Rtp_proxy/Client/Worker/external.py', 'sippy/Rtp_proxy/Client/Worker/internal.py', 'sippy/Udp_server.py',
        'sippy/SipLogger.py', 'sippy/CLIManager.py']

prop('E01', 'A failing callback stays contained in the event loop',
     '''An exception raised by a timer, signal, posted-call, datagram, command-result or control-connection callback is reported and goes
     no further: the loop goes on, every other timer, signal handler and posted call is still served, the timer that failed is finished
     if it was one-shot and rescheduled if it was periodic, and a control connection whose command failed is closed. An intentional exit
     is passed on to whoever runs the loop. A call made synchronously from another thread returns its result or raises its exception in
     that thread.''',
     ['fault_sequences', 'histories'],
     'every kind of callback registration, every kind of exception, every path of its dispatch',
     'The tests run callbacks that succeed; one failing at the wrong place stops all calls of the process.',
     LOOPF + ['sippy/CLIManager.py', 'sippy/External_command.py', 'sippy/Udp_server.py'],
     [('timers', 'sippy/Core/EventDispatcher.py:EventDispatcher2.dispatchTimers'),
      ('signals', 'sippy/Core/EventDispatcher.py:EventDispatcher2.dispatchSignals'),
      ('posted calls', 'sippy/Core/EventDispatcher.py:EventDispatcher2.dispatchThreadCallback')], SCT, SCN)

prop('E02', 'Application code runs in the event loop thread only',
     '''The threads that run external commands, talk to the RTP proxy, send and receive datagrams, write logs and serve control
     connections never call an application callback and never touch timers, signals or the loop themselves: what they find out
     reaches the application only through a call posted to the loop, except for transports set to deliver directly.''',
     ['schedules'],
     'every path of every worker thread, with the jobs and connections it may be given',
     'A callback run in the wrong thread almost always works; it fails only when both threads meet in the same state.',
     WRKF, [('external commands', 'sippy/External_command.py:_Worker.run'), ('RTP proxy', 'sippy/Rtp_proxy/Client/Worker/external.py:RTPPLWorker_external.run'),
            ('datagrams', 'sippy/Udp_server.py:AsyncReceiver.run'), ('control connections', 'sippy/CLIManager.py:_CLIManager_r.run')], SCT, SCN)

prop('E03', 'Locks: released, ordered, guarding what they guard',
     '''Every lock taken is released on every path, exceptional ones included, by whoever took it; none is taken twice by the same thread,
     and no two are ever taken in opposite orders. Nothing that may wait (joining a thread, sleeping, input or output, another
     condition) is done under one. What is changed under a lock anywhere is changed under it everywhere, from values read under it, and
     a wait is followed by a new test of what was waited for, which is announced whenever work is added.''',
     ['schedules', 'fault_sequences'],
     'every function of the package that takes a lock or touches what one guards, every path, a failure at every call under a lock',
     'Races and deadlocks need two threads at particular instructions; tests meet them by accident only.',
     ['sippy'], [('work queues', 'sippy/External_command.py:External_command.process_command'),
                 ('RTP writer', 'sippy/Rtp/OutputWorker.py:RTPOutputWorker'), ('RTP endpoint', 'sippy/Rtp/EPoint.py:RTPEPoint'),
                 ('shared instances', 'sippy/Rtp/Singletons.py')],
     'lockset analysis: held locks per path, nesting order graph, guarded-by inference (abstract interpretation of the syntax tree)',
     '''Path-sensitive within each entry function and its callees; locks are identified by owner class and attribute, callables handed
     in from outside count as every public method of the lock owners. Data never touched under a lock is not checked.''')

prop('E04', 'Worker threads survive failures and finish every job',
     '''No failure of an external command, RTP proxy connection, log file, datagram or control connection ends the thread that serves it:
     every job not cancelled is completed exactly once, with its own parameters, and the jobs behind it are still done. A cancelled
     job is never reported, a request to stop ends every worker of a pool, the control socket goes on accepting, and a
     connection that breaks is closed once.''',
     ['fault_sequences', 'histories'],
     'every worker thread, a failure at any of its input/output operations, with jobs before and behind it',
     'Needs a broken pipe, reset or full table at one exact operation; the tests have none of these peers.',
     WRKF, [('external commands', 'sippy/External_command.py:_Worker.run'), ('RTP proxy', 'sippy/Rtp_proxy/Client/Worker/external.py:RTPPLWorker_external.run'),
            ('datagrams', 'sippy/Udp_server.py:AsyncSender.run'), ('log', 'sippy/SipLogger.py:AsyncLogger.run'),
            ('control socket', 'sippy/CLIManager.py:_Acceptor.run')], SCT, SCN)

prop('E05', 'Timers fire when due, as often as asked, never after cancellation',
     '''A timer fires in the first round of the loop that finds its instant passed and never before: a one-shot timer once, a periodic one
     again an interval after its previous instant, a counted one as often as asked, always with its own parameters. A cancelled timer
     never fires again, wherever it is cancelled from, and neither that nor discarding cancelled ones loses another timer. A loop
     told to stop returns the given value without serving or losing the timers that remain.''',
     ['histories', 'schedules'],
     'every kind of timer, every order of instants relative to the clock, cancellation before, between and inside callbacks',
     'The tests start a timer or two; rescheduling against a moving clock and cancellation from other callbacks are never met.',
     LOOPF, [('dispatch', 'sippy/Core/EventDispatcher.py:EventDispatcher2.dispatchTimers'),
             ('cancellation', 'sippy/Core/EventDispatcher.py:EventListener.cancel'),
             ('loop', 'sippy/Core/EventDispatcher.py:EventDispatcher2.loop')], SCT, SCN,
     state=[('timer queue', 'timers not yet fired or discarded', 'sippy/Core/EventDispatcher.py:EventDispatcher2.tlisteners')])

B2BF = ['sippy/b2bua.py', 'sippy/B2B/Route.py']

prop('B01', 'Only admitted and authorized callers get a call placed',
     '''A request outside any dialog gets exactly one answer, and starts a call only if it is an INVITE, no restart or stop is pending,
     it comes from an accepted source when such are configured, and it carries credentials when those are the only way in; dialog
     requests without dialog get 481, registrations go to the configured proxy, anything else is refused. When authorization is on,
     nothing is sent for a call before the server, asked once with the caller's own credentials and numbers (or its address when it
     gave none), accepts it; a refusal, failure or unusable answer gives the caller one final answer, with a challenge whenever one is
     due.''',
     ['inputs', 'fault_sequences'],
     'every combination of method, dialog tag, shutdown state, accepted sources, kind of source, authentication settings, credentials present and authorization outcome',
     'A call that slips through costs real money; the tests never start the dispatcher and no test rig has an authorization server.',
     B2BF + ['sippy/RadiusAuthorisation.py', 'sippy/Radius_client.py'],
     [('admission', 'sippy/b2bua.py:CallMap.recvRequest'), ('authorization', 'sippy/b2bua.py:CallController.recvEvent'),
      ('outcome', 'sippy/b2bua.py:CallController.rDone'), ('helper exchange', 'sippy/RadiusAuthorisation.py:RadiusAuthorisation.do_auth')], SCT, SCN)

prop('B02', 'Every authorized call and attempt is accounted exactly once',
     '''With accounting on, each authorized call and each attempt made for it has its own accounting session carrying its own numbers,
     told of the answer and of the end of its own leg with the time, who ended it and why; calls not authorized, attempts on routes
     that opt out, and everything when accounting is off, have none. A session gives at most one start record (only when wanted),
     interim records at the configured period only while the leg is up, and exactly one stop record, last, with duration, cause and
     release source; afterwards its timer is stopped.''',
     ['histories', 'schedules'],
     'every history of a call: authorization, attempts, answers, ends, releases and timers in any order, over all accounting settings',
     'Each missing or doubled record is a billing error; it shows only for particular crossings of answer, hang-up and route change.',
     B2BF + ['sippy/RadiusAccounting.py', 'sippy/FakeAccounting.py'],
     [('call', 'sippy/b2bua.py:CallController.rDone'), ('attempt', 'sippy/b2bua.py:CallController.placeOriginate'),
      ('records', 'sippy/RadiusAccounting.py:RadiusAccounting.disc')], SCT, SCN,
     state=[('accounting session', 'records sent and interim timer', 'sippy/RadiusAccounting.py:RadiusAccounting')])

prop('B03', 'Both legs of a call live and end together; routes are tried in order',
     '''For a call there is at most one attempt alive at a time, made only while the caller waits. When an attempt ends before it is
     answered the next route in order is tried unless the failure code stops the search; otherwise the failure, and everything else
     one leg reports, is passed to the other leg exactly once. When the timer of a route group expires the rest of the group is
     skipped. Whichever leg ends, or when the administrator ends the call, the other ends too, and the call leaves the call table
     exactly once, when both legs are released; no order of events raises.''',
     ['histories', 'schedules', 'fault_sequences'],
     'every history of a call over fourteen routing situations: caller, attempts, authorization answer, group timers and administrator in any order',
     'One leg left behind is a call nobody can hang up; the tests contain no two-legged call.',
     B2BF, [('events', 'sippy/b2bua.py:CallController.recvEvent'), ('attempts', 'sippy/b2bua.py:CallController.placeOriginate'),
            ('groups', 'sippy/b2bua.py:CallController.group_expires'), ('release', 'sippy/b2bua.py:CallController.aDead')], SCT, SCN,
     state=[('call state', 'legs, remaining routes, accounting', 'sippy/b2bua.py:CallController'), ('call table', 'calls in memory', 'sippy/b2bua.py:CallMap.ccmap')])

prop('B04', 'The hop limit of a request shrinks on every way through',
     '''The INVITE sent for each attempt carries the hop limit of the INVITE received less one, in a repetition with credentials too, and a
     call whose hop limit is used up is refused with 483 without sending anything. A request relayed by the stateful proxy carries
     its hop limit less one, or a new one if it had none, and is likewise refused with 483 when it is used up.''',
     ['inputs', 'histories'],
     'every hop limit from none through zero to the usual maximum, every attempt of a call, every repetition, both relaying ways',
     'A loop between two servers is stopped by this alone; tests never relay a request.',
     B2BF + ['sippy/StatefulProxy.py', 'sippy/UasStateIdle.py', 'sippy/UacStateIdle.py', 'sippy/UA.py'],
     [('call', 'sippy/b2bua.py:CallController.placeOriginate'), ('proxy', 'sippy/StatefulProxy.py:StatefulProxy.recvRequest'),
      ('repetition', 'sippy/UA.py:UA.recvResponse')], SCT, SCN)

prop('B05', 'Every routing parameter has its effect on the attempt, and no other',
     '''Each attempt goes to the host, port, number, way and credentials its route names; carries the caller identity, headers and
     media relaying the route asks for and otherwise those of the incoming call; and is bound to the credit, expiry, progress and
     reply limits of the route, the credit never above the configured maximum and falling back to the credit granted with the
     authorization. Parameters act independently of their order and of each other. A route that is malformed or has no time left
     is passed over for the next one, and with none left the caller gets 500. The static route behaves as the same route in a routing
     answer would and is left unchanged by any number of calls.''',
     ['inputs', 'histories'],
     'every parameter of the routing syntax alone and all together in both orders, over default credit, credit limit, media relaying, source family; unusable and exhausted routes alone and before a good one; static routes used repeatedly',
     'A limit not applied lets a call run on after the money is gone; tests parse one plain route and never place an attempt from it.',
     ['sippy/b2bua.py', 'sippy/B2B/Route.py'],
     [('syntax', 'sippy/B2B/Route.py:B2BRoute.__init__'), ('defaults and limits', 'sippy/B2B/Route.py:B2BRoute.customize'),
      ('copy for a call', 'sippy/B2B/Route.py:B2BRoute.getCopy'), ('attempt', 'sippy/b2bua.py:CallController.placeOriginate')], SCT, SCN,
     state=[('static route', 'route shared by all calls', 'sippy/B2B/Route.py:B2BRoute')])
prop('B06', 'Each management command does what it says to exactly the named calls',
     '''Every line of ASCII text received on the control interface is answered by exactly one complete reply, in order, and never ends the service or
     the connection; only the quit command and the end of the peer close it, after the pending replies are delivered in full. The lists show every call
     and both of its legs once, every transaction of the asked age once, and the right totals. A disconnect reaches all legs of
     every call with that identifier and of no other, also while calls vanish in the course of it; the media timeout command reaches only
     proxied calls in conversation or with routing complete, and names the stream it is given. Malformed commands change nothing and are reported as errors.''',
     ['inputs', 'histories', 'schedules'],
     'every command with well and ill formed arguments, over tables of calls in every state, duplicate identifiers, calls that vanish during the command, every fragmentation of the incoming bytes and of the outgoing ones',
     'The tool of last resort of an operator: a command that raises, hits the wrong call or gets no answer leaves fraud or a stuck call running.',
     ['sippy/B2B/SimpleAPI.py', 'sippy/CLIManager.py', 'sippy/b2bua.py'],
     [('commands', 'sippy/B2B/SimpleAPI.py:B2BSimpleAPI.recvCommand'), ('lists', 'sippy/b2bua.py:CallMap.listActiveCalls'),
      ('lines', 'sippy/CLIManager.py:_CLIManager_r.run'), ('replies', 'sippy/CLIManager.py:_CLIManager_w.run'),
      ('connection', 'sippy/CLIManager.py:CLIManager')], SCT, SCN,
     state=[('table of calls', 'calls a command can reach', 'sippy/b2bua.py:CallMap')])
prop('B07', 'An orderly stop or restart ends no call early and is never forgotten',
     '''After a stop or restart request no new call is admitted and callers are told so with 503. A stop ends every call and then, checked
     again and again, ends the process as soon as no call is up, or at the fifth check whatever is left. A restart waits until
     no call is up, however long that takes, then closes the sockets and starts the same program with the same arguments in the
     directory it came from. A hangup signal ends all calls and nothing else. Without a request neither happens, and the periodic check goes on.''',
     ['histories', 'schedules'],
     'every order of signals and periodic checks up to the bound, over tables of calls in every state that come and go between them',
     'A stop taken too early cuts conversations and loses their accounting; a restart forgotten leaves a process that refuses every call.',
     ['sippy/b2bua.py'],
     [('signals', 'sippy/b2bua.py:CallMap.__init__'), ('stop', 'sippy/b2bua.py:CallMap.executeStop'),
      ('restart', 'sippy/b2bua.py:CallMap.GClector'), ('admission', 'sippy/b2bua.py:CallMap.recvRequest')], SCT, SCN,
     state=[('requests pending', 'stop and restart requests', 'sippy/b2bua.py:CallMap')])

SECT = 'static abstract interpretation over byte and digest terms (own engine)'
prop('S01', 'A challenge nonce is accepted only where, for what and while it was issued',
     '''A nonce is accepted only if this process issued it, unaltered, no longer ago than the validity time and not from the future, and
     only for the digest algorithms it was issued for; whatever else is presented, of any length or content, is refused without raising. Its
     authenticity is compared in constant time over a code of full strength covering everything in it, with keys that are
     random and drawn once per process.''',
     ['inputs', 'histories'],
     'every text that can be presented, every combination of algorithms offered and asked for, every age',
     'A nonce that can be forged or reused later lets credentials captured once be replayed; tests verify fresh nonces of one process.',
     ['sippy/Security/SipNonce.py', 'sippy/SipAuthorization.py'],
     [('issue', 'sippy/Security/SipNonce.py:HashOracle.emit_challenge'), ('validate', 'sippy/Security/SipNonce.py:HashOracle.validate_challenge'),
      ('sealing', 'sippy/Security/SipNonce.py:AESCipher')], SECT, 'bytes are terms: what is cut out, joined, encrypted or authenticated is followed exactly; the primitives are taken to be what they claim')
prop('S02', 'Digest credentials are calculated and checked as the standard defines',
     '''For each supported algorithm, with and without quality of protection and with the body included, a response is accepted exactly if
     it equals the one the standard defines for the stored password and the nonce is currently valid for that algorithm; a header that lacks a part, or
     names an unknown algorithm or protection, is refused and never raises. A challenge is answered with that same response,
     a random client nonce, and a header naming exactly the values that were hashed. A challenge issued carries a nonce for the algorithm it names.''',
     ['inputs'],
     'every algorithm (none, MD5, SHA-256, SHA-512/256, plain and session), every protection, present and missing header parts',
     'A wrong or partial hash either locks users out or lets them in with less than the password; tests sample a few vectors.',
     ['sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/SipProxyAuthenticate.py', 'sippy/SipProxyAuthorization.py'],
     [('verify', 'sippy/SipAuthorization.py:SipAuthorization.verifyHA1'), ('hash', 'sippy/SipAuthorization.py:DigestCalcResponse'),
      ('answer', 'sippy/SipWWWAuthenticate.py:SipWWWAuthenticate.genAuthHF')], SECT, 'digests are terms over the pieces hashed; commas inside quoted header values are not claimed')
prop('S03', 'Identifiers are unguessable and never repeat',
     '''Every identifier the system makes up - tags, branches, Call-IDs, call GUIDs, media session names and tags, cookies of media
     commands, multipart boundaries - is drawn anew each time from a cryptographic random generator with at least 64 random bits
     and has the prescribed beginning. The first sequence number of a call is random and leaves room to count on below 2^31.''',
     ['histories', 'schedules'],
     'every construct that makes an identifier, used any number of times in any order',
     'A repeated or guessable identifier lets calls, transactions or media sessions of different users collide or be hijacked; no test can see a collision.',
     ['sippy/SipFrom.py', 'sippy/SipVia.py', 'sippy/SipCallId.py', 'sippy/UA.py', 'sippy/SipCSeq.py', 'sippy/SipCiscoGUID.py', 'sippy/Rtp_proxy/session.py',
      'sippy/Rtp_proxy/Client/udp.py', 'sippy/MultipartMixBody.py'],
     [('tags', 'sippy/SipFrom.py:SipFrom.genTag'), ('branches', 'sippy/SipVia.py:SipVia.genBranch'), ('legs', 'sippy/UA.py:UA.__init__'),
      ('media sessions', 'sippy/Rtp_proxy/session.py:Rtp_proxy_session.__init__')], SECT, 'counts the generator bytes that reach the value')

MSGT = 'static abstract interpretation of message construction (own engine)'
MSGN = 'messages are built from symbolic parts by the code itself and compared as structures; text on the wire is the business of other properties'
prop('M01', 'A copy equals its original and shares nothing that changes',
     '''The copy of a message, header, address, URI, body, session description, event or list of server options carries every part the original carries,
     whether it was received or made here, and whether or not it has been parsed yet. Nothing that can be changed later through the copy is shared with
     the original, at any depth, and making the copy does not change the original. A copy that is changed and copied again keeps the change.''',
     ['inputs', 'histories'],
     'every kind of thing that can be copied, every part given when it was made or set later, parsed and not parsed',
     'Each call forwards copies of what one leg received to the other; a part lost or shared shows only when a later call or a later change meets it, which no test does.',
     ['sippy/SipMsg.py', 'sippy/SipHeader.py', 'sippy/SipGenericHF.py', 'sippy/SipAddress.py', 'sippy/SipURL.py', 'sippy/MsgBody.py', 'sippy/SdpBody.py', 'sippy/CCEvents.py'],
     [('messages', 'sippy/SipMsg.py:SipMsg.getCopy'), ('headers', 'sippy/SipHeader.py:SipHeader.getCopy'), ('session descriptions', 'sippy/SdpBody.py:SdpBody.getCopy'),
      ('events', 'sippy/CCEvents.py:CCEventGeneric.getCopy')], MSGT, 'every class with a copying method is found in the source; what it stores is found from its constructor, its parser and its setters')
prop('M02', 'Headers are read and written without loss',
     '''Every header the code knows, received under its full, compact or differently written name, is read and gives the parts the sender put there: names
     and quoted texts with any characters, URIs with users, passwords, parameters, ports, IPv6 hosts and headers, tags, numbers, lists, credentials and
     challenges. Written again it is the same header, with an equal value; one that was not looked into is passed on as it came. A header of a kind the
     code does not know keeps its name and its text.''',
     ['inputs'],
     'every kind of header in the table of the code, each of its names, the forms its grammar allows, any content of the variable parts',
     'The B2BUA reads what one side wrote and writes it for the other; what is lost or misplaced depends on rare forms and characters no test covers.',
     ['sippy/SipHeader.py', 'sippy/SipAddress.py', 'sippy/SipAddressHF.py', 'sippy/SipURL.py', 'sippy/SipVia.py', 'sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py'],
     [('headers', 'sippy/SipHeader.py:SipHeader.__init__'), ('addresses', 'sippy/SipAddress.py:SipAddress.__init__'), ('URIs', 'sippy/SipURL.py:SipURL.parseSipURL')],
     'static abstract interpretation over texts with symbolic parts (own engine)',
     'the forms are a table written from RFC 3261 and the headers the code knows; a symbol stands for any text of its lexical class')
prop('M03', 'Messages are framed by what they announce and come out as they came in',
     '''A message with any line ends, folded lines and comma-separated or repeated headers gives its start line, its headers in their order and a body of
     exactly the announced number of bytes, whatever follows it and whatever characters it has. One that lacks From, To, Via or CSeq, announces a negative
     length or more than came (but for lacking line ends) is refused, a request with an answer 400. Written again, in full or compact form, every header
     and the body come out with equal values and the length in bytes; what stands for our own address is written as the address the message leaves
     from.''',
     ['inputs'],
     'every content of the variable parts, each line end and folding, bodies with and without announced length and type, each difference between length announced and received',
     'A body cut short or a header misread depends on rare bytes and on how another implementation words its messages; the tests use a few messages with plain ASCII.',
     ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/MsgBody.py'],
     [('reading', 'sippy/SipMsg.py:SipMsg.__init__'), ('body', 'sippy/SipMsg.py:SipMsg.init_body'), ('writing', 'sippy/SipMsg.py:SipMsg.localStr')],
     'static abstract interpretation over texts with symbolic parts (own engine)',
     'which shapes a message can have is a table; the symbols stand for any text of their lexical class; lengths are compared as linear terms')
prop('M04', 'Responses, ACK and CANCEL belong to the request they are made for',
     '''A response repeats the Via headers, the Record-Routes, From, To, Call-ID and CSeq of its request in number, order and content. A CANCEL and the
     ACK of a rejected INVITE repeat its request URI, topmost Via, Routes, Call-ID and CSeq number and go to the same address; the ACK takes the To of the
     response. The ACK of an accepted INVITE has a branch of its own and follows the Contact and Record-Routes of the response, through loose and strict
     routers. None of them changes the message it is made from, nor can it be changed through that message later.''',
     ['inputs', 'histories'],
     'every content of the headers; each count and order of Via, Route and Record-Route; answers provisional, negative and positive; the ACK sent at once or later; the CANCEL early or late',
     'A reply that does not match its request is dropped by the other side and the call hangs or keeps ringing; tests look at one message of each kind without routes.',
     ['sippy/SipRequest.py', 'sippy/SipTransactionManager.py', 'sippy/SipResponse.py'],
     [('response', 'sippy/SipRequest.py:SipRequest.genResponse'), ('ACK', 'sippy/SipTransactionManager.py:SipTransactionManager.incomingResponse'),
      ('CANCEL', 'sippy/SipRequest.py:SipRequest.genCANCEL')], MSGT, MSGN)
prop('M05', 'Requests within a call follow the dialog its set-up established',
     '''Every request sent within a call carries its Call-ID, the tags and the URIs of both parties on the right sides, the target the other party gave in
     its Contact and the route set recorded on the way (in the order that side has to use it), and goes to the address this makes the next hop, with
     strict routers served the way they expect. Its CSeq is one higher than that of the request before and its branch is new. All responses to an incoming
     call carry one and the same local tag. This holds for both sides, with any routers, and for a call answered after it was cancelled.''',
     ['inputs', 'histories'],
     'caller and called side; no, one or two routers, loose and strict; answered at once, after ringing, or after being cancelled; sequences of INFO, re-INVITE and BYE',
     'A wrong tag, route or CSeq makes the other side refuse the request: calls cannot be ended and stay billed; tests use direct calls and single requests.',
     ['sippy/UA.py', 'sippy/UacStateTrying.py', 'sippy/UacStateCancelling.py', 'sippy/UasStateIdle.py'],
     [('requests', 'sippy/UA.py:UA.genRequest'), ('caller', 'sippy/UacStateTrying.py:UacStateTrying.recvResponse'), ('called', 'sippy/UasStateIdle.py:UasStateIdle.recvRequest')],
     MSGT, MSGN + '; outbound proxies and a Contact changed by a re-INVITE are not claimed')
prop('M06', 'Session descriptions and bodies of several parts keep their meaning',
     '''A session description that was read, copied or changed by a relay and is written again has the same lines of the session and of every medium, in an
     order the format allows, each medium with its own connection address; what the relay changed, and only that, differs. One without a mandatory line is
     refused. A body of several parts comes out with the same parts, each with its type, its headers and its content, and the same boundary, quoted or
     not. A body of any other type is passed on as it came.''',
     ['inputs'],
     'every content of the variable parts; no to four media with their own, the common or several connection addresses; every line of the session, repeated where the format has it; parts with and without headers and type',
     'Media sent to a wrong address or a lost line shows only with descriptions of several media or rare lines; tests use descriptions of one stream.',
     ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpConnecton.py', 'sippy/SdpOrigin.py', 'sippy/MsgBody.py', 'sippy/MultipartMixBody.py'],
     [('descriptions', 'sippy/SdpBody.py:SdpBody.__init__'), ('writing', 'sippy/SdpBody.py:SdpBody.localStr'), ('parts', 'sippy/MultipartMixBody.py:MultipartMixBody.__init__')],
     'static abstract interpretation over texts with symbolic parts (own engine)',
     'the texts written are compared by the meaning RFC 4566 and 2046 give them; several connection lines of one medium, ports with a count and boundaries inside of lines are not claimed')
RLT = 'static abstract interpretation over texts with symbolic parts (own engine), the relay replaced by every kind of answer'
RLF = ['sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/Client/net.py', 'sippy/Rtp_proxy/Client/stream.py']
RLS = ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Session/webrtc.py',
       'sippy/Rtp_proxy/Session/subcommand_ice.py', 'sippy/Rtp_proxy/Cmd/sequencer.py', 'sippy/SdpOrigin.py']
prop('R01', 'Every command to a media relay gets exactly one outcome',
     '''A command sent to a media relay by datagrams ends in one outcome: the reply that carries its cookie, without the cookie and surrounding space, or none
     when its tries are used up, each passed on with the parameters the command was given. Until then the same datagram is sent again at every expiry, a bounded
     number of times, with exactly one timer running; afterwards no timer is left. Replies that are late, repeated, unreadable or carry an unknown cookie change
     nothing. Each command has a cookie of its own. A listener that fails, a reply time the clock refuses and a shutdown of the client do not break this.''',
     ['histories', 'fault_sequences'],
     'every order of replies, foreign datagrams, timeouts and shutdown for commands asked before and during them, commands that may and may not be repeated, with and without a listener, listeners that fail',
     'A lost outcome leaves a call waiting for ever, a repeated one answers it twice; both need a reply lost or late at a particular point, which no test arranges.',
     RLF[:3], [('asking', 'sippy/Rtp_proxy/Client/udp.py:Rtp_proxy_client_udp.send_command'), ('repeating', 'sippy/Rtp_proxy/Client/udp.py:Rtp_proxy_client_udp.retransmit'),
               ('replies', 'sippy/Rtp_proxy/Client/udp.py:Rtp_proxy_client_udp.process_reply')], RLT, SCN)
prop('R02', 'A description passes the relay once and comes out with the relay in it',
     '''A session description handed to a media session makes one command to the relay for each medium the relay can carry, one after the other, naming the right
     stream, tags, address, port and address family. Its outcome is told exactly once: the description with the address and port of the relay in every such medium
     (a medium on hold stays on hold), everything else as it was, and an origin of our own, different for the two parties, whose version rises exactly when the
     description changes; or a failure, whatever the relay answered and for whichever medium. A description with nothing to relay is handed back as it is, one that is
     unusable refused at once. Browser descriptions gain or lose exactly the attributes their transport asks for.''',
     ['inputs', 'histories', 'fault_sequences'],
     'every content of the variable parts; no to three media of each kind and family, on hold or not; each side, first and later offers; every kind of answer for every medium; with and without the options of the session',
     'A description that keeps the address of the other party, or whose outcome is told twice or never, gives calls without sound; tests have no relay that refuses the second medium.',
     RLS,
     [('update', 'sippy/Rtp_proxy/Session/side.py:_rtpps_side._on_sdp_change'), ('answers', 'sippy/Rtp_proxy/Session/update.py:update_params.process_rtpp_result'),
      ('streams', 'sippy/Rtp_proxy/Session/side.py:_rtpps_side._sdp_change_finish')], RLT,
     'which shapes a description and an answer can have is a table; the symbols stand for any text of their lexical class; compared by the meaning RFC 4566 gives to what is written')
prop('R03', 'A media session ends with all its streams deleted, commands in order',
     '''A media session sends its commands one at a time in the order they were asked for. When it is ended, by request or because it is let go, every stream it
     asked the relay for, and no other, is deleted once, after all that was asked before, even when answers come late, are failures or do not come at all; nothing is sent
     after that, and every update asked for was told about. Playing, stopping, copying and recording go to the right stream with the right arguments, set the
     stream up first where it is missing, and their outcome, like that of statistics, is told once. A session is set up only on a relay that is on line.''',
     ['histories', 'fault_sequences'],
     'histories of up to three updates of either side with one or two streams, ended before, between and after the answers; each operation with and without its optional arguments, with the stream there, missing or refused; relays on and off line',
     'Streams left on the relay use up its ports over days; it takes a call ended while a command is under way, which tests do not do.',
     ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Cmd/sequencer.py'],
     [('ending', 'sippy/Rtp_proxy/session.py:Rtp_proxy_session.delete'), ('queue', 'sippy/Rtp_proxy/Cmd/sequencer.py:Rtp_proxy_cmd_sequencer.send_command'),
      ('playing', 'sippy/Rtp_proxy/Session/side.py:_rtpps_side._play')], RLT, SCN)
prop('R04', 'A relay is probed for ever and used only while it answers',
     '''A client of a media relay always has something under way to find out about the relay, a question or a timer that leads to one and not more than
     two, until it is shut down; no answer, failure or unreadable text ends this, and nothing is asked after. The relay is used only after it told a version that is
     supported, goes out of use when a question stays unanswered or it tells another version, and comes back once it answers again. Before it is used it is asked about
     each of its abilities, and each counts as there exactly when it said so. This holds for relays reached by datagrams and over a stream.''',
     ['histories', 'fault_sequences'],
     'histories of answers (right, wrong, unreadable, none), timers, commands of sessions and shutdown, for both kinds of client, explored until nothing new appears; each kind of answer to each question about abilities',
     'A check that stops once leaves a dead relay in use or a recovered one unused until a restart; it takes a wrong answer at one particular step.',
     RLF, [('heartbeat', 'sippy/Rtp_proxy/client.py:Rtp_proxy_client.heartbeat'), ('version', 'sippy/Rtp_proxy/client.py:Rtp_proxy_client.version_check'),
           ('abilities', 'sippy/Rtp_proxy/client.py:Rtpp_caps_checker'), ('stream', 'sippy/Rtp_proxy/Client/stream.py:Rtp_proxy_client_stream.send_command')], RLT, SCN)
prop('S04', 'What a caller writes adds nothing to what helpers and operators are told',
     '''Call identifiers, names and numbers of the parties, credentials and session descriptions, whatever characters their messages let through once decoded, add no
     line, attribute or end to a request to the authorization and accounting helper, no argument or command to what a media relay is told, and no line to the list of
     calls an operator gets. What cannot be expressed there is escaped, everything else arrives as it is; a description whose parameters would add a command is
     refused before the relay is asked.''',
     ['inputs'],
     'every attribute of authorization and accounting requests, every operation of a media session, every part of a description that becomes part of a command; line ends, quotes, spaces, control characters and separators at each place of them',
     'An escaped line end in a user name, decoded on the way, becomes a request of its own and answers are taken for those of other calls; tests send plain names.',
     ['sippy/Radius_client.py', 'sippy/RadiusAuthorisation.py', 'sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/subcommand.py',
      'sippy/Rtp_proxy/Session/subcommand_ice.py', 'sippy/B2B/SimpleAPI.py', 'sippy/External_command.py'],
     [('authorization', 'sippy/RadiusAuthorisation.py:RadiusAuthorisation.do_auth'), ('helper', 'sippy/Radius_client.py:Radius_client.do_acct'),
      ('relay', 'sippy/Rtp_proxy/Session/side.py:_rtpps_side.update'), ('calls', 'sippy/B2B/SimpleAPI.py:B2BSimpleAPI.recvCommand')],
     'static abstract interpretation over texts with symbolic parts (own engine): hostile characters followed from where they enter to what is written',
     'the hostile texts are a table of separators at every place of a text; attribute names and media relay answers are taken as configured')
prop('B08', 'Where media formats are restricted, only those allowed pass, in either direction',
     '''Where the allowed media formats are configured, every session description that comes from the caller or the called party, first or later, has each of its
     RTP media reduced to the allowed formats, given by number or by name, in the order they were in; what described only the removed formats goes with them and
     everything else stays as it was. A description with an RTP medium left with no format is refused, as is one that cannot be read, before anything is asked of the
     media relay, and always in the way the call handling understands. Other streams and bodies of other kinds pass as they are; the media relay gets what is left.
     Without the configuration nothing is restricted.''',
     ['inputs'],
     'descriptions of up to two media of each transport and kind, formats by number and name in every position and order, unusable attributes and descriptions, bodies of other kinds; both legs, with and without media relaying',
     'A format slips through only in the second medium, in the answer, or when it is named in an unusual way, and a strange attribute ends the call handling; tests have one description with one medium.',
     ['sippy/b2bua.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpBody.py'],
     [('caller', 'sippy/b2bua.py:CallController.__init__'), ('called party', 'sippy/b2bua.py:CallController.placeOriginate'), ('policy', 'sippy/b2bua.py:CallController.filter_SDP'),
      ('names', 'sippy/SdpMediaDescription.py:SdpMediaDescription.getPTbyName'), ('descriptions', 'sippy/SdpMediaDescription.py:SdpMediaDescription.optimize_a')],
     'static abstract interpretation over texts with symbolic parts (own engine): the filters bound to the legs followed on tables of descriptions', SCN)
prop('B09', 'An option means the same however it is given',
     '''What the program serves with follows from its options alone: an option has the same effect given on the command line, by its short form or in a configuration
     file, and after the configuration was written by the program and read again; switched off, it is as if it were not there, and given twice the later counts, but lists that
     add up do. Values that are not of the kind or range an option takes are refused before anything is started. Addresses, limits, accounting, lists of headers, formats, addresses and relays, the helper proxy, the
     WSS socket, the UI and its parameters and the routine run before authentication come to what the documentation says, header names without regard to case.''',
     ['inputs', 'configurations'],
     'every documented option with values of each kind, in each way it can be given, alone, repeated and with a file before or after; wrong values; the parts the program is made of when it starts to serve, and what the routines do before authentication',
     'Options meet in one function that tests do not run; an option that is lost when it is read back from a file, or counts as on when it says off, shows only in that configuration.',
     ['sippy/MyConfigParser.py', 'sippy/b2bua.py', 'sippy/B2B/Transforms.py', 'sippy/UI/Controller.py'],
     [('options', 'sippy/MyConfigParser.py:MyConfigParser.check_and_set'), ('file', 'sippy/MyConfigParser.py:MyConfigParser.read'), ('start', 'sippy/b2bua.py:main_func'),
      ('routines', 'sippy/B2B/Transforms.py:getTransProc')],
     'static abstract interpretation (own engine): the start of the program followed for each way to give each option, the library parser as a table, the parts as objects', SCN)
prop('S05', 'The web UI does nothing for those who are not logged in',
     '''Whatever is asked of the web UI by somebody who is not logged in, in any order, neither shows nor changes what the program does: every address but those to log in and
     to set up the first user needs a login, only the name and password set up log in, a user can be set up once and nothing is served before, passwords are not kept
     as they are and sessions are signed with a random key. Those logged in get what they asked for and nothing else (the end of every call with the identifier and of no other, a restart,
     a stop, the numbers and list of calls), by the method announced. It is done in the thread of the event loop alone, and texts of callers are escaped in the pages.''',
     ['inputs', 'histories'],
     'every address registered, by every method; requests with and without user, password or body before and after each other; with nobody, the user and somebody else set up; calls that share an identifier',
     'One address without its guard, or a setup that looks at what was there at the start, shows only to who tries it; the calls looked at from the other thread change at a chance moment.',
     ['sippy/UI/Controller.py', 'sippy/UI/Lib.py', 'sippy/UI/Auth.py'],
     [('addresses', 'sippy/UI/Controller.py:UIController.run'), ('login', 'sippy/UI/Controller.py:UIController.api_login'), ('setup', 'sippy/UI/Controller.py:UIController.api_setup'),
      ('user', 'sippy/UI/Auth.py:Auth.verify'), ('thread', 'sippy/UI/Lib.py:InThreadCaller.__call__')],
     'static abstract interpretation (own engine): the thread of the UI followed with the web library as a recorder of addresses and guards, then each request', SCN)
prop('C10', 'A registration is kept up until it is stopped',
     '''While it is not stopped, every final answer to a registration request, whatever is in it, leads to exactly one further request: after a success at the latest when its own
     binding as the answer gives it runs out, after a failure within a minute or so, at once and with credentials for the challenge when there are some, at most three times in a row. Requests
     ask for the configured time and address, count up, have a branch of their own and stay of one call; credentials answer the latest challenge in the header meant for its kind, and
     no other is sent with them. Its user is told each success with the time of the next request and each failure once; once stopped nothing is sent or told any more.''',
     ['inputs', 'histories'],
     'sequences of up to five answers and later requests: provisional, successful with the time in each place or in none or unreadable and with several bindings, refused, both kinds of challenge with and without credentials, stopped at each point',
     'A registration is lost hours later, or after a particular order of challenges; no test has a registrar.',
     ['sippy/SipRegistrationAgent.py', 'sippy/SipWWWAuthenticate.py', 'sippy/SipContact.py'],
     [('answers', 'sippy/SipRegistrationAgent.py:SipRegistrationAgent.gotreply'), ('requests', 'sippy/SipRegistrationAgent.py:SipRegistrationAgent.doregister'),
      ('stop', 'sippy/SipRegistrationAgent.py:SipRegistrationAgent.stopregister')],
     'static abstract interpretation over texts with symbolic parts (own engine): the agent followed through every sequence of answers, requests compared as texts', SCN)
