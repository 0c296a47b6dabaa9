# prop(id, title, statement, over, text, why, files, mech, claim=, na=, note=)
ENG = ('Path-sensitive abstract interpretation over the LLVM IR of the whole program (all 45 translation units, inlined, '
       'with indirect calls resolved through the slots of the program); assumes the models of glib/libc functions listed in DESIGN.md. ')
TODO = 'the static check for this property is not built yet'

prop('C01', 'No IRC line makes the program read an argument the line does not have',
     'Whatever line arrives from a server, a client or another peer, with any number of parameters and with or without a prefix, '
     'handling it never uses a parameter, a sender prefix or a piece of a split parameter that is not there. '
     'A line that is too short for its command is ignored or answered with an error; it never makes the process dereference an absent value.',
     ['inputs', 'histories'], 'all received lines, for every command, numeric and parameter count',
     'the tests send a handful of well-formed lines; the property is over every command with every parameter count, in every handler',
     ['libirc/state.c', 'libirc/line.c', 'libirc/redirect.c', 'src/client.c', 'src/network.c', 'src/ctcp.c', 'src/nickserv.c', 'libirc/client.c', 'daemon/main.c', 'daemon/backend.c'],
     [('per-command minimum parameter counts checked before dispatch', 'libirc/state.c:irc_commands, state_handle_data'),
      ('explicit parameter count checks in handlers', 'src/client.c:process_from_client'),
      ('argument vectors end in NULL', 'libirc/line.c:irc_parse_line')],
     claim='path-sensitive dataflow over LLVM IR with interprocedural parameter-count requirements',
     note=ENG + 'Requirements of callees on the parameter count are computed to a fixpoint and must be implied at every call site, command tables included.')

prop('C02', 'Failed lookups and absent optional values are never dereferenced',
     'When a channel, nick, client, network, setting, configuration key or other entry that is looked up does not exist, or an optional value is not set, '
     'the operation that wanted it is skipped or reports the problem. No combination of configuration, state and input makes the process use the missing entry.',
     ['inputs', 'histories', 'configurations'], 'every lookup that can fail, on every path that follows it',
     'tests look up things that exist; each lookup has to be followed on the path on which it fails',
     ['libirc/state.c', 'libirc/linestack.c', 'src/admin.c', 'src/settings.c', 'src/network.c', 'src/listener.c', 'src/main.c', 'daemon/user.c', 'daemon/main.c'],
     [('lookups return NULL and callers test the result', 'libirc/state.c:find_channel, find_network_nick; src/settings.c'),
      ('optional fields tested before use', 'src/settings.c, src/network.c')],
     claim='path-sensitive nullness dataflow over LLVM IR with interprocedural summaries',
     note=ENG + 'Sources are failing lookups, NULL constants and a declared list of optional members (sa/rules/nullprops.py).')

prop('C03', 'Every callback that is invoked without a test is provided by every implementer',
     'Each table of operations (connection callbacks, client callbacks, transport operations, linestack backends, listener operations) '
     'provides every operation that the core invokes without first testing for it. No implementation of an interface can be selected that crashes on an operation the core relies on.',
     ['configurations', 'programs'], 'all implementers of each callback interface, against all unconditional uses of each operation',
     'tests exercise the implementers they build; the defect is an implementer/use pair that no test combines',
     ['libirc/client.h', 'libirc/transport.h', 'libirc/connection.h', 'libirc/listener.h', 'src/client.c', 'daemon/backend.c', 'daemon/client.c'],
     [('callback structures', 'libirc/client.h:struct irc_client_callbacks, libirc/transport.h:struct irc_transport_ops')],
     claim='slot analysis of constant callback tables + path-sensitive nullness at indirect calls',
     note=ENG + 'Slots left NULL by a table are computed from the table initialisers on every run.')

prop('C04', 'Data from peers never overruns a fixed-size buffer',
     'No message from a peer, whatever lengths it announces and whatever its content, makes the process write outside a fixed-size array or copy a string into it without room for it and its terminator. '
     'This includes the SOCKS handshake, channel and nick mode handling, and address handling.',
     ['inputs'], 'all received bytes, all announced lengths, all mode characters',
     'tests use short well-formed messages; overruns need lengths or characters at the extreme of their range',
     ['libirc/listener.c', 'libirc/state.c', 'libirc/isupport.c', 'daemon/main.c'],
     [('bounds checks before each indexed or counted write', 'libirc/listener.c, libirc/state.c')],
     claim='interval and string-length dataflow over LLVM IR with extents of parameters propagated to their callers',
     note=ENG + 'Objects are arrays with a size fixed by their type; blocks allocated with a computed size are covered where position and size are comparable (counted in the evidence).')

prop('C05', 'A client gets nothing before it has presented the right password',
     'When a password is configured that applies to a listener (of its own, in its allow rules, or the global one), a connection to it becomes a client of the proxy, and a SOCKS connection request is honoured, only after a password it presented was compared equal to such a configured password as a whole. '
     'No order of handshake messages and no choice of SOCKS method gets around that comparison; without any configured password everybody is let in.',
     ['inputs', 'histories', 'configurations'], 'all sequences of handshake lines and SOCKS messages, over all listener configurations',
     'tests cover the right and the wrong password in the usual order only; a bypass is an unusual order or combination',
     ['libirc/listener.c', 'src/listener.c'],
     [('pending client state machine', 'libirc/listener.c:handle_client_receive, handle_client_socks_data'), ('password comparison', 'src/listener.c:listener_check_username_password')],
     claim='guarded-action analysis (interprocedural facts and demands)', note=ENG + ' Demands: attaching a client, SOCKS state NORMAL, choice of a SOCKS method. The client on standard input (main) is exempt.')

prop('C06', 'The daemon forwards nothing before the backend accepted the password',
     'The multi-user daemon sends nothing but the password over the connection to a user\'s proxy process, and lets no SOCKS client through, before that proxy process answered on that connection that the password of this client is accepted. '
     'A refused, failed or unfinished check leaves the client unattached.',
     ['inputs', 'histories', 'fault_sequences'], 'all client line sequences and all outcomes of the password check',
     'the daemon has no unit tests; the property is over all orders of client input and asynchronous authentication results',
     ['daemon/main.c', 'daemon/backend.c', 'daemon/client.c', 'libirc/listener.c'],
     [('answer of the backend', 'daemon/backend.c:daemon_backend_recv'), ('forwarding', 'daemon/main.c:daemon_client_recv, daemon/client.c:daemon_client_forward_credentials')],
     claim='guarded-action analysis (interprocedural facts and demands)', note=ENG + ' Demands: every send over daemon_backend.transport other than PASS, setting daemon_backend.authenticated, SOCKS state NORMAL.')

prop('C08', 'Lines queued for a peer are written in order, each exactly once',
     'Lines that cannot be written at once are queued and written later in the order they were submitted; while older lines or bytes wait, a new line never overtakes them. '
     'A line leaves the queue exactly when it was written or can never be (conversion or connection failed), and is written completely or not at all. '
     'Exactly one write event is pending, and noted, while anything waits; disconnecting does not drop what waits (releasing the transport does).',
     ['schedules', 'fault_sequences', 'histories'], 'all interleavings of submitting lines with writes that succeed, block or fail',
     'tests never make a write block; the property is over all patterns of blocked and failed writes',
     ['libirc/transport_ioc.c', 'libirc/line.c'],
     [('pending line queue and write event', 'libirc/transport_ioc.c:irc_transport_iochannel_send_line, transport_send_queue'),
      ('closing waits for the queue', 'libirc/transport_ioc.c:irc_transport_iochannel_disconnect'),
      ('writing one line', 'libirc/line.c:irc_send_line')],
     claim='path-sensitive typestate of the line being sent, the queue, the buffer and the write event over LLVM IR',
     note=ENG + 'GLib semantics assumed: a buffered non-blocking channel takes a line completely when its buffer is empty and larger than the line; the event of a handler is not ended by others.')

prop('C10', 'Settings that are saved are the settings that are loaded',
     'Every configuration key that the program writes is read back from the same group under the same name, with the same type and into the same setting. Every setting that is read and can be changed at run time, '
     'or that is moved from an old place in the file, is written when the configuration is saved. Whenever the configuration is saved, the key of each such setting is set, or removed, or was absent, so that a setting that is changed back or unset does not come back.',
     ['configurations', 'histories'], 'all settings, all groups, all ways of changing a setting at run time',
     'tests check a few keys; the property is agreement of the complete set of saved and loaded keys, on all paths of saving',
     ['src/settings.c', 'src/admin.c'],
     [('load functions', 'src/settings.c:load_configuration, config_load_*'), ('save functions', 'src/settings.c:save_configuration, config_save_*')],
     claim='comparison of the key tables extracted by interpretation of the saving and loading code, and a path-sensitive typestate per key that is saved, over LLVM IR',
     note=ENG + 'About the key files (config, networks/*, listener); the line formats of the keys and nickserv files are not covered. Members that only the loading code sets need not be removed from the file.')

prop('C11', 'Files holding secrets are created readable by their owner only',
     'Configuration, password and key files, UNIX domain sockets and all directories that the program creates are created with permissions that exclude other users. '
     'At no point between creation and completion is such a file accessible to others, nor is it made accessible later.',
     ['configurations', 'crash_points'], 'every place that creates a file or directory, and every later permission change',
     'tests do not look at permissions, nor at the time between creation and chmod',
     ['src/keyfile.c', 'src/settings.c', 'src/util.c', 'src/tlscert.c', 'src/main.c', 'src/listener.c', 'src/admin.c', 'libirc/linestack.c'],
     [('mode arguments of file creation', 'src/keyfile.c, src/tlscert.c')],
     claim='guarded-action analysis (modes and umask at every creating call)', note=ENG + ' Every call that creates something in the file system is enumerated; what is not listed as public must exclude others.')

prop('C12', 'Replies from the server go to the client that asked',
     'Each query that the proxy tracks is listed with the replies that can follow it, and a reply that ends a query in progress removes that query, while replies in the middle keep it. '
     'A reply that belongs to a query of one client is delivered to that client alone, and not remembered for the others; of several queries it is the oldest that a reply belongs to, and a query keeps its client alive until it is removed.',
     ['inputs', 'histories'], 'all replies and all sets of outstanding queries of several clients',
     'tests cover a few query/reply pairs with one client',
     ['libirc/redirect.c', 'src/redirect.c'],
     [('table of queries', 'libirc/redirect.c:queries'), ('query stack', 'libirc/redirect.c:query_stack_*'), ('delivery', 'src/redirect.c:redirect_response'), ('noting', 'src/network.c:network_forward_line')],
     claim='table lint against RFC 1459/2812 and path-sensitive typestate of query entries over LLVM IR',
     note=ENG + 'Replies that the RFCs do not know may be listed anywhere. Queries that get no reply at all stay until a later reply that fits; nothing here bounds that.')

prop('C13', 'Any capability announcement of a server is survived',
     'Whatever tokens a server announces as its capabilities (known or unknown names, with a value, with an empty value, without a value, negated, or with fewer or more components than expected), they are parsed without using a value or a component that is not there.',
     ['inputs'], 'all capability tokens, for every known name',
     'tests announce well-formed tokens; each known name has to be considered without a value and with short values',
     ['libirc/isupport.c', 'libirc/isupport.h'],
     [('parsing of one token', 'libirc/isupport.c:network_info_parse')],
     claim='path-sensitive nullness and vector-length dataflow over LLVM IR',
     note=ENG + 'Restricted to the code of the capability parser; vectors from g_strsplit carry symbolic lengths.')

prop('C16', 'With certificate verification on, no data flows over an unverified TLS link',
     'When TLS is configured for a connection, data is exchanged over it only through the TLS session, and only after its handshake completed; when credentials with a CA file are used for a connection to a server, also only after the certificate chain and the host name were verified for that handshake. '
     'This holds again after each renegotiation, and after a read or write that failed.',
     ['configurations', 'fault_sequences', 'schedules'], 'all handshake and verification outcomes, on all read and write paths',
     'no test makes a TLS handshake fail',
     ['libirc/gnutls.c'],
     [('handshake and verification on first use', 'libirc/gnutls.c')],
     claim='guarded-action analysis (interprocedural facts and demands)', note=ENG + ' Demands: gnutls_record_*, marking a session established, using a connection for which TLS is configured. Whether GnuTLS verifies correctly is assumed.')

prop('C18', 'Text from peers or configuration is never used as a format string',
     'Every formatted message the program produces uses a format fixed in the source, whose conversions agree in number, order and type with the values passed, also where the format is passed through the program\'s own wrappers. '
     'Text received from a peer or read from a file only ever appears as an argument.',
     ['inputs', 'programs'], 'all call sites of formatting functions and of wrappers around them',
     'a format defect shows only when the text happens to contain a conversion, or as garbage output in a rarely used message',
     ['src/admin.c', 'libirc/client.c', 'libirc/line.c', 'libirc/connection.c', 'src/log_support.c', 'src/util.c'],
     [('variadic wrappers', 'libirc/line.c:irc_parse_line_args, libirc/client.c:client_send_response, src/admin.c:admin_out, src/log_support.c')],
     claim='format-provenance dataflow over LLVM IR + type agreement via generated format attributes',
     note='Every call of a formatting function or wrapper (wrappers found by dataflow from va_list/format parameters) must receive a constant format; conversions and argument types are then checked by clang with generated attributes; '
          'assumes the list of libc/glib printf-like functions.')

prop('C19', 'Text from peers cannot choose a file outside its directory',
     'Where a file or directory name is made from text that a server, another user or a client that has not logged in controls (channel and nick names, messages, the user name of a login), '
     'directory separators in that text never reach the file system as separators, and the text cannot be "." or "..". '
     'Names from the configuration, the system and the administration commands of the owner are not restricted.',
     ['inputs', 'configurations'], 'all texts of peers, all places that make a file name',
     'tests log for ordinary names only; the property is over every name and every route from a peer to a file system call',
     ['src/log_custom.c', 'src/log_subst.c', 'src/log_support.c', 'libirc/linestack.c', 'src/settings.c', 'daemon/user.c', 'daemon/main.c'],
     [('separator replacement', 'src/log_subst.c:custom_subst'), ('directory of a user of the daemon', 'daemon/user.c:get_daemon_user')],
     claim='provenance (taint) dataflow of file names over LLVM IR with recognition of sanitising loops and context-sensitive summaries',
     note=ENG + 'Which structures hold text of the owner or the system (the configuration, network names, user database entries) is a list in the rule; characters that are computed are not followed.')

prop('C23', 'An entry is removed from every list that holds it before it is gone',
     'When a client, connection request, channel, nick, ban list entry, listener, network, query, hook, configuration entry or client of the daemon goes away, it is taken out of every list of the program it was put into. '
     'No later event finds a released entry, or a client that has disconnected, in such a list.',
     ['histories', 'schedules'], 'all orders of creation, lookup and removal of entries, and every path of the functions that end one',
     'tests free whole structures at exit; a dangling entry needs a later event to be noticed',
     ['libirc/state.c', 'libirc/listener.c', 'libirc/client.c', 'libirc/redirect.c', 'src/client.c', 'src/network.c', 'src/listener.c', 'src/hooks.c', 'src/settings.c', 'daemon/client.c'],
     [('removal from lists in the functions that end an entry', 'libirc/state.c:free_channel_nick, free_network_nick; libirc/listener.c:kill_pending_client; libirc/client.c:client_disconnect; src/network.c:unload_network')],
     claim='path-sensitive membership typestate of list entries over LLVM IR with inferred registries and interprocedural release/removal summaries',
     note=ENG + 'Lists are GList/GSList members, globals and lists passed by address; what they hold is read from the insertions. Pointers from one entry to another are outside, and so are entries held in hash tables.')

prop('C26', 'Released memory is never used again or released twice',
     'On no path through the handling of one event is a line, string, list element, client, transport, connection or settings object used after the program released it, nor is it released a second time.',
     ['inputs', 'histories', 'fault_sequences'], 'all paths of every event handler, including the error paths',
     'memory errors sit on the error and disconnect paths which the tests do not take',
     ['libirc/connection.c', 'libirc/transport_ioc.c', 'libirc/client.c', 'libirc/listener.c', 'src/network.c', 'src/settings.c', 'daemon/main.c'],
     [('ownership conventions of free functions and reference counts', 'libirc/transport.c, libirc/client.c')],
     claim='path-sensitive release typestate over LLVM IR with interprocedural release/reference/dangling-member summaries',
     note=ENG + 'Releases hidden behind an indirect call are those that all its targets perform; objects released through another alias (a back pointer) are not related to each other; elements of lists are outside.')

prop('C27', 'Timers and event sources are removed before what they refer to is freed',
     'Every periodic timer, input watch and other event source that is registered with a pointer to an object is removed before that object is released. '
     'No source fires for an object that no longer exists.',
     ['schedules', 'histories'], 'all registrations of event sources, against all releases of the object they carry',
     'tests end before a stale source could fire',
     ['libirc/connection.c', 'libirc/client.c', 'libirc/transport_ioc.c', 'libirc/listener.c', 'src/auto_away.c', 'src/settings.c', 'src/main.c', 'daemon/main.c'],
     [('source ids stored in the object and removed on close', 'libirc/connection.c, libirc/transport_ioc.c')],
     claim='path-sensitive typestate of source ids with state invariants and interprocedural effects',
     note=ENG + 'Logging is taken not to open or close connections. The data of watches that are never removed by the program (admin socket, daemon sockets) is not released by it. Three configuration/admin functions are not explored completely.')

prop('C28', 'A failed write to disk is reported, not dropped',
     'When storing the configuration, a log, the replay history or another file fails, at any step, the failure is reported to the caller, the user or the log. '
     'No success is reported for data that was not written. (The general log itself, which is where failures are reported, is the one exception.)',
     ['fault_sequences', 'crash_points'], 'every file operation, each failing at any step',
     'tests run on a disk that works',
     ['src/settings.c', 'src/keyfile.c', 'libirc/linestack.c', 'src/log_support.c', 'src/tlscert.c', 'src/nickserv.c'],
     [('checked results of file operations', 'src/settings.c:save_configuration, libirc/linestack.c:file_*')],
     claim='path-sensitive typestate of the results of writes over LLVM IR, with failures handed from callee to caller', note=ENG + 'Failures are the failing results of libc and glib as documented; which translation units write files is a list in the rule.')

prop('C30', 'The daemon drops its privileges completely before running as a user',
     'A process that a daemon running as root starts on behalf of a system user has changed to the group, the supplementary groups and, last, the user id of that user, with every step checked, before it executes anything for that user. '
     'If a step fails the process ends.',
     ['fault_sequences', 'configurations'], 'all paths from fork to exec, with every privilege call failing',
     'needs root and failing system calls',
     ['daemon/user.c', 'daemon/main.c'],
     [('setuid in the child set-up', 'daemon/user.c')],
     claim='guarded-action analysis (interprocedural facts and demands)', note=ENG + ' Demands: returning from a function handed to g_spawn_*, and any other way of executing a program, in the daemon.')

prop('C34', 'Cached answers are given only from state known to be current',
     'The proxy answers a client\'s query (MODE, NAMES, TOPIC, WHO) itself only when the cache is enabled and the network connected, for a single channel it is on, '
     'from data the server has sent completely (the end of a list or the reply was seen and the list is not just being sent again), and information on users only while '
     'what is known of every user in the channel is not older than the configured age. Otherwise, and only then, the query is passed on to the server.',
     ['histories', 'inputs'], 'all queries in every state of the network state',
     'tests do not query while state is incomplete',
     ['src/cache.c', 'src/client.c', 'libirc/state.c'],
     [('completeness flags on channels and nicks', 'src/cache.c')],
     claim='guarded-action analysis (interprocedural facts and demands)', note=ENG + ' Demands: each kind of answer, the result of every function of the table of cached commands, and every store that marks data as complete.')

prop('C35', 'Services passwords are sent only to services',
     'A services password that the proxy stores leaves it only in a message addressed to the services nick on the network it was stored for (or on any if it was stored for all), and it is the one that was stored for the nick it is looked up for. It appears in no log message and is learned only from what the proxy\'s own clients send.',
     ['inputs', 'histories'], 'all notices from all senders',
     'tests send one notice from services',
     ['src/nickserv.c'],
     [('sender and nick check', 'src/nickserv.c')],
     claim='guarded-action analysis and taint over LLVM IR', note=ENG + ' Sources: the password member of services entries; sinks: every call and store outside a list of string functions.')

for i, t, s, r in [
    ('N01', 'What a client is replayed equals what happened while it was away',
     'A client that attaches is replayed the lines it missed, in order, and a state equal to the one the server holds.',
     'equality of replayed and lived history quantifies over the content and order of runtime data; no static argument in reach bounds it'),
    ('N02', 'Stored history is read back as it was written',
     'Network state and lines written to the history file are read back equal to what was stored.',
     'inversion of the encoding is a relation between runtime byte strings; a static check could only compare field lists, which is not the property'),
    ('N03', 'Nicks and channels are compared by the casemapping of the network',
     'Two names are treated as the same exactly when they are equal under the casemapping the server announced.',
     'correctness of the comparison functions is a property of values; the choice of comparison at each site needs a specification per site which the code does not fix (some literal comparisons are right)'),
    ('N04', 'Reconnection, queue speed and ping timing',
     'A lost connection is retried after the configured interval, lines leave at the configured speed, and a silent server is detected within the timeout.',
     'real time and liveness; the static analysis orders events but does not bound time'),
    ('N05', 'Character set conversion preserves text',
     'Text converted to the server character set and back is unchanged.',
     'conversion tables are inside glib/iconv; value equality of runtime strings'),
]:
    prop(i, t, s, ['histories', 'inputs'], 'all histories', 'quantifies over all runtime data', ['libirc/linestack.c', 'libirc/state.c', 'libirc/isupport.c', 'libirc/connection.c'],
         [('the code concerned', 'libirc/')], na=r)
