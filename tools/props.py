"""What the properties are, for mk.py"""

BOUND = ('Seeded search, no proof: what it says is that none of the simulated runs of this tier broke the property. '
         'Trusts the simulator (sim/) and the reference model in the check. ')

PROPS = [
    dict(
        id='F01', title='The file storage is a dictionary that survives restarts',
        statement='After any sequence of writes, reads, deletes, listings, updates and clears through one handle on a '
                  'storage directory, with any number of restarts in between, every result is what a dictionary that '
                  'went through the same sequence would give. Distinct keys, whatever characters they contain, never '
                  'share an entry, and keys and values come back exactly as they were stored, whatever the clock or '
                  'the time stamp resolution of the file system did meanwhile.',
        over=['histories', 'inputs', 'configurations'],
        forall='all operation sequences (5-60), key sets incl. separators, dots, lock-like and non-ASCII names, value '
               'types per converter, restart points, clock steps, time stamp granularities of 1 ns to 2 s',
        why='The tests store a few plain keys in one order within one process; they can not vary clock, time stamp '
            'resolution or restart points.',
        files=['storage/abfile.py', 'storage/converter.py', 'storage/init.py'],
        mech=[('key to file name mapping', 'storage/converter.py QPKey'),
              ('cache invalidation by modification time', 'storage/abfile.py is_changed/_load'),
              ('rebuilding the cache from the directory', 'storage/abfile.py synch')],
        note=BOUND + 'Single handle at a time; faults are clock steps, coarse time stamps and restarts.'),
    dict(
        id='F02', title='Handles on the same storage directory always agree',
        statement='When several handles, in different processes, are open on one storage directory, an operation '
                  'through any of them sees the effect of every operation that had completed through any other. This '
                  'holds also when values are rewritten within one tick of the file system clock, keep their size, or '
                  'when clocks are stepped backwards in between.',
        over=['histories', 'schedules', 'configurations'],
        forall='all interleavings of completed operations over 2-4 handles, clock steps in both directions, time '
               'stamp granularities of 1 ns to 2 s, opening and reopening of handles at any point',
        why='The tests have one handle nearly everywhere and real time stamps; a stale cache only shows with certain '
            'orders of operations and time stamps.',
        files=['storage/abfile.py'],
        mech=[('change detection', 'storage/abfile.py is_changed'),
              ('strictly increasing modification times', 'storage/abfile.py _write_info'),
              ('forgetting what others removed', 'storage/abfile.py synch/_forget')],
        note=BOUND + 'Operations of different handles do not overlap in this one (F03 has those).'),
    dict(
        id='F03', title='Concurrent use of a storage directory is linearizable and makes progress',
        statement='Whatever way the operations of several processes on one storage directory overlap, the results are '
                  'those of some order of them that respects real time, for every entry. Reads return complete values '
                  'that someone wrote, no operation fails because of someone else\'s concurrent one, and every '
                  'operation completes once the others do.',
        over=['schedules', 'histories', 'configurations'],
        forall='all interleavings, at system call granularity, of 2-4 processes with up to 8 operations each, stalls '
               'of up to 10 s at any call, time stamp granularities, clock skew between processes',
        why='No test runs two processes; races need a switch between two particular system calls.',
        files=['storage/abfile.py'],
        mech=[('lock file per entry', 'storage/abfile.py _write_info/_read_info/_delete (FileLock)'),
              ('atomic replacement', 'storage/abfile.py _write_info'),
              ('entries vanishing while listed', 'storage/abfile.py synch/__getitem__')],
        note=BOUND + 'Linearizability checked per entry with a Wing-Gong search; scheduling points are the '
                     'intercepted file, lock and clock calls.'),
    dict(
        id='F04', title='A crash or power loss never damages a storage directory',
        statement='If a process dies, or the machine loses power, at any point of any operation, then after a restart '
                  'every entry has the complete value of either a completed write or the interrupted one, and nothing '
                  'that was acknowledged is lost, except that a power loss may undo directory changes not yet on '
                  'disc. The directory stays usable: no stuck lock, no left-over that is taken for an entry.',
        over=['crash_points', 'schedules', 'histories'],
        forall='all crash points at system call granularity incl. in the middle of a write, process crash and power '
               'loss with any admissible subset of unsynced data surviving, restarts and repeated crashes',
        why='A unit test can not kill the process between two system calls, let alone choose what the disc kept.',
        files=['storage/abfile.py'],
        mech=[('write to a temporary file, fsync, rename', 'storage/abfile.py _write_info'),
              ('locks that die with their process', 'storage/abfile.py FileLock'),
              ('lock-like names ignored when listing', 'storage/abfile.py synch/__len__')],
        note=BOUND + 'Power model: file data not fsynced may be lost, zeroed or torn; directory operations may be '
                     'lost as a suffix, in order.'),
    dict(
        id='F05', title='A failing system call fails one operation and nothing else',
        statement='When a system call fails (I/O error, full disc or quota, too many open files, out of memory, short '
                  'write) the storage operation either raises an error or completes correctly. An operation that '
                  'raised has either fully happened or not at all, for every entry, other handles and entries are '
                  'unaffected, and as soon as the failures stop everything works and reads return what is stored.',
        over=['fault_sequences', 'histories'],
        forall='all single and multiple injected failures (EIO, ENOSPC, EDQUOT, EMFILE, ENOMEM, short writes), at any '
               'call of any operation, one-off or lasting, over two handles',
        why='The tests never see a system call fail.',
        files=['storage/abfile.py'],
        mech=[('all-or-nothing writes', 'storage/abfile.py _write_info'),
              ('time stamp kept only after a successful read', 'storage/abfile.py _load'),
              ('errors are not absorbed as missing entries', 'storage/abfile.py synch')],
        note=BOUND + 'stat() is only ever failed with ENOENT; a listing made while reads fail may lack entries the '
                     'handle never read.'),
    dict(
        id='F06', title='Damage to one stored entry stays with that entry',
        statement='Whatever happens to one entry\'s file on disc (truncated, overwritten with garbage, emptied, '
                  'removed, replaced by a directory, edited by hand) all other entries stay readable, listable and '
                  'unchanged, and the storage can be opened. The damaged entry reads as what the file holds or as an '
                  'error, never as the old value or as someone else\'s, until it is written or deleted again, which '
                  'always works unless what is in the way is no file.',
        over=['fault_sequences', 'histories', 'inputs'],
        forall='all kinds of damage to any subset of entries between any two operations of two handles, with all '
               'value converters',
        why='The tests have one case of a damaged file, in a fresh directory, read once.',
        files=['storage/abfile.py', 'storage/converter.py'],
        mech=[('bad content is skipped entry by entry', 'storage/abfile.py synch'),
              ('change detection', 'storage/abfile.py is_changed')],
        note=BOUND + 'A file replaced by a directory is treated as an absent entry that can not be written.'),
    dict(
        id='L01', title='Stores with different labels that share a directory are separate',
        statement='Labelled stores kept in one directory or one process behave, each of them, as a dictionary of its '
                  'own: nothing written, removed, listed or counted through one label is ever visible under, or '
                  'changed through, another. This holds under concurrent use by several processes and across restarts.',
        over=['histories', 'schedules', 'configurations'],
        forall='all interleavings of operations by 1-3 processes over 1-4 labels incl. ones that are prefixes of each '
               'other, file based and in-memory',
        why='The tests use one label at a time and never compare with another one.',
        files=['storage/abfile.py', 'storage/extension.py', 'storage/init.py'],
        mech=[('label prefix on keys', 'storage/extension.py key_label'),
              ('filtering of listings', 'storage/abfile.py LabeledAbstractFileSystem')],
        note=BOUND + 'Labels without underscores.'),
    dict(
        id='Q01', title='The SQL storage maps each owner to its data, for all instances',
        statement='After any sequence of sets, updates, deletes, lookups and listings through any number of storage '
                  'instances on one data base, with restarts in between, every result is what one dictionary from '
                  'owner to data would give. Once an operation has returned its effect is seen by every other '
                  'instance and survives the end of the process. What can not be stored is refused and changes '
                  'nothing.',
        over=['histories', 'inputs'],
        forall='all operation sequences (8-50) over 1-3 instances and 1-5 owners incl. names with SQL meta '
               'characters, instance restarts at any point',
        why='The tests use one instance, where uncommitted changes look as if they were stored.',
        files=['storage/absqlalchemy.py', 'storage/db_setup.py'],
        mech=[('commit per operation', 'storage/absqlalchemy.py _execute')],
        note=BOUND + 'SQLAlchemy and SQLite are real and trusted.'),
    dict(
        id='Q02', title='SQL storage operations are atomic under failures and concurrency',
        statement='When operations on the SQL storage overlap, fail at a statement or at the commit, or their process '
                  'dies, each has either fully happened or not at all, and the results are those of some order of the '
                  'operations that respects real time. A failure never makes a later operation complete or undo an '
                  'earlier one, and never leaves the storage unusable.',
        over=['schedules', 'crash_points', 'fault_sequences', 'histories'],
        forall='all interleavings at statement granularity of 1-4 tasks with own or common instance, injected '
               'errors before and after statements and commits, crashes with restart, stalls while locks are held',
        why='The tests neither overlap operations nor let a statement fail.',
        files=['storage/absqlalchemy.py'],
        mech=[('one transaction, rolled back on failure', 'storage/absqlalchemy.py _execute'),
              ('session per thread', 'storage/absqlalchemy.py scoped_session')],
        note=BOUND + 'SQLite\'s own locking and recovery are real and trusted; waiting for locks is simulated.'),
    dict(
        id='X01', title='A context with persistent storage comes back the same after any restart or crash',
        statement='An entity context whose data and keys are kept in persistent storage has, after any number of '
                  'restarts and crashes at any point, its start included, exactly what had been stored through it: '
                  'every item with its last value, every owner with all its keys, each key once. Starting again '
                  'never adds, drops, replaces or duplicates keys that come from the configuration; a key added to '
                  'the configuration is added to those there are.',
        over=['crash_points', 'histories', 'configurations'],
        forall='all sequences of set, get, import of keys and restart (4-20) with 1-2 contexts of one entity open, '
               'crashes at any system call of any of them, keys configured as JWKS (with, without or with equal key '
               'ids, with keys added between starts), key file or not at all',
        why='The tests make a context once, in a fresh directory, and never start it again on what it left behind.',
        files=['context.py', 'storage/init.py', 'storage/abfile.py', 'storage/converter.py'],
        mech=[('keys imported only when the key jar lacks them', 'context.py OidcContext._keyjar'),
              ('storage made from configuration', 'storage/init.py storage_factory/init_storage'),
              ('key jar on top of a storage', 'context.py OidcContext.__init__')],
        note=BOUND + 'Not killed while cryptojwt itself writes the private key file.'),
    dict(
        id='X02', title='Entities that share a storage configuration never share keys or data',
        statement='When several entities, however similar their identifiers, use one storage configuration that has '
                  'the issuer in its directory names, each of them only ever reads what it stored itself: no item, '
                  'client or key of one entity is visible to, or changed by, another, also when all of them start, '
                  'work, crash and restart at the same time.',
        over=['schedules', 'crash_points', 'histories', 'configurations'],
        forall='all interleavings at system call granularity of 2-3 entities with similar names (trailing slash, '
               'case, port, path, query, percent sign, braces, what naive escaping maps to the same name), as '
               'processes with crashes and restarts or in one process with one configuration object',
        why='The tests have one entity.',
        files=['context.py', 'storage/init.py', 'storage/converter.py'],
        mech=[('issuer in directory names', 'storage/init.py init_storage'),
              ('own keys under the empty owner and the entity id', 'context.py OidcContext._keyjar')],
        note=BOUND + 'Entities with the same issuer are the same entity.'),
    dict(
        id='P01', title='No token counts as signed by someone who did not sign it',
        statement='Whatever an attacker who sees and changes all traffic does with ID tokens, ID token hints, logout '
                  'tokens and client assertions (altering, re-signing with other keys or algorithms, removing the '
                  'signature, mixing parts, replaying), a verification that succeeds means that the issuer named in '
                  'the token signed exactly this content with one of its own keys, with the algorithm the verifier '
                  'insists on if it does; the same is '
                  'true of the algorithms something is encrypted with. Unsigned tokens pass only where the verifier explicitly allowed them.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs', 'configurations'],
        forall='all runs of 1-4 sessions between 1-3 providers and 1-3 clients with similar identifiers, all flows, '
               'algorithms and verification options, up to 4 of 14 kinds of forgery at any message, messages lost, '
               'repeated, delayed, keys rotated in between',
        why='The tests verify tokens they have just made, one at a time, mostly with fitting keys.',
        files=['message.py', 'oidc/__init__.py', 'oidc/session.py', 'oauth2/__init__.py'],
        mech=[('signature and algorithm checks', 'oidc/__init__.py verify_id_token'),
              ('choice of keys', 'message.py Message.get_verify_keys'),
              ('parsing and verification of JWTs', 'message.py Message.from_jwt'),
              ('logout tokens', 'oidc/session.py BackChannelLogoutRequest.verify')],
        note=BOUND + 'The judge compares with a ledger of what was signed. Signature primitives are those of '
                     'cryptojwt. Where alg none is let through by design (JsonWebToken.from_jwt) the harness refuses it, '
                     'as a user has to.'),
    dict(
        id='P02', title='Tokens are only accepted by the party and in the session they were made for',
        statement='A verified authorization, token, logout or session message never carries a token of another issuer '
                  'than the expected one, for another audience or authorised party, with another nonce than the one '
                  'of this session, or (in an authorization response) whose at_hash or c_hash is missing or does not '
                  'match the access token or code sent with it, and never one that lacks a required claim. Logout tokens are accepted '
                  'only with exactly the back channel logout event, a sub or sid and no nonce. All of it holds whatever '
                  'other properly signed tokens and responses of other sessions, clients and providers are put in the '
                  'place of the right ones.',
        over=['histories', 'schedules', 'fault_sequences', 'configurations'],
        forall='all runs of 2-5 sessions between 1-3 providers and 1-3 clients with similar identifiers, exchanged, '
               'replayed and reordered messages and tokens, tokens with odd claims properly signed by a provider, any '
               'choice of what the client asks verify() to check',
        why='Mix-up needs several parties and sessions with messages crossing; the tests have one.',
        files=['oidc/__init__.py', 'oidc/session.py', 'oauth2/__init__.py', 'message.py'],
        mech=[('issuer, audience, azp', 'oidc/__init__.py IdToken.verify'),
              ('nonce and issuer', 'oidc/__init__.py IdToken.verify / AuthorizationResponse.verify'),
              ('at_hash and c_hash', 'oidc/__init__.py AuthorizationResponse.verify'),
              ('logout token rules', 'oidc/session.py LogoutToken.verify')],
        note=BOUND + 'What the client does not hand to verify() (iss, client_id, nonce) is not checked for it; a token '
                     'without a nonce passes, as the library leaves that to its user.'),
    dict(
        id='P03', title='What a message presents as verified was verified here',
        statement='After a message was received and its verification succeeded, the places where verified tokens are '
                  'kept that a message of its kind can carry (__verified_id_token, __verified_id_token_hint, '
                  '__verified_request, __verified_logout_token, verified_id_token_hint) have exactly the content of the token that was sent, properly signed, with '
                  'the message, and are absent if there was none. A sender can not fill them, neither directly nor '
                  'from within a signed request object, and a forged or unsigned token never ends up there.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 1-4 sessions with parameters of those names injected in urlencoded and JSON messages and in '
               'request objects, tokens removed, replaced, forged or unsigned, messages lost, repeated, delayed',
        why='The tests look at these members only where an honest sender did not send them.',
        files=['message.py', 'oidc/__init__.py', 'oidc/session.py', 'oauth2/__init__.py'],
        mech=[('received values are dropped', 'message.py / oidc/__init__.py clear_verified_claims'),
              ('filled after verification', 'oidc/__init__.py verify_id_token'),
              ('request objects', 'oidc/__init__.py AuthorizationRequest.verify')],
        note=BOUND + 'Only what is there after verify() returned True is looked at.'),
    dict(
        id='P04', title='Key rotation neither locks honest parties out nor lets retired keys in',
        statement='Whenever a provider rotates its keys, and whatever its JWKS end point does meanwhile (down, slow, '
                  'error pages, outdated content), a client accepts a token signed with a key it knows or can get at '
                  'that moment, and rejects one signed with a key it can not know. Once the end point works again '
                  'and clocks agree within the allowed skew, every session completes.',
        over=['schedules', 'fault_sequences', 'histories', 'configurations'],
        forall='all placements of up to 5 rotations and 3 end point outages of 6 kinds over 2-6 sessions, keys '
               'published before or after first use, lost and late messages, clock steps',
        why='The tests have one static key jar; rotation needs a history and a fake end point that fails in time.',
        files=['oidc/__init__.py', 'message.py', 'oidc/session.py'],
        mech=[('new keys are looked for when a signature names an unknown one', 'message.py Message.get_verify_keys'),
              ('what verification does with the key jar', 'oidc/__init__.py verify_id_token')],
        note=BOUND + 'The cache of the key jar (cryptojwt) is real; a client need not ask again within a second of a failure.'),
    dict(
        id='P05', title='Honest parties understand each other over a bad network',
        statement='Messages that honest parties make, send and verify with this library are accepted, and have the same content '
                  'at every party, however often they are passed on, copied and serialised (URL encoded in query, fragment or '
                  'body, JSON, signed JWT, encrypted JWT) on the way, or taken apart, put '
                  'together, weeded and extended by parties in between, in all ~68 kinds of OAuth2, OpenID Connect, session and '
                  'device messages tried, parameters with language tags included. With messages lost, repeated, late and out of order, clocks that differ by less than the '
                  'skew allowed for and keys rotated, every login, token, logout and session exchange completes.',
        over=['histories', 'schedules', 'fault_sequences', 'configurations', 'inputs'],
        forall='all runs of 0-3 sessions and up to 8 relayed messages of random kind, content and chain of serialisations '
               'over 2-6 parties, up to 5 network faults, clock skew and steps, key rotations, all flows, algorithms '
               'and options',
        why='The tests serialise and parse single messages of single classes; they have no session with several '
            'parties, clocks and retransmissions.',
        files=['message.py', 'oauth2/__init__.py', 'oauth2/device_authorization.py', 'oidc/__init__.py', 'oidc/session.py',
               'oidc/identity_assurance.py', 'time_util.py'],
        mech=[('serialisation and parsing', 'message.py Message.to_*/from_*'),
              ('making of ID tokens', 'oidc/__init__.py IdToken.pack/to_jwt'),
              ('verification of what arrives', 'oidc/__init__.py *.verify')],
        note=BOUND + 'Numbers and booleans become text when URL encoded, empty values are left out, lists in URL encoding '
                     'have no blanks in their items.'),
    dict(
        id='P06', title='A signed request object decides what was requested',
        statement='When an authorization request carries a request object (OpenID Connect request, JWT secured '
                  'authorization request, pushed authorization request) and is accepted, its parameters are those the '
                  'signer put in the object (for pushed ones, together with those outside it that the object does not '
                  'have), whatever was added, changed, left out, swapped or replayed around it or in it on the way, and '
                  'the object\'s signature is that of the party it names as issuer, and '
                  'it is encrypted with the algorithms the provider asks for, if it does. A request whose resulting '
                  'parameters break the rules of OpenID Connect (no openid scope, no nonce for implicit flows, offline '
                  'access without consent, prompt none with others) is not accepted.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 1-4 sessions with random parameters inside and outside the object, up to 3 attacks on '
               'parameters and object, messages lost, repeated, delayed',
        why='The tests check objects and parameters that agree with each other.',
        files=['oidc/__init__.py', 'oauth2/__init__.py', 'message.py'],
        mech=[('request object replaces the parameters', 'oidc/__init__.py AuthorizationRequest.verify'),
              ('JAR and PAR', 'oauth2/__init__.py JWTSecuredAuthorizationRequest/PushedAuthorizationRequest.verify'),
              ('making of request objects', 'oidc/__init__.py make_openid_request')],
        note=BOUND + 'Unsigned request objects are allowed (OpenID Connect Core 6.1), as are ones signed by another '
                     'party the provider knows, who is then named as issuer; that required parameters are '
                     'not in the object is for the provider to notice.'),
    dict(
        id='P07', title='A malformed message is never accepted',
        statement='A party never accepts (verify() is not true, or something is raised) a message that lacks a parameter its '
                  'class requires or has it empty or null, has a value of another type than declared (JSON, signed JWT, '
                  'encrypted JWT), has two values for a single-valued parameter (URL encoded), has a value that is not one of '
                  'those listed for it, is cut short or no object, or breaks a rule of OAuth2, OpenID Connect, session '
                  'management or identity assurance about its parameters (nonce with ID tokens from the authorization end '
                  'point, openid in scope, prompt none alone, https issuer, RS256 supported, alg with enc, birthdates, '
                  'characters of error descriptions, members of logout tokens, ...) - whether its sender made it so or it '
                  'became so on the way. The same message without the flaw is accepted, before and after.',
        over=['inputs', 'histories', 'schedules', 'fault_sequences'],
        forall='all runs of 2-12 messages of ~80 kinds with random contents and serialisation, each sent as it should be and '
               'with 1-4 flaws (missing, blank, wrong type, twice, rule broken, cut short, no object), repeated and in '
               'any order, between parties with clocks minutes apart',
        why='Every class has tables and rules of its own; the tests have a few wrong messages of a few classes, one '
            'serialisation each.',
        files=['message.py', 'oauth2/__init__.py', 'oauth2/device_authorization.py', 'oidc/__init__.py', 'oidc/session.py',
               'oidc/identity_assurance.py'],
        mech=[('types and required parameters', 'message.py Message._add_value/verify, c_param'),
              ('allowed values', 'message.py Message.verify, c_allowed_values'),
              ('rules per kind', '*/__init__.py *.verify')],
        note=BOUND + 'Numbers and booleans are text in URL encoded messages; one string counts as a list of one; nested '
                     'messages are only looked into where the class does; parameters nobody declared have no type; the '
                     'required parameters of pushed and JWT secured requests are up to the provider.'),
    dict(
        id='T01', title='ID tokens live from issue to expiry by the clock of the verifier',
        statement='An ID token made with a life time says it was issued when it was made and expires that much later, by '
                  'the clock of the provider. It is accepted as long as its expiry, plus the allowed clock skew, is '
                  'not in the past and its age is not more than the time nonces are stored for (plus skew) by the clock of '
                  'the party that verifies it, and never afterwards - whatever the time zone, daylight saving time, '
                  'clock differences and corrections, delays and repetitions on the way.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 1-4 sessions with random life times, skew and storage times, clocks hours apart that are set now and '
               'then, in time zones with and without daylight saving time, arrivals within a second of every limit',
        why='The tests verify tokens at the moment they were made, in the time zone of the developer.',
        files=['oidc/__init__.py', 'time_util.py', 'message.py'],
        mech=[('expiry and age checks', 'oidc/__init__.py IdToken.verify'),
              ('making of ID tokens', 'oidc/__init__.py IdToken, AuthorizationResponse'),
              ('clock', 'time_util.py utc_time_sans_frac')],
        note=BOUND + 'A token that claims to be issued in the future is not rejected by the library. The clock does not '
                     'move while one message is verified.'),
    dict(
        id='T02', title='Assertions and logout tokens are valid exactly in their time',
        statement='A client assertion is accepted from nbf (less the allowed skew) until exp (plus the allowed skew), it and a '
                  'logout token not before the time they say they were issued at (less the skew), by the clock of the '
                  'party that verifies it and by nothing else: not the time zone, not daylight saving '
                  'time, not the clock of the sender.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 1-4 sessions with random exp, nbf, iat and skew, clocks hours apart that are set now and then, in '
               'different time zones, arrivals within a second of every limit',
        why='The tests verify at the moment of making.',
        files=['oauth2/__init__.py', 'oidc/__init__.py', 'oidc/session.py', 'time_util.py'],
        mech=[('JSON web tokens', 'oidc/__init__.py JsonWebToken.verify'),
              ('logout tokens', 'oidc/session.py LogoutToken.verify'),
              ('clock', 'time_util.py utc_time_sans_frac')],
        note=BOUND + 'Logout tokens do not expire.'),
    dict(
        id='T03', title='Functions about time agree with the clock and each other everywhere',
        statement='The points in time that the functions of time_util make - now, in a while, a while ago, shifted, with a '
                  'duration added, parsed from text - denote the same instant in every time zone and in every '
                  'representation (seconds, text, structure), are what plain arithmetic with seconds gives, and compare with the present of '
                  'any party as its clock says, also when the process is held up between readings of the clock.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 2-4 parties in different time zones with skewed clocks that are set now and then, near changes of '
               'daylight saving time, years and leap days, with stalls between clock readings',
        why='The tests run in one time zone at one time, mostly at fixed points in time.',
        files=['time_util.py'],
        mech=[('comparisons', 'time_util.py before, after, valid, not_before, not_on_or_after, later_than'),
              ('making of time stamps', 'time_util.py in_a_while, a_while_ago, shift_time, epoch_in_a_while, '
                                        'instant, add_duration')],
        note=BOUND + 'Durations of 1 to 28 days (and years, months, hours, minutes, seconds) added to a time in the first 28 days '
                     'of a month: existing tests pin how the others are clamped.'),
    dict(
        id='T04', title='Time stamps about verified identities are the same instant for everyone',
        statement='A point in time in a message about identity verification (evidence, documents, verification element, '
                  'verified claims) is the same instant for every party it is passed on to, whatever the time '
                  'zones, daylight saving time and clocks of these parties and however often it is parsed, verified, copied and '
                  'serialised. A time stamp of now is the time it is, a date the local day.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'],
        forall='all runs of 2-4 parties in different time zones with clocks that are set, messages of 8 kinds with 1-5 points in '
               'time passed on up to 4 times in random serialisations, stalls between readings of the clock',
        why='The tests convert a time and back in one process in one time zone.',
        files=['oidc/identity_assurance.py'],
        mech=[('conversion', 'oidc/identity_assurance.py to_iso8601_2004, from_iso8601_2004'),
              ('serialisation', 'oidc/identity_assurance.py time_stamp_ser, date_ser')],
        note=BOUND + 'Whole seconds, offsets from UTC in whole minutes; an explicit time of 0 means now.'),
    dict(
        id='M01', title='Messages are isolated from each other and from other threads',
        statement='What a program does with one message - making it with default values, parsing, verifying (with whatever '
                  'result), serialising, copying, changing it or anything in it - has no effect on any other message '
                  'that does not share a value it was explicitly given, nor on the parameters, defaults and allowed '
                  'values of any message class: each thread of a process gets from its messages what it would get in a process of '
                  'its own, whatever the others do at the same time or did before, also when several read one message.',
        over=['histories', 'schedules', 'inputs'],
        forall='all runs of 2-4 threads with up to 12 operations each on messages of 65 classes with the same contents, '
               'pre-empted between any two lines of the library',
        why='The tests work with one message at a time, in one thread, and look at this message only.',
        files=['message.py', 'oauth2/__init__.py', 'oidc/__init__.py', 'oidc/identity_assurance.py', 'oidc/session.py'],
        mech=[('default values', 'message.py Message.__init__, set_defaults'),
              ('copies', 'message.py Message.copy'),
              ('tables of the classes', 'message.py c_param, c_default, c_allowed_values')],
        note=BOUND + 'A message that is changed belongs to one thread; values given to a message by the program are '
                     'not copied. Pre-emption is between lines of oidcmsg, not within libraries.'),
]

NA = [
    dict(
        id='N01', title='Serialization round trip of messages',
        statement='A message converted to a dictionary, JSON, URL encoding or JWT and back is the same message.',
        over=['inputs'], forall='all messages of all classes',
        why='There are more messages than a test can list.',
        files=['message.py'], mech=[('to_/from_ pairs', 'message.py Message')],
        reason='A pure function of its input: no schedule, clock, fault, crash or second party for it to depend on. '
               'What it means between parties over a faulty network is part of P05.'),
    dict(
        id='N03', title='Claims request matching',
        statement='Whether a set of claims satisfies a claims request (value, values, essential) is decided as the '
                  'specification says.',
        over=['inputs'], forall='all claims requests and claims',
        why='Combinatorial in the request.',
        files=['oidc/__init__.py'], mech=[('claims_match', 'oidc/__init__.py claims_match')],
        reason='A pure function of its two arguments: nothing for a simulator to schedule, delay or fail.'),
    dict(
        id='N04', title='Duration arithmetic',
        statement='Parsing an ISO 8601 duration and adding it to a point in time follows the calendar.',
        over=['inputs'], forall='all durations and points in time',
        why='The tests list a few durations.',
        files=['time_util.py'], mech=[('parse_duration, add_duration', 'time_util.py')],
        reason='A pure function of its arguments. Its independence of time zone and daylight saving time, and the calendar '
               'within 28 days, are part of T03.'),
    dict(
        id='N05', title='Paths in configurations',
        statement='Relative paths in a configuration are put below the base path, and only those; paths are written with "./" '
                  'and "/" around them.',
        over=['inputs'], forall='all configurations and base paths',
        why='The tests list a few.',
        files=['__init__.py'], mech=[('proper_path, add_base_path', '__init__.py')],
        reason='Pure functions of their arguments: nothing for a simulator to schedule, delay or fail.'),
]
