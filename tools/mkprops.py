"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True, na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, na=na, note=note))


prop('C01', 'Setting a header flag changes exactly that flag',
     'Setting a flag of a frame header, directory entry or timestamp to one of its documented values makes reading that flag back give the same value, and leaves every other bit of the header as it was. '
     'Setting an unknown flag or value reports an error, changes nothing and does not end the program. Reading a flag never panics, whatever the header holds.',
     ['inputs'], 'all 32 bit headers (16 bit directory entry and 8 bit timestamp headers), all flag names and value names, known or not',
     'The existing tests set a handful of flags on one header; the property quantifies over 2^32 headers and every pair of flags.',
     ['sarflags/sarflags.go'], [{'name': 'Set, Get, GetStr, SetD, GetD, GetDStr, SetT, GetT, GetTStr, NameT', 'where': 'sarflags/sarflags.go'}])
prop('C02', 'The shipped flag table is the documented wire format',
     'With the configuration the program ships with, every header field is at the documented bit position and width with the documented numbers for its values, no two fields that occur in one frame overlap, and every field fits its header, '
     'so that two peers with the same release agree on every header bit.',
     ['inputs'], 'every field and value of the shipped configuration and every frame type',
     'Tests look at single flags; agreement with the format and absence of overlap is over all pairs of fields in all frame types.',
     ['saratoga/saratoga.json', 'sarflags/sarflags.go'], [{'name': 'ReadConfig, Flags, DirentFlags, TimeStamps', 'where': 'sarflags/sarflags.go'}])
prop('C03', 'Data frames round-trip exactly',
     'A data frame that is encoded decodes to the same header, session, timestamp, offset and payload, and its bytes are the documented layout with nothing added. '
     'A value that does not fit the descriptor is an error, never silently truncated, and a decoded payload does not share memory with the receive buffer.',
     ['inputs'], 'all headers, sessions, timestamps, 64 bit offsets and payloads of any length',
     'Tests sample a few frames; truncation at descriptor widths, timestamp presence and payload length need every combination.',
     ['data/data.go', 'timestamp/timestamp.go'], [{'name': 'Data.Encode, Data.Decode', 'where': 'data/data.go'}])
prop('C04', 'Status frames round-trip exactly, holes included',
     'A status frame that is encoded decodes to the same header, session, timestamp, progress, in-response-to and the same list of holes in the same order, and its bytes are the documented layout with nothing added. '
     'A status with a number that does not fit the descriptor is an error, never silently truncated; decoding into a used status keeps nothing of the old one.',
     ['inputs'], 'all headers, sessions, timestamps, 64 bit progress values and hole lists of any length',
     'A receiver asks again for exactly the holes it lists; tests sample few lists at one descriptor width.',
     ['status/status.go', 'timestamp/timestamp.go'], [{'name': 'Status.Encode, Status.Decode', 'where': 'status/status.go'}])
prop('C05', 'Beacons round-trip exactly',
     'A beacon that is encoded decodes to the same header, free space and endpoint identifier, and its bytes are the documented layout with nothing added. '
     'Free space that does not fit its descriptor is an error, never silently truncated; a beacon too short for its header is refused.',
     ['inputs'], 'all headers, 64 bit free space values, endpoint identifiers of any length, all byte strings',
     'Presence and width of the free space field depend on two header fields; tests sample one or two combinations.',
     ['beacon/beacon.go'], [{'name': 'Beacon.Encode, Beacon.Decode', 'where': 'beacon/beacon.go'}])
prop('C06', 'Requests round-trip exactly',
     'A request that is encoded decodes to the same header, session, file name and authentication bytes. A file name that cannot be carried (one with a NUL) is an error; a request without a terminated name is refused; '
     'decoded authentication bytes do not share memory with the receive buffer.',
     ['inputs'], 'all headers, sessions, file names and authentication strings of any length, all byte strings',
     'Where the name ends and the authentication begins depends on every byte; tests use one or two names.',
     ['request/request.go'], [{'name': 'Request.Encode, Request.Decode', 'where': 'request/request.go'}])
prop('C07', 'Metadata and directory entries round-trip exactly',
     'A metadata frame that is encoded decodes to the same header, session, checksum bytes and directory entry (properties, size, times, path), and its bytes are the documented layout. '
     'A size that does not fit its descriptor, or a path that is too long or has a NUL, is an error, never silently truncated; truncated frames are refused.',
     ['inputs'], 'all headers, sessions, checksums, sizes, paths and times the format can carry, all byte strings',
     'Checksum length, size width and path length all move later fields; tests do not cover the combinations.',
     ['metadata/metadata.go', 'dirent/dirent.go', 'timestamp/timestamp.go'], [{'name': 'MetaData.Encode, MetaData.Decode', 'where': 'metadata/metadata.go'}, {'name': 'DirEnt.Encode, DirEnt.Decode', 'where': 'dirent/dirent.go'}])
prop('C08', 'No datagram can crash the receiver',
     'Decoding any byte string as any frame type ends with a decoded frame or an error: it never panics, never reads outside the datagram and never ends the program, and an accepted frame has exactly the fields the bytes give. Printing a frame, whatever it holds, never panics and leaves it as it is.',
     ['inputs'], 'all byte strings of any length, for every frame type',
     'The hostile inputs are those nobody thought of; a test suite samples, a single index out of range takes the node down.',
     ['beacon/beacon.go', 'request/request.go', 'metadata/metadata.go', 'dirent/dirent.go', 'data/data.go', 'status/status.go', 'timestamp/timestamp.go'],
     [{'name': 'Decode of every frame type, Timestamp.Get', 'where': 'beacon, request, metadata, dirent, data, status, timestamp'}])
prop('C10', 'Timestamps denote the time they were made from',
     'A timestamp made of a time in one of the supported types carries exactly that time at the resolution of its type, and making it fails when the time is outside the range of the type. '
     'Writing a timestamp and reading it back gives the same timestamp; reading a short or unknown one is an error.',
     ['inputs'], 'all instants, all timestamp types, all byte strings',
     'The boundaries (1970, 2000, 2106, sub-second part, 32 bit overflow) are points among 2^64 instants that tests do not enumerate.',
     ['timestamp/timestamp.go'], [{'name': 'Timestamp.New, Put, Get', 'where': 'timestamp/timestamp.go'}])
prop('C09', 'Holes are exactly the bytes not received',
     'Adding a received range to the list of received ranges makes the bytes covered exactly the bytes covered before plus that range, whatever the order, overlap or repetition of arrivals; the list stays sorted, disjoint and merged. '
     'The holes worked out from it are, in order, exactly the missing ranges below the highest byte received: no missing byte is left out and no received byte is asked for again.',
     ['inputs', 'histories'], 'all lists of ranges reachable by any history of additions, all ranges, any number of holes',
     'The number of histories of overlapping arrivals is unbounded; tests follow one or two of them.',
     ['holes/holes.go'], [{'name': 'Holes.Add, Holes.Getholes, optimise', 'where': 'holes/holes.go'}])
prop('C11', 'A frame built from a flag string has exactly those flags',
     'Building a data, status, request, metadata or beacon frame, or a directory entry, from a flag string gives a header with the version and frame type of that frame and every flag of the string at its value (the last one given wins), and no other bit changed, except that a beacon announcing its free space has the descriptor that fits it and a checksum type brings its length. '
     'A string with a malformed entry, or a flag or value the frame does not have, is an error and never a panic. Building a frame from a header gives that header with the version and frame type of the frame. Metadata and directory entries are made whenever the flags are good and suit a file that is there, unless the file system fails. A flag added to a flag string comes after those there are, and the value looked up in a flag string is that of an entry of that name, never a panic.',
     ['inputs'], 'all flag strings with any number of entries, valid or not, and all headers',
     'The flags are combined in a loop over a string of any length; tests give a few well formed strings.',
     ['data/data.go', 'status/status.go', 'request/request.go', 'beacon/beacon.go', 'metadata/metadata.go', 'dirent/dirent.go', 'sarflags/sarflags.go'],
     [{'name': 'Data.New/Make, Status.New/Make, Request.New/Make, Beacon.New/Make, MetaData.New/Make, DirEnt.New', 'where': 'data, status, request, beacon, metadata, dirent'}])
prop('C12', 'A frame carries the values it was built from',
     'A data, status, request or beacon frame built with New or Make carries exactly the session, offset, payload, progress, in-response-to, holes, file name, authentication, endpoint identifier and free space it was given, whatever the frame held before, '
     'and has a timestamp of the announced type when its header says so. '
     'Metadata and directory entries carry the path, kind, size and times of the file they were made for, with a descriptor the size fits.',
     ['inputs'], 'all values of all fields, payloads, hole lists and names of any length, all previous contents of the frame',
     'Field mix-ups and leftovers of a reused frame show only for particular values and histories.',
     ['data/data.go', 'status/status.go', 'request/request.go', 'beacon/beacon.go', 'metadata/metadata.go', 'dirent/dirent.go'],
     [{'name': 'Data.New/Make, Status.New/Make, Request.New/Make, Beacon.New/Make, MetaData.New/Make, DirEnt.New', 'where': 'data, status, request, beacon, metadata, dirent'}])
prop('C13', 'A file name never leads out of the Saratoga directory',
     'Whatever a file name sent by a peer holds (.. elements, slashes, absolute paths), asking whether it exists, opening, creating, removing, examining, summing it or describing it in a directory entry or metadata acts on the file of that name with the Saratoga directory as root, '
     'and on nothing else: no file outside the Saratoga directory is read, created, changed or removed, and no other file inside it is changed or removed. A file that is there can be removed, unless the file system refuses.',
     ['inputs'], 'all file names, all transfer types, all contents of the file system',
     'A traversal needs one string out of infinitely many; tests use a few harmless names.',
     ['fileio/fileio.go', 'fileio/checksum.go', 'dirent/dirent.go', 'metadata/metadata.go'],
     [{'name': 'FileExists, FileOpen, FileRm, FileDelete, FileMeta, Checksum', 'where': 'fileio'}, {'name': 'DirEnt.Statfile, DirEnt.New, MetaData.New, MetaData.Make, statfile', 'where': 'dirent, metadata'}],
     note='Symbolic links inside the Saratoga directory are followed by the operating system and not covered.')
prop('C14', 'Getting a file never overwrites one',
     'Opening a local file to receive into (get, take, getdir) when a file or directory of that name exists is refused and leaves it as it was; otherwise the file opened is new and empty. '
     'Opening a file to send (put, give) succeeds only if it exists and never changes it. An unknown transfer type opens nothing; everything else is refused only when the file system fails.',
     ['inputs'], 'all names, all transfer types, all states of the file system',
     'Tests try one name in one state of the directory.',
     ['fileio/fileio.go'], [{'name': 'FileOpen, FileExists', 'where': 'fileio/fileio.go'}],
     note='Another process creating the file between the test and the creation is outside the model.')
prop('C15', 'Every request is answered once, with the right status',
     'Every received request is answered with exactly one status frame of its session, sent to its sender, whose error code is that of the first check the request fails, or success: bad request for another version, UDP-Lite, a stream or an unknown type; can\'t receive or can\'t send for a willingness that does not allow the transfer; file not found for a get or delete of a missing file; file in use for a put of an existing one; did not delete when the removal fails. '
     'A transfer with the request\'s sender, session, type and file name is added exactly when a request other than a delete succeeds; a file is removed only by a successful delete; no other transfer and no other file changes.',
     ['inputs', 'histories'], 'all requests (every header), all senders, all transfer tables, all file systems',
     'Header flags combine in thousands of ways with the state of the files and of the transfer table.',
     ['trans/trans.go'], [{'name': 'AddRxTran', 'where': 'trans/trans.go'}])
prop('C16', 'One up to date entry per peer',
     'After a beacon there is exactly one peer with its sender\'s address, recorded with what this last beacon says, every other peer is as it was, and the beacon is reported as news exactly when it added a peer or changed one.',
     ['inputs', 'histories'], 'all beacons, all senders, all peer tables',
     'Depends on the order and number of the peers known and on which single field of a peer changes.',
     ['beacon/beacon.go'], [{'name': 'Peers, NewPeer', 'where': 'beacon/beacon.go'}])
prop('C17', 'The transfer table holds exactly the transfers in progress',
     'A new transfer is added once, at the end of the table, with its type, file, peer, a connection to it, settings of its own and the next session number, or an error is returned and the table stays as it was; a second transfer of a file with the same peer is refused, and one that is not there already and whose file can be opened only when the network or the file system fails. '
     'Looking up a transfer finds one with exactly this direction, session and peer (or this remote address and session) and nothing only when there is none; removing a transfer takes exactly that one off the table and leaves all others, in order; the table is left unlocked.',
     ['inputs', 'histories'], 'all transfer tables, keys, file names, transfer types and file systems',
     'Needs several transfers with nearly equal keys, removal from the middle, failures of the network or of files half way.',
     ['sarwin/sarwin.go'], [{'name': 'Lookup, Match, Remove, NewInitiator', 'where': 'sarwin/sarwin.go'}])
prop('C19', 'File data is read and written at its offset',
     'Writing a buffer at an offset puts exactly these bytes at exactly that offset, changes no other byte of the file and extends it only as far as needed; reading at an offset gives exactly the bytes of the file there and changes nothing. '
     'An offset no file can have is an error; any other write, and a read of bytes the file has, fails only when the file system does.',
     ['inputs', 'histories'], 'all 64 bit offsets, all buffers, all file contents and current positions',
     'Blocks arrive in any order and offsets reach beyond 2^63; tests write a few blocks in order.',
     ['fileio/fileio.go'], [{'name': 'FileWrite, FileRead, FileSeek', 'where': 'fileio/fileio.go'}])
prop('C20', 'Checksums are those of the file and of the type announced',
     'The checksum computed for a file is that of its whole contents with the algorithm asked for, of the length its type has in the frame header; a missing file or an unknown type is an error, anything else only when the file system fails. '
     'Metadata carries the checksum of the file it describes, of the type in its own header, and none when that says none.',
     ['inputs'], 'all file contents, names and checksum types',
     'A mix-up of type, file or a stale sum of a reused frame shows only for particular combinations.',
     ['fileio/checksum.go', 'metadata/metadata.go'], [{'name': 'Checksum', 'where': 'fileio/checksum.go'}, {'name': 'MetaData.New, MetaData.Make', 'where': 'metadata/metadata.go'}])

prop('C21', 'A command does what it says and nothing else',
     'Each settings command (checksum, descriptor, freespace, reqtstamp, stream, rxwilling, txwilling, timestamp, timezone, bcount, interval, timeout) with one of its documented arguments sets exactly that setting to the value the argument names; with any other command line it leaves every setting as it was (an unset data counter shows as, and becomes, its default of 100). '
     'exit and quit end the program only when told to, with the status given; help, usage, clear, history, home, ls and cancel change no setting. No command line panics, and the settings are left unlocked.',
     ['inputs'], 'all command lines with any number of arguments, all settings',
     'A setting that goes to the wrong field, or one that an invalid argument changes, shows only when that very field is looked at afterwards.',
     ['sarwin/sarwin.go'], [{'name': 'cmdChecksum, cmdDescriptor, cmdFreespace, cmdReqtstamp, cmdStream, cmdRxwilling, cmdTxwilling, cmdTimestamp, cmdTimezone, cmdBcount, cmdInterval, cmdTimeout, cmdExit, cmdHelp, cmdUsage, cmdClear, cmdHistory, cmdHome, cmdLs, cmdCancel', 'where': 'sarwin/sarwin.go'}])
prop('C22', 'A transfer keeps its own copy of the settings',
     'Copying the settings gives every setting, timeout and header flag of the original and no others, in storage of its own, so that a later command does not change transfers in progress; settings without header flags are an error.',
     ['inputs'], 'all settings and flag maps',
     'A forgotten field or a shared map shows only after a later change of that very setting.',
     ['sarflags/sarflags.go'], [{'name': 'CopyCliflags', 'where': 'sarflags/sarflags.go'}])
prop('C25', 'The beacon command sends the beacons it says',
     'The beacon command given an address (or v4, v6 for the multicast addresses of the settings) sends exactly as many beacons as the settings say, every one a version 1 beacon with the flags of the settings, '
     'to that address and to no other; given several addresses it sends to these only; beacon off stops all beacons; it changes no setting and leaves the settings unlocked. '
     'Removing an address from the list of hosts leaves all others.',
     ['inputs', 'histories'], 'all argument lists, settings, counts and intervals; network calls that fail or not',
     'The number of datagrams is that of a loop whose bound is a setting; tests send a fixed number to one address.',
     ['sarwin/sarwin.go', 'sarflags/sarflags.go', 'sarnet/sarnet.go', 'beacon/beacon.go'],
     [{'name': 'cmdBeacon, sendbeacons', 'where': 'sarwin/sarwin.go'}, {'name': 'Setglobal', 'where': 'sarflags/sarflags.go'}, {'name': 'RemoveUDPAddrValue', 'where': 'sarnet/sarnet.go'}])
prop('C23', 'A frame is sent as one datagram',
     'Sending a beacon, data, status, request or metadata frame puts exactly one datagram on the wire, over the connection and to the address given, whose bytes are exactly the encoding of that frame; a frame that can not be encoded is an error and nothing is sent; '
     'a send that fails is reported as an error, has sent nothing else and fails only because of the network.',
     ['inputs', 'fault_sequences'], 'all frames, connections and addresses, all outcomes of the network write',
     'What is sent twice, in parts, to the wrong peer or reported as sent when it was not shows only on the wire, and only for some outcomes of the write.',
     ['beacon/beacon.go', 'data/data.go', 'status/status.go', 'request/request.go', 'metadata/metadata.go'], [{'name': 'Send of every frame type', 'where': 'beacon, data, status, request, metadata'}])
prop('C24', 'Every datagram is passed on once, answered once or dropped',
     'For every datagram read by the listener: a frame of version 1 with all the fields of its type is passed on exactly once, with exactly the fields of the datagram and the address of its sender; a malformed data, metadata or status frame and a frame of another version are answered with exactly one bad packet status (of the session of the frame); everything else (too short, too long, an unknown type, a malformed beacon or request) is dropped. Nothing of one datagram shows in the treatment of the next.',
     ['inputs', 'histories'], 'all datagrams in any number and order, all senders and frame sizes',
     'The treatment depends on every bit of the header and the length, and on left-overs of earlier datagrams in the buffer.',
     ['saratoga/saratoga.go'], [{'name': 'listen', 'where': 'saratoga/saratoga.go'}])

prop('C18', 'Status frames report every hole exactly once',
     'When the holes of a transfer do not fit one status frame, the status frames sent for it together report every hole exactly once and in order, each of them fits the frame size of the settings, '
     'and all but the last say that more follow.',
     ['inputs', 'configurations'], 'all hole lists, flags and frame sizes',
     'The split depends on the product of hole size, hole count and frame size; tests never have more than one frame.',
     ['sarwin/sarwin.go'], [{'name': 'WriteStatus, stpaylen', 'where': 'sarwin/sarwin.go'}],
     claimed=False, na='WriteStatus is called by nothing, sends each part inside a loop over a symbolic division of the hole list (quotient and remainder by a symbolic frame size), '
     'and what it has sent so far is ghost state that a loop invariant over non linear bit vector arithmetic would have to describe; neither back end decides these obligations. Two defects found while reading it are fixed and recorded.')
prop('C26', 'No schedule of the program deadlocks or races',
     'Whatever the order in which datagrams arrive, commands are typed and transfers run, no goroutine waits forever for another one and no two touch the same memory unsynchronised.',
     ['schedules', 'histories'], 'all interleavings of the listeners, the main loop, the command handlers and the transfers',
     'A schedule is not an input; the tests run one goroutine.',
     ['saratoga/saratoga.go', 'trans/trans.go', 'sarwin/sarwin.go', 'sarflags/sarflags.go'], [{'name': 'main loop, listen, Do, Run', 'where': 'saratoga, transfer, sarwin'}],
     claimed=False, na='Contracts of single calls describe one goroutine; a proof over schedules needs a permission based logic (ownership of every shared cell), which this verifier does not have. What it does decide is lock balance (mutex obligations in C15, C17, C21, C22). '
     'The main loop is known to block, see DESIGN.md section 3.')
prop('C27', 'A finished transfer has delivered the file',
     'When both peers report a transfer as complete, the file written at the receiver has the bytes, length and properties of the file at the sender.',
     ['histories', 'fault_sequences'], 'all files, losses, duplications and reorderings of datagrams',
     'It is a property of whole histories of two peers.',
     ['sarwin/sarwin.go', 'trans/trans.go', 'saratoga/saratoga.go'], [{'name': 'Do, AddRxTran, main loop', 'where': 'sarwin, trans, saratoga'}],
     claimed=False, na='The code does not implement it: the transfer loop waits on a channel nobody makes, received data and metadata frames are only displayed and frames to be sent are only printed. There is nothing a contract could be proved of; the parts (frames, holes, files, checksums, transfer table) are C03 to C20.')

LEVEL_NOTE = ('Every obligation generated from the current SSA of the real functions is discharged by z3/cvc5 for all inputs; the loop invariants are inferred or given and machine checked. '
              'Trusted: go/ssa, the condition generator, the models of library functions listed in the evidence. Assumed: see evidence assumptions.')


def main():
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p in P:
            if not p['claimed'] and not p['na']:
                continue
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt govc/build.py', 'checks': [], 'not_applicable': [],
         'notes': 'contracts are in contracts/<package>/*.go, overlaid on the packages at check time; no hooks in /repo'}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['claimed']:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt govc/check.py %s quick' % p['id'],
                                'thorough_cmd': 'python3-vt govc/check.py %s thorough' % p['id'],
                                'technique': 'contract-based deductive verification (own VC generator over go/ssa, z3/cvc5)',
                                'level': 'proof', 'level_note': LEVEL_NOTE + (' ' + p['note'] if p['note'] else '')})
    json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    open(ROOT + '/MANIFEST.json', 'a').write('\n')


main()
