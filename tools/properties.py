"""Writes properties.jsonl and MANIFEST.json (run it after changing either)"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
G = 'golem_messages/'
OUT = []


def at(name):
    name = name if name == 'version.py' else G + name
    assert os.path.exists('/repo/' + name), name
    return name


def p(id_, title, statement, over, text, why, files, mechanism, observe=()):
    OUT.append({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [at(f) for f in files],
            'mechanism': [{'name': n, 'where': at(w)} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None}})


# Messages on the wire

p('M01', 'Every message arrives as it was sent',
  'Whatever message of any registered type is dumped (signed or not, '
  'encrypted or not) and loaded by its recipient, what arrives has the same '
  'type, time stamp, signature and content, nested messages included, and '
  'compares equal to what was sent. Serializing it again gives the same '
  'bytes, and dumping a message that already is signed with a private key is '
  'refused without altering it.',
  ['inputs', 'configurations'],
  'all 60-odd registered types, all contents a message may have including '
  'missing slots and messages nested to any depth, with or without signer '
  'and recipient',
  'Tests send one factory-made message of some of the types; nothing sends '
  'empty, extreme or unusual content, nested messages of nested messages or '
  'all types.',
  ['shortcuts.py', 'message/base.py', 'message/p2p.py', 'message/tasks.py',
   'message/concents.py', 'message/resources.py'],
  [('Message.serialize/deserialize', 'message/base.py'),
   ('serialize_slot/deserialize_slot', 'message/base.py'),
   ('dump/load', 'shortcuts.py')],
  ['dump()', 'load()'])

p('M02', 'The wire format is the documented one, byte for byte',
  'A message is sent as an 11 byte header (type, time, encrypted flag, big '
  'endian), a 65 byte recoverable signature and the CBOR list of its slots in '
  'their fixed order, with the registered type number, enumeration values and '
  'nested form; a greeting appends its version. Bytes that an independent '
  'implementation of this format produces are read as the message they stand '
  'for, and its signature and hash agree with that implementation.',
  ['inputs'],
  'all registered types with any content; for the table of types all of it',
  'Tests compare the library with itself, so that a change of format made in '
  'both directions at once (order of slots, a type number, an enum value) '
  'passes although nobody could talk to older peers.',
  ['message/base.py', 'register.py', 'serializer.py', 'datastructures/__init__.py'],
  [('MessageHeader', 'datastructures/__init__.py'),
   ('library', 'register.py'), ('__slots__ of messages', 'message/')],
  ['Message.serialize()', 'Message.deserialize()', 'get_short_hash()'])

p('M03', 'No altered message passes for its sender\'s',
  'When the public key of the sender is given, a message of a signed type is '
  'only accepted if the owner of that key signed exactly its type, time '
  'stamp, content and (greeting) version; any change of these or of the key, '
  'or a signature that is not valid for them under the key, makes loading '
  'fail. The same holds for the signature of every message nested in it '
  'when it is verified.',
  ['inputs', 'fault_sequences'],
  'all signed types, any content, and any change to a byte, slot, time, '
  'type, order of slots, version, signature, key, or nested message',
  'Tests try one or two alterations of a few messages; which bytes are '
  'covered by the signature is a statement about all bytes of all types.',
  ['message/base.py', 'cryptography.py'],
  [('verify_signature', 'message/base.py'),
   ('get_short_hash', 'message/base.py'), ('ecdsa_verify', 'cryptography.py')],
  ['load()', 'Message.verify_signature()'])

p('M04', 'Hostile bytes are refused, never crash the receiver',
  'Loading arbitrary bytes either gives a well formed message (right class, '
  'enumerations, nested messages of the right types, validated numbers) with '
  'the header and signature that were sent, or raises the message error of '
  'the library; no other exception escapes.',
  ['inputs'],
  'all byte strings, and all valid messages of any type with an arbitrary '
  'edit of the decoded content or of the bytes',
  'Tests feed a handful of malformed messages; a peer on the network may '
  'send anything.',
  ['message/base.py', 'message/p2p.py', 'message/tasks.py',
   'message/concents.py', 'datastructures/'],
  [('Message.deserialize', 'message/base.py'),
   ('deserialize_slot and validators', 'message/')],
  ['load()'])

p('M05', 'Encrypted transport: only the recipient reads, nobody alters',
  'A message dumped for a recipient is encrypted exactly when its type '
  'allows it: header and signature stay readable, the content is readable '
  'with the recipient\'s private key only, and every alteration of the '
  'encrypted content is refused with a decryption error. Decrypted and '
  'forwarded in the clear it is the same message, and whatever goes wrong '
  'inside a decryption function is reported as a library error.',
  ['inputs', 'fault_sequences'],
  'all types and contents, all pairs of keys, all alterations of the '
  'encrypted part, all exceptions of a decryption function',
  'Tests encrypt a few messages with the real pair of keys; confidentiality '
  'and integrity quantify over all messages and alterations.',
  ['shortcuts.py', 'message/base.py', 'cryptography.py'],
  [('dump/load', 'shortcuts.py'), ('ENCRYPT', 'message/'),
   ('ECIES', 'cryptography.py')], ['dump()', 'load()'])

p('M06', 'Encryption of data: authentic, and its keys expire',
  'Data encrypted for a public key are decrypted by the owner of it (by an '
  'independent implementation too) to the same data, and by no other key, '
  'with no other authenticated extra data (of the length the parties agreed '
  'on) and after no alteration. No two '
  'encryptions use the same key stream, an ephemeral key serves one recipient '
  'and never for longer than its time limit, and the caches change no result.',
  ['inputs', 'histories'],
  'all data, keys and extra data; all histories of encrypting, decrypting '
  'and waiting under one or several key managers, with more peers than their '
  'caches hold',
  'Tests cover one round trip and one expiry; caching bugs need particular '
  'histories of use and time.',
  ['cryptography.py'],
  [('ECIES', 'cryptography.py'), ('ECIESKeyManager', 'cryptography.py')],
  ['ECIES.encrypt()', 'ECIES.decrypt()'])

p('M07', 'Only messages from within the time window are taken',
  'With time checking on, a message is accepted exactly if its time stamp is '
  'at most ten minutes older and at most five minutes newer than the '
  'receiver\'s clock; older ones raise the too-old and newer ones the '
  'from-the-future error. A header whose type or time is out of range, or '
  'that is malformed, is refused, and a valid one reads as what was written.',
  ['inputs'],
  'all receiver clocks, all distances (the edges above all), all types, all '
  'header bytes',
  'Tests use a few instants far from the edges.',
  ['message/base.py', 'utils.py', 'settings.py', 'datastructures/__init__.py'],
  [('verify_time', 'message/base.py'),
   ('MSG_TTL, FUTURE_TIME_TOLERANCE', 'settings.py'),
   ('MessageHeader', 'datastructures/__init__.py')], ['load()'])

p('M08', 'A greeting is taken from compatible versions only',
  'A received greeting is accepted exactly if the version it carries is a '
  'well formed version of the same major and minor number as our own; else a '
  'version mismatch is raised. The accepted greeting shows the version of '
  'its sender.',
  ['inputs'],
  'all versions (with prerelease and build parts), all damaged version '
  'fields, any greeting content',
  'Tests try three fixed versions.',
  ['message/base.py', 'utils.py'],
  [('Hello, verify_version', 'message/base.py')],
  ['load()'])

p('M09', 'A signature stays with its message',
  'A message gets a signature only by being signed, and keeps it, its time '
  'stamp and its content through serializing, encrypting, copying, comparing '
  'and nesting; signing a message that is already signed on dump is refused. '
  'A party that relays a message inside of its own does not alter it: the '
  'nested signatures still verify against the keys of their signers. Nor does '
  'it matter to the signature of a message that a message within it is dumped, '
  'encrypted, shown or nested elsewhere afterwards.',
  ['histories', 'inputs'],
  'all histories of sign, serialize, encrypt, copy, nest, verify and reload '
  'of messages of all types, and all nestings',
  'Tests perform one step at a time on one type.',
  ['message/base.py', 'utils.py', 'shortcuts.py'],
  [('sign_message, serialize', 'message/base.py'),
   ('copy_and_sign', 'utils.py')],
  ['Message.serialize()', 'Message.sign_message()', 'copy_and_sign()'])

p('M10', 'Slots for messages hold messages of the right type',
  'A slot that carries another message accepts, when sending and when '
  'receiving, only a message of its declared type (or nothing, or a list, '
  'exactly where this is allowed) and refuses everything else with a field '
  'error that names the slot, also when a message of another type claims in '
  'its header to be of the right one.',
  ['inputs'],
  'all slots for messages of all types, with every kind of right, wrong, '
  'missing, disguised or malformed content',
  'Tests check some of the slots with one wrong type each.',
  ['message/base.py', 'validators.py', 'message/tasks.py',
   'message/concents.py', 'message/p2p.py'],
  [('MSG_SLOTS, deserialize_message', 'message/base.py')],
  ['load()', 'Message.serialize()'])

p('M11', 'Messages are equal exactly if their content is',
  'Two messages compare equal exactly if type, time stamp, signature and all '
  'slots, nested messages included, are the same (and, for greetings, the '
  'version); how they travelled plays no role. A message equals nothing that '
  'is not a message.',
  ['inputs'],
  'all pairs of messages of all types that differ in nothing or in one '
  'thing at any depth',
  'Tests compare some equal pairs and a few different ones.',
  ['message/base.py'], [('Message.__eq__', 'message/base.py')],
  ['Message == Message'])

p('M12', 'New messages have documented defaults and rules',
  'A message made without content has the current time (whole seconds), its '
  'type, no signature and the default of every slot, not shared with any '
  'other message. Slots with a rule (enumerations, numbers, ids, nodes, '
  'lists of peers and task headers) accept exactly the values of the rule '
  'and refuse others with a library error that names the slot.',
  ['inputs'],
  'all types at all times, all enumeration slots with any value, all slots '
  'with rules at their boundaries',
  'Tests look at single values of single slots.',
  ['message/base.py', 'message/p2p.py', 'message/tasks.py',
   'message/concents.py'],
  [('Message.__init__', 'message/base.py'), ('ENUM_SLOTS', 'message/base.py')],
  ['constructors of messages'])

p('M13', 'Messages do not influence each other',
  'Whatever is done to one message (altering anything reachable from it, '
  'comparing, serializing, relaying) and whichever messages are refused in '
  'between, every other message built or received before or after is exactly '
  'what its own input says.',
  ['histories'],
  'all histories of building, loading, relaying, altering and failing over '
  'messages of all types',
  'Tests look at one message at a time; shared mutable defaults or caches '
  'show only over histories of several.',
  ['message/base.py', 'datastructures/', 'message/'],
  [('defaults and slots per instance', 'message/base.py'),
   ('DEFAULTS of containers', 'datastructures/__init__.py')],
  ['all of the above'])

p('M14', 'Messages can be copied, stored and logged',
  'A copy of a message, shallow, deep or pickled, has the same type, header, '
  'signature and content, compares equal, hashes and serializes as the '
  'original; altering the copy (for deep ones anything reachable from it) '
  'leaves the original as it was. Every message, also one that is not fit to '
  'be sent, can be shown, and the text tells its type and its time.',
  ['inputs', 'histories'],
  'all messages of all types with all nestings, built and received; copies, '
  'deep copies, pickles of all binary protocols, copies of copies; all '
  'contents of untyped, node and message slots for what is shown',
  'Tests copy one flat message and show none that cannot be sent.',
  ['message/base.py', 'datastructures/', 'message/tasks.py'],
  [('slots instead of a dict per instance', 'message/base.py'),
   ('Message.__repr__', 'message/base.py'),
   ('containers and validating dicts', 'datastructures/__init__.py')],
  ['copy.copy()', 'copy.deepcopy()', 'pickle', 'repr()'])

p('C01', 'Threads that use the library do not disturb each other',
  'When several threads build, sign, encrypt, send, receive and fail to '
  'receive messages, sign task headers and generate ids at the same time, '
  'each gets what it would get alone, and no two get the same id.',
  ['schedules'],
  'all interleavings of two or three threads at the granularity of source '
  'lines of the library',
  'Tests are single threaded.',
  ['message/base.py', 'cryptography.py', 'idgenerator.py', 'shortcuts.py'],
  [('no shared mutable state on the way of a message', 'message/base.py'),
   ('ECIES key cache', 'cryptography.py')],
  ['dump()', 'load()', 'generate_id()'])

# Tasks and Concent

p('T01', 'The owners of a chain of task messages are verified',
  'Verification of the owners of a task message succeeds exactly if every '
  'message of the chain it contains (and the task header in the offer) was '
  'signed by a party entitled to it, requestor, provider or Concent, and the '
  'expected keys are those of the chain. A chain in which any message, at '
  'any depth, is forged, unsigned, altered or signed by another party is '
  'refused with the signature error, expected keys that differ with the '
  'ownership error.',
  ['inputs', 'configurations'],
  'all task messages with every chain of nested messages they may contain, '
  'forged at any one to three places in any way, built or received, with '
  'any expected keys',
  'Tests forge one message of a few short chains; chains are trees up to '
  'seven deep with dozens of shapes.',
  ['message/tasks.py', 'message/concents.py'],
  [('validate_ownership, verify_owners', 'message/tasks.py'),
   ('TASK_ID_PROVIDERS, EXPECTED_OWNERS', 'message/')],
  ['verify_owners()', 'validate_ownership()', 'validate_ownership_chain()'])

p('T02', 'Ids and the offer are found through every chain',
  'Every task message gives the task id, subtask id, requestor id, provider '
  'id and the offer that its chain of nested messages contains, the first '
  'one in the documented order where there are several, and nothing where '
  'there is none. The offer gives the addresses that belong to its public '
  'keys.',
  ['inputs'],
  'all chains of all task messages, with any of the optional messages or '
  'any of the ids missing, built or received',
  'Tests use complete chains only.',
  ['message/tasks.py', 'message/concents.py'],
  [('TaskMessage properties', 'message/tasks.py')],
  ['task_id, subtask_id, requestor_id, provider_id, task_to_compute'])

p('T03', 'An offer is only taken with the requestor\'s ids and signature',
  'An offer is accepted exactly if its task and subtask ids belong to the '
  'requestor\'s id and its ethereum signature over the demand was made with '
  'the ethereum key it names; and signing an offer with a key makes exactly '
  'that so. Altering ids, keys, signature or the demand afterwards is '
  'refused.',
  ['inputs'],
  'all offers with ids (in any notation), keys, signature or demand altered '
  'in any way',
  'Tests check one good and one bad id.',
  ['message/tasks.py', 'idgenerator.py', 'cryptography.py'],
  [('validate_taskid, verify_ethsig', 'message/tasks.py'),
   ('check_id_hex_seed', 'idgenerator.py')],
  ['load()', 'generate_ethsig()', 'verify_ethsig()'])

p('T04', 'Promissory notes bind exactly what they promise',
  'A promissory note signed by a party verifies exactly as long as payer, '
  'payee, amount, subtask and deposit contract are those it was signed for, '
  'and its signature agrees with an independent implementation of the '
  'signed form. Messages carry the signature of a note unchanged, and verify '
  'it against their own price, subtask and parties.',
  ['inputs'],
  'all prices up to 2**256, ids, keys and contracts; all messages with '
  'notes; every alteration of a part of the note or its signature',
  'Tests sign one note of a factory-made offer.',
  ['datastructures/promissory.py', 'message/tasks.py',
   'message/concents.py'],
  [('PromissoryNote.sign/sig_valid', 'datastructures/promissory.py'),
   ('PromissorySlotMixin', 'datastructures/promissory.py')],
  ['sign_promissory_note()', 'verify_promissory_note()'])

p('T05', 'Rules between the parts of a message are enforced',
  'A message whose parts have to agree (payment time within the tolerance '
  'of the message, a reason that requires an attached message, tasks in '
  'common between messages) is valid, and accepted, exactly if they do; '
  'broken ones are refused with a library error.',
  ['inputs'],
  'all messages with such rules, kept, broken, or at the edge of the '
  'tolerance',
  'Tests try one broken example for some of the rules.',
  ['message/tasks.py', 'message/concents.py', 'settings.py'],
  [('is_valid and slot checks', 'message/tasks.py'),
   ('PAYMENT_TIMESTAMP_TOLERANCE', 'settings.py')],
  ['is_valid()', 'load()'])

p('T06', 'A task header is complete, typed and authentic',
  'A task header is accepted exactly if all required fields are present and '
  'every field has the documented type and range; the error names the field. '
  'It travels unchanged, and its signature verifies with the owner\'s key '
  'only as long as no field is altered.',
  ['inputs'],
  'all headers with any field missing, of another type or at a boundary; '
  'all alterations of any field of signed ones',
  'Tests build one header and alter a few fields.',
  ['datastructures/tasks.py', 'datastructures/__init__.py'],
  [('TaskHeader', 'datastructures/tasks.py')],
  ['TaskHeader()', 'to_dict()', 'sign()', 'verify()'])

p('T07', 'File transfer tokens describe files unambiguously',
  'The description of a file has only known fields and a known category, '
  'anything else is refused; a token is for upload or download as its '
  'operation says, finds the first file of a category, and travels '
  'unchanged.',
  ['inputs'],
  'all descriptions of files, all tokens with up to several files, with '
  'malformed ones among them',
  'Tests use one token with two proper files.',
  ['message/concents.py'],
  [('FileTransferToken, FileInfo', 'message/concents.py')],
  ['FileTransferToken', 'load()'])

p('T08', 'A negotiation relayed hop by hop ends in proof',
  'When every message of a negotiation is built by its owner of messages and '
  'task headers as they were received, signed, sent to anybody, encrypted or '
  'not, and loaded within the time allowed, then every hop succeeds and the '
  'last message carries the whole chain unaltered: all owners and ids verify, '
  'all signatures still hold. If any party alters anything inside a message '
  'it received before passing it on, some later recipient refuses it, or the '
  'owners of the last message do not verify.',
  ['histories', 'inputs', 'configurations'],
  'all chains of task messages in all their shapes, all choices of '
  'recipients, encryption and delays, one alteration at any place of any '
  'received message',
  'Tests nest factory-made messages that never travelled; the guarantee is '
  'about a history of several parties and every intermediate form.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'shortcuts.py', 'datastructures/tasks.py'],
  [('nested messages keep header and signature', 'message/base.py'),
   ('TaskMessage.verify_owners', 'message/tasks.py'),
   ('dump/load', 'shortcuts.py')],
  ['dump()', 'load()', 'verify_owners()'])

# Data structures

p('D01', 'Validators accept exactly the values of their rule',
  'Each field validator (text length, integers, positive integers, booleans, '
  'dicts, ports, IP addresses, versions) lets pass exactly the values of its '
  'rule and refuses all others with a field error that carries the field and '
  'the value; it never alters the value.',
  ['inputs'], 'all values of all types, near the boundary of the rule above '
  'all', 'Tests try a few values per validator and not the boundaries.',
  ['validators.py'], [('validate_*', 'validators.py')], ['validate_*()'])

p('D02', 'Frozen and validating dicts keep their shape',
  'A frozen dict never has keys outside its declared set and shows the '
  'declared default for absent ones; a validating dict never takes an '
  'invalid value by construction, assignment or update. Defaults are not shared '
  'between instances, and a key or value that is refused changes nothing.',
  ['histories'], 'all declared shapes and all histories of construction, '
  'assignment and mutation', 'Tests perform single operations.',
  ['datastructures/__init__.py', 'datastructures/stats.py',
   'datastructures/p2p.py'],
  [('FrozenDict, ValidatingDict', 'datastructures/__init__.py')],
  ['FrozenDict', 'ValidatingDict', 'Peer'])

p('D03', 'Containers take exactly their declared fields',
  'A container is made exactly from fields it declares, with the required '
  'ones present and all of them valid (the error names the field); absent '
  'fields have their own fresh default, and conversion to a plain dict and '
  'back gives the same container.',
  ['inputs'], 'all declared shapes (fields, validators, required ones, '
  'defaults, conversions) and all arguments',
  'Tests use the shapes of two concrete classes.',
  ['datastructures/__init__.py', 'datastructures/p2p.py'],
  [('Container', 'datastructures/__init__.py')], ['Container', 'Node'])

p('D04', 'Masks select the intended share of the network',
  'A mask has exactly the requested number of set bits, at any position, '
  'survives conversion between its notations, matches an address exactly by '
  'the documented rule, and growing or shrinking it sets or clears just that '
  'many bits and touches no other, nor any other mask. The mask for a task leaves as many potential workers as '
  'are desired, within a factor of two.',
  ['histories', 'inputs'], 'all masks and histories of operations, all '
  'numbers of workers', 'Tests try a few bit counts; positions are random.',
  ['datastructures/masking.py'], [('Mask', 'datastructures/masking.py')],
  ['Mask'])

p('D05', 'Nodes and peers: equality, public addresses, travel',
  'Nodes are equal exactly if all their fields are; a node with equal public '
  'and private address is a super node; completing the public data fills '
  'exactly what is absent from the private data. A peer travels as plain '
  'data and arrives equal.',
  ['inputs'], 'all nodes and peers with any subset of fields',
  'Tests build one node.', ['datastructures/p2p.py'],
  [('Node, Peer', 'datastructures/p2p.py')], ['Node', 'Peer'])

p('D06', 'Provider statistics travel completely and are checked',
  'Statistics of a provider, with any of their groups absent or partial, '
  'arrive with every given number and the documented defaults; a field of '
  'the wrong type or an unknown one is refused with an error that names it.',
  ['inputs'], 'all (partial) statistics, and those with a wrong field '
  'anywhere', 'Tests use one complete record.',
  ['datastructures/stats.py', 'datastructures/__init__.py'],
  [('ProviderStats', 'datastructures/stats.py')], ['ProviderStats'])

p('D07', 'The register of messages is a one-to-one map',
  'After any history of registrations, each registered number finds its '
  'class and each class its number, a number in use is not given away again, '
  'unknown ones raise an error, and registers are independent of each other.',
  ['histories'], 'all histories of registration and look-up on one or two '
  'registers', 'Tests register one class.', ['register.py'],
  [('MessageRegister', 'register.py')], ['MessageRegister'])

p('D08', 'Serialization loses nothing and refuses what it cannot do',
  'Values made of the types that CBOR knows survive serialization exactly '
  '(numbers, text and bytes apart, order of keys), in a form that other CBOR '
  'implementations read and write; unserializable values and malformed '
  'bytes raise the serialization error.',
  ['inputs'], 'all values, all bytes', 'Tests serialize a few values with '
  'the same library in both directions.', ['serializer.py'],
  [('dumps, loads', 'serializer.py')], ['serializer.dumps()',
                                        'serializer.loads()'])

p('D09', 'Errors can be told apart and say what is wrong',
  'Each error of the library is caught by its own class and its documented '
  'parents and by no other class; a field error carries field and value and '
  'shows both.',
  ['inputs'], 'all error classes with any arguments',
  'Tests raise some of them.', ['exceptions.py'],
  [('exceptions', 'exceptions.py')], ['exceptions'])

# Ids, helpers, times, version, factories

p('U01', 'Generated ids are unique and belong to their owner',
  'An id generated from a public key, or from another id, is a fresh version '
  '1 UUID that belongs to that key however the clock moves, and an id is '
  'found to belong to a key exactly if it carries the start of the key; text '
  'that is no id never does.',
  ['inputs', 'histories'], 'all seeds, all histories of generation while the '
  'clock moves forth and back, all ids and notations of ids',
  'Tests generate one id.', ['idgenerator.py'],
  [('generate_id, check_id_seed', 'idgenerator.py')],
  ['generate_id()', 'check_id_seed()'])

p('U02', 'Encodings and addresses agree with the standard',
  'Hex encoding and its inverse, conversion of ids to 32 bytes and back, and '
  'ethereum addresses of public keys agree with independent implementations '
  'for every input, malformed input is refused, and a signed copy of a '
  'message is signed without touching the original.',
  ['inputs'], 'all bytes, texts, ids, public keys in any notation, messages '
  'of all types', 'Tests use constants.', ['utils.py'],
  [('encode_hex, pubkey_to_address, copy_and_sign', 'utils.py')],
  ['utils'])

p('U03', 'Times and deposits follow the protocol\'s formulas',
  'The time allowed for a transfer and for verification, and the deposits of '
  'requestor and provider, are those of the documented formulas for every '
  'size, rate, deadline and price, exact for large numbers too; the protocol '
  'constants have their documented values.',
  ['inputs'], 'all sizes, rates, deadlines and prices; all constants',
  'Tests compute one example per formula, some with the code\'s own '
  'constants.', ['helpers.py', 'constants.py', 'settings.py'],
  [('maximum_download_time, subtask_verification_time', 'helpers.py')],
  ['helpers', 'constants'])

p('U04', 'Keys and signatures are those of the standard curve',
  'For every private key the public key and the signatures agree with an '
  'independent implementation, a signature verifies exactly for its data and '
  'key, malformed keys and signatures are refused with the library\'s errors, '
  'and generated keys are valid and fresh.',
  ['inputs'], 'all keys, data, damaged signatures, keys out of range',
  'Tests sign one message.', ['cryptography.py'],
  [('ECCx, ecdsa_sign, ecdsa_verify', 'cryptography.py')],
  ['cryptography'])

p('V01', 'The version is that of the newest release tag',
  'The version of a checkout is derived from the newest matching tag that '
  'its history contains, with the distance to it, whatever other tags and '
  'commits there are and from wherever it is asked for; it is written to the '
  'release file next to the package, unless that was not wanted, and the '
  'package says that it is of the version in that file.',
  ['histories', 'configurations'], 'all histories of commits and tags of a '
  'repository, any earlier release file, any working directory',
  'Tests mock the command that is asked.', ['version.py', '__init__.py'],
  [('get_version', 'version.py')], ['get_version()', '__version__'])

p('F01', 'Factories make messages that the library accepts',
  'Every factory makes a complete message of its type that can be signed, '
  'dumped and loaded, is signed last and by the given keys, puts the '
  'overridden values where they belong, and named variants are what their '
  'name says. No two messages that factories make share anything that can '
  'be altered.',
  ['inputs', 'configurations'], 'all factories and named variants, seeds, '
  'times, keys and overrides',
  'Tests use the factories with one seed and as means to an end.',
  ['factories/tasks.py', 'factories/concents.py', 'factories/helpers.py',
   'factories/base.py'], [('factories', 'factories/')], ['factories'])


LEVEL = (
    'Exploration: generated cases against an independent oracle, no proof. '
    'Trusted: the oracle (worker/model.py, proto.py, refcbor.py, '
    'refecies.py), Hypothesis, PyPy, coincurve, hashlib.')
TECHNIQUE = {
    'M13': 'stateful property-based testing of message histories against a '
           'reference model',
    'C01': 'property-based testing over generated deterministic thread '
           'schedules against a sequential reference',
    'M04': 'structured fuzzing of frames (grammar-based tree edits and byte '
           'mutations) with a well-formedness oracle',
    'T08': 'property-based testing over generated histories of several parties '
           'against a reference model, with fault injection',
    'M09': 'stateful property-based testing of signing histories against a '
           'reference model',
    'M06': 'stateful property-based testing of key-manager histories; '
           'differential against an independent ECIES',
    'D02': 'stateful property-based testing against a dict model',
    'D04': 'stateful property-based testing against a set model',
    'D07': 'stateful property-based testing against a map model',
    'U01': 'stateful property-based testing of id histories with a moving '
           'clock',
    'V01': 'property-based testing over generated git histories against a '
           'model',
    'M02': 'differential property-based testing against an independent '
           'implementation of the wire format',
    'D08': 'round-trip and differential property-based testing, byte '
           'fuzzing against an independent CBOR decoder',
}
DEFAULT = 'property-based testing (Hypothesis) against an independent oracle'
NOTE = {
    'M05': 'AES-CTR/HMAC/entropy of pyelliptic are stand-ins (not installed).',
    'M06': 'AES-CTR/HMAC/entropy of pyelliptic are stand-ins (not installed).',
    'C01': 'Interleavings at source lines of the library, 2-3 threads.',
    'V01': 'Runs the installed git in scratch repositories.',
}


def main():
    from vf import registry
    props = registry.load()
    assert sorted(props) == sorted(o['id'] for o in OUT), \
        set(props) ^ {o['id'] for o in OUT}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for o in OUT:
            assert len(o['title']) <= 80, o['title']
            f.write(json.dumps(o) + '\n')
    checks = [{
        'property': o['id'],
        'quick_cmd': './check check %s quick' % o['id'],
        'thorough_cmd': './check check %s thorough' % o['id'],
        'evidence_file': 'evidence/%s.json' % o['id'],
        'technique': TECHNIQUE.get(o['id'], DEFAULT),
        'level': 'exploration',
        'level_note': (LEVEL + ' ' + NOTE.get(o['id'], '')).strip(),
    } for o in OUT]
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './check selftest',
                   'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks in /repo. Known and fixed findings: '
                            'KNOWN_FINDINGS.txt.'}, f, indent=1)
        f.write('\n')


main()
