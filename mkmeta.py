#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python check.py'
TRUST = 'Trusted: the transcription of the standards in /verif/spec and the reference codec in /verif/mc/ref.py, both compared with the implementation on every state. '
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


ALL = ['pyasn1_modules/rfc*.py']

prop('C01', 'Every value of every published type has the standard\'s DER encoding',
     'For every type a module publishes and every value of it, the DER encoding is the byte string the defining standard prescribes (tags, explicit or implicit tagging, component order, string types, nesting). '
     'Decoding that byte string yields the same value with no bytes left, and encoding the decoded value gives the same bytes again.',
     ['inputs'], 'all published types of the 130 ASN.1 modules, all their values',
     'The tests decode about one sample message per module; most types, alternatives and optional components never occur in a sample, and a symmetric mistake survives a decode/encode round trip.',
     ALL, [('class-level schema declarations', 'pyasn1_modules/rfc*.py: componentType, tagSet, subtype(...)')],
     'explicit-state enumeration of the schema model, every state replayed on the real codec',
     TRUST + 'Bound: values one deviation path from the minimal value, types entered to a depth.')

prop('C02', 'Optional, default and mandatory components',
     'In every SEQUENCE and SET of every published type, exactly the components the standard marks OPTIONAL or DEFAULT may be absent; an absent DEFAULT component reads as the standard\'s default value and that value is never written. '
     'A value or encoding that lacks a mandatory component is refused.',
     ['inputs'], 'all components of all published SEQUENCE and SET types, present or absent, at their default or not',
     'Samples contain one presence pattern each; whether a missing or defaulted component is handled right can only be seen when it is missing, and tests hardly ever build incomplete values.',
     ALL, [('OptionalNamedType / DefaultedNamedType / NamedType', 'pyasn1_modules/rfc*.py')],
     'explicit-state enumeration of presence patterns in the schema model, replayed on the real codec',
     TRUST + 'Bound: every component alone, from the minimal and the full value.')

prop('C03', 'Encodings that are not of the type are refused',
     'Decoding a DER byte string against a published type succeeds only if the byte string is an encoding of that type: wrong or unknown tags, missing, repeated, reordered or surplus components and wrong nesting are refused with the library\'s decoding error. '
     'When it succeeds, the value read is the one the byte string stands for under the standard.',
     ['inputs'], 'all structural corruptions of encodings of all published types',
     'Tests feed well-formed samples only; a schema that is too liberal (wrong tag, extra alternative, optional instead of mandatory) accepts every sample.',
     ALL, [('tags and component lists the decoder is driven by', 'pyasn1_modules/rfc*.py')],
     'exhaustive enumeration of single structural edits, judged by the reference decoder, replayed on the real decoder',
     TRUST + 'Bound: one edit per encoding; liberties of the pyasn1 library itself (listed in DESIGN.md) are exempt.')

prop('C05', 'Values are accepted exactly when they satisfy the standard\'s constraints',
     'A number, string or list is accepted by a published type exactly when it satisfies the constraints the standard puts on it: value range, permitted values, size limits and permitted alphabet. '
     'Values outside are refused when they are assigned, decoded or encoded; values inside, boundaries included, are never refused.',
     ['inputs'], 'all boundary values of all constrained nodes of all published types, extreme values at unconstrained ones',
     'Sample data lies well inside the limits; an off-by-one, swapped or dropped bound shows only at the boundary.',
     ALL, [('subtypeSpec / sizeSpec', 'pyasn1_modules/rfc*.py'), ('MAX, ub-* constants', 'pyasn1_modules/rfc*.py')],
     'exhaustive enumeration of the boundary values of every constraint in the model, replayed on the real types',
     TRUST + 'List sizes are enforced by the library when encoding only.')

prop('C06', 'Named numbers and named bits',
     'Every name the standard gives to a number of an INTEGER or ENUMERATED type, or to a bit of a BIT STRING type, stands for exactly that number or bit: setting by name encodes the number, and a number read prints as its name. '
     'No standard name is missing and none is made up.',
     ['inputs'], 'all names and numbers of all published types; named-bit lists: every bit, every pair, and all together',
     'Tests look at a handful of version numbers and key-usage bits.',
     ALL, [('namedValues', 'pyasn1_modules/rfc*.py')],
     'exhaustive enumeration of the name table of the model against the real types',
     TRUST)

prop('C07', 'Published identifiers and limits have the standard\'s values',
     'Every object identifier, integer limit and predefined value that a module publishes equals the one its standard assigns under that name, encodes to its DER bytes, and is interchangeable with the same value an application builds or decodes. Every published name can be had by an import with an asterisk.',
     ['inputs', 'histories'], 'all published constants of all modules, before and after use',
     'Tests mention only the few identifiers that occur in their samples.',
     ALL, [('id-* tuples, ub-* integers', 'pyasn1_modules/rfc*.py')],
     'exhaustive enumeration of the constants of the model against the real modules',
     TRUST)

prop('C08', 'Resolved open types are values of the registered type and keep their bytes',
     'With resolution on, the payload of every open type (ANY DEFINED BY and the like) decodes to a value of the type registered for its governing identifier, and encoding the result gives the original bytes. '
     'A value set as the registered type\'s own object encodes like the same value set as opaque bytes, wherever the open type occurs and however often.',
     ['inputs'], 'all open components of all published types x all registered identifiers x payload values',
     'Each test follows the open types its sample has; most of the registered pairs are never exercised.',
     ALL, [('opentype.OpenType declarations', 'pyasn1_modules/rfc*.py'), ('registries', 'pyasn1_modules/rfc5280.py, rfc5652.py, rfc6402.py, ...')],
     'explicit-state enumeration of (open component, key, payload) triples, replayed on the real codec',
     TRUST + 'Payload bytes after the first element are ignored by the library and not judged.')

prop('C09', 'Open types stay opaque or are refused, never guessed',
     'Without resolution, or for an identifier that is not registered, an open type\'s payload stays the opaque bytes received, and encoding gives them back. '
     'With resolution on, a payload that is not an encoding of the registered type is refused, and a map supplied by the caller decides for the identifiers it lists.',
     ['inputs', 'configurations'], 'all open components x (unregistered, registered, caller-mapped) identifiers x (right, wrong, malformed) payloads x resolution on or off',
     'Tests decode samples whose payload matches; mismatches, unknown identifiers and caller\'s maps occur in a few only.',
     ALL, [('opentype.OpenType declarations', 'pyasn1_modules/rfc*.py')],
     'explicit-state enumeration of (open component, key, payload, mode), replayed on the real codec',
     TRUST)

prop('C10', 'Registries hold exactly the standard\'s identifiers with the right types',
     'After any modules have been imported, every registry of identifiers and types holds exactly the entries that the loaded standards define for it, under the standard\'s identifiers. '
     'The type registered under an identifier codes every value as the type the standard gives it does.',
     ['configurations', 'inputs'], 'all modules loaded alone, all loaded together; all registered identifiers with values of their types',
     'Tests never list a registry; a wrong, missing or extra entry shows only if a sample happens to use it.',
     ALL, [('registry update at module end', 'pyasn1_modules/rfc*.py: *Map.update(...)')],
     'exhaustive enumeration of load states and registrations of the model against the real registries',
     TRUST)

prop('C11', 'Registrations do not depend on import order',
     'Which types are registered for which identifiers, and what they code to, depends only on which modules have been imported, not on the order of the imports; importing a further module never alters or removes a registration already there.',
     ['histories', 'configurations'], 'all orders of importing modules, to the stated depth',
     'A test process imports modules in one fixed order.',
     ALL, [('registry update at module end', 'pyasn1_modules/rfc*.py: *Map.update(...)')],
     'exploration of import sequences in forked processes, states compared across orders',
     'Each state is the real interpreter\'s, compared structurally. Bound: all ordered pairs of modules (thorough), all permutations of each group of modules that register the same identifier. '
     'Five identifiers two standards define differently are known findings.')

prop('C12', 'Importing a module is safe beside concurrent use',
     'While one thread imports a module, other threads never see an existing registration vanish or change, nor a new one that is not yet in its final form. '
     'Two threads importing modules at the same time both succeed and leave the registrations some sequential order of the imports leaves.',
     ['schedules'], 'all points of all module imports at which another thread can run, to a preemption bound of one',
     'Tests are single-threaded and import everything before they start.',
     ALL, [('registry built aside and merged with one update', 'pyasn1_modules/rfc*.py')],
     'stateless exploration of two-thread schedules of the real imports under a controlled scheduler',
     'Preemption points: every module-level line (thorough: every bytecode) for the observer; every change of a shared registry for the second importer. Assumes the interpreter lock.')

prop('C13', 'Objects are isolated from each other and from the schema',
     'Building, decoding, filling, reading or damaging one object never changes another object, a published constant, a default, nor the schema: every live object keeps encoding to its own value, and a fresh object is the same after any history as before.',
     ['histories'], 'all sequences, to a length, of operations on objects of all published constructed types',
     'Each test uses fresh objects once; aliasing between objects, or with a default or class attribute, shows only in a particular sequence of operations.',
     ALL, [('class attributes shared by all instances', 'pyasn1_modules/rfc*.py: componentType, defaults, constants')],
     'stateful exploration of operation histories on the real objects, every step checked against the model',
     TRUST + 'rfc6211 CMSAlgorithmProtection is a known finding.')

prop('C14', 'Revisions of a standard interoperate',
     'A type that several published revisions of a standard define reads, through each of them, what any of the others wrote: for every value that both standards have, same value, same bytes, in both directions.',
     ['inputs'], 'all types published by two modules of one family of standards, all values both define',
     'Each test file exercises one module only.',
     ALL, [('parallel declarations in related modules', 'rfc2459/3280/5280, rfc2315/3852/5652, rfc2560/6960, rfc1157/1905, ...')],
     'explicit-state enumeration of the values two models share, replayed across the two real modules',
     TRUST)

prop('C15', 'The PEM reader finds exactly the blocks the text has',
     'Reading repeatedly from a text returns, in order, exactly one result for each block whose begin line is among the given markers, saying which marker and giving exactly the octets of its body, then reports the end of input. '
     'Text between blocks, blocks of other kinds, indentation and kind of line ending do not matter, and each call leaves the stream right after the block it returned or refused; a block whose body is not base64 is refused. Files read alternately do not affect each other, and an error of the file itself comes through and leaves nothing behind for later reads.',
     ['histories', 'inputs', 'fault_sequences'], 'all line sequences up to a length over begin, end, body, blank and other lines; all marker sets; a read error at every line; all orders of the reads of two files',
     'Tests read one well-formed block from one string.',
     ['pyasn1_modules/pem.py'], [('readPemBlocksFromFile, readPemFromFile', 'pyasn1_modules/pem.py')],
     'explicit-state enumeration of a line-oriented state machine, every trace replayed on the real reader',
     'Not judged: the octets of a block that is never ended or that holds foreign text.')

prop('C16', 'Base64 readers return exactly the octets encoded',
     'Each of the base64 and PEM readers returns exactly the octets that the text encodes, for every octet string and every layout of its text into lines.',
     ['inputs'], 'all octet strings up to a length and all base64 digits, at all line widths, line endings and indentations',
     'Tests use a few samples with one layout.',
     ['pyasn1_modules/pem.py'], [('readBase64fromText, readBase64FromFile, readPemFromFile, readPemBlocksFromFile', 'pyasn1_modules/pem.py')],
     'exhaustive enumeration of short octet strings and layouts, replayed on the real readers',
     'Bound: all strings of two octets, one longer string cut everywhere.')

prop('C17', 'The other encodings BER allows carry the same values',
     'For every type and value, the BER encodings that differ from DER in the form of lengths (long form, indefinite form) decode with the BER decoder to the same value, and what the BER encoder writes decodes to that value.',
     ['inputs'], 'all published types and values; each element, and all elements, in every form of length',
     'Tests use the DER codec nearly always.',
     ALL, [('tags the decoder is driven by', 'pyasn1_modules/rfc*.py')],
     'explicit-state enumeration of BER forms of the model\'s values, replayed on the real BER codec',
     TRUST + 'Forms the pyasn1 library itself cannot read are listed in DESIGN.md and left out.')

TOOLS = ['tools/*.py']

prop('C18', 'The dump tools show every message given to them',
     'Each dump tool prints every message of its kind in its input, in order and with every component\'s value, and reports how many it found; text and blocks of other kinds are skipped, and a damaged message, one that is not DER, an incomplete block or unknown content ends it with an error instead of output that looks complete, or no end at all.',
     ['inputs', 'histories'], 'all values of each tool\'s message type, all sequences of at most three input pieces',
     'No test runs the tools.',
     TOOLS + ['pyasn1_modules/pem.py'], [('command-line tools', 'tools/*dump*.py')],
     'exhaustive enumeration of messages and input sequences, run through the real tools in-process',
     TRUST)

prop('C19', 'The OCSP client asks about the right certificate and reports its answer',
     'The request the OCSP client sends is the standard\'s for the certificate and issuer it is given, whatever their names, keys and serial number. '
     'It prints the status that a well-formed successful response states, and no status for any other response.',
     ['inputs', 'fault_sequences'], 'all variants of issuer name, key and serial number; all response statuses, variants and damaged responses',
     'No test runs the client.',
     ['tools/ocspclient.py', 'pyasn1_modules/rfc2560.py', 'pyasn1_modules/rfc2459.py'], [('mkOcspRequest, parseOcspResponse', 'tools/ocspclient.py')],
     'exhaustive enumeration of requests and responder behaviours, run through the real client against a responder on the loopback interface',
     TRUST)

prop('C20', 'The SNMP client sends the request it was asked for and shows the response',
     'For every community, host and object name, the datagram the SNMP client sends is the standard\'s GetRequest for them, sent to that host; it prints exactly the variable bindings of a well-formed response and nothing for a damaged one.',
     ['inputs', 'fault_sequences'], 'all boundary communities and object names, all variants of a response, all truncations',
     'No test runs the client.',
     ['tools/snmpget.py', 'pyasn1_modules/rfc1157.py', 'pyasn1_modules/rfc1155.py'], [('snmpget', 'tools/snmpget.py')],
     'exhaustive enumeration of requests and responses, run through the real client with a stand-in for the socket',
     TRUST)

prop('C21', 'Applications can register types of their own',
     'A type an application adds to one of the published registries is used at once for every open component that registry governs, and for no other; replacing it, withdrawing it or putting a standard entry back has the same immediate effect, and every other entry keeps its meaning. '
     'A map the caller hands to the decoder goes first. What was registered before further modules are imported is still there afterwards.',
     ['histories'], 'all sequences of registering, replacing and withdrawing on every registry, followed by use of every open component',
     'No test registers anything; a component bound to a copy of a registry, or to another registry, works for every entry that exists when the tests run.',
     ALL, [('open type registries', 'pyasn1_modules/rfc*.py: opentype.OpenType(..., *Map), *Map.update(...)')],
     'explicit-state exploration of registry histories on the real registries, each state used through the real codec',
     TRUST + 'Bound: histories of three operations in quick, seven in thorough.')

prop('C22', 'Values are composed of the published types in any order',
     'A component the standard declares as a published type takes any object of that type, tagged as the component declares, and is read as an object of its class. '
     'The value of a composed object depends only on the last assignment to each component: not on the order of the assignments, on values assigned before, or on whether a component was built or taken from a decoded message.',
     ['inputs', 'histories'], 'all components of all published types, all orders of assigning them, all overwriting assignments',
     'Tests decode; they hardly ever compose. A component declared with a look-alike of its type decodes and encodes every sample but refuses the object a user built for it.',
     ALL, [('component types', 'pyasn1_modules/rfc*.py: NamedType(...) declarations')],
     'explicit-state enumeration of composition histories, replayed on the real objects',
     TRUST + 'Implicit tags on CHOICE or ANY are left out.')

prop('C23', 'Objects and schemas survive pickling',
     'Every object of a published type, built, decoded or with its open components resolved, and every schema can be pickled with any protocol from 2 on and restored, in the same process or in one that has imported nothing. '
     'What is restored is the same value of the same class and independent of the original down to its innermost components; a restored schema decodes. Copies made with copy.copy are the same value, and so are those made with copy.deepcopy, which are independent too.',
     ['inputs', 'histories'], 'all values of all types and all registered open component contents, all pickle protocols from 2, same and fresh process',
     'No test pickles anything; a type declared inside a function, a lambda in an open type map or a class whose name is taken by another one breaks only there.',
     ALL, [('module-level classes', 'pyasn1_modules/rfc*.py'), ('open type registries', 'pyasn1_modules/rfc*.py: *Map')],
     'explicit-state enumeration of values and save/restore histories on the real objects',
     TRUST)

prop('C24', 'Objects convert to plain Python data and print completely',
     'The native codec turns every object, built, decoded or with its open components resolved, into the Python data of its value: dictionaries by component name, in the standard\'s order, defaults included, lists, numbers, truth values, dotted identifiers and octets. '
     'prettyPrint shows every component with its value. Given that data back, the native codec makes the same value again.',
     ['inputs'], 'all values of all published types and all registered contents of open components',
     'Tests print and convert a few decoded samples and look at a few fields of them.',
     ALL, [('component names, types and conversions', 'pyasn1_modules/rfc*.py')],
     'explicit-state enumeration of values, each converted, printed and restored by the real objects',
     TRUST + 'Values the codec library cannot make from Python data (sized or empty lists, empty BIT STRINGs, structures of which nothing is required) are converted one way only.')

prop('C25', 'Threads that use the package do not disturb one another',
     'Reading PEM or base64 text and building, encoding, decoding, converting and printing objects give each thread what they would give it alone, whatever other threads do with the package meanwhile, and leave the shared schemas as they were.',
     ['schedules'], 'all schedules of two threads, to a bound on the switches between them',
     'Tests run one thread. State kept in a module or a schema while an operation runs shows only when another operation comes in between.',
     ['pyasn1_modules/pem.py'] + ALL, [('readPemBlocksFromFile', 'pyasn1_modules/pem.py'), ('shared schema objects', 'pyasn1_modules/rfc*.py')],
     'exploration of all thread schedules up to a bound on preemptions, on the real code under a controlled scheduler',
     'Threads switch at the points the trace hook offers: every line of the package for the PEM reader, every function call for objects. Bound: one switch in quick; in thorough two for the PEM reader.')

prop('C04', 'Published types are building blocks for other types',
     'An application can clone or subclass every published type, give it explicit or implicit tags, and declare it as list element, mandatory, optional or defaulted component, alternative of a CHOICE or registered content of an open type of its own. '
     'The derived type takes the same values, has the encoding ASN.1 prescribes for it, decodes it back to the same value and refuses the encoding without its tags.',
     ['inputs'], 'all published types, all ways of deriving from them or holding them, their values',
     'Tests use the types as they are. A type whose class cannot be called with the library\'s arguments, keeps its tags or constraints to itself or presets a value works alone and fails as a part of something else.',
     ALL, [('published classes', 'pyasn1_modules/rfc*.py'), ('classes with constructors of their own', 'pyasn1_modules/rfc7191.py')],
     'explicit-state enumeration of types x derivations x values, each replayed on the real objects',
     TRUST + 'Untagged open types are used as they are; types that may not be empty and have no size of zero are left out where the library makes an empty one first.')

prop('C26', 'An interrupted import can be repeated',
     'When the import of a module is cut short at any point - by a signal, a failing dependency, want of memory - modules already loaded are unharmed, every registry holds nothing but complete registrations of the standards, and importing the module again, or anything else, succeeds and leaves the state an undisturbed import leaves. '
     'The same holds for a second interruption and for reloading a module that no other loaded module uses.',
     ['crash_points', 'histories'], 'all crash points of the import of every module, followed by further imports',
     'Tests import each module once, undisturbed.',
     ALL, [('module-level registrations', 'pyasn1_modules/rfc*.py: *Map.update(...)')],
     'exhaustive fault injection at every line of every import (quick: one of each distinct surviving state), then repeated on the real modules',
     'Crash points are lines of the module being imported; a crash in a dependency is a crash of that dependency\'s own import. Where two standards register one identifier (a finding of C11) either type may be left.')

prop('C27', 'The same in every interpreter configuration',
     'What the package does depends on neither the optimisation level of the interpreter, the seed of its hashes, the form the package has on disk (source, zip archive, byte code alone, an unusual path), strict comparison of bytes, the time zone nor the locale. '
     'Under each of them every module imports, every registry has the same entries, and values are accepted, refused and coded alike.',
     ['configurations', 'inputs'], 'the product of optimisation levels, hash seeds, forms on disk and surroundings, with all values, constraints, names, constants and registries under each',
     'Tests run in one configuration. A registration made inside an assertion, an entry picked from a set, a file found beside the source or a check by assertion changes only in another one.',
     ALL, [('module-level registrations', 'pyasn1_modules/rfc*.py: *Map.update(...)'), ('published types', 'pyasn1_modules/rfc*.py')],
     'explicit-state exploration of the other properties\' state spaces repeated in every interpreter configuration, on the real code',
     'Assertions in the command-line tools, by which they check their input, are switched off by -O on request and not judged there.')

prop('C28', 'Objects act as the Python values they stand for',
     'Objects of the published types compare, order and hash as their values do: two objects are equal exactly when they hold the same value. '
     'A list has its length, elements and order; a structure maps the standard\'s component names, in order, to its components; a CHOICE shows the alternative chosen; numbers, truth values, texts, octets, bits, identifiers and times convert, slice, iterate and calculate as the corresponding Python values. '
     'Looking at an object in any of these ways does not change it.',
     ['inputs'], 'all values of all published types, built and decoded, and all ordered pairs of a bounded number of them',
     'Tests compare a few decoded fields with constants. A comparison, length or conversion of a type\'s own goes wrong for values and pairs no sample has.',
     ALL, [('published classes', 'pyasn1_modules/rfc*.py')],
     'explicit-state enumeration of values and pairs of values, each operation replayed on the real objects',
     TRUST + 'pyasn1 cannot compare an absent component with a present one, and compares a CHOICE as its contents; such pairs are left out.')

prop('C29', 'Objects show their present value',
     'Whatever was done with an object before - encoding, printing, converting, comparing, measuring, checking or copying it - it always shows the value it has now: after a change to it or to any part of it, however deep, each of these gives what a fresh object of the new value gives. '
     'An object that breaks its constraints after a change is refused though it was accepted before, and the other way round.',
     ['histories', 'inputs'], 'all pairs of a bounded number of values of all types, changed in place from one to the other, after each way of looking at the object',
     'Tests build or decode an object once and never change it after use. Anything a type remembers about itself is right until a part of the object changes.',
     ALL, [('published classes', 'pyasn1_modules/rfc*.py')],
     'explicit-state exploration of histories look - change - look on the real objects, against fresh objects and the reference encoder',
     TRUST + 'pyasn1 makes blank objects of absent components when it looks at them, so fresh objects are looked at once before they are compared with.')

#MORE


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p['id'], 'quick_cmd': '%s %s --tier quick' % (PY, p['id']),
                     'thorough_cmd': '%s %s --tier thorough' % (PY, p['id']), 'technique': p['technique'],
                     'level': 'model_checking', 'level_note': p['note'].strip()} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'No hooks in /repo: the checks use the public modules as they are.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    assert all(len(p['title']) <= 80 for p in P), [p['id'] for p in P if len(p['title']) > 80]


main()
