"""Properties and manifest: python3 tools/meta.py rewrites properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                        'observe_at': list(observe), 'hook_needed': None}}


AX = ['agentx/pdu.go', 'agentx/encoding.go', 'agentx/varbind.go', 'agentx/search_range.go', 'agentx/payload_params.go', 'agentx/pdu_tag.go', 'agentx/flags.go']
ENC = [('EncodePdu / countPayloadSize / size and append helpers', 'agentx/pdu.go, agentx/encoding.go, agentx/varbind.go, agentx/search_range.go, agentx/payload_params.go'),
       ('pduTable (flags, parameter codecs, ranges/varbinds per type)', 'agentx/pdu_tag.go')]
DEC = [('DecodePduHeader, DecodePduPayload, decoder.parse*', 'agentx/pdu.go, agentx/encoding.go, agentx/varbind.go, agentx/search_range.go, agentx/payload_params.go'),
       ('pduTable', 'agentx/pdu_tag.go')]

PROPERTIES = [
    P('C01', 'Encoded PDUs have exactly the RFC 2741 byte layout',
      'Whenever encoding a PDU reports success, the returned bytes are exactly the AgentX (RFC 2741) encoding of it: a 20-byte header (version 1, type, flags, zero, session, transaction and packet id, payload length equal to the bytes that follow), then the context when the non-default-context flag is set, the parameters of that PDU type, and the search ranges or variable bindings the type carries, in order. Integers follow the byte order chosen by the flags; object identifiers use the 1.3.6.1 prefix compression exactly when the fifth sub-identifier is 1..255; octet strings and opaque values carry their length and are padded with zero bytes to 4-byte boundaries.',
      ['inputs'], 'every PDU value: every type, flag combination, id, context, parameters, any number of search ranges and variable bindings of any value type and length',
      'the tests encode one fixed PDU per type and compare it with a stored byte string; prefix bytes, paddings, lengths and byte orders beyond those samples are never looked at',
      AX, ENC, observe=['EncodePdu']),
    P('C02', 'Decoding an encoded PDU gives the PDU back',
      'If encoding a PDU succeeds, then decoding the first 20 bytes as header and the rest as payload succeeds and yields the same type, flags, ids, payload size, context (when present), parameters, search ranges and variable bindings. Information the wire format cannot carry is the only thing that may differ: the include bit of a null start identifier, the upper bound of a registration without a range sub-identifier, and values attached to types that carry none.',
      ['inputs'], 'every PDU that can be encoded, any number of ranges and bindings, both byte orders',
      'the tests round-trip one fixed PDU per type',
      AX, ENC + DEC, observe=['EncodePdu', 'DecodePduHeader', 'DecodePduPayload']),
    P('C03', 'Decoding is total and safe on arbitrary bytes',
      'Header and payload decoding of any byte sequence, for any header, return normally: no panic reaches the caller, they terminate, and no allocation they make is larger than a constant plus a constant multiple of the size of the input buffer, whatever lengths and counts the bytes claim.',
      ['inputs'], 'every byte sequence and every decoded header, including hostile ones',
      'the tests decode only well-formed bytes plus a few truncations',
      AX, DEC, observe=['DecodePduHeader', 'DecodePduPayload']),
    P('C04', 'Header decoding accepts exactly well-formed headers',
      'Header decoding succeeds for exactly the inputs of 20 bytes whose version is 1, whose reserved byte is 0, whose type is known, whose flags are allowed for that type and whose payload length is non-negative and a multiple of 4; on success every field (type, flags, session, transaction and packet id, payload length) is the one in the bytes, read in the byte order the flags select, and no payload field is set.',
      ['inputs'], 'every byte sequence',
      'the tests decode the header of one sample PDU per type',
      ['agentx/pdu.go', 'agentx/flags.go', 'agentx/pdu_tag.go', 'agentx/encoding.go'], [('DecodePduHeader', 'agentx/pdu.go'), ('NotAllowedFlags, byteOrder', 'agentx/pdu_tag.go, agentx/flags.go')], observe=['DecodePduHeader']),
    P('C05', 'Payload decoding accepts exactly well-formed payloads',
      'Payload decoding succeeds exactly when the payload is a well-formed RFC 2741 payload for the header: its length is the announced one and it is completely consumed by the context (when flagged), the parameters of the type, and the search ranges or variable bindings it carries, all of them well-formed. On success the context, parameters, ranges and bindings are precisely the ones in the bytes, in order, and the header fields are unchanged.',
      ['inputs'], 'every header and every byte sequence',
      'the tests decode one well-formed payload per type',
      AX, DEC, observe=['DecodePduPayload']),
    P('C06', 'Encoding never panics and refuses exactly the unencodable PDUs',
      'Encoding any PDU value returns normally, and it reports failure exactly for PDUs that have no valid encoding: unknown type, missing or mismatched parameters, flags not allowed for the type, an object identifier of more than 128 encoded sub-identifiers, a variable binding whose value does not fit its tag, negative GetBulk counts, or a payload longer than the length field can hold.',
      ['inputs'], 'every PDU value, including ill-typed parameters and values',
      'the tests encode only valid PDUs',
      AX, ENC, observe=['EncodePdu']),
    P('C07', 'Debug variants behave like the plain functions',
      'For every input, the logging variants of encoding, header decoding and payload decoding return exactly the same success flag, bytes and PDU contents as the plain functions, and no panic reaches the caller.',
      ['inputs'], 'every PDU value and every byte sequence',
      'the tests run the debug variants only on one sample PDU per type',
      AX + ['agentx/encoding_dbg.go'], [('EncodePduDbg, DecodePduHeaderDbg, DecodePduPayloadDbg and the *Dbg helpers', 'agentx/pdu.go, agentx/encoding_dbg.go, agentx/varbind.go, agentx/payload_params.go, agentx/search_range.go')],
      observe=['EncodePduDbg', 'DecodePduHeaderDbg', 'DecodePduPayloadDbg']),
    P('C08', 'Codec calls are isolated from their arguments and each other',
      'Encoding and decoding never modify memory of their arguments (decoding writes only the PDU it is given), and what they return shares no memory with the input bytes or the input PDU: changing either afterwards does not change the result.',
      ['inputs', 'histories'], 'every PDU value and byte sequence, and every later modification of inputs or results',
      'the tests never modify an input or a result after the call',
      AX, ENC + DEC, observe=['EncodePdu', 'DecodePduPayload']),
    P('C09', 'Text forms are total and exact',
      'Printing a value tag, PDU type, close reason, error code, flag set, value, variable binding, search range or IP address never panics and shows exactly what it holds. A known tag, type, reason or error prints its own name and any other one its number; a flag set prints the names of exactly the flags set, lowest bit first, separated by bars. A value prints in the form that belongs to its tag: numbers in decimal with their sign and full width, text as it is, identifiers and addresses in dotted decimal, opaque bytes in decimal in braces, nothing for null and the exceptions, and a question mark if the value does not have the type of its tag. Bindings and ranges print their parts in order, and printing into a builder only appends.',
      ['inputs'], 'every tag, code, flag set, identifier and value of every type',
      'the tests print a few well-formed values',
      ['asn/value.go', 'asn/varbind.go', 'ipa/ip_address.go', 'pduerror/error_string.go', 'agentx/flags.go', 'agentx/pdu_tag.go', 'agentx/close_reason.go', 'agentx/search_range.go'],
      [('Tag.String, Tag.Fprint', 'asn/value.go'), ('Varbind.Fprint, Varbind.String', 'asn/varbind.go'), ('Fprint, String', 'ipa/ip_address.go'), ('Error.String', 'pduerror/error_string.go'), ('Flags.String, PduTag.String, CloseReason.String, SearchRange.Fprint, SearchRange.String', 'agentx')], observe=['String and Fprint methods']),
    P('C10', 'OID comparison is the lexicographic total order',
      'Comparing two object identifiers yields -1, 0 or 1 according to the lexicographic order of their sub-identifiers as unsigned numbers (a proper prefix being smaller); it is antisymmetric, transitive, and 0 exactly for equal identifiers. The six relation predicates agree with it, and the prefix test holds exactly when the identifier starts with the given sub-identifiers.',
      ['inputs'], 'all identifiers of any length, all pairs and triples',
      'the tests compare a handful of pairs',
      ['oid/oid.go', 'generics/generics.go'], [('Compare, Lt, Le, Eq, Ne, Ge, Gt, HasPrefix', 'oid/oid.go'), ('Min', 'generics/generics.go')], observe=['oid.Compare']),
    P('C11', 'OID clone and concatenation are exact and independent',
      'Cloning an object identifier and appending sub-identifiers to one give a new identifier with exactly the expected sub-identifiers; the arguments are unchanged, and the result shares no memory with them.',
      ['inputs', 'histories'], 'all identifiers and sub-identifier lists, all later modifications',
      'the tests never modify a result and look at the source',
      ['oid/oid.go'], [('Clone, Cat', 'oid/oid.go')], observe=['oid.Clone', 'oid.Cat']),
    P('C12', 'OID text form and parsing are inverse',
      'The text form of an object identifier is its sub-identifiers in decimal without leading zeros, separated by dots; parsing that text gives the identifier back, if it has at most 128 of them. Parsing accepts exactly the texts with an optional leading dot followed by nothing or by at most 128 dot-separated decimal numbers below 2^32, gives their values, and panics on every other text.',
      ['inputs'], 'all identifiers and all texts',
      'the tests print and parse a few identifiers',
      ['oid/oid.go'], [('Fprint, String, Parse', 'oid/oid.go')], observe=['oid.String', 'oid.Parse']),
    P('C13', 'The OID tree stores exactly the nodes added and not removed',
      'After any history of additions, removals and clearing, the tree holds exactly the identifiers (with all their prefixes) that were added and neither removed, nor below a removed identifier, nor cleared since: looking up an identifier finds a node exactly if the tree holds it, always the same node until it is removed, and the sub-identifiers on the way from the root to that node spell the identifier. Adding a new identifier returns its node and adds nothing but it and its missing prefixes; adding one that is held returns nil and changes nothing. Removal reports whether the identifier was held (the root cannot be removed) and removes exactly that node and everything below it. Every node keeps its children strictly sorted by sub-identifier. No operation panics.',
      ['histories', 'inputs'], 'every sequence of operations and every identifier',
      'the only tree test adds one node',
      ['oid/tree.go', 'oid/node.go'], [('addNode, getNode, removeNode, Clear', 'oid/node.go, oid/tree.go')],
      state=[('Children', 'sorted child list', 'oid/node.go Node')], observe=['Tree.AddNode', 'Tree.GetNode', 'Tree.RemoveNode', 'Tree.Clear']),
    P('C14', 'Next-node search returns the least leaf of the range',
      'Searching the tree for the next node of a range returns the leaf with the smallest object identifier that lies after the lower bound (or equals it, when the bound is included) and before the upper bound (an empty upper bound meaning no bound), and nothing exactly when no leaf lies there. A leaf is a node without children; the root of an empty tree is one, with the empty identifier.',
      ['inputs', 'histories'], 'every tree, every pair of bounds, both include settings',
      'no test calls it',
      ['oid/tree.go', 'oid/node.go'], [('getNextNode', 'oid/node.go')], observe=['Tree.GetNextNode']),
    P('C15', 'Leaf traversal visits every leaf once in ascending order',
      'Traversing the leaves calls the visitor exactly once for every leaf below the root, with the leaf and its full object identifier, in strictly ascending identifier order; the identifiers handed to the visitor stay as they are when kept.',
      ['inputs', 'histories'], 'every tree',
      'no test calls it',
      ['oid/tree.go', 'oid/node.go'], [('forRangeLeaves', 'oid/node.go')], observe=['Tree.ForRangeLeaves']),
    P('C16', 'Every tree operation holds the tree lock for its whole access',
      'Each public tree operation acquires the tree lock before it touches any node, exclusively if it may change the tree and at least shared otherwise, touches no node after releasing it, and acquires and releases it only once on every way out, including panics of a visitor.',
      ['schedules', 'histories'], 'every operation, argument and way out; hence every interleaving of operations of several goroutines',
      'no test uses the tree concurrently, and a missing lock shows only in particular interleavings',
      ['oid/tree.go'], [('lock / defer unlock in every operation', 'oid/tree.go')], state=[('lock', 'protects root and all nodes', 'oid/tree.go Tree')], observe=['Tree operations']),
    P('C17', 'Hex dumps are exact, total and show a diff iff data differ',
      'A hex dump of bytes never panics and shows exactly those bytes: every byte once, in order, as two hexadecimal digits, with correct line offsets; the dump of a part shows exactly that part. The diff of two byte sequences is empty exactly if they are equal.',
      ['inputs'], 'every byte sequence and every part of it',
      'hex dumps have no tests of their own',
      ['hex/dump.go'], [('Dump, DumpSub, DumpDiff', 'hex/dump.go')], observe=['hex.Dump', 'hex.DumpSub', 'hex.DumpDiff']),
    P('C18', 'Value validation agrees with what the codec accepts',
      'For every tag and value, the validity check of an ASN value holds exactly when the value has the Go type that belongs to the tag, which is exactly when a variable binding with that tag and value can be encoded (values being short enough for the wire format).',
      ['inputs'], 'every tag and every value of every type',
      'the tests check no invalid combination',
      ['asn/value.go', 'asn/tag.go', 'agentx/varbind.go'], [('IsValidValue table', 'asn/value.go'), ('value encoders', 'agentx/varbind.go')], observe=['asn.Tag.IsValidValue', 'EncodePdu']),
]

# property -> (level_note) of the claimed ones
CLAIMED = {
    'C01': 'proved for all PDUs from the SSA of the current source; int treated as mathematical integer',
    'C02': 'proved for all PDUs with any number of ranges and bindings, from the SSA of the current source (decode-after-encode rules proved for the specification, applied to the real functions through their contracts); int treated as mathematical integer',
    'C03': 'no escaping panic, termination of every loop, and the size of every allocation proved for all headers and byte sequences',
    'C04': 'proved for all byte sequences from the SSA of the current source',
    'C05': 'proved for all headers and byte sequences from the SSA of the current source',
    'C06': 'proved for all PDUs from the SSA of the current source; int treated as mathematical integer',
    'C07': 'proved for all PDUs, headers and byte sequences, for every log that returns normally; Pdu.String proved to return normally over assumed contracts of package reflect',
    'C08': 'frame and aliasing obligations proved for all arguments (memory regions tracked by the verifier)',
    'C09': 'proved for all values from the SSA of the current source; strconv.FormatInt and FormatUint are uninterpreted (the text is that function of the number)',
    'C10': 'proved for all identifiers from the SSA of the current source',
    'C11': 'proved for all identifiers from the SSA of the current source, including aliasing',
    'C12': 'proved for all identifiers and texts from the SSA of the current source; strconv.ParseUint and FormatUint assumed inverse on numbers in range, the strings functions assumed as documented',
    'C13': 'contract of every operation and well-formedness of the node heap proved for all trees and identifiers, hence for all histories; one operation at a time (C16)',
    'C14': 'proved for all well-formed trees (C13) and all bounds, including termination of the recursion',
    'C15': 'proved for all well-formed trees (C13), for visitors that do not use the tree',
    'C16': 'lock contract of every operation proved for all paths (fixed point over the SSA of the operation and everything it calls); visitors may panic; other run-time panics of node operations are excluded by C13, C14, C15',
    'C18': 'proved for all tags and values of every Go type the interface can hold',
    'C17': 'proved for all data, prefixes and ranges; int treated as mathematical integer',
}

NA = {}

HEAPTECH = 'contract-based deductive verification of the Go SSA of the real functions over an explicit node heap with ghost state (own verifier, Z3)'

TECH = {
    'C13': HEAPTECH,
    'C14': HEAPTECH,
    'C15': HEAPTECH,
    'C16': 'contract-based deductive verification of lock contracts (ghost lock state) over the Go SSA of the real functions (own fixed-point verifier)',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in PROPERTIES:
        i = p['id']
        if i in CLAIMED:
            checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s quick' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, 'contract-based deductive verification of the Go SSA of the real functions (own verifier, Z3)'),
                           'level': 'exploration' if 'BOUNDED' in CLAIMED[i] else 'proof', 'level_note': CLAIMED[i]})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'contracts for this part are still being written')})
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: contracts and lemmas are Go files under specs/ that the checks lay over /repo at load time (never written there). Repairs of defects are the fix: commits listed in known-findings.txt.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
