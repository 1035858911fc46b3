"""Which lemmas state which property."""

# property -> list of (package, lemma); assertions named 'Cnn: ...' count for that property only,
# the others for every property that lists the lemma
PROPS = {
    'C01': [('agentx', 'zlEncode')],
    'C02': [('agentx', 'zlRound')],
    'C03': [('agentx', 'zlHeader'), ('agentx', 'zlPayload')],
    'C04': [('agentx', 'zlHeader')],
    'C05': [('agentx', 'zlPayload')],
    'C06': [('agentx', 'zlEncode')],
    'C07': [('agentx', 'zlEncodeDbg'), ('agentx', 'zlHeaderDbg'), ('agentx', 'zlPayloadDbg'),
            ('agentx', 'zlPduText'), ('agentx', 'zlText_Flags'), ('agentx', 'zlText_SearchRange'), ('asn', 'zlText_Varbind')],
    'C08': [('agentx', 'zlEncode'), ('agentx', 'zlHeader'), ('agentx', 'zlPayload')],
    'C09': [('asn', 'zlTagText'), ('asn', 'zlValueText'), ('asn', 'zlVarbindText'), ('ipa', 'zlIpText'), ('pduerror', 'zlErrorText'),
            ('agentx', 'zlFlagsText'), ('agentx', 'zlPduTagText'), ('agentx', 'zlReasonText'), ('agentx', 'zlRangeText')],
    'C10': [('oid', 'zlCompare'), ('oid', 'zlCompareAntisym'), ('oid', 'zlCompareEq'), ('oid', 'zlCompareTrans'),
            ('oid', 'zlRelations'), ('oid', 'zlHasPrefix')],
    'C17': [('hex', 'zlDumpSub'), ('hex', 'zlDump'), ('hex', 'zlDumpTail'), ('hex', 'zlDiff')],
    'C18': [('agentx', 'zlValid')],
    'C12': [('oid', 'zlString'), ('oid', 'zlFprint'), ('oid', 'zlParse'), ('oid', 'zlTextRound')],
    'C11': [('oid', 'zlClone'), ('oid', 'zlCat')],
}

# concrete consequences of the lemmas, run by the search for failing inputs only (never part of a proof)
EXTRA = {
    'C03': [('agentx', 'zxPayloadAlloc')],
    'C06': [('agentx', 'zxEncodeHuge')],
    'C07': [('agentx', 'zxPduString')],
    'C08': [('agentx', 'zxEncodeTwice'), ('agentx', 'zxDecodeTwice')],
}

# functions whose proof rests on assumed contracts of package reflect: the lemmas are also run on the real code, on random inputs (bounded)
STANDIN = {
    'C07': ('internal.StructString', 'agentx.zlPduText', [('agentx', 'zxPduString'), ('agentx', 'zlEncodeDbg'), ('agentx', 'zlHeaderDbg'), ('agentx', 'zlPayloadDbg')]),
}

# properties which say nothing about calls that panic
PANIC_OK = {'C08', 'C11'}

# seconds for one job, where the default is too short
BUDGET = {'C02': 280}

# properties of the tree, decided by TreeCheck
TREE = {'C13', 'C14', 'C15', 'C16'}
