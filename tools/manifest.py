"""Regenerate MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.setrecursionlimit(20000)
import props
IR = 'abstract interpretation of the LLVM IR of the current sources'
TECH = {
    'C01': 'decoded operators as terms (value numbering) against the documented operation, per partition',
    'C02': 'byte-set partitioning of the decoder against a reference grammar',
    'C03': 'byte-set partitioning of the decoder, returned position against a reference grammar',
    'C04': 'bit provenance of immediates through the decoder; alignment of loads',
    'C05': 'linear-inequality bounds and inductive loop invariants over code of any length',
    'C06': 'variant-tag (NULL) analysis over all NULL patterns',
    'C07': 'three-valued truth tables over all partitions',
    'C08': 'stack-effect (typestate) analysis of every operator',
    'C09': 'variant-tag analysis of results against the declared type',
    'C10': 'trap and undefined-behaviour obligations on division, in every sign partition',
    'C11': 'interval and floating-point order analysis of the limit checks',
    'C12': 'order domain: every comparison decided in the three order partitions',
    'C13': 'linear-inequality and string-segment analysis for every start, end and length',
    'C14': 'state comparison over run/decode histories (effect analysis)',
    'C15': 'effect analysis: stores and mutable static state over all functions of the library',
    'C16': 'variant-tag and term analysis of equality and hashing over all pairs of types',
    'C17': 'ownership typestate of tuples over every operator and failure point',
    'C18': 'ownership typestate of decoded programs; compile-fail witnesses for copies',
    'C19': 'identity and term analysis of filters per truth value',
    'C20': 'term analysis of projections against the documented results',
    'C21': 'chains of operators against a reference pipeline, as terms',
    'C22': 'aggregation results as terms over all NULL patterns of a column',
    'C23': 'grouping over all key-equality patterns against a reference grouping',
    'C24': 'byte-set partitioning of the relational decoder; decoded operators as terms',
    'C26': 'term and typestate analysis of variables for symbolic indices',
    'C27': 'conversion terms and intervals against the documented conversion',
    'C28': 'variant-tag and term analysis of the adaptors',
    'C31': 'element terms of the resulting tuples; ownership of the result',
    'C32': 'lifetime typestate: results re-read after everything they were made from has been released or reused',
    'C33': 'linear-inequality bounds on every allocation for code of any length',
    'C29': 'byte-set tables and loop invariants of the hexadecimal conversion',
}
NOTE = ('Static: the IR of every translation unit is interpreted over abstract values (terms, finite sets, linear inequalities, order facts, ownership states); no code of the '
        'library is executed. A discharged obligation holds for every value of the symbolic inputs of that obligation; obligations that the domains cannot settle are reported as '
        'undecided and never as violations, and a violation is reported only with a valuation that satisfies the facts of its path. Trusts clang\'s IR and the transfer functions of '
        'libc, libm and std::string. ')
EXTRA = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
NA = EXTRA['not_applicable']
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in props.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
                       'technique': TECH[i] + ' (%s)' % IR, 'level': 'other', 'level_note': NOTE + EXTRA['bounds'].get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Everything is decided from LLVM IR compiled on every run from /repo\'s sources (sa/build.py); see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
