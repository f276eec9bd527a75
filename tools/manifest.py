"""writes MANIFEST.json from the registry of rules and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules import REGISTRY

NA = {
    'N01': 'depends on the characters of the text run through regular expressions and slicing; a static argument '
           'would have to bound string values at run time',
    'N02': 'an equation between two string transformations for all texts; no static analysis in reach decides it '
           'without executing them symbolically',
    'N03': 'depends on the content held by io and zipfile objects at run time, which no dataflow fact bounds',
    'N04': 'the comparison of member names loops over the characters and parts of runtime strings; its arithmetic '
           'is not decided by dataflow or typestate facts',
    'N05': 'the memory backend does not serialise its operations, and which interleavings of its dictionary '
           'accesses matter depends on the contents at run time; a lockset analysis could only report that there '
           'is no lock',
    'N06': 'is decided by what the operating system and zipfile leave on disk at a crash, not by the source of '
           'the package',
    'N07': 'is a bound on elapsed time',
}
NOTE = {
    'default': 'Sound for the modelled language subset up to the unrolling of loops (each collection stands for up '
               'to two elements) and the stated models of the standard library; trusts the interpreter in sa/.',
}
TECH = {
    'C01': 'path-sensitive abstract interpretation: typestate of the connection, argument and result dataflow',
    'C02': 'signature binding of every operation call against method resolution on every backend',
    'C03': 'dataflow of the address components into key, table and factory call',
    'C04': 'lockset and typestate analysis along all paths including failing calls',
    'C05': 'path-sensitive effect-order analysis of cleanup, shutdown and cleaner',
    'C11': 'path-sensitive effect analysis of removal against a decision table',
    'C12': 'path-sensitive effect analysis of recursive removal, dataflow of removed paths',
    'C06': 'abstract interpretation of the registries and factories: dataflow of scheme to class',
    'C07': 'provenance dataflow of every address component through every derivation',
    'C08': 'alias and effect analysis: no write reaches the receiver or a shared mutable object',
    'C09': 'dependence analysis: which components decide the result of equality',
    'C10': 'nullness analysis of the parsers, split arity, taint-style codec comparison',
    'C13': 'path-sensitive effect analysis of copying with the follow-links choice tracked through recursion',
    'C14': 'path-sensitive typestate of handles and dataflow of the copied entries and chunks',
    'C15': 'path-sensitive effect-order analysis: identity guard before any write; backend separation',
    'C16': 'path-sensitive effect-order analysis of move',
    'C17': 'path-sensitive analysis of a generator with the yielded list havocked',
    'C18': 'path-sensitive dataflow of listings, patterns and created directories',
    'C19': 'path-sensitive type and exception analysis of the memory tree',
    'C20': 'path-sensitive analysis of link resolution: which lookups follow, bound on the recursion',
    'C21': 'path-sensitive effect analysis of every insertion into the memory tree',
    'C22': 'typestate of memory file objects per opening mode',
    'C23': 'lockset analysis of the memory file lock on all paths including failing calls',
    'C24': 'escape analysis of mutable class and module level state',
    'C25': 'dataflow of metadata between the two URIs and per-bit abstract domain for modes',
    'C26': 'override analysis of the symlink operations against method resolution',
    'C27': 'typestate and effect-order analysis of archive writing',
    'C28': 'typestate of archive handles on all paths including failing calls',
    'C29': 'exception-flow analysis of every handler',
    'C30': 'exception-flow analysis of context managers around their yield',
    'C31': 'dataflow of the read chunks into the digest',
    'C32': 'path-sensitive dataflow of tree entries into the output, effect analysis of the dump',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in REGISTRY:
            checks.append({
                'property': i,
                'quick_cmd': 'python3 -m sa %s --tier quick' % i,
                'thorough_cmd': 'python3 -m sa %s --tier thorough' % i,
                'technique': 'static analysis: ' + TECH.get(i, 'path-sensitive abstract interpretation of the source'),
                'level': 'other',
                'level_note': REGISTRY[i][0] + ' ' + NOTE['default'],
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no static check has been built for it yet')})
    data = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
            'notes': 'Static analysis of the source of abl.vpath; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


main()
