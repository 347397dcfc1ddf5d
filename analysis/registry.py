"""Which component decides which property, and how evidence is written."""
import os

GRAMMAR = ('abstract interpretation of the type-checked MIR of every parser production, explored in lockstep with a grammar '
           'specification (product automaton with linear-arithmetic and tag facts)')
LEXICON = ('abstract interpretation of the type-checked MIR of the scanner for an unbounded source of unknown characters, explored in '
           'lockstep with a specification of the lexical rules (product automaton with text, character and linear-arithmetic facts)')
SCOPING = ('abstract interpretation of the type-checked MIR of the resolver for an unknown tree, unknown scopes and any nesting depth, '
           'explored in lockstep with a specification of the scoping rules (product automaton with tag, map-key and linear-arithmetic facts)')
PROGRESS = ('termination analysis: on every cycle of the abstract product graphs of scanner, parser and resolver a position advances, a finite '
            'collection shrinks or a fixed repetition is counted')
NOPANIC = ('panic-path reachability: every panicking operation reachable in the MIR is an obligation discharged by the facts of the abstract '
           'interpretation at that point')

SERIAL = ('path-sensitive abstract interpretation of the MIR of the WebAssembly configuration (compiled for analysis only): the values '
          'handed to the JavaScript serializer are compared with the type definitions')
OUTPUT = ('abstract interpretation of the type-checked MIR of the program for unknown input, with an event-trace monitor for what is read, '
          'parsed, resolved, printed and returned (typestate analysis with loop invariants by anti-unification)')

PROPS = {
    'T03': {'components': ['c_safety'], 'technique': 'call-graph effect analysis over type-checked MIR'},
    'T04': {'components': ['c_safety'], 'technique': 'unsafe-operation audit of the type-checked program (HIR/MIR facts)'},
}
for _p in range(1, 19):
    PROPS['P%02d' % _p] = {'components': ['c_parser'], 'technique': GRAMMAR}
for _p in range(1, 11):
    PROPS['L%02d' % _p] = {'components': ['c_scanner'], 'technique': LEXICON}
for _p in range(1, 10):
    PROPS['R%02d' % _p] = {'components': ['c_resolver'], 'technique': SCOPING}
PROPS['T01'] = {'components': ['c_scanner', 'c_parser', 'c_resolver'], 'technique': PROGRESS}
PROPS['T02'] = {'components': ['c_safety', 'c_scanner', 'c_parser', 'c_resolver'], 'technique': NOPANIC}

for _p in ('C01', 'C02', 'C03', 'E01'):
    PROPS[_p] = {'components': ['c_cli'], 'technique': OUTPUT}

for _p in ('W01', 'W02'):
    PROPS[_p] = {'components': ['c_wasm'], 'technique': SERIAL}

NOTE = ('Decided from the source on every run, for all inputs, without executing it; trusts the rustc front end, the '
        'dumping driver and the analyser.')
NOT_APPLICABLE = {}

TRUST = ['rustc nightly front end and MIR construction', 'the dumping driver in /verif/driver',
         'the analyser in /verif/analysis']


def evidence(pid, tier, analysed, viol, known, wall):
    cov = {'explanation': PROPS[pid].get('explanation') or PROPS[pid]['technique']}
    for name, c in analysed.items():
        for k, v in (c.get(pid) or c).items():
            cov[k] = v
    cov['reported'] = [{'key': f.key, 'where': f.where, 'message': f.message[:400]} for f in viol]
    cov['known_findings'] = [f.key for f in known]
    return {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': cov, 'assumptions': TRUST + PROPS[pid].get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(viol)}


def summary(analysed):
    out = []
    for name, c in analysed.items():
        for pid, x in c.items():
            if isinstance(x, dict):
                out.append(' '.join('%s=%s' % (k, v) for k, v in x.items() if isinstance(v, int)))
    return '; '.join(out)
