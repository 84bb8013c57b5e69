#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the specs the harness lists (run by hand)."""
import json, subprocess, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = subprocess.run(['/verif/.build/target/debug/faerie-verif', 'list'], capture_output=True, text=True).stdout.split()
T = {
 'C01': 'stateful property-based testing against a reference model of the declaration rules',
 'C02': 'stateful property-based testing; metamorphic: history with and without its rejected calls',
 'C03': 'metamorphic property-based testing: legal re-orderings of a generated history',
 'C04': 'property-based testing of determinism over generated histories and interleaved emissions',
 'C05': 'property-based testing of emission outcomes over generated histories, formats and triples',
 'C06': 'property-based testing with injected I/O faults and file states; differential against emit()',
 'C07': 'property-based testing with a strict ELF parser/validator as oracle, sampled differential against GNU and LLVM readers',
 'C08': 'property-based round trip: definitions in, parsed object out',
 'C09': 'property-based round trip: declarations in, parsed symbol table out',
 'C10': 'property-based testing: declared attributes against parsed section headers',
 'C11': 'property-based round trip: links in, parsed relocations out, against a relocation table oracle',
 'C12': 'generated executable programs, linked and run; differential against an interpreter',
 'C13': 'property-based testing with generators at the edges of 16-bit section numbering',
 'C14': 'property-based testing with a strict Mach-O parser/validator as oracle, sampled differential against LLVM readers',
 'C15': 'property-based round trip: definitions in, parsed Mach-O object out',
 'C16': 'property-based round trip: declarations in, parsed Mach-O symbol table out',
 'C17': 'property-based testing: declared attributes against parsed Mach-O sections',
 'C18': 'property-based round trip: links in, parsed Mach-O relocations out',
 'C19': 'generated programs linked by a Mach-O linker; image checked against the link model',
 'C20': 'metamorphic property-based testing across targets, with a header table as oracle',
 'C21': 'differential property-based testing: ELF against Mach-O emission',
 'C22': 'property-based testing with a hostile-name generator against the model',
 'C23': 'property-based testing over arbitrary links: emitted unaltered or refused',
 'C24': 'model-based property testing of builder call sequences',
 'C25': 'generated multi-object programs, linked and run; differential against a symbol-resolution model',
 'C27': 'generated programs for eighteen ELF targets, linked; image checked against the link model',
 'C29': 'generated debug information read back by a DWARF reader from objects and linked programs',
 'C28': 'property-based round trip with values at the limits of the fields: exact or refused',
 'C26': 'metamorphic property-based testing: artifact with and without one part',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': T[i], 'level': 'exploration',
                       'level_note': 'Random search over generated cases with shrinking, not exhaustive: the evidence file gives the number of cases, how many are non-trivial by the stated rule, and samples.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
