#!/usr/bin/env python3
"""KNOWN_FINDINGS.txt from the list of repairs below and the git log of /repo (run by hand)."""
import subprocess
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.splitlines()]
FIXED = [  # (start of the subject, properties, what failed)
 ('fix: treat weak definitions as non-local', 'C07 C25', 'weak symbols were written before the local/global boundary of the ELF symbol table and counted in its sh_info'),
 ('fix: count custom section symbols as local', 'C07', "sh_info of the ELF symbol table was too small when custom section symbols existed"),
 ('fix: give zero-init data its size', 'C08 C10', 'zero-initialised ELF data had section size or alignment other than declared'),
 ('fix: use the 32-bit container', 'C20 C07', 'targets with 16-bit pointers were written as 64-bit objects'),
 ('fix: name the requested format', 'C05', "the unsupported-format error named the target's own format, not the requested one"),
 ('fix: leave unescaped symbols out', 'C13', 'entries of SYMTAB_SHNDX repeated the section index for symbols that are not escaped'),
 ('fix: allow an artifact to be named', 'C22', 'an artifact named ".strtab" or ".symtab" lost its file name or string table'),
 ('fix: keep ELF custom sections apart', 'C22', 'a custom section named like a generated one (".text.f", ".strtab", ...) replaced it or was replaced'),
 ('fix: give ELF custom sections the memory', 'C10', 'custom data and text sections were not allocated, writable or executable as their kind says'),
 ('fix: refer to weak definitions', 'C25', 'links to weak definitions were bound to the section symbol, so a strong definition elsewhere did not replace them'),
 ('fix: export weak definitions', 'C16 C21', 'Mach-O weak definitions were not external and hidden ones not private external'),
 ('fix: keep writable strings out', 'C17', 'writable string data was put into the Mach-O literal-string section of the read-only segment'),
 ('fix: only use the x86 cpu subtype', 'C20', 'every Mach-O object had the x86 cpu subtype'),
 ('fix: align Mach-O sections and the first', 'C15 C17 C20', 'Mach-O sections and the first definition in each were not aligned as declared'),
 ('fix: lay out Mach-O zero-init data', 'C15 C14', 'zero-initialised Mach-O data overlapped or shifted what follows it and had the wrong extent'),
 ('fix: put each Mach-O relocation into', 'C18 C23 C03', 'Mach-O relocations went to the wrong section for sources in __cstring and custom sections'),
 ('fix: refuse Mach-O links without', 'C23', 'Mach-O links whose target has no symbol were dropped silently'),
 ('fix: refuse raw Mach-O relocation types', 'C23', 'raw Mach-O relocation types above 15 were cut to four bits'),
 ('fix: keep Mach-O custom sections apart', 'C22', 'a custom Mach-O section named __text, __data, __cstring or __bss replaced the default one'),
 ('fix: refuse more Mach-O sections', 'C16', 'with more than 255 Mach-O sections, section ordinals wrapped'),
 ('fix: pad Mach-O string literals', 'C17 C19', 'padding of 0xaa in __cstring became the start of the string behind it, which lost its alignment when linked'),
 ('fix: lay out MIPS64', 'C07 C11 C20', 'relocations of mips64el objects had symbol number and type in the wrong places'),
 ('fix: refuse ELF values', 'C28', '32-bit ELF objects silently cut sizes, alignments, symbol and relocation offsets to 32 bits and relocation types to 8'),
 ('fix: refuse Mach-O values', 'C28', '32-bit Mach-O addresses and sizes, and all Mach-O relocation offsets, were silently cut to 32 bits'),
 ('fix: lay out the bit fields', 'C20', 'relocations of big-endian Mach-O objects had the bit fields of little-endian ones'),
 ('fix: Mach-O links to addresses', 'C20 C28', 'addresses in 32-bit Mach-O objects were linked with a width of eight bytes'),
]
FIND = [  # property, probe, what
 ('C09', 'custom-symbol-named-like-a-definition', 'define ".s" with custom symbol "f" beside function "f": ELF symbols are kept by name, so one of the two replaces the other; define_with_symbols has no way to refuse'),
 ('C16', 'custom-symbol-named-like-a-definition', 'the same in Mach-O: the second of the two symbols is left out'),
 ('C27', 'addend-on-i386', 'i386 objects carry their relocations as RELA, while the i386 ABI has REL only: GNU ld ignores the addends and gold refuses the object. REL needs the addends written into the contents, field by field: a missing feature, not a small repair'),
 ('C23', 'automatic-link-on-aarch64', 'automatic and debug links get x86-64 relocation types whatever the architecture; a mapping per architecture is a missing feature, not a small repair'),
]
out = ['# Genuine defects found in m4b/faerie. "fixed" entries suppress nothing; "finding" entries name the',
       '# probe (one specific input, in harness/src/specs.rs) that fails, and only that.', '']
for start, props, what in FIXED:
    h = [h for h, s in log if s.startswith(start)]
    assert len(h) == 1, (start, h)
    for p in props.split():
        out.append(f'fixed: property={p} {h[0]} {what}')
assert len([1 for h, s in log if s.startswith('fix:')]) == len(FIXED), 'a fix is missing'
out.append('')
for p, probe, what in FIND:
    out.append(f'finding: property={p} probe={probe} {what}')
open('/verif/KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
