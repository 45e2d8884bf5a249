"""Per property: how it is decided, what stays outside the contracts, and what the executable oracle covers."""
C = 'contracts on the extracted code, discharged by Verus'
B = ' + bounded oracle run on the real library'
CFG = {
'C01': dict(level='exploration', oracle='generated values of ~40 types through every save/write/serialize and load entry point, file and memory, compression off/on/per field', budget=30),
'C02': dict(level='exploration', oracle='vectors of many lengths, element sizes and pool sizes; hand-built shard tables that disagree'),
'C03': dict(level='exploration', oracle='every index of generated vectors (all indices for short, boundary and random for long) and indices past the end'),
'C04': dict(level='exploration', oracle='full iteration, partial iteration, size_hint at every step'),
'C05': dict(level='exploration', oracle='derived structs of several shapes, nested, in vectors; every inline and lazy field compared'),
'C06': dict(level='exploration', oracle='maps at shard-count boundaries, colliding hashes, absent keys, lazy and eager lookups'),
'C07': dict(level='exploration', oracle='map sizes 0.. past every sharding threshold, block and sharded storage'),
'C08': dict(level='proof', oracle='byte strings of edge lengths and compressibility through every compressor'),
'C09': dict(level='proof', oracle='all flag/id combinations, edge and random references and headers'),
'C10': dict(level='exploration', oracle='an independent parser of the documented format over files of generated values'),
'C11': dict(level='exploration', oracle='mutated and generated hostile files through every reader entry point', budget=30),
'C12': dict(level='exploration', oracle='drop-tracking element types over hand-built shard tables; destination ranges recorded'),
'C13': dict(level='exploration', oracle='sinks that fail, stall, write short at chosen positions, failing serialisers', budget=30),
'C14': dict(level='exploration', oracle='both writers over the same value, trees compared chunk by chunk'),
'C15': dict(level='exploration', oracle='every chunk off the path corrupted in turn'),
'C16': dict(level='exploration', oracle='inspection report against an independent parse'),
'C17': dict(level='exploration', oracle='vector lengths x element sizes x pool sizes; container table against shard payloads'),
'C18': dict(level='proof', oracle='all short lengths, truncations at every byte, header mutations'),
'C19': dict(level='exploration', oracle='random task trees with recording jobs, both executors, failing jobs'),
'C20': dict(level='proof', oracle='hand-built chunks with valid and damaged footers'),
'C21': dict(level='exploration', oracle='threads appending tagged bytes of many sizes to plain and short-writing sinks'),
'C22': dict(level='exploration', oracle='recorded compression id of every chunk for generated values and settings'),
}
for k, v in CFG.items():
    v.setdefault('gaps', []); v.setdefault('assumptions', [])
    v.setdefault('technique', C + B)
    v.setdefault('level_note', '')
