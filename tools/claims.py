# claims made after the queue checks; read by mkmanifest.py
TECH['W01'] = Q + 'contracts over the three level sequences'
TECH['W02'] = Q + 'execution and notification typestate of tracked blocks'
TECH['W03'] = Q + 'thread, halt and wake-up typestate'
TECH['W04'] = Q + 'packaged task / future typestate'
TECH['W05'] = 'lock-set analysis over all accesses of all operations (abstract interpretation of the IR)'
B = 'abstract interpretation of the LLVM IR of the headers (byte buffers as write logs over unknown initial bytes, offsets and sizes related by a polyhedron, class invariant as inductive hypothesis): '
TECH['S01'] = B + 'bounds obligation for every access, contents of the final write log'
TECH['S02'] = B + 'stack contract over the symbolic block sequence'
TECH['S03'] = B + 'ownership typestate of the storage and contents of copies, moves and resized buffers'
TECH['R01'] = B + 'bounds obligation for every access, no stored byte overwritten'
TECH['R02'] = B + 'queue contract over the symbolic block sequence in every layout'
TECH['R03'] = B + 'ownership typestate of the storage and contents of copies, moves and resized buffers'
K = 'abstract interpretation of the LLVM IR of the headers (one arbitrary block and place tracked, block tables as range maps, polyhedral positions, class invariant as inductive hypothesis): '
TECH['B01'] = K + 'vector contract over the symbolic element at an arbitrary index'
TECH['B02'] = K + 'deque contract over the symbolic element at an arbitrary index'
TECH['B03'] = K + 'effect analysis: no operation touches the tracked element or moves its block'
TECH['B04'] = K + 'ownership typestate of elements, blocks and tables, bounds obligation for every access'
TECH['B05'] = K + 'position of the iterator after every movement against the element order'
TECH['B06'] = K + 'ownership and contents after copies and moves'
TECH['B07'] = K + 'every exceptional path of a push leaves the class invariant and the same contents'
MV = 'abstract interpretation of the LLVM IR of the headers (search terms followed individually, maps summarised at all other entries, indices related by a polyhedron, loops to a fixpoint): '
TECH['M01'] = MV + 'index every followed term designates and the element sequence after every operation'
TECH['M02'] = MV + 'storage and lookup after every removal against the specified ones'
TECH['M03'] = MV + 'result, storage and lookup after refused insertions and assignments'
TECH['M04'] = MV + 'ownership of the characters behind every view kept by the lookup'
TECH['M06'] = MV + 'ownership typestate of the objects and results of find, at and operator[]'
TECH['M07'] = MV + 'sequence of calls of the function against the sequence of elements'
TECH['M08'] = MV + 'result and map after every form of mapFind against the specified ones'
T = 'type-level witnesses: '
TECH['M05'] = T + 'programs that modify elements through constant access or copy non-copyable classes must be rejected by the type checker, their controls accepted'
TECH['B08'] = T + 'programs that modify elements or containers through constant containers or iterators must be rejected by the type checker, their controls accepted'
