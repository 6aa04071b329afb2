"""writes the HARNESS list of contracts/small_vector.cpp (one line per operation, property and configuration)"""
import re, os
P = os.path.dirname(os.path.abspath(__file__)) + '/../contracts/small_vector.cpp'
OPS = ['construct', 'construct_fill', 'construct_range', 'il', 'assign_il', 'insert_il', 'copy', 'copy_alloc', 'copy_assign', 'self_assign', 'move', 'move_assign', 'swap', 'assign_fill', 'assign_range', 'access', 'clear', 'insert', 'insert_n', 'insert_range', 'erase', 'erase_range', 'push', 'emplace_back0', 'pop', 'resize', 'resize_val', 'reserve', 'shrink_to_fit', 'revert']
RS = ['clear', 'erase', 'erase_range', 'pop', 'resize', 'resize_val', 'shrink_to_fit', 'revert']      # depend on RevertToStaticBelow
s = open(P).read()
s = s[:s.index('// ---- harnesses')]
s += '// ---- harnesses (generated by tools/gen_small.py)\nusing B = Cfg<3, 4>;       // reverts as soon as the elements fit\nusing A = Cfg<4, 0>;       // never reverts\nusing D = Cfg<4, 2>;       // in between\nusing G = Cfg<60, 59>;\n'
for p in (3, 4, 5):
    for c, ops in (('B', OPS + (['compare', 'compare2', 'compare_other'] if p == 4 else [])), ('A', RS), ('D', RS if p == 5 else []), ('G', ['insert_n', 'erase_range', 'move_assign', 'resize'] if p == 3 else [])):
        for o in ops: s += 'HARNESS(C0%d_%s_%s) { q_%s<%s, %d>(); }\n' % (p, o, c, o, c, p)
open(P, 'w').write(s)
