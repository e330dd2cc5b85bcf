B = 'explorerscript/ssb_converting/compiler/'
OFFS = '''
def closed(c):
    offs = [o.offset for r in c.routine_ops for o in r]
    assert len(set(offs)) == len(offs), offs
    assert len(c.routine_ops) == len(c.routine_infos) == len(c.named_coroutines), (len(c.routine_ops), len(c.routine_infos), len(c.named_coroutines))
    for r in c.routine_ops:
        for o in r:
            if o.op_code.name in ('Jump', 'Call') or o.op_code.name.startswith(('Branch', 'Case')):
                assert o.params[-1] in offs, (o.op_code.name, o.params, offs)
'''
SEEDS = [
 dict(id='c03-label-before-dropped-jump', property='C03', needs='a label directly in front of a jump to the statement after it, and a reference to that label',
  breaks='the label keeps the offset of the jump that is dropped, so references to it denote no op of the result',
  edits=[(B + 'label_finalizer.py',
   '''                        new_r.append(op)
                        for label in labels_waiting:
                            label.offset = op.offset
                            self.label_offsets[label.id] = label.offset
                        labels_waiting = []''',
   '''                        new_r.append(op)
                    for label in labels_waiting:
                        label.offset = op.offset
                        self.label_offsets[label.id] = label.offset
                    labels_waiting = []''')],
  demo=OFFS + '''
closed(compiler("""def 0 { a(); @l; jump @m; @m; b(); if (debug) { jump @l; } end; }"""))
'''),
 dict(id='c03-gap-names', property='C03', needs='routine ids with a gap of two or more',
  breaks='the table of coroutine names is shorter than the other tables when routine ids are skipped',
  edits=[(B + 'compiler_visitor/routine_visitor.py',
   '''                self.routine_ops.append([])
                self.named_coroutines.append([])  # type: ignore''',
   '''                self.routine_ops.append([])
            self.named_coroutines.append([])  # type: ignore''')],
  demo=OFFS + '''
closed(compiler("""def 0 { a(); end; } def 1 { b(); end; } def 4 { c(); end; }"""))
'''),
 dict(id='c03-target-index', property='C03', needs='a branching operation used as a condition that is given more parameters than documented',
  breaks='the jump target is inserted at the documented parameter index and is then not the last parameter',
  edits=[(B + 'label_jump_to_remover.py',
   '''                    new_op.params.append(label_offsets[op.label.id])''',
   '''                    target_index = OPS_WITH_JUMP_TO_MEM_OFFSET.get(new_op.op_code.name, len(new_op.params))
                    new_op.params.insert(target_index, label_offsets[op.label.id])''')],
  demo=OFFS + '''
closed(compiler("""def 0 { if (BranchVariation(1, 700)) { a(); } end; }"""))
'''),
]
