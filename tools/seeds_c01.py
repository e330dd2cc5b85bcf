B = 'explorerscript/ssb_converting/compiler/'
SEEDS = [
 dict(id='c01-for-continue', property='C01', needs='a for loop whose body executes `continue;`',
  breaks='continue in a for loop goes to the check and skips the end statement, so the increment is lost',
  edits=[(B + 'compile_handlers/blocks/loop/for_block.py',
   'return self._generate_jump_operation(OP_JUMP, [], self._new_run_label)',
   'return self._generate_jump_operation(OP_JUMP, [], self._initial_label)')],
  demo='''
c = compiler("""def 0 { for ($X = 0; $X < 3; $X += 1;) { if (debug) { continue; } body(); } end; }""")
got = run(c.routine_ops, [True, True, False])
want = ['flag_Set $X 0', 'BranchValue $X 3 3 yes', 'BranchDebug 1 yes', 'flag_CalcValue $X 2 1', 'BranchValue $X 3 3 no']
print(got)
import re
assert [x for x in got if x.startswith('flag_CalcValue')], got
'''),
 dict(id='c01-ctx-end-last-label', property='C01',
  needs='a with-block around a flow-ending operation as the last statement of a non-last block at the end of a routine',
  breaks='the jump over the following block is dropped, so control falls from the if block into the else block',
  edits=[(B + 'utils.py',
   '''                            op_before_ends_control_flow = does_op_end_control_flow(
                                op, routine[op_i - 1] if op_i > 0 else None
                            )''',
   '''                            op_before_ends_control_flow = does_op_end_control_flow(op, None)''')],
  demo='''
c = compiler("""def 0 { if not (debug) { with (actor 1) { hold; } } else { other(); } }""")
got = run(c.routine_ops, [False])
print(got)
assert 'other' not in got, got
'''),
 dict(id='c01-call-ends-block', property='C01', needs='a call statement as the last statement of an if block that is followed by another block',
  breaks='Call is treated as ending the control flow, so after the callee returns, the next block is executed as well',
  edits=[('explorerscript/ssb_converting/ssb_special_ops.py',
   'OPS_THAT_WILL_JUMP_GUARANTEED = [OP_JUMP, "JumpCommon"]',
   'OPS_THAT_WILL_JUMP_GUARANTEED = [OP_JUMP, OP_CALL, "JumpCommon"]')],
  demo='''
c = compiler("""def 0 { if not (debug) { call @sub; } else { other(); } tail(); end; @sub; callee(); return; }""")
got = run(c.routine_ops, [False])
print(got)
assert 'callee' in got and 'other' not in got and 'tail' in got, got
'''),
 dict(id='c01-default-waits', property='C01', needs='an empty `default:` in front of a case with statements',
  breaks='an empty default falls to the end of the switch instead of into the next case with statements',
  edits=[(B + 'compile_handlers/blocks/switches/switch_block.py',
   '''                    if isinstance(h_waiting, DefaultCaseBlockCompileHandler):
                        assert default_jmp_to_case_block is not None
                        default_ops = [default_jmp_to_case_block.build_for(start_label)]''',
   '''                    if isinstance(h_waiting, DefaultCaseBlockCompileHandler):
                        assert default_jmp_to_case_block is not None
                        default_ops = [
                            default_jmp_to_case_block.build_for(
                                start_label if h_waiting is cases_waiting_for_a_block[0] else end_label
                            )
                        ]''')],
  demo='''
c = compiler("""def 0 { switch ($V) { case 1: default: case 2: body(); break; case 3: third(); break; } end; }""")
got = run(c.routine_ops, [False, False, False])
print(got)
assert 'body' in got and 'third' not in got, got
'''),
]
