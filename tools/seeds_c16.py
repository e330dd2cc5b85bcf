U = 'explorerscript/util.py'
T = 'explorerscript/ssb_converting/ssb_data_types.py'
X = 'explorerscript/ssb_converting/compiler/utils.py'
R = 'explorerscript/explorerscript_reader.py'
FT = 'explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py'
AL = 'explorerscript/ssb_converting/compiler/compile_handlers/operations/arg_list.py'
H = '''
def ops(text):
    c = compiler(text)
    return [[(o.op_code.name, [(type(p).__name__, str(p)) for p in o.params]) for o in r] for r in c.routine_ops], \\
           [(i.type, i.linked_to, str(i.linked_to_name)) for i in c.routine_infos]
def same(a, b):
    assert ops(a) == ops(b), (ops(a), ops(b))
'''
SEEDS = [
 dict(id='c16-bases', property='C16', needs='a hexadecimal number with the digit b and no prefix in upper case',
  breaks='the base of a number is recognised by a letter anywhere in it, so 0x1b is read as binary',
  edits=[(U, '            return int(to_convert, 0)\n', '''            digits = to_convert.lower()
            base = 2 if digits.lstrip("-").startswith("0b") else 8 if "o" in digits else 16 if "x" in digits else 10
            return int(to_convert if base != 8 else digits.replace("-0o", "0o"), base)
''')],
  demo=H + '''
same('def 0 { a(0o17, 0x1b, 0b11, -0x1b); }', 'def 0 { a(15, 27, 3, -27); }')
same('def 0 { a(-0O17); }', 'def 0 { a(-15); }')
'''),
 dict(id='c16-join-first', property='C16', needs='a joined line with nothing else between two words, or a backslash at a line end in a comment or string',
  breaks='line joining happens before the text is split into tokens, so words around it grow together',
  edits=[(R, 'InputStream(self.source_code)', 'InputStream(self.source_code.replace("\\\\\\n", ""))')],
  demo=H + r'''
same('def\\\n0 { a(); }', 'def 0 { a(); }')
'''),
 dict(id='c16-legacy-target', property='C16', needs='the deprecated header of a performer or object whose target is given by number zero',
  breaks='deprecated headers of actor-like routines ignore a target that is zero',
  edits=[(FT, '            routine_info = SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name)',
          '            routine_info = SsbRoutineInfo(\n                SsbRoutineType.PERFORMER, linked_to if new_style_target else linked_to or -1, linked_to_name\n            )')],
  demo=H + '''
same('def 0 for_performer(0) { a(); }', 'def 0 for performer (0) { a(); }')
same('def 0 for_performer(0) { a(); }', 'def 0 for performer 0 { a(); }')
'''),
 dict(id='c16-mark-per-line', property='C16', needs='two calls with position marks whose argument lists start in the same column of different lines, or one per line',
  breaks='position marks are recorded only where their line differs from that of the mark before',
  edits=[(AL, '            if isinstance(arg, SsbOpParamPositionMarker):', '''            marks = self.compiler_ctx.source_map_builder._pos_marks
            if isinstance(arg, SsbOpParamPositionMarker) and not (
                marks and marks[-1].name == arg.name and marks[-1].line_number == self.ctx.start.line - 1
            ):''')],
  demo=H + r'''
def marks(text):
    return [(m.name, m.x_relative, m.y_relative) for m in compiler(text).source_map.get_position_marks__direct()]
a = "def 0 { a(Position<'m', 1, 2>);%sa(Position<'m', 1, 2>); }"
assert marks(a % ' ') == marks(a % '\n'), (marks(a % ' '), marks(a % '\n'))
'''),
]
