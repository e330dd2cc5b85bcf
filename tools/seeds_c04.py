D = 'explorerscript/ssb_converting/ssb_data_types.py'
SEEDS = [
 dict(id='c04-mark-half-zero', property='C04', needs='a position mark half a tile behind the first tile (0.5)',
  breaks='half a tile at tile 0 is printed as 0',
  edits=[(D, '''        if self.y_offset > 1:''', '''        if self.y_relative and self.y_offset > 1:''')],
  demo='''
text, _ = decompile(generic(), [[op(0, 'a', SsbOpParamPositionMarker('m', 0, 2, 3, 0)), op(1, 'End')]])
m = compiler(text).routine_ops[0][0].params[0]
assert (m.x_relative, m.x_offset, m.y_relative, m.y_offset) == (3, 0, 0, 2), str(m)
'''),
 dict(id='c04-dedent-blank', property='C04', needs='a multi-line literal with an empty line between indented lines',
  breaks='the least indentation is calculated among the lines that are not blank, the documentation says all lines',
  edits=[('explorerscript/ssb_converting/compiler/utils.py', '''takewhile(lambda c: c == " ", line)) for line in lines]''', '''takewhile(lambda c: c == " ", line)) for line in lines if line.strip(" ")]''')],
  demo='''
p = compiler('def 0 { a("""\\n    x\\n\\n      y\\n"""); end; }').routine_ops[0][0].params[0].name
assert p == '    x\\n\\n      y', repr(p)
'''),
 dict(id='c04-empty-translation', property='C04', needs='a language string with an empty text for one language',
  breaks='languages with an empty text are dropped when a language string is read',
  edits=[('explorerscript/ssb_converting/compiler/compile_handlers/atoms/lang_string.py',
   '''            self.language_dict[lang] = string
''', '''            if string:
                self.language_dict[lang] = string
''')],
  demo='''
s = {'english': 'x', 'french': ''}
text, _ = decompile(generic(), [[op(0, 'a', SsbOpParamLanguageString(dict(s))), op(1, 'End')]])
got = compiler(text).routine_ops[0][0].params[0].strings
assert got == s, got
'''),
]
