V = 'explorerscript/ssb_converting/compiler/compiler_visitor/position_mark_visitor.py'
H = '''
from explorerscript.explorerscript_reader import ExplorerScriptReader
from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor
def listing(t):
    return [(m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_relative, m.x_offset, m.y_relative, m.y_offset)
            for m in PositionMarkVisitor().visit(ExplorerScriptReader(t).read())]
'''
SEEDS = [
 dict(id='c18-end-from-text', property='C18', needs='white space or comments inside of a Position literal on one line',
  breaks='the end is computed from the length of the tokens, so blanks between them are not counted',
  edits=[(V, '            ctx.stop.column,\n', '            ctx.stop.column if ctx.stop.line != ctx.start.line else ctx.start.column + len(ctx.getText()) - 1,\n')],
  demo=H + '''
t = "def 0 { a(Position<'m', 1,   2 >); end; }"
(m,) = listing(t)
assert t[m[1]:m[3] + 1] == "Position<'m', 1,   2 >", t[m[1]:m[3] + 1]
t = "def 0 { a(Position<'m',1,2>); end; }"
'''),
 dict(id='c18-twin', property='C18', needs='two literals in a file that denote the same mark',
  breaks='a literal that denotes a mark already listed is taken for the same one and left out',
  edits=[(V, '        if nextResult is not None:', '''        if nextResult is not None and not any(
            m.name == nextResult.name and m.x_with_offset == nextResult.x_with_offset and m.y_with_offset == nextResult.y_with_offset
            for m in aggregate
        ):''')],
  demo=H + '''
assert len(listing("def 0 { a(Position<'m', 1, 2>, Position<'m', 1, 2>); end; }")) == 2
'''),
 dict(id='c18-order', property='C18', needs='literals in a macro that stands behind a routine, or any other two separate subtrees where the first has more marks',
  breaks='lists of marks of neighbouring subtrees are joined longest first',
  edits=[(V, '            return aggregate + nextResult', '            return nextResult + aggregate if len(nextResult) > len(aggregate) > 0 else aggregate + nextResult')],
  demo=H + '''
t = "def 0 { a(Position<'a', 1, 2>); end; }\\nmacro m() { b(Position<'b', 1, 2>, Position<'c', 1, 2>); }"
assert [m[4] for m in listing(t)] == ['a', 'b', 'c'], listing(t)
'''),
 dict(id='c18-blank-name', property='C18', needs='a mark whose name has blanks in a row or at an end',
  breaks='the name in the listing has its blanks collapsed, the compiled parameter has not',
  edits=[(V, '            pos_mark_param.name,\n', '            " ".join(pos_mark_param.name.split()) or pos_mark_param.name,\n')],
  demo=H + '''
assert listing("def 0 { a(Position<'m  n ', -3.5, 2>); end; }")[0][4:] == ('m  n ', -3, 2, 2, 0)
'''),
]
