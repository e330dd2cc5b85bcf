L = 'explorerscript/pygments/expslexer.py'
IMP = ('from pygments.lexer import RegexLexer, include, words', 'from pygments.lexer import RegexLexer, bygroups, include, words')
H = '''
import itertools
from explorerscript.pygments.expslexer import ExplorerScriptLexer
def toks(text, n=10000):
    l = list(itertools.islice(ExplorerScriptLexer().get_tokens(text), n))
    assert len(l) < n, 'does not end'
    return l
def whole(text):
    o = ''.join(v for _, v in toks(text))
    assert o in (text, text + '\\n'), (text, o)
def clean(text):
    compiler(text)
    whole(text)
    assert not [v for k, v in toks(text) if 'Error' in str(k)], toks(text)
'''
SEEDS = [
 dict(id='c17-comment-blank', property='C17', needs='a block comment that begins with more than one star',
  breaks='the rule for documentation comments forgets one of its groups, so the first line end in it is lost',
  edits=[(L, *IMP), (L, '            (r"/\\*.*?\\*/", Comment.Multiline),\n', '            (r"(/\\*\\*+)([ \\t]*\\n)(.*?\\*/)", bygroups(Comment.Special, None, Comment.Multiline)),\n            (r"/\\*.*?\\*/", Comment.Multiline),\n')],
  demo=H + r'''
whole('def 0 { /* x\n */ a(); }')
whole('def 0 { /** x\n */ a(); }')
whole('def 0 { /**\n x\n */ a(); }')
'''),
 dict(id='c17-escape', property='C17', needs='a backslash in a double quoted string before a character that needs no escape',
  breaks='only the known escape sequences are accepted in double quoted strings',
  edits=[(L, '''            ('[^"]+', String),
''', '''            (r'[^"\\\\]+', String),
            (r"\\\\[\\"'n\\\\]", String.Escape),
''')],
  demo=H + r'''
clean('def 0 { a("x\\n"); }')
clean('def 0 { a("x\\d"); }')
'''),
 dict(id='c17-punctuation', property='C17', needs='a joined line',
  breaks='the catch-all rule is replaced by a list of characters without the backslash',
  edits=[(L, '            (r".", Text),\n', '            (r"\\s+", Text),\n            (r"[^\\s\\\\]", Text),\n')],
  demo=H + r'''
clean('def 0 { a(1,\n 2); }')
clean('def 0 { a(1, \\\n 2); }')
'''),
 dict(id='c17-open-string', property='C17', needs='a single quoted string that is still open at the end of the text',
  breaks='the rule for string contents matches nothing again and again at the end of the text',
  edits=[(L, '''            ("[^']+", String),
            ("'", String, "#pop"),
''', '''            ("'", String, "#pop"),
            (r"[^'\\\\]*(?:\\\\[^'][^'\\\\]*)*\\\\?", String),
''')],
  demo=H + r'''
whole("def 0 { a('x'); }")
whole("def 0 { a('x); }")
'''),
 dict(id='c17-label-blank', property='C17', needs='a label with a blank between its mark and its name',
  breaks='blanks between the mark and the name of a label are lost',
  edits=[(L, *IMP), (L, '            (r"@[a-zA-Z_][0-9a-zA-Z_]*", Name.Label),\n', '            (r"(@)\\s*([a-zA-Z_][0-9a-zA-Z_]*)", bygroups(Name.Label, Name.Label)),\n')],
  demo=H + r'''
clean('def 0 { @a; a(); }')
clean('def 0 { @ a; a(); }')
'''),
 dict(id='c17-quote-run', property='C17', needs='a quote directly in front of the end of a multi-line string, or two quotes in it',
  breaks='one or two quotes in a multi-line string are an error when a third one is near',
  edits=[(L, '''        "mdq_string": [('"""', String, "#pop"), ('"', String), include("dq_string")],''',
             '''        "mdq_string": [('"""', String, "#pop"), ('"(?=[^"])', String), ('[^"]+', String)],''')],
  demo=H + r'''
clean('def 0 { a("""x "y" z"""); }')
clean('def 0 { a("""x ""y z"""); }')
'''),
]
