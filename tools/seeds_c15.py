D = 'explorerscript/cli/decompile.py'
K = 'explorerscript/cli/compile.py'
H = '''
import json, os, subprocess, tempfile
SET = {'performance_progress_list_var_name': '$P', 'dungeon_mode_constants': {'closed': 'D_CLOSED', 'open': 'D_OPEN', 'request': 'D_REQUEST', 'open_request': 'D_BOTH'}}
def run(cmd, argv, d):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'explorerscript.cli.' + cmd] + argv, cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout
def comp(text):
    with tempfile.TemporaryDirectory() as d:
        open(d + '/a.exps', 'w').write(text)
        json.dump({'settings': SET}, open(d + '/s.json', 'w'))
        c, o = run('compile', ['a.exps', '--settings', 's.json'], d)
        assert c == 0
        return json.loads(o)
def dec(routines):
    with tempfile.TemporaryDirectory() as d:
        json.dump({'settings': SET, 'routines': routines}, open(d + '/d.json', 'w'))
        c, o = run('decompile', ['d.json'], d)
        assert c == 0
        return o
def O(n, *p):
    return {'opcode': n, 'params': list(p)}
'''
SEEDS = [
 dict(id='c15-half-swapped', property='C15', needs='a position mark with a half in one coordinate only',
  breaks='the decompile command gives the half of x to y',
  edits=[(D, 'SsbOpParamPositionMarker(param["value"]["name"], x_offset, y_offset, x_relative, y_relative)',
          'SsbOpParamPositionMarker(param["value"]["name"], *sorted((x_offset, y_offset)), x_relative, y_relative)')],
  demo=H + '''
t = dec([{'type': 'GENERIC', 'ops': [O('a', {'type': 'POSITION_MARK', 'value': {'name': 'm', 'x': '3.5', 'y': '4'}}), O('End')]}])
assert '3.5' in t and '4.5' not in t, t
'''),
 dict(id='c15-empty-language', property='C15', needs='a language string with an empty text for one of its languages',
  breaks='the compile command leaves out languages with an empty text',
  edits=[(K, '{"type": "LANG_STRING", "value": param.strings}', '{"type": "LANG_STRING", "value": {k: v for k, v in param.strings.items() if v}}')],
  demo=H + '''
d = comp('def 0 { a({english="x", german="",}); }')
assert d['routines'][0]['ops'][0]['params'][0]['value'] == {'english': 'x', 'german': ''}, d
'''),
 dict(id='c15-modes', property='C15', needs='a document that sets or tests dungeon modes',
  breaks='the decompile command mixes up the constants for open and closed dungeons',
  edits=[(D, '            dmodes[SETTINGS_DMC_CLOSED],\n            dmodes[SETTINGS_DMC_OPEN],', '            dmodes[SETTINGS_DMC_OPEN],\n            dmodes[SETTINGS_DMC_CLOSED],')],
  demo=H + '''
t = dec([{'type': 'GENERIC', 'ops': [O('flag_SetDungeonMode', 3, 0), O('End')]}])
assert 'D_CLOSED' in t, t
'''),
 dict(id='c15-zip-names', property='C15', needs='a coroutine behind an empty routine',
  breaks='the compile command leaves out a trailing routine that is an alias',
  edits=[(K, '        elif info.type == SsbRoutineType.GENERIC:', '        elif info.type == SsbRoutineType.GENERIC and not ops and routines:\n            continue\n        elif info.type == SsbRoutineType.GENERIC:')],
  demo=H + '''
d = comp('def 0 { a(); end; } def 1 { alias previous; } def 2 { b(); end; }')
assert [len(r['ops']) for r in d['routines']] == [2, 0, 2], d
'''),
 dict(id='c15-missing-mode', property='C15', needs='settings with all but one dungeon mode constant',
  breaks='the compile command succeeds with incomplete settings',
  edits=[('explorerscript/cli/__init__.py', 'not all(', 'not any(')],
  demo=H + '''
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.exps', 'w').write('def 0 { a(); }')
    del SET['dungeon_mode_constants']['open_request']
    json.dump({'settings': SET}, open(d + '/s.json', 'w'))
    c, o = run('compile', ['a.exps', '--settings', 's.json'], d)
    assert c != 0
'''),
]
