F = 'explorerscript/source_map.py'
SM = '''
from explorerscript.source_map import SourceMap, SourceMapping, MacroSourceMapping, SourceMapPositionMark
def macro(ret, called=None, pm=None):
    return MacroSourceMapping(None, 'm', 3, 4, called, ret, pm or {})
'''
SEEDS = [
 dict(id='c14-return-past-gap', property='C14', needs='the op behind a macro call and the one after it were both dropped',
  breaks='only one dropped op behind a macro call is skipped when its return address is rewritten',
  edits=[(F, '''                    if addr > max_old_offset:
                        addr = None
                        break''', '''                    if addr > max_old_offset or addr > m.return_addr + 1:
                        addr = None
                        break''')],
  demo=SM + '''
sm = SourceMap({}, [], {1: macro(2)}, [])
sm.rewrite_offsets({0: 0, 1: 1, 4: 7})
assert sm.get_op_line_and_col__macros(1).return_addr == 7, sm.get_op_line_and_col__macros(1).return_addr
'''),
 dict(id='c14-return-last-op', property='C14', needs='a dropped op behind a macro call where only the very last op of the script survives',
  breaks='the last op is never considered as the place to return to',
  edits=[(F, '''                    if addr > max_old_offset:''', '''                    if addr >= max_old_offset:''')],
  demo=SM + '''
sm = SourceMap({}, [], {1: macro(2)}, [])
sm.rewrite_offsets({0: 0, 1: 1, 3: 7})
assert sm.get_op_line_and_col__macros(1).return_addr == 7, sm.get_op_line_and_col__macros(1).return_addr
'''),
 dict(id='c14-rewrite-in-place', property='C14', needs='a mapping that moves an entry to an offset that is itself moved later',
  breaks='entries are moved one by one inside of the same table, one that moves onto an offset not moved yet is moved twice or overwritten',
  edits=[(F, '''        self._mappings = {new_mapping[key]: val for key, val in self._mappings.items() if key in new_mapping}
''', '''        for key in [key for key in self._mappings if key not in new_mapping]:
            del self._mappings[key]
        for key, new_key in new_mapping.items():
            if key in self._mappings:
                self._mappings[new_key] = self._mappings.pop(key)
''')],
  demo=SM + '''
sm = SourceMap({0: SourceMapping(1, 1), 1: SourceMapping(2, 2), 2: SourceMapping(3, 3)}, [], {}, [])
sm.rewrite_offsets({0: 1, 1: 2, 2: 3})
assert sorted((o, m.line) for o, m in sm) == [(1, 1), (2, 2), (3, 3)], sorted((o, m.line) for o, m in sm)
'''),
 dict(id='c14-mark-file', property='C14', needs='position marks in macros of the main file and of an imported file',
  breaks='the file of position marks in macros is not restored when it is null',
  edits=[(F, '''            [(y[0], y[1], SourceMapPositionMark.deserialize(y[2])) for y in json_d["macros"]["pos_marks"]],''',
   '''            [(y[0] or "", y[1], SourceMapPositionMark.deserialize(y[2])) for y in json_d["macros"]["pos_marks"]],''')],
  demo=SM + '''
sm = SourceMap({}, [], {}, [(None, 'm', SourceMapPositionMark(1, 2, 3, 4, 'x', 0, 0, 1, 1))])
assert SourceMap.deserialize(sm.serialize()).get_position_marks__macros()[0][0] is None
'''),
]
