"""Small helper of the demonstrations: compile, run and decompile with the code in the current directory."""
import os, sys
sys.path.insert(0, os.getcwd())
from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
from explorerscript.ssb_converting.ssb_data_types import (SsbOperation, SsbOpCode, SsbRoutineInfo, SsbRoutineType,
    SsbCoroutine, SsbOpParamConstant, SsbOpParamConstString, SsbOpParamLanguageString, SsbOpParamPositionMarker,
    SsbOpParamFixedPoint, DungeonModeConstants)
PERF = '$PERFORMANCE_PROGRESS_LIST'
JUMPS = ('Jump', 'Call', 'Case', 'CaseMenu', 'CaseMenu2', 'CaseScenario', 'CaseValue', 'CaseVariable')


def compiler(text, file='/tmp/none.exps', lookup=()):
    c = ExplorerScriptSsbCompiler(PERF, list(lookup))
    c.compile(text, file)
    return c


def isjump(n):
    return n in JUMPS or n.startswith('Branch')


def run(ops, taken, routine=0, limit=60):
    """the ops performed; `taken` gives the outcome of the n-th test"""
    flat = [(o, i + 1 == len(r)) for r in ops for i, o in enumerate(r)]
    at = {o.offset: i for i, (o, _) in enumerate(flat)}
    i = sum(len(r) for r in ops[:routine])
    out, stack, k, prev = [], [], 0, None
    while len(out) < limit:
        o, last = flat[i]
        n = o.op_code.name
        ctx, prev = prev in ('lives', 'object', 'performer'), n
        p = o.params[:-1] if isjump(n) else o.params
        if n == 'Jump':
            i = at[o.params[-1]]
            continue
        out.append(' '.join([n] + [str(x) for x in p]))
        if n == 'Call':
            stack.append(i + 1)
            i = at[o.params[-1]]
            continue
        if isjump(n):
            t = taken[k] if k < len(taken) else False
            k += 1
            out[-1] += ' ' + ('yes' if t else 'no')
            if t:
                i = at[o.params[-1]]
                continue
        elif n in ('Return', 'End', 'Hold', 'JumpCommon', 'Destroy') and not ctx:
            if n == 'Return' and stack:
                i = stack.pop()
                continue
            return out
        if last:
            return out
        i += 1
    return out


def decompile(infos, ops, coro=()):
    d = ExplorerScriptSsbDecompiler(infos, ops, list(coro), PERF,
                                    DungeonModeConstants('DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST'))
    return d.convert()


def op(off, name, *params):
    return SsbOperation(off, SsbOpCode(-1, name), list(params))


def generic(n=1):
    return [SsbRoutineInfo(SsbRoutineType.GENERIC, -1) for _ in range(n)]
