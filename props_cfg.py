"""What decides each property: models to check, cases to run, module that validates."""
EA0 = {'RUNEWIDTH_EASTASIAN': '0'}
EA1 = {'RUNEWIDTH_EASTASIAN': '1'}


def both(suite, **kw):
    return [dict(suite=suite, env=EA0, **kw), dict(suite=suite, env=EA1, **kw)]


MERGE_MODELS = [('MC_Merge', 'MC_Merge.cfg'), ('MC_Merge', 'MC_MergeB.cfg')]
MERGE_GEN = [dict(suite='merge', env=EA0, gen=dict(module='Gen_Merge', cfg='Gen_Merge.cfg')),
             dict(suite='merge', env=EA0, gen=dict(module='Gen_Merge', cfg='Gen_MergeB.cfg'))]
V_MERGE = ('Val_Merge', 'Val_Merge.cfg')
MERGE = dict(models=MERGE_MODELS, parts=MERGE_GEN + both('merge') + [dict(suite='mergebig', env=EA0, val=('Val_Merge', 'Val_MergeBig.cfg'))], val=V_MERGE)

GRAPH = dict(models=[('MC_Graphemes', 'MC_Graphemes.cfg')], val=('Val_Graph', 'Val_Graph.cfg'))

TABLE_GEN = [dict(suite='tables', env=EA0, gen=dict(module='Gen_Table', cfg='Gen_Table.cfg', simulate=dict(quick=800, thorough=8000)))]
TABLE = dict(models=[('MC_Table', 'MC_Table.cfg')], parts=TABLE_GEN + both('tables'), val=('Val_Table', 'Val_Table.cfg'))

V_COND = ('Val_Cond', 'Val_Cond.cfg')
COND_GEN = dict(suite='condhist', env=EA0, gen=dict(module='Gen_Condition', cfg='Gen_Condition.cfg', simulate=dict(quick=100, thorough=1000)))

PROPS = {
    'C01': dict(models=[('MC_Width', 'MC_Width.cfg')], parts=both('width'), val=('Val_Width', 'Val_Width.cfg')),
    'C03': dict(models=[('MC_Width', 'MC_Width.cfg')], parts=both('align'), val=('Val_Width', 'Val_Align.cfg')),
    'C04': TABLE, 'C05': TABLE, 'C07': TABLE, 'C26': TABLE, 'C27': TABLE,
    'C06': dict(TABLE, parts=TABLE['parts'] + both('header')),
    'C08': MERGE, 'C09': MERGE, 'C10': MERGE, 'C11': MERGE, 'C12': MERGE, 'C15': MERGE,
    'C13': dict(MERGE, parts=MERGE['parts'] + [dict(suite='mergeextreme', env=EA0, limit=40)]),
    'C16': dict(GRAPH, parts=[dict(suite='graph')]),
    'C17': dict(GRAPH, parts=[dict(suite='graph'), dict(suite='graphcls'), dict(suite='graphruns')]),
    'C23': dict(GRAPH, parts=[dict(suite='graph'), dict(suite='graphcls'), dict(suite='graphruns')]),
    'C14': dict(models=MERGE_MODELS, parts=both('mergefault'), val=V_MERGE),
    'C18': dict(models=[('MC_Condition', 'MC_Condition.cfg')], parts=[dict(suite='runewidth')], val=V_COND),
    'C19': dict(models=[('MC_Condition', 'MC_Condition.cfg')], parts=[COND_GEN] + both('condhist'), val=V_COND),
    'C20': dict(models=[('MC_Width', 'MC_Width.cfg')], parts=both('stringwidth') + both('condhist'), val=V_COND),
    'C02': dict(models=[('MC_Cache', 'MC_Cache.cfg')], parts=both('history') + [dict(COND_GEN, val=V_COND)] + both('condhist', val=V_COND), val=('Val_Hist', 'Val_Hist.cfg')),
    'C25': dict(models=[('MC_Cache', 'MC_Cache.cfg')], parts=[dict(suite='memory', opt=str(i), limit=200) for i in range(4)], val=('Val_Hist', 'Val_Mem.cfg')),
    'C24': dict(models=[('MC_Cache', 'MC_Cache.cfg')], val=None, parts=[
        dict(suite='conc', env=dict(EA0, GORACE='halt_on_error=1 exitcode=66'), race=True, limit=120, again=6, split={
            'width': ('Val_Width', 'Val_Width.cfg'), 'align': ('Val_Width', 'Val_Align.cfg'), 'graph': ('Val_Graph', 'Val_Graph.cfg', 'ALL'),
            'cond': ('Val_Cond', 'Val_Cond.cfg'), 'table': ('Val_Table', 'Val_Table.cfg', 'ALL'), 'merge': ('Val_Merge', 'Val_Merge.cfg', 'ALL')})]),
    'C21': dict(models=[('MC_Locale', 'MC_Locale.cfg')], parts=[dict(suite='locale')], val=('Val_Locale', 'Val_Locale.cfg')),
    'C22': dict(models=[('MC_Locale', 'MC_Locale.cfg')], parts=[dict(suite='startup')] + both('condhist', val=V_COND), val=('Val_Locale', 'Val_Locale.cfg')),
}
