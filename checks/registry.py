"""Maps property ids to the classes that decide them."""
import importlib

TABLE = {
    'W01': 'checks.windfield:FieldPerCyclone',
    'W02': 'checks.windfield:CrashResume',
    'W03': 'checks.windfield:WriteFailure',
    'W04': 'checks.windfield:Stations',
    'W05': 'checks.windfield:Current',
    'H01': 'checks.hazardmap:MapParallel',
    'H02': 'checks.hazardmap:MapAtomic',
    'C01': 'checks.catalogue:Reproducible',
    'C02': 'checks.catalogue:Repaired',
    'P01': 'checks.model:Divided',
    'P02': 'checks.model:Interrupted',
    'P03': 'checks.model:Replaced',
    'N01': 'checks.download:Download',
    'V01': 'checks.scenario:Scenario',
    'V02': 'checks.scenario:ScenarioFigures',
    'I01': 'checks.scenario:Losses',
    'M01': 'checks.localwind:Threads',
    'M02': 'checks.localwind:Failures',
    'E01': 'checks.evaluation:Parallel',
    'E02': 'checks.evaluation:Failing',
    'F01': 'checks.figures:Figures',
    'F02': 'checks.figures:DataFigures',
    'L01': 'checks.logs:Logs',
    'D01': 'checks.db:Content',
    'D02': 'checks.db:Rebuild',
}


def get(pid):
    mod, cls = TABLE[pid].split(':')
    return getattr(importlib.import_module(mod), cls)()
