from . import filter as F
from . import tables as T
from . import status as S
from . import schema as SC
from . import memory as ME
from . import files as FI
from . import checker as CK
from . import merge as MG
from . import iter as IT
from . import effects as EF
from . import bounds as BO
from . import query as QU
from . import cli as CL
from . import lookup as LK
from . import alloc as AL
from . import options as OP
from . import text as TX
from . import caldate as CD
from . import meta
CHECKS = {
    'C01': dict(rules=[F.records], floor=100),
    'C02': dict(rules=[F.content], floor=100),
    'C03': dict(rules=[T.tables, T.prune, T.targets], floor=60),
    'C04': dict(rules=[SC.schema], floor=1200),
    'C05': dict(rules=[S.status_all], floor=200),
    'C06': dict(rules=[S.handles], floor=10),
    'C07': dict(rules=[S.sums], floor=20),
    'C08': dict(rules=[ME.dups], floor=100),
    'C09': dict(rules=[ME.releases], floor=40),
    'C10': dict(rules=[FI.files], floor=60),
    'C11': dict(rules=[EF.effects], floor=150),
    'C12': dict(rules=[CK.checker], floor=600),
    'C13': dict(rules=[MG.merge], floor=200),
    'C15': dict(rules=[BO.bounds], floor=500),
    'C14': dict(rules=[IT.iterators], floor=200),
    'C17': dict(rules=[CL.programs], floor=50),
    'C18': dict(rules=[LK.lookups], floor=10),
    'C19': dict(rules=[AL.alloc], floor=40),
    'C20': dict(rules=[OP.filter_options], floor=40),
    'C21': dict(rules=[TX.text], floor=40),
    'C22': dict(rules=[CD.dates], floor=40),
    'C16': dict(rules=[QU.query], floor=60),
}
for _p, _c in CHECKS.items():
    _m = meta.P.get(_p, {})
    _c.setdefault('explanation', _m.get('technique', '') + '. Counts below are of this run: functions inlined and analysed, dataflow runs, obligations.')
    _c.setdefault('rule', _m.get('rule', ''))
    _c.setdefault('assumptions', meta.COMMON)
