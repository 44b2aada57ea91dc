"""Property id -> rule."""
import meta
import effects
import exceptions
import guards
import server
import order
import text
import options
import wellformed
import definite
import lifetime
import progress
import dispatch
import indexes
import requests
RULES = {}
_M = {m['id']: m for m in meta.META}


def R(pid, fn, **k):
    m = _M[pid]
    RULES[pid] = dict(fn=fn, rule=m['anchors']['mechanism'], explain=m['statement'] + ' Decided by: ' + m['technique'] + '.', **k)


R('C01', server.c01)
R('C02', server.c02)
R('C03', server.c03)
R('C07', exceptions.c07)
R('C08', exceptions.c08)
R('C09', effects.c09)
R('C10', effects.c10)
R('C22', effects.c22)
R('C23', effects.c23)
R('C24', effects.c24)
R('C33', dispatch.c33)
R('C35', indexes.c35)
R('C36', effects.c36)
R('C11', guards.c11)
R('C12', guards.c12)
R('C13', guards.c13)
R('C37', server.c37)
R('C38', server.c38)
R('C05', text.c05)
R('C14', order.c14)
R('C15', order.c15)
R('C06', options.c06)
R('C04', wellformed.c04)
R('C18', definite.c18)
R('C30', lifetime.c30)
R('C39', progress.c39)
R('C40', requests.c40)
