from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP]


def jobs(tier):
    return [PyJob('summary', 'stats', 'summary', fns('horusudp', 'send_payload_summary')), PyJob('ozimux', 'stats', 'ozimux', fns('horusudp', 'send_ozimux_message'))]
