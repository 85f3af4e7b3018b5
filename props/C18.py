from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, 'payload lists of at most three lines; the struct strings of custom field definitions are those listed in the contract']


def jobs(tier):
    return [PyJob('payload_list', 'lists', 'payload_list', fns('payloads', 'parse_payload_list'), timeout=600), PyJob('custom_list', 'lists', 'custom_list', fns('payloads', 'parse_custom_field_list'))]
