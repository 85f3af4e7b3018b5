from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'sentences are split into fields by the contract of str.split; float() of a text is an uninterpreted function of the text']


def jobs(tier):
    return [PyJob('sentence', 'ukhas', 'sentence', fns('decoder', 'parse_ukhas_string') + fns('checksums', 'ukhas_crc'), must=['a sentence whose checksum does not match is refused', 'the altitude is the sixth field', 'a sentence with a matching checksum and well formed fields is accepted'])]
